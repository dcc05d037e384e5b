// P17: data sets keep exact multiplicities through reading, adding and writing.
#include "common.h"
#include <psdd/binary_data.h>
#include <fstream>
#include <new>
typedef std::bitset<MAX_VAR> Big;
typedef std::vector<int> Rec;                      // true variables, ascending
struct Model { std::map<Rec, uint64_t> m; uint64_t n = 0; uint32_t vars = 0; bool knowVars = false; };
static Rec rec(const Big &b, int upTo) {
  Rec r;
  for (int i = 0; i <= upTo; ++i)
    if (b[i]) r.push_back(i);
  return r;
}
static void same(const BinaryData &d, const Model &m, int top, const char *what) {
  std::string s = what;
  auto L = [&](const char *t) { static std::string k; k = s + ": " + t; return k.c_str(); };
  vp_assert(d.data_size() == m.n, L("number of examples"));
  if (m.knowVars) vp_assert(d.variable_size() == m.vars, L("number of variables"));
  vp_assert(d.data().size() == m.m.size(), L("exactly the distinct records"));
  uint64_t seen = 0;
  for (auto &p : d.data()) {
    Rec r = rec(p.first, top);
    vp_assert(p.first.count() == r.size(), L("nothing outside the variables"));
    auto it = m.m.find(r);
    vp_assert(it != m.m.end() && p.second == it->second, L("multiplicities"));
    ++seen;
  }
  vp_assert(seen == m.m.size(), L("exactly the distinct records"));
  if (m.n) {
    double e = 0;
    for (auto &p : m.m) e += (double)p.second / m.n * std::log((double)p.second / m.n);
    vp_assert(std::fabs(d.CalculateEntropy() - e) < 1e-9, L("entropy"));
  }
}
// memory that was used before
static BinaryData *fresh() {
  char *raw = (char *)malloc(sizeof(BinaryData));
  for (size_t i = 0; i < sizeof(BinaryData); ++i) ((volatile char *)raw)[i] = (char)0xa5;
  return new (raw) BinaryData;
}
static void drop(BinaryData *d) {
  d->~BinaryData();
  free(d);
}
static const char *writeText(const std::string &t) {
  const char *f = vp_tmp();
  std::ofstream o(f, std::ios::binary);
  o << t;
  o.close();
  return f;
}
// a CSV text over symbolic bits; the model gets the rows as the solver decides them
struct Csv { std::string text; std::vector<std::vector<uint64_t>> bits; };
static Csv csv(int rows, int cols, int layout) {
  Csv c;
  for (int r = 0; r < rows; ++r) {
    std::vector<uint64_t> b;
    for (int k = 0; k < cols; ++k) {
      uint64_t x = vp_bits("bit", 32);
      vp_assume(x <= 1);
      b.push_back(x);
      if (k) c.text += ",";
      bool q = layout == 2 && ((r + k) & 1);
      if (q) c.text += "\"";
      c.text += vp_text_int(x);
      if (q) c.text += "\"";
    }
    c.bits.push_back(b);
    if (r + 1 < rows || layout != 1) c.text += layout == 3 ? "\r\n" : "\n";
  }
  return c;
}
static void addCsv(const Csv &c, Model *m) {
  for (auto &row : c.bits) {
    Rec r;
    for (size_t k = 0; k < row.size(); ++k)
      if (row[k]) r.push_back(k + 1);
    ++m->m[r];
    ++m->n;
  }
}
static void backAndForth(BinaryData *d, const Model &m, int top) {
  const char *f = vp_tmp();
  d->WriteFile(f);
  BinaryData *e = fresh();
  e->ReadFile(f);
  vp_unlink(f);
  Model w = m;
  w.knowVars = m.n > 0;
  same(*e, w, top, "written and read back");
  same(*d, m, top, "after writing");
  drop(e);
  vp_cover("round trip");
}
extern "C" void rows() {
  int rows = vp_choice("rows", vp_tier() ? 5 : 4), cols = 1 + vp_choice("columns", rows > 3 ? 2 : 3), layout = vp_choice("layout", 4);
  Csv c = csv(rows, cols, layout);
  const char *f = writeText(c.text);
  BinaryData *d = fresh();
  d->ReadFile(f);
  vp_unlink(f);
  Model m;
  addCsv(c, &m);
  m.vars = rows ? cols : 0;
  m.knowVars = true;
  same(*d, m, cols, "ReadFile");
  backAndForth(d, m, cols);
  drop(d);
  vp_cover("read");
}
// wide rows: the symbolic bits sit around word boundaries
extern "C" void wide() {
  static const int W[] = {31, 32, 33, 63, 64, 65, 127, 128, 129};
  int w = W[vp_choice("width", 9)], rows = 2;
  Csv c;
  for (int r = 0; r < rows; ++r) {
    std::vector<uint64_t> b;
    for (int k = 0; k < w; ++k) {
      uint64_t x = (k * 7 + r) % 3 == 0;
      if (k == 0 || k == w - 1 || k == w - 2) {
        x = vp_bits("bit", 32);
        vp_assume(x <= 1);
      }
      b.push_back(x);
      if (k) c.text += ",";
      c.text += vp_text_int(x);
    }
    c.bits.push_back(b);
    c.text += "\n";
  }
  const char *f = writeText(c.text);
  BinaryData *d = fresh();
  d->ReadFile(f);
  vp_unlink(f);
  Model m;
  addCsv(c, &m);
  m.vars = w;
  m.knowVars = true;
  same(*d, m, w, "ReadFile");
  backAndForth(d, m, w);
  drop(d);
}
extern "C" void histories() {
  int len = 1 + vp_choice("length", vp_tier() ? 4 : 3), vars = 1 + vp_choice("variables", 2);
  BinaryData *d = fresh();
  Model m;
  int place[3] = {1, 2, 3};
  for (int i = 0; i < len; ++i) {
    int op = vp_choice("operation", 4);
    if (op == 0) {
      uint64_t w = vp_bits("record", 2);
      vp_assume(w < (1u << vars));
      Big b;
      Rec r;
      for (int k = 0; k < vars; ++k) b[place[k]] = w >> k & 1;
      d->AddRecord(b);
      for (int k = 0; k < vars; ++k)
        if (w >> k & 1) r.push_back(place[k]);
      ++m.m[r];
      ++m.n;
      same(*d, m, vars, "AddRecord");
      vp_cover("add");
    } else if (op == 1) {
      Csv c = csv(vp_choice("rows", 3), vars, 0);
      const char *f = writeText(c.text);
      d->ReadFile(f);
      vp_unlink(f);
      m = Model();
      addCsv(c, &m);
      m.vars = c.bits.empty() ? 0 : vars;
      m.knowVars = true;
      same(*d, m, vars, "ReadFile");
      vp_cover("read again");
    } else if (op == 2) {
      d->set_variable_size(vars);
      m.vars = vars;
      m.knowVars = true;
      same(*d, m, vars, "set_variable_size");
    } else {
      if (!m.knowVars || m.vars == 0) {
        d->set_variable_size(vars);
        m.vars = vars;
        m.knowVars = true;
      }
      backAndForth(d, m, vars);
    }
  }
  drop(d);
}
static std::string sparseItem(int kind, uint64_t *v, uint64_t vs, bool *ok) {
  *ok = false;
  switch (kind) {
    case 0: {
      *v = vp_bits("variable", 31);
      if (vs > 8) vp_assume(*v <= 2 || (*v >= vs - 1 && *v <= vs + 2));
      *ok = true;
      return vp_text_int(*v);
    }
    case 1: {
      uint64_t x = vp_bits("negative", 31);
      vp_assume(x >= 1);
      return std::string("-") + vp_text_int(x);
    }
    case 2: return "1.5";
    case 3: return "\"1\"";
    case 4: return "null";
    case 5: return "[1]";
    case 6: return "true";
    default: return "9223372036854775808";
  }
}
extern "C" void sparse() {
  static const uint64_t VS[] = {1, 2, 3, 64, 65535, 65536, 70000};
  uint64_t vs = VS[vp_choice("variables", 7)];
  int rows = vp_choice("records", vs == 2 || (vp_tier() && vs < 8) ? 4 : 3), sp = vp_choice("layout", 2);
  std::string t = sp ? "{\"other\": [1, [2]],\n  \"data\" : [" : "{\"variable_size\":" + std::to_string(vs) + ",\"data\":[";
  struct Item { bool ok; uint64_t v; };
  std::vector<std::vector<Item>> all;
  std::vector<char> valid;
  for (int r = 0; r < rows; ++r) {
    if (r) t += sp ? " ,\n " : ",";
    int shape = vp_choice("record", r == 0 ? 5 : r == 2 && !vp_tier() ? 2 : 3);
    if (shape >= 3) {
      t += shape == 3 ? "1" : "{\"a\":1}";
      all.emplace_back();
      valid.push_back(0);
      continue;
    }
    int items = shape;
    std::vector<Item> it;
    t += "[";
    for (int i = 0; i < items; ++i) {
      if (i) t += sp ? " , " : ",";
      Item x;
      x.v = 0;
      t += sparseItem(r || (i && !vp_tier()) ? 0 : (int)vp_choice("item", 8), &x.v, vs, &x.ok);
      it.push_back(x);
    }
    t += "]";
    all.push_back(it);
    valid.push_back(1);
  }
  t += sp ? "],\n\"variable_size\": " + std::to_string(vs) + " }\n" : "]}";
  const char *f = writeText(t);
  BinaryData *d = BinaryData::ReadSparseDataJsonFile(f);
  vp_unlink(f);
  vp_assert(d != nullptr, "sparse: a data set is returned");
  Model m;
  m.vars = vs;
  m.knowVars = true;
  int top = 0;
  for (size_t r = 0; r < all.size(); ++r) {
    bool ok = valid[r];
    Rec rr;
    for (auto &x : all[r]) {
      if (!ok) break;
      if (!x.ok || x.v < 1 || x.v > vs || x.v >= MAX_VAR) {
        ok = false;
        break;
      }
      int v = (int)vp_concrete(x.v);
      if (std::find(rr.begin(), rr.end(), v) == rr.end()) rr.push_back(v);
      top = std::max(top, v);
    }
    if (!ok) {
      vp_cover("skipped");
      continue;
    }
    std::sort(rr.begin(), rr.end());
    ++m.m[rr];
    ++m.n;
    vp_cover("kept");
  }
  same(*d, m, top, "sparse");
  if (vs < 100) backAndForth(d, m, std::max<int>(top, 0));
  delete d;
}
extern "C" void fields() {
  int k = vp_choice("case", 3);
  const char *f = writeText(k == 0 ? "{\"data\":[[1]]}" : k == 1 ? "{\"variable_size\":2}" : "{\"variable_size\":2,\"data\":[]}");
  BinaryData *d = BinaryData::ReadSparseDataJsonFile(f);
  vp_unlink(f);
  vp_assert((d == nullptr) == (k < 2), "sparse: nothing is returned when a field is missing");
  if (d) vp_assert(d->data_size() == 0 && d->data().empty() && d->variable_size() == 2, "sparse: empty data");
  delete d;
}
