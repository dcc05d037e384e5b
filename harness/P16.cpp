// P16: the CSV reader is memory safe on every byte sequence and splits every well-formed one faithfully.
#include "common.h"
#include <psdd/csvparser.h>
#include <cstdio>
#include <unistd.h>
typedef unsigned char B;
typedef std::vector<B> Bytes;
// ---- files: symbolic contents are delivered by these stand-ins in the engine, by a real file natively
static Bytes fileData;
static size_t filePos;
static bool fileEof, fileOpen;
static char fileTag[64];
extern "C" {
static bool fileMissing;
FILE *vp_override_fopen(const char *, const char *) {
  if (fileMissing) return nullptr;
  vp_assert(!fileOpen, "file: opened once");
  fileOpen = true, filePos = 0, fileEof = false;
  return (FILE *)fileTag;
}
int vp_override_fgetc(FILE *f) {
  vp_assert(fileOpen && f == (FILE *)fileTag, "file: read while open");
  if (filePos >= fileData.size()) {
    fileEof = true;
    return -1;
  }
  return fileData[filePos++];
}
int vp_override_getc(FILE *f) { return vp_override_fgetc(f); }
int vp_override__IO_getc(FILE *f) { return vp_override_fgetc(f); }
int vp_override_feof(FILE *f) {
  vp_assert(fileOpen && f == (FILE *)fileTag, "file: read while open");
  return fileEof;
}
int vp_override_ferror(FILE *) { return 0; }
int vp_override_fclose(FILE *f) {
  vp_assert(fileOpen && f == (FILE *)fileTag, "file: closed once");
  fileOpen = false;
  return 0;
}
}
// ---- reference: rows of a well-formed text. ok is cleared at the first malformed field.
struct Rows {
  std::vector<std::vector<Bytes>> rows;
  bool ok = true;
};
static Rows split(const Bytes &in, B delim) {
  Rows r;
  Bytes t;
  for (B c : in)
    if (c != '\r') t.push_back(c);
  size_t i = 0;
  while (i < t.size()) {
    std::vector<Bytes> row;
    for (bool end = false; !end;) {
      Bytes f;
      if (i < t.size() && t[i] == '"') {
        ++i;
        for (;;) {
          if (i >= t.size()) {
            r.ok = false;
            return r;
          }
          if (t[i] == '"') {
            if (i + 1 < t.size() && t[i + 1] == '"') {
              f.push_back('"');
              i += 2;
              continue;
            }
            ++i;
            break;
          }
          f.push_back(t[i++]);
        }
        if (i < t.size() && t[i] != delim && t[i] != '\n') {
          r.ok = false;
          return r;
        }
      } else
        while (i < t.size() && t[i] != delim && t[i] != '\n') {
          if (t[i] == '"') {
            r.ok = false;
            return r;
          }
          f.push_back(t[i++]);
        }
      row.push_back(f);
      if (i >= t.size()) end = true;
      else end = t[i++] == '\n';
    }
    r.rows.push_back(row);
  }
  return r;
}
static void readAll(CsvParser *p, const Bytes &in, B delim, bool header, bool compare) {
  Rows want;
  if (compare) want = split(in, delim);
  else want.ok = false;
  size_t k = 0;
  if (header && vp_choice("askheader", 2)) {
    const CsvRow *h = CsvParser_getHeader(p);
    const CsvRow *h2 = CsvParser_getHeader(p);
    if (h) vp_assert(h == h2, "header: asked twice, the same row");
    if (want.ok) vp_assert((h != nullptr) == !want.rows.empty(), "header: the first row");
  }
  bool first = true, done = false;
  // at most one row per byte, then end of input for ever
  for (size_t i = 0; i < in.size() + 3; ++i) {
    CsvRow *row = CsvParser_getRow(p);
    if (header && first) {
      const CsvRow *h = CsvParser_getHeader(p);
      if (want.ok && !want.rows.empty()) {
        vp_assert(h != nullptr, "header: the first row");
        vp_assert((size_t)CsvParser_getNumFields(h) == want.rows[0].size(), "header: the first row");
        k = 1;
      }
      first = false;
    }
    if (!row) {
      if (want.ok) vp_assert(k == want.rows.size(), "rows: every row is returned");
      done = true;
      continue;
    }
    vp_assert(!done, "rows: nothing after the end of the input");
    int n = CsvParser_getNumFields(row);
    vp_assert(n >= 1, "rows: at least one field");
    const char **f = CsvParser_getFields(row);
    if (want.ok) {
      vp_assert(k < want.rows.size(), "rows: no row is invented");
      const std::vector<Bytes> &w = want.rows[k++];
      vp_assert((size_t)n == w.size(), "fields: the row splits at the unquoted delimiters");
      for (int j = 0; j < n; ++j) {
        for (size_t b = 0; b < w[j].size(); ++b) vp_assert((B)f[j][b] == w[j][b], "fields: content without enclosing quotes");
        vp_assert(f[j][w[j].size()] == 0, "fields: content without enclosing quotes");
      }
      vp_cover("faithful");
    } else {
      size_t total = 0;
      for (int j = 0; j < n; ++j)
        for (const char *q = f[j]; *q; ++q) ++total;
      vp_assert(total <= in.size(), "fields: never longer than the input");
    }
    CsvParser_destroy_row(row);
  }
  vp_assert(done, "rows: the input ends");
  CsvParser_destroy(p);
  if (!want.ok && compare) vp_cover("malformed");
}
static B symByte(const char *n) { return (B)vp_bits(n, 8); }
static B delimiter(int how) {
  if (how == 0) return ',';
  B d = symByte("delim");
  vp_assume(d != 0 && d != '\n' && d != '\r' && d != '"');
  return d;
}
static CsvParser *fromString(const Bytes &in, const char *d, bool header) {
  char *s = (char *)malloc(in.size() + 1);
  for (size_t i = 0; i < in.size(); ++i) s[i] = in[i];
  s[in.size()] = 0;
  CsvParser *p = CsvParser_new_from_string(s, d, header);
  free(s);                                   // the parser keeps its own copy
  return p;
}
static CsvParser *fromFile(const Bytes &in, const char *d, bool header) {
  fileData = in;
  if (vp_symbolic()) return CsvParser_new("any", d, header);
  const char *fn = vp_tmp();
  FILE *f = fopen(fn, "wb");
  for (B c : in) fputc(c, f);
  fclose(f);
  return CsvParser_new(fn, d, header);
}
static void run(const Bytes &in, bool file, int how, bool header) {
  B d = delimiter(how);
  char ds[2] = {(char)d, 0};
  bool zero = false;
  if (file)
    for (B c : in)
      if (c == 0) zero = true;
  CsvParser *p = file ? fromFile(in, how == 0 ? nullptr : ds, header) : fromString(in, how == 0 ? nullptr : ds, header);
  readAll(p, in, d, header, !zero);
}
extern "C" void string() {
  int n = vp_choice("length", vp_tier() ? 9 : 7);
  Bytes in;
  for (int i = 0; i < n; ++i) {
    B c = symByte("byte");
    vp_assume(c != 0);
    in.push_back(c);
  }
  run(in, false, n < 6, false);
}
extern "C" void header() {
  int n = vp_choice("length", vp_tier() ? 8 : 6);
  Bytes in;
  for (int i = 0; i < n; ++i) {
    B c = symByte("byte");
    vp_assume(c != 0);
    in.push_back(c);
  }
  run(in, false, 0, true);
}
extern "C" void file() {
  int n = vp_choice("length", vp_tier() ? 8 : 6);
  Bytes in;
  for (int i = 0; i < n; ++i) in.push_back(symByte("byte"));
  run(in, true, n < 4, false);
}
// fields around the sizes where the buffers grow: a long run, some symbolic bytes, and another run
extern "C" void growth() {
  static const int L[] = {60, 61, 62, 63, 64, 65, 124, 126, 127, 128, 254, 255};
  int len = L[vp_choice("length", 12)], open = vp_choice("quoted", 3);
  Bytes in;
  if (open) in.push_back('"');
  for (int i = 0; i < len; ++i) in.push_back('a' + i % 26);
  if (open == 2) in.push_back('"'), in.push_back('"');
  for (int i = 0; i < (vp_tier() ? 3 : 2); ++i) {
    B c = symByte("byte");
    vp_assume(c != 0);
    in.push_back(c);
  }
  int tail = vp_choice("tail", 3);
  for (int i = 0; i < tail * 33; ++i) in.push_back('x');
  if (open) in.push_back('"');
  run(in, vp_choice("file", 2), 0, false);
}
extern "C" void fields() {
  static const int L[] = {61, 62, 63, 64, 65, 127, 128, 129, 192, 193};
  int n = L[vp_choice("count", 10)];
  Bytes in;
  for (int i = 0; i < n; ++i) {
    if (i % 3 == 1) in.push_back('z');
    in.push_back(',');
  }
  for (int i = 0; i < 2; ++i) {
    B c = symByte("byte");
    vp_assume(c != 0);
    in.push_back(c);
  }
  for (int i = 0; i < 3; ++i) in.push_back(',');
  run(in, false, 0, false);
}
// requests that cannot be served
extern "C" void refused() {
  int k = vp_choice("case", 5);
  CsvParser *p;
  if (k == 0) {
    B d = symByte("delim");
    char ds[2] = {(char)d, 0};
    p = CsvParser_new_from_string("a", ds, 0);
    CsvRow *r = CsvParser_getRow(p);
    bool bad = d == 0 || d == '\n' || d == '\r' || d == '"';
    vp_assert((r == nullptr) == bad, "refused: exactly the unsupported delimiters");
    vp_assert((CsvParser_getErrorMessage(p) != nullptr) == bad, "refused: with a message");
    if (r) CsvParser_destroy_row(r);
  } else if (k == 1) {
    p = CsvParser_new_from_string(nullptr, ",", 0);
    vp_assert(CsvParser_getRow(p) == nullptr && CsvParser_getErrorMessage(p), "refused: no string");
  } else if (k == 2) {
    p = CsvParser_new(nullptr, ",", 0);
    vp_assert(CsvParser_getRow(p) == nullptr && CsvParser_getErrorMessage(p), "refused: no file name");
  } else if (k == 3) {
    // a path of any length that cannot be opened (a component is missing, or the name is too long)
    static const int L[] = {1, 900, 962, 963, 964, 980, 981, 990, 1000, 1024, 3000, 5000};
    std::string path = vp_tmp();
    path += "/";
    path += std::string(L[vp_choice("length", 12)], 'x');
    fileMissing = true;
    p = CsvParser_new(path.c_str(), ",", 0);
    vp_assert(CsvParser_getRow(p) == nullptr && CsvParser_getErrorMessage(p), "refused: a file that cannot be opened");
    vp_assert(std::string(CsvParser_getErrorMessage(p)).find(path) != std::string::npos, "refused: the message names the file");
  } else {
    p = CsvParser_new_from_string("a,b", ",", 0);
    vp_assert(CsvParser_getHeader(p) == nullptr && CsvParser_getErrorMessage(p), "refused: no header requested");
    CsvRow *r = CsvParser_getRow(p);
    vp_assert(r && CsvParser_getNumFields(r) == 2, "refused: the rows are still there");
    CsvParser_destroy_row(r);
  }
  CsvParser_destroy(p);
  vp_cover("refused");
}
