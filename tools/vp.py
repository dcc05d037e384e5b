#!/usr/bin/env python3
"""Runs one property's check: lowers the current sources of /repo to LLVM IR, executes the harness
symbolically, replays every counterexample against the real code, writes the evidence file."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
BUILD = os.path.join(V, 'build')
sys.path.insert(0, os.path.join(V, 'tools'))
from checks import CHECKS, CORE

LIBRARY = CORE + ['cnf.cpp', 'uai_network.cpp', 'minfill_vtree.cpp', 'jointree_vtree.cpp', 'hypergraph_decomposition_vtree.cpp', 'pgm_compiler.cpp', 'psdd_inference_main.cpp']
INC = ['-I' + REPO + '/include', '-I' + V + '/harness']


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def ensure_engine():
    eng = os.path.join(BUILD, 'engine')
    # the engine binary embeds only files of /verif and libsdd, make decides what is stale
    os.makedirs(BUILD, exist_ok=True)
    r = run(['make', '-s', '-j8', '-C', os.path.join(V, 'engine'), 'SDD=' + REPO + '/lib/linux/libsdd.a'])
    if r.returncode:
        print(r.stderr[-3000:])
        raise SystemExit('cannot build the engine')
    return eng


def lower(src, out, defs, rename=None, inc=[]):
    cxx = not src.endswith('.c')
    cmd = [LLVM + '/clang++' if cxx else LLVM + '/clang', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize',
           '-ffp-contract=off', '-emit-llvm', '-c', '-w', '-o', out, src] + inc + INC + ['-D' + d for d in defs]
    if cxx:
        cmd.insert(1, '-std=c++17')
    r = run(cmd)
    if r.returncode:
        raise RuntimeError('lowering %s failed:\n%s' % (src, r.stderr[-3000:]))
    if rename:
        # a program linked into a harness: its main (and exit) get another name, nothing else changes
        run([LLVM + '/llvm-dis', '-o', out + '.ll', out])
        t = open(out + '.ll', errors='surrogateescape').read()
        for a, b in rename.items():
            t = re.sub(r'@%s\b(?![.$])' % re.escape(a), '@' + b, t)
        open(out + '.ll', 'w', errors='surrogateescape').write(t)
        r = run([LLVM + '/llvm-as', '-o', out, out + '.ll'])
        if r.returncode:
            raise RuntimeError('renaming in %s failed:\n%s' % (src, r.stderr[-3000:]))
    return out


def includes(chk):
    return ['-I' + os.path.join(V, 'harness', d) for d in chk.get('inc', [])]


def sources(chk):
    srcs = [os.path.join(V, 'harness', chk['src'])] + [os.path.join(REPO, 'src', s) if '/' not in s else os.path.join(REPO, s.lstrip('/')) for s in chk.get('repo', CORE)]
    srcs = [s for s in srcs if os.path.exists(s)]
    # source files added later (code moved out of the ones listed) belong to the library too
    for d, _, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        srcs += [os.path.join(d, f) for f in sorted(fs) if f.endswith(('.c', '.cc', '.cpp', '.cxx')) and f not in LIBRARY]
    return srcs + [os.path.join(V, 'harness', s) for s in chk.get('extra', [])]


def build_ir(chk, work):
    srcs = sources(chk)
    defs = chk.get('defs', [])
    t0 = time.time()
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda p: lower(p[1], os.path.join(work, '%d.bc' % p[0]), defs + chk.get('defs_for', {}).get(os.path.basename(p[1]), []), chk.get('rename', {}).get(os.path.basename(p[1])), includes(chk)), enumerate(srcs)))
    r = run([LLVM + '/llvm-link', '-o', os.path.join(work, 'all0.bc')] + outs)
    if r.returncode:
        raise RuntimeError('llvm-link: ' + r.stderr[-2000:])
    r = run([LLVM + '/opt', '-passes=function(sroa,early-cse,simplifycfg,instcombine<max-iterations=1;no-verify-fixpoint>,simplifycfg)', '-o', os.path.join(work, 'all.bc'), os.path.join(work, 'all0.bc')])
    if r.returncode:
        raise RuntimeError('opt: ' + r.stderr[-2000:])
    return os.path.join(work, 'all.bc'), time.time() - t0, srcs


def native_build(chk, entry, work, srcs, asan):
    exe = os.path.join(work, 'replay_%s%s' % (entry, '_asan' if asan else ''))
    if os.path.exists(exe):
        return exe
    # vp_override functions of the harness have no meaning natively: the real ones are linked
    flags = ['-g', '-O1', '-w', '-no-pie', '-ftrivial-auto-var-init=pattern', '-DVP_NATIVE', '-DVP_ENTRY=' + entry] + includes(chk) + INC + ['-D' + d for d in chk.get('defs', [])]
    if asan:
        flags += ['-fsanitize=address', '-fno-omit-frame-pointer']
    objs = []

    def one(p):
        i, s = p
        o = os.path.join(work, 'n%d%s%s.o' % (i, '_asan' if asan else '', entry if s.endswith('replay.cpp') else ''))
        if not os.path.exists(o) or s.endswith('replay.cpp'):
            c = ['g++', '-std=c++17'] if not s.endswith('.c') else ['gcc']
            r = run(c + flags + ['-D' + d for d in chk.get('defs_for', {}).get(os.path.basename(s), [])] + ['-c', '-o', o, s])
            if r.returncode:
                raise RuntimeError('native build of %s failed: %s' % (s, r.stderr[-2000:]))
            for a, b in chk.get('rename', {}).get(os.path.basename(s), {}).items():
                run(['objcopy', '--redefine-sym', a + '=' + b, o])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, enumerate(srcs + [os.path.join(V, 'replay', 'replay.cpp')])))
    r = run(['g++', '-no-pie', '-o', exe] + (['-fsanitize=address'] if asan else []) + objs + [REPO + '/lib/linux/libsdd.a', '-lgmpxx', '-lgmp', '-lm', '-ldl', '-Wl,--unresolved-symbols=ignore-all'] + chk.get('libs', []))
    if r.returncode:
        raise RuntimeError('native link failed: ' + r.stderr[-2000:])
    return exe


def replay(exe, cex, work, asan):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=77', MALLOC_PERTURB_='165')
    tmp = tempfile.mkdtemp(prefix='rp', dir=work)
    try:
        r = subprocess.run([exe, cex, tmp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env, cwd=tmp, errors='replace')
    except subprocess.TimeoutExpired:
        return 'hang', 'no answer within 60 s'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    out = r.stdout if isinstance(r.stdout, str) else r.stdout.decode(errors='replace')
    err = r.stderr if isinstance(r.stderr, str) else r.stderr.decode(errors='replace')
    m = re.search(r'VP-VIOLATION (.*)', out)
    if m:
        return 'prop', m.group(1).strip()
    if 'VP-DIVERGED' in out:
        return 'diverged', err[-200:]
    if 'VP-ASSUME' in out:
        return 'assume', ''
    if 'VP-OK' in out and r.returncode == 0:
        return 'ok', ''
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', err)
    if m:
        return 'memory', m.group(1)
    m = re.search(r"Assertion `(.*)' failed", err)
    if m:
        return 'assert', m.group(1)
    if 'VP-TERMINATE' in err:
        return 'exception', 'uncaught exception'
    if r.returncode < 0:
        return 'crash', 'signal %d' % -r.returncode
    return 'exit', 'exit code %d' % r.returncode


def load_known(pid):
    known, fixed = [], []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            m = re.match(r'known: property=(\S+) (label|entry)="([^"]*)" (.*)', l)
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3), m.group(4)))
    return known


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    os.environ['VERIF_TIER'] = tier
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    chk = CHECKS[pid]
    t0 = time.time()
    eng = ensure_engine()
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='vp_%s_' % pid, dir=os.environ.get('VP_TMP', '/tmp'))
    rc = 1
    try:
        rc = go(pid, tier, only, seed, chk, t0, eng, work)
    finally:
        if not os.environ.get('VP_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('work kept in', work)
    sys.exit(rc)


def go(pid, tier, only, seed, chk, t0, eng, work):
    verbose = os.environ.get('VP_VERBOSE')
    violations = []
    try:
        bc, tl, srcs = build_ir(chk, work)
    except RuntimeError as e:
        print(e)
        return 2
    results = []
    known = load_known(pid)
    known_hit = {}
    known_entries = set()
    unrepro = []
    replays_dir = os.path.join(V, 'evidence', 'replay', pid)
    shutil.rmtree(replays_dir, ignore_errors=True)
    for ent in chk['entries']:
        if only and ent['name'] != only:
            continue
        if ent.get('tier') == 'thorough' and tier != 'thorough':
            continue
        out = os.path.join(work, 'out_' + ent['name'])
        os.makedirs(out)
        st = os.path.join(work, 'st_' + ent['name'] + '.json')
        budget = ent.get('budget', 60) if tier == 'quick' else ent.get('tbudget', 900)
        cmd = [eng, '--bc', bc, '--entry', ent['name'], '--out', out, '--stats', st, '--budget', str(budget), '--procs', os.environ.get('VP_PROCS', '8')]
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL if not verbose else None, stderr=None if verbose else subprocess.PIPE, text=True, errors='replace')
        try:
            s = json.load(open(st))
        except Exception as e:
            print('engine failed for', ent['name'], r.returncode, (r.stderr or '')[-2000:])
            return 2
        s['entry'] = ent['name']
        s['bound'] = ent['bound']
        s['budget_s'] = budget
        results.append(s)
        if verbose or only:
            print(json.dumps({k: v for k, v in s.items() if k not in ('functions', 'samples')}))
        # ---- counterexamples
        seen = {}
        cexs = sorted([f for f in os.listdir(out) if f.startswith('cex') and f.endswith('.txt')], key=lambda x: int(x[3:-4]))
        for f in cexs:
            path = os.path.join(out, f)
            head = open(path, errors='replace').read(4000)
            kind = re.search(r'# kind (.*)', head).group(1)
            label = re.search(r'# label (.*)', head).group(1)
            if seen.get(label) == 'done':
                continue
            asan = kind in ('memory', 'crash')
            if verbose:
                print(open(path, errors='replace').read()[:3000])
            res = None
            for a in ([True, False] if asan else [False, True]):
                try:
                    exe = native_build(chk, ent['name'], work, srcs, a)
                except RuntimeError as e:
                    print(e)
                    return 2
                res = replay(exe, path, work, a)
                if verbose:
                    print('replay', 'asan' if a else 'plain', res)
                if res[0] in ('prop', 'memory', 'assert', 'exception', 'crash', 'hang', 'exit'):
                    break
            if res[0] in ('prop', 'memory', 'assert', 'exception', 'crash', 'hang', 'exit'):
                seen[label] = 'done'
                kn = [k for k in known if k[1] == (label if k[0] == 'label' else ent['name'])]
                if kn:
                    known_hit[kn[0][1]] = kn[0][2]
                    known_entries.add(ent['name'])
                    continue
                os.makedirs(replays_dir, exist_ok=True)
                dst = os.path.join(replays_dir, ent['name'] + '_' + f)
                shutil.copy(path, dst)
                with open(dst, 'a') as g:
                    g.write('# entry %s\n# native replay: %s %s\n# rerun: python3 tools/replay.py %s %s\n' % (ent['name'], res[0], res[1], pid, os.path.relpath(dst, V)))
                violations.append({'entry': ent['name'], 'label': label, 'kind': kind, 'native': '%s: %s' % res, 'replay': os.path.relpath(dst, V)})
            else:
                seen.setdefault(label, []).append(res[0])
        for label, v in seen.items():
            if v != 'done':
                unrepro.append({'entry': ent['name'], 'label': label, 'native': v})
    # ---- evidence
    tot = lambda k: sum(s[k] for s in results)
    cov = {
        'explanation': 'Symbolic execution of the LLVM IR of the current sources; each path ends in assertions decided by the solver over all values of the symbols of that path.',
        'entries': [{k: s[k] for k in ('entry', 'bound', 'paths', 'paths_ok', 'paths_violation', 'paths_assumed_away', 'paths_cut', 'paths_error', 'queries', 'sat', 'unsat', 'unknown', 'solver_s', 'asserts', 'asserts_symbolic',
                                           'asserts_algebraic_fallback', 'symbolic_branches', 'infeasible_sides', 'generic_position_cuts', 'merged_regions', 'instructions', 'out_of_budget', 'covers', 'wall_s', 'error')} for s in results],
        'functions_encoded': sorted(set(f for s in results for f in s['functions'])),
        'queries_discharged': tot('queries'), 'solver_s': round(tot('solver_s'), 2),
        'evaluations': tot('paths_ok') + tot('paths_violation'),
        'distinct_nontrivial': tot('asserts_symbolic'),
        'rule': 'evaluations: execution paths followed to their end, each for all values of its symbols; distinct_nontrivial: assertions whose truth depended on symbols and was settled by a solver query or an exact rational-function identity',
        'samples': [x for s in results for x in s['samples']][:8],
        'not_reproduced': unrepro, 'lowering_s': round(tl, 1),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': chk.get('level', 'model_checking'), 'coverage': cov,
          'assumptions': COMMON_ASSUMPTIONS + chk.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(violations)}
    if ev['level'] == 'model_checking':
        cov['states'] = tot('paths')
        cov['transitions'] = tot('symbolic_branches') + tot('forks')
        cov['traces_validated_against_impl'] = len(violations) + len(unrepro)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for label, what in known_hit.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    for s in results:
        print('%s/%s: %d paths, %d queries (%.1fs solver), %d symbolic assertions, %d undecided paths%s, %.1fs' % (
            pid, s['entry'], s['paths'], s['queries'], s['solver_s'], s['asserts_symbolic'], s['paths_error'] + s['paths_cut'], ', OUT OF BUDGET' if s['out_of_budget'] else '', s['wall_s']))
        if s['error']:
            print('  note:', s['error'][:300])
    for u in unrepro:
        print('  not reproduced natively (reported as undecided, not as a violation): %s' % u)
    if violations:
        for v in violations:
            print('violated: %s [%s] native replay: %s' % (v['label'], v['entry'], v['native']))
        print('VIOLATION property=%s replay=%s' % (pid, violations[0]['replay']))
        return 1
    # vacuity: every entry has to reach its assertions and its witnesses
    strict = os.environ.get('VP_STRICT')
    for s, ent in [(s, e) for s in results for e in chk['entries'] if e['name'] == s['entry']]:
        if s['paths_ok'] == 0 and s['entry'] not in known_entries:
            print('no path of %s completed: no verdict (%s)' % (s['entry'], s['error']))
            return 2
        miss = [c for c in ent.get('covers', []) if c not in s['covers']]
        if miss:
            print('  witnesses not reached in %s: %s' % (s['entry'], miss))
            if strict:
                return 2
        if strict and (s['paths_error'] or s['paths_cut'] or s['unknown'] or s['out_of_budget']):
            print('  strict mode: undecided paths')
            return 2
    if strict and unrepro:
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    'IR is produced by clang 18 from the current sources (assertions enabled, no NDEBUG); libsdd, GMP, libstdc++ and libc run natively as trusted components',
    'probabilities are exact reals: the log-domain doubles are interpreted as logarithms of rational functions of the symbolic weights, so rounding error is outside the claim except where a property says otherwise',
    'two symbolic parameters are equal only when they are algebraically equal (general position) unless the entry says that equality is explored',
    'memory allocation succeeds; every access to memory obtained by the code under test is bounds and lifetime checked',
]

if __name__ == '__main__':
    main()
