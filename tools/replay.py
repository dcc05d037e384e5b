#!/usr/bin/env python3
"""python3 tools/replay.py <property> <counterexample file>: replays it against the current sources."""
import os, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
pid, path = sys.argv[1:3]
txt = open(path, errors='replace').read()
entry = re.search(r'# entry (\S+)', txt).group(1)
chk = vp.CHECKS[pid]
work = tempfile.mkdtemp(prefix='vprep_')
try:
    srcs = vp.sources(chk)
    for asan in (False, True):
        print('asan' if asan else 'plain', vp.replay(vp.native_build(chk, entry, work, srcs, asan), os.path.abspath(path), work, asan))
finally:
    shutil.rmtree(work)
