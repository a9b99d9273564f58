#!/usr/bin/env python3
"""Runs checks against small planted changes, each in a private mount namespace
in which a changed copy of /repo lies at /repo (the real one is never touched).

  mutate.py [-j N] [-a] [-t TIER] [-s SEED] FILE... [-- NAME...]

FILE is a folder with patch.diff and meta.json (a planted bug), or holds m("name", "C01 C02", (file, old, new), ...) calls. A change counts
if it builds and the stable tests pass. -a: run until one check catches it.
"""
import sys, os, json, subprocess, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
M = []
def m(name, props, *edits): M.append((name, props.split(), edits))
args = sys.argv[1:]; j = 2; tier = 'quick'; seed = '1'; names = []; files = []
while args:
    a = args.pop(0)
    if a == '-j': j = int(args.pop(0))
    elif a == '-t': tier = args.pop(0)
    elif a == '-s': seed = args.pop(0)
    elif a == '--': names = args; break
    else: files.append(a)
for f in files:
    if os.path.isdir(f):
        f = f.rstrip('/'); m(os.path.basename(f), json.load(open(f + '/meta.json'))['property'], os.path.abspath(f + '/patch.diff'))
    else: exec(compile(open(f).read(), f, 'exec'))
if names: M = [x for x in M if x[0] in names]
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
INNER = r'''
set -u
W="$1"; shift; tier="$1"; shift; seed="$1"; shift
mount --bind "$W/repo" /repo && mount --bind "$W/verif" /verif && mount --bind "$W/vp" /opt/vp || { echo MOUNTFAIL; exit 9; }
cd /repo
if ! bash /opt/vp/build.sh >"$W/build.log" 2>&1; then echo NOBUILD; tail -3 "$W/build.log"; exit 0; fi
bash /opt/vp/test.sh "$W/t.json" >/dev/null 2>&1
python3 - "$W/t.json" <<'P' || exit 0
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
d=json.load(open(sys.argv[1]))
p=set(d.get('passed') or d.get('pass') or [])
miss=sorted(b-p)
if miss: print('TESTFAIL',len(miss),miss[0]); sys.exit(1)
P
for id in "$@"; do
  s=$(date +%s)
  VERIF_SEED=$seed VERIF_TIER=$tier timeout 900 bash /verif/check.sh $id $tier >"$W/$id.out" 2>&1; rc=$?
  v="$(grep -m1 '^VIOLATION' "$W/$id.out")"
  e=$(( $(date +%s) - s ))
  if [ $rc = 1 ] && [ -n "$v" ]; then echo "CAUGHT $id ${e}s: $(grep -v '^VIOLATION' "$W/$id.out" | grep -v '^ *$' | head -3 | cut -c1-220 | tr '\n' ' ')"
  elif [ $rc = 0 ]; then echo "MISSED $id ${e}s"
  else echo "ERROR $id rc=$rc ${e}s: $(tail -5 "$W/$id.out" | cut -c1-300 | tr '\n' ' ')"; fi
done
'''
def run(x):
    name, props, edits = x
    W = tempfile.mkdtemp(prefix='mut.')
    try:
        subprocess.run(['cp', '-a', '/repo', W + '/repo'], check=True)
        subprocess.run(['cp', '-a', '/opt/vp', W + '/vp'], check=True)
        os.mkdir(W + '/verif')
        for n in os.listdir('/verif'):
            if n in ('seeded', '.git'): continue
            subprocess.run(['cp', '-a', '/verif/' + n, W + '/verif/'], check=True)
        for e in edits:
            if isinstance(e, str):
                if subprocess.run(['git', '-C', W + '/repo', 'apply', e]).returncode: return name, ['BADPATCH']
                continue
            f, old, new = e
            p = W + '/repo/' + f; s = open(p).read()
            if s.count(old) != 1: return name, ['BADEDIT %s count=%d' % (f, s.count(old))]
            open(p, 'w').write(s.replace(old, new))
        out = subprocess.run(['unshare', '-Urm', 'bash', '-c', INNER, 'x', W, tier, seed] + props, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace').stdout
        return name, out.strip().split('\n')
    finally:
        subprocess.run(['rm', '-rf', W])
with ThreadPoolExecutor(j) as ex:
    for name, out in ex.map(run, M):
        print(name, flush=True)
        for l in out: print('    ' + l, flush=True)
