#!/usr/bin/env python3
"""try.py list.py [names] - applies each edit of BUGS (as for planting/mk.py, demo not needed) in a scratch copy and runs its check there."""
import sys, os, subprocess, importlib.util, time
spec=importlib.util.spec_from_file_location("b",sys.argv[1]); b=importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
W='/tmp/mut/try'; V, R = W+'/verif', W+'/repo'
if not os.path.exists(R):
    os.makedirs(W, exist_ok=True); subprocess.run(f"git clone -q /repo {R}; cp /repo/Cargo.lock {R}/", shell=True)
else: subprocess.run(f"cd {R} && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", shell=True)
subprocess.run(f"mkdir -p {V}; rsync -a --delete --exclude target --exclude seeded --exclude .git --exclude evidence /verif/ {V}/ 2>/dev/null || (cd /verif && tar cf - --exclude=./target --exclude=./seeded --exclude=./.git --exclude=./evidence . | tar xf - -C {V}); mkdir -p {V}/evidence; grep -rlE '/repo/' {V}/mc | xargs sed -i 's#/repo/#{R}/#g'", shell=True)
for n, d in b.BUGS.items():
    if sys.argv[2:] and n not in sys.argv[2:]: continue
    subprocess.run(f"cd {R} && git checkout -q -- .", shell=True); ok = True
    for f, old, new in d['edits']:
        s = open(f'{R}/{f}').read()
        if s.count(old) != 1: print(n, 'EDIT MISMATCH', f, s.count(old), flush=True); ok = False; break
        open(f'{R}/{f}', 'w').write(s.replace(old, new))
    if not ok: continue
    st = time.time()
    for c in d['property'].split():
        r = subprocess.run(['timeout', '900', V+'/check.sh', c, 'quick'], capture_output=True, text=True, errors='replace')
        out = r.stdout+r.stderr
        key = [l for l in out.split('\n') if l.startswith('  key')][:1]
        err = [l for l in out.split('\n') if l.startswith('error')][:2] if r.returncode == 2 else ''
        print(('caught ' if r.returncode == 1 else 'MISSED ' if r.returncode == 0 else 'ERROR  ')+n, c, f'{time.time()-st:.0f}s', key, err, flush=True)
subprocess.run(f"cd {R} && git checkout -q -- .", shell=True)
