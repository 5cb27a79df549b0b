#!/usr/bin/env python3
"""Run the check of each planted bug against it, in copies: catch.py [-a] [id...]
(-a: run every claimed check, not only the one of the bug's property)."""
import json, os, re, shutil, subprocess, sys, time
V, R = '/tmp/catch/v', '/tmp/catch/r'
def sh(c, t=1000):
    return subprocess.run(c, shell=True, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
shutil.rmtree('/tmp/catch', ignore_errors=True)
os.makedirs('/tmp/catch')
shutil.copytree('/verif', V, symlinks=True, ignore=shutil.ignore_patterns('work', 'evidence'))
shutil.copytree('/repo', R, symlinks=True, ignore=shutil.ignore_patterns('target'))
os.makedirs(V + '/evidence', exist_ok=True)
for f in ('check.py', 'harness/Cargo.toml', 'replay/Cargo.toml'):
    s = open(f'{V}/{f}').read().replace("'/repo'", f"'{R}'").replace('"/repo"', f'"{R}"')
    open(f'{V}/{f}', 'w').write(s)
ids = [x for x in sys.argv[1:] if x != '-a']
every = '-a' in sys.argv
claimed = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']] if every else []
for i in sorted(os.listdir(V + '/seeded')):
    if ids and i not in ids: continue
    p = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
    r = sh(f'git -C {R} checkout -q -- . && git -C {R} apply {V}/seeded/{i}/patch.diff')
    if r.returncode: print(i, 'does not apply', r.stdout); continue
    for q in ([p] + [c for c in claimed if c != p]):
        t = time.time()
        r = sh(f'cd {V} && python3 check.py {q} quick')
        caught = r.returncode == 1 and f'VIOLATION property={q}' in r.stdout
        print(f'{i:28} {q} {"CAUGHT" if caught else "quiet" if r.returncode == 0 else "rc=%d" % r.returncode} {time.time()-t:.0f}s', flush=True)
        if not caught and q == p: print(r.stdout[-1500:] if r.returncode else '')
shutil.rmtree('/tmp/catch')
