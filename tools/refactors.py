#!/usr/bin/env python3
"""Behaviour-preserving edits of the code under test: refactors.py [-n] [set...] [-c C01,C02]
Each set is applied to a copy of /repo, built and tested, then every claimed quick check is run
against it and must stay quiet (-n: only build and test)."""
import json, os, shutil, subprocess, sys, time
L, M, A, AD, N, AN, ER = ('src/lib.rs', 'src/media_type.rs', 'src/attribute_type.rs',
    'src/address.rs', 'src/network.rs', 'src/anonymizer.rs', 'src/error.rs')
SETS = {}
def ref(name, edits): SETS.setdefault(name, []).extend(edits)
here = os.path.dirname(os.path.abspath(__file__))
for f in sorted(os.listdir(here + '/refactors')):
    exec(open(f'{here}/refactors/{f}').read())
V, R = f'/tmp/refac{os.getpid()}/v', f'/tmp/refac{os.getpid()}/r'
def sh(c, t=1000):
    return subprocess.run(c, shell=True, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main():
    args = sys.argv[1:]
    dry = '-n' in args
    only = None
    if '-c' in args:
        i = args.index('-c'); only = args[i + 1].split(','); del args[i:i + 2]
    names = [a for a in args if a != '-n'] or list(SETS)
    shutil.rmtree(os.path.dirname(V), ignore_errors=True)
    os.makedirs(os.path.dirname(V))
    shutil.copytree('/verif', V, symlinks=True, ignore=shutil.ignore_patterns('work', 'evidence', '.git'))
    shutil.copytree('/repo', R, symlinks=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    for f in ('check.py', 'harness/Cargo.toml', 'replay/Cargo.toml'):
        s = open(f'{V}/{f}').read().replace("'/repo'", f"'{R}'").replace('"/repo"', f'"{R}"')
        open(f'{V}/{f}', 'w').write(s)
    claimed = only or [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    for n in names:
        sh(f'git -C {R} checkout -q -- .')
        for f, old, new in SETS[n]:
            s = open(f'{R}/{f}').read()
            if s.count(old) != 1:
                print(f'{n}: {f}: {s.count(old)} matches for {old[:90]!r}'); sys.exit(1)
            open(f'{R}/{f}', 'w').write(s.replace(old, new))
        r = sh(f'cd {R} && cargo test --offline --features serialize 2>&1 | tail -60')
        r2 = sh(f'cd {R} && cargo test --offline 2>&1 | grep -E "^error|test result|FAILED|panicked"')
        bad = 'FAILED' in r2.stdout or 'error' in r2.stdout
        print(f'== {n}: {len(SETS[n])} edits, tests {"FAIL" if bad else "ok"}', flush=True)
        if bad: print(r.stdout); continue
        if dry: continue
        for p in claimed:
            t = time.time()
            r = sh(f'cd {V} && python3 check.py {p} quick')
            print(f'{n:10} {p} rc={r.returncode} {time.time()-t:.0f}s', flush=True)
            if r.returncode: print(r.stdout[-2500:])
    shutil.rmtree(os.path.dirname(V))
main()
