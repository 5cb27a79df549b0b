#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property by symbolic execution of the real code:
 1. builds the executor (symx) and, from /repo's working tree, the harness module of the property
    (once to LLVM IR, once natively for replay),
 2. executes the IR symbolically; every branch and every assertion is decided by the solver for
    all values of the symbolic input bytes within the harness' bounds,
 3. replays one concrete input of every explored path on the native build (same observations,
    no failed check), and every counterexample as well,
 4. writes evidence/<id>.json.
Exit: 0 held, 1 violated (VIOLATION line), 2 the check itself could not decide.
"""
import collections, concurrent.futures, hashlib, json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'


def sh(cmd, **kw):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN=TOOLCHAIN)
    env.pop('RUSTFLAGS', None)
    env.pop('CARGO_TARGET_DIR', None)
    return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg):
    print('ERROR ' + msg)
    sys.exit(2)


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO + '/src'):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    h.update(open(REPO + '/Cargo.toml', 'rb').read())
    return h.hexdigest()


def freshen(target, h):
    """cargo trusts time stamps; make it rebuild the crate whenever its content changed"""
    mark = os.path.join(target, 'repo-hash')
    old = open(mark).read() if os.path.exists(mark) else ''
    if old != h:
        for prof in ('debug', 'release'):
            d = os.path.join(target, prof, '.fingerprint')
            if os.path.isdir(d):
                for f in os.listdir(d):
                    if f.startswith(('webrtc-sdp-', 'harness-', 'replay-')):
                        p = os.path.join(d, f)
                        for g in os.listdir(p):
                            os.remove(os.path.join(p, g))
                        os.rmdir(p)
        os.makedirs(target, exist_ok=True)
        open(mark, 'w').write(h)


def build_symx(res):
    r = sh(['cargo', 'build', '--release', '--offline', '--target-dir', V + '/target/symx'], cwd=V + '/symx')
    res['symx'] = r.stdout if r.returncode else None


def build_ir(res, feats, ll, h):
    t = V + '/target/ir'
    freshen(t, h)
    if os.path.exists(ll):
        os.remove(ll)
    # --emit=llvm-ir=PATH is not tracked by cargo: force the final crate
    d = t + '/release/.fingerprint'
    if os.path.isdir(d):
        for f in os.listdir(d):
            if f.startswith('harness-'):
                for g in os.listdir(os.path.join(d, f)):
                    os.remove(os.path.join(d, f, g))
                os.rmdir(os.path.join(d, f))
    r = sh(['cargo', 'rustc', '--release', '--offline', '--features', feats, '--target-dir', t, '--',
            '--emit=llvm-ir=' + ll, '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'], cwd=V + '/harness')
    res['ir'] = r.stdout if r.returncode or not os.path.exists(ll) else None


def build_replay(res, feats, h):
    t = V + '/target/replay'
    freshen(t, h)
    r = sh(['cargo', 'build', '--offline', '--features', feats, '--target-dir', t], cwd=V + '/replay')
    res['replay'] = r.stdout if r.returncode else None


def unhex(x):
    return bytes.fromhex(x).decode('utf-8', 'replace')


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = prop.lower()
    work = f'{V}/work/{prop}'
    os.makedirs(work, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    ev = f'{V}/evidence/{prop}.json'
    if os.path.exists(ev):
        os.remove(ev)
    feats = mod + (',deep' if tier == 'thorough' else '')
    ll = f'{work}/{mod}.ll'
    h = repo_hash()
    res = {}
    ths = [threading.Thread(target=f, args=a) for f, a in
           ((build_symx, (res,)), (build_ir, (res, feats, ll, h)), (build_replay, (res, feats, h)))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for k in ('symx', 'ir', 'replay'):
        if res.get(k, 'not built'):
            print(res.get(k))
            die(f'building {k} failed')
    build_s = time.time() - t0

    limit = float(os.environ.get('SYMX_TIME') or (560 if tier == 'thorough' else 300))
    out = f'{work}/result.jsonl'
    r = sh([V + '/target/symx/release/symx', ll, '--out', out, '--jobs', '8', '--time', str(limit), f'h_{mod}_*'],
           timeout=limit + 200)
    if r.returncode:
        print(r.stdout[-3000:])
        die('the symbolic executor failed')
    run_s = time.time() - t0 - build_s

    recs, cov, checks = [], collections.Counter(), collections.defaultdict(collections.Counter)
    harn = collections.defaultdict(collections.Counter)
    st, funcs, end, maxq = collections.Counter(), set(), None, 0.0
    for line in open(out):
        r = json.loads(line)
        t = r['t']
        if t == 'rec':
            recs.append(r)
        elif t == 'cover':
            cov[r['h'] + ': ' + r['label']] += r['n']
        elif t == 'check':
            for k in ('folded', 'proved', 'violated', 'known'):
                checks[r['label']][k] += r[k]
        elif t == 'harness':
            for k, v in r.items():
                if k not in ('t', 'h'):
                    harn[r['h']][k] += v
        elif t == 'stats':
            for k, v in r.items():
                if isinstance(v, (int, float)) and k != 'max_query_s':
                    st[k] += v
            maxq = max(maxq, r['max_query_s'])
        elif t == 'funcs':
            funcs.update(r['names'])
        elif t == 'end':
            end = r
    if end is None:
        die('no end record')

    # native replay of every explored path
    bad_recs = [r for r in recs if r['kind'] not in ('path', 'fail')]
    fails = [r for r in recs if r['kind'] == 'fail']
    paths = [r for r in recs if r['kind'] == 'path']
    tapes = f'{work}/tapes.txt'
    with open(tapes, 'w') as f:
        for r in paths:
            f.write(r['h'] + '\t' + ','.join(map(str, r['tape'])) + '\t' + ' '.join(r['obs']) + '\n')
    rp = V + '/target/replay/debug/replay'
    validated, mismatches, surprises = 0, [], []
    if paths:
        try:
            r = sh([rp, 'batch', tapes], timeout=300)
            m = re.search(r'^ok (\d+)$', r.stdout, re.M)
            if not m:
                die('native replay crashed: ' + r.stdout[-2000:])
            validated = int(m.group(1))
            for l in r.stdout.splitlines():
                if l.startswith('mismatch\t'):
                    c = l.split('\t')
                    (surprises if c[3].startswith(('check ', 'panic ')) else mismatches).append(c[1:])
        except subprocess.TimeoutExpired:
            die('native replay did not finish')

    # counterexamples
    listed = {}
    for l in open(V + '/known_findings.txt'):
        m = re.match(r'known: property=(\S+) finding=(\S+) (.*)', l)
        if m and m.group(1) == prop:
            listed[m.group(2)] = m.group(3)
    cands = [(r['h'], r['tape'], r['kind'], r['label']) for r in bad_recs]
    cands += [(c[0], [int(x) for x in c[1].split(',') if x], 'native', c[2]) for c in surprises]
    # paths the executor had to give up: at least the concrete input reached so far is run natively
    seen = collections.Counter()
    probe = []
    for r in fails:
        seen[(r['h'], r['label'])] += 1
        if seen[(r['h'], r['label'])] <= 40 and len(probe) < 400:
            probe.append((r['h'], r['tape']))

    def try_one(c):
        try:
            r = sh([rp, 'one', c[0], ','.join(map(str, c[1]))], timeout=20)
            o = next((l[8:] for l in r.stdout.splitlines() if l.startswith('outcome ')), 'crash')
        except subprocess.TimeoutExpired:
            o = 'hang'
        return o
    if probe:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for c, o in zip(probe, ex.map(try_one, probe)):
                if o.split(' ')[0] in ('check', 'panic', 'hang', 'crash', 'known'):
                    cands.append((c[0], c[1], 'native', o))
    by = collections.OrderedDict()
    for c in cands:
        by.setdefault((c[0], c[2], c[3]), []).append(c)
    violations, spurious, known = [], [], {}
    for key, cs in by.items():
        done = False
        for c in cs[:4]:
            try:
                r = sh([rp, 'one', c[0], ','.join(map(str, c[1]))], timeout=20)
                o = r.stdout
                crashed = r.returncode != 0
                outcome = next((l[8:] for l in o.splitlines() if l.startswith('outcome ')), 'crash ' + o[-300:] if crashed else '')
            except subprocess.TimeoutExpired:
                outcome, o = 'hang no result after 20 s', ''
            if outcome.startswith('known '):
                fid = outcome.split()[-1]
                if fid in listed:
                    known[fid] = o
                    done = True
                    break
                outcome = 'check ' + outcome[6:]
            if outcome.split(' ')[0] in ('check', 'panic', 'hang', 'crash'):
                violations.append((c, outcome, o))
                done = True
                break
        if not done:
            spurious.append((key, outcome))
    # expected reachability
    covfile = f'{V}/covers/{prop}.{tier}.json'
    truncated = sum(x['pending'] for x in harn.values())
    missing = []
    if os.environ.get('WRITE_COVERS'):
        os.makedirs(V + '/covers', exist_ok=True)
        json.dump(sorted(cov), open(covfile, 'w'), indent=0)
    elif os.path.exists(covfile):
        missing = [c for c in json.load(open(covfile)) if c not in cov]
    incomplete = truncated > 0 or bool(fails) or end['workers_failed'] > 0 or bool(spurious)
    empty = [n for n, x in harn.items() if x['done'] + x['panic'] + x['dropped'] == 0]

    rdir = f'{work}/violations'
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        os.remove(os.path.join(rdir, f))
    lines = []
    for i, (c, outcome, o) in enumerate(violations):
        p = f'{rdir}/{i}.json'
        notes = [l[6:] for l in o.splitlines() if l.startswith('input ')]
        json.dump({'property': prop, 'harness': c[0], 'tape': c[1], 'outcome': outcome, 'inputs': notes,
                   'output': o.splitlines(),
                   'rerun': f"cd {V}/replay && cargo run --offline --features {feats} -- one {c[0]} {','.join(map(str, c[1]))}"},
                  open(p, 'w'), indent=1)
        lines.append(f'  {c[0]}: {outcome} input={notes[:2]}')
        lines.append(f'VIOLATION property={prop} replay={p}')

    crate = sorted(f for f in funcs if 'webrtc_sdp' in f)
    npaths = sum(x['done'] + x['panic'] for x in harn.values())
    step = max(1, len(paths) // 6)
    samples = [{'harness': r['h'], 'input': [unhex(n) for n in r['notes']][:4], 'observed': [unhex(n) for n in r['obs']][:4]}
               for r in paths[::step][:8]]
    bounds = json.load(open(V + '/bounds.json')).get(prop, {}) if os.path.exists(V + '/bounds.json') else {}
    json.dump({
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'model_checking',
        'coverage': {
            'states': npaths + int(st['forks']),
            'transitions': int(st['steps']),
            'traces_validated_against_impl': validated,
            'samples': samples,
            'paths_completed': npaths,
            'paths_dropped_by_assumption': sum(x['dropped'] for x in harn.values()),
            'paths_pending_at_time_limit': truncated,
            'paths_not_encodable': len(fails),
            'not_encodable_reasons': sorted({r['label'] for r in fails})[:10],
            'complete_within_bounds': not incomplete,
            'harnesses': {n: dict(x) for n, x in sorted(harn.items())},
            'assertions': {l: dict(c) for l, c in sorted(checks.items())},
            'reached': dict(sorted(cov.items())),
            'solver': {'queries': int(st['queries']), 'sat': int(st['sat']), 'unsat': int(st['unsat']),
                       'unknown': int(st['unknown']), 'assertion_queries': int(st['assert_queries']),
                       'assertion_queries_unsat': int(st['assert_unsat']), 'decided_by_byte_domain': int(st['dom_sat']),
                       'answered_by_known_model': int(st['model_hits']), 'cached': int(st['cached']),
                       'folded': int(st['folded']), 'solver_s': round(st['solver_s'], 2), 'slowest_query_s': maxq},
            'functions_encoded': crate,
            'functions_encoded_total': len(funcs),
            'bounds': bounds.get('bounds', ''), 'outside_bounds': bounds.get('outside', ''),
            'executor_s': round(run_s, 1), 'build_s': round(build_s, 1),
        },
        'assumptions': [
            'the LLVM IR rustc emits for the harness (opt-level 1, overflow checks on) has the behaviour of the shipped build',
            'memory allocation never fails; hash values do not influence results',
            'escaped (Debug) forms of symbolic text inside error messages are modelled by the text itself',
            'text handed to the standard float parser is enumerated, not solved for',
        ],
        'wall_s': round(time.time() - t0, 1), 'violations': len(violations),
    }, open(ev, 'w'), indent=1)

    print(f"{prop} {tier}: {npaths} paths, {int(st['steps'])} IR steps, {int(st['queries'])} solver queries ({st['solver_s']:.1f} s), "
          f"{validated}/{len(paths)} paths confirmed natively, {len(crate)} crate functions, {time.time() - t0:.0f} s")
    for fid in sorted(known):
        print(f'KNOWN-FINDING: property={prop} {fid}: {listed[fid]}')
    if incomplete:
        print(f"INCOMPLETE {truncated} states pending, {len(fails)} paths not encodable {sorted({r['label'] for r in fails})[:3]}, "
              f"{end['workers_failed']} workers lost, {len(spurious)} unconfirmed")
    if lines:
        print('\n'.join(lines))
        sys.exit(1)
    if spurious:
        die(f'counterexample not confirmed by the native build: {spurious[:3]}')
    if mismatches:
        die(f'symbolic and native runs differ: {mismatches[:3]}')
    if end['workers_failed']:
        die('executor workers failed')
    if empty:
        die(f'no path of {empty} could be completed')
    if missing and not incomplete:
        die(f'no longer reached: {missing[:5]}')
    sys.exit(0)


main()
