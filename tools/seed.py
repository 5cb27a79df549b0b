#!/usr/bin/env python3
"""Make planted bugs from tools/bugs.py: seed.py [id...]
For every bug: copy of /repo in /tmp, apply the edit, build and run the stable
tests there, run the demonstration on both trees, and write seeded/<id>/."""
import json, os, re, shutil, subprocess, sys, tempfile
V = '/verif'
sys.path.insert(0, V + '/tools')
import bugs
W = '/tmp/seedwork'
DEMO = r'''#!/bin/bash
# run in /repo: exit 0 when the behaviour is right, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'find "$d" -delete' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp Cargo.lock "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
webrtc-sdp = { path = "$PWD" }
[workspace]
END
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline -q
'''
PRE = r'''#![allow(unused)]
use std::convert::TryFrom;
use std::str::FromStr;
use webrtc_sdp::address::*;
use webrtc_sdp::anonymizer::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::network::*;
use webrtc_sdp::*;
const H: &str = "v=0\r\no=- 0 0 IN IP4 0.0.0.0\r\ns=-\r\nt=0 0\r\nc=IN IP4 0.0.0.0\r\n";
fn p(t: &str) -> SdpSession { parse_sdp(t, false).expect("accepted") }
fn a(t: &str) -> SdpAttribute { match parse_attribute(t).expect("accepted") { SdpType::Attribute(a) => a, _ => panic!() } }
fn fails(t: &str) -> bool { parse_sdp(t, false).is_err() }
'''

def sh(c, cwd, t=900, **k):
    return subprocess.run(c, cwd=cwd, shell=True, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['tests']) if False else None

def tests(tree):
    """run the stable tests in the copy, in the way test.sh does"""
    r = sh('cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8', tree)
    bad = re.findall(r'^test (\S+) \.\.\. FAILED', r.stdout, re.M)
    if 'error: could not compile' in r.stdout or re.search(r'^error(\[|:)', r.stdout, re.M) and not bad:
        return ['BUILD ' + r.stdout[-1500:]]
    r = sh('cargo build --example file_parser --all-features --offline', tree)
    cfg = open(tree + '/.circleci/config.yml').read()
    for l in re.findall(r'^ *- run: cargo run --example file_parser (.*)$', cfg, re.M):
        if sh('timeout 30 target/debug/examples/file_parser ' + l, tree).returncode:
            bad.append('file_parser ' + l)
    return bad

def main():
    os.makedirs(W, exist_ok=True)
    tree = W + '/repo'
    if os.path.isdir(tree): shutil.rmtree(tree)
    shutil.copytree('/repo', tree, symlinks=True)
    want = sys.argv[1:]
    for b in bugs.BUGS:
        if want and b['id'] not in want: continue
        if not want and os.path.isdir(f"{V}/seeded/{b['id']}"): continue
        sh('git checkout -q -- .', tree)
        ok = True
        for f, old, new in b['edits']:
            s = open(f'{tree}/src/{f}').read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT matches', s.count(old), repr(old[:60])); ok = False; break
            open(f'{tree}/src/{f}', 'w').write(s.replace(old, new))
        if not ok: continue
        bad = tests(tree)
        if bad:
            print(b['id'], 'TESTS FAIL', bad[:4]); continue
        d = W + '/' + b['id']
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        demo = DEMO
        if b['property'] == 'C25':
            demo = demo.replace('path = "$PWD" }', 'path = "$PWD", features = ["serialize"] }\nserde_json = "1.0"')
        open(d + '/demo.sh', 'w').write(demo)
        open(d + '/demo.rs', 'w').write(PRE + 'fn main() {\n' + b['demo'].strip('\n') + '\n}\n')
        diff = subprocess.run('git diff', cwd=tree, shell=True, stdout=subprocess.PIPE, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r1 = sh(f'bash {d}/demo.sh', tree)
        r0 = sh(f'bash {d}/demo.sh', '/repo')
        if r0.returncode or not r1.returncode:
            print(b['id'], 'DEMO clean', r0.returncode, 'bug', r1.returncode, r0.stdout[-600:] if r0.returncode else ''); continue
        shutil.rmtree(f"{V}/seeded/{b['id']}", ignore_errors=True)
        shutil.copytree(d, f"{V}/seeded/{b['id']}")
        print(b['id'], 'ok', flush=True)
    shutil.rmtree(W)
main()
