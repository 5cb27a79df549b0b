#!/usr/bin/env python3
"""Builds the executor, the harness IR dependencies and the replay once (checks rebuild what changed)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
for d, cmd in (('symx', ['cargo', 'build', '--release', '--offline', '--target-dir', V + '/target/symx']),
               ('harness', ['cargo', 'build', '--release', '--offline', '--target-dir', V + '/target/ir']),
               ('replay', ['cargo', 'build', '--offline', '--target-dir', V + '/target/replay'])):
    r = subprocess.run(cmd, cwd=f'{V}/{d}', env=env)
    if r.returncode:
        sys.exit(r.returncode)
