#!/usr/bin/env python3
"""Checks that the tools the checks use are present and can build the harness core."""
import os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix='vf_setup_')
rc = 0
try:
    src = os.path.join(d, 't.cpp')
    open(src, 'w').write('#include "vf.h"\nvoid vf::setup() { vf::systematic("s", 4, 4, [](u64, vf::Ctx& c) { c.eval(); }); }\n')
    for cmd in (['g++', '-O2'], ['clang++', '-fsanitize=address,undefined'], ['clang++', '-fsanitize=thread']):
        exe = os.path.join(d, 'a.out')
        p = subprocess.run(cmd + ['-std=gnu++11', '-w', '-I', V + '/harness', src, '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout); rc = 1; break
    os.makedirs(V + '/evidence', exist_ok=True)
finally:
    shutil.rmtree(d, ignore_errors=True)
print('setup', 'ok' if not rc else 'failed')
sys.exit(rc)
