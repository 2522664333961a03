#!/usr/bin/env python3
"""Offline setup: checks the toolchain and the reference model's self test."""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, 'build'), exist_ok=True)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
with tempfile.TemporaryDirectory(dir=os.path.join(V, 'build')) as d:
    src = os.path.join(d, 't.c')
    open(src, 'w').write('#include "ref.h"\nint main(){return ref_selftest();}\n')
    exe = os.path.join(d, 't')
    subprocess.check_call(['gcc', '-w', '-O2', '-I' + os.path.join(V, 'lib'), src, os.path.join(V, 'lib/ref.c'), '-o', exe])
    sys.exit(subprocess.call([exe]))
