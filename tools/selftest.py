#!/usr/bin/env python3
"""setup_cmd: makes sure the tools the checks need are there and that the runtime compiles."""
import os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('clang++-16', 'make', 'setarch'):
    if not shutil.which(t): sys.exit('missing ' + t)
d = tempfile.mkdtemp()
try: subprocess.run(['clang++-16', '-O2', '-c', os.path.join(H, 'harness/vs.cpp'), '-o', os.path.join(d, 'vs.o')], check=True)
finally: shutil.rmtree(d)
print('ok')
