#!/usr/bin/env python3
import os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from framework import goenv, HARNESS
d = tempfile.mkdtemp(prefix='verif-setup-')
src = os.path.join(d, 'src')
shutil.copytree(HARNESS, src)
r = subprocess.run(['go', 'build', '-o', os.path.join(d, 'vdrv'), '.'], cwd=src, env=goenv())
shutil.rmtree(d, ignore_errors=True)
sys.exit(r.returncode)
