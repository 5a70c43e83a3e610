#!/usr/bin/env python3
"""Compile a scratch program against the library and run it: try.py FILE.cpp [-DX ...]"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib import build
src = os.path.abspath(sys.argv[1])
try:
    exe = build.build_many([("try", [(src, ("-O1",))], build.config(**{a[2:]: True for a in sys.argv[2:]}), "g++")])[0]
except build.BuildError as x:
    sys.exit(str(x)[:3000])
sys.exit(subprocess.run([exe], timeout=600).returncode)
