#!/usr/bin/env python3
"""nothing to prepare: every check builds what it needs from /repo and /verif; this only shows that the tools are there"""
import subprocess
import sys

for c in (['gcc', '--version'], ['clang', '--version'], ['as', '--version']):
    if subprocess.run(c, stdout=subprocess.DEVNULL).returncode:
        sys.exit('missing: ' + c[0])
