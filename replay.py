#!/usr/bin/env python3
"""replay.py PROPERTY HARNESS REPLAYFILE: run the harness natively (address sanitizer) on the inputs of a replay file"""
import os
import shutil
import subprocess
import sys
import tempfile
sys.argv, args = sys.argv[:1], sys.argv[1:]
import check
prop, name, path = args
work = tempfile.mkdtemp(prefix='zkr.')
try:
    exe = check.build_native(work, os.path.join(check.ROOT, 'harness', prop + '.cc'), False)
    sys.exit(subprocess.run([exe, 'replay', name, path], env=check.NATENV).returncode)
finally:
    shutil.rmtree(work, ignore_errors=True)
