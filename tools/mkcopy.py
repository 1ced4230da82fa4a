#!/usr/bin/env python3
"""mkcopy.py ID DIR: a scratch copy of /repo with planted bug ID applied (remove DIR afterwards)"""
import os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call(["cp", "-a", "/repo", sys.argv[2]])
subprocess.check_call(["git", "-C", sys.argv[2], "apply", os.path.join(root, "seeded", sys.argv[1], "patch.diff")])
