#!/usr/bin/env python3
"""fixed.py <property> <text>: records the last commit of /repo as the repair of a defect."""
import subprocess, sys
h = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h", "-1" if len(sys.argv) < 4 else sys.argv[3]]).decode().split()[0]
open("/verif/known_findings.txt", "a").write(f"fixed: property={sys.argv[1]} {h} {sys.argv[2]}\n")
