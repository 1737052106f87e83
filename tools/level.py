#!/usr/bin/env python3
"""level.py <id> <text>: adds/replaces the level note of a property in notes.py and refreshes the manifest."""
import re, sys, os, subprocess, json
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "notes.py")
s = open(p).read()
line = ' "%s": %s,\n' % (sys.argv[1], json.dumps(sys.argv[2]))
s = re.sub(r'(?m)^ "%s": .*\n' % sys.argv[1], "", s)
s = s.replace("}\nNA = {}", line + "}\nNA = {}")
open(p, "w").write(s)
subprocess.check_call([sys.executable, os.path.join(os.path.dirname(p), "mkprops.py")])
subprocess.check_call([sys.executable, os.path.join(os.path.dirname(p), "mkmanifest.py")])
