#!/usr/bin/env python3
"""mut.py PROPERTY file 'old' 'new' [n-th occurrence]: does the check notice? (on a scratch copy of the headers)"""
import os, shutil, subprocess, sys, tempfile
pid, f, old, new = sys.argv[1:5]
nth = int(sys.argv[5]) if len(sys.argv) > 5 else 0
old, new = old.replace("\\n", "\n").replace("\\t", "\t"), new.replace("\\n", "\n").replace("\\t", "\t")
d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
shutil.copytree(os.environ.get("MUT_REPO", "/repo") + "/include", d + "/include")
p = d + "/include/stdex/" + f
s = open(p, encoding="utf-8", newline="").read()
parts = s.split(old)
if len(parts) < nth + 2: print("NOT FOUND (%d)" % (len(parts) - 1)); sys.exit(2)
if len(parts) > 2 and len(sys.argv) < 6: print("AMBIGUOUS: %d occurrences" % (len(parts) - 1)); sys.exit(2)
s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
open(p, "w", encoding="utf-8", newline="").write(s)
ev = "/verif/evidence/%s.json" % pid
keep = open(ev).read() if os.path.exists(ev) else None
r = subprocess.run([sys.executable, "/verif/check.py", pid], env=dict(os.environ, STDEX_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if keep: open(ev, "w").write(keep)
print({0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode), repr(old[:50]), "->", repr(new[:50]), "|", r.stdout.strip()[-300 if r.returncode != 1 else -60:])
shutil.rmtree(d)
