#!/usr/bin/env python3
"""mkseed.py FILE...: plants the bugs described in FILE (a Python file calling seed(...)), after confirming on scratch copies that
each compiles, that its demonstration tells changed from unchanged code, and says whether the property's check notices."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# builds demo.cpp against /repo's headers (run with cwd /repo) and runs it in a scratch directory
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
tmp="$(mktemp -d)"; trap 'rm -r "$tmp"' EXIT
clang++ -std=gnu++17 -O1 -g1 -DNDEBUG -w %s -include "$here/compat.h" -I"$repo/include" "$here/demo.cpp" -o "$tmp/demo" -lpthread -lnuma -lz || exit 2
cd "$tmp" && timeout %d ./demo
"""
only = os.environ.get("ONLY", "").split(",") if os.environ.get("ONLY") else None
def seed(id, prop, file, edits, needs, breaks, demo, flags="-fsanitize=address", timeout=60, check=True):
    if only and id not in only: return
    d = os.path.join(V, "seeded", id)
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    subprocess.check_call("git clone -q /repo %s/r" % t, shell=True)
    r = t + "/r"
    p = "%s/include/stdex/%s" % (r, file)
    s = open(p, encoding="utf-8", newline="").read()
    for e in edits:
        old, new = e[0], e[1]; nth = e[2] if len(e) > 2 else None
        parts = s.split(old)
        if len(parts) < 2 or (len(parts) > 2 and nth is None): print(id, "edit found %d times:" % (len(parts) - 1), old); return
        nth = nth or 0
        s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
    open(p, "w", encoding="utf-8", newline="").write(s)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", r, "diff"], text=True))
    open(d + "/demo.cpp", "w").write(demo.strip() + "\n")
    open(d + "/demo.sh", "w").write(DEMO % (flags, timeout)); os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(V + "/harness/compat.h", d + "/compat.h")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    bad = subprocess.run(["bash", d + "/demo.sh"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    good = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    # the existing tests, on the changed copy
    h = t + "/h"; shutil.copytree("/opt/vp/harness", h)
    subprocess.run("grep -rl /repo %s | xargs -r sed -i 's|/repo|%s|g'" % (h, r), shell=True)
    b = subprocess.run("CXX=clang++-18 cmake -S %s -B %s/b -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 >/dev/null && ninja -C %s/b >%s/log 2>&1" % (h, t, t, t), shell=True)
    tests = "build failed" if b.returncode else ""
    if not b.returncode:
        stable = json.load(open("/opt/vp/BASELINE.json"))
        names = stable["passed"] if "passed" in stable else next(v for v in stable.values() if isinstance(v, list))
        tests = " ".join(n for n in names if subprocess.run([t + "/b/driver", n], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200).returncode)
    c = subprocess.run([sys.executable, V + "/check.py", prop], env=dict(os.environ, STDEX_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) if check else None
    ok = good.returncode == 0 and bad.returncode not in (0, 2) and not tests
    print("%-28s %s demo %d/%d tests [%s] check %s" % (id, "OK " if ok else "BAD", good.returncode, bad.returncode, tests, {None: "-", 0: "MISSED", 1: "caught"}.get(c and c.returncode, "ERROR")), flush=True)
    if good.returncode or bad.returncode == 2: print((good.stdout + bad.stdout)[-1500:])
    if not ok and not os.environ.get("KEEP"): shutil.rmtree(d)
    shutil.rmtree(t)
for f in sys.argv[1:]: exec(open(f).read())
