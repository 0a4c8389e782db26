#!/usr/bin/env python3
"""automut.py PROPERTY file first-line last-line N [seed]: N random small changes in these lines of a scratch copy; prints those the check does not notice.
MUT_REPO: headers to change (default /repo)."""
import os, random, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, f, a, b, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
rng = random.Random(int(sys.argv[6]) if len(sys.argv) > 6 else 1)
d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
shutil.copytree(os.environ.get("MUT_REPO", "/repo") + "/include", d + "/include")
p = d + "/include/stdex/" + f
src = open(p, encoding="utf-8", newline="").read(); lines = src.split("\n")
RULES = [(r"(?<![<>=!\-])<(?![<=])(?= )", "<="), (r"<=", "<"), (r"(?<![<>\-])>(?![>=])(?= )", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[ (])!(?=[a-zA-Z(])", ""),
         (r"\+ 1\b", "+ 2"), (r"\+ 1\b", ""), (r"- 1\b", ""), (r" \+ (?=[a-z])", " - "), (r" - (?=[a-z])", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b([0-9]+)\b", lambda m: str(int(m.group(1)) + 1)), (r"\bbreak;", ";"), (r"\bcontinue;", ";"),
         (r"'([a-zA-Z0-9,;:=/])'", lambda m: "'%s'" % chr(ord(m.group(1)) ^ 1)), (r"\bstart\b", "start + 1"), (r"\bend\b(?= *[,)])", "end - 1"), (r"\+\+", "--")]
STMT = re.compile(r"^\s*(?!return|goto|break|case|default|else|for|while|if|const|auto|template|using|static|class|struct|virtual|size_t|int|bool|public|private|protected|}|{|/|#|_In|_Out|throw|try|catch)[\w>\-.:\[\]*+ ()]+(=|\+\+|--|\().*;\s*\r?$")
# lines compiled for other systems only
skip, cond = set(), []
for i, l in enumerate(lines):
    m = re.match(r"\s*#\s*(if|ifdef|ifndef|elif|else|endif)\b(.*)", l)
    if m:
        k, e = m.group(1), m.group(2)
        win = bool(re.search(r"_WIN32|_WIN64|_MSC_VER|__APPLE__|SET_FILE_OP_TIMES|!CHECK_STREAM_STATE|NDEBUG", e))
        if "CHECK_STREAM" in e: e = ""
        if k in ("if", "ifdef"): cond.append(win and "!" not in e)
        elif k == "ifndef": cond.append(False if not win else None)
        elif k == "elif" and cond: cond[-1] = win and "!" not in e
        elif k == "else" and cond: cond[-1] = cond[-1] is None
        elif k == "endif" and cond: cond.pop()
        skip.add(i)
    elif any(cond): skip.add(i)
sites = []
for i in range(a - 1, b):
    if i in skip: continue
    l = lines[i].split("//")[0]
    if "stdex_assert" in l or "_In_" in l or "_Unreferenced_" in l or "_Out" in l or "_Success_" in l or not l.strip() or l.strip().startswith(("template", "#", "*", "using", "///")): continue
    for rx, to in RULES:
        for m in re.finditer(rx, l): sites.append((i, m.start(), m.end(), m.expand(to) if isinstance(to, str) else to(m)))
    if STMT.match(l): sites.append((i, len(l) - len(l.lstrip()), len(l.rstrip()), ";"))
rng.shuffle(sites); done = caught = 0
print(len(sites), "sites", flush=True)
env = dict(os.environ, STDEX_REPO=d)
ev = ROOT + "/evidence/%s.json" % pid; keep = open(ev).read() if os.path.exists(ev) else None
for i, s, e, to in sites:
    if done >= n: break
    l2 = lines[i][:s] + to + lines[i][e:]
    open(p, "w", encoding="utf-8", newline="").write("\n".join(lines[:i] + [l2] + lines[i + 1:]))
    r = subprocess.run([sys.executable, ROOT + "/check.py", pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if keep: open(ev, "w").write(keep)
    if r.returncode == 1 and "VIOLATION" in r.stdout: caught += 1; done += 1
    elif r.returncode == 0: done += 1; print("MISSED %d: %s  =>  %s" % (i + 1, lines[i].strip(), l2.strip()), flush=True)
    elif "error:" not in r.stdout: print("ERROR %d: %s => %s | %s" % (i + 1, lines[i].strip(), l2.strip(), r.stdout[-200:]), flush=True)
shutil.rmtree(d)
print("%d of %d caught" % (caught, done))
