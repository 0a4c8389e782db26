"""Common machinery of all checks: build a driver from /repo, get behaviours (generated from the TLA+
model by TLC, plus seeded random ones), execute them on the real code, and let TLC decide whether the
recorded traces are behaviours of the specification."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("STDEX_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = shutil.which("clang++-18") or "clang++"
NSHARD = int(os.environ.get("VF_SHARDS", "8"))

class CheckError(Exception):
    pass

def seed():
    try: return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: return 1

def scratch(pid):
    return tempfile.mkdtemp(prefix="vf-%s-" % pid, dir="/tmp")

# ------------------------------------------------------------------ building the driver
def compile_driver(src, out, flags=(), libs=(), sanitize="address", extra_src=(), sched=False):
    """sched: the code under test is instrumented as for ThreadSanitizer, but linked with our own runtime (sched.cpp).
    The flag ASSERTS, and any thorough run: the code's own assertions stop the driver (unless they do not even compile, as nothing else here compiles them)."""
    if ASSERTS or "ASSERTS" in flags:
        flags = [f for f in flags if f != "ASSERTS"]
        try: return compile_plain(src, out, ["-include", os.path.join(HARNESS, "asserts.h")] + flags, libs, sanitize, extra_src, sched)
        except CheckError: pass
    compile_plain(src, out, flags, libs, sanitize, extra_src, sched)

ASSERTS = False
def compile_plain(src, out, flags, libs, sanitize, extra_src, sched):
    if sched:
        com = [CXX, "-std=gnu++17", "-g1", "-O1", "-DNDEBUG", "-w", "-ferror-limit=3", "-I", HARNESS]
        for c in (com + ["-O2", "-c", os.path.join(HARNESS, "sched.cpp"), "-o", out + ".s.o"],
                  com + ["-include", os.path.join(HARNESS, "compat.h"), "-I", os.path.join(REPO, "include"), "-fsanitize=thread"] + list(flags)
                      + ["-c", os.path.join(HARNESS, src), "-o", out + ".o"],
                  [CXX, out + ".o", out + ".s.o", "-o", out, "-lpthread", "-ldl", "-lnuma"] + list(libs)):
            p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            if p.returncode != 0: raise CheckError("driver does not compile:\n" + p.stdout[:2000])
        return
    cmd = [CXX, "-std=gnu++17", "-g1", "-O1", "-DNDEBUG", "-w", "-ferror-limit=3",
           "-include", os.path.join(HARNESS, "compat.h"),
           "-I", os.path.join(REPO, "include"), "-I", HARNESS]
    if sanitize: cmd += ["-fsanitize=" + sanitize, "-fno-omit-frame-pointer"] + (["-D_GLIBCXX_SANITIZE_VECTOR=1"] if "address" in sanitize else [])
    cmd += list(flags) + [os.path.join(HARNESS, src)] + [os.path.join(HARNESS, s) for s in extra_src]
    cmd += ["-o", out, "-lpthread", "-lnuma"] + list(libs)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0:
        raise CheckError("driver does not compile:\n" + p.stdout[:2000])

# ------------------------------------------------------------------ TLC
def tlc(module, cfg, work, env=None, workers=1, xmx="1500m", timeout=800, extra=()):
    meta = tempfile.mkdtemp(prefix="meta-", dir=work)
    e = dict(os.environ)
    if env: e.update(env)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m",
           "-XX:TieredStopAtLevel=%d" % (4),
           "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + meta,
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-config", cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg),
           "-metadir", meta, "-noGenerateSpecTE", "-fp", "7"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=meta, errors="replace")
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), 124
    shutil.rmtree(meta, ignore_errors=True)
    st = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    gen, dist = (int(st[-1][0].replace(",", "")), int(st[-1][1].replace(",", ""))) if st else (0, 0)
    return dict(rc=rc, out=out, generated=gen, distinct=dist, wall=time.time() - t0)

def gen_scripts(module, consts, work, timeout=600, workers=1, xmx="3g", invs=("Inv",)):
    """Model checks module (its invariants), and collects the behaviours it prints (<<"GEN", "json">>)."""
    cfg = os.path.join(work, module + "-%d.cfg" % random.getrandbits(40))
    with open(cfg, "w") as f:
        f.write("INIT GInit\nNEXT GNext\nVIEW GView\nCHECK_DEADLOCK FALSE\n")
        for i in invs: f.write("INVARIANT %s\n" % i)
        for k, v in dict({"Recent": 0}, **consts).items(): f.write("CONSTANT %s = %s\n" % (k, v))
    r = tlc(module, cfg, work, timeout=timeout, workers=workers, xmx=xmx)
    if "No error has been found" not in r["out"]:
        raise CheckError("model %s/%s does not pass TLC:\n%s" % (module, cfg, tlc_error(r["out"])))
    scr, seen = [], set()
    for m in re.finditer(r'<<\s*"GEN",\s*"((?:[^"\\]|\\.)*)"\s*>>', r["out"]):
        js = m.group(1)
        if js in seen: continue
        seen.add(js)
        ops = json.loads(json.loads('"' + js + '"'))
        scr.append([(o["op"], o["a"]) for o in ops])
    r["out"] = ""
    return scr, r

def prefix_reduce(scripts):
    """Drops scripts that are a proper prefix of another one (their events are covered by the longer one)."""
    key = lambda s: tuple((o, tuple(a)) for o, a in s)
    ks = sorted(set(key(s) for s in scripts), key=lambda k: [(o, a) for o, a in k])
    out = []
    for i, k in enumerate(ks):
        if i + 1 < len(ks) and ks[i + 1][:len(k)] == k: continue
        out.append([(o, list(a)) for o, a in k])
    return out

# ------------------------------------------------------------------ running the driver
def write_script(path, scenarios, ids):
    with open(path, "w") as f:
        for i, s in zip(ids, scenarios):
            f.write("S %d\n" % i)
            for op, a in s:
                f.write(op + "".join(" %d" % x for x in a) + "\n")

def run_driver(exe, scenarios, ids, work, tag, timeout=600, env=None):
    """Runs all scenarios; a scenario that kills the process gets a final 'crash'/'hang' event."""
    spath, tpath = os.path.join(work, "script.%s" % tag), os.path.join(work, "trace.%s.ndjson" % tag)
    write_script(spath, scenarios, ids)
    open(tpath, "w").close()
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=1024:detect_stack_use_after_return=0:hard_rss_limit_mb=3000:detect_container_overflow=1:alloc_dealloc_mismatch=1"
    e["VF_SCRATCH"] = work
    e["LC_ALL"] = "C.UTF-8"
    if env: e.update(env)
    idset = set(ids)
    skip, deadline, restarts, hangs = 0, time.time() + timeout, 0, 0
    errs = ""
    while skip < len(scenarios):
        left = deadline - time.time()
        if left <= 0: raise CheckError("driver exceeded its time")
        try:
            p = subprocess.run([exe, spath, tpath, str(skip)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=left, cwd=work)
        except subprocess.TimeoutExpired:
            raise CheckError("driver exceeded its time")
        if p.returncode == 0: break
        errs = p.stderr.decode("utf8", "replace")[-3000:]
        restarts += 1
        # which scenario was it? the trace tells (every event carries its scenario number)
        last, complete = None, True
        with open(tpath, errors="replace") as f:
            data = f.read()
        lines = []
        for x in data.split("\n")[:-1]:      # an unfinished line goes, and so does anything from the first spoilt one
            try:
                if not x or json.loads(x)["i"] not in idset: break
            except (ValueError, KeyError, TypeError): break
            lines.append(x)
        if lines:
            ev = json.loads(lines[-1]); last = ev["i"]
            hangs += ev["op"] == "hang"
            if ev["op"] not in ("crash", "hang", "deadlock"):
                lines.append(json.dumps({"op": "crash", "a": [], "r": [], "i": last}))
        else:
            last = ids[skip]; lines.append(json.dumps({"op": "crash", "a": [], "r": [], "i": last}))
        with open(tpath, "w") as f: f.write("\n".join(lines) + "\n")
        skip = ids.index(last) + 1
        if restarts > 20 or hangs > 2: break     # plenty of evidence
    return tpath, errs

def count_lines(p):
    with open(p) as f: return sum(1 for x in f if x.strip())

def validate(tmod, tpath, work, cfg=None, timeout=800, env=None):
    """-> (accepted, index of first rejected event (1-based), tlc result)"""
    n = count_lines(tpath)
    e = {"TRACE": tpath}
    if env: e.update(env)
    r = tlc(tmod, cfg or "Trace.cfg", work, env=e, timeout=timeout)
    m = re.search(r'<<\s*"REACHED",\s*(\d+),\s*(\d+)\s*>>', r["out"])
    if m:
        reached, total = int(m.group(1)), int(m.group(2))
        if total != n: raise CheckError("TLC read %d of %d trace lines" % (total, n))
        if reached == n + 1: return True, None, r
        if "Error: Evaluating" in r["out"] or "TLC threw" in r["out"]:
            raise CheckError("TLC failed on %s:\n%s" % (tpath, r["out"][-3000:]))
        return False, reached, r
    raise CheckError("TLC gave no verdict on %s (%s):\n%s" % (tpath, tmod, tlc_error(r["out"])))

def tlc_error(out):
    i = out.find("Error:")
    a = out[i:i + 700] if i >= 0 else ""
    j = out.find("Error: The error occurred")
    return a + "\n...\n" + (out[j:j + 1200] if j >= 0 else out[-1500:])

def event(tpath, idx):
    with open(tpath) as f:
        ls = [x for x in f if x.strip()]
    return json.loads(ls[idx - 1]) if 1 <= idx <= len(ls) else None

# ------------------------------------------------------------------ the generic check
def known_findings(pid):
    """known_findings.jsonl: {"property","scenario":[[op,args..],..],"what"} - exact scripts only."""
    path = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"): continue
            k = json.loads(line)
            if k.get("property") == pid: res.append(k)
    return res

class Part:
    """One driver + one trace specification + sources of scenarios."""
    def __init__(self, name, driver, trace, gens=(), rand=None, flags=(), libs=(), sanitize="address",
                 extra_src=(), models=(), post=None, fixed=None, env=None, reduce=True, gen_limit=None, tcfg=None, sched=False, expand=None, per_shard=4):
        self.expand, self.per_shard = expand, per_shard
        self.name, self.driver, self.trace = name, driver, trace
        self.gens, self.rand, self.flags, self.libs, self.sanitize = gens, rand, flags, libs, sanitize
        self.extra_src, self.models, self.post, self.fixed, self.env = extra_src, models, post, fixed, env or {}
        self.reduce, self.gen_limit, self.tcfg, self.sched = reduce, gen_limit, tcfg, sched

def run_check(pid, parts, tier, level_assumptions=()):
    global ASSERTS
    t0 = time.time()
    work = scratch(pid)
    ASSERTS = tier != "quick"
    status = 1
    tot = dict(states=0, transitions=0, traces=0, events=0, model_states=0, model_transitions=0, gen=0, rand=0)
    samples, violations, notes, ops_seen = [], [], [], {}
    try:
        for part in parts:
            one_part(pid, part, tier, work, tot, samples, violations, notes, ops_seen)
            if violations: break
    except CheckError as x:
        print("CHECK-ERROR property=%s: %s" % (pid, x)); sys.stdout.flush()
        shutil.rmtree(work, ignore_errors=True)
        return 2
    for v in violations:
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        print("  " + v["what"])
    ev = {"property": pid, "tier": tier, "seed": seed(), "level": "model_checking",
          "coverage": {"states": tot["states"] + tot["model_states"], "transitions": tot["transitions"] + tot["model_transitions"],
                       "traces_validated_against_impl": tot["traces"],
                       "trace_events": tot["events"], "model_states_explored": tot["model_states"],
                       "scenarios_from_spec": tot["gen"], "scenarios_random": tot["rand"],
                       "events_by_operation": ops_seen, "samples": samples[:6], "notes": notes},
          "wall_s": round(time.time() - t0, 2)}
    if level_assumptions: ev["assumptions"] = list(level_assumptions)
    if violations: ev["violations"] = violations
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    status = 1 if violations else 0
    print("%s %s: %d scenarios (%d from the model, %d random), %d events, %d model states, %.1fs" %
          ("FAIL" if violations else "ok", pid, tot["traces"], tot["gen"], tot["rand"], tot["events"], tot["model_states"], time.time() - t0))
    return status

def one_part(pid, part, tier, work, tot, samples, violations, notes, ops_seen):
    w = os.path.join(work, part.name); os.makedirs(w, exist_ok=True)
    exe = os.path.join(w, "driver")
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(compile_driver, part.driver, exe, part.flags, part.libs, part.sanitize, part.extra_src, part.sched)
        fg = [ex.submit(gen_scripts, g[0], g[1] if tier == "quick" or len(g) < 3 else g[2], w) for g in part.gens]
        fm = [ex.submit(tlc, m[0], m[1] if tier == "quick" or len(m) < 3 else m[2], w, None, 2, "3g", 700) for m in part.models]
        gens = []
        for g, f in zip(part.gens, fg):
            s, r = f.result()
            tot["model_states"] += r["distinct"]; tot["model_transitions"] += r["generated"]
            if not s: raise CheckError("model %s produced no behaviours" % g[0])
            gens += s
        for m, f in zip(part.models, fm):
            r = f.result()
            if "No error has been found" not in r["out"]:
                raise CheckError("model %s does not pass TLC:\n%s" % (m[0], tlc_error(r["out"])))
            tot["model_states"] += r["distinct"]; tot["model_transitions"] += r["generated"]
        fb.result()
    if part.reduce: gens = prefix_reduce(gens)
    rng = random.Random("%s-%s-%d" % (pid, part.name, seed()))
    if part.gen_limit and len(gens) > part.gen_limit[0 if tier == "quick" else 1]:
        rng.shuffle(gens); gens = gens[:part.gen_limit[0 if tier == "quick" else 1]]
    if part.expand: gens = part.expand(gens, rng, tier)
    rnd = list(part.rand(rng, tier)) if part.rand else []
    fixed = list(part.fixed()) if part.fixed else []
    scen = fixed + gens + rnd
    if part.post: scen = [part.post(s) for s in scen]
    known = known_findings(pid)
    tot["gen"] += len(gens); tot["rand"] += len(rnd) + len(fixed)
    if not scen: return
    ids = list(range(len(scen)))
    order = ids[:]
    rng.shuffle(order)
    n = min(NSHARD, max(1, len(scen) // part.per_shard))
    shards = [sorted(order[k::n]) for k in range(n)]
    def shard(k):
        sc = [scen[i] for i in shards[k]]
        tp, errs = run_driver(exe, sc, shards[k], w, "%d" % k, env=part.env)
        ok, idx, r = validate(part.trace, tp, w, cfg=part.tcfg)
        return tp, errs, ok, idx, r
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(shard, range(n)))
    for k, (tp, errs, ok, idx, r) in enumerate(res):
        tot["states"] += r["distinct"]; tot["transitions"] += r["generated"]
        tot["traces"] += len(shards[k])
        with open(tp) as f:
            for line in f:
                if not line.strip(): continue
                e = json.loads(line); tot["events"] += 1
                ops_seen[e["op"]] = ops_seen.get(e["op"], 0) + 1
        left, rounds = list(shards[k]), 0
        while not ok:
            rounds += 1
            sid = event(tp, idx)["i"]
            # Once more from scratch: the same scenario alone must be rejected again.
            tp2, errs2 = run_driver(exe, [scen[sid]], [sid], w, "re%d" % k, env=part.env)
            ok2, idx2, r2 = validate(part.trace, tp2, w, cfg=part.tcfg)
            if ok2:
                # State leaking between scenarios (or non-determinism): rerun the whole shard before believing it.
                tp2, errs2 = run_driver(exe, [scen[i] for i in left], left, w, "rf%d" % k, env=part.env)
                ok2, idx2, r2 = validate(part.trace, tp2, w, cfg=part.tcfg)
                if ok2:
                    notes.append("scenario %d was rejected once and accepted twice" % sid)
                    break
                sid = event(tp2, idx2)["i"]
            bad = event(tp2, idx2)
            kf = [x for x in known if [[o] + list(a) for o, a in scen[sid]] == x["scenario"]]
            if not kf: break
            line = "KNOWN-FINDING: property=%s %s" % (pid, kf[0]["what"])
            if line not in notes: print(line); notes.append(line)
            # the rest of the shard still counts
            left = [i for i in left if i != sid and not any([[o] + list(a) for o, a in scen[i]] == kf[0]["scenario"] for _ in (0,))]
            if not left or rounds > 50: ok = True; break
            tp, errs = run_driver(exe, [scen[i] for i in left], left, w, "kf%d" % k, env=part.env)
            ok, idx, r = validate(part.trace, tp, w, cfg=part.tcfg)
            ok2 = ok
        if ok or ok2: continue
        rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s.txt" % (pid, part.name))
        with open(rp, "w") as f:
            f.write("# property %s, part %s: the real code's trace is not a behaviour of spec/%s.tla\n" % (pid, part.name, part.trace))
            f.write("# first event the specification does not allow: %s\n# script (replay with: python3 check.py %s --replay THIS):\n" % (json.dumps(bad), pid))
            f.write("S 0\n")
            for op, a in scen[sid]: f.write(op + "".join(" %d" % x for x in a) + "\n")
            f.write("# trace:\n")
            with open(tp2) as g:
                for line in g:
                    if line.strip() and json.loads(line)["i"] == sid: f.write("# " + line)
            if errs2: f.write("# driver stderr:\n" + "".join("# %s\n" % x for x in errs2.split("\n")))
        violations.append({"replay": rp, "what": "event %s is not allowed by the specification %s" % (json.dumps(bad)[:300], part.trace)})
        return
    for i in (ids[:1] + ids[len(ids) // 2:len(ids) // 2 + 1] + ids[-1:]):
        samples.append({"part": part.name, "script": [[o] + list(a) for o, a in scen[i]][:14]})

def replay(pid, parts, path):
    ops = []
    part = None
    for line in open(path):
        m = re.match(r"# property \S+, part (\S+):", line)
        if m: part = [p for p in parts if p.name == m.group(1)][0]
        if line.startswith("#") or not line.strip(): continue
        f = line.split()
        if f[0] == "S": continue
        ops.append((f[0], [int(x) for x in f[1:]]))
    w = scratch(pid); exe = os.path.join(w, "driver")
    compile_driver(part.driver, exe, part.flags, part.libs, part.sanitize, part.extra_src, part.sched)
    tp, errs = run_driver(exe, [ops], [0], w, "r", env=part.env)
    print(open(tp).read(), errs)
    ok, idx, r = validate(part.trace, tp, w, cfg=part.tcfg)
    print("accepted" if ok else "REJECTED at event %d: %s" % (idx, event(tp, idx)))
    shutil.rmtree(w, ignore_errors=True)
    return 0 if ok else 1
