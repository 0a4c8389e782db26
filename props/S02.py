from vf import Part
def post(s):
    out = []
    for e in s:
        out.append(e)
        if e[0] not in ("start", "fault", "destroy"): out.append(("tell", []))
    return out if s[-1][0] == "close" else out + [("destroy", [])]
def expand(gens, rng, tier):
    """each behaviour of the model once more, with a fault of the source before the last operation"""
    out = list(gens)
    for s in gens:
        f = ("fault", [rng.choice([1, 1, 2, 3, 4, 5]), rng.choice([0, 0, 1]), rng.choice([0, 1])])
        i = max(1, len(s) - rng.choice([1, 1, 2]))
        out.append(s[:i] + [f] + s[i:] + rng.choice([[("flush", [])], [("read", [1])], [("seek", [0, 0]), ("remainder", [])]]))
    return out
def rand(rng, tier):
    for _ in range(2500 if tier == "quick" else 25000):
        B = rng.choice([1, 2, 3, 4, 5, 8, 16]); big = 4 * B
        n0 = rng.choice([0, 1, B, 3 * B, rng.randint(0, 6 * B)])
        s = [("start", [B, n0, rng.choice([0, 0, rng.randint(0, n0 + 3)]), rng.choice([0, 0, 0, 1, 2, 5])])]
        faults = rng.random() < .4
        for _ in range(rng.randint(2, 30 if tier == "quick" else 60)):
            x = rng.random(); n = rng.choice([0, 1, 1, 2, B, B - 1, B + 1, 2 * B, rng.randint(0, big)])
            if faults and rng.random() < .15: s.append(("fault", [rng.randint(1, 6), rng.choice([0, 0, 0, 1, 2]), rng.choice([0, 0, 1, B - 1, 3])]))
            h = rng.choice([0, 0, 0, 1, 2])
            s.append(("read", [n]) if x < .25 else ("write", [n, rng.randint(1, 9)]) if x < .55 else
                     ("seek", [rng.choice([0, B, rng.randint(0, 7 * B)]) if h == 0 else rng.randint(-big, 2 * B), h]) if x < .82 else
                     ("skip", [n]) if x < .85 else (rng.choice(["lock", "unlock"]), [n, rng.randint(0, 9)]) if x < .86 else ("remainder", []) if x < .89 else ("truncate", []) if x < .95 else ("flush", []) if x < .99 else ("close", []))
            if s[-1][0] == "close": break
        yield s
def times(s):
    out, n = [], 100
    for i, e in enumerate(s):
        if e[0] == "fault": continue
        if e[0] != "start" and i % 4: out.append(("age", [n, n + 1, n + 2])); n += 3
        out.append(e)
        if e[0] not in ("close", "destroy"): out.append(("times", []))
    return out + [("destroy", [])] if s[-1][0] != "destroy" else out
def some(rng, tier): return [s for i, s in enumerate(rand(rng, tier)) if i % 4 == 0]
def parts(tier):
    return [Part("cache", "S02.cpp", "T_Cache", gens=[("G_Cache", {"Depth": 4}, {"Depth": 5})], rand=rand, post=post, expand=expand, gen_limit=(3500, 40000)),
            Part("times", "S02.cpp", "T_CacheTimes", gens=[("G_Cache", {"Depth": 3}, {"Depth": 4})], rand=some, post=times, gen_limit=(1500, 20000), flags=["-DSET_FILE_OP_TIMES=1"]),
            Part("plain-times", "S02.cpp", "T_CacheTimes", rand=some, post=times)]
