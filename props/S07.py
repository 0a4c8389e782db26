from vf import Part
def post(s): return s + [("tell", []), ("raw", [])]
def expand(gens, rng, tier):
    out = list(gens)
    for s in gens:
        if s[0][1][0] < 2: continue
        i = rng.choice([len(s) - 1, len(s) - 1, max(1, len(s) - 2)])
        for f in range(s[0][1][0]):
            out.append(s[:i] + [("diverge", [f, rng.choice([1, 2, 3]), rng.randint(0, 3)])] + s[i:])
    return out
def rand(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        n = rng.choice([1, 2, 2, 3, 4])
        s = [("start", [n, rng.randint(0, 40)])]; at = rng.randint(1, 30)
        for i in range(rng.randint(1, 25)):
            if i == at: s.append(("diverge", [rng.randint(0, n - 1), rng.randint(1, 3), rng.randint(0, 20)]))
            x = rng.random(); k = rng.choice([0, 1, 2, 5, rng.randint(0, 30)]); h = rng.choice([0, 0, 1, 2])
            s.append(("read", [k]) if x < .35 else ("write", [k, rng.randint(1, 9)]) if x < .6 else
                     ("seek", [rng.randint(0, 40) if h == 0 else rng.randint(-15, 10), h]) if x < .8 else
                     (rng.choice(["truncate", "flush", "close", "tell"]), []) if x < .95 else (rng.choice(["lock", "unlock"]), [0, k]))
        yield s
def parts(tier):
    return [Part("diagfile", "S07.cpp", "T_DiagFile", gens=[("G_DiagFile", {"Depth": 3}, {"Depth": 4})], rand=rand, post=post, expand=expand, gen_limit=(1500, 20000))]
