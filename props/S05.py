from vf import Part
def post(s):
    out = []
    for e in s:
        out.append(e)
        if e[0] not in ("start", "fault"): out.append(("size", []))
    return out + [("destroy", [])]
def rand(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        s = [("start", [])]; big = rng.choice([2, 5, 30, 30, 300])
        for _ in range(rng.randint(1, 40)):
            x = rng.random(); n = rng.choice([0, 1, 2, 3, rng.randint(0, big)])
            if rng.random() < .1: s.append(("fault", [rng.choice([0, 0, 1, 3])]))
            s.append(("read", [n]) if x < .42 else ("write", [n]) if x < .85 else ("read_array", [rng.randint(1, 4), rng.randint(0, 5)]) if x < .9 else
                     ("skip", [max(n, 1)]) if x < .94 else ("flush", []) if x < .97 else ("close", []))
        yield s
def parts(tier):
    return [Part("fifo", "S05.cpp", "T_Fifo", gens=[("G_Fifo", {"Depth": 5, "Recent": 2}, {"Depth": 6, "Recent": 3})], rand=rand, post=post,
                 flags=["-Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "_Znwm", "_Znam")], gen_limit=(5000, 60000))]
