from vf import Part
def post(s): return s + [("destroy", [])] if s[-1][0] != "destroy" else s
def rand(rng, tier):
    for _ in range(2500 if tier == "quick" else 25000):
        rc, wc = rng.choice([0, 1, 2, 3, 5, 8, 16, 64]), rng.choice([0, 1, 2, 3, 5, 8, 16, 64])
        big = max(rc, wc, 2)
        wl = rng.choice([-1, -1, 0, rng.randint(0, 3 * big)])
        s = [("start", [rc, wc, rng.choice([0, 1, rc, rc + 1, rng.randint(0, 4 * big), 200]), rng.choice([1, 1, 2]), rng.choice([0, 0, 1, 2, 3, 7]), wl, rng.choice([1, 2]), rng.choice([0, 0, 0, 1, 2, 5]) if wl < 0 else 0])]
        for _ in range(rng.randint(1, 20)):
            n = rng.choice([0, 1, 1, 2, 3, big, big - 1, big + 1, 2 * big, rng.randint(1, 20)])
            x = rng.random()
            s.append(("read", [n]) if x < .42 else ("write", [n]) if x < .85 else ("flush", []))
        if rng.random() < .4: s.append(("close", []))
        yield s
def parts(tier):
    return [Part("buffer", "S03.cpp", "T_Buffer", gens=[("G_Buffer", {"Depth": 3, "Recent": 2}, {"Depth": 4, "Recent": 3})], rand=rand, post=post, gen_limit=(6000, 60000))]
