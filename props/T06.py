from vf import Part
def inc(rng, n, lo, step):
    v, out = lo, []
    for _ in range(n): out.append(v); v += rng.randint(1, step)
    return out
def rand(rng, tier):
    for _ in range(4000 if tier == "quick" else 80000):
        t = rng.choice([0, 1]); n = rng.choice([0, 1, 2, 3, 5, rng.randint(0, 20)]); lo = rng.choice([0, 0, rng.randint(0, 30)] + ([-20] if t else []))
        f, g = inc(rng, n, lo, rng.choice([1, 2, 9])), inc(rng, n, rng.choice([0, lo, 7]), rng.choice([1, 2, 9]))
        s = [("start", [t] + [x for p in zip(f, g) for x in p])]
        top = max(f + g + [0]) + 5
        for _ in range(rng.randint(3, 25)):
            s.append((rng.choice(["s2d", "d2s", "s2dh", "d2sh", "s2dh", "d2sh"]), [rng.randint(-25 if t else 0, top)]))
            if rng.random() < .15: s.append(("hint", [rng.randint(0, 20)]))
        yield s
def fixed():
    for b in range(-2, 6):
        for e in range(-2, 6):
            yield [("start", [1])] + [("iv", [b, e, c, d, (b * 3 + e + c) % 5]) for c in range(-1, 4) for d in range(-1, 4)] + [("pts", [b, e, c, d]) for c in range(3) for d in range(3)] + [("pts", [b, e, b, e])] 
            if b >= 2 and e >= 2: yield [("start", [0])] + [("iv", [b, e, c, d, x]) for c in range(3) for d in range(3) for x in range(3)] + [("iv", [b, e, b, e, 1])]
def post(s):   # every hint, from every place
    if s[0][0] == "start" and len(s) > 1 and s[1][0] in ("s2dh", "d2sh") and len(s[1][1]) == 2:
        out = [s[0]]
        for op, a in s[1:]: out.append((op, a[:1]))
        return out
    return s
def parts(tier):
    return [Part("mapping", "T06.cpp", "T_Mapping", gens=[("G_Mapping", {"Depth": 2, "Recent": 1, "Most": 4}, {"Depth": 3, "Recent": 2, "Most": 5})], rand=rand, fixed=fixed, post=post)]
