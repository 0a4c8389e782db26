from vf import Part
def rand(rng, tier):
    for _ in range(1200 if tier == "quick" else 12000):
        k = rng.choice([1, 2, 3]); s = [("start", [k])]
        for _ in range(rng.choice([1, 1, 2])):
            total = rng.choice([rng.randint(0, 20), rng.randint(50, 70), rng.randint(115, 135), rng.randint(0, 300)])
            while total > 0 and rng.random() < .97:
                n = min(total, rng.choice([0, 1, 1, 8, 55, 56, 63, 64, 65, rng.randint(0, 20), rng.randint(0, 200)])); total -= n
                x = rng.random()
                if x < .12: s.append(("sread", [n, rng.randint(0, n), rng.randint(0, 2), rng.randint(0, 30)]))
                elif x < .24: s.append(("swrite", [n, rng.randint(0, n), rng.choice([0, 2]), rng.randint(0, 30)]))
                elif x < .3 and k == 1: s.append(("resume", []))
                else: s.append(("hash", [rng.choice([0, 255, 128, rng.randint(0, 255)]) for _ in range(n)]))
            if rng.random() < .2: s.append(("clear", [])); continue
            s.append(("final", []))
            s.append(("clear", []))
        if s[-1][0] == "clear" and rng.random() < .5: s.pop()
        if s[-1][0] != "final" and rng.random() < .5: s.append(("final", []))
        if rng.random() < .2:
            n = rng.choice([16, 20, 32]); x = [rng.randint(0, 255) for _ in range(n)]; y = list(x)
            if rng.random() < .8: y[rng.randrange(n)] ^= 1 << rng.randrange(8)
            s.append(("value", [n, rng.choice([0, 1])] + x + y))
        yield s
def fixed():
    for k in (1, 2, 3):       # every length across several blocks
        for n in range(0, 200): yield [("start", [k]), ("hash", [(i * 37 + n) % 256 for i in range(n)]), ("final", [])]
        yield [("start", [k]), ("hash", list(range(256)) * 6), ("hash", [1]), ("final", [])]
    for n in (16, 20, 32):
        for i in range(n): yield [("start", [1]), ("value", [n, i % 2] + [7] * n + [7] * i + [6] + [7] * (n - i - 1))]
        yield [("start", [1]), ("value", [n, 1] + [7] * n + [7] * n)]
def long(tier):
    for k in (1, 2, 3): yield [("start", [k])] + [("zeros", [1, 0])] * 512 + [("zeros", [0, 13]), ("final", [])]
    for k in (1, 2, 3): yield [("start", [k]), ("zeros", [0, 6]), ("zeros", [512, 7]), ("final", [])]
    for k in ((2,) if tier == "quick" else (2, 3)): yield [("start", [k]), ("zeros", [0, 20]), ("zeros", [4096, 57]), ("final", [])]
def parts(tier):
    return [Part("hash", "S09.cpp", "T_Hash", gens=[("G_Hash", {"Depth": 2}, {"Depth": 3})], rand=rand, fixed=fixed, gen_limit=(1500, 8000)),
            Part("long", "S09.cpp", "T_HashLong", fixed=lambda: long(tier), flags=["-O2"], sanitize=None, per_shard=1)]
