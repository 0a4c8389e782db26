from vf import Part
SZ = {1: 1, 2: 2, 3: 4, 4: 8, 5: 1, 6: 2, 7: 4, 8: 8, 9: 4, 10: 8, 11: 1}
def le(n, k=4): return [(n >> (8 * i)) & 255 for i in range(k)]
def byte(rng): return rng.choice([0, 1, 10, 13, 65, 127, 128, 255, rng.randint(0, 255)])
def vec(rng, n, k): return le(n) + [byte(rng) for _ in range(n * k)]
def txt(rng): return [rng.choice([65, 66, 0, 200]) for _ in range(rng.choice([0, 1, 1, 2, 5]))]
def coll(rng, kind):
    n = rng.choice([0, 1, 2, 3, 7])
    if kind < 20: return vec(rng, n, SZ[kind])
    if kind in (20, 23):
        r = le(n)
        for _ in range(n): t = txt(rng); r += le(len(t)) + t
        return r
    if kind == 21:
        r = le(n)
        for _ in range(n): r += vec(rng, rng.randint(0, 4), 2)
        return r
    return le(n) + sum([[rng.choice([0, 1, 2, 255]), rng.choice([0, 0, 1, 255])] for _ in range(n)], [])
KINDS = [5, 6, 7, 8, 10, 20, 21, 22, 23, 24]
def put(rng):
    x = rng.random()
    if x < .3: t = rng.randint(1, 11); return ("put", [t] + [byte(rng) for _ in range(SZ[t])]), ("get", [t])
    if x < .55:
        c = rng.choice([1, 1, 2, 4]); n = rng.choice([0, 1, 2, 5, 20]); z = rng.randint(0, 1)
        b = [byte(rng) or z for _ in range(n * c)]
        if c == 4: b = [x if i % 4 < 2 else 0 for i, x in enumerate(b)]
        return ("putstr", [c, z] + b), ("getstr", [c])
    if x < .9: k = rng.choice(KINDS); return ("putcoll", [k] + coll(rng, k)), ("getcoll", [k])
    if x < .95:
        n = rng.choice([0, 1, 2, 9, 17, 40]) ; return ("fill", [byte(rng), n]), ("array", [1, n])
    return ("putbom", [rng.choice([0, 1, 2, 4])]), ("byte", [])
def put2(rng):
    x = rng.random()
    if x < .5:
        v = [byte(rng) for _ in range(rng.choice([0, 1, 2, 5, 9, 30]))]
        return ("copy", [rng.choice([-1, 0, 1, len(v), len(v), max(0, len(v) - 1), len(v) + 1, 7]), rng.choice([1, 1, 2]), rng.choice([0, 1, 2, 7])] + v)
    if x < .75: return ("print", [rng.choice([1, 4]), rng.choice([0, -1, 2147483647, rng.randint(-99999, 99999)])] + [rng.randint(32, 126) for _ in range(rng.choice([0, 1, 3, 20]))])
    return ("encode", [rng.choice([1, 2, 4]), rng.choice([0, 1, 2])] + [rng.randint(32, 126) for _ in range(rng.choice([0, 1, 3, 20]))])
def get(rng):
    return rng.choice([("get", [rng.randint(1, 11)]), ("getstr", [rng.choice([1, 2, 4])]), ("getcoll", [rng.choice(KINDS)]), ("array", [rng.randint(1, 8), rng.randint(0, 6)]),
                       ("remainder", [rng.choice([-1, 0, 1, 7, 1000])]), ("skip", [rng.choice([1, 2, 9, 17, 40])]), ("byte", []), ("readln", [rng.choice([1, 1, 2, 4])]), ("flush", [])])
def rand(rng, tier):
    for _ in range(3000 if tier == "quick" else 30000):
        s = [("start", [rng.choice([0, 1, 2, 3, 5, 16]), rng.choice([1, 1, 2]), rng.choice([-1, -1, -1, rng.randint(0, 60)])])]
        x = rng.random()
        if x < .15:         # whole contents
            s += [put2(rng) if rng.random() < .7 else put(rng)[0] for _ in range(rng.randint(1, 6))] + [("flush", []), get(rng), get(rng), ("remainder", [-1])]
            if rng.random() < .3: s = s[:1] + [get(rng)] + s[1:]
        elif x < .55:       # round trip, perhaps of something cut short
            ps = [put(rng) for _ in range(rng.randint(1, 8))]
            s += [p for p, g in ps]
            gs = [g for p, g in ps]
            if rng.random() < .3: gs = gs[:rng.randint(0, len(gs))] + [get(rng)] + gs[rng.randint(0, len(gs)):]
            s += [("flush", [])] * (rng.random() < .5) + gs + [get(rng)]
        elif x < .75:       # truncated forms
            d = []
            gs = []
            for _ in range(rng.randint(1, 4)):
                p, g = put(rng)
                if p[0] == "put": d += p[1][1:]
                elif p[0] == "putstr": d += le((len(p[1]) - 2) // p[1][0]) + p[1][2:]
                elif p[0] == "putcoll": d += p[1][1:]
                else: continue
                gs.append(g)
            d = d[:rng.randint(0, len(d))] if rng.random() < .8 else d
            s += [("load", d)] + gs + [get(rng), ("flush", []), get(rng)]
        else:               # lines and the like in any bytes
            s += [("load", [rng.choice([10, 13, 65, 0, 0, 66]) if rng.random() < .9 else byte(rng) for _ in range(rng.randint(0, 40))])]
            gs = [get(rng) for _ in range(rng.randint(1, 8))]
            if rng.random() < .5: gs = [("readln", [rng.choice([1, 1, 2, 4])]) if rng.random() < .7 else g for g in gs]
            s += gs
        yield s
    for _ in range(4 if tier == "quick" else 30):      # beyond the internal buffers
        n = rng.choice([1023, 1024, 1025, 2048, 3000]); c = rng.choice([1, 2, 4])
        b = [rng.choice([65, 1, 200]) if i % c == 0 else 0 for i in range(n * c)]
        yield [("start", [rng.choice([0, 7, 1000]), 1, -1]), ("putstr", [c, 0] + b), ("put", [6, 7, 8]), ("getstr", [c]), ("get", [6]), ("fill", [5, n]), ("skip", [n]), ("get", [1])]
        yield [("start", [rng.choice([0, 7, 1000]), 1, -1]), ("load", le(n) + b[:-1]), ("getstr", [c]), ("get", [6])]
    for _ in range(3 if tier == "quick" else 20):
        n = rng.choice([1007, 1008, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2000]); t = [rng.randint(97, 122) for _ in range(n)]
        for c in (1, 4): yield [("start", [0, 1, -1]), ("print", [c, 12] + t), ("print", [c, -1] + t[:252 - rng.randint(0, 9)]), ("encode", [2, 0] + t), ("encode", [c, 1] + t), ("put", [6, 7, 8])]
    for n in (4095, 4096, 4097, 8192) if tier == "quick" else (4095, 4096, 4097, 8191, 8192, 8193, 12288):
        t = [rng.randint(0, 255) for _ in range(n)]
        yield [("start", [0, 1, -1]), ("copy", [rng.choice([-1, n, n + 1]), rng.choice([1, 2]), 0] + t), ("copy", [n - 1, 1, 0] + t)]
        yield [("start", [0, 1, rng.choice([4096, 5000])]), ("copy", [-1, rng.choice([1, 2]), rng.choice([0, 100])] + t), ("put", [6, 7, 8])]
    for _ in range(2 if tier == "quick" else 8):
        n = rng.choice([65535, 65536, 65537])
        yield [("start", [rng.choice([0, 4096]), 1, -1]), ("fill", [5, n]), ("skip", [n - 1]), ("byte", []), ("byte", []), ("fill", [6, n]), ("remainder", [-1]), ("fill", [6, 9]), ("remainder", [5])]
def fixed():
    for b in ([255, 254, 0, 0], [255, 254, 0, 0, 65, 0, 0, 0], [255, 254, 65, 0], [255, 254], [255, 254, 0], [239, 187, 191], [239, 187, 191, 65], [239, 187], [], [65], [254, 255, 0, 0], [239, 187, 190, 65, 65], [255, 254, 65, 65, 65], [65] * 9, [0, 0, 254, 255]):
        yield [("start", [0, 1, -1]), ("bom", b)]
def parts(tier):
    return [Part("typed", "S06.cpp", "T_TypedIO", gens=[("G_TypedIO", {"Depth": 3}, {"Depth": 4})], rand=rand, fixed=fixed, gen_limit=(5000, 60000))]
