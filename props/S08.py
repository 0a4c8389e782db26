import base64
from vf import Part
def data(rng, n): return [rng.choice([0, 255, 251, 63, rng.randint(0, 255)]) for _ in range(n)]
def pieces(rng, v):
    out = []
    while v:
        n = rng.choice([1, 1, 2, 3, 4, 5, rng.randint(1, 40)]); out.append(v[:n]); v = v[n:]
    if rng.random() < .3: out.insert(rng.randint(0, len(out)), [])
    return out or [[]]
def noise(rng, t, p):
    out = []
    for c in t:
        while rng.random() < p: out.append(rng.choice([10, 13, 32, 9, 45, 128, 200, 255]))
        out.append(c)
    while rng.random() < p: out.append(rng.choice([10, 32]))
    return out
def rand(rng, tier):
    for _ in range(2500 if tier == "quick" else 25000):
        c = rng.choice([1, 1, 2]); v = data(rng, rng.choice([0, 1, 2, 3, 4, 5, 6, rng.randint(0, 60)]))
        s = [("start", [])]
        x = rng.random()
        if x < .3:
            ps = pieces(rng, v)
            s += [("enc", [c, 1 if i == len(ps) - 1 else int(rng.random() < .1)] + p) for i, p in enumerate(ps)]
        elif x < .65:
            t = list(base64.b64encode(bytes(v)))
            if rng.random() < .2: t = [x for x in t if x != 61]
            t = noise(rng, t, rng.choice([0, .1, .5]))
            s += [("dec", [c] + p) for p in pieces(rng, t)]
            if rng.random() < .2: s += [("clear", []), ("dec", [c, 81, 81, 61, 61])]
            if rng.random() < .2: s += [("clear", []), ("dec", [c, 81, 81, 0, 81, 81]), ("dec", [c, 65, 65])]
        elif x < .75: s += [("hexenc", [c] + v)]
        else:
            t = noise(rng, [ord(rng.choice("0123456789abcdefABCDEF")) for _ in range(rng.randint(0, 50))], rng.choice([0, .1, .4]))
            t = [71 if x == 45 else x for x in t]
            s += [("hexdec", [c] + p) for p in pieces(rng, t)]
            if rng.random() < .2: s += [("clear", []), ("hexdec", [c, 52, 0, 49]), ("hexdec", [c, 49])]
        yield s
def fixed():
    allb = list(range(256))
    yield [("start", []), ("enc", [1, 1] + allb), ("hexenc", [1] + allb), ("enc", [2, 0] + allb), ("enc", [2, 1]), ("dec", [1] + [c for c in range(1, 256) if c != 61]), ("clear", []), ("hexdec", [1] + list(range(1, 256))),
           ("clear", []), ("dec", [2] + [c for c in range(1, 600) if c != 61]), ("hexdec", [2] + list(range(1, 600)))]
def rand2(rng, tier):
    for _ in range(2500 if tier == "quick" else 25000):
        v = data(rng, rng.choice([0, 1, 2, 3, 5, 57, rng.randint(0, 80), rng.randint(0, 200)]))
        if rng.random() < .5:
            s = [("start", [0, rng.choice([1, 2, 3, 19, 19, 100]), rng.choice([-1, -1, -1, rng.randint(0, 60)])])] + [("write", p) for p in pieces(rng, v)] + [("destroy", [])]
        else:
            t = list(base64.b64encode(bytes(v)))
            if rng.random() < .15: t = t[:rng.randint(0, len(t))]
            t = noise(rng, t, rng.choice([0, .05, .3]))
            s = [("start", [1, rng.choice([1, 1, 2]), rng.choice([0, 0, 1, 2, 3])] + t)]
            big = rng.choice([3, 8, 100])
            for _ in range(rng.randint(1, 30)): s.append(("read", [rng.choice([0, 1, 2, 3, 4, rng.randint(0, big)])]))
            s.append(("read", [300]))
            s.append(("read", [1]))
        yield s
def parts(tier):
    return [Part("session", "S08.cpp", "T_Codec", gens=[("G_Codec", {"Depth": 3}, {"Depth": 4})], rand=rand, fixed=fixed, gen_limit=(3000, 40000)),
            Part("stream", "S08b.cpp", "T_CodecStream", rand=rand2)]
