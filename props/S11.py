from vf import Part
def rb(rng, n): return [rng.choice([0, 0, 1, 2, 3, 255, rng.randint(0, 255)]) for _ in range(n)]
def le(x, n): return [x >> 8 * i & 255 for i in range(n)]
def recs(rng, kind, depth=0):
    w = 2 if kind == 2 else 4; al = {1: 2, 2: 4, 3: 1}[kind]; out = []
    for _ in range(rng.randint(0, 4)):
        d = recs(rng, kind, depth + 1) if depth < 2 and rng.random() < .3 else rb(rng, rng.randint(0, 9))
        out += le(rng.randint(1, 4), w) + le(len(d), w) + d + [0] * (-len(d) % al)
    return out
def rand(rng, tier):
    for _ in range(3000 if tier == "quick" else 40000):
        kind, iface = rng.choice([1, 1, 2, 3]), rng.choice([0, 0, 1, 2])
        c = recs(rng, kind) if rng.random() < .7 else []
        if c and rng.random() < .2: c = c[:rng.randint(0, len(c))]
        if c and rng.random() < .1: c[rng.randrange(len(c))] = rng.randint(0, 255)
        s = [("start", [kind, iface] + c)]
        if rng.random() < .5 and iface != 1:   # a tree, then traversed
            s.append(("seek", [len(c)])); depth = 0
            for _ in range(rng.randint(1, 10)):
                x = rng.random()
                if x < .35 and depth < 4: s.append(("open", [rng.randint(1, 4)])); depth += 1
                elif x < .6: s.append(("bytes", rb(rng, rng.randint(0, 6))))
                elif x < .75: s.append(("put", [rng.randint(1, 3)] + rb(rng, rng.randint(0, 7))))
                elif depth: s.append(("close", [])); depth -= 1
            s += [("close", [])] * depth + [("dump", []), ("seek", [0])]
        for _ in range(rng.randint(1, 8)):
            x = rng.random()
            if x < .15: s.append(("seek", [rng.choice([0, 0, rng.randint(0, len(c))])]))
            elif x < .3: s.append(("ignore", []))
            elif x < .5: s.append(("get", [rng.choice([0, 1, 2, 5, 9, rng.randint(0, 40)])]))
            elif x < .6: s.append(("put", [rng.randint(1, 3)] + rb(rng, rng.randint(0, 7))))
            elif x < .65: s.append(("dump", []))
            elif iface == 1: continue
            elif x < .9: s.append(("find", [rng.randint(1, 5), rng.choice([-1, -1, rng.randint(0, len(c) + 4)])]))
            else: s.append(("id", [rng.choice([-1, -1, rng.randint(0, len(c) + 4)])]))
        yield s + [("dump", [])]
def fixed():
    for n in (65534, 65535, 65533, 32769):
        if n < 40000 or n < 65536:
            for i in (0, 2):
                yield [("start", [2, i]), ("open", [1]), ("fill", [n, 5]), ("close", []), ("put", [2, 7]), ("seek", [0]), ("find", [2, -1]), ("get", [1]), ("seek", [2]), ("ignore", []), ("id", [-1]), ("seek", [2]), ("get", [2]), ("id", [-1])]
TYPES = [1, 2, 3, 4, 5, 6, 7, 8]
def text(rng): return [rng.choice([97, 98, 32, 200]) for _ in range(rng.choice([0, 1, 2, 3, rng.randint(0, 12)]))]
def fields(rng, t):
    n = {1: 16, 2: 0, 3: 4, 4: 24 * rng.randint(0, 4), 5: 20, 6: 4, 7: 4, 8: 4}[t]
    return rb(rng, n) + (rb(rng, rng.choice([0, 0, 1, 2, 5])) if t in (1, 2) else text(rng) if t in (5, 6, 7) else [])
ID = {1: "fmt ", 2: "data", 3: "slnt", 4: "cue ", 5: "ltxt", 6: "labl", 7: "note", 8: "RIFF"}
def ident(x): return [ord(c) for c in x]
def chunk(i, d): return ident(i) + le(len(d), 4) + d + [0] * (len(d) & 1)
def cues(rng, ids):
    out = []
    for i in ids:
        out.append((le(i, 4) + rb(rng, 20), rb(rng, 16), text(rng), text(rng), text(rng)))
    return out
def wavfile(rng, ids, depth=0):
    """Chunks of a file with one list of cues at most"""
    out = []
    def junk(): return chunk(rng.choice(["fmt ", "data", "JUNK", "ICRD", "INAM", "bext", "slnt"]), rb(rng, rng.randint(0, 9)))
    def adtl():
        d = ident("adtl")
        for _ in range(rng.randint(0, 5)):
            i = rng.choice(ids + [77]) if ids else 77; x = rng.random(); t = text(rng); z = [0] if rng.random() < .7 else []
            d += chunk("ltxt", le(i, 4) + rb(rng, 16) + t + z) if x < .35 else chunk("labl", le(i, 4) + t + z) if x < .6 else chunk("note", le(i, 4) + t + z) if x < .85 else chunk("file", rb(rng, rng.randint(0, 5)))
        return chunk("LIST", d)
    def cue():
        d = le(len(ids), 4)
        for i in ids: d += le(i, 4) + rb(rng, 20)
        return chunk("cue ", d + (rb(rng, rng.choice([1, 2, 3])) if rng.random() < .1 else []))
    parts = [junk() for _ in range(rng.randint(0, 3))] + [adtl() for _ in range(rng.randint(0, 2))] + ([cue()] if ids or rng.random() < .3 else [])
    if rng.random() < .3: parts.append(chunk("LIST", ident("INFO") + junk() + chunk("INAM", text(rng))))
    rng.shuffle(parts)
    for p in parts: out += p
    return out
def wrand(rng, tier):
    for _ in range(2500 if tier == "quick" else 30000):
        x = rng.random()
        if x < .35:
            iface = rng.choice([0, 1]); s = [("start", [1, iface])]; ts = [rng.choice(TYPES) for _ in range(rng.randint(1, 4))]
            for t in ts: s.append(("wput", [t] + fields(rng, t)))
            s += [("dump", []), ("seek", [0])]
            if iface == 0:
                for t in ts: s += [("id", [-1]), ("wget", [t])]
            else: s += [("seek", [4]), ("wget", [ts[0]])]
        elif x < .5:
            t = rng.choice(TYPES); d = fields(rng, t)
            if t == 1 and rng.random() < .8: d = d[:16] + le(rng.choice([0, 1, 3, len(d) - 16, 300]), 2) + d[16:]
            if t == 4: d = le(rng.choice([len(d) // 24, len(d) // 24, 0, 1, 5, 1000]), 4) + d + rb(rng, rng.choice([0, 0, 1, 23]))
            if t in (5, 6, 7): d += rng.choice([[], [0], [0, 65], [0, 0]])
            if rng.random() < .3: d = d[:rng.randint(0, len(d))]
            f = chunk(ID[t], d) + chunk("fmt ", [1])
            if rng.random() < .1: f = f[:rng.randint(0, len(f))]
            iface = rng.choice([0, 1])
            s = [("start", [1, iface] + f), ("seek", [4]), ("wget", [t])] + ([("id", [-1])] if iface == 0 else [])
        elif x < .65:
            ids = rng.sample(range(1, 40), rng.randint(0, 5)); s = [("start", [1, 0])]
            flat = []
            for c, e, d, t, n in cues(rng, ids): flat += c + e + [len(d)] + d + [len(t)] + t + [len(n)] + n
            if rng.random() < .5: s.append(("wput", [rng.choice([1, 2])] + rb(rng, 17)))
            s += [("cues_put", flat)]
            if rng.random() < .5: s.append(("wput", [2] + rb(rng, rng.randint(0, 5))))
            s += [("dump", []), ("seek", [0]), ("cues_read", [-1]), ("cues_remove", [-1])]
        else:
            ids = rng.sample([0, 1, 2, 3, 9, 256, 65536], rng.randint(0, 4)); f = wavfile(rng, ids); z = len(f)
            if rng.random() < .5:
                f = chunk("RIFF", ident("WAVE") + f); z = len(f)
                if rng.random() < .3: f = chunk("RIFF", ident("XXXX") + rb(rng, 5)) + f
                f = (chunk("JUNK", rb(rng, 3)) if rng.random() < .3 else []) + f + (chunk("RIFF", rb(rng, 6)) if rng.random() < .2 else [])
            if rng.random() < .15: f = f[:rng.randint(0, len(f))]
            s = [("start", [1, 0] + f), ("content", [rng.choice([-1, -1, len(f)])])]
            if rng.random() < .7: s.append(("cues_read", [rng.choice([-1, len(f)])]))
            s += [("seek", [min(len(f), rng.choice([0, 0, 12]))]), ("cues_read", [rng.choice([-1, len(f)])]), ("cues_remove", [rng.choice([-1, len(f)])])]
        yield s
def parts(tier):
    return [Part("records", "S11.cpp", "T_Rec", gens=[("G_Rec", {"Depth": 4, "Recent": 1}, {"Depth": 5, "Recent": 1})], gen_limit=(8000, 60000), rand=rand, fixed=fixed),
            Part("wav", "S11.cpp", "T_Wav", rand=wrand)]
