from vf import Part
S = lambda s: [ord(c) for c in s]
def rand(rng, tier):
    def ended(u):
        lim = len(u)
        if rng.random() < .35: u = u + [0]; lim = rng.choice([-1, len(u)])
        elif rng.random() < .3: lim = rng.randint(0, len(u))
        if rng.random() < .1: u = u + [0, 92, 37, 65]; lim = len(u)
        return [lim], u
    pre = lambda: [rng.choice(S("ab&%\\")) for _ in range(rng.choice([0, 0, 1, 3]))]
    def text(t, k):
        u = []
        for _ in range(rng.choice([0, 1, 2, 4, 8, rng.randint(0, 30)])):
            x = rng.random()
            if x < .6: u.append(rng.choice(S("&;\"'<>\\\n\r\t %+a4fF#{}|^~[]`/?:@=$!.,-_*()")))
            elif x < .8: u.append(rng.randint(1, 127))
            elif t: u.append(rng.choice([160, 161, 0x10C, 0x1F414, 0x2028, 255, 128]))
            else: u.append(rng.randint(128, 255))
        return u
    def escd(k, t):
        u = []
        for _ in range(rng.choice([0, 1, 2, 3, 6])):
            x = rng.random()
            if k == 2: u += S(rng.choice(["%", "%%", "%4", "%41", "%fF", "%aG", "%G1", "+", "a", "%2B", "%e9", " ", "%:0", "%@0", "%/1", "%`1", "%0g"])) if x < .9 else [rng.randint(1, 255)]
            else:
                u += S(rng.choice(["\\", "\\\\", "\\n", "\\r", "\\t", "\\\n", "\\\"", "\\'", "\\g", "a", " ", "4", "f", "n", "\\41", "\\41 ", "\\041 ", "\\00041", "\\000041", "\\7e", "\\4g", "\\4A z", "\\000041 "])) if x < .8 else \
                    S("\\" + rng.choice(["%x", "%X", "%04x", "%06X"]) % (rng.choice([rng.randint(1, 0x10FFFF), rng.randint(1, 0xFFFF)]) if t else rng.randint(1, 127)) + rng.choice(["", " ", "  ", "g"]))
        if k == 3 and not t:   # digits of the following text might join
            s = "".join(map(chr, u)); i = 0; bad = False
            import re
            for m in re.finditer(r"\\(?:([0-9a-fA-F]{1,6})|(.))", s, re.S):
                if m[1] and not 0 < int(m[1], 16) < 128: bad = True
            if bad: u = [c for c in u if chr(c) not in "0123456789abcdefABCDEF"]
        if k == 3 and t:
            import re
            s = "".join(map(chr, u))
            if any(m[1] and not 0 < int(m[1], 16) < 0x110000 for m in re.finditer(r"\\(?:([0-9a-fA-F]{1,6})|(.))", s, re.S)): u = [c for c in u if chr(c) not in "0123456789abcdefABCDEF"]
        return u
    for _ in range(6000 if tier == "quick" else 150000):
        s = [("start", [])]
        for _ in range(2):
            k = rng.randint(0, 3); t = 0 if k == 2 else rng.randint(0, 1); p = pre(); f = rng.choice([0, 0, 1, 2, 3 if k == 1 else 0])
            if rng.random() < .5 or k < 2:
                lim, u = ended(text(t, k)); s.append(("esc", [k, t, f, len(p)] + p + lim + [len(u)] + u))
            else:
                lim, u = ended(escd(k, t)); s.append(("unesc", [k, t, f, len(p)] + p + lim + u))
        yield s
def every():
    out = []
    for t in (0, 1):
        for k in range(4):
            if k == 2 and t: continue
            for c in range(1, 256, 16): out.append([("start", [])] + [("esc", [k, t, (x + k) % 4 if k == 1 else x % 3, 0, 1, 1, x]) for x in range(c, min(c + 16, 256))])
    for c in range(0, 256, 8): out.append([("start", [])] + [("unesc", [2, 0, 0, 0, 3] + S(f % x)) for x in range(c, c + 8) if x for f in ("%%%02x", "%%%02X")])
    for c in range(1, 256): out.append([("start", [])] + [("unesc", [2, 0, 0, 0, 3] + u) for u in ([37, c, 52], [37, 52, c])] + [("unesc", [3, 1, 0, 0, 3] + u) for u in ([92, c, 103], [92, 52, c])])
    return out
def parts(tier):
    return [Part("escape", "T03.cpp", "T_Escape", gens=[("G_Escape", {"Depth": 1, "Recent": 0, "Most": 4}, {"Depth": 1, "Recent": 0, "Most": 5})], gen_limit=(6000, 100000), rand=rand, fixed=every)]
