from vf import Part
def rand(rng, tier):
    A = [97, 98, 65, 66, 32, 9, 122, 90, 91, 64, 123, 96, 49]
    def units(n, t, x=False, zero=.1):
        out = []
        for _ in range(n):
            p = rng.random()
            if p < zero: out.append(0)
            elif x and p < .3 and t == 0: out.append(rng.choice([200, 255, 128, 233]))
            elif x and p < .3: out.append(rng.choice([268, 269, 353, 381, 160, 8195, 9731]) if t == 1 or rng.random() < .8 else 128020)
            else: out.append(rng.choice(A))
        return out
    def u16(n):
        out = []
        while len(out) < n: out += rng.choice([[97], [98], [0xD83D, 0xDC14], [0xD83D, 0xDC2E], [0xD83D], [0xDC14], [0xDBFF, 0xDFFF], [0xFFFD], [0x10C]])
        return out[:n]
    for _ in range(5500 if tier == "quick" else 120000):
        t = rng.choice([0, 0, 1, 2, 2]); n = rng.choice([1, 2, 3, 5, 5, 5, rng.randint(1, 14)]); z = rng.random() < .6
        kind = rng.random()
        if kind < .14:   # glyphs
            t = rng.choice([1, 2]); cs = [97, 98, 0x300, 0x36F, 0x370, 0x2FF, 0x1DC0, 0x1DFF, 0x1E00, 0x20D0, 0x20FF, 0x2100, 0xFE20, 0xFE2F, 0xFE30, 0x300, 0x301]
            b = []
            while len(b) < n: b += [rng.choice(cs)] if t == 2 or rng.random() < .7 else rng.choice([[0xD83D, 0xDC14], [0xD83D], [0xDC14]])
            s = [("start", [t] + b), ("glyph", []), ("rglyph", []), ("glyph", [rng.randint(0, n)])]
            if rng.random() < .4: s += [("pair", [rng.choice([0x10000, 0x10FFFF, 0x103FF, 0x10400, 0x1F600, rng.randint(0x10000, 0x10FFFF)])]), ("unit", [rng.choice([0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 97, rng.randint(0xD000, 0xEFFF)])])]
            yield s; continue
        if kind < .18:
            yield [("start", [t] + [rng.choice([10, 13, 97]) for _ in range(rng.randint(1, 3))]), ("lbreak", [])]; continue
        if kind < .24:   # UTF-32 against UTF-16
            u = u16(rng.randint(1, 6)); w = []
            for c in u:
                if w and 0xDC00 <= c < 0xE000 and 0xD800 <= w[-1] < 0xDC00: w[-1] = 0x10000 + (w[-1] - 0xD800) * 1024 + c - 0xDC00
                else: w.append(c)
            if rng.random() < .5: w[rng.randrange(len(w))] += rng.choice([-1, 1])
            if rng.random() < .3: w += [rng.choice([0, 97])] + u16(1)
            if rng.random() < .3: u += [rng.choice([0, 97])] + u16(1)
            if rng.random() < .2: w = w[:-1] or [97]
            if rng.random() < .3: w = (w + [0] * 5)[:5]; u = (u + [0, 0])[:3]
            yield [("start", [2] + w), ("cmp", [0, len(w), 0, 1, len(u) if rng.random() < .8 else rng.randint(0, len(u))] + u)]; continue
        s = []; b = units(n, t, True)
        if z: b[-1] = 0
        yt = lambda: t if rng.random() < .6 else rng.choice([0, 1, 2])
        def text(y, term=False, mx=6):
            m = rng.choice([0, 1, 2, 3, 3, rng.randint(0, mx)]); u = units(m, y, y == t)
            if term or rng.random() < .5: u.append(0)
            return u
        def lim(u): return rng.choice([-2] + list(range(len(u) + 1)) if 0 in u else range(len(u) + 1))
        def lb(k=(-1, -2)): return rng.choice(k) if z and rng.random() < .3 else n if rng.random() < .4 else rng.randint(0, n)
        def like():   # a text resembling the buffer's
            u = list(b[rng.randint(0, n - 1):]) if rng.random() < .5 else list(b[:rng.randint(0, n)])
            u = [c + 32 if 65 <= c <= 90 and rng.random() < .4 else c - 32 if 97 <= c <= 122 and rng.random() < .4 else c for c in u]
            if u and rng.random() < .3: u[rng.randrange(len(u))] = rng.choice(A)
            return u
        first = True; s.append(("start", [t] + b)); m = n - 1 if z else n   # what edits may write
        loc = lambda: 0 if t == 1 or rng.random() < .5 else 1 if t == 0 else rng.choice([1, 2])
        for _ in range(rng.randint(1, 4)):
            x = rng.random(); y = yt()
            if x < .1: u = text(y, True, n - 1)[-n:]; u = u16(rng.randint(0, n - 1)) + [0] if t == 2 and y == 1 and rng.random() < .5 else u; s.append(("cpy", [y, -1] + u))
            elif x < .2:
                u = u16(rng.randint(0, n + 2)) if t == 2 and y == 1 and rng.random() < .6 else text(y); s.append(("ncpy", [n if not z and rng.random() < .3 else rng.randint(0, m), y, lim(u)] + u))
            elif x < .24: y = 0 if t != 0 and y != t else y; u = text(y) if y == t else text(y); s.append(("ncpy1", [y, rng.randint(0, min(m, len(u)) if 0 not in u else m)] + u))
            elif x < .3 and first and 0 in b:
                room = n - 1 - b.index(0); u = [c for c in text(y) if c][:room]
                if y == 1 and t == 2: pass
                if rng.random() < .5: s.append(("cat", [y, -1] + u + [0]))
                else: w = u + ([0] if rng.random() < .5 else units(2, y)); s.append(("ncat1", [y, rng.randint(0, len(u)) if 0 not in w[:len(u) + 1] else rng.randint(0, len(w))] + w))
            elif x < .4: u = text(y); s.append(("ncat", [rng.randint(0, m), y, lim(u)] + u))
            elif x < .45: s.append(("case", [rng.randint(0, 1), lb(), loc()]))
            elif x < .53: s.append(("trim", [rng.randint(0, 2), rng.choice([-2, rng.randint(0, m)]) if z else rng.randint(0, m), loc()]))
            elif x < .57: s.append(("dup", [lb((-1,))]))
            elif x < .6: s.append(("len", [lb()]))
            elif x < .67: s.append(("chr", [rng.randint(0, 3), lb(), loc(), rng.choice(b + A) or 97]))
            elif x < .71: s.append(("is", [rng.randint(0, 1), lb((-2,)), loc()]))
            elif x < .87:
                k = rng.choice([0, 0, 1, 2, 2, 3, 4, 5, 6]); l1 = lb()
                if k == 3: y = t = s[0][1][0]
                if k == 3 and t == 1: k = 0
                if k == 0 and t == 2 and y == 1 and rng.random() < .6: u = u16(rng.randint(0, n))
                else: u = like() if y == t and rng.random() < .7 else text(y)
                if k == 3 and any(c > 127 for c in b + u): k = 0
                if l1 == -1: u = [c for c in u if c] + [0] if rng.random() < .8 else u + [0]
                l2 = lim(u) if l1 != -1 else -1
                if k > 3: u = u + [0]; l1 = rng.choice([-2, rng.randint(0, n)]) if z else rng.randint(0, n)
                if k < 4 and l1 == 5 == n and rng.random() < .6: u = (u + units(3, y))[:3]; l2 = 3
                lc = 0 if k in (0, 1, 4, 5) or y != t else 1 if k == 3 else loc()
                s.append(("cmp", [k, l1, lc, y, l2] + u))
            else: u = like() if y == t else text(y); s.append(("str", [rng.randint(0, 1), lb(), loc() if y == t else 0, y, -1] + u[:3] + [0]))
            first = first and s[-1][0] in ("dup", "len", "chr", "is", "cmp", "str")
        yield s
    for _ in range(1500 if tier == "quick" else 20000):
        t = rng.choice([0, 1, 2]); s = units(rng.choice([0, 1, 2, 4, rng.randint(0, 30)]), t, True)
        if rng.random() < .6: s = [rng.choice([13, 10, 97, 32, 0 if rng.random() < .3 else 13]) for _ in s]
        k = rng.randint(0, 7)
        if k > 5: s.append(0)
        yield [("start", [t, 0]), ("text", [k, 0 if t == 1 else rng.choice([0, 1] if t == 0 or k > 4 else [0, 1, 2])] + s)]
def digits(v, r, rng):
    s = ""
    while True:
        d = v % r; s = (("0123456789abcdefghijklmnopqrstuvwxyz" if rng.random() < .5 else "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ")[d]) + s; v //= r
        if not v: return s
def numbers(rng, tier):
    for _ in range(900 if tier == "quick" else 15000):
        s = [("start", [0, 0])]
        for _ in range(8):
            w = rng.choice([1, 2, 4, 8]); r = rng.choice([10, 10, 16, 0, 0, 2, 8, 36, rng.randint(2, 36)]); x = rng.random(); sg = rng.randint(0, 1)
            base = r or rng.choice([8, 10, 16])
            v = rng.choice([0, 1, 2 ** (8 * w - 1), 2 ** (8 * w), 2 ** (8 * w) // base, 2 ** (8 * w - 1) * rng.randint(1, base + 1), 2 ** (8 * w) * rng.randint(1, base)]) + rng.randint(-2, 2) if x < .6 else rng.randrange(2 ** rng.randint(1, 8 * w + 3))
            v = abs(v); txt = digits(v, base, rng)
            if r == 0 and base == 8: txt = "0" + txt
            if r == 0 and base == 10 and txt[0] == "0": txt = "0"
            if base == 16 and (r == 0 or rng.random() < .5): txt = rng.choice(["0x", "0X"]) + txt
            if rng.random() < .15: txt = "0" * rng.randint(1, 20) + txt if r else txt
            txt = rng.choice(["", "", "", " ", "\t\n ", "\r\v\f "]) + rng.choice(["", "", "-", "-", "+"]) + txt + rng.choice(["", "", " ", "z", "9", "g", "\0" + "77", "-1", "."])
            if rng.random() < .1: txt = rng.choice(["", " ", "+", "-", "0x", "x", "- 1", "+-1", "0", "-0", "08", "0x0", "00", "0xg", " 0", "0b1"])
            u = [ord(c) for c in txt]; t = rng.choice([0, 0, 1, 2])
            if rng.random() < .15 and len(u) > 1: u = (u + [0] * 5)[:5]; l = 5
            else:
                l = rng.choice([len(u), len(u), rng.randint(0, len(u))])
                if rng.random() < .3: u.append(0); l = rng.choice([-1, -2, len(u)])
            s.append(("int", [w, sg, r, t, l] + u))
        yield s
    for _ in range(100 if tier == "quick" else 1000):
        u = [ord(c) for c in rng.choice(["", "-"]) + str(rng.randrange(10 ** rng.randint(1, 7))) + rng.choice(["", ".25", ".5", ".75", ".0"])]; t = rng.choice([0, 2])
        x = rng.random()
        yield [("start", [0, 0]), ("real", [t, -1] + u + [0] if x < .3 else [t, len(u)] + u + ([49, 50] if x < .7 else []))]
def formats(rng, tier):
    SP = [0, 1, 251, 252, 253, 254, 255, 256, 257, 509, 510, 511, 512, 513, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2045, 2046, 2047, 2048, 2049, 4093, 4094, 4096, 4097, 9000]
    for n in SP:
        for t in (0, 1): yield [("start", [0, 0]), ("fmt", [0, 7, 120, n, 0 if n % 2 else 5, t, 0])]
    for _ in range(400 if tier == "quick" else 5000):
        s = [("start", [0, 0])]
        for _ in range(3):
            n = max(0, rng.choice(SP + [rng.randint(0, 3000)]) - rng.randint(0, 6))
            s.append(("fmt", [rng.randint(0, 2), rng.choice([0, 7, -12, 123456]), rng.choice([120, 37]), n, rng.choice([0, 1, 20, 1030]), rng.randint(0, 1), rng.choice([0, 22, 84, 75, 2])]))
        yield s
    for n in SP:
        for t in (0, 1): yield [("start", [0, 0]), ("time", [0, 3, 45, n, 1, 2024, 2, 29, 1, 2, 3, t])]
    for _ in range(300 if tier == "quick" else 4000):
        n = max(0, rng.choice(SP + [rng.randint(0, 3000)]) - rng.randint(0, 11))
        yield [("start", [0, 0]), ("time", [rng.randint(0, 2), rng.choice([0, 1, 20, 1030]), 45, n, rng.randint(0, 2), rng.randint(1900, 2999), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 1)])]
def diag(rng, tier):
    for _ in range(150 if tier == "quick" else 2000):
        s = [("start", [])]
        for _ in range(4):
            if rng.random() < .25: s.append(("bench", [rng.choice([0, 0, 1, 50, 3000])] + [rng.randint(33, 126) for _ in range(rng.randint(0, 12))])); continue
            w = rng.randint(0, 1); a = []
            for _ in range(rng.randint(1, 5)):
                u = [rng.randint(32, 126) for _ in range(rng.choice([0, 1, 5, rng.randint(0, 60), rng.choice([127, 128, 255, 256, 1023, 1024, 1025, 2000])]))]
                a += [w + 2 * rng.randint(0, 1), rng.randint(0, 4), rng.choice([0, 5, -3, 123456, rng.randint(-2000000000, 2000000000)]), len(u)] + u
            s.append(("say", a))
        yield s
def parts(tier):
    return [Part("strings", "T07.cpp", "T_Strings", gens=[("G_Strings", {"Depth": 1, "Recent": 0, "Cap": 2}, {"Depth": 1, "Recent": 0, "Cap": 4})], gen_limit=(5000, 150000), rand=rand),
            Part("numbers", "T07.cpp", "T_Strings", rand=numbers), Part("format", "T07.cpp", "T_Strings", rand=formats),
            Part("diagnostics", "T07d.cpp", "T_Diag", rand=diag)]
