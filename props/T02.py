import os, re
from vf import Part, VERIF
def table():
    t = open(os.path.join(VERIF, "spec/Entities.tla")).read().split("EntAscii")[0]
    ints = lambda s: [int(x) for x in s.split(",")]
    return [[ints(x) for x in re.findall(r"<<([\d,]+)>>", row)] for row in re.findall(r"<<(<<[\d,]+>>(?:, <<[\d,]+>>)+)>>", t)]
S = lambda s: [ord(c) for c in s]
def rand(rng, tier):
    T = table(); names = [r[0] for r in T]; common = [r[0] for r in T if len(r[1]) == 1 and r[1][0] < 128]; chars = [x for r in T for x in r[1:]]
    un = lambda c, t: [c] if t or c < 65536 else [0xD800 + ((c - 65536) >> 10), 0xDC00 + ((c - 65536) & 1023)]
    def ent():
        n = list(rng.choice(names if rng.random() < .6 else common))
        if rng.random() < .2:
            x = rng.random()
            if x < .3: n = n[:-1]
            elif x < .6: n.append(rng.choice([97, 49, 0x10C if x > .58 else 65]))
            elif x < .8: n[rng.randrange(len(n))] ^= 32
            else: n = n + n
        return S("&") + n + S(rng.choice([";"] * 8 + ["", " ;", ";;", "\n", "&"]))
    def num():
        v = rng.choice([rng.randrange(0x250), rng.randrange(0xD800), rng.randrange(0x10000, 0x110000), 0, 1, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 2 ** 32 + 65, 2 ** 32 - 1, 2 ** 64 + 65, 38, 60, 34])
        s = rng.choice(["#%d" % v, "#x%x" % v, "#X%X" % v, "#%05d" % v, "#x%06X" % v])
        if rng.random() < .15: s = rng.choice(["#", "#x", "#-1", "#+65", "#xg", "#65a", "#x0x41", "# 65", "#6 5", "65", "#x41g", "##65", "#a", "x41", ""])
        return S("&" + s + rng.choice([";"] * 8 + ["", "&"]))
    def plain(n): return [rng.choice(S("ab &;#x<>\"'\\$%@()[]{}z\n")) for _ in range(n)]
    def doc(t, n):
        u = []
        for _ in range(n):
            x = rng.random()
            u += ent() if x < .45 else num() if x < .7 else plain(rng.randint(1, 3)) if x < .95 or t is None else un(rng.choice([0x10C, 0x1F414, 233]), t)
        return u
    def text(t, n):
        u = []
        for _ in range(n):
            x = rng.random()
            if x < .3: u += plain(rng.randint(1, 2))
            elif x < .7:
                for c in rng.choice(chars): u += un(c, t)
            elif x < .8: u += un(rng.choice([rng.randrange(128, 0x3000), rng.randrange(1, 0xD800), rng.randrange(0xE000, 0x110000), 0x1F414, 0x7f, 0x80]), t)
            elif x < .95: u += un(rng.choice(S("aeAx<&.\"") + [0x1F414, 268, 0x1d4b6]), t) + [rng.choice([0x300, 0x306, 0x304, 0x20D0, 0x20DB, 0xFE20]) for _ in range(rng.randint(1, 2))]
            elif t == 0: u += [rng.choice([0xD83D, 0xDC14])]
        return u
    def ended(u):
        lim = len(u)
        if rng.random() < .4: u = u + [0]; lim = rng.choice([-1, len(u)])
        elif rng.random() < .3: lim = rng.randint(0, len(u))
        return [lim], u
    skip = lambda: rng.choice([0, 0, 1 << rng.randint(0, 11), rng.randrange(4096), 4])
    def pre(cap, bounded):
        p = [rng.choice([97, 98]) for _ in range(rng.choice([0, 0, 1, 3]))]
        return p[:cap] if bounded else p
    for _ in range(2500 if tier == "quick" else 60000):
        s = [("start", [])]
        for _ in range(rng.randint(1, 3)):
            x = rng.random(); t = rng.randint(0, 1); f = rng.randint(0, 7)
            if x < .5:
                frm = rng.randint(0, 1); lim, u = ended(doc(t if frm else None, rng.randint(0, 5)))
                if not frm: u = [c if c < 128 else 63 for c in u]
                cap = rng.choice([0, 1, len(u), rng.randint(0, len(u) + 3), rng.randint(0, max(1, len(u) // 2)), len(u) + 9]); p = pre(cap, f in (3, 4))
                s.append(("dec", [t, frm, f, skip(), cap, rng.choice([-1, 0, 10]), rng.choice([0, 20]), len(p)] + p + lim + u))
            elif x < .6:
                lim, u = ended([c if c < 128 else 63 for c in doc(None, rng.randint(0, 4))]); s.append(("err", [rng.randint(0, 2), rng.randint(0, 1), rng.choice([0, 4096])] + lim + u))
            else:
                lim, u = ended(text(t, rng.randint(0, 5))); w = skip() | rng.choice([0, 0, 0, 4096])
                cap = rng.choice([0, 1, len(u), rng.randint(0, 8 * len(u) + 3), rng.randint(0, max(1, 4 * len(u))), 9 * len(u) + 9, 12]); p = pre(cap, f in (3, 4))
                s.append(("enc", [t, f, w, cap, len(p)] + p + lim + [len(u)] + u))
        yield s
def every():
    T = table(); out = []; un = lambda x, t: x
    # every entity, and every spelling of what it stands for
    for k in range(0, len(T), 8):
        s = [("start", [])]
        for r in T[k:k + 8]:
            if len(r[1]) == 1 and r[1][0] < 128:
                for w in [4095] + [1 << b for b in range(12)]:
                    for f in (2, 3): u = S("&") + r[0] + S(";"); s.append(("dec", [k % 2, k // 2 % 2, f, w, 20, 0, 0, 0, len(u)] + u))
            u = S("&") + r[0] + S(";"); s.append(("dec", [k % 2, k // 2 % 2, 2, 0, 0, 0, 0, 0, len(u)] + u))
            for x in r[1:]:
                s.append(("enc", [(k + 1) % 2, (k // 8) % 8, 4096 if k % 3 else 0, 99, 0, len(x), len(x)] + x))
        out.append(s)
    for c in range(1, 128, 4):   # every ASCII character, with nothing, anything, everything asked for
        out.append([("start", [])] + [("enc", [x % 2, f, w, 99, 0, 1, 1, x]) for f in (2, 3) for x in range(c, c + 4) if x < 128 for w in [0, 4095, 4096] + [1 << b for b in range(12)]])
    # every character there may be an entity for, and every letter with a mark
    cs = [[c] for c in list(range(128, 0x2800)) + list(range(0xFB00, 0xFB10))] + [[a, m] for a in S("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz<>=&") for m in list(range(0x300, 0x334)) + [0x338, 0x20D2, 0x20E5, 0x20DB]]
    for k in range(0, len(cs), 40):
        u = [c for x in cs[k:k + 40] for c in x]; out.append([("start", []), ("enc", [k // 40 % 2, (2, 3)[k // 80 % 2], 0, 999, 0, len(u), len(u)] + u)])
    return out
def parts(tier):
    return [Part("sgml", "T02.cpp", "T_Sgml", gens=[("G_Sgml", {"Depth": 1, "Recent": 0, "Most": 3}, {"Depth": 1, "Recent": 0, "Most": 5})], gen_limit=(4000, 100000), rand=rand, fixed=every, flags=["ASSERTS"])]
