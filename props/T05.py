from vf import Part
S = lambda s: [ord(c) for c in s]
NOOP, ANY, CU, SPACE, PUNCT, SPUNCT, BOL, EOL, SET, STR, ITER, SEQ, BRANCH, STRS, PERM, INT10, INT10TS, INT16, ROMAN, FRACTION, SCORE, SIGNED, MIXED, SCI, MONEY, IPV4 = range(26)
class G:
    def __init__(self, rng, c):
        self.rng, self.c, self.nodes = rng, c, []
        for ch in "0123456789": self.add(CU, 0, ord(ch))
        for ch in "abcdefIVXLCDM": self.add(CU, 0, ord(ch))
        self.add(STR, *S("VV")); self.add(STR, *S("XX"))
        self.k = len(self.nodes)
    def add(self, *n): self.nodes.append(list(n)); return len(self.nodes) - 1
    def ch(self):
        r = self.rng
        if self.c == 2: return S(r.choice("aAbB01.,+-/ \n;") if r.random() < .8 else r.choice(["&amp;", "&lt;", "&Abring;", "&#97;", "&#10;", "&foo;", "&"]))
        return [r.choice(S("aAbB01.,+-/ \n;&") if r.random() < .9 else [200, 255] if self.c == 0 else [0x10C, 0x2028, 0x1F414])]
    def chars(self, n): return [x for _ in range(n) for x in self.ch()]
    def leaf(self):
        r = self.rng; k = r.choice([NOOP, ANY, CU, CU, CU, SPACE, PUNCT, SPUNCT, BOL, EOL, SET, SET, STR, STR, STRS]); inv = int(r.random() < .25)
        if k in (NOOP, ANY): return self.add(k)
        if k == CU: return self.add(k, inv, *self.ch())
        if k in (SPACE, PUNCT, SPUNCT, BOL, EOL): return self.add(k, inv)
        if k == SET: return self.add(k, inv, *self.chars(r.randint(1, 4)))
        if k == STR: return self.add(k, *self.chars(r.choice([0, 1, 2, 2, 3])))
        s = []
        for _ in range(r.randint(0, 3)): s += self.chars(r.randint(1, 2)) + [0]
        if s and r.random() < .5: s.pop()
        return self.add(k, *s)
    def int10(self): return self.add(INT10, *range(10))
    def setof(self, s): return self.add(SET, 0, *S(s))
    def one(self, s): return self.add(CU, 0, *S(s))
    def sp(self): return self.add(SPACE, 0)
    def integer(self, d=0):
        r = self.rng; k = r.choice([0, 0, 1, 1, 2, 3])
        if k == 0: return self.int10()
        if k == 1: a = self.int10(); b = self.setof(r.choice([".", ".,", " .", ".'"])); return self.add(INT10TS, a, b)
        if k == 2: return self.add(INT16, *range(16))
        return self.add(ROMAN, 16, 17, 18, 19, 20, 21, 22, self.rng.choice([23, -1]), self.rng.choice([24, -1]))
    def signs(self, null=True):
        s = [self.one("+"), self.one("-"), self.one("~") if self.rng.random() < .5 else self.add(STR, *S("+-"))]
        return [-1 if null and self.rng.random() < .25 else x for x in s]
    def fraction(self): n = self.integer(); l = self.one("/"); d = self.integer(); return self.add(FRACTION, n, l, d)
    def numeral(self, d):
        r = self.rng; k = r.choice([INT10, INT10TS, INT10TS, FRACTION, SCORE, SIGNED, MIXED, MIXED, SCI, SCI, SCI, MONEY, IPV4])
        if k in (INT10, INT10TS): return self.integer()
        if k == FRACTION: return self.fraction()
        if k == SCORE: h = self.integer(); s = self.setof(":-"); g = self.integer(); sp = self.sp(); return self.add(SCORE, h, s, g, sp)
        if k == SIGNED: s = self.signs(); n = self.numeral(d - 1) if d else self.integer(); return self.add(SIGNED, *s, n)
        if k == MIXED: s = self.signs(); i = self.integer(); sp = self.sp(); f = self.fraction(); return self.add(MIXED, *s, i, sp, f)
        if k == SCI:
            s = self.signs(); i = self.integer(); ds = self.one(r.choice(".,")); d = self.int10(); x = self.setof("eE"); ps = self.one("+"); ns = self.one("-"); ex = self.int10()
            return self.add(SCI, *s, i, ds, d, *[-1 if r.random() < .12 else v for v in (x, ps, ns, ex)])
        if k == MONEY:
            s = self.signs(); c = self.one("$"); i = self.integer(); ds = self.one(r.choice(".,")); dd = self.int10() if r.random() < .7 else self.add(ITER, self.one("-"), 1, -1, 1)
            return self.add(MONEY, *s, c, i, ds, dd)
        return self.add(IPV4, *range(10), self.one("."))
    def tree(self, d):
        r = self.rng
        if d == 0 or r.random() < .15: return self.leaf()
        if r.random() < .08: return self.numeral(1)
        k = r.choice([ITER, ITER, SEQ, SEQ, SEQ, BRANCH, BRANCH, PERM, PERM])
        if k == ITER:
            e = self.tree(d - 1); m = r.choice([0, 0, 1, 1, 2, 3]); x = r.choice([-1, -1, m, m + 1, m + 2, 1]); return self.add(ITER, e, m, x, int(r.random() < .75))
        return self.add(k, *[self.tree(d - 1) for _ in range(r.randint(0 if r.random() < .15 else 1, 3))])
def gen_text(rng, g, t):
    """text likely to match node t, damaged at times"""
    def w(i):
        n = g.nodes[i]; k = n[0]
        if rng.random() < .04: return g.ch()
        if k == NOOP: return []
        if k == ANY: return g.ch()
        if k == CU: return n[2:] if not n[1] else g.ch()
        if k in (SPACE, SPUNCT): return [rng.choice(S("  \t\n\r"))] if not n[1] else S("a")
        if k == PUNCT: return [rng.choice(S(".,;&"))]
        if k in (BOL, EOL): return rng.choice([[], [], [10]])
        if k == SET: return (rng.choice([[x] for x in n[2:]]) if g.c != 2 else n[2:]) if not n[1] else g.ch()
        if k == STR: return list(n[1:])
        if k == STRS:
            ws = [[]]
            for x in n[1:]:
                if x == 0: ws.append([])
                else: ws[-1].append(x)
            return rng.choice(ws)
        if k == ITER: return [x for _ in range(rng.randint(n[2], max(n[2], 3) if n[3] < 0 else max(n[2], n[3]))) for x in w(n[1])]
        if k == SEQ: return [x for i in n[1:] for x in w(i)]
        if k == BRANCH: return w(rng.choice(n[1:])) if n[1:] else []
        if k == PERM: o = n[1:]; rng.shuffle(o); return [x for i in o for x in w(i)]
        if k == INT10: return S(str(rng.choice([rng.randint(0, 9), rng.randint(0, 99), rng.randint(0, 1999), rng.randint(0, 999)])))
        if k == INT10TS:
            s = [chr(x) for x in g.nodes[n[2]][2:]]; t = str(rng.randint(0, 999)); c = rng.choice(s)
            for _ in range(rng.choice([0, 0, 1, 2])): t += (c if rng.random() < .9 else rng.choice(s)) + ("%03d" if rng.random() < .9 else "%d") % rng.randint(0, 999)
            return S(t)
        if k == INT16: return S("%x" % rng.choice([rng.randint(0, 15), rng.randint(0, 65535), rng.randint(0, 1 << 28)]))
        if k == ROMAN:
            if rng.random() < .5:
                v = rng.randint(1, 4999); t = ""
                for a, b in [(1000, "M"), (900, "CM"), (500, "D"), (400, "CD"), (100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")]:
                    while v >= a: t += b; v -= a
                return S(t)
            return S("".join(rng.choice("IVXLCDM" if rng.random() < .3 else "IIVX") for _ in range(rng.randint(1, 7))) + rng.choice(["", "", "VV", "XX"]))
        sp = lambda: S(rng.choice(["", "", " ", "  ", "\n"]))
        sg = lambda a: w(rng.choice([x for x in a if x >= 0] or [9])) if rng.random() < .5 else []
        if k == FRACTION: return w(n[1]) + w(n[2]) + w(n[3])
        if k == SCORE: return w(n[1]) + sp() + w(n[2]) + sp() + w(n[3])
        if k == SIGNED: return sg(n[1:4]) + w(n[4])
        if k == MIXED: return sg(n[1:4]) + (w(n[4]) if rng.random() < .7 else []) + sp() + (w(n[6]) if rng.random() < .7 else [])
        if k == SCI: return sg(n[1:4]) + (w(n[4]) if rng.random() < .8 else []) + (w(n[5]) + S(str(rng.choice([0, 5, 25, 125, 7, "05", 999, 1234]))) if rng.random() < .6 else []) + (S(rng.choice("eE")) + S(rng.choice(["", "+", "-", "+-"]) + rng.choice(["", "0", "1", "2", "3", "6", "9", "12"])) if rng.random() < .6 else [])
        if k == MONEY: return sg(n[1:4]) + w(n[4]) + (w(n[5]) if rng.random() < .8 else []) + (w(n[6]) + w(n[7]) if rng.random() < .6 else [])
        if k == IPV4: return S(".".join(str(rng.choice([rng.randint(0, 255), 0, 255, 256, rng.randint(0, 9), "", "025", "300"]) if rng.random() < .3 else rng.randint(0, 255)) for _ in range(rng.choice([4, 4, 4, 3, 5]))))
        return []
    u = w(t)
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        i = rng.randint(0, len(u)); x = rng.random()
        if x < .4: u = u[:i] + g.ch() + u[i:]
        elif x < .7 and u: u = u[:i] + u[i + 1:]
        elif u and i < len(u): u[i] = u[i] ^ 32 if chr(u[i]).isalpha() and u[i] < 128 else g.ch()[0]
    return u[:24]
def scenario(rng, c, make):
    g = G(rng, c); t = make(g); s = [("start", [c, g.k]), ("nodes", [x for n in g.nodes for x in [len(n)] + n])]
    for _ in range(rng.randint(1, 3)):
        pre = g.chars(rng.choice([0, 0, 1, 2])); u = pre + gen_text(rng, g, t) + g.chars(rng.choice([0, 0, 1]))
        z = rng.random() < .4
        if z: u += [0] + g.chars(rng.choice([0, 1]))
        s.append(("text", u))
        for _ in range(rng.randint(1, 3)):
            n = u.index(0) if z else len(u); st = len(pre) if rng.random() < .7 else rng.randint(0, n)
            e = -1 if z and rng.random() < .6 else rng.choice([len(u), len(u), rng.randint(0, len(u))])
            f = rng.choice([0, 0, 1, 2, 3])
            if rng.random() < .05: s.append(("drop", [t]))
            if rng.random() < .2: s.append(("search", [t, st, e, f]))
            else:
                v = int(rng.random() < .3); s.append(("match", [t, st, e if v == 0 or rng.random() < .5 else -1, f, v]))
                if v and s[-1][1][2] == -1 and not z: s[-1][1][2] = len(u) if rng.random() < .5 else -1
    return s
def rand(rng, tier):
    for _ in range(6000 if tier == "quick" else 120000):
        c = rng.choice([0, 0, 1, 2]); d = rng.choice([0, 1, 1, 2, 2, 3])
        yield scenario(rng, c, (lambda g: g.tree(d)) if rng.random() < .6 else (lambda g: g.numeral(1)))
def parts(tier):
    return [Part("combinators", "T05.cpp", "T_Parser", gens=[("G_Parser", {"Depth": 10, "Recent": 0, "Most": 2}, {"Depth": 10, "Recent": 0, "Most": 3})], gen_limit=(6000, 150000), rand=rand)]
