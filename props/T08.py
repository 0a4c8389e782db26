"""Recognizers: see the second half of Parser.tla."""
from vf import Part
import T05
from T05 import S, CU, SET, STR, ITER, SEQ, BRANCH, STRS, SPACE, INT10, IPV4
DNSCHAR, USERCHAR, PASSCHAR, PATHCHAR, SCOPECHAR, IPV6, DNS, URLPATH, URL, EMAIL, EMOTICON, DATE, TIME, ANGLE, PHONE, IBAN, CREDITOR, SIREF, FORMULA = range(30, 49)
class G(T05.G):
    def many(self, kind): return self.add(ITER, self.add(kind), 1, -1, 1)
    def lit(self, s): return self.add(STR, *S(s))
    def maybe(self, f, p=.15): return -1 if self.rng.random() < p else f()
    def ipv4(self): return self.add(IPV4, *range(10), self.one("."))
    def ipv6(self):
        return self.add(IPV6, *range(16), self.one(":"), self.maybe(lambda: self.one("%")), self.maybe(lambda: self.many(SCOPECHAR)))
    def dns(self): return self.add(DNS, int(self.rng.random() < .5), self.add(DNSCHAR, int(self.rng.random() < .3)), self.one("."))
    def path(self): return self.add(URLPATH, self.add(PATHCHAR), self.one("?"), self.one("#"))
    def hosts(self): return [self.ipv4(), self.ipv6(), self.dns()]
    def url(self):
        s = [self.lit("http"), self.lit("ftp"), self.lit("mailto"), self.lit("file")]; co = self.one(":"); sl = self.one("/")
        u, p, at = self.many(USERCHAR), self.many(PASSCHAR), self.one("@"); lb, rb = self.one("["), self.one("]"); h = self.hosts(); po = self.int10()
        return self.add(URL, *s, co, sl, u, p, at, lb, rb, *h, po, self.path())
    def email(self):
        u, at, lb, rb = self.many(USERCHAR), self.one("@"), self.one("["), self.one("]"); return self.add(EMAIL, u, at, lb, rb, *self.hosts())
    def emoticon(self):
        e = self.maybe(lambda: self.add(STRS, *S("^^"), 0, *S(":/"), 0, *S("<3")), .4); a = self.maybe(lambda: self.setof("O0"), .3); y = self.setof(":;B8"); n = self.maybe(lambda: self.setof("-o*"), .3)
        return self.add(EMOTICON, e, a, y, n, self.setof(")(|PD*"))
    def number(self): return self.integer() if self.rng.random() < .15 else self.int10()
    def date(self):
        r = self.rng; m = r.choice([1 << r.randint(0, 6), r.randint(0, 127), 127, 1 | 32, 4 | 8])
        day = self.number() if m & 0x67 or r.random() < .5 else -1; mon = self.number(); y = self.number() if m & 0x1f or r.random() < .5 else -1
        return self.add(DATE, m, day, mon, y, self.setof(r.choice(["./-", ".", "/-"])), self.sp())
    def time(self):
        h, m = self.int10(), self.int10(); s, ms = self.maybe(self.int10), self.maybe(self.int10); sep = self.setof(":."); return self.add(TIME, h, m, s, ms, sep, self.maybe(lambda: self.one(".")))
    def angle(self):
        d = self.int10(); ds = self.one("*"); m = self.int10(); ms = self.one("'"); s = self.maybe(self.int10); ss = self.maybe(lambda: self.lit("''") if self.rng.random() < .5 else self.one('"'), .3)
        return self.add(ANGLE, d, ds, m, ms, s, ss, self.maybe(lambda: self.add(SEQ, self.one("."), self.int10()), .3))
    def phone(self):
        d = self.setof("0123456789"); p = self.maybe(lambda: self.one("+")); l = self.maybe(lambda: self.setof("([")); r = self.maybe(lambda: self.setof(")]")); s = self.maybe(lambda: self.setof("-/."))
        return self.add(PHONE, d, p, l, r, s, self.maybe(self.sp))
    def formula(self):
        e = self.add(STRS, *sum((S(x) + [0] for x in ("Na", "N", "H", "C", "Cl", "O")), [])) if self.rng.random() < .5 else self.add(BRANCH, self.lit("Na"), self.one("H"), self.one("O"))
        return self.add(FORMULA, e, self.setof("0123456789"), self.setof("+-"))
    def spaced(self, k): return self.add(k, self.maybe(self.sp, .2))
def w(rng, s, n=1, p=.25):
    """s, damaged at times"""
    s = list(s)
    for _ in range(n):
        if rng.random() < p:
            i = rng.randint(0, len(s)); x = rng.random()
            if x < .4: s.insert(i, rng.choice(s + list(":.-1a @/?")))
            elif x < .7 and s and i < len(s): del s[i]
            elif x < .85 and s and i < len(s): s[i] = rng.choice("0aZ:.-@")
            elif s and i < len(s): s[i] = s[i].swapcase()
    return "".join(s)
def t_ipv4(r): return ".".join(str(r.choice([r.randint(0, 255), 0, 255, 256, r.randint(0, 9)])) for _ in range(r.choice([4, 4, 4, 4, 3, 5])))
def t_ipv6(r):
    g = ["%x" % r.choice([0, 1, r.randint(0, 15), r.randint(0, 65535), 0xffff] + ([0x10000] if r.random() < .1 else [])) for _ in range(r.choice([8, 8, 8, 7, 9, r.randint(0, 8)]))]
    if r.random() < .6 and g:
        i = r.randint(0, len(g)); j = min(len(g), i + r.choice([0, 1, 2, 3, 8])); t = ":".join(g[:i]) + "::" + ":".join(g[j:])
    else: t = ":".join(g)
    if r.random() < .3: t += r.choice(["%", "%eth0", "%1", "%-", ":", "::", ":1"])
    return t
def t_dns(r):
    return "".join(r.choice(["a", "b1", "www", "x-y", "a-", "-a", "com", "z--z", "1"]) + r.choice([".", ".", ".", "..", ""]) for _ in range(r.choice([1, 2, 2, 3]))) + r.choice(["", "", ".", "-", "_"])
def t_host(r, mail=False):
    x = r.random()
    if x < .3: return "[" + t_ipv4(r) + r.choice(["]", "]", ""]) if mail or r.random() < .1 else t_ipv4(r)
    if x < .55: return "[" + t_ipv6(r) + r.choice(["]", "]", "]", ""])
    return t_dns(r)
def t_user(r): return r.choice(["joe", "a.b", "u%20", "x;y", "", "a", "r&d"])
def t_path(r): return "".join(r.choice(["/", "a", "b.c", "?", "#", "x=1", "&", "(", "é", " ", "/../", "%20"]) for _ in range(r.randint(0, 6)))
def t_url(r):
    s = r.choice(["http://", "ftp://", "mailto:", "file://", "http:/", "https://", "ftp:", "mailto://", "", "HTTP://", "file:/"])
    if r.random() < .45 or s == "mailto:": s += t_user(r) + (":" + r.choice(["pw", "p:(w", ""]) if r.random() < .5 else "") + "@"
    return s + t_host(r, "mail" in s) + (":" + r.choice(["80", "8080", "", "x"]) if r.random() < .4 else "") + ("/" if r.random() < .6 else "") + t_path(r)
def t_date(r):
    a = r.choice(["", "", "", " ", "  ", "\n"])
    f = lambda: r.choice([str(r.randint(0, 32)), str(r.randint(1, 13)), str(r.choice([28, 29, 30, 31, 32])), str(r.choice([4, 6, 9, 11, 2])), str(r.randint(1900, 2100)), "%02d" % r.randint(0, 12), "XI", "b"])
    s = r.choice("./-"); n = r.choice([1, 2, 3, 3, 3]); t = f()
    for _ in range(n - 1): t += r.choice([a, a, " "]) + (s if r.random() < .9 else r.choice("./-")) + r.choice([a, a, ""]) + f()
    return t + (r.choice([a, ""]) + r.choice([s, "."]) if r.random() < .4 else "")
def t_time(r):
    n = lambda: r.choice(["%02d" % r.randint(0, 61), str(r.randint(0, 9)), "59", "60", "100"]); s = r.choice(":.")
    return n() + s + n() + ((s if r.random() < .85 else ":") + n() if r.random() < .7 else "") + ("." + r.choice(["5", "999", "1000", "001", ""]) if r.random() < .5 else "")
def t_angle(r):
    n = lambda: r.choice([str(r.randint(0, 61)), "59", "60", "0", "360"])
    return (n() + r.choice(["*", "*", ""]) if r.random() < .8 else "") + (n() + r.choice(["'", "'", "''"]) if r.random() < .7 else "") + (n() + r.choice(["''", '"', "", "'"]) if r.random() < .6 else "") + ("." + r.choice(["5", "25", ""]) if r.random() < .4 else "")
def t_phone(r):
    d = lambda: "".join(r.choice("0123456789") for _ in range(r.randint(1, 3)))
    t = r.choice(["", "", "+", "00", " "])
    for _ in range(r.randint(1, 5)):
        x = r.random()
        if x < .2: t += r.choice("([") + r.choice([d(), "0", ""]) + r.choice([")", ")", "]", "", " )"])
        t += d() if x < .9 else ""
        t += r.choice(["", " ", "-", "/", "  ", " -", "- ", "\n", "."])
    return t
CC = {}
def _cc():
    """the countries of the specification, read from it"""
    if not CC:
        import os, re
        t = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Parser.tla")).read()
        t = t[t.index("IbanLength(a, b) =="):t.index("IbanCheck(a, b) ==")]
        for l, n in re.findall(r"In\(<<([\d, ]+)>>\) -> (\d+)", t):
            l = [int(x) for x in l.split(",")]
            for i in range(0, len(l), 2): CC[chr(l[i]) + chr(l[i + 1])] = int(n)
    return CC
FIXED = {"BA": "39", "ME": "25", "MK": "07", "MR": "13", "PT": "50", "RS": "35", "SI": "56", "TL": "38", "TN": "59"}
num = lambda s: int("".join(str(int(x, 36)) for x in s))
def spaced(r, s, p=.5):
    m = r.choice([0, 4, 4, -1])
    if m == 4: return " ".join(s[i:i + 4] for i in range(0, len(s), 4))
    if m == -1: return "".join(x + (" " if r.random() < .15 else "") for x in s)
    return s
def t_iban(r, f):
    cc = r.choice(sorted(_cc())); n = CC[cc] - 4; b = "".join(r.choice("0123456789" if r.random() < .8 else "ABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(n))
    if r.random() < .1: b = "".join(r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(n))
    k = "%02d" % (98 - num(b + cc + "00") % 97)
    if cc in FIXED:
        if r.random() < .7:         # a number for these check digits
            for _ in range(300):
                b = "".join(r.choice("0123456789") for _ in range(n))
                if num(b + cc + FIXED[cc]) % 97 == 1: break
        k = FIXED[cc] if r.random() < .9 else k
    elif r.random() < .2: k = "%02d" % r.randint(0, 99)
    t = cc + k + b
    if r.random() < .2: t = cc + k + b[:r.randint(0, n)]
    if r.random() < .15: i = r.randint(4, len(t)); t = t[:i] + r.choice(["-", "z", "", "1", "é"]) + t[i + 1:]
    if r.random() < .2: t = t.lower()
    if r.random() < .05: t = r.choice(["NO9386011117947", "GB82WEST12345698765432", "DE89370400440532013000", "XX00", "S", "SI5", "SI56", "ZZ18"])
    return spaced(r, t) + r.choice(["", "", " ", "1", "."])
def t_creditor(r, f):
    n = r.choice([1, 4, 5, 8, 20, 21, 21, 22, r.randint(1, 21)]); b = "".join(r.choice("0123456789" if r.random() < .5 else "ABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(n))
    if r.random() < .3: b = "".join(r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(n))
    k = "%02d" % (98 - num(b + "RF00") % 97) if r.random() < .75 else "%02d" % r.randint(0, 99)
    t = r.choice(["RF"] * 12 + ["R", "RG", "FR"]) + k + b
    if r.random() < .1: i = r.randint(0, len(t)); t = t[:i] + r.choice(["-", "z", "é"]) + t[i + 1:]
    if r.random() < .2: t = t.lower()
    return spaced(r, t) + r.choice(["", "", " ", ".", "-1"])
def check11(s):
    k = 11 - sum(int(d) * (i + 2) for i, d in enumerate(reversed(s))) % 11
    return str(k if k < 10 else 0)
def t_si(r, f):
    m = r.choice(["%02d" % r.randint(0, 12), r.choice(["00", "01", "06", "10", "08", "09"]), r.choice(["18", "19", "28", "38", "40", "41", "48", "49", "51", "58", "55", "21", "31", "99", "11", "12"]), "%02d" % r.randint(0, 99)])
    n = r.choice([0, 1, 1, 2, 2, 3, 3, 3, 4]); d = lambda k: "".join(r.choice("0123456789") for _ in range(k))
    P = [d(r.choice([0, 1, 2, 3, 5, 7, 11, 12, 13]) if r.random() < .3 else r.randint(1, 5)) for _ in range(n)]
    if r.random() < .75:           # controlled parts, as the model wants them
        q = list(P); x = r.random(); kk = lambda a: [(a[i] + check11(a[i])) for i in range(len(a))]
        if x < .35: P = [(a + check11(a)) if r.random() < .9 else a for a in q]
        elif x < .6 and n: P = q[:-1] + [q[-1] + check11("".join(q))]
        elif x < .8 and n >= 2: P = [q[0], q[1] + check11(q[0] + q[1])] + [a + check11(a) for a in q[2:]]
        elif n >= 2: P = [q[0] + check11(q[0])] + q[1:-1] + [q[-1] + check11("".join(q[1:]))]
    t = r.choice(["SI"] * 12 + ["S", "si", "IS"]) + m + (r.choice(["", "", " ", "  "])) + "-".join(P) + r.choice(["", "", "-", "-1", " ", "a"])
    return w(r, t, 1, .1)
def t_formula(r): return "".join(r.choice(["Na", "N", "H", "C", "Cl", "O", "na", "h", "X"]) + r.choice(["", "", "2", "12", "0"]) for _ in range(r.randint(0, 4))) + r.choice(["", "", "+", "-", "++", "2"])
def t_emoticon(r):
    if r.random() < .12: return r.choice(["^^", ":/", "<3", "^", "<"])
    return r.choice(["", "", "O", "0", "O0"]) + r.choice(":;B8=") + r.choice(["", "-", "o", "*"]) + r.choice(")(|PD*") * r.choice([1, 1, 2, 4]) + r.choice(["", "", "(", ")", "*", "-"])
KINDS = {
    "ipv6": (lambda g: g.ipv6(), lambda r, f: w(r, t_ipv6(r))), "dns": (lambda g: g.dns(), lambda r, f: w(r, t_dns(r))),
    "path": (lambda g: g.path(), lambda r, f: w(r, t_path(r))), "url": (lambda g: g.url(), lambda r, f: w(r, t_url(r))),
    "email": (lambda g: g.email(), lambda r, f: w(r, t_user(r) + "@" + t_host(r, True))), "emoticon": (lambda g: g.emoticon(), lambda r, f: w(r, t_emoticon(r))),
    "date": (lambda g: g.date(), lambda r, f: w(r, t_date(r))), "time": (lambda g: g.time(), lambda r, f: w(r, t_time(r))),
    "angle": (lambda g: g.angle(), lambda r, f: w(r, t_angle(r))), "phone": (lambda g: g.phone(), lambda r, f: w(r, t_phone(r))),
    "iban": (lambda g: g.spaced(IBAN), t_iban), "creditor": (lambda g: g.spaced(CREDITOR), t_creditor), "si": (lambda g: g.spaced(SIREF), t_si),
    "formula": (lambda g: g.formula(), lambda r, f: w(r, t_formula(r)))}
WEIGHT = dict(url=3, si=3, iban=2, date=2, phone=2, ipv6=2)
def enc(rng, c, t):
    u = []
    for ch in t:
        x = ord(ch)
        if c == 2 and x < 128 and rng.random() < .03: u += S("&#%d;" % x)
        elif c == 2 and ch == "&": u += S(rng.choice(["&amp;", "&"]))
        else: u += [x]
    return u
def scenario(rng, kind):
    c = rng.choice([0, 0, 1, 2]); g = G(rng, c); make, text = KINDS[kind]; t = make(g)
    s = [("start", [c, g.k]), ("nodes", [x for n in g.nodes for x in [len(n)] + n])]
    for _ in range(rng.randint(2, 5)):
        pre = S(rng.choice(["", "", "", "x", "1 ", "-"])); u = pre + enc(rng, c, text(rng, g))
        z = rng.random() < .4
        if z: u += [0] + S(rng.choice(["", "1", "a"]))
        s.append(("text", u))
        for _ in range(rng.choice([1, 1, 2])):
            n = u.index(0) if z else len(u); st = min(n, len(pre)) if rng.random() < .9 else rng.randint(0, n)
            e = -1 if z and rng.random() < .7 else rng.choice([len(u), len(u), len(u), rng.randint(0, len(u))])
            f = rng.choice([0, 0, 0, 1, 2, 3])
            if rng.random() < .05: s.append(("drop", [t]))
            s.append(("search" if rng.random() < .05 else "match", [t, st, e, f, 0]))
    return s
def cuts(rng, tier):
    """texts of each format, cut at every place, with nothing behind"""
    for _ in range(5 if tier == "quick" else 80):
        for kind in KINDS:
            c = rng.choice([0, 0, 1, 2]); g = G(rng, c); make, text = KINDS[kind]; t = make(g); u = max((enc(rng, c, text(rng, g))[:45] for _ in range(2)), key=len); f = rng.choice([0, 0, 1])
            s = [("start", [c, g.k]), ("nodes", [x for n in g.nodes for x in [len(n)] + n])]
            for n in range(len(u) + 1): s += [("text", u[:n]), ("match", [t, 0, n, f, 0])]
            s.append(("match", [t, len(u), len(u), f, 0]))
            yield s
def chars(rng, tier):
    """every character of the URL's parts by itself"""
    for c in (0, 1, 2):
        for kind in ((DNSCHAR, 0), (DNSCHAR, 1), (USERCHAR,), (PASSCHAR,), (PATHCHAR,), (SCOPECHAR,)):
            g = G(rng, c); t = g.add(*kind); s = [("start", [c, g.k]), ("nodes", [x for n in g.nodes for x in [len(n)] + n])]
            all_ = list(range(1, 128)) + ([] if kind == (DNSCHAR, 1) else rng.sample(range(128, 256), 6)) + ([0x17e, 0x20ac] if c == 1 and kind != (DNSCHAR, 1) else [])
            for x in [None] + all_:
                u = [] if x is None else S("&#%d;" % x) if c == 2 and rng.random() < .2 else [x]
                f = rng.choice([0, 0, 1]); s += [("text", u + ([0] if rng.random() < .2 else [])), ("match", [t, 0, len(u), f, 0])]
                if x in (45, 97) and s[-2][1] == [x]: s.append(("match", [t, 1, 1, f, 0]))   # nothing left
            at = [i for i in range(2, len(s)) if s[i][0] == "text"][::30] + [len(s)]
            for i, j in zip(at, at[1:]): yield s[:2] + s[i:j]
def rand(rng, tier):
    yield from cuts(rng, tier)
    yield from chars(rng, tier)
    ks = [k for k in KINDS for _ in range(WEIGHT.get(k, 1))]
    for i in range(5000 if tier == "quick" else 140000): yield scenario(rng, ks[i % len(ks)])
def group(gens, rng, tier):
    """many texts of one recognizer in one scenario"""
    t = {}
    for g in gens:
        if len(g) == 4: t.setdefault(str(g[1]), (g[:2], []))[1].append(g[2:])
    for head, texts in t.values():
        rng.shuffle(texts)
        for i in range(0, len(texts), 25): yield list(head) + [x for y in texts[i:i + 25] for x in y]
SETS = [(), (1,), (2,), (3,), (12,), (23,), (123,), (1, 2), (1, 3), (2, 3), (1, 2, 3), (12, 3), (1, 23), (13,)]
SIZES = {1: [(1,), (2,), (11,), (12,), (13,), (20,)], 2: [(1, 1), (12, 8), (12, 9), (8, 12), (9, 12), (13, 2), (2, 13), (10, 10), (3, 5)],
         3: [(1, 1, 1), (12, 7, 1), (12, 7, 2), (1, 7, 12), (2, 7, 12), (7, 12, 1), (7, 12, 2), (13, 2, 2), (2, 13, 2), (2, 2, 13), (3, 2, 4)]}
def si_edges():
    """every model with every set of controlled groups at the edges of the permitted lengths"""
    import random
    r = random.Random(8); g = G(r, 0); t = g.add(SIREF, g.sp()); texts = []
    for m in ["%02d" % i for i in range(13)] + ["18", "19", "21", "28", "31", "38", "40", "41", "48", "49", "51", "55", "58", "99", "77"]:
        for n in SIZES:
            for z in SIZES[n]:
                for c in SETS:
                    if any(int(x) > n for k in c for x in str(k)): continue
                    if r.random() < .6 and max(z) < 11: continue
                    P = ["".join(r.choice("0123456789") for _ in range(k)) for k in z]
                    for k in c:
                        idx = [int(x) - 1 for x in str(k)]; last = idx[-1]
                        P[last] = P[last][:-1]; P[last] += check11("".join(P[i] for i in idx))
                    texts.append("SI" + m + r.choice(["", " "]) + "-".join(P))
    r.shuffle(texts)
    for i in range(0, len(texts), 40):
        s = [("start", [0, g.k]), ("nodes", [x for n in g.nodes for x in [len(n)] + n])]
        for x in texts[i:i + 40]: s += [("text", S(x)), ("match", [t, 0, len(x), 0, 0])]
        yield s
def parts(tier):
    return [Part("recognizers", "T05.cpp", "T_Parser", rand=rand, fixed=si_edges, gens=[("G_Recog", {"Depth": 4, "Recent": 0, "Most": 4}, {"Depth": 4, "Recent": 0, "Most": 6})], expand=lambda g, rng, tier: list(group(g, rng, tier)))]
