"""HTTP, JSON, CSS, MIME and HTML recognizers: see Markup.tla."""
import re
from vf import Part
HTTP = list(range(1, 28)); TEXTS = [30, 31, 32, 33, 34, 35, 36, 37, 40, 41, 42, 43, 44]
def S(s): return [ord(c) for c in s]
def sp(r, p=.3): return r.choice([" ", "\t", "  ", "\r\n ", "\n\t", "\r\n", "\n", "\r", "\v"]) if r.random() < p else ""
def tok(r): return r.choice(["a", "text", "x-y", "q", "é", "A1", "charset", "*", "a.b", "\x80\xff", "n'1", "\x7f", "(x", "a@b", "#", "Q"]) if r.random() < .8 else "".join(r.choice("abcq;=, \t\"/(:") for _ in range(r.randint(0, 4)))
def quoted(r): return '"' + "".join(r.choice(["a", "b c", "\\\"", "\\\\", "\\a", " ", "é", "\r\n ", "\n", "\x01", ",", ";", "\\", "\t"]) for _ in range(r.randint(0, 4))) + r.choice(['"', '"', '"', '"', ""])
def value(r): return quoted(r) if r.random() < .4 else tok(r)
def param(r): return tok(r) + sp(r, .2) + r.choice(["=", "=", "=", "=", "", " ", "=="]) + sp(r, .2) + value(r)
def params(r, d=""): return "".join(sp(r, .2) + r.choice([";", ";", ";", ",", ""]) + sp(r) + d + param(r) for _ in range(r.choice([0, 1, 1, 2, 3])))
def media(r): return r.choice(["*/*", "*", "text/*"]) if r.random() < .3 else tok(r) + sp(r, .15) + r.choice(["/", "/", "/", "/", ""]) + sp(r, .15) + tok(r)
def q(r): return r.choice([";", ";", ";", " ; ", ",", ";;"]) + sp(r, .15) + r.choice("qqqQx") + r.choice(["=", "=", "= ", " =", ""]) + weight(r) if r.random() < .7 else sp(r)
def weight(r): return r.choice(["0.5", "1", "0", "1.000", "0.3", ".7", "0.333", "0.1", "", ".", "0.", "12.5", "0.05", "0.50", "999.999", "-1", "0.9x", "1.0.5", "007", "1,5", "0.3000000000000000000000", "0.50000000000000000001", "0.7" + "0" * 62])
def language(r): return "-".join(r.choice(["en", "sl", "SI", "x", "", "i", "e1", "é"]) for _ in range(r.choice([1, 1, 2, 3]))) + r.choice(["", "", "-", "1"])
def wtoken(r): return r.choice(["*", tok(r), tok(r)]) + q(r)
def wmedia(r): return media(r) + q(r)
def wlanguage(r): return r.choice(["*", language(r), language(r)]) + q(r)
def seg(r): return "".join(r.choice(["a", "b.c", "%20", "é", ":", "=", "&", ";", "..", " ", "\x7f", ""]) for _ in range(r.randint(0, 2)))
def path(r): return "".join(r.choice(["/", "/", "/", "//", ""]) + seg(r) for _ in range(r.choice([1, 1, 2, 3])))
def uparam(r): return r.choice(["a", "b1", "é", "", "x y", "/?"]) + r.choice(["=", "=", "=", "", "=="]) + r.choice(["", "1", "a=b", "%", "é", "?", " "])
def server(r): return r.choice(["www.x.si", "a", "127.0.0.1", "é", "", "[::1]", "u@h", "a b", "x\x7f"])
def port(r): return r.choice(["80", "0", "65535", "65536", "99999", "8080", "", "x", "8x", "0000080", "4294967376", "655360"])
def url(r):
    s = r.choice(["http://", "HTTP://", "hTTp://", "https://", "http:/"]) + server(r) + (r.choice([":", ":", "::"]) + port(r) if r.random() < .5 else "") if r.random() < .55 else ""
    return s + r.choice([path(r), path(r), path(r), ""]) + (r.choice(["?", "??"]) + r.choice(["&", "&", "&&", ""]).join(uparam(r) for _ in range(r.randint(0, 3))) + r.choice(["", "", "&", " ", "#f", "\x01"]) if r.random() < .6 else "")
def agent(r): return r.choice(["Mozilla", "a", "", "é", "x/y"]) + r.choice(["/", "/", "", "//"]) + r.choice(["5.0", "1", "", "(X11)"]) + r.choice(["", " ", " (compatible)", "\r\n", "\t"])
def protocol(r): return r.choice(["HTTP", "http", "", "H T", "X"]) + r.choice(["/", "/", "/", "//", ""]) + r.choice(["1.0", "1.1", "1", "2", "0.9", "1.", ".1", "", "x", "10.20", "1.1.1", "255.255", "256.256", "300.1", "1x.2y"]) + r.choice([" ", "\r\n", "\n", "", "\t", " x"])
def eol(r): return r.choice(["\r\n", "\r\n", "\n", "", "\r", "\n\n", "\r\n\r\n"])
def request(r): return sp(r, .1) + r.choice(["GET", "POST", "é", "", "G:"]) + r.choice([" ", " ", " ", "  ", "\t", "\r\n", ""]) + url(r) + r.choice([" ", " ", " ", "  ", "\t", eol(r)]) + r.choice([protocol(r), protocol(r), ""]) + sp(r, .1) + eol(r) + r.choice(["", "X: y"])
def header(r): return r.choice(["Host", "X-y", "", "é", "a b", " x", "A\tb"]) + r.choice(["", "", " ", "\t ", "\r\n "]) + r.choice([":", ":", ":", "::", ""]) + "".join(r.choice([" ", "v", "w, x", "\r\n ", "\n\t", "\t", "é", "\r", ":", "\r\n\r\n ", "\x01"]) for _ in range(r.randint(0, 5))) + eol(r) + r.choice(["", "y", " y", "Z: 1\r\n"])
def cookie(r): return param(r) + params(r, r.choice(["$", "$", "$", ""]))
def json(r): return r.choice(['"', '"', '"', '"', ""]) + "".join(r.choice(["a", "é", "'", "\\" + r.choice('"/bfnrt\\') , "\\u%04x" % r.choice([0, 1, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, r.randint(0, 65535), 0xe9]), "\\u%04X" % r.choice([0xABCD, 0xe9, r.randint(0, 65535)]), r.choice(["\\u12", "\\u", "\\u12G4", "\\x", "\\", "\\U0041", "\\N", "\\u+123"]) if r.random() < .15 else "/", " ", "\n", "\x01"]) for _ in range(r.randint(0, 6))) + r.choice(['"', '"', '"', '"', '"x', "", "\\"])
def cssstr(r): s = r.choice("\"'"); return s + "".join(r.choice(["a", "b.css", "\\" + s, "\\\"", "\\'", "\\\\", "\\", " ", ")", "\"", "'", "\n", "é"]) if r.random() < .6 else "x" for _ in range(r.randint(0, 4))) + r.choice([s, s, s, s, "", "\\"])
def uri(r): return r.choice(["url(", "url(", "URL(", "uRl(", "url (", "ur"]) + sp(r) + r.choice([cssstr(r), "".join(r.choice(["a", "b/c.png", " ", "\"", "(", "\\)", "\t", "é"]) for _ in range(r.randint(0, 4)))]) + sp(r) + r.choice([")", ")", ")", ")", "", "x)"]) + r.choice(["", ")", " "])
def imp(r): return r.choice(["@import", "@import", "@IMPORT", "@ImPoRt", "@impor", "import"]) + r.choice([" ", "", "\t\n", "x"]) + r.choice([cssstr(r), cssstr(r), cssstr(r), "url(a)", ""]) + r.choice(["", ";"])
def mime(r): return r.choice(["text", "a", "", "x y", "é", "t;", "/"]) + r.choice(["/", "/", "/", "/", ""]) + r.choice(["html", "x", "", "a/b", " x"]) + r.choice(["", ";", ";", "; ", " ;", ";\t\n", "/"]) + r.choice(["charset=", "charset=", "CHARSET=", "cHaRsEt=", "charset", "charset =", "boundary=", ""]) + r.choice(["utf-8", "\"utf-8\"", "'x y'", "\"", "\"x'", "", "a b", "a;b", "utf-8 "]) + r.choice(["", " ", ";"])
def attr(r): return r.choice(["a", "href", "é", "A-b", "", "/", "=", "\"x\"", "!", "-", "a/b", "x'"]) + (sp(r, .2) + "=" + sp(r, .2) + r.choice(['"v"', "'v'", "v", '"a>b"', "'\"'", "", '"', "'x", "a/", "/", "a/>", "a=b", "\"\"", "é", "a'b"]) if r.random() < .65 else "")
def tag(r):
    x = r.random()
    if x < .12: return r.choice(["<!--", "<!--", "<!-", "<! --"]) + "".join(r.choice(["a", "-", "--", ">", "->", "<b>", " ", "é"]) for _ in range(r.randint(0, 5))) + r.choice(["-->", "-->", "->", "--", "-- >", ""])
    if x < .2: return "<?" + "".join(r.choice(["xml", "?", " ", "a='>'", "<", "é"]) for _ in range(r.randint(0, 3))) + r.choice(["?>", ">", "?", "", "??>"])
    if x < .35: return "<!" + sp(r, .1) + "".join(r.choice(["DOCTYPE", "html", "-- c --", "--", "-", "!", "\"x\"", "a=b", "[", "a!", ">"]) + sp(r, .7) for _ in range(r.randint(0, 5))) + r.choice([">", ">", "!>", "", "-->"])
    return "<" + r.choice(["", "", "", "/", "/", " ", "//"]) + r.choice(["p", "a", "BR", "x:y", "é", "p/q", "", "!", "1", "="]) + sp(r, .8) + "".join(attr(r) + sp(r, .8) for _ in range(r.choice([0, 1, 1, 2, 3]))) + r.choice([">", ">", ">", "/>", "/>", "/ >", "", "/", "//>"])
def cond(r): return r.choice(["<![", "<![", "<![", "<!", "<! ["]) + sp(r) + "".join(r.choice(["CDATA", "a", " ", "\n", "]", "é"]) for _ in range(r.randint(0, 3))) + sp(r) + r.choice(["[", "[", "[", "", "]"]) + "x]]>"
def lexeme(*w): return lambda r: r.choice(w)
TEXT = {1: lexeme("\r\n", "\n", "\r", "\r\r\n", "\n\r", "", "x"), 2: lambda r: sp(r, .8) + r.choice(["", " ", "x", "\t", "\n"]), 3: lambda r: sp(r, .4) + r.choice(["a", "é", "\x7f", "\x1f", "\x80", "\xff", "", " ", "\x01"]),
        4: tok, 5: quoted, 6: value, 7: param, 8: lexeme("*/*", "*/", "*", "**", "a", "", "*/a"), 9: media, 10: lambda r: media(r) + params(r), 11: server, 12: port, 13: seg, 14: path, 15: uparam, 16: url, 17: language, 18: weight, 19: lexeme("*", "a", "", "**"),
        20: wtoken, 21: wmedia, 22: lambda r: r.choice(["$", "$", "$", "", "$$"]) + param(r), 23: cookie, 24: agent, 25: protocol, 26: request, 27: header, 30: json,
        31: lambda r: r.choice(["/*", "/*", "/*", "/", "//*"]) + "".join(r.choice(["a", "*", "/", "/*", "**", "é", "\n"]) for _ in range(r.randint(0, 5))) + r.choice(["*/", "*/", "**/", "*", ""]),
        32: lexeme("<!--", "<!-", "<!--x", "<!-->", "", "!--"), 33: lexeme("-->", "--", "->", "--->", "", "-->x"), 34: cssstr, 35: uri, 36: imp, 37: mime,
        40: lambda r: r.choice(["a", "x:y", "p/q", "p/>", ">", "=", " a", "", "/", "/>", "é"]) + r.choice(["", ">", "=", " ", "/>", "/", "b"]), 41: lambda r: r.choice(['"v"', "'v'", "v", '"a>b', "'\"'", "", '"', "'x", "a/", "/>", "a/>", "a=b", "\"\"", "é", "a'b", ">"]) + r.choice(["", ">", " ", "/>", "'", '"']),
        42: tag, 43: cond, 44: lexeme("]]>", "]]", "]>", "]]>x", "]]]>", "")}
COLLECT = {20: wtoken, 21: wmedia, 17: wlanguage}
HEAVY = [5, 6, 7, 10, 14, 15, 16, 16, 20, 21, 23, 24, 25, 26, 26, 27, 27, 30, 30, 34, 35, 36, 37, 37, 40, 41, 42, 42, 42, 42, 42, 43]
def damage(r, t):
    t = list(t)
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        i = r.randint(0, len(t)); x = r.random()
        if x < .5 and i < len(t): del t[i]
        elif i < len(t) and x < .8: t[i], t[0] = t[0], t[i]
        else: t.insert(i, r.choice(t + list(" ;=\"")))
    t = "".join(t)
    return re.sub(r"(\.\d\d\d)5", r"\1", t)   # which way this is rounded is open
def place(r, t, wide):
    """[start, end, units..] with the text somewhere in it"""
    u = [x if wide or x < 256 else 63 for x in S(t)]
    if wide: u = [x if x != 233 or r.random() < .5 else r.choice([0x17e, 0x20ac, 0x1f600, 0x3000]) for x in u]
    pre = S(r.choice(["", "", "", "x", "ab ", "\r"])); post = S(r.choice(["", "", "", "x", " ", "\"", ">", "\n", "=", "a=1"]))
    n = len(pre) + len(u); x = r.random()
    if x < .3: return [len(pre), -1] + pre + u + [0] + (post if r.random() < .6 else S(r.choice(["'", "\"", "')", "\")", ")", "*/", "-->", "'>", "\">", ">"])))
    if x < .6: return [len(pre), n] + pre + u
    if x < .8: return [len(pre), n] + pre + u + post
    if x < .9: return [len(pre), n + 1] + pre + u + [0] + post
    s = r.choice([len(pre), r.randint(0, n)]); return [s, r.randint(0, n)] + pre + u
def scenario(r, kinds, wide):
    s = [("start", [int(wide)])]
    for _ in range(r.randint(3, 8)):
        k = r.choice(kinds)
        if r.random() < .04 and len(s) > 1 and s[-1][0] != "collect": s.append(("drop", [s[-1][1][0]])); continue
        if not wide and r.random() < .08:
            c = r.choice(list(COLLECT)); t = "".join(r.choice([",", ", ", ",, ", " ,", ",", "", ";"]) + COLLECT[c](r) for _ in range(r.randint(0, 6)))
            if r.random() < .7: t = t[1:]
            s.append(("collect", [c] + place(r, t, False)))
        else: s.append(("match", [k] + place(r, damage(r, TEXT[k](r)), wide)))
    return s
def rand(r, tier):
    for i in range(14000 if tier == "quick" else 200000):
        wide = i % 4 == 3; ks = [k for k in HEAVY if k >= 30 or not wide] if r.random() < .7 else TEXTS if wide else HTTP + TEXTS
        yield scenario(r, [r.choice(ks) for _ in range(r.choice([1, 1, 2]))], wide)
def group(gens, rng, tier):
    """many texts in one scenario"""
    t, out = {}, []
    for g in gens: t.setdefault(tuple(g[0][1]), []).extend(g[1:])
    for head, ops in t.items():
        rng.shuffle(ops); out += [[("start", list(head))] + ops[i:i + 25] for i in range(0, len(ops), 25)]
    return out
def cuts(rng, tier):
    """texts that match, cut at every place, with nothing behind"""
    for wide in (False, True):
        ops = []
        for k in TEXTS if wide else HTTP + TEXTS:
            for _ in range(4 if tier == "quick" else 60):
                u = [x if wide or x < 256 else 63 for x in S(TEXT[k](rng))][:40]
                ops += [("match", [k, 0, n] + u[:n]) for n in range(len(u) + 1)] + [("match", [k, len(u), len(u)] + u)]
        for i in range(0, len(ops), 25): yield [("start", [int(wide)])] + ops[i:i + 25]
def both(rng, tier):
    yield from cuts(rng, tier)
    yield from rand(rng, tier)
def parts(tier):
    return [Part("markup", "T09.cpp", "T_Markup", rand=both, gens=[("G_Markup", {"Depth": 1, "Recent": 0, "Most": 4}, {"Depth": 1, "Recent": 0, "Most": 5})], expand=group, gen_limit=(60000, 1500000))]
