"""HTML documents: see Html.tla."""
import re
from vf import Part
def S(s): return [ord(c) for c in s]
NAMES = re.findall(r'"(\w+)"', re.search(r"Names == <<(.*?)>>", open(__file__.rsplit("/", 2)[0] + "/spec/Html.tla").read(), re.S)[1])
OPAQUE = ["code", "comment", "script", "style"]; VERBATIM = OPAQUE + ["address", "cite", "kbd", "samp"]
VOID = ["br", "hr", "img", "input", "link", "meta", "area", "base", "param", "wbr", "col", "frame", "isindex", "nextid", "rt", "embed"]
GROUPS = ["p", "div", "ul", "ol", "li", "table", "tr", "td", "th", "tbody", "thead", "tfoot", "h1", "h3", "title", "dt", "dd", "dl", "body", "html", "head", "form", "pre", "caption", "noframes", "menu", "dir", "blockquote", "fieldset", "legend", "colgroup"]
INLINE = ["b", "i", "em", "a", "span", "font", "q", "label", "select", "option", "optgroup", "textarea", "button", "map", "object", "applet", "sub", "nobr"]
ATTRS = ["href", "title", "alt", "src", "id", "class", "action", "cite", "abbr", "summary", "background", "data", "code", "usemap", "longdesc", "classid", "TITLE", "Href", "é", "lowsrc", "profile", "codebase", "pluginspage", "basehref"]
ENT = ["&amp;", "&lt;", "&quot;", "&#65;", "&#x42;", "&eacute;", "&", "&nosuch;", "&#18;", "&#x13;", "&acE;", "&#39;"]
def words(r): return "".join(r.choice(["a", "b c", " ", "\n", "é", "\"", "'", "x > y", "]", "]]", ">", "%", ";", "č", "\U0001f600", "-", "=", "/", "<", "< b", "1<2", "&"] + ENT) if r.random() < .5 else r.choice("abc xyz") for _ in range(r.randint(0, 5)))
def elem(r):
    x = r.random()
    return r.choice(GROUPS) if x < .4 else r.choice(INLINE) if x < .6 else r.choice(VOID) if x < .72 else r.choice(VERBATIM) if x < .8 else r.choice(["x", "x:y", "blah", "pé", "İ", "ſ", "K", "p1"]) if x < .86 else r.choice(NAMES)
def case(r, n): x = r.random(); return n if x < .75 else n.upper() if x < .9 else n.title()
def val(r):
    q = r.choice("\"\"\"''"); b = "".join(r.choice(["x", "http://a.si/?b=c", "&amp;", "é", " ", "a.css", "&", "&#34;", "&quot;", "&apos;", ">", "<", "&lt;", "\n", "č", "&#19;", "%20", "&eacute;"] + ["\"" if q == "'" else "'"]) for _ in range(r.randint(0, 3)))
    x = r.random()
    return q + b + q if x < .75 else r.choice(["v", "a&amp;b", "x/y", "a&#98;", "1'2", "č&lt;"]) if x < .95 else ""
def attr(r): return r.choice([" ", " ", "\n", "  "]) + r.choice(ATTRS) + (r.choice(["=", "=", "=", " = "]) + val(r) if r.random() < .85 else "")
def attrs(r): return "".join(attr(r) for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])))
def start(r, n): return "<" + case(r, n) + attrs(r) + r.choice(["", "", "", " "]) + (r.choice([">"] * 9 + ["/>"]))
def end(r, n): return "</" + case(r, n) + r.choice(["", "", "", " ", "\n"]) + ">"
def css(r): return "".join(r.choice(["p { color: red }", "url(a.png)", "url('b c')", "url( \"d\" )", "@import 'x.css';", "@import \"\\41 y\";", "@IMPORT url(z);", "/* url(c) */", "<!--", "-->", " ", "\\", "u", "@", "-", "/", "<", "URL(a\\)b)", "url()", "é", "url(č)", "\"url(s)\"", "url('\\e9 x')", "/* ", "url(\\22 )"]) for _ in range(r.randint(0, 4)))
def inner(r, n):
    x = "".join(r.choice(["var a = '<b>';", "x < y", "<p>", "</p>", "a", "&amp;", "<!-- c -->", " ", "<" + n + ">", "<br/>", "<?a?>", "]]>"]) for _ in range(r.randint(0, 3))) if n != "style" else css(r)
    return x
def other(r):
    x = r.random()
    if x < .25: return "<!--" + r.choice([" c ", "", "a-b", "<b>", "é", "--", " > "]) + r.choice(["-->", "-->", "-->", "->"])
    if x < .4: return "<?" + r.choice(["xml version=\"1.0\"", "", "php echo '>'", "a?b"]) + r.choice(["?>", "?>", ">", ""])
    if x < .5: return "<!" + r.choice(["DOCTYPE html", "DOCTYPE html PUBLIC \"-//W3C//DTD HTML 4.01//EN\"", "ELEMENT a", "", "x -- c -- y=1"]) + ">"
    if x < .62: return "<!" + r.choice(["ENTITY", "ENTITY", "entity", "ENTITYX"]) + " % " + r.choice(["d", "e", "dd", "D"]) + " " + r.choice(['"IGNORE"', "'INCLUDE'", '"CDATA"', "'%d;'", '"RC%e;"', '"%x;"', '""', "SYSTEM", "PUBLIC", "IGNORE", "\"", '"DATA"', "'RCDATA'"]) + r.choice(["", "", " x"]) + ">"
    if x < .92: return "<![" + r.choice(["", "", " "]) + r.choice(["CDATA", "RCDATA", "IGNORE", "INCLUDE", "CDATA", "RCDATA", "IGNORE", "INCLUDE", "ignore", "%d;", "%e;", "%dd;", "RC%d;", "%x;", "TEMP", "", "if gte IE 6", "%d", "C%d;"]) + r.choice(["", "", " "]) + r.choice(["["] * 8 + ["", "[ "])
    return r.choice(["]]>", "]]>", "]]", "<![", "]>"])
def meta(r): return "<meta" + r.choice([" http-equiv=", " HTTP-EQUIV=", " name="]) + r.choice(["\"Content-Type\"", "'content-type'", "content-type", "refresh"]) + " " + r.choice(["content=", "CONTENT="]) + "\"" + r.choice(["text/html; charset=", "text/html;charset=", "text/html; Charset="]) + r.choice(["utf-8", "UTF-8", "utf-16", "cp1250", "windows-1251", "Windows-1252"]) + "\"" + r.choice([">", "/>"])
def tree(r, d):
    """mostly well-formed markup"""
    o = ""
    for _ in range(r.randint(0, 4)):
        x = r.random()
        if x < .3: o += words(r)
        elif x < .78:
            n = elem(r)
            if r.random() < .85: o += start(r, n)
            if n in VOID and r.random() < .9: continue
            if n in OPAQUE or n in VERBATIM and r.random() < .5: o += inner(r, n)
            elif d: o += tree(r, d - 1)
            if r.random() < .75: o += end(r, n)
        elif x < .9: o += other(r)
        elif x < .93 and d: o += "<![" + r.choice(["CDATA", "RCDATA", "IGNORE", "INCLUDE", "x"]) + "[" + tree(r, d - 1) + "]]>"
        elif x < .95: o += meta(r)
        elif x < .96: o += r.choice(["<frameset cols='1,2'>", "<frame src='a'>", "</frameset>"])
        else: o += end(r, elem(r))
    return o
def clean(t): return t.replace("\x12", "").replace("\x13", "").replace("\0", "")
def document(r):
    t = tree(r, r.choice([1, 2, 3, 4]))
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        i = r.randint(0, len(t))
        t = t[:i] + r.choice(["", "<", ">", "\"", "'", "&", "/", " ", "]", "</p>", "<p>"]) + t[i + r.randint(0, 1):]
    return clean(t)
def units(t, wide): return [x if wide or x < 256 else 63 for x in S(t)]
def feed(r, t, wide):
    """operations that end with the whole text in the document; None if not appended in one piece: a tag cut in two is not recognized the same"""
    u = units(t, wide); x = r.random(); z = [0] + S("<p>x") if r.random() < .1 else []
    if x < .45: return [("assign", u + z)]
    if x < .7: return [("append", u + z), ("finalize", [])]
    c = sorted(r.randint(0, len(u)) for _ in range(r.choice([1, 1, 2, 3])))
    return [("append", u[i:j]) for i, j in zip([0] + c, c + [len(u)])] + [("finalize", [])]
def scenario(r, wide):
    s = [("start", [int(wide)])]
    for k in range(r.choice([1, 1, 2, 3])):
        if k and r.random() < .6: s.append(("clear", []))
        f = feed(r, document(r), wide)
        if k and s[-1][0] != "clear" and f[0][0] != "assign": s.append(("clear", []))
        if r.random() < .15: f.insert(len(f) - 1, ("parse", [1, 0]))
        s += f
        for _ in range(r.choice([1, 1, 2])): s.append(("parse", [int(r.random() < .8), int(r.random() < .05)]))
    return s
def rand(r, tier):
    for i in range(5000 if tier == "quick" else 150000): yield scenario(r, i % 6 != 5)
def batch(head, ops, n=25): return [[("start", [head])] + ops[i:i + n] for i in range(0, len(ops), n)]
def one(t): return [("assign", units(t, True)), ("parse", [1, 0])]
def fixed():
    n = len(NAMES)
    tr = [("traits", [k, c]) for c in range(-3, n + 1) for k in (1, 2)]
    keys = re.findall(r"<<<<([\d, ]+)>>", open(__file__.rsplit("/", 2)[0] + "/spec/Html.tla").read().split("Uris ==")[1].split("Listed(")[0])
    keys = {"".join(chr(int(c)) for c in k.split(",")) for k in keys}
    tr += [("traits", [3, c] + S(k)) for c in range(-3, n + 1) for k in sorted(keys | {"title", "Href", "ALT", "id", "x", "hre", "hreff"})]
    for b in batch(0, tr, 60): yield b
    for b in batch(1, tr, 60): yield b
    pairs = []
    for p in NAMES + ["x"]:
        for c in NAMES + ["y"]: pairs += one("<%s>a<%s>b</%s>c" % (p, c, p))
    for b in batch(1, pairs, 40): yield b
    for b in batch(0, [o for o in pairs if o[0] == "assign"][::3], 25): yield b
    deep = []
    for p in NAMES:
        deep += one("<p title='a' href=b>1<%s title=\"c&amp;'\" href='d&quot;' src=e><b>t</b>" % p) + one("x</%s>y<%s/>z<%s></%s><%s>" % (p, p, p, p, p)) + one("<style>url(a)</style><%s> <p></%s>" % (p, p))
        deep += one("<table><tr><td><%s>a</td></tr></table>b" % p) + one("<ul><li><%s><li></ul>b" % p)
    for b in batch(1, deep, 20): yield b
def group(gens, rng, tier):
    t, out = {}, []
    for g in gens: t.setdefault(tuple(g[0][1]), []).extend([o for op in g[1:] for o in ((op, ("parse", [1, 0])) if g[0][1][0] else (op,))])
    for head, ops in t.items(): out += [[("start", list(head))] + ops[i:i + 40] for i in range(0, len(ops), 40)]
    return out
def stack(r): return r.sample(range(4), r.randint(0, 4))
def words_(r, tier):
    for _ in range(500 if tier == "quick" else 20000):
        s = [("start", [])]
        for _ in range(r.randint(3, 25)):
            x = r.random(); l = stack(r)
            s.append(("end", l) if x < .15 else ("begin", [r.randint(0, len(l))] + l) if x < .3 else ("insert", [r.choice([0, 1, 2, 3, 4, 4, 5]), r.randint(1, 3), r.randint(0, 1)] + l) if x < .6 else ("word", [r.randint(1, 3), r.randint(0, 1)]) if x < .9 else ("merge", [len(l)] + l + [r.randint(0, 5) for _ in range(r.randint(0, 6))]))
        yield s
def parts(tier):
    return [Part("tokens", "T04t.cpp", "T_Tokens", rand=words_, gens=[("G_Tokens", {"Depth": 2, "Recent": 1, "Most": 3}, {"Depth": 4, "Recent": 2, "Most": 3})], gen_limit=(3000, 50000)),
            Part("documents", "T04.cpp", "T_Html", rand=rand, fixed=fixed, gens=[("G_Html", {"Depth": 1, "Recent": 0, "Most": 3}, {"Depth": 1, "Recent": 0, "Most": 4})], expand=group, gen_limit=(60000, 600000))]
