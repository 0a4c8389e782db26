from vf import Part
CP = {5: "cp1250", 6: "cp1251", 7: "cp1252"}
def enc(cs, cps):
    out = []
    for c in cps:
        if cs == 4: out.append(c)
        elif 0xD800 <= c <= 0xDFFF or c > 0x10FFFF:
            out += [c & 0xFFFF] if cs == 3 else [0xE0 | c >> 12 & 15, 0x80 | c >> 6 & 63, 0x80 | c & 63] if cs == 2 else [63]
        elif cs == 3: b = chr(c).encode("utf-16-le"); out += [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]
        elif cs == 2: out += list(chr(c).encode())
        elif cs == 0: out.append(c if c < 128 else 63)
        else: out += list(chr(c).encode(CP[cs], "replace"))
    return out
def enc7(rng, cps):
    """UTF-7: each character direct or in a section, sections ended with or without -"""
    import base64
    out = ""; i = 0; cps = list(cps); ends = False
    B = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    D = set(range(32, 126)) - {43, 92} | {9, 10, 13}
    while i < len(cps):
        c = cps[i]
        if c == 43 and rng.random() < .7: out += "+-"; i += 1
        elif c in D and rng.random() < .8: out += chr(c); i += 1
        else:
            j = i + 1
            while j < len(cps) and (cps[j] not in D or rng.random() < .3): j += 1
            x = base64.b64encode("".join(map(chr, cps[i:j])).encode("utf-16-be")).decode().rstrip("=")
            i = j; out += "+" + x
            if i < len(cps):
                # the next one is direct when it may end the section by itself
                if rng.random() < .5 and cps[i] in D and chr(cps[i]) not in B + "-": out += chr(cps[i]); i += 1
                else: out += "-"
            elif rng.random() < .6: out += "-"
    return [ord(c) for c in out]
def point(rng, cs, to):
    n = {5, 6, 7} & {cs, to}
    if 0 in (cs, to): return rng.randint(1, 127)
    if n and rng.random() < .97:
        while True:
            try: c = ord(bytes([rng.randint(1, 255)]).decode(CP[rng.choice(sorted(n))]))
            except UnicodeDecodeError: continue
            try:
                for k in n: chr(c).encode(CP[k])
                return c
            except UnicodeEncodeError: continue
    x = rng.random()
    return rng.randint(1, 127) if x < .3 else rng.randint(128, 2047) if x < .5 else rng.choice([0x7FF, 0x800, 0xFFFD, 0xFEFF, 0xD7FF, 0xE000, 0xFFFF, rng.randint(0x800, 0xD7FF)]) if x < .75 else rng.choice([0x10000, 0x10FFFF, rng.randint(0x10000, 0x10FFFF)])
BUF = [1024, 1024, 512, 256]
def text(rng, cs, to, big=True):
    """limit, times, block length, units.., zero-terminated?"""
    if big and rng.random() < .25:
        blk = enc(cs, [point(rng, cs, to) for _ in range(rng.randint(1, 4))])
        n = max(2, rng.choice([256, 512, 1024, 2048]) // rng.choice([len(blk), 1]) + rng.randint(-2, 2))
        n = min(n, 1100 // len(blk) + 2)
        if n < 2: n = 2
        tail = enc(cs, [point(rng, cs, to) for _ in range(rng.randint(0, 3))])
        if rng.random() < .5: return [len(blk) * n + len(tail), n, len(blk)] + blk + tail, False
        return [-1, n, len(blk)] + blk + tail + [0], True
    cps = [point(rng, cs, to) for _ in range(rng.choice([0, 1, 2, 3, rng.randint(0, 12)]))]
    u = enc(cs, cps)
    x = rng.random()
    if x < .12 and u: u[rng.randrange(len(u))] = rng.choice([0, 0, rng.randint(0, 255), 0xC4, 0xD83D if cs in (3, 4) else 0xE2, 0xDC00 if cs in (3, 4) else 0x80])
    if x > .93 and u: u = u[:-1]
    if x > .9 and cs == 4: u.append(rng.choice([0xD800, 0xDFFF, 0x110000, -5]))
    z = rng.random() < .5
    if z: u.append(0)
    lim = rng.choice([len(u), len(u), rng.randint(0, len(u))] + ([-1] if 0 in u else []))
    return [lim, 1, len(u)] + u, 0 in u
def text7(rng, to):
    cps = [point(rng, 1, to) for _ in range(rng.choice([0, 1, 1, 2, 3, rng.randint(0, 12)]))]
    cps = [rng.choice([43, 45, 43, 65]) if rng.random() < .2 else c for c in cps]
    u = enc7(rng, cps); x = rng.random()
    if x < .1:
        blk = enc7(rng, [point(rng, 1, to), 46]); blk = blk if blk[-1] in (45, 46) else blk + [45]; n = rng.choice([256, 512, 1024, 1100]) // len(blk) + rng.randint(-1, 1)
        if n > 1: return [n * len(blk) + len(u), n, len(blk)] + blk + u, False
    z = rng.random() < .5; k = len(u)
    if z: u = u + [0]
    return [rng.choice([k, len(u)] + ([-1] if z else [])), 1, len(u)] + u, z
def rand7(rng, tier):
    for _ in range(1200 if tier == "quick" else 15000):
        f, t = rng.choice([(1, 2), (1, 3), (1, 4), (1, 0), (1, 5), (1, 7), (2, 1), (3, 1), (4, 1), (0, 1), (5, 1), (6, 1), (1, 1)]); s = [("start", [f, t])]
        for _ in range(rng.randint(1, 5)):
            a, z = text7(rng, t) if f == 1 else text(rng, f, t)
            op = rng.choice(["cat", "cat", "cpy"]); m = rng.choice([0, 0, 1, 2, 3, 4, 5]) if z else rng.choice([0, 0, 2, 3, 5])
            if f == 1 and m in (2, 5): m = 0
            if m in (1, 2, 4, 5) and a[1] == 1: a[0] = -1
            if rng.random() < .3: s.append(("set", [rng.randint(0, 127) for _ in range(rng.choice([0, 3, rng.randint(0, 20)]))]))
            s.append((op, [m] + a))
            if f != 1 and rng.random() < .3: s.append(("clear", []))
        yield s
    for _ in range(300 if tier == "quick" else 4000):
        w = rng.randint(0, 1); a, z = text7(rng, 4) if w else text(rng, 4, 1, rng.random() < .3); m = rng.randint(0, 3)
        if w and m in (1, 3): m -= 1
        if m in (1, 3) and a[1] == 1: a[0] = -1
        if a[0] == -1 and not z: a[0] = len(a) - 3
        yield [("start", [2, 4]), ("free", [m, rng.randint(0, 1), w, 1] + a)]
def rand(rng, tier):
    SETS = [2, 2, 3, 4, 4, 5, 6, 7, 0]
    for _ in range(2500 if tier == "quick" else 40000):
        f, t = rng.choice(SETS), rng.choice(SETS); s = [("start", [f, t])]
        if rng.random() < .1: s.append(("which", []))
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .3: s.append(("set", [rng.randint(0, 127) for _ in range(rng.choice([0, 3, rng.randint(0, 20)]))]))
            a, z = text(rng, f, t); op = rng.choice(["cat", "cat", "cpy"])
            m = rng.choice([0, 0, 1, 2, 3, 4, 5]) if z else rng.choice([0, 0, 2, 3, 5])
            if m in (1, 2, 4, 5):
                if a[1] == 1: a[0] = -1
            s.append((op, [m] + a))
            if rng.random() < .4: s.append(("clear", []))
        yield s
    for _ in range(500 if tier == "quick" else 8000):
        cs = rng.choice([2, 2, 5, 6, 7, 0]); w = rng.randint(0, 1); a, z = text(rng, cs if w else 4, 4 if w else cs, rng.random() < .3); m = rng.randint(0, 3); 
        if m in (1, 3) and a[1] == 1: a[0] = -1
        if a[0] == -1 and not z: a[0] = len(a) - 3
        yield [("start", [2, 4]), ("free", [m, rng.randint(0, 1), w, cs] + a)]
    names = ["UNICODE-1-1-UTF-7", "UTF-7", "CSUNICODE11UTF7", "UTF-8", "UTF8", "UTF-16", "UTF-16LE", "UTF-32", "UTF-32LE", "CP1250", "MS-EE", "WINDOWS-1250", "CP1251", "MS-CYRL", "WINDOWS-1251", "CP1252", "MS-ANSI", "WINDOWS-1252", "UTF-16BE", "", "UTF-", "UTF-88", "CP125", "ISO-8859-1", "UTF 8", "TF-8", "cp1253", "ZZ", "A"]
    for n in names:
        for v in (n, n.lower(), "".join(rng.choice([c.lower(), c.upper()]) for c in n)): yield [("start", [2, 4]), ("name", [ord(c) for c in v])]
def parts(tier):
    return [Part("charsets", "T01.cpp", "T_Charset", gens=[("G_Charset", {"Depth": 1, "Recent": 9, "Most": 2}, {"Depth": 1, "Recent": 9, "Most": 3})], gen_limit=(8000, 100000), rand=rand),
            Part("utf7", "T01.cpp", "T_Charset", rand=rand7)]
