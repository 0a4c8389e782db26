from vf import Part
import base64
def uform(b):
    h = "".join("%02X" % b[i] for i in (3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15))
    return "{%s-%s-%s-%s-%s}" % (h[:8], h[8:12], h[12:16], h[16:20], h[20:])
def utext(rng):
    t = uform([rng.choice([0, 255, rng.randint(0, 255)]) for _ in range(16)])
    if rng.random() < .4: t = "".join(c.lower() if rng.random() < .5 else c for c in t)
    if rng.random() < .4: t = "".join((rng.choice(["", "", " ", "\t\n", "  "]) + c + rng.choice(["", "", " ", "\r"])) if c in "{}-" else c for c in t)
    if rng.random() < .3:
        p = t.strip("{} \r\n\t").replace(" ", "").split("-")
        p = [rng.choice([g, g, g.lstrip("0"), "0" * rng.randint(1, 20) + g, g[:rng.randint(0, len(g))], g + rng.choice("0F"), "F" * 17]) for g in p]
        t = "{" + "-".join(p) + "}"
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        i = rng.randint(0, len(t)); c = rng.choice(" -{}0Ffg\0x+\t,(:"); k = rng.randint(0, 2)
        t = t[:i] + (c if k else "") + t[i + (k != 1):]
    if rng.random() < .15: t = t[:rng.randint(0, len(t))]
    if rng.random() < .05: t = t + "\0" + t
    return [ord(c) for c in t]
def sig(rng):
    n = rng.choice([74, 74, 74, 73, 75, 72, 76, 77, rng.randint(0, 90)])
    d = bytes([rng.choice([69, 69, 69, 69, 68, 101, 0])]) + bytes([rng.choice([100, 68, 0, 255])]) + bytes(rng.choice([0, 255, 9, 10, 13, rng.randint(0, 255)]) for _ in range(88))
    b = base64.b64encode(d[:n]).decode()
    if rng.random() < .1 and b: i = rng.randint(0, len(b)); b = b[:i] + rng.choice([" ", "-", "\0", "\t"]) + b[i:]
    nl = rng.choice(["\n", "\n", "\r\n"]); t = ""
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])): t += rng.choice(["untrusted comment: signature", "untrusted comment:", "", "untrusted comment: " + b, "untrusted comment", "Untrusted comment: x", "trusted comment: t", "\r", " "] if rng.random() < .5 else ["untrusted comment: signature from minisign secret key"]) + nl
    t += b
    if rng.random() < .8: t += nl
    if rng.random() < .6: t += "trusted comment: timestamp:1\tfile:x" + nl + base64.b64encode(d[:64]).decode() + nl
    if rng.random() < .05: t = t[:rng.randint(0, len(t))]
    return [rng.choice([0, 0, 1, 7])] + [ord(c) for c in t]
TAGS = ["sl-SI", "sl", "en-US", "zh-TW", "zh", "sr-Cyrl-RS", "sr", "qps-Latn-x-sh", "pap-029", "es-419", "yi-001", "qps-ploc", "fil", "ca-ES-valencia", "ca"]
def tag(rng):
    t = list(rng.choice(TAGS))
    for _ in range(rng.choice([0, 1, 1, 2])):
        i = rng.randint(0, len(t)); k = rng.randint(0, 3)
        if k == 0: t[i:i] = [rng.choice("-_ az09\u00e9.{")]
        elif k == 1 and i < len(t): t[i] = rng.choice([t[i].swapcase(), "-", "_", "@", "`", "[", "~", "\x7f"])
        elif k == 2: t = t[:i]
        elif i < len(t): del t[i]
    return [ord(c) if ord(c) < 128 else 0xe9 for c in t]
NAMES = ["aarch64", "arm", "i386", "x86_64", "armv7l", "i686", "x86", "", "X86_64", "ARM", "AArch64", "i38", "i3866", "x86-64", "x86_64 ", "riscv64", "arm64"]
def rand(rng, tier):
    for _ in range(700 if tier == "quick" else 12000):
        s = [("start", [])]
        for _ in range(12):
            op = rng.choice(["utext", "uparse", "uparse", "uparse", "lang", "tag", "sig", "sig", "platform", "parts", "piece"])
            if op == "utext": a = [rng.randint(0, 1)] + [rng.choice([0, 255, rng.randint(0, 255)]) for _ in range(16)]
            elif op == "uparse": t = utext(rng); w = rng.choice([0, 1, 2, 4, 5, 6]); a = [w, len(t)] + t
            elif op == "lang": a = tag(rng)
            elif op == "tag": a = [rng.choice([rng.randint(0, 65535), rng.randint(0, 160), 127, 0, 0x800, 0xc00, rng.randint(1, 63) * 1024 + rng.randint(0, 160)]), rng.randint(0, 1)]
            elif op == "sig": a = sig(rng)
            elif op == "platform": a = [ord(c) for c in "".join(c.swapcase() if rng.random() < .1 else c for c in rng.choice(NAMES))]
            elif op == "piece":
                k = rng.randint(0, 1); c = [ord(x) for x in "untrusted comment:"]; t = rng.choice([[13, 10], [10], [13], [10, 13], [13, 13, 10], []]) if k else list(c)
                if rng.random() < .4 and t: t[rng.randint(0, len(t) - 1)] = rng.choice([10, 13, 0, 32, 58, 85])
                if rng.random() < .2: t = t[:rng.randint(0, len(t))]
                j = rng.choice([0, 0, 1, 5]); a = [k, min(j, j + len(t))] + [rng.choice([10, 13, 117])] * j + t + [120] * rng.choice([0, 0, 1])
            else: a = [rng.randint(0, 65535)]
            s.append((op, a))
        yield s
def fixed():
    yield [("start", []), ("system", [])]
    for i in range(64): yield [("start", []), ("tags", [i * 1024, i * 1024 + 1023])]
    for n in NAMES: yield [("start", []), ("platform", [ord(c) for c in n])]
def parts(tier):
    return [Part("ids", "T11.cpp", "T_Ids", gens=[("G_Ids", {"Depth": 1, "Recent": 9}, {"Depth": 1, "Recent": 9})], rand=rand, fixed=fixed)]
