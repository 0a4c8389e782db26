from vf import Part
import struct
W = {0: 1, 1: 2, 2: 4, 3: 8, 4: 1, 5: 2, 6: 4, 7: 8, 8: 4, 9: 8, 10: 1}
def num(rng, bits, signed):
    top = 1 << bits
    k = rng.random()
    if k < .35: v = (1 << rng.randint(0, bits - 1)) + rng.randint(-2, 2)
    elif k < .5: v = rng.choice([0, 1, 2, 3, top - 1, top - 2, top // 2, top // 2 - 1, top // 2 + 1])
    elif k < .8: v = rng.getrandbits(rng.randint(1, bits))
    else: v = -rng.getrandbits(rng.randint(1, bits))
    return v % top
def sgn(v, bits): return v - (1 << bits) if v >> (bits - 1) else v
def muldiv(rng):
    bits = rng.choice([32, 64]); s = rng.randint(0, 1)
    while True:
        n, k, q = (num(rng, bits, s) for _ in range(3))
        if rng.random() < .4: q = (k + rng.randint(-1, 1)) % (1 << bits)         # about the same
        if rng.random() < .2: q = (n + rng.randint(-1, 1)) % (1 << bits)
        if not q: continue
        a, b, c = (sgn(x, bits) if s else x for x in (n, k, q))
        r = abs(a * b) // abs(c)
        if r < 1 << (bits - s): return [s] + [x for v in (n, k, q) for x in v.to_bytes(bits // 8, "little")]
def rand(rng, tier):
    for _ in range(600 if tier == "quick" else 12000):
        s = [("start", [])]
        for _ in range(15):
            op = rng.choice(["mul", "mul", "add", "rol", "muldiv", "muldiv", "muldiv", "swap", "swap", "order"])
            if op in ("mul", "add"):
                x = num(rng, 64, 0); y = num(rng, 64, 0)
                if rng.random() < .5 and x: y = ((1 << 64) // x + rng.randint(-1, 1)) % (1 << 64) if op == "mul" else (-x + rng.randint(-1, 1)) % (1 << 64)
                a = list(x.to_bytes(8, "little") + y.to_bytes(8, "little"))
            elif op == "rol": a = [rng.choice([0, 1, 31, 32, rng.randint(0, 100)])] + list(num(rng, 32, 0).to_bytes(4, "little"))
            elif op == "muldiv": a = muldiv(rng)
            else:
                t = rng.choice(range(11)) if op == "swap" else rng.choice([0, 1, 2, 3, 5, 6, 7, 8, 9])
                b = [rng.choice([0, 255, 128, 127, rng.randint(0, 255), rng.randint(0, 255)]) for _ in range(W[t])]
                if t in (8, 9):                       # floating-point values whose bytes are those of values either way
                    ok = lambda c: struct.unpack("<f" if t == 8 else "<d", bytes(c))[0] == struct.unpack("<f" if t == 8 else "<d", bytes(c))[0]
                    if not (ok(b) and ok(b[::-1])): continue
                a = [t] + b
            s.append((op, a))
        yield s
def parts(tier):
    f = ["-fno-sanitize-recover=undefined"]
    return [Part("num", "D03.cpp", "T_Num", gens=[("G_Num", {"Depth": 1, "Recent": 9}, {"Depth": 1, "Recent": 9})], rand=rand, sanitize="address,undefined", flags=f),
            Part("optimized", "D03.cpp", "T_Num", rand=lambda rng, tier: rand(rng, tier), sanitize="", flags=["-O2"])]
