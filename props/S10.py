import zlib
from vf import Part
def data(rng, big=False):
    n = rng.choice([0, 1, 2, 10, rng.randint(0, 60), rng.randint(0, 250)])
    x = rng.random()
    if x < .3: return [rng.randint(0, 255) for _ in range(n)]
    if x < .6: return [rng.choice([97, 98, 99, 32]) for _ in range(n)]
    if x < .8: return ([rng.randint(0, 255) for _ in range(rng.randint(1, 9))] * 300)[:n]
    return [0] * n
def compress(rng, v):
    c = zlib.compressobj(rng.choice([-1, 0, 1, 6, 9]), zlib.DEFLATED, rng.choice([9, 12, 15, 15]), rng.choice([1, 8, 9]), rng.choice([0, 0, 0, 1, 2, 3, 4]))
    z = b""
    while v:
        n = rng.choice([len(v), rng.randint(1, len(v))])
        z += c.compress(bytes(v[:n])); v = v[n:]
        if rng.random() < .15: z += c.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
    return list(z + c.flush())
def split(rng, v):
    while True:
        n = rng.choice([0, 1, 2, rng.randint(0, 30), len(v)]); yield v[:n]; v = v[n:]
        if not v: return
def rand(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        if rng.random() < .4:
            s = [("start", [0, rng.choice([-1, -1, -1, rng.randint(0, 60)]), rng.choice([-1, 0, 1, 5, 9]), rng.choice([1, 2, 7, 64, 65536])])]
            s += [("write", p) for p in split(rng, data(rng))] + [("destroy", [])]
        else:
            z = compress(rng, data(rng)); x = rng.random()
            if x < .2: z += data(rng)[:20]
            elif x < .4: z = z[:rng.randint(0, len(z))]
            elif x < .7:
                for _ in range(rng.choice([1, 1, 3])): z[rng.choice([0, 1, len(z) - 1, rng.randrange(len(z)), rng.randrange(len(z))])] ^= 1 << rng.randrange(8)
                if rng.random() < .2: z = z[:2] + [rng.randint(0, 255) for _ in range(40)]
            s = [("start", [1, rng.choice([1, 1, 2]), rng.choice([0, 0, 1, 2, 5]), rng.choice([1, 2, 7, 64, 65536])] + z)]
            for _ in range(rng.randint(1, 10)): s.append(("read", [rng.choice([0, 1, 2, rng.randint(0, 20), rng.randint(0, 300)])]))
            s += [("read", [400]), ("read", [3]), ("read", [0]), ("read", [1])]
        yield s
def fixed():
    # across the 32 KiB window
    yield [("start", [0, -1, 9, 4096]), ("fill", [40000, 3, 1]), ("fill", [20, 60, 20]), ("fill", [9000, 3, 7]), ("destroy", [])]
    z = list(zlib.compress(bytes(40000) + bytes(range(20)) + bytes(30000)))
    yield [("start", [1, 1, 0, 16] + z)] + [("read", [30011])] * 3 + [("read", [1])]
def parts(tier):
    return [Part("zlib", "S10.cpp", "T_Zlib", rand=rand, fixed=fixed, libs=["-lz"])]
