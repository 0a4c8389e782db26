import random
from vf import Part
def post(s):
    out = []
    for o, a in s:
        out.append((o, a))
        if o not in ("start", "tell", "data"): out.append(("tell", [1]))
    return out + [("tell", [2]), ("data", [1]), ("data", [2])]
def rand(rng, tier):
    n = 700 if tier == "quick" else 6000
    for _ in range(n):
        kind = rng.choice([0, 0, 1, 2, 3])
        cap = rng.choice([0, 1, 5, 40, 300]) if kind else 0
        size = rng.randint(0, cap)
        s = [("start", [kind, size, cap])]
        for _ in range(rng.randint(3, 40 if tier == "quick" else 80)):
            k = rng.choice([1, 1, 1, 2])
            L = rng.choice([0, 1, 2, 3, 5, 8, 17, 33, 60])
            t = rng.randint(1, 9)
            o = rng.choice(["read"] * 4 + ["write"] * 5 + ["seek"] * 5 + ["read_array", "read_byte", "read_data", "read_data", "read_str",
                "read_remainder", "readln", "put", "write_byte", "write_array", "write_data", "write_str", "write_stream",
                "copy_between", "skip", "truncate", "reserve", "flush", "close", "copy_ctor", "copy_assign", "move_ctor",
                "move_assign", "self_assign", "save_load", "bad_file"])
            if o in ("close", "move_ctor", "move_assign") and rng.random() < .5: continue
            a = [k]
            if o in ("read", "skip"): a += [L]
            elif o == "read_array": a += [rng.choice([1, 2, 3, 4, 8]), rng.choice([0, 1, 2, 5, 9])]
            elif o == "read_data": a += [rng.choice([1, 2, 4, 8])]
            elif o == "read_str": a += [rng.choice([1, 2, 4])]
            elif o == "read_remainder": a += [rng.choice([-1, 0, 1, 9, 1000])]
            elif o == "write": a += [t, L]
            elif o == "put": a += [rng.choice([10, 13, 65, 66, 0]) for _ in range(rng.randint(0, 12))]
            elif o == "write_byte": a += [rng.randint(0, 255), L]
            elif o == "write_array": a += [t, rng.choice([1, 2, 3, 4, 8]), rng.choice([0, 1, 2, 5, 9])]
            elif o == "write_data": a += [t, rng.choice([1, 2, 4, 8])]
            elif o == "write_str": a += [t, rng.choice([1, 2, 4]), rng.choice([0, 1, 2, 7, 20])]
            elif o == "write_stream": a += [t, L, rng.choice([1, 1, 2]), rng.choice([-1, -1, 0, 1, 5, 50])]
            elif o == "copy_between": a += [rng.choice([-1, -1, 0, 1, 5, 50])]
            elif o == "seek":
                h = rng.choice([0, 0, 0, 1, 2])
                a += [rng.choice([0, 0, 1, 2, 4, 10, 30, 100]) if h == 0 else rng.randint(-12, 9), h]
            elif o == "reserve": a += [rng.choice([0, 1, 5, 30, 200]), rng.choice([0, 0, 1])]
            elif o == "bad_file": a += [rng.randint(0, 1)]
            elif o == "save_load": a += [rng.choice([0, 1, 40, 500])]
            s.append((o, a))
            if o == "write_str" and rng.random() < .5:
                s += [("seek", [k, -(4 + a[2] * a[3]), 1]), ("read_str", [k, a[2]])]
            if o in ("put", "write") and rng.random() < .4:
                s += [("seek", [k, rng.choice([0, 0, 1, 2, 3]), 0]), (rng.choice(["readln", "read", "read_data", "read_remainder"]), [k, 4])]
        yield s
    # across the 64 KiB block size
    for _ in range(8 if tier == "quick" else 40):
        B = 65536
        s = [("start", [0, 0, 0])]
        for _ in range(3):
            L = rng.choice([B - 1, B, B + 1, 2 * B, 2 * B + 5, 1000])
            o = rng.choice(["write", "write_byte", "write_stream", "write_stream", "seek"])
            s.append((o, {"write": [1, 3, L], "write_byte": [1, 5, L], "write_stream": [1, 2, L, rng.choice([1, 1, 2]), rng.choice([-1, -1, L, B])], "seek": [1, rng.choice([0, 5, B, L]), 0]}[o]))
        s += [("copy_between", [1, -1]), ("seek", [1, B - 3, 0]), ("read_remainder", [1, -1]), ("seek", [1, 7, 0]), ("copy_between", [1, -1])]
        yield s
def fixed():
    H = 1000000000
    yield [("start", [0, 0, 0]), ("write", [1, 1, 5]), ("seek", [1, H, 0]), ("tell", [1]), ("read", [1, 4]), ("write", [1, 1, 3]),
           ("write_byte", [1, 1, 20]), ("write_data", [1, 2, 4]), ("seek", [1, H, 0]), ("write_str", [1, 1, 1, 4]), ("seek", [1, H, 0]), ("read_data", [1, 4]),
           ("seek", [1, H, 0]), ("truncate", [1]), ("read_remainder", [1, -1]), ("seek", [1, 2, 0]), ("truncate", [1]), ("read", [1, 9])]
    for k, c in ((0, 0), (3, 40)):
        for n in range(3):
            s = [("start", [k, c, c]), ("write", [1, 3, 30])] + [("get", [1, 0, 1])] * n
            for sz in (1, 2, 4, 8, 1, 2, 4, 8): s += [("set", [1, 30 - sz, sz + n, sz]), ("set", [1, sz, sz + 2 * n, sz]), ("data", [1]), ("get", [1, 3, sz]), ("get", [1, 30 - sz, sz]), ("seek", [1, 5, 0]), ("write_data", [1, sz + n, sz]), ("seek", [1, 7, 0]), ("read_data", [1, sz])]
            yield s
def times(s):
    out, n = [], 100
    for i, (o, a) in enumerate(s):
        if o not in ("start", "tell", "data", "seek", "skip"):
            for k in (1, 2):
                if (i + k) % 4: out.append(("age", [k, n, n + 1, n + 2])); n += 3
        out.append((o, a))
        if o != "start": out += [("times", [1]), ("times", [2])]
    return out + [("data", [1]), ("data", [2])]
GROW = ("write", "put", "write_byte", "write_array", "write_data", "write_str", "write_stream", "copy_between", "truncate", "reserve", "copy_ctor", "copy_assign", "save_load", "read_remainder")
def out_of_memory(s):
    r, out = random.Random(str(s)), []
    for o, a in s:
        if o in GROW:
            if r.random() < .3: out.append(("reserve", [a[0], r.choice([0, 1, 5, 30, 60]), 1]))
            if r.random() < .6: out.append(("fault", [r.choice([0, 0, 0, 1])]))
        out.append((o, a))
        if o != "start": out += [("fault", [-1]), ("tell", [1]), ("tell", [2])]
    return out + [("data", [1]), ("data", [2])]
def some(rng, tier): return [s for i, s in enumerate(rand(rng, tier)) if i % 3 == 0]
def small(rng, tier): return [s for s in some(rng, tier) if not any(x > 9999 for _, a in s for x in a)]
def parts(tier):
    return [Part("memfile", "S01.cpp", "T_MemFile", gens=[("G_MemFile", {"Depth": 3}, {"Depth": 4})], rand=rand, fixed=fixed, post=post),
            Part("times", "S01.cpp", "T_MemTimes", gens=[("G_MemFile", {"Depth": 2}, {"Depth": 3})], rand=some, fixed=fixed, post=times, flags=["-DSET_FILE_OP_TIMES=1"]),
            Part("unchecked", "S01.cpp", "T_MemUnchecked", gens=[("G_MemFile", {"Depth": 2}, {"Depth": 3})], rand=some, fixed=fixed, post=post, flags=["-DCHECK_STREAM_STATE=0", "ASSERTS"]),
            Part("memory", "S01.cpp", "T_MemOom", gens=[("G_MemFile", {"Depth": 2}, {"Depth": 3})], rand=small, post=out_of_memory,
                 flags=["-DMEMORY_RUNS_OUT=1"] + ["-Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "_Znwm", "_Znam")])]
