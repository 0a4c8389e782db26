from vf import Part
def post(s):
    out = []
    for o, a in s:
        out.append((o, a))
        if o not in ("start", "disk", "chmod", "locked", "times", "destroy"): out.append(("tell", [a[0]]))
        if o in ("lock", "unlock"): out.append(("locked", [1]))
    return out + [("close", [4]), ("disk", [1]), ("disk", [2]), ("disk", [3])]
def rand(rng, tier):
    for _ in range(900 if tier == "quick" else 9000):
        size = lambda: rng.choice([-1, 0, 1, 5, 30, 300])
        s = [("start", [size(), size(), size(), rng.choice([1, 2, 3, 5, 16, 4096]), rng.choice([0, 1])])]
        cached = None; locks = rng.random() < .15
        mode = lambda: rng.choice([3, 3, 3, 1, 2]) + 8 * rng.choice([0, 2, 2, 2, 3, 4, 4, 1]) + rng.choice([0, 0, 64]) + rng.choice([0, 128]) + rng.choice([0, 0, 1792])
        fresh = set()
        for _ in range(rng.randint(3, 25 if tier == "quick" else 60)):
            k = rng.choice([1, 1, 2, 3, 4, 4] if cached else [1, 1, 2, 3])
            L = rng.choice([0, 1, 2, 3, 5, 8, 17, 60, 200])
            x = rng.random()
            if x < .18:
                m = mode()
                if m & 3 == 1 and m >> 3 & 7 in (1, 4): m ^= 2 | 1        # truncating needs writing
                if rng.random() < .12 and not locks:                       # the cached one has file 3 for itself
                    if m & 3 == 1: m = m | 2
                    if not cached:
                        s += [("close", [i]) for i in (1, 2, 3)]
                    s.append(("open", [4, 3, m])); cached = True
                    continue
                k = rng.choice([1, 2, 3]); s.append(("open", [k, rng.choice([1, 1, 2] + ([] if cached else [3])), m])); continue
            if x < .24 and k != 4:
                o = rng.choice(["copy_ctor", "copy_assign", "move_ctor", "move_assign"]); j = rng.choice([1, 2, 3])
                if j == k and o.endswith("ctor"): continue
                s.append((o, [k, j])); continue
            if x < .3 and locks:
                s.append(("open", [1, 1, 131 + 16])); b = rng.randint(0, 12)
                s += [(rng.choice(["lock", "unlock", "lock"]), [1, rng.randint(0, 10), rng.randint(1, 5)]) for _ in range(rng.randint(1, 4))]; continue
            if x < .33: s.append(("times", [k, rng.randint(-9, 2000000000), rng.choice([0, 1, 500000000, 999999999]), rng.randint(-9, 2000000000), rng.choice([0, 1, 999999999])])) if k != 4 else None; continue
            if x < .36: s.append(("chmod", [rng.choice([1, 2]), rng.choice([0, 1])])); continue
            if x < .39: s.append(("disk", [rng.choice([1, 2])])); continue
            o = rng.choice(["read"] * 5 + ["write"] * 6 + ["seek"] * 6 + ["read_array", "remainder", "skip", "truncate", "truncate"] + ["flush"] * (rng.random() < .3) + ["close", "destroy"])
            if o in ("close", "destroy") and rng.random() < .5: continue
            if o in ("close", "destroy") and k == 4: s += [(o, [4]), ("disk", [3])]; cached = None; continue
            a = [k]
            if o in ("read", "skip"): a += [L]
            elif o == "read_array": a += [rng.choice([1, 2, 3, 4, 8]), rng.choice([0, 1, 2, 5, 9])]
            elif o == "write": a += [rng.randint(1, 9), L or (1 if k == 4 else 0)]
            elif o == "seek":
                h = rng.choice([0, 0, 0, 1, 2])
                if k == 4: h = 0
                a += [rng.choice([0, 0, 1, 2, 4, 10, 30, 100]) if h == 0 else rng.randint(-12, 9), h]
            s.append((o, a))
            if k == 4 and o == "flush": s.append(("disk", [3]))
        yield s
    yield from rand_cached(rng, tier)
def rand_cached(rng, tier):                                                   # the cached file alone
    for _ in range(250 if tier == "quick" else 5000):
        s = [("start", [-1, -1, rng.choice([-1, 0, 1, 5, 30, 300]), rng.choice([1, 2, 3, 5, 16, 4096]), rng.choice([0, 1])])]; on = False
        for _ in range(rng.randint(4, 25)):
            if not on or rng.random() < .03:
                s.append(("open", [4, 3, rng.choice([3, 3, 3, 2, 1]) + 8 * rng.choice([0, 2, 2, 2, 2, 3, 4] if on or len(s) > 1 else [0, 1, 2, 2, 4]) + rng.choice([0, 0, 0, 64]) + rng.choice([0, 128])])); on = True
                ro = s[-1][1][2] & 3 == 1
                if ro and s[-1][1][2] >> 3 & 7 in (1, 4): s[-1][1][2] |= 2; ro = False
            else:
                o = rng.choice(["read"] * 4 + ["write"] * 6 + ["seek"] * 5 + ["read_array", "remainder", "truncate", "flush", "close", "destroy"]); L = rng.choice([1, 2, 3, 5, 8, 17, 60])
                if ro and o in ("write", "truncate"): continue
                a = [4] + ([L] if o == "read" else [rng.choice([1, 2, 3, 4, 8]), rng.choice([0, 1, 2, 5, 9])] if o == "read_array" else [rng.randint(1, 9), L] if o == "write" else [rng.choice([0, 0, 1, 2, 4, 10, 30, 100]), 0] if o == "seek" else [])
                s.append((o, a))
                if o in ("flush", "close", "destroy"): s.append(("disk", [3]))
                if o == "close" and rng.random() < .6: s += [rng.choice([("read", [4, rng.randint(1, 9)]), ("write", [4, 3, rng.randint(1, 9)])]) for _ in range(rng.choice([1, 2]))]
                if o in ("close", "destroy"): on = False
        yield s
def fixed():
    for p in (0, 1, 7):
        for o, n in ((0, 1), (0, 4), (1, 3), (5, 2)):
            for u, m in ((o, n), (o, 1), (o + n - 1, 1), (o + n // 2, n - n // 2)):
                yield [("start", [9, -1, 2, 4, 0]), ("open", [1, 1, 131]), ("seek", [1, p, 0]), ("lock", [1, o, n]), ("unlock", [1, u, m]), ("write", [1, 3, 2]), ("lock", [1, u, m]), ("unlock", [1, o, n])]
def post_pipe(s):
    out = []
    for o, a in s:
        out.append((o, a))
        if o not in ("start", "make", "release"): out += [("state", [a[0]]), ("avail", [1]), ("avail", [2])]
    return out + [("flush", [1]), ("avail", [2]), ("close", [1]), ("release", [1]), ("avail", [2]), ("read", [2, 1000]), ("read", [2, 10])]
def rand_pipe(rng, tier):
    for _ in range(900 if tier == "quick" else 9000):
        kind = rng.choice([0, 1]); w = [rng.choice([0, 0, 1 if kind else 0, 2 if rng.random() < .6 else 0]) for _ in range(2)]
        if w == [2, 2]: w[rng.choice([0, 1])] = 0
        nb = int(rng.random() < .25 and 2 not in w)
        s = [("start", [kind] + w + [nb, rng.choice([1, 2, 4, 16])])]
        for _ in range(rng.randint(2, 20 if tier == "quick" else 50)):
            k = rng.choice([1, 2]); L = rng.choice([0, 1, 2, 3, 5, 8, 17, 60])
            o = rng.choice(["write"] * 8 + ["read"] * 8 + ["slow_read", "slow_read", "slow_write", "flush", "flush", "hold", "release", "move", "move", "make"] + ["close", "destroy"] * (rng.random() < .3) + ["big"] * (4 * nb))
            s.append((o, {"write": [k, rng.randint(1, 9), L], "read": [k, L], "slow_read": [k, L, rng.choice([L, L, L + 3, max(L - 2, 1)]) or 1, rng.choice([0, 0, 0, 1])], "big": [k, rng.randint(1, 9), rng.choice([3000, 4096, 5000, 9000]) if kind == 0 else rng.choice([3000, 300000])],
                          "slow_write": [k, rng.randint(1, 9), rng.choice([1, 500, 5000, 9000])], "make": [1, rng.choice([0, 1])], "release": [k, 1]}.get(o, [k])))
            if o == "big": s += [("read", [3 - k, rng.choice([100, 5000])])]
        yield s
def parts(tier):
    return [Part("files", "S12.cpp", "T_SysFile", gens=[("G_SysFile", {"Depth": 3, "Recent": 1}, {"Depth": 4, "Recent": 1})], rand=rand, fixed=fixed, post=post, gen_limit=(2500, 20000)),
            Part("kept-times", "S12.cpp", "T_SysFile", rand=rand_cached, post=post, flags=["-DSET_FILE_OP_TIMES=1"]),
            Part("pipes", "S12p.cpp", "T_SysPipe", gens=[("G_SysPipe", {"Depth": 4, "Recent": 1}, {"Depth": 5, "Recent": 1})], rand=rand_pipe, post=post_pipe, gen_limit=(2500, 20000))]
