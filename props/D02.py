from vf import Part
def rand(rng, tier):
    for _ in range(500 if tier == "quick" else 8000):
        s = [("start", [rng.choice([0, 1, 2, 2, 3])])]; v = 20
        for _ in range(rng.randint(4, 25)):
            op = rng.choice(["open", "none", "copyc", "copya", "copya", "movec", "movea", "close", "del", "test", "lend", "lend", "reset", "borrow", "scope"] + ["take", "take", "drop", "pass", "keep", "liberr", "failed"]); i, j = rng.randint(1, 3), rng.randint(1, 3); v += 1
            a = {"open": [i, v], "copyc": [i, j, int(rng.random() < .3)], "copya": [i, j, int(rng.random() < .3)], "movec": [i, j], "movea": [i, j], "lend": [rng.randint(1, 2), rng.randint(0, 3), rng.randint(0, 3), v],
                 "reset": [rng.randint(1, 2)], "borrow": [], "scope": [rng.randint(0, 2), rng.randint(0, 2)],
                 "take": [rng.randint(1, 5), v], "drop": [rng.randint(1, 5)], "pass": [rng.randint(1, 5)], "keep": [rng.randint(1, 4)], "failed": [rng.randint(1, 90)], "liberr": [rng.randint(1, 90), rng.randint(0, 2)] + [rng.randint(32, 126) for _ in range(rng.randint(0, 9))]}.get(op, [i])
            s.append((op, a))
        yield s
def secrets(rng, tier):
    for _ in range(150 if tier == "quick" else 3000):
        s = [("start", [])]
        for _ in range(6):
            op = rng.choice(["vec", "vec", "str", "map", "blob"])
            if op == "vec": a = [rng.choice([-1, -2, -3, -4, -rng.randint(5, 400), rng.randint(1, 40), rng.randint(1, 700)]) for _ in range(rng.randint(1, 10))]
            elif op == "str": a = [rng.choice([-1, rng.randint(16, 400), 5]) for _ in range(rng.randint(1, 6))]
            elif op == "map": a = [rng.choice([-1, rng.randint(0, 20)]) for _ in range(rng.randint(1, 4))]
            else: a = [rng.randint(0, 3), rng.choice([1, 500, 8, 33])]
            s.append((op, a))
        yield s
def parts(tier):
    return [Part("owners", "D02.cpp", "T_Owned", gens=[("G_Owned", {"Depth": 4, "Recent": 1}, {"Depth": 5, "Recent": 1})], rand=rand, gen_limit=(12000, 60000)),
            Part("secrets", "D02s.cpp", "T_Owned", rand=secrets, sanitize="", flags=["-O2"], extra_src=["arena.cpp"]),
            Part("secrets-O1", "D02s.cpp", "T_Owned", rand=secrets, sanitize="", flags=["-O1"], extra_src=["arena.cpp"])]
