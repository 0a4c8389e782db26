from vf import Part
def post(s): return s + [("rest", [])]
def post2(s):
    out = []
    for e in s:
        out.append(e)
        if e[0] != "start": out.append(("tell", []))
    return out + [("raw", [])]
def rand(rng, tier):
    for _ in range(2500 if tier == "quick" else 25000):
        k = rng.choice([0, 1, 1])
        L = lambda: rng.choice([-1, 0, 1, 5, rng.randint(0, 60)])
        off = lambda: rng.choice([0, 0, 1, rng.randint(0, 30)]) if k else 0
        dl = rng.choice([-1, -1, 0, rng.randint(0, 50)])
        s = [("start", [k, off(), L(), off(), L(), rng.choice([0, 5, rng.randint(0, 100)]), rng.choice([1, 1, 2]), rng.choice([0, 0, 1, 3, 7]), dl, rng.choice([1, 2]), rng.choice([0, 0, 1, 3, 7]) if dl < 0 else 0])]
        if rng.random() < .02: s[0][1][1 + 2 * rng.randint(0, 1)] = rng.choice([4095, 65536, 70000]) if k else 0
        if rng.random() < .02: s[0][1][5] = 70010
        for _ in range(rng.randint(1, 20)):
            x = rng.random(); n = rng.choice([0, 1, 2, 5, rng.randint(0, 30)])
            s.append(("read", [n]) if x < .45 else ("write", [n]) if x < .85 else ("skip", [max(n, 1)]) if x < .95 else ("flush", []) if x < .98 else ("close", []))
        yield s
def rand2(rng, tier):
    for _ in range(2000 if tier == "quick" else 20000):
        s = [("start", [rng.randint(0, 40), rng.choice([0, rng.randint(0, 40)]), rng.randint(0, 30), rng.choice([0, 1, rng.randint(0, 30), 60])])]
        for _ in range(rng.randint(1, 30)):
            x = rng.random(); n = rng.choice([0, 1, 2, 5, rng.randint(0, 30)])
            if rng.random() < .1: y = rng.random(); s.append(("seekfail", [rng.randint(-3, 15), rng.choice([0, 1, 2]), 2]) if y < .3 else (rng.choice(["readcut", "writecut"]), [n + 1, rng.randint(0, n), rng.choice([0, 1, 2])])); continue
            s.append(("read", [n]) if x < .3 else ("write", [n, rng.randint(1, 9)]) if x < .6 else
                     ("seek", [rng.randint(-10, 30) if h == 0 else rng.randint(-15, 15), h]) if (h := rng.choice([0, 0, 1, 2])) >= 0 and x < .85 else
                     ("skip", [n, rng.choice([0, 0, 2])]) if x < .9 else (rng.choice(["lock", "unlock"]), [rng.randint(0, 35), rng.randint(0, 50)]) if x < .95 else
                     ("truncate", []) if x < .97 else ("flush", [rng.choice([0, 2])]) if x < .985 else ("close", [rng.choice([0, 2])]))
        yield s
def parts(tier):
    return [Part("window", "S04.cpp", "T_Window", gens=[("G_Window", {"Depth": 2}, {"Depth": 4})], rand=rand, post=post, gen_limit=(4000, 60000)),
            Part("filewindow", "S04b.cpp", "T_FileWindow", gens=[("G_FileWindow", {"Depth": 3}, {"Depth": 4})], rand=rand2, post=post2, gen_limit=(4000, 60000))]
