from vf import Part
def rand(rng, tier):
    for _ in range(3000 if tier == "quick" else 60000):
        s = [("start", [])]; v = 10
        caps = [0] + [rng.choice([0, 1, 2, 3, 4, 5, 7, 9]) for _ in range(3)]; moved = set(); on = set()
        for i in (1, 2):
            s.append(("new", [i, caps[i]])); on.add(i)
        ops = rng.choice([["pb", "popf"], ["pf", "popb"], ["pb", "pf", "popb", "popf"], ["pb", "pf", "pbm", "pfm", "popb", "popf", "clear", "cp"]])
        for _ in range(rng.randint(3, 40)):
            i = rng.randint(1, 3) if rng.random() < .3 else 1; x = rng.random()
            if i not in on or (rng.random() < .05):
                k = rng.choice(["new", "copyc", "movec", "del"]); j = rng.randint(1, 3)
                if k == "new" and i not in on: s.append((k, [i, rng.choice([0, 1, 3, 5])])); on.add(i); moved.discard(i)
                elif k == "del" and i in on: s.append((k, [i])); on.discard(i); moved.discard(i)
                elif k in ("copyc", "movec") and i not in on and j in on and j != i:
                    f = rng.choice([0, 0, 1, 2, 3]) if k == "copyc" else 0
                    s.append((k, [i, j, f]))
                    if f: s.append(("copyc", [i, j, 0]))   # only if the first did not
                    on.add(i)
                    moved.add(i) if j in moved else moved.discard(i)
                    if k == "movec": moved.add(j)
                continue
            o = rng.choice(ops)
            if o == "cp":
                o = rng.choice(["copya", "movea"]); j = rng.choice(sorted(on)); f = rng.choice([0, 0, 1, 2, 3]) if o == "copya" else 0
                s.append((o, [i, j, f]))
                if f: s.append((o, [i, j, 0]))
                if i != j:
                    moved.add(i) if j in moved else moved.discard(i)
                    if o == "movea": moved.add(j)
            elif o[0] == "p" and o[1] != "o":
                if i in moved: continue
                v += 1; s.append((o, [i, v, 1 if rng.random() < .1 and o in ("pb", "pf") else 0]))
            else: s.append((o, [i]))
            if x < .1: s.append(("get", [i, rng.randint(0, 5)]))
            elif x < .15: s.append(("set", [i, rng.randint(0, 4), 1000 + v]))
            elif x < .25: s.append(("ends", [i]))
        yield s
def post(s): return s + [("end", [])]
def parts(tier):
    return [Part("queue", "D01.cpp", "T_Queue", gens=[("G_Queue", {"Depth": 6, "Recent": 1}, {"Depth": 7, "Recent": 2})], rand=rand, post=post, gen_limit=(12000, 100000))]
