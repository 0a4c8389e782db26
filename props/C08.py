from vf import Part
import conc
def prog(rng, maxops):
    n = rng.randint(1, 4)
    th = {0: []}
    for _ in range(rng.choice([0, 0, 1, 2, 3])): th[0].append((6, [rng.randint(0, 3)]) if rng.random() < .6 else (7, []))
    for t in range(1, n + 1):
        th[t] = []
        for _ in range(rng.randint(1, maxops)):
            x = rng.random()
            if x < .45: th[t].append((1, [rng.randint(-5, 100)]))
            elif x < .75: th[t].append((2, [rng.randint(-5, 10), rng.randint(10, 200)]))
            elif x < .83: th[t].append((3, [rng.randint(0, 9)]))
            elif x < .9: th[t].append((4, [rng.randint(0, 1)]))
            else: th[t].append((5, []))
    return [n, rng.choice([0, 1, 1, 2])], th
def scen(st, th): return [st] + [("t", [t, c] + a) for t in sorted(th) for c, a in th[t]]
def agg(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        par, th = prog(rng, 4)
        yield scen(conc.start(rng, par), th)
    for _ in range(20 if tier == "quick" else 120):
        par, th = prog(rng, 2)
        yield scen(conc.systematic(par, 2 if tier == "quick" else 3, 40 if tier == "quick" else 1000), th)
def single(rng, tier):
    for _ in range(3000 if tier == "quick" else 40000):
        kind, tmo = rng.choice([1, 1, 2, 3, 3, 4]), rng.choice([0, 10, 100, 500])
        lo, hi = rng.choice([(0, 10), (0, 100), (-50, 50), (7, 7), (3, 1003), (5, 2)])
        ops = [(2, [lo, hi])] if rng.random() < .8 else []
        if kind > 2: ops.append((11, rng.choice([[0, 100], [20, 30], [1000, 5000], [-10, 10], [5, 5]])))
        for _ in range(rng.randint(1, 14)):
            x = rng.random()
            if x < .55: ops.append((1, [rng.choice([lo, hi, lo + 1, hi - 1, (lo + hi) // 2, (lo + hi) // 3, rng.randint(min(lo, hi), max(lo, hi)), rng.randint(-5000, 5000)])]))
            elif x < .6: lo, hi = sorted([rng.randint(-20, 20), rng.randint(-20, 400)]); ops.append((2, [lo, hi]))
            elif x < .63: ops.append((3, [rng.randint(0, 9)]))
            elif x < .66: ops.append((4, [rng.randint(0, 1)]))
            elif x < .72: ops.append((5, []))
            elif x < .86: ops.append((6, [rng.choice([1, tmo, tmo + 1, max(1, tmo - 1), max(1, tmo // 2)])]))
            elif x < .9: ops.append((7, [rng.randint(0, 1)]))
            elif x < .93: ops.append((8, [rng.randint(0, 1)]))
            elif x < .95: ops.append((9, []))
            elif x < .97: ops.append((10, [rng.randint(0, 9), rng.randint(10, 99)]))
            else: ops.append((11, sorted([rng.randint(-100, 100), rng.randint(-100, 100)])))
        yield [("start", [0, 1, 0, 0, 0, 0, 0, kind, tmo, rng.choice([0, 1, 1, 1])])] + [("t", [0, c] + a) for c, a in ops]
def parts(tier):
    return [Part("aggregate", "C08.cpp", "T_AggProgress", rand=agg, sched=True),
            Part("single", "C08b.cpp", "T_Progress", rand=single, sched=True)]
