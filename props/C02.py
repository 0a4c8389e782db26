from vf import Part
import conc
CAPS = [1, 2, 2, 3, 3, 4, 5, 8, 64]
def prog(rng, cap):
    total = rng.choice([0, 1, cap, cap + 1, 2 * cap, rng.randint(0, 30), rng.randint(0, 200) if cap == 64 else 7])
    main, other, need, gated = [], [], 0, rng.random() < .6
    for _ in range(rng.randint(0, 6)):
        n = rng.choice([1, 1, 2, 3, cap, cap + 1, 2 * cap, rng.randint(1, 20)] + ([] if gated else [0]))
        main.append((1, [n])); need += n
    if gated:
        # exactly what the reads need, in pieces
        left = need
        while left > 0:
            k = min(left, rng.choice([1, 2, cap, 10, 50])); other.append((2, [k])); left -= k
        if need >= total and rng.random() < .5: other.append((2, [-1]))
        if need > total: other.append((2, [max(0, total - need)])) if False else None
    else: other = [(2, [-1])]
    return [cap, total, rng.choice([1, 2, 3, 4]), rng.choice([0, 0, -1, 1, 2, 5]), rng.randint(0, 9999)], main, other
def scen(st, main, other):
    return [st] + [("t", [0, c] + a) for c, a in main] + [("t", [1, c] + a) for c, a in other]
def rand(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        par, m, o = prog(rng, rng.choice(CAPS))
        yield scen(conc.start(rng, par), m, o)
    for _ in range(20 if tier == "quick" else 120):
        cap = rng.choice([1, 2, 3])
        par, m, o = prog(rng, cap)
        par[1] = rng.randint(0, 2 * cap + 1)
        yield scen(conc.systematic(par, 2 if tier == "quick" else 3, 40 if tier == "quick" else 1000), m[:3], o if rng.random() < .5 else [(2, [-1])])
def parts(tier):
    return [Part("reader", "C02.cpp", "T_AsyncReader", rand=rand, sched=True)]
