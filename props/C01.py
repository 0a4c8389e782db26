from vf import Part
import conc
def prog(rng, cap, quitter):
    prod, cons = [], []
    n = rng.randint(1, 7)
    for _ in range(n):
        if rng.random() < .75 or not prod: prod.append((1, []))
        prod.append((2, [rng.choice([1, 1, 2, cap, 9])]))
        if rng.random() < .1: prod.append((6, []))
    if rng.random() < .3: prod.append((6, []))
    if rng.random() < .5: prod.append((5, []))
    for _ in range(rng.randint(1, 9)):
        if rng.random() < .8 or not cons: cons.append((3, []))
        cons.append((4, [rng.choice([1, 1, 2, cap, 9])]))
    if rng.random() < .2: cons.insert(rng.randint(0, len(cons)), (5, []))
    main = [(5, [])] if quitter else []
    return prod, cons, main
def scen(st, prod, cons, main):
    return [st] + [("t", [1, c] + a) for c, a in prod] + [("t", [2, c] + a) for c, a in cons] + [("t", [0, c] + a) for c, a in main]
def rand(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        cap = rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 8])
        yield scen(conc.start(rng, [cap]), *prog(rng, cap, rng.random() < .3))
    # all schedules with few preemptions of small programs
    P = [[(1, []), (2, [1])], [(1, []), (2, [9])], [(6, [])], [(5, [])]]
    C = [[(3, []), (4, [1])], [(3, []), (4, [9])], [(3, [])]]
    for cap in (1, 2, 3):
        for _ in range(10 if tier == "quick" else 60):
            p = sum((rng.choice(P[:2] if rng.random() < .8 else P) for _ in range(rng.randint(1, 3))), [])
            c = sum((rng.choice(C) for _ in range(rng.randint(1, 3))), [])
            m = [(5, [])] if rng.random() < .4 else []
            yield scen(conc.systematic([cap], 2 if tier == "quick" else 3, 60 if tier == "quick" else 1500), p, c, m)
def parts(tier):
    return [Part("ring", "C01.cpp", "T_Ring", rand=rand, sched=True)]
