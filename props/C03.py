from vf import Part
import conc
CAPS = [1, 2, 2, 3, 3, 4, 5, 8, 64]
def prog(rng, cap):
    main, tot = [], 0
    for _ in range(rng.randint(0, 6)):
        x = rng.random()
        if x < .6: n = rng.choice([0, 1, 1, 2, 3, cap, cap + 1, 2 * cap, rng.randint(1, 20)]); main.append((1, [n])); tot += n
        elif x < .85: main.append((2, []))
        else: main.append((4, []))
    fail = rng.choice([-1, -1, -1, 0, rng.randint(0, max(1, tot)), tot])
    return [cap, fail, rng.choice([0, 0, -1, 1, 2]), rng.choice([0, 0, 0, 1, 2]), int(rng.random() < .2), rng.randint(0, 9999)], main
def scen(st, main): return [st] + [("t", [0, c] + a) for c, a in main]
def rand(rng, tier):
    for _ in range(2000 if tier == "quick" else 20000):
        par, m = prog(rng, rng.choice(CAPS))
        yield scen(conc.start(rng, par), m)
    for _ in range(25 if tier == "quick" else 150):
        par, m = prog(rng, rng.choice([1, 2, 3]))
        yield scen(conc.systematic(par, 2 if tier == "quick" else 3, 40 if tier == "quick" else 1000), m[:4])
def parts(tier):
    return [Part("writer", "C03.cpp", "T_AsyncWriter", rand=rand, sched=True)]
