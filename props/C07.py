from vf import Part
import conc
def prog(rng, nt, maxops):
    return {t: sum(([rng.choice([(1, []), (1, []), (2, [])])] + ([(3, [])] if rng.random() < .9 else [(2, []), (3, [])]) for _ in range(rng.randint(1, maxops))), []) for t in range(1, nt + 1)}
def scen(st, th): return [st] + [("t", [t, c] + a) for t in sorted(th) for c, a in th[t]]
def rand(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        yield scen(conc.start(rng, []), prog(rng, rng.choice([1, 2, 2, 3, 4]), 4))
    for _ in range(20 if tier == "quick" else 120):
        yield scen(conc.systematic([], 2 if tier == "quick" else 3, 40 if tier == "quick" else 1000), prog(rng, 2, 2))
def parts(tier):
    return [Part("spinlock", "C07.cpp", "T_Spinlock", rand=rand, sched=True)]
