from vf import Part
import conc
def prog(rng, nt, maxops):
    th, nid = {}, [1]
    nodes = rng.choice([[0], [0, 1], [-1], [-1, 0, 1, 2]])
    def op():
        x = rng.random()
        if x < .45: nid[0] += 1; return (2, [rng.choice(nodes), nid[0]])
        if x < .92: return (1, [rng.choice(nodes)])
        return (3, [])
    for t in range(0, nt + 1): th[t] = [op() for _ in range(rng.randint(0 if t == 0 else 1, maxops))]
    return th
def scen(st, th): return [st] + [("t", [t, c] + a) for t in sorted(th) for c, a in th[t]]
def rand(rng, tier):
    for _ in range(1500 if tier == "quick" else 15000):
        yield scen(conc.start(rng, [0]), prog(rng, rng.choice([0, 1, 2, 2, 3]), 5))
    for _ in range(20 if tier == "quick" else 120):
        yield scen(conc.systematic([0], 2 if tier == "quick" else 3, 40 if tier == "quick" else 1000), prog(rng, 2, 3))
def parts(tier):
    return [Part("pool", "C06.cpp", "T_Pool", rand=rand, sched=True)]
