from vf import Part
import conc
def prog(rng):
    ops, on, nid, tag = [], [], 1, 0
    plan = lambda: rng.choice([-1, -1, -1, rng.randint(0, 9) * 10 + rng.randint(0, 6), 990 + rng.randint(0, 6)])
    for _ in range(rng.randint(0, 3)):
        ops.append((4, [nid, plan()])); on.append(nid); nid += 1
    for _ in range(rng.randint(1, 7)):
        x = rng.random()
        if x < .5: ops.append((1, [tag, rng.choice([0, 1, 3, 8, 20])])); tag += 1
        elif x < .65: ops.append((2, []))
        elif x < .75: ops.append((3, []))
        elif x < .87 and len(on) < 5: ops.append((4, [nid, plan()])); on.append(nid); nid += 1
        elif on and rng.random() < .9: k = rng.choice(on); ops.append((5, [k])); on.remove(k)
        else: ops.append((5, [99]))
    return ops
def scen(st, ops): return [st] + [("t", [0, c] + a) for c, a in ops]
def rand(rng, tier):
    for _ in range(2000 if tier == "quick" else 20000):
        yield scen(conc.start(rng, []), prog(rng))
    for _ in range(25 if tier == "quick" else 150):
        yield scen(conc.systematic([], 2 if tier == "quick" else 3, 40 if tier == "quick" else 1000), prog(rng)[:5])
def parts(tier):
    return [Part("replicator", "C04.cpp", "T_Replicator", rand=rand, sched=True)]
