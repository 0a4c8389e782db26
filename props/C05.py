from vf import Part
import conc
def prog(rng, tmo, dur):
    th = {}
    for t in [0] + ([1] if rng.random() < .4 else []) + ([2] if rng.random() < .15 else []):
        p = []
        for _ in range(rng.randint(0, 7)):
            if rng.random() < .45: p.append((1, []))
            else: p.append((2, [rng.choice([1, tmo // 2, tmo - 1, tmo, tmo + 1, 2 * tmo, max(1, dur), tmo + dur, tmo + dur + 1, rng.randint(1, 3 * tmo)])]))
        th[t] = p
    return th
def scen(st, th): return [st] + [("t", [t, c] + a) for t in sorted(th) for c, a in th[t]]
def rand(rng, tier):
    for _ in range(2000 if tier == "quick" else 20000):
        tmo, dur = rng.choice([2, 10, 100]), rng.choice([0, 0, 1, 10, 150])
        st = conc.start(rng, [tmo, dur], rng.choice(["walk", "walkm", "pct", "pctm", "spur"]))
        yield scen(st, prog(rng, tmo, dur))
    for _ in range(25 if tier == "quick" else 150):
        tmo, dur = rng.choice([2, 10]), rng.choice([0, 1, 10])
        yield scen(conc.systematic([tmo, dur], 2 if tier == "quick" else 3, 40 if tier == "quick" else 1000), {t: p[:4] for t, p in prog(rng, tmo, dur).items()})
def parts(tier):
    return [Part("watchdog", "C05.cpp", "T_Watchdog", rand=rand, sched=True)]
