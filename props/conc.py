"""Scenario helpers of the concurrent properties."""
FLAGS = ["-fsanitize=thread"]
def start(rng, par, kind=None):
    kind = kind or rng.choice(["walk", "walk", "walkm", "walkm", "pct", "pctm", "early", "spur"])
    mode = 1 if kind.startswith("pct") else 0
    return ("start", [mode, rng.randint(1, 10**6), 1 if kind.endswith("m") else 0, 0, 0, 5 if kind == "early" else 0, rng.choice([20, 300]) if kind == "spur" else 0] + list(par))
def systematic(par, bound, runs):
    return ("start", [2, 1, 0, bound, runs, 0, 0] + list(par))
def split(s):
    return s[0], s[1:]
