from vf import Part
import datetime
E1 = 1721426  # 1 January of year 1
LAST = E1 + datetime.date(9999, 12, 31).toordinal() - 1
SPEC = "aAbhBdmYyHMSIpjuwDTRUWnt%"
def day(rng):
    x = rng.random()
    if x < .4: return rng.randint(E1, LAST)
    if x < .6: return E1 + datetime.date(rng.choice([1, 4, 99, 100, 101, 399, 400, 1582, 1600, 1699, 1700, 1899, 1900, 1969, 1970, 1999, 2000, 2023, 2024, 2100, 9999, rng.randint(1, 9999)]), 12, 31).toordinal() - 1 - rng.randint(0, 2)
    if x < .8: return E1 + datetime.date(rng.choice([4, 96, 100, 200, 400, 1600, 1700, 1900, 2000, 2024, 2100, rng.randint(1, 9999)]), 3, 1).toordinal() - 1 - rng.randint(0, 2)
    return rng.randint(2440588 - 30000, 2440588 + 40000)
def ms(rng): return rng.choice([0, 1, 999, 1000, 86399999, 86399000, 43200000, 43199999, 46800000, rng.randint(0, 86399999), rng.randint(0, 86399999)])
def civil(n): d = datetime.date.fromordinal(n - E1 + 1); return [d.day, d.month, d.year]
def fmt(rng):
    out = ""
    for _ in range(rng.choice([0, 1, 1, 2, 3, rng.randint(0, 12)])): out += rng.choice(["%" + rng.choice(SPEC), "%" + rng.choice(SPEC), rng.choice(" -/:.TZx0")])
    return [ord(c) for c in out]
def rand(rng, tier):
    for _ in range(1200 if tier == "quick" else 20000):
        s = [("start", [])]
        for _ in range(10):
            n = day(rng); m = ms(rng); op = rng.choice(["dmy", "tod", "dow", "dow3", "ftime", "ttime", "stamp", "fields", "fields", "sftime", "sfspec", "sttime", "todate", "fromdate", "tm", "tm", "text", "text", "text", "longtext", "rfc822"])
            if op in ("dmy", "dow3"): a = civil(n)
            elif op == "tod": a = [n, rng.choice([7, 7, rng.randint(0, 7)])]
            elif op in ("dow", "ttime", "fromdate"): a = [n]
            elif op in ("ftime", "sftime"): a = [n - 2440588, m // 1000]
            elif op == "sfspec": a = [n - 2440588, m // 1000, rng.choice([0, 1, 999, 1000, 999999, 1000000, 999999999, 500000000, rng.randint(0, 999999999)])]
            elif op == "stamp": a = civil(n) + ([m // 3600000, m // 60000 % 60, m // 1000 % 60, m % 1000] if rng.random() < .8 else [rng.randint(0, 255), rng.randint(0, 255), rng.randint(0, 255), rng.randint(0, 65535)])
            elif op == "fields": a = [n, m, rng.choice([127, 127, rng.randint(0, 127)])]
            elif op in ("sttime", "todate", "tm", "rfc822"): a = [n, m]
            elif op == "text": a = [rng.randint(0, 1), n, m] + fmt(rng)
            else:
                f = [ord(c) for c in rng.choice(["%Y", "%a, ", "%B", "x", "%d.%m.%Y|"])]; a = [rng.randint(0, 1), n, m, rng.choice([100, 255, 256, 257, 341, 342, 1023, 1024, 1025, 500, 2100, rng.randint(60, 1400)])] + f
                if len(f) > 2: a[3] = min(a[3], 700)
            s.append((op, a))
        yield s
def fixed(tier):
    yield [("start", []), ("now", [])]
    for n in range(2440588 - 3, 2440588 + 20):        # every format on days of all kinds
        for c in SPEC: yield [("start", []), ("text", [n % 2, n, 86399999 - n % 3 * 43200000 if n % 3 < 2 else 5]+ [37, ord(c)])]
    for y in range(1, 9999, 1 if tier == "thorough" else 3): yield [("start", []), ("year", [y])]
    for y in list(range(1, 401)) + list(range(1896, 2104)) if tier == "thorough" else [1, 4, 99, 100, 101, 400, 1600, 1700, 1899, 1900, 1901, 1999, 2000, 2001, 2024, 2100, 9998]:
        yield [("start", [])] + [("month", [y, m]) for m in range(1, 13)]
def parts(tier):
    return [Part("dates", "T10.cpp", "T_Dates", gens=[("G_Dates", {"Depth": 1, "Recent": 9, "Step": 3653}, {"Depth": 1, "Recent": 9, "Step": 997})], rand=rand, fixed=lambda: fixed(tier))]
