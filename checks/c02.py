import numpy as np
from vlib import gen, ref, insitu

RULE = ("triples (l,l',m): complete enumeration of small l,l' in blocks, random large ones with |m| "
        "drawn near 0, near min(l,l') and beyond it; reference: exact integer Racah formula. "
        "Non-trivial: a comparison with a non-zero Gaunt integral.")
ASSUMPTIONS = ["tolerance 1e-10 of the largest coefficient of the vector, and 1e-8 relative for every "
               "single coefficient next to l''=|l-l'| where |m|=min(l,l') (the vector has no sign changes)"]
REQUIRED = {"gaunt": 5000}


def cases(rng, tier):
    if tier == "quick":
        return ([dict(kind="block", l=l, lp=16, seed=rng.getrandbits(40)) for l in range(0, 17)]
                + gen.mkcases(rng, {"large": 150, "giant": 6, "insitu": 16}))
    return ([dict(kind="block", l=l, lp=36, seed=rng.getrandbits(40)) for l in range(0, 37)]
            + gen.mkcases(rng, {"large": 1500, "huge": 150, "giant": 100, "insitu": 150}))


def exact(l, lp, m):
    return np.array([float(ref.gaunt(l, lp, q, m)) for q in range(abs(l - lp), l + lp + 1, 2)])


def check(mon, name, got, l, lp, m):
    w = exact(l, lp, m)
    s = np.abs(w)
    for d in (1, 2):                        # the largest of the neighbouring coefficients
        if len(w) > d:
            s = np.maximum(s, np.maximum(np.append(np.abs(w[d:]), np.zeros(d)), np.append(np.zeros(d), np.abs(w[:-d]))))
    ok = mon.close(name, got, w, 0, 1e-9 * s, l=l, lp=lp, m=m)
    if ok and abs(m) == min(l, lp) and min(l, lp) > 0:
        mon.close("stretched |m|", got, w, 1e-8, 1e-300, l=l, lp=lp, m=m)
    return w


def run(case, mon):
    from cython_gaunt import gaunt
    g = np.random.default_rng(case["seed"])
    k = case["kind"]
    if k == "block":
        l = case["l"]
        for lp in range(0, case["lp"] + 1):
            for m in range(-min(l, lp) - 1, min(l, lp) + 2):
                check(mon, "gaunt", gaunt(l, lp, m), l, lp, m)
        mon.note(block=l, lp=case["lp"])
        mon.reach("block")
        return
    if k == "insitu":
        import translation as t
        go = insitu.workload(g, mon)
        with insitu.Tap([("gaunt", t, "gaunt")], g, 60) as tap:
            go()
        for a, kw, r in tap.events.get("gaunt", []):
            check(mon, "gaunt (in situ)", r, int(a[0]), int(a[1]), int(a[2]))
        mon.event("calls seen in situ", tap.total.get("gaunt", 0))
        return
    for _ in range(4 if k == "large" else 1):
        hi = 60 if k == "large" else 110
        l = int(g.integers(1, hi))
        lp = int(g.choice([l, l + 1, 2 * l, 3 * l, g.integers(1, 2 * hi), g.integers(1, hi)]))
        if k == "giant":                    # far beyond what the truncation rules ask for
            l, lp = int(g.integers(180, 401)), int(g.integers(180, 401))
        if g.random() < .5:
            l, lp = lp, l
        n = min(l, lp)
        m = int(g.choice([0, 1, n, n - 1, max(0, n - 2), g.integers(0, n + 1), g.integers(0, n + 1), n + 1, n + 5]))
        m *= int(g.choice([1, -1]))
        mon.note(l=l, lp=lp, m=m)
        mon.reach("|m| > min" if abs(m) > n else "|m| = min" if abs(m) == n else "|m| small" if abs(m) < 2 else "|m| between")
        w = check(mon, "gaunt", gaunt(l, lp, m), l, lp, m)
        s = np.abs(w).max()
        mon.close("m -> -m", gaunt(l, lp, -m), w, 0, 1e-10 * s, l=l, lp=lp, m=-m)
        mon.close("l <-> l'", gaunt(lp, l, m), w, 0, 1e-10 * s, l=lp, lp=l, m=m)
        a = gaunt(l, lp, m)
        a[:] = -7.0
        mon.close("fresh vector", gaunt(l, lp, m), w, 0, 1e-10 * s, l=l, lp=lp, m=m)
