"""P14: contract of the minimisation: well-formed, bounded, reproducible, isolated from earlier ones."""

import contextlib
import io
import os

import numpy as np

from sim import gen, ops
from sim.engine import Violation, outcome

PROPERTY = "P14"
RUNS = {"quick": 400, "thorough": 30000}
SHRINK = ["earlier", "ham.bonds", "ham.onsite"]
RULE = (
    "one run = one energy object with seeded settings and a history of earlier minimisations on it (finished, failed, "
    "rejected, interrupted at a seeded line, with a failing disk under their history files), then a minimisation from a "
    "seeded random source that is repeated on a fresh object, with and without the history; non-trivial: at least one "
    "earlier minimisation did not end normally or two ended"
)
CASES = ["ferro", "antiferro", "spiral"]


def gen_tolerance(rng, values):
    """No tolerance, the same one for everything or one for each criterion."""
    k = rng.choice(["none", "same", "same", "each"])
    if k == "none":
        return None
    if k == "same":
        return [rng.choice(values)] * 3
    tol = [max(values)] * 3  # only one or two of them matter
    for _ in range(rng.randint(1, 2)):
        tol[rng.randrange(3)] = rng.choice(values)
    return tol


def gen_task(rng):
    case = rng.choice(CASES)
    return {
        "case": case,
        "by_number": rng.random() < 0.2,
        "guess": rng.choice(["none", "full", "full", "spins", "axis", "long"]),
        "seed": rng.randrange(1 << 30),
        "max": rng.choice([0, 1, 1, 2, 2, 3, 4]),
        "tol": gen_tolerance(rng, [1e-3, 0.5, 1e3, 1e-9, 0.0]),
        "history": rng.choice([0, 0, 1]),
    }


BAD = ["case", "case-number", "guess-size", "guess-shape", "guess-axis", "tolerance", "q-none", "q-shape", "guess-count"]


def generate(rng, tier):
    earlier = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        t = gen_task(rng)
        t["k"] = rng.choice(["plain", "plain", "interrupt", "interrupt", "bad", "disk"])
        t["bad"] = rng.choice(BAD)
        t["spec"] = {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"])}
        t["faults"] = ops.disk_faults(rng, 1)
        earlier.append(t)
    easy = rng.random() < 0.5  # almost every step is accepted
    return {
        "ham": gen.gen_ham(rng, far=True, natoms=(1, 3), nbonds=(1, 5), notation="any"),
        "scale": rng.choice([1.0, 0.1, 0.03, 0.01]),
        "settings": {
            "m": rng.choice([None, 1, 2, 5, 20]),
            "c1": -1e9 if easy else rng.choice([None, 1e-3, 0.1]), "c2": 1e9 if easy else rng.choice([None, 0.5, 0.99]),
            "field": rng.choice([None, [0.0, 0.0, 1.0], [0.3, -0.2, 5.0]]), "g": rng.random() < 0.2, "spins": rng.random() < 0.2,
        },
        "earlier": earlier,
        "task": gen_task(rng),
        "bad": rng.sample(BAD, 2),
    }


def scaled(spec, f):
    """Smaller couplings: the line search of the code under test succeeds more often."""
    spec = dict(spec)
    spec["bonds"] = [b[:3] + [[[x * f for x in r] for r in b[3]]] + b[4:] for b in spec["bonds"]]
    spec["onsite"] = [o[:1] + [[[x * f for x in r] for r in o[1]]] + o[2:] for o in spec["onsite"]]
    return spec


def settle(e, s):
    if s["m"] is not None:
        e.m = s["m"]
    if s["c1"] is not None:
        e.wolfe_c1 = s["c1"]
    if s["c2"] is not None:
        e.wolfe_c2 = s["c2"]
    e.magnetic_field = s["field"]
    if s["g"]:
        e.g_factors = [1.9 + 0.1 * i for i in range(len(e.spins))]
    if s["spins"]:
        e.spins = [1.0 + 0.5 * i for i in range(len(e.spins))]


GIVEN = {}  # arrays handed to the minimisations of the run: every call gets the same objects


def guess_of(t, n):
    key = (t["seed"], t["guess"], t["case"], n)
    if key not in GIVEN:
        g, q = new_guess(t, n)
        GIVEN[key] = (g, q, [(x, x.copy()) for x in (g if isinstance(g, tuple) else (g,)) + (q,) if x is not None])
    return GIVEN[key][:2]


def check_given(w):
    for key, (_, _, pairs) in GIVEN.items():
        for x, was in pairs:
            w.check(x.tobytes() == was.tobytes(), "guess",
                    f"minimisation ({key[2]}) changed an array that it was given: {was.tolist()} -> {x.tolist()}")


def new_guess(t, n):
    rs = np.random.RandomState(t["seed"] % (1 << 31))
    s, ax, q = rs.normal(size=(n, 3)), rs.normal(size=3), rs.normal(size=3)
    k = t["guess"]
    if k == "none":
        return None, q
    if k == "long":
        s, ax = s * 37.5, ax * 1e-3
    if t["case"] == "ferro":
        return s, q
    s = None if k == "axis" else s
    ax = None if k == "spins" else ax
    if t["case"] == "antiferro":
        return (s, ax), q
    return (s, ax, None if k in ("axis", "spins") else q), q


def minimise(e, t, history=None, mx=None, seed=True):
    """Callable that runs the minimisation of the task from its own seed of the random source."""
    n = len(e.spins)
    g, q = guess_of(t, n)
    tol = t["tol"] and tuple(t["tol"][: 2 if t["case"] == "ferro" else 3])
    kw = {"tolerance": tol, "initial_guess": g, "max_iterations": t["max"] if mx is None else mx}
    if t["case"] == "antiferro":
        kw["antiferro_q"] = q
    if history is not None:
        kw.update(save_history=True, history_filename=history)
    case = CASES.index(t["case"]) if t["by_number"] else t["case"]

    def run():
        if seed:
            np.random.seed(t["seed"] % (1 << 31))
        with contextlib.redirect_stdout(io.StringIO()):
            return e.optimize(case, **kw)

    return run


def bad_call(e, kind, history):
    n = len(e.spins)
    s = np.ones((n, 3))
    kw = {"save_history": True, "history_filename": history, "max_iterations": 1}
    if kind == "case":
        return lambda: e.optimize("ferri", initial_guess=s, **kw)
    if kind == "case-number":
        return lambda: e.optimize(7, initial_guess=s, **kw)
    if kind == "guess-size":
        return lambda: e.optimize("ferro", initial_guess=np.ones((n + 1, 3)), **kw)
    if kind == "guess-shape":
        return lambda: e.optimize("ferro", initial_guess=np.ones((n, 2)), **kw)
    if kind == "guess-axis":
        return lambda: e.optimize("antiferro", initial_guess=(s, [1, 2]), antiferro_q=[0, 0, 1], **kw)
    if kind == "tolerance":
        return lambda: e.optimize("ferro", initial_guess=s, tolerance=(1, 1, 1), **kw)
    if kind == "q-none":
        return lambda: e.optimize("antiferro", initial_guess=(s, [0, 0, 1]), **kw)
    if kind == "q-shape":
        return lambda: e.optimize("antiferro", initial_guess=(s, [0, 0, 1]), antiferro_q=[1, 2], **kw)
    return lambda: e.optimize("spiral", initial_guess=(s, [0, 0, 1]), **kw)


def shown(o):
    """Comparable form of an outcome of a minimisation."""
    if o.ok:
        return ["ok"] + [ops.hexes(x) for x in o.value]
    return [o.name(), str(o.exc)]


def settings_of(e):
    return [e.m, e.wolfe_c1, e.wolfe_c2, None if e.magnetic_field is None else ops.hexes(e.magnetic_field),
            ops.hexes(e.g_factors), ops.hexes(e.spins)]


def check_stop(w, t, text):
    """The minimisation ended at the first step that satisfies the tolerances, or at the limit."""
    nt = 1 if t["case"] == "ferro" else 2
    tol = t["tol"] or [1e-5] * 3
    rows = [[float(a) for a in x.split()] for x in text.split("\n")[1:-1]]
    verdict = []
    for a, b in zip(rows, rows[1:]):
        # excess over the tolerance and how exactly it is known from the text
        over = [(abs(b[0] - a[0]) - tol[0], 2e-8 * (abs(a[0]) + abs(b[0])) + 1e-12)] + [(x - y, 1e-8) for x, y in zip(b[1: 1 + nt], tol[1:])]
        verdict.append("go on" if any(x > e for x, e in over) else "stop" if all(x < -e for x, e in over) else "?")
    w.check("stop" not in verdict[:-1], "tolerance", f"minimisation goes on although the tolerances {tol} are satisfied: {rows}")
    if len(rows) - 1 < t["max"]:
        w.check(verdict and verdict[-1] != "go on", "tolerance",
                f"minimisation stops although neither the tolerances {tol} are satisfied nor the limit is reached: {rows}")
        w.probe("converged")
    w.check(len(rows) - 1 <= t["max"], "limit", f"{len(rows) - 1} steps, limit {t['max']}")


def execute(sc, w):
    GIVEN.clear()
    h = gen.build(scaled(sc["ham"], sc["scale"]))
    if h.I == 0:
        return
    n = h.I
    t = sc["task"]

    def fresh():
        e = ops.energy(h)
        settle(e, sc["settings"])
        return e

    ref = outcome(minimise(fresh(), t))
    wolfe = not ref.ok and isinstance(ref.exc, ValueError) and "olfe" in str(ref.exc)
    w.check(ref.ok or wolfe, "failed", f"minimisation ({t['case']}) fails: {ref.name()}: {ref.exc}")
    w.probe("returned" if ref.ok else "line search failed")

    # ---- the same from an object with a past
    e = fresh()
    before = settings_of(e)
    ended = 0
    for i, p in enumerate(sc["earlier"]):
        name = w.path(f"history-{i}") if p["history"] or p["k"] == "disk" else None
        fn = minimise(e, p, history=name)
        if p["k"] == "interrupt":
            _, where, _, ex = w.interrupt(fn, p["spec"])
            w.log("earlier interrupted at", where, type(ex).__name__)
        elif p["k"] == "bad":
            files = sorted(os.listdir(w.vol))
            o = outcome(bad_call(e, p["bad"], w.path("rejected")))
            w.check(not o.ok and isinstance(o.exc, ValueError), "accepted",
                    f"minimisation with a wrong argument ({p['bad']}) ends as {o.name()}")
            w.check(sorted(os.listdir(w.vol)) == files, "residue", f"rejected minimisation ({p['bad']}) wrote a file")
            w.fault("rejected-call")
        elif p["k"] == "disk":
            spare = fresh()
            _, counted = w.counted(minimise(spare, p, history=w.path("spare")))
            o, fired = w.with_faults(fn, p["faults"], counted)
            w.log("earlier under faults", fired, o.name())
        else:
            o = outcome(fn)
            ended += 1
            w.log("earlier", o.name())
    w.check(settings_of(e) == before, "settings", f"earlier minimisations changed the settings: {before} -> {settings_of(e)}")
    again = outcome(minimise(e, t))
    check_given(w)
    w.check(shown(again) == shown(ref), "past",
            f"minimisation ({t['case']}) on an object with a past gives {shown(again)} instead of {shown(ref)}")
    w.check(settings_of(e) == before, "settings", "minimisation changed the settings")
    check_given(w)

    # ---- history on or off makes no difference; neither do the other objects of the process
    o = outcome(minimise(fresh(), t, history=w.path("history")))
    w.check(shown(o) == shown(ref), "history", "minimisation that saves its history gives another result")

    # ---- form of the result
    if ref.ok:
        v = ref.value
        s = np.asarray(v[0])
        w.check(s.shape == (n, 3), "form", f"{s.shape} directions for {n} spins")
        norms = np.linalg.norm(s, axis=1)
        w.check(np.allclose(norms, 1, rtol=0, atol=1e-8), "unit", f"directions of the spins have lengths {norms.tolist()}")
        g, q = guess_of(t, n)
        if t["case"] == "ferro":
            w.check(len(v) == 1, "form", f"{len(v)} results of the ferromagnetic case")
        else:
            w.check(len(v) == 3, "form", f"{len(v)} results of the {t['case']} case")
            ax, k = np.asarray(v[1]), np.asarray(v[2])
            w.check(ax.shape == (3,) and abs(np.linalg.norm(ax) - 1) < 1e-8, "unit", f"cone axis is {ax.tolist()}")
            w.check(k.shape == (3,) and np.all(np.isfinite(k)), "form", f"spiral vector is {k.tolist()}")
            if t["case"] == "antiferro":
                w.check(ops.hexes(k) == ops.hexes(q), "q", f"spiral vector {q.tolist()} came back as {k.tolist()}")
        # zero iterations: the (normalised) guess itself
        z = minimise(fresh(), t, mx=0)()
        if g is not None:
            start = g if t["case"] == "ferro" else g[0]
            if start is not None:
                want = start / np.linalg.norm(start, axis=1)[:, None]
                w.check(np.allclose(z[0], want, rtol=0, atol=1e-12), "start", "no iterations do not return the guess")
            if t["case"] != "ferro" and g[1] is not None:
                w.check(np.allclose(z[1], g[1] / np.linalg.norm(g[1]), rtol=0, atol=1e-12), "start", "no iterations do not return the axis of the guess")
            if t["case"] == "spiral" and g[2] is not None:
                w.check(np.allclose(z[2], g[2], rtol=0, atol=1e-12), "start", "no iterations do not return the spiral vector of the guess")
        # more iterations continue the same path: with the limit reached the result is a point of it
        f = getattr(fresh(), t["case"])
        w.check(np.isfinite(float(f(*v))), "form", "energy of the result is not a number")
        # stopping: first step that satisfies the tolerances, or the limit
        check_stop(w, t, open(w.path("history")).read())
        if t["tol"] is not None and min(t["tol"]) >= 1e3:
            more = outcome(minimise(fresh(), t, mx=t["max"] + 3))
            if t["max"] >= 1:
                w.check(shown(more) == shown(ref), "tolerance", "minimisation goes on although the tolerances are satisfied")
        w.probe("zero steps", t["max"] == 0)
    for kind in sc["bad"]:
        x = fresh()
        o = outcome(bad_call(x, kind, w.path("rejected")))
        w.check(not o.ok and isinstance(o.exc, ValueError), "accepted", f"minimisation with a wrong argument ({kind}) ends as {o.name()}")
        w.check(not os.path.exists(w.path("rejected")), "residue", f"rejected minimisation ({kind}) wrote its history")
    check_given(w)
    w.state(t["case"], t["guess"], t["max"], ref.name(), [p["k"] for p in sc["earlier"]])
    w.log(shown(ref))
    w.nontrivial = bool(w.faults) or ended >= 2
