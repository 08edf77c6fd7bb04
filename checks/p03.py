"""P03: an edit that is rejected leaves everything as it was."""

import numpy as np
from wulfric import Atom

from magnopy import Energy, MatrixParameter
from sim import gen, history
from sim.engine import Violation, outcome

PROPERTY = "P03"
RUNS = {"quick": 3000, "thorough": 80000}
SHRINK = ["ops", "ham.bonds", "ham.onsite"]
RULE = (
    "one run = one Hamiltonian and a seeded history in which valid edits are mixed with edits that have to be rejected "
    "(missing atoms, bonds and keys, malformed values at every argument, callbacks that fail at a seeded call, settings "
    "of the energy); after every rejected edit the whole observable state is compared bit by bit with the one before and "
    "the following valid edits with the reference table; non-trivial: at least one edit was rejected"
)

BAD_MATRIX = [
    [[1, 2], [3, 4]], [1, 2, 3], [[1, 2, 3], [4, 5, 6]], "abc", [["a", 0, 0], [0, 1, 0], [0, 0, 1]],
    [[1, 0, 0], [0, 1, 0], [0, 0]],
]
KINDS = [
    "x-name", "x-matrix", "x-kwarg", "x-iso", "x-dmi", "x-ijk", "x-atom", "x-newatom", "x-param",
    "o-name", "o-matrix", "o-kwarg", "o-newatom", "o-atom",
    "set-key", "del-key", "get-key", "in-key", "rm-bond", "rm-on", "rm-atom", "rm-name", "rm-on-name", "rm-x-name",
    "n-string", "n-length", "n-zero", "n-number", "n-type", "xf", "of", "dc", "sn",
    "filter-call", "filtered-call", "filter-distance", "cone", "spiral", "atom-twice", "atom-type",
    "e-m", "e-c1", "e-c2", "e-field", "e-g", "e-spins",
]


def generate(rng, tier):
    ham = gen.gen_ham(rng, far=True, natoms=(1, 5), nbonds=(1, 9), notation=rng.choice(["any", "any", "any", None]), onsite=0.8)
    ops = []
    for op in history.gen_ops(rng, rng.randint(1, 10)):
        ops.append(op)
        for _ in range(rng.choice([0, 1, 2])):
            ops.append(["bad", rng.choice(KINDS), rng.randrange(1 << 30), rng.randrange(1 << 30)])
    ops.append(["bad", rng.choice(KINDS), rng.randrange(1 << 30), rng.randrange(1 << 30)])
    return {"ham": ham, "ops": ops}


w_fault = [False]


class Stop(Exception):
    pass


def bad_edit(h, kind, x, y):
    """(callable, whether it has to raise) or None if there is nothing to act on."""
    atoms = h.atoms
    if not atoms:
        return None
    a, b = atoms[x % len(atoms)], atoms[y % len(atoms)]
    R = (x % 3 + 3, y % 3 - 1, 1)  # not among the bonds of the workload: reach is two
    new = Atom("New1", (0.11, 0.22, 0.33), spin=(0, 0, 1))
    bm = BAD_MATRIX[y % len(BAD_MATRIX)]
    bonds = list(h.exchange)
    on = list(h.on_site)
    if x % 2 and bonds:  # rewrite of an existing bond
        a, b, R, _ = bonds[x % len(bonds)]
    if kind == "x-name":
        pair = [("Nobody", b), (a, "Nobody"), ("Nobody", new), (new, "Nobody"), (a.name, "Nobody")][y % 5]
        return (lambda: h.add_exchange(pair[0], pair[1], R, iso=1.0)), True
    if kind == "x-matrix":
        return (lambda: h.add_exchange(a, b, R, matrix=bm)), True
    if kind == "x-kwarg":
        return (lambda: h.add_exchange(a, b, R, isotropic=1.0)), True
    if kind == "x-iso":
        return (lambda: h.add_exchange(a, b, R, matrix=np.eye(3), iso="abc")), True
    if kind == "x-dmi":
        return (lambda: h.add_exchange(a, b, R, iso=1.0, dmi=[(1, 2), "abc", (1, "b", 2)][y % 3])), True
    if kind == "x-ijk":
        bad = [(1, 2), (1, 2, 3, 4), 5, None, ("a", "b", "c"), (1, None, 2)][y % 6]
        # three components are only looked at when the mirrored bond is made
        return (lambda: h.add_exchange(a, b, bad, iso=1.0)), y % 6 < 4 or history_dc(h)
    if kind == "x-atom":
        bad = [5, None, (0, 0, 0), 1.5, b"Cr"][y % 5]
        pair = [(bad, new), (new, bad), (a, bad), (bad, b)][x % 4]
        return (lambda: h.add_exchange(pair[0], pair[1], R, iso=1.0)), True
    if kind == "x-newatom":
        other = Atom("New2", (0.4, 0.2, 0.3), spin=(0, 0, 1))
        pair = [(new, a), (a, new), (new, other)][x % 3]
        return (lambda: h.add_exchange(pair[0], pair[1], R, matrix=bm)), True
    if kind == "x-param":
        bad = [[[1, 2, 3]], 5, "abc", {}][y % 4]
        pair = [(new, a), (a, b)][x % 2]
        return (lambda: h.add_exchange(pair[0], pair[1], R, bad)), history_dc(h)
    if kind == "o-name":
        return (lambda: h.add_on_site("Nobody", iso=1.0)), True
    if kind == "o-matrix":
        return (lambda: h.add_on_site(a, matrix=bm)), True
    if kind == "o-kwarg":
        return (lambda: h.add_on_site(a, isotropic=1.0)), True
    if kind == "o-newatom":
        return (lambda: h.add_on_site(new, matrix=bm)), True
    if kind == "o-atom":
        bad = [5, None, 1.5][y % 3]
        return (lambda: h.add_on_site(bad, iso=1.0)), True
    key = [5, (1, 2), (a, b), [a, b, R, 1], None, 1.5][y % 6]
    if kind == "set-key":
        def f():
            h[key] = MatrixParameter(iso=1.0)
        return f, True
    if kind == "del-key":
        def f():
            del h[key]
        return f, True
    if kind == "get-key":
        return (lambda: h[key]), True
    if kind == "in-key":
        return (lambda: key in h), True
    if kind == "rm-bond":
        far = (9, 9, x % 5)
        return [
            lambda: h.remove_exchange(a, b, far),
            lambda: h.__delitem__((a, b, far)),
            lambda: h.remove_exchange(a.name, b.name, far),
            lambda: h[a, b, far],
        ][y % 4], True
    if kind == "rm-on":
        free = [q for q in atoms if q not in h]
        if not free:
            return None
        q = free[x % len(free)]
        return [lambda: h.remove_on_site(q), lambda: h.__delitem__(q), lambda: h.remove_on_site(q.name)][y % 3], True
    if kind == "rm-atom":
        return (lambda: h.remove_atom(new)), True
    if kind == "rm-name":
        return (lambda: h.remove_atom("Nobody")), True
    if kind == "rm-on-name":
        return [lambda: h.remove_on_site("Nobody"), lambda: h.__delitem__("Nobody"), lambda: h["Nobody"]][y % 3], True
    if kind == "rm-x-name":
        return [lambda: h.remove_exchange("Nobody", b, R), lambda: h.remove_exchange(a, "Nobody", R)][y % 2], True
    if kind == "n-string":
        return setter(h, "notation", ["unknown", "", "magnopy ", "SpinWave"][y % 4]), True
    if kind == "n-length":
        return setter(h, "notation", [(True, True), (True,) * 5, (), [True]][y % 4]), True
    if kind == "n-zero":
        return setter(
            h, "notation",
            [(x % 2 == 0, y % 3 == 0, 0, 1), (x % 2 == 0, y % 3 == 0, 1, 0), (x % 2 == 0, y % 3 == 0, 0.0), (x % 2 == 1, True, -0.0, 0)][y % 4],
        ), True
    if kind == "n-number":
        return setter(
            h, "notation",
            [(x % 2 == 0, y % 3 == 0, "abc", 1), (x % 2 == 0, y % 3 == 0, 1, None), (x % 2 == 0, y % 3 == 0, [1, 2])][y % 3],
        ), True
    if kind == "n-type":
        return setter(h, "notation", [5, None, 1.5][y % 3]), True
    if kind in ("xf", "of"):
        name = {"xf": "exchange_factor", "of": "on_site_factor"}[kind]
        values = ["abc", None, [1, 2]]
        if gen.component(h, name) is not None and (bonds if kind == "xf" else on):
            values.append(0)
        v = values[y % len(values)]
        return setter(h, name, v), True
    if kind in ("dc", "sn"):
        return setter(h, {"dc": "double_counting", "sn": "spin_normalized"}[kind], np.array([True, False])), False
    if kind in ("filter-call", "filtered-call"):
        n = len(bonds) + len(on)
        if n == 0:
            return None
        count = [0]

        def callback(p):
            count[0] += 1
            if count[0] > y % n:
                raise Stop("the callback of the user fails")
            return x % 3 == 0

        w_fault[0] = True
        return (lambda: getattr(h, kind[: kind.index("-")])(custom_filter=callback)), True
    if kind == "filter-distance":
        if not bonds:
            return None
        # some bond passes the other condition, in whichever order they are looked at
        shortest = min(h.get_distance(*bond[:3]) for bond in bonds) + 1e-6
        return [
            lambda: h.filter(max_distance="far"),
            lambda: h.filter(min_distance="near", max_distance=shortest),
            lambda: h.filter(max_distance=shortest, custom_filter=5),
            lambda: h.filter(distance=1.0),
        ][y % 4], True
    if kind == "cone":
        return setter(h, "cone_axis", [(0, 0, 0), (1, 2), "abc", 5, [[1, 2, 3]], (1, "b", 2)][y % 6]), True
    if kind == "spiral":
        return setter(h, "spiral_vector", [(1, 2), "abc", 5, [[1, 2, 3]], (1, "b", 2)][y % 5]), True
    if kind == "atom-twice":
        return (lambda: h.add_atom(a)), False
    if kind == "atom-type":
        return (lambda: h.add_atom(5)), True
    raise AssertionError(kind)


def history_dc(h):
    return bool(gen.component(h, "double_counting"))


def setter(obj, name, value):
    return lambda: setattr(obj, name, value)


ENERGY = {
    "e-m": ("m", ["abc", None, [1, 2]]),
    "e-c1": ("wolfe_c1", ["abc", None, [1, 2]]),
    "e-c2": ("wolfe_c2", ["abc", None, [1, 2]]),
    "e-field": ("magnetic_field", [(1, 2), "abc", 5, [[1, 2, 3]], (1, "b", 2)]),
    "e-g": ("g_factors", [5, "long", "short", "abc"]),
    "e-spins": ("spins", [5, "long", "short", "abc"]),
}


def settings(e):
    f = e.magnetic_field
    return [
        e.m, float(e.wolfe_c1), float(e.wolfe_c2), None if f is None else np.asarray(f).tolist(),
        [float(v) for v in e.g_factors], [float(v) for v in e.spins],
    ]


def bad_setting(w, h, kind, x, y):
    if outcome(lambda: h.notation).exc is not None or h.I == 0:
        return False
    e = Energy(h)
    if x % 3:
        e.m = 3 + x % 5
        e.wolfe_c1 = 0.01
        e.magnetic_field = (0.1, 0.2, x % 7)
        e.spins = [1 + 0.5 * i for i in range(h.I)]
        e.g_factors = [2 - 0.1 * i for i in range(h.I)]
    name, values = ENERGY[kind]
    v = values[y % len(values)]
    n = h.I
    if v in ("long", "short", "abc") and kind in ("e-g", "e-spins"):
        v = {"long": [1.0] * (n + 1), "short": [1.0] * (n - 1), "abc": [1.5] * (n - 1) + ["abc"]}[v]
    before = settings(e)
    s = np.random.RandomState(x % (1 << 31)).normal(size=(n, 3))
    energy = e.ferro(s)
    out = outcome(setter(e, name, v))
    w.check(not out.ok, "accepted", f"{name} = {v!r} of the energy is accepted")
    w.check(settings(e) == before, "settings", f"rejected {name} = {v!r} changed the settings from {before} to {settings(e)}")
    w.check(e.ferro(s) == energy, "settings", f"rejected {name} = {v!r} changed the energy")
    w.log("setting", kind, out.name())
    return True


def execute(sc, w):
    run = history.Run(w, sc["ham"])
    for n, op in enumerate(sc["ops"]):
        if op[0] != "bad":
            if run.apply(op):
                w.probe("valid-edit")
                history.compare(w, run.h, run.ref, f"edit {n} {op[:4]} that follows rejected edits")
            continue
        _, kind, x, y = op
        if kind in ENERGY:
            if bad_setting(w, run.h, kind, x, y):
                w.probe("rejected:" + kind)
                w.nontrivial = True
            continue
        made = bad_edit(run.h, kind, x, y)
        if made is None:
            continue
        fn, must = made
        if w_fault[0]:
            w.fault("callback-failure")
            w_fault[0] = False
        before = gen.snapshot(run.h)
        out = outcome(fn)
        w.log("bad", kind, out.name())
        if out.ok:
            w.check(not must, "accepted", f"invalid operation {kind} (variant {x % 12}, {y % 60}) is accepted")
            if kind == "atom-twice":
                w.check(gen.snapshot(run.h) == before, "modified", "the atom that is already there is added again")
                continue
            return
        gen.unchanged(w, before, run.h, f"rejected operation {kind} ({type(out.exc).__name__}: {str(out.exc)[:100]})")
        history.compare(w, run.h, run.ref, f"rejected operation {kind}")
        w.probe("rejected:" + kind)
        w.state(kind, out.name())
        w.fault("rejected-request")
        w.nontrivial = True
    run.check_left_behind()
    w.log(gen.snapshot(run.h))
