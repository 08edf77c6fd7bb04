"""P23: energies and magnon spectra are those of the documented Hamiltonian, at any point of a history."""

import numpy as np

from magnopy import Energy, MagnonDispersion

from checks.p21 import stable
from sim import gen, history, ops, spectrum
from sim.engine import outcome

PROPERTY = "P23"
RUNS = {"quick": 900, "thorough": 15000}
SHRINK = ["steps", "ham.bonds", "ham.onsite", "switches"]
RULE = (
    "one run = one Hamiltonian (random, with a stable state, or with degenerate modes) and a seeded history of edits, notation "
    "changes and queries: energies of the three kinds of states and magnon modes are compared with an independent classical and "
    "spin-wave computation from the couplings; settings of energy objects are changed (some values are rejected) and "
    "queries are interrupted; objects created earlier keep the values of their moment, also when they are used from threads; "
    "non-trivial: an object is asked after a later edit or setting"
)
SETTINGS = ["field", "field", "nofield", "g", "spins", "wrong"]


def degenerate(rng):
    """Equal atoms that do not interact, or interact equally: modes of equal energy."""
    n = rng.randint(2, 4)
    s = rng.choice([[0.0, 0.0, 1.0], [0.0, 0.0, -1.5], [0.3, 0.4, 0.5], [1.0, 0.0, 0.0]])
    v = np.array(s) / np.linalg.norm(s)
    m = (-rng.uniform(1, 4) * np.outer(v, v)).tolist()
    x = -rng.uniform(0.2, 2)
    bonds = []
    for i in range(n):
        bonds.append([i, i, rng.choice([[1, 0, 0], [0, 1, 0]]), [[x, 0.0, 0.0], [0.0, x, 0.0], [0.0, 0.0, x]]])
    if rng.random() < 0.5 and n > 2:
        y = -rng.uniform(0.1, 1)
        for i in range(n):
            j = (i + 1) % n
            bonds.append([i, j, [0, 0, 0], [[y, 0.0, 0.0], [0.0, y, 0.0], [0.0, 0.0, y]]])
    return {
        "cell": [[4.0, 0.0, 0.0], [0.0, 4.0, 0.0], [0.0, 0.0, 4.0]],
        "atoms": [{"name": f"A{i}", "pos": [i / n, 0.0, 0.0], "spin": s, "g": 2.0, "charge": None} for i in range(n)],
        "bonds": bonds, "onsite": [[i, m] for i in range(n)], "notation": rng.choice(["SpinW", "spinw"]), "late_notation": False,
        "cone": None, "spiral": None,
    }


def gen_query(rng):
    return {
        "seed": rng.randrange(1 << 30), "G": [rng.randint(-2, 2) for _ in range(3)],
        "same": rng.random() < 0.2, "k": [round(rng.uniform(-2, 2), 4) for _ in range(3)] if rng.random() < 0.9 else [0.0, 0.0, 0.0],
        "spec": {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"])} if rng.random() < 0.3 else None,
    }


def generate(rng, tier):
    kind = rng.choice(["random", "random", "stable", "stable", "stable", "unstable", "degenerate"])
    if kind == "degenerate":
        ham = degenerate(rng)
    else:
        ham = gen.gen_ham(rng, far=True, natoms=(1, 4), nbonds=(1, 6), notation="any", extra_atoms=kind == "random")
        if kind != "random":
            stable(rng, ham, 1 if kind == "stable" else -1)
    steps = []
    for _ in range(rng.randint(2, 12 if rng.random() < 0.2 else 6)):
        k = rng.choice(["edit", "edit", "edit", "energy", "energy", "set", "set", "magnons", "magnons", "magnons"])
        if k == "edit":
            weights = {"notation": 12, "dc": 8, "sn": 8, "xf": 8, "of": 8} if kind != "random" else None
            op = history.gen_ops(rng, 1, weights)[0]
            if kind != "random" and op[0] in ("add", "newatom", "rewrite", "on"):
                op[{"rewrite": 2, "on": 2}.get(op[0], 4)] = (np.array(op[{"rewrite": 2, "on": 2}.get(op[0], 4)]) * 0.02).tolist()
            if rng.random() < 0.15:  # in place
                size = 0.02 if kind != "random" else 1.0
                op = ["touch", rng.randrange(1 << 20), rng.choice(["matrix", "iso", "dmi", "aniso"]), [[rng.uniform(-size, size) for _ in range(3)] for _ in range(3)]]
            elif rng.random() < 0.15:
                op = ["change", rng.choice(["spin", "spin", "position", "g", "cell"]), rng.randrange(1 << 30)]
            steps.append([k, op])
        elif k == "set":
            steps.append([k, rng.randrange(100), rng.choice(SETTINGS), rng.randrange(1 << 30), rng.randrange(10), gen_query(rng)])
        else:
            steps.append([k, gen_query(rng)])
    steps += [["energy", gen_query(rng)], ["magnons", gen_query(rng)]]
    return {
        "ham": ham, "kind": kind, "steps": steps, "q": gen_query(rng), "threads": rng.choice([0, 0, 2, 3]),
        "switches": ops.switches(rng, rng.choice([2, 6, 30]), 3),
    }


def defined(h):
    if h.I == 0 or gen.component(h, "exchange_factor") is None or gen.component(h, "double_counting") is None:
        return False
    if gen.component(h, "spin_normalized") is None or (len(h.on_site) and gen.component(h, "on_site_factor") is None):
        return False
    return True


def change(run, what, x):
    """Change an atom or the cell of the Hamiltonian in place."""
    h, rs = run.h, np.random.RandomState(x)
    if not h.atoms:
        return
    a = h.atoms[x % len(h.atoms)]
    if what == "cell":
        h.cell = np.diag(rs.uniform(3, 8, size=3)) + rs.uniform(-0.5, 0.5, size=(3, 3))
    elif what == "position":
        a.position = rs.uniform(size=3)
    elif what == "g":
        a.g_factor = float(rs.uniform(1, 3))
    else:
        try:
            old = np.linalg.norm(a.spin_vector)
        except ValueError:
            return
        if old == 0:
            return
        v = rs.normal(size=3)
        a.spin_vector = v / np.linalg.norm(v) * (old if x % 2 else rs.uniform(0.5, 2.5))
        run.ref.spins[a.name] = float(np.linalg.norm(a.spin_vector))


def fixed_couplings(h):
    """The couplings at this moment, for a later comparison."""
    return h.copy()


class Held:
    """Energy object and what it has to be."""

    def __init__(self, h):
        self.h = fixed_couplings(h)
        self.e = Energy(h)
        self.field = self.spins = self.g = None

    def expected(self, case, s, axis, q):
        return spectrum.classical(self.h, case, s, axis, q, self.field, self.spins, self.g)


def states(h, q):
    s, axis, v = ops.directions(h, q["seed"])
    if q["same"]:
        s = np.tile(axis, (len(s), 1))
    half = np.array(q["G"]) @ np.array(h.reciprocal_cell) / 2
    return [("ferro", s, axis, None), ("spiral", s, axis, v), ("antiferro", s, axis, half), ("spiral", s, axis, v * 0), ("antiferro", s, axis, half * 0)]


def value(e, case, s, axis, q):
    return e.ferro(s) if case == "ferro" else getattr(e, case)(s, axis, q)


def check_energy(w, held, q, what):
    for case, s, axis, v in states(held.h, q):
        kept = s.copy(), axis.copy(), None if v is None else v.copy()
        if q["spec"] is not None:
            w.interrupt(lambda: outcome(lambda: value(held.e, case, s, axis, v)), q["spec"])
        got = value(held.e, case, s, axis, v)
        want = held.expected(case, s, axis, v)
        scale = max(1.0, float(sum(np.abs(m).sum() for m in gen.physics(held.h).values())))
        if held.field is not None:  # constants of different years
            scale += 100 * spectrum.BOHR_MAGNETON * float(np.linalg.norm(held.field)) * sum(a.spin * a.g_factor + 9 for a in held.h.magnetic_atoms)
        w.check(abs(got - want) <= 1e-8 * scale, case, f"{what}: {case} energy is {got!r}, the Hamiltonian gives {want!r}")
        w.check(np.array_equal(kept[0], s) and np.array_equal(kept[1], axis) and (v is None or np.array_equal(kept[2], v)), "caller",
                f"{what}: arrays of the caller are changed")


def check_magnons(w, d, h, q, what):
    mod = spectrum.model(h)
    n = len(mod[0])
    w.check(n == h.I, "modes", f"{what}: {n} atoms in the couplings, {h.I} magnetic atoms")
    k = list(q["k"])
    if q["spec"] is not None:
        w.interrupt(lambda: outcome(lambda: d.omega(k)), q["spec"])
    got = d.h(k)
    want = spectrum.matrix(mod, k)
    strength = float(sum(np.abs(m).sum() for _, _, _, m in mod[1])) * max(np.linalg.norm(x) for x in mod[0])
    scale = float(np.max(np.abs(want))) + strength / 100
    w.check(got.shape == (2 * n, 2 * n), "matrix", f"{what}: matrix of the modes has shape {got.shape}")
    w.check(np.allclose(got, got.conj().T, rtol=0, atol=1e-9 * scale), "matrix", f"{what}: matrix of the modes is not Hermitian")
    x, y = np.linalg.eigvalsh(got), np.linalg.eigvalsh(want)
    w.check(np.allclose(x, y, rtol=0, atol=1e-7 * scale), "matrix", f"{what}: eigenvalues of the matrix of the modes are {x.tolist()}, expected {y.tolist()}")
    plain = d.omega(k)
    E, G = d.omega(k, return_G=True)
    w.check(plain.shape == (n,) and E.shape == (2 * n,) and G.shape == (2 * n, 2 * n), "shape",
            f"{what}: shapes of the energies {plain.shape}, {E.shape}, of the transformation {G.shape} for {n} modes")
    w.check(np.array_equal(plain, E[:n], equal_nan=True), "modes", f"{what}: energies with and without the transformation differ: {plain.tolist()}, {E.tolist()}")
    none = d.omega(k, zeros_to_none=True)
    w.check(none.shape == (n,), "shape", f"{what}: shape of the energies {none.shape}")
    modes = spectrum.energies(mod, k)
    if np.max(np.abs(want)) < 1e-4 * max(strength, 1e-3):  # nothing but rounding is left
        modes = None
    if isinstance(modes, str):
        w.check(np.array_equal(plain, np.zeros(n)) and np.all(np.isnan(none.astype(float))), "modes",
                f"{what}: energies {plain.tolist()}, {none.tolist()} of a matrix that is not definite")
        w.probe("indefinite")
    elif modes is not None:
        close = 1e-6 * scale
        w.check(np.allclose(np.sort(plain), modes, rtol=0, atol=close), "modes", f"{what}: energies {plain.tolist()}, expected {modes.tolist()}")
        w.check(np.array_equal(plain, none), "modes", f"{what}: energies depend on zeros_to_none: {plain.tolist()}, {none.tolist()}")
        w.check(all(abs(a) >= abs(b) - close for a, b in zip(plain, plain[1:])), "modes", f"{what}: energies are not ordered: {plain.tolist()}")
        g = np.diag([1.0] * n + [-1.0] * n)
        w.check(np.allclose(G @ g @ G.conj().T, g, rtol=0, atol=1e-6), "transformation", f"{what}: transformation of the modes does not keep the commutators")
        inv = np.linalg.inv(G)
        w.check(np.allclose(inv.conj().T @ got @ inv, np.diag(E), rtol=0, atol=close * 10), "transformation",
                f"{what}: transformation does not bring the matrix to the energies {E.tolist()}")
        w.probe("positive" if modes[-1] > 0 else "negative")
        if n > 1 and np.min(np.diff(modes)) < 1e-9 * scale:
            w.probe("degenerate")
    return ops.hexes(plain)


def execute(sc, w):
    run = history.Run(w, sc["ham"])
    energies, magnons = [], []
    later = 0
    for n, step in enumerate(sc["steps"]):
        h = run.h
        what = f"step {n} {step[0]} ({sc['kind']})"
        if step[0] == "edit":
            if step[1][0] == "touch":
                if run.touch(*step[1][1:]):
                    w.probe("touch")
            elif step[1][0] == "change":
                change(run, *step[1][1:])
                w.probe("change " + step[1][1])
            else:
                run.apply(step[1])
            w.log(n, step[1][0])
            later += bool(energies or magnons)
            continue
        if not defined(h):
            for make in (Energy, MagnonDispersion):
                before = gen.snapshot(h)
                outcome(lambda: make(h))
                w.check(gen.diff(before, gen.snapshot(h)) is None, "modified", f"{what}: the Hamiltonian is changed")
            continue
        if step[0] == "energy":
            energies.append(Held(h))
            check_energy(w, energies[-1], step[1], what)
        elif step[0] == "magnons":
            d = MagnonDispersion(h)
            first = check_magnons(w, d, h, step[1], what)
            magnons.append((d, h.copy(), step[1], first))
        elif step[0] == "set":
            if not energies:
                energies.append(Held(h))
            x = energies[step[1] % len(energies)]
            rs = np.random.RandomState(step[3])
            I = x.h.I
            if step[2] == "field":
                v = [float(t) for t in rs.normal(size=3) * rs.choice([1, 50])]
                x.e.magnetic_field = v if step[4] % 2 else np.array(v)
                x.field = v
            elif step[2] == "nofield":
                x.e.magnetic_field = None
                x.field = None
            elif step[2] == "g":
                x.g = [float(t) for t in rs.uniform(1, 3, size=I)]
                x.e.g_factors = list(x.g)
            elif step[2] == "spins":
                x.spins = [float(t) for t in rs.uniform(0.5, 3, size=I)]
                x.e.spins = list(x.spins)
            else:
                wrong = [("magnetic_field", [1, 2]), ("magnetic_field", "abc"), ("magnetic_field", 5), ("g_factors", [2.0] * (I + 1)), ("g_factors", 3),
                         ("spins", [1.0] * (I + 1)), ("spins", 2), ("spins", [1.0] * (I - 1) + ["x"]), ("g_factors", [1.0] * (I - 1) + [None]),
                         ("magnetic_field", [[1, 2, 3]])][step[4] % 10]
                o = outcome(lambda: setattr(x.e, *wrong))
                w.check(not o.ok, "accepted", f"{what}: {wrong} was accepted")
            later += 1
            w.probe("set " + step[2])
            check_energy(w, x, step[5], what)
            for y in energies:  # the settings of one object are not those of the others
                if y is not x:
                    check_energy(w, y, dict(step[5], spec=None), what + ", another object")
    # ---- objects keep the values of their moment
    q = dict(sc["q"], spec=None)
    for x in energies:
        check_energy(w, x, q, "at the end")
    for d, h, q0, first in magnons:
        check_magnons(w, d, h, q, "at the end")
        w.check(ops.hexes(d.omega(q0["k"])) == first, "modes", "energies of an object change with time")
    if sc["threads"] and energies and magnons:
        e, (d, dh, _, _) = energies[-1], magnons[-1]

        def work(i):
            one = dict(sc["q"], seed=sc["q"]["seed"] + i)
            s = [x for x in states(e.h, one)]
            return lambda: [[float(value(e.e, *x)).hex() for x in s], ops.hexes(d.omega(np.array(sc["q"]["k"]) + i))]

        jobs = [work(i) for i in range(sc["threads"])]
        alone, together = w.interleave(jobs, jobs, [[at, t % sc["threads"]] for at, t in sc["switches"]])
        for x, y in zip(alone, together):
            w.check(x.ok and y.ok and x.value == y.value, "threads", f"threads that share objects get other values ({x.name()}, {y.name()})")
    run.check_left_behind()
    w.log(gen.snapshot(run.h))
    w.state(sc["kind"], len(energies), len(magnons), len(run.ref.pairs))
    w.nontrivial = later > 0
