"""P20: standardising and shifting the crystal never changes the physics."""

import math

import numpy as np

from magnopy import (
    Energy, MagnonDispersion, SpinHamiltonian, dump_spinham_hdf5, dump_spinham_txt, load_spinham,
)
from sim import gen, history, ops, spectrum
from sim.engine import outcome

PROPERTY = "P20"
RUNS = {"quick": 240, "thorough": 12000}
SHRINK = ["steps", "ham.bonds", "ham.onsite", "switches"]
RULE = (
    "one run = one Hamiltonian in a cell of a seeded Bravais lattice and a seeded history of edits, notation changes, "
    "transformations of the crystal (standardisation, shifts), interrupted reads, copies and save and load; after every step "
    "the Hamiltonian is compared with a reference table whose bonds were transformed from the two cells, and bond vectors, "
    "energies and magnon matrices with those before; copies are transformed in threads as well; non-trivial: a "
    "transformation acted on a Hamiltonian with bonds"
)
KEEP = ["standardize", "standardize", "standardize", "shift", "cure", "crystal"]


def lattice(rng):
    """Cell of a lattice, with its vectors in a seeded order."""
    a, b, c = sorted(round(rng.uniform(3, 8), 3) for _ in range(3))
    b, c = b + 0.1, c + 0.3
    x, y = math.cos(math.radians(rng.uniform(65, 88))), math.sqrt(3) / 2
    s = rng.choice([0.4, 0.45, 0.3])
    cells = {
        "CUB": [[a, 0, 0], [0, a, 0], [0, 0, a]],
        "FCC": [[0, a / 2, a / 2], [a / 2, 0, a / 2], [a / 2, a / 2, 0]],
        "BCC": [[-a / 2, a / 2, a / 2], [a / 2, -a / 2, a / 2], [a / 2, a / 2, -a / 2]],
        "TET": [[a, 0, 0], [0, a, 0], [0, 0, c]],
        "BCT": [[-a / 2, a / 2, c / 2], [a / 2, -a / 2, c / 2], [a / 2, a / 2, -c / 2]],
        "ORC": [[a, 0, 0], [0, b, 0], [0, 0, c]],
        "ORCF": [[0, b / 2, c / 2], [a / 2, 0, c / 2], [a / 2, b / 2, 0]],
        "ORCI": [[-a / 2, b / 2, c / 2], [a / 2, -b / 2, c / 2], [a / 2, b / 2, -c / 2]],
        "ORCC": [[a / 2, -b / 2, 0], [a / 2, b / 2, 0], [0, 0, c]],
        "HEX": [[a / 2, -a * y, 0], [a / 2, a * y, 0], [0, 0, c]],
        "HEX60": [[a, 0, 0], [a / 2, a * y, 0], [0, 0, c]],
        "RHL": [[a, a * s, a * s], [a * s, a, a * s], [a * s, a * s, a]],
        "MCL": [[a, 0, 0], [0, b, 0], [0, c * x, c * math.sqrt(1 - x * x)]],
        "MCLC": [[a / 2, b / 2, 0], [-a / 2, b / 2, 0], [0, c * x, c * math.sqrt(1 - x * x)]],
        "TRI": gen.gen_cell(rng),
    }
    name = rng.choice(sorted(cells))
    order = list(range(3))
    rng.shuffle(order)
    cell = [cells[name][i] for i in order]
    if np.linalg.det(np.array(cell)) < 0:
        cell = [[-x for x in row] for row in cell] if rng.random() < 0.5 else [cell[1], cell[0], cell[2]]
    if rng.random() < 0.3:  # another choice of the vectors of the same lattice
        i, j = rng.sample(range(3), 2)
        cell[i] = [p + q for p, q in zip(cell[i], cell[j])]
    return name, [[float(v) for v in row] for row in cell]


def generate(rng, tier):
    ham = gen.gen_ham(rng, far=True, natoms=(1, 4), nbonds=(1, 7), notation="any")
    name, ham["cell"] = lattice(rng)
    steps = []
    for _ in range(rng.randint(1, 9 if rng.random() < 0.2 else 5)):
        k = rng.choice(KEEP + ["edit"] * 5 + ["read", "read", "hdf5", "txt", "family"])
        if k == "edit":
            steps.append(["edit", history.gen_ops(rng, 1)[0]])
        elif k == "shift":
            steps.append([k, [round(rng.uniform(-1, 1), 3) for _ in range(3)], rng.choice(["default", "relative", "absolute"])])
        elif k == "read":
            steps.append([k, rng.choice(["iterate", "copy", "filtered", "dispersion", "energy", "crystal", "magnetic"]),
                          rng.randrange(1 << 20), {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"])}])
        elif k == "family":
            steps.append([k, [[rng.randrange(3), rng.choice(["standardize", "standardize", "shift", "cure"])] for _ in range(rng.randint(1, 3))]])
        else:
            steps.append([k])
    return {
        "ham": ham, "lattice": name, "steps": steps, "k": [rng.uniform(-2, 2) for _ in range(3)], "seed": rng.randrange(1 << 30),
        "threads": rng.choice([0, 0, 0, 2]), "switches": ops.switches(rng, rng.choice([2, 6, 30]), 2),
    }


def vectors(h):
    """What does not depend on the description of the crystal."""
    out = {}
    for a, b, R, p in h.exchange:
        d = (np.array(R) + np.array(b.position) - np.array(a.position)) @ np.array(h.cell)
        out.setdefault((a.name, b.name), []).append((d, p.matrix))
    return out


def same_vectors(w, h, want, what):
    got = vectors(h)
    w.check(sorted(got) == sorted(want), "bonds", f"{what}: bonds between {sorted(got)} instead of {sorted(want)}")
    for pair, bonds in want.items():
        rest = list(got[pair])
        w.check(len(rest) == len(bonds), "bonds", f"{what}: {len(rest)} bonds of {pair} instead of {len(bonds)}")
        for d, m in bonds:
            i = min(range(len(rest)), key=lambda i: float(np.linalg.norm(rest[i][0] - d)))
            w.check(np.allclose(rest[i][0], d, rtol=0, atol=1e-7), "vector",
                    f"{what}: bond {pair} with the vector {d.tolist()} is lost, the closest one is {rest[i][0].tolist()}")
            w.check(np.allclose(rest[i][1], m, rtol=1e-12, atol=1e-12), "value",
                    f"{what}: bond {pair} with the vector {d.tolist()} has {rest[i][1].tolist()} instead of {m.tolist()}")
            rest.pop(i)
    for a, b, R, _ in h.exchange:
        d = (np.array(R) + np.array(b.position) - np.array(a.position)) @ np.array(h.cell)
        w.check(np.allclose(h.get_vector(a, b, R), d, rtol=0, atol=1e-7), "vector", f"{what}: get_vector of {(a.name, b.name, R)}")
        w.check(abs(h.get_distance(a, b, R) - np.linalg.norm(d)) < 1e-7, "vector", f"{what}: get_distance of {(a.name, b.name, R)}")


def absolute_q(h):
    return None if h.spiral_vector is None else np.array(h.spiral_vector) @ np.array(h.reciprocal_cell)


def physics(h, sc):
    """Energies and the magnon matrix at absolute vectors; None if not defined."""
    if h.I == 0 or gen.component(h, "exchange_factor") is None or gen.component(h, "double_counting") is None:
        return None
    if len(h.on_site) and gen.component(h, "on_site_factor") is None or gen.component(h, "spin_normalized") is None:
        return None
    s, axis, q = ops.directions(h, sc["seed"])

    def energies():
        e = Energy(h)
        return [e.ferro(s), e.spiral(s, axis, q), e.antiferro(s, axis, q)]

    def matrix():
        d = MagnonDispersion(h)
        return [d.h(sc["k"]), d.h([0.1, 0.2, 0.3])]

    a, b = outcome(energies), outcome(matrix)
    return a, b


def same_physics(w, got, want, what):
    if got is None or want is None:
        w.check((got is None) == (want is None), "energy", f"{what}: energies became defined or undefined")
        return
    for x, y, name in zip(got, want, ("energies", "magnon matrices")):
        w.check(x.name() == y.name(), name, f"{what}: {x.name()} instead of {y.name()}: {x.exc or y.exc}")
        if x.ok:
            a, b = np.array(x.value), np.array(y.value)
            scale = float(np.max(np.abs(b))) + 1e-9
            w.check(np.all(np.abs(a - b) <= 1e-7 * max(scale, 1)), name, f"{what}: {name} are {a.tolist()}, were {b.tolist()}"[:600])


def family_view(x):
    """Cell and atoms of a crystal, everything of a Hamiltonian."""
    if isinstance(x, SpinHamiltonian):
        return gen.snapshot(x)
    return {"cell": gen._hex(x.cell), "atoms": [[a.name, gen._hex(a.position), gen._hex(a.spin_vector)] for a in x.atoms]}


def transform(w, run, what, fn):
    """Apply a transformation of the crystal and rewrite the reference."""
    h, ref = run.h, run.ref
    cell, rcell = np.array(h.cell), np.array(h.reciprocal_cell)
    pos = {a.name: np.array(a.position) for a in h.atoms}
    fn()
    M = np.array(h.cell) @ np.linalg.inv(cell)
    N = np.rint(M)
    w.check(np.allclose(M, N, rtol=0, atol=1e-6) and abs(abs(np.linalg.det(N)) - 1) < 1e-6, "lattice",
            f"{what}: cell {h.cell.tolist()} does not span the lattice of {cell.tolist()}")
    inv = np.linalg.inv(N)
    pairs = {}
    for (a, b, R), (m, stored) in ref.pairs.items():
        R2 = tuple(int(x) for x in np.rint(np.array(R) @ inv))
        key, flip = gen.canonical(a, b, R2)
        pairs[key] = [m.T if flip else m, {x if x is None else x != flip for x in stored}]
    ref.pairs = pairs
    if ref.spiral is not None:
        ref.spiral = ref.spiral @ rcell @ np.linalg.inv(np.array(h.reciprocal_cell))
    # all atoms are moved together
    moved = [np.array(a.position) @ np.array(h.cell) - pos[a.name] @ cell for a in h.atoms]
    for x in moved:
        w.check(np.allclose(x, moved[0], rtol=0, atol=1e-7), "positions", f"{what}: atoms are moved by {[m.tolist() for m in moved]}")
    return moved[0] if moved else np.zeros(3)


def execute(sc, w):
    spectrum.memoise_lattice_type()
    run = history.Run(w, sc["ham"])
    history.compare(w, run.h, run.ref, "the construction")
    acted = 0
    held = []  # (object, values)
    for n, step in enumerate(sc["steps"]):
        k = step[0]
        what = f"step {n} {k} ({sc['lattice']})"
        h = run.h
        if k == "edit":
            did = run.apply(step[1])
            w.log(n, step[1][0], did)
        elif k == "read":
            before = gen.snapshot(h)
            w.interrupt(lambda: outcome(ops.read(h, step[1], step[2], w.path)), step[3])
            w.check(gen.diff(before, gen.snapshot(h)) is None, "modified", f"{what}: interrupted {step[1]} changed the Hamiltonian")
        elif k == "family":  # two Hamiltonians that are built from one crystal
            crystal = h.crystal
            family = [crystal] + [SpinHamiltonian(crystal, notation=gen.notation_tuple("spinw")) for _ in range(2)]
            for x in family[1:]:
                for a, b, R, p in h.exchange:
                    x[a.name, b.name, R] = p
            if not len(crystal.atoms):
                continue
            for who, act in step[1]:
                seen = [family_view(x) for x in family] + [gen.snapshot(h)]
                want = [vectors(x) for x in family[1:]]
                o = outcome({"standardize": family[who].standardize, "shift": family[who].shift_atoms, "cure": family[who].cure_negative}[act])
                w.check(o.ok or o.name() == "StandardizationTypeMismatch", "failed", f"{what} raised {o.name()}")
                for i, x in enumerate(family):
                    if i != who:
                        d = gen.diff(seen[i], family_view(x))
                        w.check(d is None, "modified", f"{what}: {act} of {'a Hamiltonian built from it' if who else 'the crystal it was built from'} changed another object: {d}")
                    if i:
                        same_vectors(w, x, want[i - 1], what)
                w.check(gen.diff(seen[-1], gen.snapshot(h)) is None, "modified", f"{what}: the Hamiltonian was changed")
            w.probe("family")
        elif k in ("hdf5", "txt"):
            if gen.component(h, "exchange_factor") is None or not len(h.exchange):
                continue
            name = w.path(f"m{n}.{k}")
            (dump_spinham_hdf5 if k == "hdf5" else dump_spinham_txt)(h, filename=name)
            if k == "hdf5":
                got = load_spinham(name)
                gen.same(w, got, h, "loaded", what, tol={"cone_axis": 1e-15}, order=False)
                same_vectors(w, got, vectors(h), what + ", loaded")
        else:
            want_v, want_q, want_p = vectors(h), absolute_q(h), physics(h, sc)
            objects = []
            if want_p is not None and want_p[0].ok and want_p[1].ok:
                s, axis, q = ops.directions(h, sc["seed"])
                e, d = Energy(h), MagnonDispersion(h)
                values = [lambda e=e, s=s, axis=axis, q=q: ops.hexes([e.ferro(s), e.spiral(s, axis, q)]), lambda d=d: ops.hexes(d.h(sc["k"]))]
                objects = [(f, f()) for f in values]
                # the same objects, not used before the transformation
                e, d = Energy(h), MagnonDispersion(h)
                objects += [(lambda e=e, s=s, axis=axis, q=q: ops.hexes([e.ferro(s), e.spiral(s, axis, q)]), objects[0][1]),
                            (lambda d=d: ops.hexes(d.h(sc["k"])), objects[1][1])]
            crystal = h.crystal
            twin = h.copy()
            twin_seen = gen.snapshot(twin)
            if k != "crystal" and len(h.atoms):  # a transformation of a copy
                other, seen = h.copy(), gen.snapshot(h)
                outcome({"standardize": other.standardize, "shift": other.shift_atoms}.get(k, other.cure_negative))
                w.check(gen.diff(seen, gen.snapshot(h)) is None, "modified", f"{what} of a copy changed the Hamiltonian")
            if k == "crystal":  # the crystal handed out can be transformed alone
                before = gen.snapshot(h)
                if len(crystal.atoms):
                    outcome(crystal.standardize)
                    crystal.shift_atoms()
                w.check(gen.diff(before, gen.snapshot(h)) is None, "modified", f"{what}: transformation of the crystal changed the Hamiltonian")
                continue
            if not len(h.atoms):
                continue
            if k == "standardize":
                before = [[a.name, gen._hex(a.position)] for a in crystal.atoms], gen._hex(crystal.cell)
                snap = gen.snapshot(h)
                o = outcome(lambda: transform(w, run, what, h.standardize))
                if not o.ok:  # wulfric does not know how to standardise some cells
                    w.check(o.name() == "StandardizationTypeMismatch", "failed", f"{what} raised {o.name()}")
                    w.probe("not standardised")
                    w.check(gen.diff(snap, gen.snapshot(h)) is None, "modified", f"{what} failed and changed the Hamiltonian")
                    continue
                shift = o.value
                w.check(np.allclose(shift, 0, rtol=0, atol=1e-7), "positions", f"{what}: atoms are moved by {shift.tolist()}")
                after = [[a.name, gen._hex(a.position)] for a in crystal.atoms], gen._hex(crystal.cell)
                w.check(before == after, "modified", f"{what}: the crystal handed out before was changed")
            elif k == "shift":
                point = np.array(step[1])
                if step[2] == "default":
                    transform(w, run, what, h.shift_atoms)
                    point = np.array([0.5, 0.5, 0.5])
                elif step[2] == "relative":
                    transform(w, run, what, lambda: h.shift_atoms(gravity_point=tuple(step[1])))
                else:
                    transform(w, run, what, lambda: h.shift_atoms(gravity_point=list(point @ h.cell), relative=False))
                x = np.array([a.position for a in h.atoms])
                w.check(np.allclose((x.min(axis=0) + x.max(axis=0)) / 2, point, rtol=0, atol=1e-7), "positions",
                        f"{what}: atoms are not around {point.tolist()}")
            else:
                transform(w, run, what, h.cure_negative)
                w.check(all(np.min(a.position) > -1e-9 for a in h.atoms), "positions", f"{what}: negative coordinates")
            w.probe(k)
            w.check(gen.diff(twin_seen, gen.snapshot(twin)) is None, "modified", f"{what} changed a copy that was made before")
            same_vectors(w, h, want_v, what)
            new_q = absolute_q(h)
            w.check((new_q is None) == (want_q is None) and (new_q is None or np.allclose(new_q, want_q, rtol=0, atol=1e-8)), "spiral",
                    f"{what}: absolute spiral vector is {new_q}, was {want_q}")
            same_physics(w, physics(h, sc), want_p, what)
            for f, v in objects:
                w.check(f() == v, "followed", f"{what}: an energy or dispersion created before gives other values")
            held += objects
            acted += len(h.exchange) > 0
        history.compare(w, run.h, run.ref, what)
        w.state(sc["lattice"], gen.snapshot(run.h)["cell"])
    for f, v in held:
        w.check(f() == v, "followed", "an energy or dispersion created before a transformation gives other values")
    run.check_left_behind()
    run.check_given()
    # ---- copies are transformed in threads
    if sc["threads"] and len(run.h.atoms):
        h = run.h
        before = gen.snapshot(h)

        def work():
            x = h.copy()

            def go():
                x.standardize()
                x.shift_atoms()
                return gen.snapshot(x)
            return go

        jobs = [(work(), work()) for _ in range(sc["threads"])]
        alone, together = w.interleave([a for a, _ in jobs], [b for _, b in jobs], [[at, t % sc["threads"]] for at, t in sc["switches"]])
        for x, y in zip(alone, together):
            w.check(x.name() == y.name(), "threads", f"transformation of a copy: {x.name()} alone, {y.name()} in threads")
            if not x.ok:
                continue
            d = gen.diff(x.value, y.value)
            w.check(d is None, "threads", f"transformation of a copy in threads gives another result: {d}")
        w.check(gen.diff(before, gen.snapshot(h)) is None, "modified", "transformations of copies changed the Hamiltonian")
    w.log(gen.snapshot(run.h))
    w.nontrivial = acted > 0
