"""P05: whatever is derived from a Hamiltonian is an independent snapshot."""

import os

import numpy as np
from wulfric import Atom

from magnopy import Energy, MagnonDispersion, SpinHamiltonian, dump_spinham_hdf5, dump_spinham_txt, load_spinham
from sim import gen, history, ops
from sim.engine import Violation, outcome

PROPERTY = "P05"
RUNS = {"quick": 1400, "thorough": 40000}
SHRINK = ["ops", "ham.bonds", "ham.onsite"]
RULE = (
    "one run = a family of Hamiltonians, energies, dispersions, crystals and loaded files derived from each other at "
    "seeded moments of a history of edits, changed settings, interrupted derivations and changed files; after every "
    "step everything that was not the target of the step is compared bit by bit with what it was; non-trivial: "
    "something was edited while another member of the family was alive"
)
DERIVE = ["copy", "copy", "filtered", "energy", "energy", "dispersion", "dispersion", "crystal", "txt", "hdf5"]

BUILT = ["exchange", "on-site", "add", "remove", "spin", "position", "shift", "cure", "standardize", "cell"]


def generate(rng, tier):
    ham = gen.gen_ham(rng, far=True, natoms=(1, 4), nbonds=(1, 7), notation="any", onsite=0.7, digits=4)
    out = []
    for _ in range(rng.randint(3, 14)):
        r = rng.random()
        if r < 0.38:
            op = ["derive", rng.choice(DERIVE), rng.randrange(100), rng.randrange(1 << 20), None]
            if rng.random() < 0.2:
                op[4] = {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"])}
        elif r < 0.64:
            op = ["edit", rng.randrange(100), history.gen_ops(rng, 1, weights={"filtered": 0, "copy": 0})[0]]
        elif r < 0.74:
            op = ["atom", rng.randrange(100), rng.randrange(100), rng.choice(["spin", "position", "g", "cell"]), rng.randrange(1 << 20)]
        elif r < 0.88:
            op = ["setting", rng.randrange(100), rng.choice(["field", "spins", "g", "m", "c1", "optimize"]), rng.randrange(1 << 20)]
        elif r < 0.93:
            op = ["crystal", rng.randrange(100), rng.choice(["atom", "remove", "spin", "move"]), rng.randrange(1 << 20)]
        elif r < 0.95:
            op = ["files", rng.randrange(2)]
        elif r < 0.975:
            op = ["build", rng.randrange(100), rng.choice([None, "tb2j", "spinw", [True, False, 0.5, 2.0]])]
        else:
            op = ["built", rng.randrange(100), rng.choice(BUILT), rng.randrange(1 << 20)]
        out.append(op)
    if rng.random() < 0.25:  # Hamiltonians that are built from one crystal
        out.insert(rng.randint(0, len(out)), ["derive", "crystal", rng.randrange(100), 0, None])
        for _ in range(rng.randint(1, 3)):
            out.append(["build", rng.randrange(100), rng.choice([None, "tb2j", "spinw", [True, False, 0.5, 2.0]])])
        out += [rng.choice([["built", rng.randrange(100), rng.choice(BUILT), rng.randrange(1 << 20)],
                            ["crystal", rng.randrange(100), rng.choice(["atom", "remove", "spin", "move"]), rng.randrange(1 << 20)]])
                for _ in range(rng.randint(1, 4))]
    return {"ham": ham, "ops": out, "config": rng.randrange(1 << 20)}


class Member:
    def __init__(self, kind, obj, run=None):
        self.kind = kind
        self.obj = obj
        self.run = run  # history of the Hamiltonian
        self.seen = None

    def view(self, seed):
        o = self.obj
        if self.kind == "ham":
            return gen.snapshot(o)
        if self.kind == "energy":
            n = len(o.spins)
            if n == 0:
                return {"none": 0}
            rs = np.random.RandomState(seed % (1 << 31))
            s, ax, q = rs.normal(size=(n, 3)), rs.normal(size=3), rs.normal(size=3)
            given = [s.copy(), ax.copy(), q.copy()]
            v = [o.ferro(s), o.spiral(s, ax, q), o.antiferro(s, ax, q)]
            if not all(np.array_equal(a, b) for a, b in zip(given, [s, ax, q])):
                raise Violation("argument", "calculation of the energy changed the arrays of the caller")
            f = o.magnetic_field
            return {
                "values": ops.hexes(v), "spins": ops.hexes(o.spins), "g": ops.hexes(o.g_factors), "m": o.m,
                "c1": o.wolfe_c1, "c2": o.wolfe_c2, "field": None if f is None else ops.hexes(f),
            }
        if self.kind == "dispersion":
            rs = np.random.RandomState(seed % (1 << 31))
            k = rs.normal(size=3)
            k0 = k.copy()
            v = {"h": ops.hexes(o.h(k)), "J": ops.hexes(o.J(k)), "omega": ops.hexes(o.omega(k)), "C": ops.hexes(o.C()),
                 "A": ops.hexes(o.A(k)), "B": ops.hexes(o.B(k))}
            many = ops.hexes(o.omegas([k, k / 2]))
            v["omegas"] = many
            if not np.array_equal(k, k0):
                raise Violation("argument", "calculation of the dispersion changed the array of the caller")
            return v
        return {
            "cell": ops.hexes(o.cell),
            "atoms": [[a.name, ops.hexes(a.position), ops.hexes(a.spin_vector), float(a.g_factor).hex()] for a in o.atoms],
        }


def execute(sc, w):
    run = history.Run(w, sc["ham"])
    seed = sc["config"]
    family = [Member("ham", run.h, run)]
    files = []
    sleepers = []  # objects that are used for the first time at the end, and their twins' first results
    edits = 0

    def settle(target, what):
        for m in family:
            now = m.view(seed)
            if m.seen is not None and m is not target:
                d = gen.diff(m.seen, now)
                if d is not None:
                    raise Violation("shared", f"{what} changed another object ({m.kind}): {d}")
            m.seen = now

    settle(None, "construction")
    for n, op in enumerate(sc["ops"]):
        hams = [m for m in family if m.kind == "ham"]
        k = op[0]
        target = None
        what = str(op[:4])
        if k == "derive":
            _, kind, i, x, spec = op
            src = hams[i % len(hams)]
            h = src.obj
            if kind in ("energy", "dispersion") and (outcome(lambda: h.notation).exc is not None or h.I == 0):
                continue
            box = []
            ref = src.run.ref.copy()
            if kind == "copy":
                fn = lambda: h.copy()
            elif kind == "filtered":
                d = 2.0 + x % 9
                if any(abs(gen.distance(h, a, b, R) - d) < 1e-6 for a, b, R, _ in h.exchange):
                    continue
                fn = lambda: h.filtered(max_distance=d)
            elif kind == "energy":
                fn = lambda: Energy(h)
            elif kind == "dispersion":
                fn = lambda: MagnonDispersion(h)
            elif kind == "crystal":
                fn = lambda: h.crystal
            else:
                path = w.path(f"{n}.{kind}")

                def fn():
                    if kind == "txt":
                        dump_spinham_txt(h, filename=path)
                    else:
                        dump_spinham_hdf5(h, filename=path, overwrite=True)
                    return load_spinham(path)

            if spec is not None:
                w.interrupt(fn, spec)
                settle(None, f"interrupted {kind}")
            out = outcome(fn)
            if not out.ok:
                if kind in ("txt", "hdf5"):  # names and notations that can not be saved
                    continue
                raise out.exc
            new = out.value
            if kind in ("copy", "filtered"):
                sub = history.Run.__new__(history.Run)
                sub.w, sub.h, sub.ref, sub.spare, sub.given, sub.older = w, new, ref, 100 * (n + 1), [], []
                if kind == "copy":
                    history.compare(w, new, ref, "copy")
                    d = gen.diff(gen.snapshot(h), gen.snapshot(new))
                    w.check(d is None, "copy-differs", f"the copy is different: {d}")
                    sleepers.append([Member("ham", fn()), gen.snapshot(new)])
                else:
                    drop = {}
                    for a, b, R, _ in h.exchange:
                        key, _ = gen.canonical(a.name, b.name, R)
                        if gen.distance(h, a, b, R) > d:
                            drop[key] = 1
                    for key in drop:
                        ref.pairs.pop(key, None)
                    history.compare(w, new, ref, "filtered copy")
                family.append(Member("ham", new, sub))
            elif kind in ("txt", "hdf5"):
                files.append(path)
                sleepers.append([Member("ham", load_spinham(path)), gen.snapshot(new)])
                m = Member("crystal", new)  # compared by cell and atoms ...
                family.append(m)
                m2 = Member("loaded", new)
                m2.view = lambda s, o=new: gen.snapshot(o)  # ... and as a whole
                family.append(m2)
            else:
                family.append(Member({"energy": "energy", "dispersion": "dispersion", "crystal": "crystal"}[kind], new))
                if kind != "crystal":
                    sleepers.append([Member(kind, fn()), Member(kind, new).view(seed)])
            w.probe("derive:" + kind)
        elif k == "edit":
            target = hams[op[1] % len(hams)]
            if target.run.apply(op[2]):
                edits += 1
                history.compare(w, target.obj, target.run.ref, f"edit {op[2][:3]}")
                w.probe("edit")
        elif k == "atom":
            _, i, j, what_, x = op
            target = hams[i % len(hams)]
            h = target.obj
            if not h.atoms:
                continue
            a = h.atoms[j % len(h.atoms)]
            rs = np.random.RandomState(x)
            if what_ == "cell":
                h.cell = np.diag(rs.uniform(3, 8, size=3))
            elif what_ == "spin":
                v = rs.uniform(0.5, 2, size=3)
                a.spin_vector = v
                target.run.ref.spins[a.name] = float(np.linalg.norm(v))
            elif what_ == "position":
                a.position = rs.uniform(size=3)
            else:
                a.g_factor = float(rs.uniform(1, 3))
            edits += 1
            w.probe("atom:" + what_)
        elif k == "setting":
            es = [m for m in family if m.kind == "energy"]
            if not es:
                continue
            target = es[op[1] % len(es)]
            e, x = target.obj, op[3]
            rs = np.random.RandomState(x)
            N = len(e.spins)
            what_ = op[2]
            arr = None
            if what_ == "field":
                arr = rs.normal(size=3)
                e.magnetic_field = arr
            elif what_ == "spins":
                arr = rs.uniform(0.5, 2, size=N)
                e.spins = arr
            elif what_ == "g":
                arr = rs.uniform(1, 3, size=N)
                e.g_factors = arr
            elif what_ == "m":
                e.m = 1 + x % 9
            elif what_ == "c1":
                e.wolfe_c1 = 0.001
            else:
                # the minimisation is a query: settings and energies stay
                target = None
                if hasattr(e, "_wolfe_iter_max"):
                    e._wolfe_iter_max = ops.WOLFE_LIMIT
                case = ["ferro", "antiferro", "spiral"][x % 3]
                s, ax, q = rs.normal(size=(N, 3)), rs.normal(size=3), rs.normal(size=3)
                guess = {"ferro": s, "antiferro": (s, ax), "spiral": (s, ax, q)}[case]
                kept = [s.copy(), ax.copy(), q.copy()]
                outcome(lambda: e.optimize(case, initial_guess=guess, antiferro_q=q, max_iterations=1))
                if not all(np.array_equal(a, b) for a, b in zip(kept, [s, ax, q])):
                    raise Violation("argument", f"minimisation ({case}) changed the initial guess of the caller")
            if arr is not None:
                now = target.view(seed)
                arr[:] = 77.0
                d = gen.diff(now, target.view(seed))
                w.check(d is None, "argument", f"{what_} of the energy follows the array of the caller: {d}")
            edits += 1
            w.probe("setting:" + what_)
        elif k == "crystal":
            cs = [m for m in family if m.kind == "crystal" and m.obj.__class__.__name__ == "Crystal"]
            if not cs:
                continue
            target = cs[op[1] % len(cs)]
            c, x = target.obj, op[3]
            if op[2] == "remove" and len(c.atoms):
                c.remove_atom(c.atoms[x % len(c.atoms)])
            elif op[2] == "spin" and len(c.atoms):
                c.atoms[x % len(c.atoms)].spin_vector = (1.0, 2.0, 3.0)
            elif op[2] == "move" and len(c.atoms):
                c.shift_atoms(gravity_point=(0.1, 0.2, 0.3))
                outcome(c.standardize)
            else:
                c.add_atom(Atom(f"Q{n}", (0.9, 0.8, 0.7), spin=(0, 0, 1)))
            edits += 1
            w.probe("crystal:" + op[2])
        elif k == "build":
            cs = [m for m in family if m.kind == "crystal" and m.obj.__class__.__name__ == "Crystal"]
            if not cs:
                continue
            c = cs[op[1] % len(cs)].obj
            new = SpinHamiltonian(c, notation=op[2])
            d = gen.diff(cs[op[1] % len(cs)].view(seed), Member("crystal", new).view(seed))
            w.check(d is None, "built-differs", f"a Hamiltonian built from a crystal has other atoms or cell: {d}")
            m = Member("built", new)
            m.view = lambda s, o=new: gen.snapshot(o)
            family.append(m)
            w.probe("build")
        elif k == "built":
            bs = [m for m in family if m.kind == "built"]
            if not bs:
                continue
            target = bs[op[1] % len(bs)]
            h, act, x = target.obj, op[2], op[3]
            if not h.atoms:
                continue
            a, b = h.atoms[x % len(h.atoms)], h.atoms[x // 7 % len(h.atoms)]
            outcome({
                "exchange": lambda: h.add_exchange(a.name, b.name, (x % 3, 1, 0), iso=1.0 + x % 5),
                "on-site": lambda: h.add_on_site(a, iso=1.0),
                "add": lambda: h.add_atom(Atom(f"B{n}", (0.1, 0.7, 0.2), spin=1.0)),
                "remove": lambda: h.remove_atom(a),
                "spin": lambda: setattr(a, "spin_vector", (0.5, x % 3, 1.0)),
                "position": lambda: setattr(a, "position", (0.25, x % 5 / 5, 0.75)),
                "shift": lambda: h.shift_atoms(gravity_point=(0.3, 0.2, x % 4 / 4)),
                "cure": lambda: h.cure_negative(),
                "standardize": lambda: h.standardize(),
                "cell": lambda: setattr(h, "cell", np.diag([4.0, 5.0, 6.0 + x % 3])),
            }[act])
            edits += 1
            w.probe("built:" + act)
        elif k == "files":
            for p in files:
                if op[1]:
                    os.unlink(p)
                else:
                    with open(p, "w") as f:
                        f.write("something else\n")
            files.clear()
            w.probe("files")
        settle(target, what)
        w.log(n, what)
    for m, want in sleepers:
        d = gen.diff(want, m.view(seed))
        w.check(d is None, "shared", f"{m.kind} that is used for the first time after edits of other objects gives other results: {d}")
    w.state([m.kind for m in family])
    for m in family:
        w.log(m.seen)
        if m.kind == "ham":
            m.run.check_given()
    w.nontrivial = edits > 0 and len(family) > 1
