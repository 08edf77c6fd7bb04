"""P01: notation changes never change the physics."""

import numpy as np

from sim import gen, history
from sim.engine import Violation, outcome

from magnopy import Energy, MagnonDispersion, MatrixParameter, SpinHamiltonian
from magnopy.exceptions import NotationError

PROPERTY = "P01"
RUNS = {"quick": 2400, "thorough": 60000}
SHRINK = ["ops", "ham.bonds", "ham.onsite", "shared", "interrupts"]
RULE = (
    "one run = one Hamiltonian (some parameter objects shared by several bonds, by a second Hamiltonian and kept by "
    "the caller) and a seeded history of whole and component-wise notation changes mixed with interrupted reads; "
    "after every change the notation-free couplings, the energies of fixed spin configurations and the k-space "
    "matrices are compared with those of the beginning; non-trivial: at least two components really changed"
)


KINDS = ["notation", "dc", "sn", "xf", "of", "add", "rewrite", "rm", "on", "off", "filter", "filtered", "rmatom", "newatom", "addatom",
         "copy", "addmirror", "cone", "spiral"]


def generate(rng, tier):
    ham = gen.gen_ham(rng, far=True, natoms=(1, 5), nbonds=(1, 10), notation=rng.choice(["any", "any", None]), onsite=0.7)
    n = rng.randint(1, 14)
    return {
        "ham": ham,
        # bond number -> bond number whose parameter object it shares
        "shared": [[rng.randrange(10), rng.randrange(10)] for _ in range(rng.choice([0, 0, 1, 3]))],
        "ops": history.gen_ops(
            rng, n, weights={k: 0 for k in ("add", "rewrite", "rm", "on", "off", "filter", "filtered", "rmatom",
                                            "newatom", "addatom", "addmirror", "cone", "spiral", "twin")}
        ),
        "twin": history.gen_ops(rng, rng.choice([0, 0, 1, 2]), {k: 0 for k in KINDS}),
        "first": rng.sample(["dc", "sn", "xf", "of"], 4),
        "values": [rng.random() < 0.5, rng.random() < 0.5, rng.choice(gen.FACTORS), rng.choice(gen.FACTORS)],
        "config": rng.randrange(1 << 30),
        "interrupts": [
            {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"]),
             "what": rng.choice(["energy", "dispersion", "copy"])}
            for _ in range(rng.choice([0, 0, 1]))
        ],
    }


def observables(h, seed):
    """Energies of fixed configurations and k-space matrices."""
    rs = np.random.RandomState(seed % (1 << 31))
    e = Energy(h)
    out = []
    n = h.I
    for _ in range(2):
        s = rs.normal(size=(n, 3))
        out.append(e.ferro(s))
    ax, q = rs.normal(size=3), rs.normal(size=3)
    out.append(e.spiral(s, ax, q))
    out.append(e.antiferro(s, ax, q))
    e.magnetic_field = [0.3, -1.0, 2.0]
    out.append(e.ferro(s))
    d = MagnonDispersion(h)
    return np.array(out), d.h(rs.normal(size=3))


def near(a, b, what, w):
    a, b = np.asarray(a), np.asarray(b)
    scale = np.max(np.abs(b)) + 1e-9
    if a.shape != b.shape or not np.all(np.abs(a - b) <= 1e-8 * scale):
        raise Violation("observable", f"{what}: was {b.tolist()}, is {a.tolist()}")


def stored(h):
    return {(a.name, b.name, tuple(R)): p.matrix.copy() for a, b, R, p in h.exchange}


def execute(sc, w):
    spec = sc["ham"]
    run = history.Run(w, dict(spec, notation=None, bonds=[], onsite=[]))
    h, ref = run.h, run.ref
    if not h.atoms:
        return
    if spec["notation"] is not None and not spec["late_notation"]:
        run.set_notation(spec["notation"])
    # parameter objects of the caller, some of them used more than once
    second = SpinHamiltonian(cell=spec["cell"], notation="magnopy")
    objs = []
    for n, (i, j, R, m) in enumerate(spec["bonds"]):
        src = next((b for a, b in sc["shared"] if a == n and b < n), None)
        if src is not None and src < len(objs):
            p, m = objs[src]
            w.probe("shared-object")
        else:
            p = MatrixParameter(matrix=m)
        objs.append((p, m))
        run.given.append((p, np.array(m)))
        if i >= len(h.atoms) or j >= len(h.atoms) or not run.free_pair(h.atoms[i], h.atoms[j], R):
            continue
        h.add_exchange(h.atoms[i], h.atoms[j], tuple(R), p)
        ref.add(h.atoms[i].name, h.atoms[j].name, R, m)
        second.add_exchange(h.atoms[i], h.atoms[j], tuple(R), p)
    for i, m in spec["onsite"]:
        if i < len(h.atoms):
            p = MatrixParameter(matrix=m)
            run.given.append((p, np.array(m)))
            h.add_on_site(h.atoms[i], p)
            second.add_on_site(h.atoms[i], p)
            ref.on[h.atoms[i].name] = np.array(m)
    if spec["notation"] is not None and spec["late_notation"]:
        run.set_notation(spec["notation"])
    for op in sc.get("twin", []):
        run.apply(op)
    second_before = gen.snapshot(second)

    # undefined components are reported, the first assignment only labels the values
    if spec["notation"] is None:
        for c in history.COMPONENTS + ("notation",):
            try:
                v = getattr(h, c)
                raise Violation("undefined", f"{c} is not defined, but reads {v}")
            except NotationError:
                pass
        before = stored(h)
        before_on = {a.name: p.matrix.copy() for a, p in h.on_site}
        for k in sc["first"]:
            run.apply([k, sc["values"][["dc", "sn", "xf", "of"].index(k)]])
            now = stored(h)
            for key, m in now.items():
                old = before.get(key)
                if old is None:
                    mk = (key[1], key[0], tuple(-x for x in key[2]))
                    old = before[mk].T if mk in before else None
                if old is None or not np.array_equal(old, m):
                    raise Violation("first-assignment", f"first definition of {k} changed bond {key}: {old} -> {m.tolist()}")
            for a, p in h.on_site:
                if not np.array_equal(before_on[a.name], p.matrix):
                    raise Violation("first-assignment", f"first definition of {k} changed the on-site term of {a.name}")
        w.probe("first-assignment")

    history.compare(w, run.h, run.ref, "the construction")
    phys = gen.physics(h)
    if not phys:
        return
    obs, hk = observables(h, sc["config"])
    # the energy is the sum over the couplings
    rs = np.random.RandomState(sc["config"] % (1 << 31))
    mags = h.magnetic_atoms
    for n in range(2):
        s = rs.normal(size=(len(mags), 3))
        d = {a.name: s[i] / np.linalg.norm(s[i]) for i, a in enumerate(mags)}
        want = gen.reference_energy(phys, {a.name: a.spin for a in mags}, d)
        near(obs[n], want, "energy against the sum over the couplings", w)
    changed = 0
    for n, op in enumerate(sc["ops"]):
        for it in sc["interrupts"]:
            fn = {
                "energy": lambda: Energy(run.h),
                "dispersion": lambda: MagnonDispersion(run.h).omega([0.1, 0.2, 0.3]),
                "copy": lambda: run.h.copy(),
            }[it["what"]]
            w.interrupt(fn, it)
        before = dict(run.ref.notation)
        if not run.apply(op):
            continue
        changed += sum(before[c] != run.ref.notation[c] for c in before)
        w.log(n, op)
        w.probe(op[0])
        w.state([sorted((k, v) for k, v in run.ref.notation.items()), len(phys)])
        gen.compare_physics(w, gen.physics(run.h), phys, "couplings", f"notation change {op}")
        history.compare(w, run.h, run.ref, f"notation change {op}")
        if n % 3 == 0 or n == len(sc["ops"]) - 1:
            o2, hk2 = observables(run.h, sc["config"])
            near(o2, obs, f"energies after {op}", w)
            near(hk2, hk, f"k-space matrix after {op}", w)
    run.check_given()
    run.check_left_behind()
    d = gen.diff(second_before, gen.snapshot(second))
    if d is not None:
        raise Violation("other-hamiltonian", f"another Hamiltonian with the same parameters was changed: {d}")
    w.log(gen.snapshot(run.h))
    w.nontrivial = changed >= 2
