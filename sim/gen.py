"""Hamiltonians for the workloads: description (JSON), construction, snapshots, reference."""

import itertools
import math

import numpy as np
from wulfric import Atom

from magnopy import MatrixParameter, SpinHamiltonian
from magnopy.exceptions import NotationError

from .engine import Violation

NAMES = [
    "Cr1", "Cr2", "Cr10", "Fe", "Fe1", "Fe2", "Mn", "Mn3", "Ni", "Co", "Br", "I1", "Dy", "Sm1",
    "Ex1", "On2", "Mt", "X", "Tb", "Gd_a", "Gd_b", "O", "u1", "u2", "d1", "s1", "n1", "e1",
    "Cr_upper", "Cr_upper_layer", "Mn123456", "Fe_sublattice_1", "Fe_sublattice_2",
]
PREDEFINED = {
    "magnopy": (True, False, 0.5, 1.0),
    "tb2j": (True, True, -1.0, -1.0),
    "spinw": (True, False, 1.0, 1.0),
    "vampire": (True, True, -0.5, -1.0),
}
FACTORS = [0.5, 1.0, -1.0, -0.5, 2.0, -2.0, 0.25, 3.0, -0.3, 1 / 3, -0.70710678118, 12.3456789]


# ------------------------------------------------------------------ generation
def num(rng, scale=5.0, digits=None):
    x = rng.uniform(-scale, scale)
    return round(x, digits) if digits is not None else x


def gen_matrix(rng, digits=None):
    kind = rng.random()
    m = [[0.0] * 3 for _ in range(3)]
    if kind < 0.25:
        v = num(rng, 5, digits)
        for i in range(3):
            m[i][i] = v
    elif kind < 0.5:
        for i in range(3):
            for j in range(i, 3):
                m[i][j] = m[j][i] = num(rng, 5, digits)
    else:
        for i in range(3):
            for j in range(3):
                m[i][j] = num(rng, 5, digits)
    return m


def gen_symmetric(rng, digits=None):
    m = [[0.0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(i, 3):
            m[i][j] = m[j][i] = num(rng, 2, digits)
    return m


def gen_cell(rng, digits=None):
    kind = rng.random()
    a = rng.uniform(2, 9)
    if kind < 0.2:
        cell = [[a, 0, 0], [0, a, 0], [0, 0, a]]
    elif kind < 0.4:
        cell = [[a, 0, 0], [0, rng.uniform(2, 9), 0], [0, 0, rng.uniform(2, 9)]]
    else:
        cell = [
            [a, num(rng, 0.6), num(rng, 0.6)],
            [num(rng, 0.6), rng.uniform(2, 9), num(rng, 0.6)],
            [num(rng, 0.6), num(rng, 0.6), rng.uniform(2, 12)],
        ]
    return [[round(x, digits) if digits is not None else float(x) for x in row] for row in cell]


def gen_notation(rng):
    if rng.random() < 0.4:
        return rng.choice(sorted(PREDEFINED))
    return [rng.random() < 0.5, rng.random() < 0.5, rng.choice(FACTORS), rng.choice(FACTORS)]


def canonical(n1, n2, R):
    """Canonical orientation of the bond: (key, whether it is flipped)."""
    R = tuple(int(x) for x in R)
    a = (n1, n2, R)
    b = (n2, n1, tuple(-x for x in R))
    return (a, False) if a <= b else (b, True)


def gen_ham(
    rng,
    natoms=(1, 4),
    nbonds=(0, 8),
    notation="any",
    digits=None,
    onsite=0.6,
    extra_atoms=True,
    ground=True,
    names=None,
    spin_angles=False,
    reach=2,
    far=False,
):
    """Description of a Hamiltonian."""
    n = rng.randint(*natoms)
    names = rng.sample(names or NAMES, n)
    d8 = 8 if digits is not None else None
    d4 = 4 if digits is not None else None
    atoms = []
    for name in names:
        s = [num(rng, 3, d4) for _ in range(3)]
        style = rng.random()
        if style < 0.2:
            s = [0.0, 0.0, round(rng.uniform(0.5, 3), 1)]
        elif style < 0.3:
            s = [0.0, 0.0, -round(rng.uniform(0.5, 3), 1)]
        elif style < 0.4:
            s = [round(rng.uniform(0.5, 3), 1), 0.0, 0.0]
        elif style < 0.5:
            # almost along the axis
            t = 10.0 ** rng.uniform(-4, -1.5)
            s = [round(num(rng, t), 4), round(num(rng, t), 4), rng.choice([-1, 1]) * round(rng.uniform(0.5, 3), 1)]
        if math.sqrt(sum(x * x for x in s)) < 0.3:
            s = [0.0, 1.0, 0.0]
        pos = [round(rng.uniform(0, 1), 8 if d8 else 12) for _ in range(3)]
        if rng.random() < 0.2:
            pos = [rng.choice([0.0, 0.5, 0.25, 1.0 / 3]) for _ in range(3)]
            if digits is not None:
                pos = [round(x, 8) for x in pos]
        atoms.append(
            {
                "name": name,
                "pos": pos,
                "spin": s,
                "g": round(rng.uniform(1.5, 2.5), 4) if rng.random() < 0.5 else 2.0,
                "charge": None if rng.random() < 0.6 else round(rng.uniform(-3, 3), 2),
            }
        )
    active = n if (n == 1 or rng.random() < 0.7 or not extra_atoms) else rng.randint(1, n)
    bonds, seen = [], set()
    for _ in range(rng.randint(*nbonds)):
        i, j = rng.randrange(active), rng.randrange(active)
        R = [rng.randint(-reach, reach) for _ in range(3)]
        if rng.random() < 0.3:
            R = [0, 0, 0]
        elif far and rng.random() < 0.04:
            R[rng.randrange(3)] = rng.choice([-1, 1]) * rng.choice([9, 10, 12, 99, 100, 128, 150, 1000, 40000])
        if i == j and R == [0, 0, 0]:
            continue
        key, _ = canonical(names[i], names[j], R)
        if key in seen:
            continue
        seen.add(key)
        bonds.append([i, j, R, gen_matrix(rng, digits)])
    on = []
    if rng.random() < onsite:
        order = list(range(active))
        rng.shuffle(order)
        for i in order:
            if rng.random() < 0.7:
                on.append([i, gen_symmetric(rng, digits)])
    if notation == "any":
        notation = gen_notation(rng)
    cone = spiral = None
    if ground and rng.random() < 0.5:
        cone = [num(rng, 1) for _ in range(3)]
        if rng.random() < 0.3:
            cone = rng.choice([[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 1.0]])
        if math.sqrt(sum(x * x for x in cone)) < 0.1:
            cone = [0.0, 0.0, 1.0]
    if ground and rng.random() < 0.5:
        spiral = [round(rng.uniform(-1, 1), 8 if d8 else 15) for _ in range(3)]
        if rng.random() < 0.3:
            spiral = [rng.choice([0.0, 0.0, 0.5, -0.5, 1.0, 0.25]) for _ in range(3)]
        elif rng.random() < 0.2:
            spiral = [0.0, 0.0, 0.0]
    return {
        "cell": gen_cell(rng, d8),
        "atoms": atoms,
        "bonds": bonds,
        "onsite": on,
        "notation": notation,
        "cone": cone,
        "spiral": spiral,
        "late_notation": rng.random() < 0.3,
    }


def build(spec):
    """SpinHamiltonian of the description, through the public interface."""
    h = SpinHamiltonian(cell=spec["cell"])
    notation = spec["notation"]
    late = spec.get("late_notation") and notation is not None
    if notation is not None and not late:
        h.notation = notation if isinstance(notation, str) else tuple(notation)
    atoms = []
    for a in spec["atoms"]:
        kw = {}
        if a.get("charge") is not None:
            kw["charge"] = a["charge"]
        atom = Atom(a["name"], a["pos"], spin=a["spin"], g_factor=a["g"], **kw)
        h.add_atom(atom)
        atoms.append(atom)
    for i, j, R, m in spec["bonds"]:
        if i < len(atoms) and j < len(atoms):
            h.add_exchange(atoms[i], atoms[j], tuple(R), matrix=m)
    for i, m in spec["onsite"]:
        if i < len(atoms):
            h.add_on_site(atoms[i], matrix=m)
    if late:
        h.notation = notation if isinstance(notation, str) else tuple(notation)
    if spec["cone"] is not None:
        h.cone_axis = spec["cone"]
    if spec["spiral"] is not None:
        h.spiral_vector = spec["spiral"]
    return h


def notation_tuple(n):
    if isinstance(n, str):
        return PREDEFINED[n.lower()]
    if len(n) == 3:
        return (bool(n[0]), bool(n[1]), float(n[2]), float(n[2]))
    return (bool(n[0]), bool(n[1]), float(n[2]), float(n[3]))


# ------------------------------------------------------------------- snapshots
def _hex(x):
    return [float(v).hex() for v in np.asarray(x, dtype=float).ravel()]


def component(h, name):
    try:
        return getattr(h, name)
    except NotationError:
        return None


def snapshot(h):
    """Everything a user can read from the Hamiltonian, exactly."""

    def charge(a):
        try:
            return float(a.charge).hex()
        except ValueError:
            return None

    return {
        "cell": _hex(h.cell),
        "atoms": [
            [a.name, str(a.index), _hex(a.position), _hex(a.spin_vector), float(a.g_factor).hex(), charge(a)]
            for a in h.atoms
        ],
        "exchange": [
            [a.name, b.name, [int(x) for x in R], _hex(p.matrix)] for a, b, R, p in h.exchange
        ],
        "on_site": [[a.name, _hex(p.matrix)] for a, p in h.on_site],
        "notation": [
            component(h, c) if component(h, c) is None else float(component(h, c))
            for c in ("double_counting", "spin_normalized", "exchange_factor", "on_site_factor")
        ],
        "cone": None if h.cone_axis is None else _hex(h.cone_axis),
        "spiral": None if h.spiral_vector is None else _hex(h.spiral_vector),
        "magnetic": [a.name for a in h.magnetic_atoms],
    }


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            return f"{k}: {str(a[k])[:200]} became {str(b[k])[:200]}"
    return None


def unchanged(w, before, h, what):
    after = snapshot(h)
    d = diff(before, after)
    if d is not None:
        raise Violation("modified", f"{what} changed the Hamiltonian: {d}")


# ------------------------------------------------------------------ comparison
def close(a, b, tol=0.0, rtol=0.0):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol + rtol * np.maximum(np.abs(a), np.abs(b))))


def same(w, got, want, kind, what, tol=None, order=True, charges=True, notation=True):
    """Hamiltonian ``got`` describes the same as ``want``.

    ``tol``: None for exact equality, otherwise absolute tolerances
    {"cell", "pos", "spin", "g", "param", "cone", "spiral"}.
    """
    t = tol or {}

    def bad(msg):
        raise Violation(kind, f"{what}: {msg}")

    if not close(got.cell, want.cell, t.get("cell", 0)):
        bad(f"cell {got.cell.tolist()} instead of {want.cell.tolist()}")
    ga, wa = list(got.atoms), list(want.atoms)
    if [a.name for a in ga] != [a.name for a in wa]:
        bad(f"atoms {[a.name for a in ga]} instead of {[a.name for a in wa]}")
    for x, y in zip(ga, wa):
        if not close(x.position, y.position, t.get("pos", 0)):
            bad(f"position of {y.name}: {x.position} instead of {y.position}")
        if not close(x.spin_vector, y.spin_vector, t.get("spin", 0)):
            bad(f"spin of {y.name}: {x.spin_vector} instead of {y.spin_vector}")
        if not close(x.g_factor, y.g_factor, t.get("g", 0)):
            bad(f"g factor of {y.name}: {x.g_factor} instead of {y.g_factor}")
        if charges:
            cs = []
            for z in (x, y):
                try:
                    cs.append(float(z.charge))
                except ValueError:
                    cs.append(None)
            if cs[0] != cs[1]:
                bad(f"charge of {y.name}: {cs[0]} instead of {cs[1]}")
    ge = [(a.name, b.name, tuple(int(i) for i in R), p.matrix) for a, b, R, p in got.exchange]
    we = [(a.name, b.name, tuple(int(i) for i in R), p.matrix) for a, b, R, p in want.exchange]
    go = [(a.name, p.matrix) for a, p in got.on_site]
    wo = [(a.name, p.matrix) for a, p in want.on_site]
    if not order:
        ge.sort(key=lambda x: x[:3])
        we.sort(key=lambda x: x[:3])
        go.sort(key=lambda x: x[:1])
        wo.sort(key=lambda x: x[:1])
    if [x[:3] for x in ge] != [x[:3] for x in we]:
        bad(f"bonds {[x[:3] for x in ge][:12]} instead of {[x[:3] for x in we][:12]}")
    for x, y in zip(ge, we):
        if not close(x[3], y[3], t.get("param", 0)):
            bad(f"bond {y[:3]}: {x[3].tolist()} instead of {y[3].tolist()}")
    if [x[0] for x in go] != [x[0] for x in wo]:
        bad(f"on-site terms of {[x[0] for x in go]} instead of {[x[0] for x in wo]}")
    for x, y in zip(go, wo):
        if not close(x[1], y[1], t.get("onsite", t.get("param", 0))):
            bad(f"on-site {y[0]}: {x[1].tolist()} instead of {y[1].tolist()}")
    if notation:
        need = []
        if len(we) or len(wo):
            need.append("spin_normalized")
        if len(we):
            need += ["double_counting", "exchange_factor"]
        if len(wo):
            need.append("on_site_factor")
        for c in need:
            if component(got, c) != component(want, c):
                bad(f"{c} is {component(got, c)} instead of {component(want, c)}")
    for c in ("cone_axis", "spiral_vector"):
        x, y = getattr(got, c), getattr(want, c)
        if (x is None) != (y is None) or (x is not None and not close(x, y, t.get(c, 0))):
            bad(f"{c} is {x} instead of {y}")


# --------------------------------------------------------------------- physics
def physics(h):
    """Notation-free couplings: {bond or atom: matrix between the spin vectors}."""
    dc, sn = h.double_counting, h.spin_normalized
    out = {}
    for a, b, R, p in h.exchange:
        key, flip = canonical(a.name, b.name, R)
        m = p.matrix.T if flip else p.matrix
        m = m * h.exchange_factor
        if sn:
            m = m / (a.spin * b.spin)
        out[key] = out.get(key, 0) + m
    for a, p in h.on_site:
        m = p.matrix * h.on_site_factor
        if sn:
            m = m / a.spin**2
        out[a.name] = m
    return out


def compare_physics(w, got, want, kind, what, rtol=1e-9):
    if sorted(map(str, got)) != sorted(map(str, want)):
        missing = [k for k in want if k not in got]
        extra = [k for k in got if k not in want]
        raise Violation(kind, f"{what}: couplings {missing[:3]} are lost, {extra[:3]} appeared")
    for k in want:
        scale = np.max(np.abs(want[k])) + 1e-12
        if not np.all(np.abs(got[k] - want[k]) <= rtol * scale):
            raise Violation(kind, f"{what}: coupling {k} was {np.asarray(want[k]).tolist()}, is {np.asarray(got[k]).tolist()}")


def reference_energy(phys, spins, directions):
    """Energy of the ferro configuration from the couplings. Dicts by the name of atom."""
    e = 0.0
    for k, m in phys.items():
        if isinstance(k, str):
            v = spins[k] * directions[k]
            e += v @ m @ v
        else:
            a, b, _ = k
            e += (spins[a] * directions[a]) @ m @ (spins[b] * directions[b])
    return e


def distance(h, a1, a2, R):
    d = (np.asarray(R) + np.asarray(a2.position) - np.asarray(a1.position)) @ np.asarray(h.cell)
    return float(np.linalg.norm(d))
