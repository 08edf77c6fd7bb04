"""Edit histories of a Hamiltonian and their reference: a table of bonds in plain Python."""

import copy

import numpy as np
from wulfric import Atom

from magnopy import MatrixParameter, SpinHamiltonian
from magnopy.exceptions import NotationError

from . import gen
from .engine import Violation, outcome

COMPONENTS = ("double_counting", "spin_normalized", "exchange_factor", "on_site_factor")


class Reference:
    """Reference table.

    ``pairs``: {canonical bond: [matrix in the canonical orientation, set of the stored
    orientations (False: canonical, True: mirrored) or None if either one is right]}.
    """

    def __init__(self):
        self.notation = dict.fromkeys(COMPONENTS)
        self.pairs = {}
        self.on = {}
        self.atoms = []  # names in the order of the crystal
        self.spins = {}
        self.cone = None
        self.spiral = None

    def copy(self):
        return copy.deepcopy(self)

    # ------------------------------------------------------------------ edits
    def add_atom(self, name, spin):
        if name not in self.atoms:
            self.atoms.append(name)
        self.spins[name] = float(np.linalg.norm(spin))

    def add(self, a, b, R, m):
        key, flip = gen.canonical(a, b, R)
        m = np.array(m, dtype=float)
        m = m.T if flip else m
        if self.notation["double_counting"]:
            self.pairs[key] = [m, {False, True}]
        else:
            old = self.pairs.get(key)
            stored = set(old[1]) if old else set()
            stored.add(flip)
            self.pairs[key] = [m, stored]

    def remove(self, a, b, R):
        key, flip = gen.canonical(a, b, R)
        if self.notation["double_counting"] or self.pairs[key][1] <= {flip}:
            del self.pairs[key]
        else:
            self.pairs[key][1].discard(flip)

    def remove_atom(self, name):
        self.atoms.remove(name)
        self.pairs = {k: v for k, v in self.pairs.items() if name not in k[:2]}
        self.on.pop(name, None)

    def set(self, what, value):
        old = self.notation[what]
        if what == "double_counting":
            value = bool(value)
            f = 1.0
            if old is True and not value:
                f = 2.0
            elif old is False and value:
                f = 0.5
            for v in self.pairs.values():
                v[0] = v[0] * f
                v[1] = {False, True} if value else {None}
        elif what == "spin_normalized":
            value = bool(value)
            if old is not None and old != value:
                for k, v in self.pairs.items():
                    s = self.spins[k[0]] * self.spins[k[1]]
                    v[0] = v[0] * s if value else v[0] / s
                for k in self.on:
                    s = self.spins[k] ** 2
                    self.on[k] = self.on[k] * s if value else self.on[k] / s
        else:
            value = float(value)
            if old is not None:
                if what == "exchange_factor":
                    for v in self.pairs.values():
                        v[0] = v[0] * (old / value)
                else:
                    for k in self.on:
                        self.on[k] = self.on[k] * (old / value)
        self.notation[what] = value

    def settle(self, h):
        """Learn which orientation is stored where either one is right."""
        for a, b, R, _ in h.exchange:
            key, flip = gen.canonical(a.name, b.name, R)
            if key in self.pairs and self.pairs[key][1] == {None}:
                self.pairs[key][1] = {flip}

    def magnetic(self):
        s = {x for k in self.pairs for x in k[:2]} | set(self.on)
        return s


RTOL = 1e-9


def _near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return bool(np.all(np.abs(a - b) <= RTOL * (np.max(np.abs(b)) + 1e-12)))


def compare(w, h, ref, when):
    """Everything the Hamiltonian shows is what the reference table says."""

    def bad(kind, msg):
        raise Violation(kind, f"after {when}: {msg}")

    # atoms
    if [a.name for a in h.atoms] != ref.atoms:
        bad("atoms", f"atoms are {[a.name for a in h.atoms]} instead of {ref.atoms}")
    # bonds by iteration
    stored = {}
    order = []
    for a, b, R, p in h.exchange:
        key, flip = gen.canonical(a.name, b.name, R)
        order.append((a, b, R, p))
        if (key, flip) in stored:
            bad("bonds", f"bond {(a.name, b.name, R)} is listed twice")
        stored[key, flip] = p.matrix
    if len(h.exchange) != len(stored):
        bad("bonds", f"length of the list of bonds is {len(h.exchange)}, it has {len(stored)}")
    for key, (m, orient) in ref.pairs.items():
        have = {f for (k, f) in stored if k == key}
        if orient == {None}:
            if len(have) != 1:
                bad("bonds", f"bond {key} is stored {len(have)} times without double counting")
        elif have != orient:
            bad("bonds", f"bond {key} is stored in orientations {sorted(have)} instead of {sorted(orient)}")
        for f in have:
            got = stored[key, f].T if f else stored[key, f]
            if not _near(got, m):
                bad("values", f"bond {key}{' (mirrored)' if f else ''} is {got.tolist()} instead of {m.tolist()}")
    extra = {k for k, _ in stored} - set(ref.pairs)
    if extra:
        bad("bonds", f"bonds {sorted(extra)[:3]} are not expected")
    # on-site by iteration
    on = [(a.name, p.matrix) for a, p in h.on_site]
    if len(h.on_site) != len(on) or sorted(x[0] for x in on) != sorted(ref.on):
        bad("on-site", f"on-site terms of {[x[0] for x in on]} instead of {sorted(ref.on)}")
    for name, m in on:
        if not _near(m, ref.on[name]):
            bad("values", f"on-site {name} is {m.tolist()} instead of {ref.on[name].tolist()}")
    # magnetic atoms
    mag = h.magnetic_atoms
    if sorted(a.name for a in mag) != sorted(ref.magnetic()) or h.I != len(mag):
        bad("magnetic", f"magnetic atoms {[a.name for a in mag]} (I={h.I}) instead of {sorted(ref.magnetic())}")
    if [a.index for a in mag] != sorted(a.index for a in mag):
        bad("magnetic", "magnetic atoms are not ordered by the index")
    # notation
    for c in COMPONENTS:
        try:
            v = getattr(h, c)
        except NotationError:
            v = None
        if v != ref.notation[c] or (v is not None and ref.notation[c] is None):
            bad("notation", f"{c} reads {v}, {ref.notation[c]} is expected")
    try:
        whole = h.notation
    except NotationError:
        whole = None
    want = tuple(ref.notation[c] for c in COMPONENTS)
    if whole != (None if None in want else want):
        bad("notation", f"notation reads {whole}, {want} is expected")
    # look-up and membership agree with the iteration
    for a, b, R, p in order:
        if (a, b, R) not in h or (a.name, b.name, R) not in h:
            bad("lookup", f"bond {(a.name, b.name, R)} is iterated but not in the Hamiltonian")
        if not np.array_equal(h[a, b, R].matrix, p.matrix) or not np.array_equal(h[a.name, b.name, R].matrix, p.matrix):
            bad("lookup", f"bond {(a.name, b.name, R)} is different by the look-up")
        mirror = (b, a, tuple(-x for x in R))
        key, flip = gen.canonical(b.name, a.name, mirror[2])
        if (mirror in h) != ((key, flip) in stored):
            bad("lookup", f"membership of the mirror of {(a.name, b.name, R)} is {mirror in h}")
    for atom in h.atoms:
        if (atom in h) != (atom.name in ref.on) or (atom.name in h) != (atom.name in ref.on):
            bad("lookup", f"membership of the on-site term of {atom.name} is wrong")
        if atom.name in ref.on and not _near(h[atom.name].matrix, ref.on[atom.name]):
            bad("lookup", f"on-site term of {atom.name} is different by the look-up")
    for a in h.atoms[:2]:
        far = (a, a, (7, 7, 7))
        if far in h:
            bad("lookup", f"bond {far[2]} that was never added is in the Hamiltonian")
        if outcome(lambda: h[far]).name() != "KeyError":
            bad("lookup", "look-up of a missing bond does not raise KeyError")
    # exchange-like view
    xf, of = ref.notation["exchange_factor"], ref.notation["on_site_factor"]
    if not ref.on or (xf is not None and of is not None):
        like = [(a.name, b.name, tuple(R), p.matrix) for a, b, R, p in h.exchange_like]
        if len(like) != len(stored) + len(ref.on) or len(h.exchange_like) != len(like):
            bad("exchange-like", f"{len(like)} exchange-like terms instead of {len(stored) + len(ref.on)}")
        seen_on = set()
        for a, b, R, m in like:
            if a == b and R == (0, 0, 0):
                seen_on.add(a)
                if a not in ref.on or not _near(m, ref.on[a] * (of / xf)):
                    bad("exchange-like", f"on-site term of {a} in the exchange form is {m.tolist()}")
            else:
                key, flip = gen.canonical(a, b, R)
                if (key, flip) not in stored or not np.array_equal(stored[key, flip], m):
                    bad("exchange-like", f"bond {(a, b, R)} in the exchange form is {m.tolist()}")
        if seen_on != set(ref.on):
            bad("exchange-like", f"on-site terms {sorted(seen_on)} instead of {sorted(ref.on)}")
    # ground state
    for c, v in (("cone_axis", ref.cone), ("spiral_vector", ref.spiral)):
        x = getattr(h, c)
        if (x is None) != (v is None) or (v is not None and not np.allclose(x, v, rtol=0, atol=1e-12)):
            bad("ground-state", f"{c} is {x} instead of {v}")


# ------------------------------------------------------------- custom filters
def make_filter(spec):
    kind, t = spec
    if kind == "iso":
        return lambda p: abs(p.iso) >= t
    if kind == "xy":
        return lambda p: p.xy >= -abs(t)
    if kind == "zz":
        return lambda p: p.zz >= -abs(t) * 2
    return lambda p: bool(np.linalg.norm(p.dmi) <= abs(t) * 3)


# ------------------------------------------------------------------ generation
def gen_ops(rng, n, weights=None, digits=None):
    """Random edits; indices are resolved against the state when the edit is applied."""
    kinds = {
        "notation": 3, "dc": 3, "sn": 3, "xf": 2, "of": 2, "add": 6, "rewrite": 4, "rm": 3,
        "on": 4, "off": 2, "filter": 1.5, "filtered": 1, "rmatom": 1.2, "newatom": 1.2, "addatom": 0.6,
        "copy": 0.8, "addmirror": 0.7, "cone": 0.5, "spiral": 0.5, "twin": 0.6,
    }
    kinds.update(weights or {})
    names, ws = zip(*sorted(kinds.items()))
    ops = []
    for _ in range(n):
        k = rng.choices(names, ws)[0]
        if k == "notation":
            v = gen.gen_notation(rng)
            if not isinstance(v, str) and rng.random() < 0.2:
                v = v[:3]
            elif isinstance(v, str):
                v = rng.choice([v, v.upper(), v.capitalize()])
            ops.append([k, v])
        elif k in ("dc", "sn"):
            ops.append([k, rng.random() < 0.5])
        elif k in ("xf", "of"):
            ops.append([k, rng.choice(gen.FACTORS)])
        elif k in ("add", "newatom"):
            R = [rng.randint(-2, 2) for _ in range(3)]
            if rng.random() < 0.35:
                R = [0, 0, 0]
            ops.append(
                [k, rng.randrange(100), rng.randrange(100), R, gen.gen_matrix(rng, digits),
                 rng.choice(["matrix", "parameter", "setitem", "names", "parts", "list"])]
            )
        elif k == "rewrite":
            ops.append([k, rng.randrange(100), gen.gen_matrix(rng, digits), rng.choice(["matrix", "parameter", "setitem"])])
        elif k == "rm":
            ops.append([k, rng.randrange(100), rng.choice(["call", "del", "names", "quiet"])])
        elif k == "on":
            ops.append([k, rng.randrange(100), gen.gen_symmetric(rng, digits), rng.choice(["matrix", "parameter", "setitem", "name"])])
        elif k == "off":
            ops.append([k, rng.randrange(100), rng.choice(["call", "del", "name", "quiet"])])
        elif k in ("filter", "filtered"):
            ops.append(
                [k, rng.choice([None, None, rng.uniform(1, 25)]), rng.choice([None, None, None, rng.uniform(0, 6), 0]),
                 None if rng.random() < 0.5 else [rng.choice(["iso", "xy", "zz", "dmi"]), rng.uniform(0, 2)]]
            )
        elif k == "rmatom":
            ops.append([k, rng.randrange(100), rng.choice(["atom", "name"])])
        elif k == "addatom":
            ops.append([k, rng.randrange(100)])
        elif k == "twin":
            ops.append([k, rng.randrange(100), gen.gen_matrix(rng, digits), rng.choice(["matrix", "parameter", "setitem", "names"])])
        elif k == "copy":
            ops.append([k])
        elif k == "addmirror":
            ops.append([k, rng.randrange(100)])
        elif k == "cone":
            ops.append([k, [rng.uniform(0.1, 1) for _ in range(3)]])
        elif k == "spiral":
            ops.append([k, [rng.uniform(-1, 1) for _ in range(3)]])
    return ops


class Run:
    """Applies edits to the Hamiltonian and to the reference."""

    def __init__(self, w, spec):
        self.w = w
        self.h = SpinHamiltonian(cell=spec["cell"])
        self.ref = Reference()
        self.spare = 0
        self.given = []  # (parameter object of the caller, its matrix)
        self.older = []  # (Hamiltonian that was left behind, its snapshot)
        notation = spec["notation"]
        if notation is not None and not spec.get("late_notation"):
            self.set_notation(notation)
        for a in spec["atoms"]:
            kw = {} if a.get("charge") is None else {"charge": a["charge"]}
            self.h.add_atom(Atom(a["name"], a["pos"], spin=a["spin"], g_factor=a["g"], **kw))
            self.ref.add_atom(a["name"], a["spin"])
        for i, j, R, m in spec["bonds"]:
            if i < len(self.h.atoms) and j < len(self.h.atoms):
                self.put(self.h.atoms[i], self.h.atoms[j], R, m, "parameter")
        for i, m in spec["onsite"]:
            if i < len(self.h.atoms):
                self.put_on(self.h.atoms[i], m, "parameter")
        if notation is not None and spec.get("late_notation"):
            self.set_notation(notation)
        if spec.get("cone") is not None:
            self.h.cone_axis = spec["cone"]
            self.ref.cone = np.array(spec["cone"]) / np.linalg.norm(spec["cone"])
        if spec.get("spiral") is not None:
            self.h.spiral_vector = spec["spiral"]
            self.ref.spiral = np.array(spec["spiral"])

    # ---------------------------------------------------------------- pieces
    def set_notation(self, value):
        t = gen.notation_tuple(value)
        self.h.notation = value if isinstance(value, str) else tuple(value)
        for c, v in zip(COMPONENTS, t):
            self.ref.set(c, v)
        self.ref.settle(self.h)

    def parameter(self, m):
        p = MatrixParameter(matrix=m)
        self.given.append((p, np.array(m, dtype=float)))
        return p

    def put(self, a, b, R, m, how):
        R = tuple(R)
        h = self.h
        na, nb = a.name, b.name
        if how == "parameter":
            h.add_exchange(a, b, R, self.parameter(m))
        elif how == "setitem":
            h[a, b, R] = self.parameter(m)
        elif how == "names" and a in h.atoms and b in h.atoms:
            h.add_exchange(na, nb, R, matrix=m)
        elif how == "parts":
            p = MatrixParameter(matrix=m)
            h.add_exchange(a, b, R, iso=p.iso, aniso=p.aniso, dmi=p.dmi)
        elif how == "list":
            h.add_exchange(a, b, list(R), matrix=np.array(m))
        else:
            h.add_exchange(a, b, R, matrix=m)
        for x in (a, b):
            self.ref.add_atom(x.name, x.spin_vector)
        self.ref.add(na, nb, R, m)

    def put_on(self, a, m, how):
        h = self.h
        if how == "parameter":
            h.add_on_site(a, self.parameter(m))
        elif how == "setitem":
            h[a] = self.parameter(m)
        elif how == "name" and a in h.atoms:
            h.add_on_site(a.name, matrix=m)
        else:
            h.add_on_site(a, matrix=m)
        self.ref.add_atom(a.name, a.spin_vector)
        self.ref.on[a.name] = np.array(m, dtype=float)

    def fresh_atom(self, k):
        self.spare += 1
        return Atom(
            f"N{self.spare}", ((k % 7) / 7, (k % 11) / 11, (k % 5) / 5), spin=(0.3, 0.1 * (k % 9), 1.0 + (k % 3) / 2)
        )

    def free_pair(self, a, b, R):
        """Whether the bond may be added: never in the other orientation (no double counting)."""
        if a.name == b.name and tuple(R) == (0, 0, 0):
            return False
        key, flip = gen.canonical(a.name, b.name, R)
        if self.ref.notation["double_counting"]:
            return True
        old = self.ref.pairs.get(key)
        return old is None or old[1] == {flip}

    # ------------------------------------------------------------------ edits
    def apply(self, op):
        """Apply the edit; returns False if it has nothing to act on."""
        h, ref = self.h, self.ref
        k = op[0]
        if k == "notation":
            self.set_notation(op[1])
        elif k in ("dc", "sn", "xf", "of"):
            c = {"dc": COMPONENTS[0], "sn": COMPONENTS[1], "xf": COMPONENTS[2], "of": COMPONENTS[3]}[k]
            setattr(h, c, op[1])
            ref.set(c, op[1])
            ref.settle(h)
        elif k == "add":
            if not h.atoms:
                return False
            a, b = h.atoms[op[1] % len(h.atoms)], h.atoms[op[2] % len(h.atoms)]
            if not self.free_pair(a, b, op[3]):
                return False
            self.put(a, b, op[3], op[4], op[5])
        elif k == "newatom":
            a = self.fresh_atom(op[1])
            b = h.atoms[op[2] % len(h.atoms)] if h.atoms and op[2] % 4 else self.fresh_atom(op[2])
            if op[1] % 2:
                a, b = b, a
            self.put(a, b, op[3], op[4], op[5])
        elif k == "twin":
            # two atoms of the same index (one left, another one came) and their bond inside of the cell
            if len(h.atoms) < 2:
                return False
            first = h.atoms[op[1] % (len(h.atoms) - 1)]
            pairs = [(x, y) for x in h.atoms for y in h.atoms if x is not y and x.index == y.index]
            if not pairs:
                h.remove_atom(first)
                ref.remove_atom(first.name)
                a = self.fresh_atom(op[1])
                h.add_atom(a)
                ref.add_atom(a.name, a.spin_vector)
                pairs = [(x, y) for x in h.atoms for y in h.atoms if x is not y and x.index == y.index]
            if not pairs:
                return True
            a, b = pairs[op[1] % len(pairs)]
            if not self.free_pair(a, b, (0, 0, 0)):
                return True
            self.put(a, b, (0, 0, 0), op[2], op[3])
        elif k == "addatom":
            a = self.fresh_atom(op[1])
            h.add_atom(a)
            ref.add_atom(a.name, a.spin_vector)
        elif k == "rewrite":
            bonds = list(h.exchange)
            if not bonds:
                return False
            a, b, R, _ = bonds[op[1] % len(bonds)]
            key, _ = gen.canonical(a.name, b.name, R)
            if ref.notation["double_counting"] is None and len(ref.pairs[key][1]) == 2:
                return False
            self.put(a, b, R, op[2], op[3])
        elif k == "addmirror":
            # the full list of bonds is entered before the notation is known
            bonds = list(h.exchange)
            if not bonds or ref.notation["double_counting"] is not None:
                return False
            a, b, R, p = bonds[op[1] % len(bonds)]
            self.put(b, a, tuple(-x for x in R), p.matrix.T.tolist(), "matrix")
        elif k == "rm":
            bonds = list(h.exchange)
            if not bonds:
                return False
            a, b, R, _ = bonds[op[1] % len(bonds)]
            if op[2] == "del":
                del h[a, b, R]
            elif op[2] == "names":
                h.remove_exchange(a.name, b.name, R)
            elif op[2] == "quiet":
                h.remove_exchange(a, b, (9, 9, 9), raise_if_no_bond=False)
                h.remove_exchange(a, b, R, raise_if_no_bond=False)
            else:
                h.remove_exchange(a, b, R)
            ref.remove(a.name, b.name, R)
        elif k == "on":
            if not h.atoms:
                return False
            self.put_on(h.atoms[op[1] % len(h.atoms)], op[2], op[3])
        elif k == "off":
            on = list(h.on_site)
            if not on:
                return False
            a, _ = on[op[1] % len(on)]
            if op[2] == "del":
                del h[a]
            elif op[2] == "name":
                h.remove_on_site(a.name)
            elif op[2] == "quiet":
                for x in h.atoms:
                    if x.name not in ref.on:
                        h.remove_on_site(x, raise_if_no_bond=False)
                h.remove_on_site(a, raise_if_no_bond=False)
            else:
                h.remove_on_site(a)
            del ref.on[a.name]
        elif k in ("filter", "filtered"):
            _, dmax, dmin, custom = op
            dist = {}
            for a, b, R, _ in h.exchange:
                key, _ = gen.canonical(a.name, b.name, R)
                dist[key] = gen.distance(h, a, b, R)
            for t in (dmax, dmin):
                if t is not None and any(abs(d - t) < 1e-6 for d in dist.values()):
                    return False
            f = None if custom is None else make_filter(custom)
            drop = set()
            for a, b, R, p in h.exchange:
                key, flip = gen.canonical(a.name, b.name, R)
                if (dmax is not None and dist[key] > dmax) or (dmin is not None and dist[key] < dmin):
                    drop.add((key, flip))
                elif f is not None and not f(p):
                    drop.add((key, flip))
            drop_on = {
                a.name for a, p in h.on_site if (dmin is not None and dmin > 0) or (f is not None and not f(p))
            }
            kw = {}
            if dmax is not None:
                kw["max_distance"] = dmax
            if dmin is not None:
                kw["min_distance"] = dmin
            if f is not None:
                kw["custom_filter"] = f
            if k == "filter":
                h.filter(**kw)
            else:
                new = h.filtered(**kw)
                self.older.append((h, gen.snapshot(h)))
                self.h = h = new
            for key, flip in drop:
                if key in ref.pairs:
                    if ref.notation["double_counting"] or ref.pairs[key][1] == {flip}:
                        del ref.pairs[key]
                    else:
                        ref.pairs[key][1].discard(flip)
            for name in drop_on:
                del ref.on[name]
        elif k == "rmatom":
            if not h.atoms:
                return False
            a = h.atoms[op[1] % len(h.atoms)]
            h.remove_atom(a if op[2] == "atom" else a.name)
            ref.remove_atom(a.name)
        elif k == "copy":
            new = h.copy()
            self.older.append((h, gen.snapshot(h)))
            self.h = new
        elif k == "cone":
            h.cone_axis = op[1]
            ref.cone = np.array(op[1]) / np.linalg.norm(op[1])
        elif k == "spiral":
            h.spiral_vector = op[1]
            ref.spiral = np.array(op[1])
        else:
            raise AssertionError(k)
        return True

    def check_left_behind(self):
        for h, snap in self.older:
            d = gen.diff(snap, gen.snapshot(h))
            if d is not None:
                raise Violation("shared", f"Hamiltonian that was copied before was changed by later edits of the copy: {d}")

    def touch(self, x, part, m):
        """Edit a parameter that the Hamiltonian hands out in place; the reference takes what the Hamiltonian shows then."""
        h, ref, m = self.h, self.ref, np.array(m, dtype=float)
        bonds, on = list(h.exchange), list(h.on_site)
        if not bonds and not on or ref.notation["double_counting"] is None:
            return False
        x %= len(bonds) + len(on)
        if x < len(bonds):
            a, b, R, _ = bonds[x]
            p = h[a, b, R]
            setattr(p, part, {"matrix": m, "iso": m[0][0], "dmi": m[0], "aniso": m + m.T - np.eye(3) * np.trace(m) * 2 / 3}[part])
            if ref.notation["double_counting"]:
                h[b, a, tuple(-i for i in R)].matrix = p.matrix.T
            key, flip = gen.canonical(a.name, b.name, R)
            m = np.array(h[a, b, R].matrix)
            ref.pairs[key][0] = m.T if flip else m
        else:
            a, _ = on[x - len(bonds)]
            p = h[a]
            p.matrix = m + m.T
            ref.on[a.name] = np.array(h[a].matrix)
        self.given = [(q, np.array(q.matrix) if q is p else v) for q, v in self.given]
        return True

    def check_given(self):
        for p, m in self.given:
            if not np.array_equal(p.matrix, m):
                raise Violation("caller-object", f"parameter object of the caller was {m.tolist()}, is {p.matrix.tolist()}")
