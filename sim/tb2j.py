"""exchange.out files in the format of TB2J (without a trailing separator)."""

import random
import re

import numpy as np

MAJOR = "=" * 90
MINOR = "-" * 88


def gen_tb2j(rng, natoms=(1, 4), nbonds=(1, 8)):
    n = rng.randint(*natoms)
    pool = ["Cr1", "Cr2", "Fe1", "Mn1", "Ni2", "Co10", "Br1", "I1", "Cl3", "Cr11"]
    names = rng.sample(pool, n)
    a = round(rng.uniform(3, 8), 3)
    cell = [[a, 0.0, 0.0], [round(rng.uniform(-1, 1), 3), round(rng.uniform(3, 8), 3), 0.0],
            [0.0, round(rng.uniform(-1, 1), 3), round(rng.uniform(5, 15), 3)]]
    if rng.random() < 0.3:
        cell = [[a, 0.0, 0.0], [0.0, a, 0.0], [0.0, 0.0, a]]
    atoms = []
    for name in names:
        pos = [round(rng.uniform(0, 1), 4) for _ in range(3)]
        m = [round(rng.uniform(-3, 3), 4) for _ in range(3)]
        if sum(abs(x) for x in m) < 0.5:
            m = [0.0, 0.0, 2.5]
        if rng.random() < 0.5:
            m = [0.0, 0.0, round(rng.choice([-1, 1]) * rng.uniform(0.5, 4), 4)]
        atoms.append({"name": name, "rel": pos, "charge": round(rng.uniform(0, 6), 4), "mag": m})
    bonds, seen = [], set()
    for _ in range(rng.randint(*nbonds)):
        i, j = rng.randrange(n), rng.randrange(n)
        R = [rng.randint(-2, 2) for _ in range(3)]
        if i == j and R == [0, 0, 0]:
            R = [1, 0, 0]
        if (i, j, tuple(R)) in seen:
            continue
        seen.add((i, j, tuple(R)))
        seen.add((j, i, tuple(-x for x in R)))
        iso = round(rng.uniform(-5, 5), 4)
        if rng.random() < 0.12:
            iso = rng.choice([0.0, 0.0001, -0.0003])  # nothing or almost nothing but the other parts
        dmi = [round(rng.uniform(-1, 1), 4) for _ in range(3)]
        s = [round(rng.uniform(-1, 1), 3) for _ in range(5)]
        aniso = [[s[0], s[1], s[2]], [s[1], s[3], s[4]], [s[2], s[4], round(-s[0] - s[3], 3)]]
        parts = rng.choice(["all", "all", "iso", "iso+dmi", "iso+ani"])
        bonds.append([i, j, R, iso, dmi, aniso, parts])
    both = rng.random() < 0.7  # TB2J lists both directions
    return {"cell": cell, "atoms": atoms, "bonds": bonds, "both": both, "columns": rng.choice(["vector", "vector", "vector"])}


def positions(spec):
    return [np.array(a["rel"]) @ np.array(spec["cell"]) for a in spec["atoms"]]


def matrix(b):
    iso, dmi, aniso, parts = b[3:7]
    m = iso * np.eye(3)
    if "dmi" in parts or parts == "all":
        m = m + np.array([[0, dmi[2], -dmi[1]], [-dmi[2], 0, dmi[0]], [dmi[1], -dmi[0], 0]])
    if "ani" in parts or parts == "all":
        m = m + np.array(aniso)
    return m


def render(spec):
    out = [MAJOR, "Information: ", "Exchange parameters generated by the simulator", "", MAJOR, "Cell (Angstrom):"]
    for v in spec["cell"]:
        out.append(" ".join(f"{x:6.3f}" for x in v) + " ")
    out += ["", MAJOR, "Atoms:  ", "(Note: charge and magmoms only count the wannier functions.)",
            "Atom number        x         y          z       w_charge   M(x)      M(y)      M(z)   "]
    pos = positions(spec)
    for a, p in zip(spec["atoms"], pos):
        out.append(
            f"{a['name']:<16}" + " ".join(f"{x:9.4f}" for x in p) + f" {a['charge']:9.4f} "
            + " ".join(f"{x:9.4f}" for x in a["mag"])
        )
    out.append("Total           " + " " * 30 + f"{sum(a['charge'] for a in spec['atoms']):9.4f} "
               + " ".join(f"{sum(a['mag'][i] for a in spec['atoms']):9.4f}" for i in range(3)))
    out += ["", MAJOR, "Exchange: ", "    i      j          R        J_iso(meV)   vector(A)                    distance(A)"]
    rows = []
    for b in spec["bonds"]:
        rows.append(b)
        if spec["both"]:
            i, j, R, iso, dmi, aniso, parts = b
            rows.append([j, i, [-x for x in R], iso, [-x for x in dmi], aniso, parts])
    for i, j, R, iso, dmi, aniso, parts in rows:
        v = np.array(R) @ np.array(spec["cell"]) + pos[j] - pos[i]
        out.append(MINOR)
        out.append(
            f"{spec['atoms'][i]['name']:>6} {spec['atoms'][j]['name']:>6} "
            f"({R[0]:>3}, {R[1]:>3}, {R[2]:>3}) {iso:9.4f}   "
            f"({v[0]:7.3f}, {v[1]:7.3f}, {v[2]:7.3f}) {np.linalg.norm(v):6.3f} "
        )
        out.append(f"J_iso: {iso:8.4f} ")
        if "dmi" in parts or parts == "all":
            out.append("[Testing!] Jprime:  0.000,  B: 0.000 ")
            out.append(f"[Testing!] DMI: ({dmi[0]:8.4f} {dmi[1]:8.4f} {dmi[2]:8.4f})")
        if "ani" in parts or parts == "all":
            out.append("[Testing!]J_ani:")
            rws = [" ".join(f"{x:7.3f}" for x in r) for r in aniso]
            out.append(f"[[{rws[0]}]")
            out.append(f" [{rws[1]}]")
            out.append(f" [{rws[2]}]]")
    return "\n".join(out) + "\n"


# ---- files with one mistake
def _numbers(r, line, first=0, last=None):
    """One number of a line becomes a word."""
    parts = re.split(r"([-+]?\d+\.?\d*)", line[first:])
    at = r.choice(range(1, len(parts), 2)[:last])
    parts[at] = r.choice(["x", "1.2.3", "--1", "1,5x"])
    return line[:first] + "".join(parts)


def _cell_word(lines, r):
    i = lines.index("Cell (Angstrom):") + 1 + r.randrange(3)
    lines[i] = _numbers(r, lines[i])


def _cell_row(lines, r):
    del lines[lines.index("Cell (Angstrom):") + 1 + r.randrange(3)]


def _atoms(lines):
    return range(lines.index("Atoms:  ") + 3, next(i for i, x in enumerate(lines) if x.startswith("Total")))


def _atom_word(lines, r):
    i = r.choice(_atoms(lines))
    lines[i] = _numbers(r, lines[i], 16, 3)


def _atom_missing(lines, r):
    # an atom that takes part in the exchange is not in the table
    i = r.choice(_atoms(lines))
    name = lines[i].split()[0]
    if not any(name in x.split()[:2] for x in lines[i + 1:]):
        return False
    del lines[i]


def _bonds(lines):
    return [i + 1 for i, x in enumerate(lines) if x == MINOR]


def _bond_cell(lines, r):
    i = r.choice(_bonds(lines))
    a, b = lines[i].split("(", 1)
    b, c = b.split(")", 1)
    lines[i] = a + "(" + _numbers(r, b) + ")" + c


def _bond_half(lines, r):
    i = r.choice(_bonds(lines))
    a, b = lines[i].split("(", 1)
    b, c = b.split(")", 1)
    x = b.split(",")
    x[r.randrange(3)] = " 0.5"
    lines[i] = a + "(" + ",".join(x) + ")" + c


def _bond_name(lines, r):
    i = r.choice(_bonds(lines))
    a, b, c = lines[i].split(None, 2)
    lines[i] = f"{'Zz9':>6} {b:>6} {c}" if r.random() < 0.5 else f"{a:>6} {'Zz9':>6} {c}"


def _iso_word(lines, r):
    i = r.choice([i for i, x in enumerate(lines) if x.startswith("J_iso:")])
    lines[i] = "J_iso: " + _numbers(r, lines[i][6:])


def _dmi_word(lines, r):
    at = [i for i, x in enumerate(lines) if "DMI:" in x]
    if not at:
        return False
    i = r.choice(at)
    a, b = lines[i].split("(")
    lines[i] = a + "(" + _numbers(r, b)


def _ani_word(lines, r):
    at = [i for i, x in enumerate(lines) if "J_ani:" in x]
    if not at:
        return False
    i = r.choice(at) + 1 + r.randrange(3)
    lines[i] = _numbers(r, lines[i])


def _ani_row(lines, r):
    at = [i for i, x in enumerate(lines) if "J_ani:" in x]
    if not at:
        return False
    i = r.choice(at) + 1 + r.randrange(3)
    lines[i] = lines[i].rstrip("] ").rsplit(None, 1)[0]


MISTAKES = {
    "cell-word": _cell_word, "cell-row": _cell_row, "atom-word": _atom_word, "atom-missing": _atom_missing, "bond-cell": _bond_cell,
    "bond-half": _bond_half, "bond-name": _bond_name, "iso-word": _iso_word, "dmi-word": _dmi_word, "ani-word": _ani_word,
    "ani-row": _ani_row,
}


def spoil(text, mistake, seed):
    """The text with one mistake; None if it can not be made."""
    r = random.Random(f"{mistake} {seed}")
    lines = text.split("\n")
    if MISTAKES[mistake](lines, r) is False:
        return None
    return "\n".join(lines)
