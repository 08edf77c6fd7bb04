"""Model files with one mistake: violations of the documented rules of the format."""

import random

NUMBER_WORDS = ["1.2.3", "x", "1,5", "--1", "0x1g", "1e", "one", "1/2"]


class Doc:
    """Lines of a text file, with its sections."""

    def __init__(self, text):
        self.end = "\r\n" if "\r\n" in text else "\n"
        self.lines = text.split(self.end)
        self.sections = {}
        name = None
        for i, line in enumerate(self.lines):
            t = self.content(i)
            if not t:
                continue
            if t.startswith("=" * 10):
                name = None
                continue
            if name is None:
                name = t.split()[0].lower()
                self.sections[name] = []
            self.sections[name].append(i)

    def content(self, i):
        return self.lines[i].split("#")[0].strip()

    def words(self, i):
        return self.content(i).split()

    def put(self, i, words):
        self.lines[i] = " ".join(words)

    def text(self):
        return self.end.join(x for x in self.lines if x is not None)

    def drop(self, i):
        self.lines[i] = None

    def after(self, i, words):
        self.lines[i] += self.end + " ".join(words)

    def separators(self, symbol):
        return [i for i in range(len(self.lines)) if self.content(i).startswith(symbol * 10)]

    # ---- pieces of the sections
    def bonds(self):
        """[[line of the atoms, [[lines of an entry], ...]], ...]"""
        out = []
        for i in self.sections.get("exchange", [])[1:]:
            t = self.content(i)
            if t.startswith("-" * 10):
                out.append(None)
                continue
            if not out or out[-1] is None:
                out.append([i, []])
            elif t[0].isalpha():
                out[-1][1].append([i])
            else:
                out[-1][1][-1].append(i)
        return [b for b in out if b is not None]

    def terms(self):
        body = [i for i in self.sections.get("on-site", [])[1:] if not self.content(i).startswith("-" * 10)]
        return list(zip(body[::2], body[1::2]))

    def columns(self):
        return [x.lower() for x in self.words(self.sections["atoms"][1])]

    def rename(self, old, new):
        """Another name of an atom, everywhere."""
        for i in self.sections["atoms"][2:]:
            self.put(i, [new if x == old and n == self.columns().index("name") else x for n, x in enumerate(self.words(i))])
        for i, _ in self.bonds():
            w = self.words(i)
            self.put(i, [new if x == old else x for x in w[:2]] + w[2:])
        for i, _ in self.terms():
            if self.content(i) == old:
                self.put(i, [new])


class Skip(Exception):
    """The file has nothing to which the mistake applies."""


def need(condition):
    if not condition:
        raise Skip()


def spoil(r, words, first=0):
    """A word that is no number among the numbers."""
    out = list(words)
    out[r.randrange(first, len(out))] = r.choice(NUMBER_WORDS)
    return out


def less_or_more(r, words, first=0):
    out = list(words)
    if r.random() < 0.5 and len(out) > first:
        del out[r.randrange(first, len(out))]
    else:
        out += [r.choice(["1", "0.5", "-2"]) for _ in range(r.choice([1, 1, 2, 3]))]
    return out


# ---------------------------------------------------------------------- cell
def rows_of_cell(d):
    return d.sections["cell"][-3:]


def scale_of_cell(d):
    s = d.sections["cell"]
    return s[1] if len(s) == 5 else None


def cell_row(d, r):
    i = r.choice(rows_of_cell(d))
    d.put(i, less_or_more(r, d.words(i)))


def cell_word(d, r):
    i = r.choice(rows_of_cell(d))
    d.put(i, spoil(r, d.words(i)))


def cell_missing(d, r):
    s = scale_of_cell(d)
    need(s is None or len(d.words(s)) != 3)
    d.drop(r.choice(rows_of_cell(d)))


def cell_extra(d, r):
    need(scale_of_cell(d) is not None)
    i = r.choice(rows_of_cell(d))
    d.after(i, d.words(i))


def cell_units(d, r):
    d.put(d.sections["cell"][0], ["Cell", r.choice(["furlong", "nm", "pm", "metre", "1"])])


def cell_header(d, r):
    d.put(d.sections["cell"][0], ["Cell", "Angstrom", r.choice(["1", "2.0", "Angstrom"])])


def put_scale(d, words):
    i = scale_of_cell(d)
    if i is None:
        d.after(d.sections["cell"][0], words)
    else:
        d.put(i, words)


def cell_scale_zero(d, r):
    put_scale(d, [r.choice(["0", "0.0", "-0.0", "0e0", "+0"])])


def cell_scale_sign(d, r):
    w = [r.choice(["1", "2.5", "0.3"]) for _ in range(3)]
    for k in r.sample(range(3), r.choice([1, 2, 2, 3])):
        w[k] = r.choice(["-" + w[k], "-" + w[k], "-" + w[k], "0", "-0.0"])
    put_scale(d, w)


def cell_scale_amount(d, r):
    put_scale(d, [r.choice(["1", "2.5", "0.3"]) for _ in range(r.choice([2, 2, 4, 5]))])


def cell_scale_word(d, r):
    put_scale(d, spoil(r, ["1.5"] * r.choice([1, 3])))


# --------------------------------------------------------------------- atoms
def rows_of_atoms(d):
    return d.sections["atoms"][2:]


def atoms_twice(d, r):
    rows = rows_of_atoms(d)
    need(len(rows) > 1)
    n = d.columns().index("name")
    a, b = r.sample(rows, 2)
    w = d.words(a)
    w[n] = d.words(b)[n]
    d.put(a, w)


def atoms_row(d, r):
    i = r.choice(rows_of_atoms(d))
    d.put(i, less_or_more(r, d.words(i)))


def used_columns(d):
    """Columns whose numbers are used."""
    c = d.columns()
    out = [x for x in (["r1", "r2", "r3"] if "r1" in c else ["x", "y", "z"])]
    out += [x for x in (["sx", "sy", "sz"] if "sx" in c else ["sp", "st", "s"] if "sp" in c else ["s"]) if x in c]
    return out + [x for x in ("g", "q") if x in c]


def atoms_word(d, r):
    i = r.choice(rows_of_atoms(d))
    w = d.words(i)
    w[d.columns().index(r.choice(used_columns(d)))] = r.choice(NUMBER_WORDS)
    d.put(i, w)


def without_column(d, keep):
    n = len(d.columns())
    for i in d.sections["atoms"][1:]:
        w = d.words(i)
        if len(w) == n:
            d.put(i, [x for k, x in enumerate(w) if keep(k)])


def atoms_no_name(d, r):
    n = d.columns().index("name")
    without_column(d, lambda k: k != n)


def atoms_position(d, r):
    c = d.columns()
    need(not ("r1" in c and "x" in c))
    n = c.index(r.choice(["r1", "r2", "r3"] if "r1" in c else ["x", "y", "z"]))
    without_column(d, lambda k: k != n)


def atoms_spin(d, r):
    c = d.columns()
    present = [x for x in c if x in ("sx", "sy", "sz", "sp", "st", "s")]
    need(len(present) == 3)
    n = c.index(r.choice([x for x in present if x != "s"]))  # "s" or the angles alone are another combination
    if "s" in present:
        # s and one angle
        pass
    without_column(d, lambda k: k != n)


def atoms_column_twice(d, r):
    c = d.columns()
    n = c.index(r.choice(used_columns(d)))
    for i in d.sections["atoms"][1:]:
        w = d.words(i)
        w.insert(r.randrange(len(w) + 1) if i == d.sections["atoms"][1] else len(w), w[n])
        d.put(i, w)


def atoms_none(d, r):
    for i in rows_of_atoms(d):
        d.drop(i)


def atoms_units(d, r):
    d.put(d.sections["atoms"][0], ["Atoms", r.choice(["furlong", "nm", "cartesian", "direct", "2"])])


def atoms_no_position(d, r):
    c = d.columns()
    need(not ("r1" in c and "x" in c))
    i = r.choice(rows_of_atoms(d))
    w = d.words(i)
    w[c.index(r.choice(["r1", "r2", "r3"] if "r1" in c else ["x", "y", "z"]))] = "-"
    d.put(i, w)


def atoms_name(d, r):
    i = r.choice(rows_of_atoms(d))
    old = d.words(i)[d.columns().index("name")]
    d.rename(old, r.choice(["__" + old, old + "__", "-" + old, "*" + old, "." + old, "_" + old, "-"]))


# ------------------------------------------------------------------ notation
def properties(d):
    need("notation" in d.sections)
    out = {}
    for i in d.sections["notation"][1:]:
        out[d.words(i)[0][0].lower()] = i
    wanted = set()
    if "exchange" in d.sections:
        wanted |= set("sde")
    if "on-site" in d.sections:
        wanted |= set("so")
    need(wanted)
    return out, sorted(wanted)


def notation_missing(d, r):
    p, wanted = properties(d)
    d.drop(p[r.choice(wanted)])


def notation_value(d, r):
    p, wanted = properties(d)
    k = r.choice(wanted)
    name = d.words(p[k])[0]
    d.put(p[k], [name, r.choice(["maybe", "2", "-1", "1.0", "yep", "tru"] if k in "sd" else ["true", "x", "1/2", "half"])])


def notation_blocks(d, r):
    p, wanted = properties(d)
    i = p[r.choice(wanted)]
    w = d.words(i)
    d.put(i, r.choice([w[:1], w + ["1"], w + [w[1]]]))


def notation_twice(d, r):
    p, wanted = properties(d)
    k = r.choice(wanted)
    w = d.words(p[k])
    d.after(p[r.choice(sorted(p))], [w[0], r.choice([w[1], "1", "0"])])


def notation_header(d, r):
    need("notation" in d.sections)
    properties(d)
    d.put(d.sections["notation"][0], ["Notation", r.choice(["meV", "spinw", "1"])])


# ------------------------------------------------------------------ exchange
def bond(d, r):
    b = d.bonds()
    need(b)
    return r.choice(b)


def bond_blocks(d, r):
    i = bond(d, r)[0]
    w = d.words(i)
    d.put(i, r.choice([w[:4], w + ["1"], w[:2] + w[3:], w[:1] + w[2:]]))


def bond_integer(d, r):
    i = bond(d, r)[0]
    w = d.words(i)
    w[r.choice([2, 3, 4])] = r.choice(["1.5", "0.0", "x", "1e0", "-", "1/2"])
    d.put(i, w)


def bond_atom(d, r):
    i = bond(d, r)[0]
    w = d.words(i)
    w[r.choice([0, 1])] = r.choice(["Zz9", "Qq0", "7zz"])
    d.put(i, w)


def bond_case(d, r):
    i = bond(d, r)[0]
    w = d.words(i)
    names = {d.words(k)[d.columns().index("name")] for k in rows_of_atoms(d)}
    n = r.choice([0, 1])
    need(w[n].swapcase() not in names)
    w[n] = w[n].swapcase()
    d.put(i, w)


def bond_nothing(d, r):
    for lines in bond(d, r)[1]:
        for i in lines:
            d.drop(i)


def entry(d, r, letters):
    found = [e for b in d.bonds() for e in b[1] if d.words(e[0])[0][0].lower() in letters]
    need(found)
    return r.choice(found)


def entry_twice(d, r):
    e = entry(d, r, "idsm")
    d.lines[e[-1]] += d.end + d.end.join(d.content(i) for i in e)


def entry_numbers(d, r):
    e = entry(d, r, "ids")
    d.put(e[0], less_or_more(r, d.words(e[0]), 1))


def entry_word(d, r):
    e = entry(d, r, "idsm")
    i = r.choice(e[1:]) if len(e) > 1 else e[0]
    d.put(i, spoil(r, d.words(i), 0 if len(e) > 1 else 1))


def matrix_row(d, r):
    e = entry(d, r, "m")
    i = r.choice(e[1:])
    d.put(i, less_or_more(r, d.words(i)))


def matrix_short(d, r):
    e = entry(d, r, "m")
    for i in r.sample(e[1:], r.randint(1, 3)):
        d.drop(i)


def matrix_header(d, r):
    e = entry(d, r, "m")
    d.put(e[0], d.words(e[0]) + [r.choice(["1", "meV", "3x3"])])


def exchange_units(d, r):
    need("exchange" in d.sections)
    d.put(d.sections["exchange"][0], ["Exchange", r.choice(["furlong", "cal", "THz", "1", "Hartree"])])


def exchange_none(d, r):
    need("exchange" in d.sections)
    for b in d.bonds():
        d.drop(b[0])
        for e in b[1]:
            for i in e:
                d.drop(i)


# ------------------------------------------------------------------- on-site
def term(d, r):
    t = d.terms()
    need(t)
    return r.choice(t)


def term_numbers(d, r):
    i = term(d, r)[1]
    d.put(i, less_or_more(r, d.words(i)))


def term_word(d, r):
    i = term(d, r)[1]
    d.put(i, spoil(r, d.words(i)))


def term_missing(d, r):
    d.drop(term(d, r)[1])


def term_atom(d, r):
    d.put(term(d, r)[0], [r.choice(["Zz9", "Qq0", "7zz"])])


def term_atoms(d, r):
    i = term(d, r)[0]
    d.put(i, d.words(i) + [r.choice([d.words(i)[0], "1", "x"])])


def on_site_units(d, r):
    need("on-site" in d.sections)
    d.put(d.sections["on-site"][0], ["On-site", r.choice(["furlong", "cal", "THz", "1", "Hartree"])])


def on_site_none(d, r):
    need("on-site" in d.sections)
    for a, b in d.terms():
        d.drop(a)
        d.drop(b)


# ------------------------------------------------------- cone axis and spiral
def single(d, r, name, amounts):
    need(name in d.sections)
    head, i = d.sections[name][:2]
    k = r.randrange(5)
    w = d.words(i)
    if k == 0:
        d.put(i, (w * 3)[: r.choice(amounts)])
    elif k == 1:
        d.put(i, spoil(r, w))
    elif k == 2:
        d.drop(i)
    elif k == 3:
        d.after(i, w)
    else:
        d.put(head, [d.words(head)[0], r.choice(["furlong", "cartesian", "1", "x"])])


def cone(d, r):
    single(d, r, "cone-axis", [1, 4, 5])


def spiral(d, r):
    single(d, r, "spiral-vector", [1, 2, 4])


# ------------------------------------------------------------------ sections
def section_missing(d, r):
    names = ["cell", "atoms"] + (["notation"] if "exchange" in d.sections or "on-site" in d.sections else [])
    name = r.choice([n for n in names if n in d.sections])
    for i in d.sections[name]:
        d.drop(i)


def separator_short(d, r):
    symbol = r.choice("==-")
    s = d.separators(symbol)
    need(s)
    d.lines[r.choice(s)] = symbol * r.randint(1, 9)


TEXT = {
    f.__name__: f for f in (
        cell_row, cell_word, cell_missing, cell_extra, cell_units, cell_header, cell_scale_zero, cell_scale_sign, cell_scale_amount, cell_scale_word,
        atoms_twice, atoms_row, atoms_word, atoms_no_name, atoms_position, atoms_spin, atoms_column_twice, atoms_none, atoms_units,
        atoms_no_position, atoms_name,
        notation_missing, notation_value, notation_blocks, notation_twice, notation_header,
        bond_blocks, bond_integer, bond_atom, bond_case, bond_nothing, entry_twice, entry_numbers, entry_word, matrix_row, matrix_short,
        matrix_header, exchange_units, exchange_none,
        term_numbers, term_word, term_missing, term_atom, term_atoms, on_site_units, on_site_none,
        cone, spiral, section_missing, separator_short,
    )
}


def text(good, kind, seed):
    """The good file with the mistake, or None if it does not apply."""
    d = Doc(good)
    try:
        TEXT[kind](d, random.Random(seed))
    except Skip:
        return None
    return d.text()


# ---------------------------------------------------------------------- HDF5
def children(g, name):
    need(name in g and len(g[name]) > 0)
    return g[name]


def pick(r, g):
    return g[r.choice(sorted(g))]


def replace(g, name, value):
    del g[name]
    g.create_dataset(name, data=value)


def h5_group(g, r):
    names = ["cell", "atoms"] + (["notation"] if "exchange" in g or "on-site" in g else [])
    del g[r.choice(names)]


def h5_vector(g, r):
    del g["cell"][r.choice(["a1", "a2", "a3"])]


def h5_vector_size(g, r):
    replace(g["cell"], r.choice(["a1", "a2", "a3"]), r.choice([[1.0, 2.0], [1.0, 2.0, 3.0, 4.0], 1.0]))


def h5_units(g, r):
    names = [n for n in ("cell", "exchange", "on-site", "spiral-vector", "cone-axis") if n in g]
    g[r.choice(names)].attrs["units"] = r.choice(["furlong", "Hartree", "nm", "cartesian", ""])


def h5_no_units(g, r):
    names = [n for n in ("cell", "exchange", "on-site", "spiral-vector", "cone-axis") if n in g]
    del g[r.choice(names)].attrs["units"]


def h5_atom(g, r):
    del pick(r, children(g, "atoms"))[r.choice(["name", "position"])]


def h5_atom_twice(g, r):
    atoms = children(g, "atoms")
    need(len(atoms) > 1)
    a, b = r.sample(sorted(atoms), 2)
    name = atoms[b]["name"][()]
    # names that no parameter needs are not looked up
    used = [x[k][()] for s in ("exchange", "on-site") if s in g for x in g[s].values() for k in x if k.startswith("atom")]
    need(name in used)
    replace(atoms[a], "name", name)


def h5_position(g, r):
    replace(pick(r, children(g, "atoms")), "position", r.choice([[0.1, 0.2], [0.1, 0.2, 0.3, 0.4]]))


def h5_notation(g, r):
    wanted = set()
    if "exchange" in g:
        wanted |= {"spin-normalized", "double-counting", "exchange-factor"}
    if "on-site" in g:
        wanted |= {"spin-normalized", "on-site-factor"}
    need(wanted)
    del g["notation"][r.choice(sorted(wanted))]


def h5_bond(g, r):
    del pick(r, children(g, "exchange"))[r.choice(["atom-1", "atom-2", "ijk", "matrix"])]


def h5_bond_atom(g, r):
    replace(pick(r, children(g, "exchange")), r.choice(["atom-1", "atom-2"]), "Zz9")


def h5_bond_matrix(g, r):
    replace(pick(r, children(g, "exchange")), "matrix", r.choice([[[1.0, 2.0], [3.0, 4.0]], [1.0, 2.0, 3.0], [[1.0, 2.0, 3.0]] * 4]))


def h5_bond_ijk(g, r):
    replace(pick(r, children(g, "exchange")), "ijk", r.choice([[1, 2], [1, 2, 3, 4], 1]))


def h5_term(g, r):
    del pick(r, children(g, "on-site"))[r.choice(["atom", "matrix"])]


def h5_term_atom(g, r):
    replace(pick(r, children(g, "on-site")), "atom", "Zz9")


def h5_term_matrix(g, r):
    replace(pick(r, children(g, "on-site")), "matrix", r.choice([[[1.0, 2.0], [3.0, 4.0]], [1.0, 2.0, 3.0], [[1.0, 2.0, 3.0]] * 4]))


def h5_type(g, r):
    if r.random() < 0.5:
        del g.attrs["type"]
    else:
        g.attrs["type"] = r.choice(["SpinHamiltonians", "Hamiltonian", "none"])


def h5_several(g, r):
    g.file.create_group("another").attrs["type"] = "SpinHamiltonian"


def h5_vectors(g, r):
    names = [n for n in ("spiral-vector", "cone-axis") if n in g]
    need(names)
    name = r.choice(names)
    units = g[name].attrs["units"]
    replace(g, name, r.choice([[1.0, 0.5], [1.0, 0.5, 0.2, 0.1]]))
    g[name].attrs["units"] = units


HDF5 = {
    f.__name__: f for f in (
        h5_group, h5_vector, h5_vector_size, h5_units, h5_no_units, h5_atom, h5_atom_twice, h5_position, h5_notation, h5_bond,
        h5_bond_atom, h5_bond_matrix, h5_bond_ijk, h5_term, h5_term_atom, h5_term_matrix, h5_type, h5_several, h5_vectors,
    )
}


def hdf5(path, group, kind, seed):
    """Make the mistake in the good file; False if it does not apply."""
    import h5py

    with h5py.File(path, "r+") as f:
        try:
            HDF5[kind](f[group], random.Random(seed))
        except Skip:
            return False
    return True
