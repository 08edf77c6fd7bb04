"""Model files as a user may write them: every layout that the documentation allows."""

import random

import numpy as np

ANGSTROM = 1e-10
BOHR = 5.29177210903e-11
EV = 1.602176634e-19
KB = 1.380649e-23
RY = 6.62607015e-34 * 299792458 * 10973731.568160
ENERGIES = {"m": EV * 1e-3, "e": EV, "j": 1.0, "k": KB, "r": RY}
UNITS = {
    "m": ["meV", "milli-electron-Volt", "m"], "e": ["eV", "electron-Volt", "e"], "j": ["J", "Joule"],
    "k": ["K", "Kelvin"], "r": ["Ry", "Rydberg", "r"],
}
FULL = {"m": "milli-electron-Volt", "e": "electron-Volt", "j": "Joule", "k": "Kelvin", "r": "Rydberg"}
TRUE = ["true", "t", "yes", "y", "1"]
FALSE = ["false", "f", "no", "n", "0"]


def parts(m):
    """Isotropic, symmetric anisotropic and antisymmetric part of the matrix."""
    m = np.array(m, dtype=float)
    iso = np.trace(m) / 3
    anti = (m - m.T) / 2
    return iso, (m + m.T) / 2 - iso * np.eye(3), np.array([anti[1, 2], anti[2, 0], anti[0, 1]])


def cell_units(r):
    return r.choice([("a", ANGSTROM), ("a", ANGSTROM), ("b", BOHR), ("", ANGSTROM)])


class Text:
    """One layout of a model, from the seed of the layout."""

    def __init__(self, spec, notation, style):
        self.r = random.Random(style)
        self.spec = spec
        self.notation = notation
        self.out = []

    def case(self, word):
        k = self.r.random()
        if k < 0.4:
            return word
        if k < 0.6:
            return word.upper()
        if k < 0.8:
            return word.lower()
        return "".join(c.upper() if self.r.random() < 0.5 else c.lower() for c in word)

    def num(self, x):
        x = float(x)
        k = self.r.random()
        if k < 0.6:
            t = repr(x)
        elif k < 0.8:
            t = f"{x:.17e}"
        else:
            t = f"{x:.17E}"
        if x >= 0 and not t.startswith("-") and self.r.random() < 0.1:
            t = "+" + t
        return t

    def nums(self, xs):
        return [self.num(x) for x in xs]

    def line(self, words, comment=True):
        r = self.r
        if isinstance(words, str):
            words = [words]
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            self.out.append(r.choice(["", "   ", "# a comment", "#", "  # === cell ===", "#" + "=" * 20, "# Ж ± µ"]))
        text = " " * r.choice([0, 0, 0, 2, 5])
        for w in words:
            text += w + " " * r.choice([1, 1, 1, 2, 4])
        if r.random() < 0.5:
            text = text.rstrip()
        if comment and r.random() < 0.2:
            text += r.choice(["# inline", " # 1 2 3", "#", " #### a # b"])
        self.out.append(text)

    def separator(self, c):
        for _ in range(self.r.choice([1, 1, 1, 2])):
            self.out.append(c * self.r.choice([10, 11, 30, 80, 120]))

    def header(self, name, units):
        self.line([self.case(name)] + ([self.case(units)] if units else []))

    def text(self):
        r, s = self.r, self.spec
        cu, length = cell_units(r)
        cell = np.array(s["cell"]) * ANGSTROM / length
        scale = np.ones(3)
        k = r.random()
        if k < 0.25:
            scale = np.ones(3) * r.choice([2.0, 0.5, 3.7, 1.88972612462577])
            written = [scale[0]]
        elif k < 0.4:
            scale = np.array([r.choice([1.0, 2.0, 0.3, 5.5]) for _ in range(3)])
            written = list(scale)
        else:
            written = None

        def write_cell():
            self.header("Cell", {"a": r.choice(["Angstrom", "a", "Ang"]), "b": r.choice(["Bohr", "b"]), "": ""}[cu])
            if written is not None:
                self.line(self.nums(written))
            for v in cell / scale:
                self.line(self.nums(v))

        def write_atoms():
            where = r.choice(["r", "r", "xyz", "both"])
            au, alen = r.choice([("Angstrom", ANGSTROM), ("Bohr", BOHR), ("", ANGSTROM)])
            if where != "xyz":
                au = r.choice([au, "Relative", ""])
            self.header("Atoms", au)
            columns = ["name"]
            if where != "xyz":
                columns += ["r1", "r2", "r3"]
            if where != "r":
                columns += ["x", "y", "z"]
            along = all(a["spin"][0] == 0 and a["spin"][1] == 0 for a in s["atoms"])
            spin = r.choice(["v", "v", "p", "vp", "vs"] + (["s"] * 3 if along else []))
            columns += {"v": ["sx", "sy", "sz"], "p": ["sp", "st", "s"], "vp": ["sx", "sy", "sz", "sp", "st", "s"],
                        "vs": ["sx", "sy", "sz", "s"], "s": ["s"]}[spin]
            if r.random() < 0.6 or any(a["g"] != 2.0 for a in s["atoms"]):
                columns.append("g")
            if r.random() < 0.4 or any(a["charge"] for a in s["atoms"]):
                columns.append("q")
            if r.random() < 0.2:
                columns.append(r.choice(["mass", "tag"]))
            if r.random() < 0.15:
                columns += ["lx", "ly", "lz"]
            r.shuffle(columns)
            self.line([self.case(c) if c != "name" or r.random() < 0.5 else c for c in columns])
            for a in s["atoms"]:
                v = np.array(a["spin"])
                n = np.linalg.norm(v)
                data = {"name": a["name"]}
                data.update(zip(("r1", "r2", "r3"), self.nums(a["pos"])))
                xyz = np.array(a["pos"]) @ np.array(s["cell"]) * ANGSTROM / alen / scale
                if where == "both":
                    xyz = [r.uniform(-5, 5) for _ in range(3)]
                data.update(zip(("x", "y", "z"), self.nums(xyz)))
                data.update(zip(("sx", "sy", "sz"), self.nums(v)))
                theta = np.degrees(np.arctan2(np.hypot(v[0], v[1]), v[2]))
                phi = np.degrees(np.arctan2(v[1], v[0])) % 360
                data.update({"sp": self.num(phi), "st": self.num(theta), "s": self.num(v[2] if spin == "s" else n)})
                if spin in ("vp", "vs"):
                    data.update({"sp": self.num(r.uniform(0, 360)), "st": self.num(r.uniform(0, 180)), "s": self.num(r.uniform(0, 3))})
                    if r.random() < 0.3:
                        data.update({"sp": "-", "st": "-", "s": "-"})
                if n == 0 and r.random() < 0.5:
                    data.update({c: "-" for c in ("sx", "sy", "sz", "sp", "st", "s")})
                data["g"] = "-" if a["g"] == 2.0 and r.random() < 0.4 else self.num(a["g"])
                data["q"] = "-" if not a["charge"] and r.random() < 0.5 else self.num(a["charge"] or 0)
                for c in ("mass", "tag", "lx", "ly", "lz"):
                    data[c] = r.choice(["-", "1.5", "7"])
                self.line([data[c] for c in columns])

        def word(full):
            k = r.choice([full, full, full[0], full.split("-")[0]])
            return self.case(k)

        dc, sn, xf, of = self.notation

        def write_notation():
            self.header("Notation", "")
            lines = []
            if s["bonds"] or s["onsite"]:
                lines.append([word("spin-normalized"), self.case(r.choice(TRUE if sn else FALSE))])
            if s["bonds"]:
                lines.append([word("double-counting"), self.case(r.choice(TRUE if dc else FALSE))])
                lines.append([word("exchange-factor"), self.num(xf)])
            if s["onsite"] or r.random() < 0.2:
                lines.append([word("on-site-factor"), self.num(of)])
            r.shuffle(lines)
            for x in lines:
                self.line(x)

        def energy():
            k = r.choice("mmejkr")
            name = r.choice(UNITS[k])
            if k == "m" and r.random() < 0.4:
                name = ""
            return name, EV * 1e-3 / ENERGIES[k]

        def write_exchange():
            name, f = energy()
            self.header("Exchange", name)
            self.separator("-")
            bonds = []
            for i, j, R, m in s["bonds"]:
                a, b = s["atoms"][i]["name"], s["atoms"][j]["name"]
                bonds.append((a, b, R, np.array(m)))
                if dc and r.random() < 0.3:  # the file may list both directions
                    bonds.append((b, a, [-x for x in R], np.array(m).T))
            r.shuffle(bonds)
            for a, b, R, m in bonds:
                self.line([a, b] + [str(x) for x in R])
                iso, symm, dmi = parts(m * f)
                entries = []
                kind = r.choice(["matrix", "matrix", "parts", "over"])
                given = {"matrix": [], "parts": ["i", "d", "s"], "over": r.sample(["i", "d", "s"], r.randint(1, 3))}[kind]
                full = m * f
                if kind == "over":  # the given part replaces the one of the matrix
                    if "i" in given:
                        full = full + r.uniform(-3, 3) * f * np.eye(3)
                    if "d" in given:
                        g = np.array([[0, 1.5, -2], [-1.5, 0, 0.7], [2, -0.7, 0]]) * f
                        full = full + g
                    if "s" in given:
                        full = full + np.array([[1, 0.3, 0], [0.3, -3, 2], [0, 2, 2]]) * f
                if "i" in given:
                    entries.append([[word("isotropic"), self.num(iso)]])
                if "d" in given:
                    entries.append([[self.case(r.choice(["DMI", "D"]))] + self.nums(dmi)])
                if "s" in given:
                    entries.append([[word("symmetric-anisotropy")] + self.nums([symm[0, 0], symm[1, 1], symm[0, 1], symm[0, 2], symm[1, 2]])])
                if kind != "parts":
                    entries.append([[self.case(r.choice(["Matrix", "m"]))]] + [self.nums(x) for x in full])
                r.shuffle(entries)
                for e in entries:
                    for x in e:
                        self.line(x)
                self.separator("-")

        def write_on_site():
            name, f = energy()
            self.header("On-site", name)
            self.separator("-")
            terms = list(s["onsite"])
            r.shuffle(terms)
            for i, m in terms:
                m = np.array(m) * f
                self.line([s["atoms"][i]["name"]])
                self.line(self.nums([m[0, 0], m[1, 1], m[2, 2], m[0, 1], m[0, 2], m[1, 2]]))
                self.separator("-")

        def write_cone():
            n = np.array(s["cone"]) / np.linalg.norm(s["cone"])
            k = r.choice(["angles", "absolute", "relative", "default"])
            self.header("Cone-axis", {"absolute": r.choice(["Absolute", "a"]), "relative": r.choice(["Relative", "r"]),
                                      "default": "", "angles": r.choice(["", "Absolute", "Relative"])}[k])
            if k == "angles":
                alpha = np.degrees(np.arctan2(np.hypot(n[0], n[1]), n[2]))
                self.line(self.nums([alpha, np.degrees(np.arctan2(n[1], n[0]))]))
            else:
                v = n * r.choice([1.0, 0.01, 40.0])
                if k != "absolute":
                    v = v @ np.linalg.inv(np.array(s["cell"]))
                self.line(self.nums(v))

        def write_spiral():
            k = r.choice(["absolute", "relative", "default"])
            self.header("Spiral-vector", {"absolute": r.choice(["Absolute", "abs"]), "relative": r.choice(["Relative", "r"]), "default": ""}[k])
            q = np.array(s["spiral"])
            if k == "absolute":
                q = q @ (2 * np.pi * np.linalg.inv(np.array(s["cell"])).T) * length / ANGSTROM
            self.line(self.nums(q))

        sections = [write_cell, write_atoms]
        if s["bonds"] or s["onsite"] or r.random() < 0.1:
            sections.append(write_notation)
        if s["bonds"]:
            sections.append(write_exchange)
        if s["onsite"]:
            sections.append(write_on_site)
        if s["cone"] is not None:
            sections.append(write_cone)
        if s["spiral"] is not None:
            sections.append(write_spiral)
        if r.random() < 0.6:
            r.shuffle(sections)
        if r.random() < 0.8:
            self.separator("=")
        for x in sections:
            x()
            self.separator("=")
        return r.choice(["\n", "\n", "\n", "\r\n"]).join(self.out) + r.choice(["", "\n"])


def text(spec, notation, style):
    return Text(spec, notation, style).text()


def hdf5(path, spec, notation, style, group="spinham"):
    """The model in the documented structure of the HDF5 file."""
    import h5py

    r = random.Random(style)
    s = spec
    dc, sn, xf, of = notation

    def case(word):
        return r.choice([word, word, word.lower(), word.upper()])

    with h5py.File(path, "w") as f:
        if r.random() < 0.3:
            f.create_group("notes").attrs["type"] = "Something else"
        g = f.create_group(group)
        g.attrs["type"] = case("SpinHamiltonian")
        absolute = r.random() < 0.5
        u, length = ("Angstrom", ANGSTROM) if s["spiral"] is not None and absolute else r.choice([("Angstrom", ANGSTROM), ("Bohr", BOHR)])
        c = g.create_group("cell")
        c.attrs["units"] = case(u)
        for i in range(3):
            c.create_dataset(f"a{i + 1}", data=np.array(s["cell"][i]) * ANGSTROM / length)
        atoms = g.create_group("atoms")
        for i, a in enumerate(s["atoms"]):
            x = atoms.create_group(str(i + 1))
            x.create_dataset("name", data=a["name"])
            x.create_dataset("position", data=a["pos"], dtype=float)
            x.create_dataset("spin", data=a["spin"], dtype=float)
            x.create_dataset("g-factor", data=a["g"], dtype=float)
            if a["charge"] is not None:
                x.create_dataset("charge", data=a["charge"], dtype=float)
        if s["bonds"] or s["onsite"]:
            n = g.create_group("notation")
            n.create_dataset("spin-normalized", data=int(sn))
            if s["bonds"]:
                n.create_dataset("double-counting", data=int(dc))
                n.create_dataset("exchange-factor", data=float(xf))
            if s["onsite"] or r.random() < 0.2:
                n.create_dataset("on-site-factor", data=float(of))
        if s["bonds"]:
            k = r.choice("mejkr")
            e = g.create_group("exchange")
            e.attrs["units"] = case(FULL[k])
            for i, (a, b, R, m) in enumerate(s["bonds"]):
                x = e.create_group(str(i + 1))
                x.create_dataset("atom-1", data=s["atoms"][a]["name"])
                x.create_dataset("atom-2", data=s["atoms"][b]["name"])
                x.create_dataset("ijk", data=R, dtype=int)
                x.create_dataset("matrix", data=np.array(m) * EV * 1e-3 / ENERGIES[k])
        if s["onsite"]:
            k = r.choice("mejkr")
            e = g.create_group("on-site")
            e.attrs["units"] = case(FULL[k])
            for i, (a, m) in enumerate(s["onsite"]):
                x = e.create_group(str(i + 1))
                x.create_dataset("atom", data=s["atoms"][a]["name"])
                x.create_dataset("matrix", data=np.array(m) * EV * 1e-3 / ENERGIES[k])
        if s["spiral"] is not None:
            q = np.array(s["spiral"])
            if absolute:
                q = q @ (2 * np.pi * np.linalg.inv(np.array(s["cell"])).T)
            d = g.create_dataset("spiral-vector", data=q)
            d.attrs["units"] = case("Absolute" if absolute else "Relative")
        if s["cone"] is not None:
            n = np.array(s["cone"])
            rel = r.random() < 0.5
            d = g.create_dataset("cone-axis", data=n @ np.linalg.inv(np.array(s["cell"])) if rel else n)
            d.attrs["units"] = case("Relative" if rel else "Absolute")
