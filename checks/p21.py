"""P21: the dispersion command writes the true spectrum along the requested path, completely."""

import contextlib
import gc
import io
import os
import re
import shutil
import traceback

import matplotlib.pyplot as plt
import numpy as np
from wulfric import Atom, Crystal

from magnopy import MagnonDispersion, dump_spinham_hdf5, dump_spinham_txt, load_spinham
from magnopy.exceptions import NotationError
from magnopy.score import magnon_dispersion
from sim import gen, ops, spectrum, tb2j
from sim.engine import Violation, outcome

from checks.p20 import lattice

PROPERTY = "P21"
RUNS = {"quick": 120, "thorough": 10000}
SHRINK = ["runs", "ham.bonds", "ham.onsite", "runs.*.faults"]
RULE = (
    "one run = a model saved to a file (seeded lattice, format and notation, on-site terms that make most spectra stable) and "
    "several runs of the dispersion command (seeded path, points of the user, output name, one or two text files), plain, "
    "under disk faults, interrupted at a seeded line; the table is parsed and compared with energies computed independently "
    "from the couplings at the absolute k-points and with the path of the standardised crystal; non-trivial: a fault fired "
    "or two tables were compared"
)
STUBS = ["disk below the system calls", "plots"]


def stable(rng, ham, sign):
    """On-site terms that make the given spin directions the easy ones (in the notation of the model)."""
    dc, sn, xf, of = gen.notation_tuple(ham["notation"])
    soft = rng.choice([0.02, 0.05])
    for b in ham["bonds"]:
        b[3] = [[x * soft for x in row] for row in b[3]]
    ham["onsite"] = []
    for i, a in enumerate(ham["atoms"]):
        s = np.array(a["spin"])
        v = s / np.linalg.norm(s)
        m = -sign * rng.uniform(3, 6) * np.outer(v, v) / of
        if sn:
            m = m * (s @ s)
        ham["onsite"].append([i, np.round((m + m.T) / 2, 4).tolist()])


def generate(rng, tier):
    ham = gen.gen_ham(rng, natoms=(1, 3), nbonds=(1, 4), notation="any", extra_atoms=False)
    name, ham["cell"] = lattice(rng)
    kind = rng.random()
    if kind < 0.85:
        stable(rng, ham, 1 if kind < 0.7 else -1)
    runs = []
    for _ in range(rng.randint(1, 3)):
        points = []
        for i in range(rng.choice([0, 0, 0, 1, 2])):
            points.append([f"user{i}", rng.choice([f"user{i}", "$\\Gamma_1$", "Q"]), *[round(rng.uniform(-1, 1), 4) for _ in range(3)]])
        path = None
        if rng.random() < 0.93:
            path = [[rng.randrange(1000) for _ in range(rng.choice([2, 2, 3, 3, 4, 5]))] for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        f = ops.disk_faults(rng, 1)
        mode = rng.choice(["plain", "disk", "disk", "short", "interrupt"])
        for x in f:
            x["cls"] = rng.choice(["write", "write", "write", "openw", "close", "open", "read"])
            x["action"] = rng.choice(["err", "err", "full"]) if x["cls"] == "write" else "err"
            if mode == "short":
                x["cls"], x["action"] = rng.choice(["read", "write"]), "short"
        runs.append({
            "points": points, "path": path,
            "text": rng.random() < 0.9, "join": rng.random() < 0.4, "verbose": rng.random() < 0.3,
            "seedname": rng.choice([None, "out", "sub/run", "new/deep/run", "sub/", "a b"]),
            "format": rng.random() < 0.4, "absolute": rng.random() < 0.4,
            "mode": mode, "faults": f, "notation": gen.gen_notation(rng),
            "spec": {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"])},
        })
    return {
        "ham": ham, "lattice": name, "tb2j": tb2j.gen_tb2j(rng, natoms=(1, 2), nbonds=(1, 3)),
        "file": rng.choice(["model.txt", "model.txt", "model.hdf5", "model.hdf5", "data/model.hdf5", "model", "exchange.out"]),
        "kind": rng.choice(["txt", "hdf5"]), "runs": runs,
    }


def parse(text, commented):
    """Rows of the table; the lines before it."""
    head, rows = [], []
    for line in text.split("\n"):
        x = line.split()
        if x and re.fullmatch(r"[-+0-9.eE naif]+", line):
            rows.append([float(v) for v in x])
        elif rows and line.strip():
            raise ValueError(f"unexpected line in the table: {line!r}")
        else:
            head.append(line)
    if not text.endswith("\n"):
        raise ValueError("the table ends without a new line")
    return head, np.array(rows)


def execute(sc, w):
    spectrum.memoise_lattice_type()
    for d in ("sub", "data"):
        os.mkdir(w.path(d))
    name = w.path(sc["file"])
    kind = {".txt": "txt", ".hdf5": "hdf5", ".out": "tb2j"}.get(os.path.splitext(sc["file"])[1], sc["kind"])
    if kind == "tb2j":
        if not sc["tb2j"]["bonds"]:
            return
        with open(name, "w") as f:
            f.write(tb2j.render(sc["tb2j"]))
    else:
        h = gen.build(sc["ham"])
        if not len(h.exchange):
            return
        (dump_spinham_txt if kind == "txt" else dump_spinham_hdf5)(h, filename=name)
    h = load_spinham(name, spinham_format=kind)
    try:
        h.notation
    except NotationError:
        if not len(h.on_site):
            h.on_site_factor = 1
    mod = spectrum.model(h)
    magnetic = len(mod[0])
    if any(np.linalg.norm(s) < 1e-3 for s in mod[0]):
        return
    scale = sum(float(np.max(np.abs(c[3]))) for c in mod[1]) * 9 * max(np.linalg.norm(s) for s in mod[0])
    # the crystal of the command, from the library of lattices alone
    std = Crystal(cell=np.array(h.cell))
    std.eps_rel = h.eps_rel
    for a in h.atoms:
        std.add_atom(Atom(a.name, np.array(a.position)))
    o = outcome(lambda: [std.standardize(), std.variation, std.kpoints])  # some cells are beyond the library
    with open(w.path("notes"), "w") as f:
        f.write("notes of the user")
    outside = {n: open(w.path(n), "rb").read() for n in (sc["file"], "notes")}
    os.chdir(w.vol)

    def tree():
        return {os.path.relpath(os.path.join(d, f), w.vol) for d, _, fs in os.walk(w.vol) for f in fs}

    returned = 0
    for i, r in enumerate(sc["runs"]):
        what = f"dispersion command {i} ({sc['lattice']}, {r['mode']})"

        def command(seedname, source=sc["file"]):
            argv = ["-sh", w.path(source) if r["absolute"] else source]
            if r["format"] or "." not in source:
                argv += ["-shf", kind if source == sc["file"] else "hdf5"]
            if seedname is not None:
                argv += ["-os", seedname]
            if r["text"]:
                argv += ["-st"]
            if r["join"]:
                argv += ["-jo"]
            if r["verbose"]:
                argv += ["-v"]
            if r["points"]:
                argv += ["-kps"] + [str(x) for p in r["points"] for x in p]
            if path is not None:
                argv += ["-kp", path]

            def run():
                out = io.StringIO()
                try:
                    with contextlib.redirect_stdout(out):
                        ops.command_line(magnon_dispersion, argv)
                finally:
                    plt.close("all")
                return out.getvalue()
            return run

        path = None
        if not o.ok:
            f = outcome(command("spare"))
            w.check(f.name() == o.name(), "failed", f"{what}: {f.name()} where the cell can not be standardised")
            w.probe("not standardised")
            for n, data in outside.items():
                w.check(open(w.path(n), "rb").read() == data, "touched", f"{what} changed {n}")
            continue
        kp = std.copy().kpoints  # the object keeps its points
        for p in r["points"]:
            kp.add_hs_point(name=p[0], coordinates=p[2:], label=p[1])
        if r["path"] is not None:
            names = sorted(kp.hs_names)
            parts = []
            for part in r["path"]:
                seq = []
                for x in part:
                    # points of the user are used often
                    n = r["points"][x % len(r["points"])][0] if r["points"] and x % 3 == 0 else names[x % len(names)]
                    if not seq or seq[-1] != n:
                        seq.append(n)
                if len(seq) > 1:
                    parts.append("-".join(seq))
            path = "|".join(parts) or f"{names[0]}-{names[1]}"
            kp.path = path
        rel, absolute = np.array(kp.points(relative=True)), np.array(kp.points(relative=True)) @ np.array(std.reciprocal_cell)
        flat = np.array(kp.flatten_points())

        def stem(seedname, source=sc["file"]):
            d, t = os.path.split(seedname or "dispersion")
            return os.path.join(d or os.path.dirname(source), t or "dispersion")

        def expected(stem):
            out = {stem + ".png"}
            if r["text"]:
                out |= {stem + ".txt"} if r["join"] else {stem + "_info.txt", stem + "_data.txt"}
            return out

        def table(stem, what, source=sc["file"]):
            """The table of a run that returned, after all checks."""
            def bad(kind, msg):
                raise Violation(kind, f"{what}: {msg}"[:900])

            if r["join"]:
                text = open(w.path(stem + ".txt"), encoding="utf-8").read()
            else:
                text = open(w.path(stem + "_data.txt"), encoding="utf-8").read()
            parsed = outcome(lambda: parse(text, not r["join"]))
            if not parsed.ok:
                bad("table", f"table can not be read: {parsed.exc}")
            head, rows = parsed.value
            if r["join"]:
                info = "\n".join(head)
            else:
                info = open(w.path(stem + "_info.txt"), encoding="utf-8").read()
                if w.path(stem + "_data.txt") not in info:
                    bad("info", "name of the file with the data is not in the info file")
            if w.path(source) not in info:
                bad("info", "name of the input file is not in the info")
            if f"  {kp.path_string}\n" not in info:
                bad("info", f"path {kp.path_string} is not in the info")
            for n in range(magnetic):
                if f"omega_{n}" not in info:
                    bad("info", f"column omega_{n} is not announced")
            if rows.shape != (len(flat), 1 + magnetic + 6):
                bad("table", f"table has the shape {rows.shape} instead of {(len(flat), 1 + magnetic + 6)}")
            if not np.allclose(rows[:, 0], flat, rtol=0, atol=6e-9 * 2) or np.any(np.diff(rows[:, 0]) < -1e-9):
                bad("coordinate", "coordinates along the path are wrong")
            if not np.allclose(rows[:, -6:-3], rel, rtol=0, atol=2e-8):
                j = int(np.argmax(np.max(np.abs(rows[:, -6:-3] - rel), axis=1)))
                bad("k", f"relative k-point {j} is {rows[j, -6:-3].tolist()} instead of {rel[j].tolist()}")
            if not np.allclose(rows[:, -3:], absolute, rtol=0, atol=2e-8):
                j = int(np.argmax(np.max(np.abs(rows[:, -3:] - absolute), axis=1)))
                bad("k", f"absolute k-point {j} is {rows[j, -3:].tolist()} instead of {absolute[j].tolist()}")
            for j in range(0, len(rows), max(1, len(rows) // 40)):
                want = spectrum.energies(mod, absolute[j])
                got = np.sort(rows[j, 1:1 + magnetic])
                if want is None:
                    continue
                if isinstance(want, str):
                    w.probe("unstable")
                    if np.any(got != 0):
                        bad("unstable", f"unstable spectrum at {absolute[j].tolist()} is written as {got.tolist()}")
                    continue
                w.probe("energies")
                if not np.allclose(got, want, rtol=1e-6, atol=1e-7 * max(scale, 1)):
                    bad("energies", f"energies at {absolute[j].tolist()} are {got.tolist()} instead of {want.tolist()}")
            return rows

        seedname = r["seedname"]
        if seedname is not None and not seedname.endswith("/"):
            seedname = f"{seedname}{i}"
        before = tree()
        for f in expected(stem(seedname)):
            if f in before:
                os.unlink(w.path(f))
        before = tree()
        first = outcome(command(seedname))
        w.check(first.ok, "failed", f"{what} fails: {first.name()}")
        w.check(first.held == 0, "handle", f"{what} left {first.held} files open")
        w.check(tree() - before == expected(stem(seedname)), "files",
                f"{what} wrote {sorted(tree() - before)} instead of {sorted(expected(stem(seedname)))}")
        w.check(os.path.dirname(w.path(stem(seedname))) in first.value or not os.path.dirname(stem(seedname)), "printed",
                f"{what} printed {first.value!r}")
        returned += 1
        rows = table(stem(seedname), what) if r["text"] else None
        w.log(what, None if rows is None else rows.shape)
        for n, data in outside.items():
            w.check(open(w.path(n), "rb").read() == data, "touched", f"{what} changed {n}")
        if rows is None:
            continue

        # ---- the library gives the same numbers
        full = MagnonDispersion(h)
        for j in range(0, len(rows), max(1, len(rows) // 8)):
            if isinstance(spectrum.energies(mod, absolute[j]), np.ndarray):
                got = np.sort(full.omega(absolute[j]))
                w.check(np.allclose(got, np.sort(rows[j, 1:1 + magnetic]), rtol=1e-6, atol=1e-7 * max(scale, 1)), "library",
                        f"{what}: library gives {got.tolist()} at {absolute[j].tolist()}, the table {rows[j, 1:1 + magnetic].tolist()}")

        # ---- the same model in another file and notation
        if i == 0:
            other = h.copy()
            other.notation = r["notation"] if isinstance(r["notation"], str) else tuple(r["notation"])
            dump_spinham_hdf5(other, filename=w.path("other.hdf5"))
            f = outcome(command("other", "other.hdf5"))
            w.check(f.ok, "failed", f"{what} fails in another notation: {f.name()}")
            table("other", what + " in another notation", "other.hdf5")
            for n in expected("other"):
                os.unlink(w.path(n))
            os.unlink(w.path("other.hdf5"))

        def same(second, what):
            w.check(np.array_equal(second, rows), "repeat", f"{what}: another table")

        # ---- under faults, and once more without them
        _, counted = w.counted(command("second/x"))
        same(table("second/x", what + ", repeated"), what + ", repeated")
        shutil.rmtree(w.path("second"))
        if r["mode"] in ("disk", "short"):
            f, fired = w.with_faults(command("second/x"), r["faults"], counted)
            w.log("faults", fired, f.name())
            if f.ok:
                same(table("second/x", f"{what}, {fired} faults fired"), f"{what}, {fired} faults fired")
                w.check(expected("second/x") <= tree(), "missing", f"{what}: {fired} faults fired and files are missing")
            else:
                w.check(fired > 0 and r["mode"] == "disk", "failed", f"{what} fails because of a short read or write or nothing: {f.name()}")
                traceback.clear_frames(f.exc.__traceback__)
                f.exc = f.exc.with_traceback(None)
        elif r["mode"] == "interrupt":
            w.log("interrupt", *w.interrupt(command("second/x"), r["spec"])[:2])
        gc.collect()
        f = outcome(command("second/x"))
        w.check(f.ok, "retry", f"{what} fails after the faults stopped: {f.name()}")
        same(table("second/x", what + " after the faults stopped"), what + " after the faults stopped")
        shutil.rmtree(w.path("second"))
        w.check(tree() - before == expected(stem(seedname)), "files", f"{what} left {sorted(tree() - before)}")
        for n, data in outside.items():
            w.check(open(w.path(n), "rb").read() == data, "touched", f"{what} changed {n}")
        w.state(sc["lattice"], kind, path, r["join"], r["mode"])
    w.nontrivial = bool(w.faults) or returned >= 2
