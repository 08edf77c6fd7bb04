"""P13: a TB2J file is loaded and converted without loss."""

import os

import numpy as np
from wulfric import Atom

from magnopy import load_spinham
from magnopy.io.txt.tb2j import load_tb2j
from magnopy.score import convert_tb2j
from sim import gen, history, ops, tb2j
from sim.engine import Violation, outcome

PROPERTY = "P13"
RUNS = {"quick": 1400, "thorough": 40000}
SHRINK = ["runs", "runs.*.faults", "tb2j.bonds"]
RULE = (
    "one run = a generated TB2J file (both directions or one direction of every bond, any subset of the parts of the "
    "parameters) that is loaded and converted several times to text and HDF5 with seeded names and formats, under short "
    "reads and writes, interrupted conversions and disk errors; every result is compared with a reference table built "
    "from the description of the file; non-trivial: a fault fired or more than one conversion was made"
)
TOL = {"cell": 5.001e-9, "pos": 2e-8, "spin": 5.001e-5, "g": 5.001e-5, "param": 5.001e-5}


def generate(rng, tier):
    runs = []
    for _ in range(rng.randint(1, 4)):
        mode = rng.choice(["plain", "short", "short", "error", "interrupt"])
        r = {
            "out": rng.choice(["m.txt", "m.hdf5", "m", "spinham.txt", "a.txt", "sub/m.hdf5", "from.txt.copy", "sub.txt/m",
                               "sub.hdf5/m.hdf5", "m.hdf5.1", "x.txtm", None]),
            "format": rng.choice([None, None, "txt", "hdf5"]),
            "verbose": rng.random() < 0.3,
            "mode": mode,
            "faults": [],
            "spec": {"at": rng.randrange(1_000_000), "kind": "interrupt"},
        }
        if mode == "short":
            r["faults"] = [
                {"cls": rng.choice(["read", "write"]), "at": rng.randrange(1_000_000), "action": "short",
                 "part": rng.randrange(1_000_000)} for _ in range(2)
            ]
        elif mode == "error":
            r["faults"] = [
                {"cls": rng.choice(["read", "open", "openw", "write", "close"]), "at": rng.randrange(1_000_000),
                 "action": "err", "errno": "EIO"}
            ]
        runs.append(r)
    return {"tb2j": tb2j.gen_tb2j(rng, natoms=(1, 6), nbonds=(1, 14)), "runs": runs, "name": rng.choice(["exchange.out", "tb.out"])}


def reference(spec):
    ref = history.Reference()
    for c, v in zip(history.COMPONENTS, gen.PREDEFINED["tb2j"]):
        ref.set(c, v)
    for a in spec["atoms"]:
        m = np.array([float(f"{x:.4f}") for x in a["mag"]])
        ref.add_atom(a["name"], m / 2)
    for b in spec["bonds"]:
        ref.add(spec["atoms"][b[0]]["name"], spec["atoms"][b[1]]["name"], b[2], tb2j.matrix(b))
    return ref


def execute(sc, w):
    spec = sc["tb2j"]
    if not spec["bonds"]:
        return
    src = w.path(sc["name"])
    for d in ("sub", "sub.txt", "sub.hdf5"):
        os.mkdir(w.path(d))
    text = tb2j.render(spec)
    with open(src, "w") as f:
        f.write(text)
    ref = reference(spec)
    h = load_tb2j(src)
    history.compare(w, h, ref, "loading the TB2J file")
    w.check(np.allclose(h.cell, spec["cell"], rtol=0, atol=1e-9), "cell", f"cell is {h.cell.tolist()}")
    pos = tb2j.positions(spec)
    for a, s, p in zip(h.atoms, spec["atoms"], pos):
        want = Atom(s["name"], (0, 0, 0), magmom=s["mag"], charge=s["charge"])
        w.check(np.allclose(np.array(a.position) @ np.array(spec["cell"]), p, rtol=0, atol=2e-4), "position",
                f"position of {a.name} is {a.position}")
        w.check(np.allclose(a.magmom, s["mag"], rtol=0, atol=1e-9) and np.allclose(a.spin_vector, want.spin_vector, rtol=0, atol=1e-9),
                "moment", f"moment of {a.name} is {a.magmom} instead of {s['mag']}")
        w.check(abs(a.charge - s["charge"]) < 1e-9, "charge", f"charge of {a.name} is {a.charge}")
    snap = gen.snapshot(h)
    for n, r in enumerate(sc["runs"]):
        out = w.path(r["out"] or "spinham.txt")  # the default name, in the working directory
        fmt = r["format"] or ("hdf5" if out.endswith(".hdf5") else "txt")
        final = out
        if fmt == "hdf5":
            for e in (".txt", ".hdf5"):
                if final.endswith(e):
                    final = final[: -len(e)]
            final += ".hdf5"
        args = ["-if", src] + (["-of", out] if r["out"] else []) + (["-f", r["format"]] if r["format"] else []) + (["-v"] if r["verbose"] else [])
        fn = lambda: ops.command_line(convert_tb2j, args)
        if os.path.exists(final):
            os.unlink(final)
        first, counted = w.counted(fn)
        if not first.ok:
            raise first.exc
        w.check(os.path.exists(final), "missing", f"file {os.path.basename(final)} of {r} is not there")
        if r["faults"]:
            os.unlink(final)
            got, fired = w.with_faults(fn, r["faults"], counted)
            w.log(n, fmt, r["mode"], fired, got.name())
            if not got.ok:
                w.check(r["mode"] == "error" and fired > 0, "failed", f"conversion failed: {got.name()}: {got.exc}")
                if os.path.exists(final):
                    os.unlink(final)
                out2 = outcome(fn)
                w.check(out2.ok, "retry", f"conversion after the fault fails: {out2.name()}: {out2.exc}")
        elif r["mode"] == "interrupt":
            os.unlink(final)
            w.interrupt_existing = None
            delivered, where, _, e = interrupted(w, fn, final, r["spec"])
            w.log(n, fmt, "interrupt", delivered, where)
            if os.path.exists(final):
                os.unlink(final)
            out2 = outcome(fn)
            w.check(out2.ok, "retry", f"conversion after an interrupted one fails: {out2.name()}: {out2.exc}")
        w.check(os.path.exists(final), "missing", f"file {os.path.basename(final)} of {r} is not there")
        back = load_spinham(final, spinham_format=fmt)
        tol = TOL if fmt == "txt" else None
        # spins and parameters of the converted file are those of the file of TB2J
        gen.same(w, back, h, "converted", f"conversion {n} to {fmt}", tol=tol, order=False, charges=fmt == "hdf5")
        if fmt == "hdf5":
            history.compare(w, back, fill(ref, back), f"conversion {n} to {fmt}")
        w.check(open(src).read() == text, "source", "conversion changed the file of TB2J")
        d = gen.diff(snap, gen.snapshot(load_tb2j(src)))
        w.check(d is None, "reload", f"the file of TB2J loads differently after conversions: {d}")
        if r["verbose"]:
            w.probe("verbose")
        w.probe(fmt)
        w.log(n, gen.snapshot(back))
    w.state(len(spec["atoms"]), len(spec["bonds"]), spec["both"])
    w.nontrivial = bool(w.faults) or len(sc["runs"]) > 1


def interrupted(w, fn, final, spec):
    def clean():
        if os.path.exists(final):
            os.unlink(final)
        return fn()

    return w.interrupt(clean, spec)


def fill(ref, h):
    """The file has only the components of the notation that are needed."""
    out = ref.copy()
    for c in history.COMPONENTS:
        if gen.component(h, c) is None and not (ref.on and c == "on_site_factor"):
            if c == "on_site_factor":
                out.notation[c] = None
    return out
