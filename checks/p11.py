"""P11: text and HDF5 files are interchangeable and the format is recognised."""

import os

import numpy as np

from magnopy import dump_spinham_hdf5, dump_spinham_txt, load_spinham, load_spinham_hdf5, load_spinham_txt
from magnopy.io.txt.tb2j import load_tb2j
from sim import gen, ops, tb2j
from sim.engine import Violation, outcome

PROPERTY = "P11"
RUNS = {"quick": 1000, "thorough": 30000}
SHRINK = ["chain", "chain.*.faults", "ham.bonds", "ham.onsite"]
RULE = (
    "one run = a Hamiltonian that travels through a seeded chain of text and HDF5 files (format given or recognised by "
    "the name, short reads and writes, interrupted attempts in between); after every leg it is compared with the start "
    "(exactly while only HDF5 was used, to the printed precision after the first text file, and from then on it does "
    "not drift any more), and every file is also offered under wrong formats; non-trivial: at least two legs"
)
TOL = {
    "cell": 5.001e-9, "pos": 5.001e-9, "spin": 5.001e-5, "g": 5.001e-5, "param": 5.001e-5, "cone_axis": 2e-8,
    "spiral_vector": 5.001e-9,
}
STILL = {"cell": 1e-11, "pos": 1e-11, "spin": 1e-11, "g": 1e-11, "param": 1e-7, "cone_axis": 4e-8, "spiral_vector": 1e-11}


def generate(rng, tier):
    chain = []
    for _ in range(rng.randint(1, 6)):
        fmt = rng.choice(["txt", "hdf5"])
        leg = {
            "fmt": fmt,
            "name": rng.choice(
                {"txt": ["m.txt", "m", "m.dat", "hdf5", "m.hdf5.txt", "exchange.out.txt", "M.TXT"],
                 "hdf5": ["m.hdf5", "n.hdf5", "x.txt.hdf5", "exchange.out.hdf5", "plain"]}[fmt]
            ),
            "given": rng.choice([None, None, fmt, fmt.upper(), fmt.capitalize()]),
            "group": rng.choice(["spinham", "g"]),
            "faults": [
                {"cls": rng.choice(["read", "write"]), "at": rng.randrange(1_000_000), "action": "short",
                 "part": rng.randrange(1_000_000)}
                for _ in range(rng.choice([0, 0, 1, 2]))
            ],
            "interrupt": None if rng.random() < 0.8 else {"at": rng.randrange(1_000_000), "kind": "interrupt"},
            "wrong": rng.random() < 0.3,
        }
        if leg["name"] == "plain":
            leg["given"] = leg["given"] or "hdf5"
        chain.append(leg)
    return {"ham": gen.gen_ham(rng, far=True, natoms=(1, 5), nbonds=(0, 8), notation="any", onsite=0.7), "chain": chain,
            "tb2j": tb2j.gen_tb2j(rng), "tb": rng.random() < 0.3}


def execute(sc, w):
    if sc["tb"]:
        # the file of TB2J is recognised by its name or by the format
        text = tb2j.render(sc["tb2j"])
        for name, fmt in (("exchange.out", None), ("my-exchange.out", None), ("other.txt", "tb2j"), ("x.hdf5", "TB2J")):
            with open(w.path(name), "w") as f:
                f.write(text)
            got = load_spinham(w.path(name), spinham_format=fmt)
            d = gen.diff(gen.snapshot(load_tb2j(w.path(name))), gen.snapshot(got))
            w.check(d is None, "dispatch", f"TB2J file {name} (format {fmt}) is loaded differently: {d}")
            os.unlink(w.path(name))
        start = load_tb2j_from(w, text)
        w.probe("tb2j")
    else:
        start = gen.build(sc["ham"])
    h = start
    rounded = None  # the state after the first text file
    for n, leg in enumerate(sc["chain"]):
        path = w.path(f"{n}")
        os.mkdir(path)
        path = os.path.join(path, leg["name"])
        fmt = leg["fmt"]
        if fmt == "txt":
            save = lambda: dump_spinham_txt(h, filename=path)
        else:
            save = lambda: dump_spinham_hdf5(h, filename=path, groupname=leg["group"], overwrite=True)
        kw = {}
        if leg["given"] is not None:
            kw["spinham_format"] = leg["given"]
        load = lambda: load_spinham(path, **kw)
        if leg["interrupt"]:
            w.interrupt(save, leg["interrupt"])
            if os.path.exists(path):
                os.unlink(path)
        first, counted = w.counted(save)
        if not first.ok:
            raise first.exc
        fw = [f for f in leg["faults"] if f["cls"] == "write"]
        fr = [f for f in leg["faults"] if f["cls"] == "read"]
        if fw:
            os.unlink(path)
            out, _ = w.with_faults(save, fw, counted)
            if not out.ok:
                raise out.exc
        if leg["interrupt"]:
            w.interrupt(load, leg["interrupt"])
        first, counted = w.counted(load)
        if not first.ok:
            raise Violation("unreadable", f"{fmt} file {leg['name']} (format {leg['given']}) can not be loaded: {first.name()}: {first.exc}")
        out = first
        if fr:
            out, _ = w.with_faults(load, fr, counted)
            if not out.ok:
                raise out.exc
        got = out.value
        direct = load_spinham_txt(path) if fmt == "txt" else load_spinham_hdf5(path, groupname=leg["group"])
        d = gen.diff(gen.snapshot(direct), gen.snapshot(got))
        w.check(d is None, "dispatch", f"{fmt} file {leg['name']} is loaded differently by the general function: {d}")
        if fmt == "txt":
            gen.same(w, got, start, "converted", f"chain of {n + 1} files", tol={k: v * (n + 1) if k == "cone_axis" else v for k, v in TOL.items()}, order=False, charges=False)
            if rounded is None:
                rounded = got
        else:
            exact = {"cone_axis": 1e-14}
            gen.same(w, got, h, "converted", "HDF5 file in the chain", tol=exact, order=False)
        if rounded is not None:
            t = dict(STILL)
            t["cone_axis"] = STILL["cone_axis"] * (n + 2)
            gen.same(w, got, rounded, "drift", f"file {n} of the chain", tol=t, order=False, charges=False)
            w.probe("after-rounding")
        if outcome(lambda: start.notation).ok and outcome(lambda: got.notation).ok and start.I:
            if rounded is None:
                s, _, _ = ops.directions(start, 3)
                a, b = ops.energy(start).ferro(s), ops.energy(got).ferro(s)
                w.check(abs(a - b) <= 1e-9 * (1 + abs(a)), "energy", f"energy is {b} instead of {a} after an HDF5 file")
        # formats that do not fit are rejected
        if leg["wrong"]:
            other = "hdf5" if fmt == "txt" else "txt"
            out = outcome(lambda: load_spinham(path, spinham_format=other))
            w.check(not out.ok, "wrong-format", f"{fmt} file is loaded as {other}")
            out = outcome(lambda: load_spinham(path, spinham_format="xml"))
            w.check(out.name() == "ValueError", "wrong-format", f"unknown format ends with {out.name()}")
            again = load()
            d = gen.diff(gen.snapshot(got), gen.snapshot(again))
            w.check(d is None, "wrong-format", f"attempts with a wrong format changed the file: {d}")
            w.probe("wrong-format")
        h = got
        w.log(n, fmt, leg["name"], gen.snapshot(got))
        w.probe(fmt)
        w.state([l["fmt"] for l in sc["chain"][: n + 1]], leg["name"])
    w.nontrivial = len(sc["chain"]) >= 2


def load_tb2j_from(w, text):
    with open(w.path("start.out"), "w") as f:
        f.write(text)
    return load_tb2j(w.path("start.out"))
