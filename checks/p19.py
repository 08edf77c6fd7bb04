"""P19: a model file means what the documentation says, however it is written."""

import os

import numpy as np

from magnopy import load_spinham, load_spinham_hdf5, load_spinham_txt
from sim import gen, model, ops
from sim.engine import Violation, outcome

PROPERTY = "P19"
RUNS = {"quick": 600, "thorough": 30000}
SHRINK = ["steps", "steps.*.faults", "hams", "hams.*.bonds", "hams.*.onsite"]
RULE = (
    "one run = a history of files written by a user (text and HDF5; seeded units, scales, columns, order of sections and "
    "lines, letter case, abbreviations, comments, parts of the parameters), rewritten and loaded again with the same name, "
    "under short reads, read errors, interrupts and while another file is loaded in another thread; what is loaded is "
    "compared with the description of the model; non-trivial: a fault fired or a file was loaded after it was rewritten"
)


def generate(rng, tier):
    hams = []
    for _ in range(rng.randint(1, 3)):
        ham = gen.gen_ham(rng, far=True, natoms=rng.choice([(1, 4), (1, 4), (9, 12)]), nbonds=rng.choice([(0, 6), (0, 6), (10, 13)]),
                          notation="any", onsite=0.7)
        for a in ham["atoms"]:
            if a["charge"] is None:
                a["charge"] = 0.0
        if rng.random() < 0.3:  # all the spins along z; some atoms without spin
            for a in ham["atoms"]:
                a["spin"] = [0.0, 0.0, rng.choice([1.5, 2.0, -0.5])]
        used = {b[0] for b in ham["bonds"]} | {b[1] for b in ham["bonds"]} | {o[0] for o in ham["onsite"]}
        for i, a in enumerate(ham["atoms"]):
            if i not in used and rng.random() < 0.5:
                a["spin"] = [0.0, 0.0, 0.0]
        ham["late_notation"] = False
        hams.append(ham)
    steps = []
    for _ in range(rng.randint(2, 7)):
        steps.append({
            "ham": rng.randrange(10), "style": rng.randrange(1 << 40),
            "file": rng.choice(["m.txt", "m.txt", "n.txt", "k", "m.hdf5", "h.hdf5", "g"]),
            "way": rng.choice(["plain", "plain", "short", "short", "error", "interrupt", "filtered", "threads"]),
            "faults": [{"cls": "read", "at": rng.randrange(1_000_000), "action": "short", "part": rng.randrange(1_000_000)}
                       for _ in range(rng.choice([1, 2, 4]))],
            "spec": {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"])},
            "switches": ops.switches(rng, rng.randint(1, 5), 2),
            "explicit": rng.random() < 0.4,
        })
    for s in steps:
        if s["way"] == "error":
            s["faults"] = [{"cls": rng.choice(["read", "open"]), "at": rng.randrange(1_000_000), "action": "err", "errno": rng.choice(["EIO", "EACCES"])}]
    return {"hams": hams, "steps": steps}


def kind_of(name):
    return "hdf5" if name.endswith(".hdf5") or name == "g" else "txt"


def execute(sc, w):
    if not sc["hams"]:
        return
    specs = []
    for s in sc["hams"]:
        n = len(s["atoms"])
        s = dict(s, bonds=[b for b in s["bonds"] if b[0] < n and b[1] < n], onsite=[o for o in s["onsite"] if o[0] < n])
        specs.append(s)
    wants = [gen.build(s) for s in specs]
    notations = [gen.notation_tuple(s["notation"]) for s in specs]
    on_disk = {}
    rewritten = 0

    def write(step, name):
        i = step["ham"] % len(specs)
        if kind_of(name) == "txt":
            with open(w.path(name), "w", encoding="utf-8", newline="") as f:
                f.write(model.text(specs[i], notations[i], step["style"]))
        else:
            model.hdf5(w.path(name), specs[i], notations[i], step["style"], group=["spinham", "a/b", "model"][step["style"] % 3])
        return i

    def compare(got, i, what):
        want = wants[i]
        big = max([1e-9] + [np.max(np.abs(b[3])) for b in specs[i]["bonds"]] + [np.max(np.abs(o[1])) for o in specs[i]["onsite"]])
        tol = {"cell": 1e-8, "pos": 1e-8, "spin": 1e-8, "g": 1e-12, "param": 1e-9 * big, "cone_axis": 1e-8, "spiral_vector": 1e-8}
        gen.same(w, got, want, "model", what, tol=tol, order=False)
        w.check([a.name for a in got.magnetic_atoms] is not None and len(got.magnetic_atoms) == len(want.magnetic_atoms), "model",
                f"{what}: {got.I} magnetic atoms")

    for n, step in enumerate(sc["steps"]):
        name = step["file"]
        rewritten += name in on_disk
        i = on_disk[name] = write(step, name)
        kind = kind_of(name)
        path = w.path(name)
        data = open(path, "rb").read()
        what = f"{kind} file (layout {step['style']}, {step['way']})"

        def load(p=path, name=name, kind=kind):
            def run():
                if step["explicit"] or name in ("k", "g"):
                    return load_spinham(p, spinham_format=kind)
                return load_spinham(p)
            return run

        files = sorted(os.listdir(w.vol))
        if step["way"] == "filtered" and kind == "txt":
            o = outcome(lambda: load_spinham_txt(path, save_filtered=True))
            w.check(o.ok, "load", f"{what} can not be loaded: {o.name()}: {o.exc}")
            compare(o.value, i, what)
            filtered = w.path("filtered_" + name)
            w.check(os.path.exists(filtered), "filtered", f"{what}: no filtered file")
            text = open(filtered, encoding="utf-8").read()
            w.check("#" not in text and "\n\n" not in text, "filtered", f"{what}: filtered file has comments or blank lines")
            compare(load_spinham_txt(filtered), i, what + ", the filtered file")
            os.unlink(filtered)
        elif step["way"] in ("short", "error"):
            _, counted = w.counted(load())
            o, fired = w.with_faults(load(), step["faults"], counted)
            w.log(n, "faults", fired, o.name())
            if o.ok:
                compare(o.value, i, f"{what}, {fired} faults fired")
            else:
                w.check(fired > 0 and step["way"] == "error", "load", f"{what} can not be loaded: {o.name()}: {o.exc}")
        elif step["way"] == "interrupt":
            delivered, where, _, ex = w.interrupt(load(), step["spec"])
            w.log(n, "interrupt", delivered, where)
        elif step["way"] == "threads":
            other = "other.hdf5" if step["style"] % 2 else "other.txt"
            j = write(dict(step, ham=step["ham"] + 1, style=step["style"] + 1), other)
            tasks = lambda: [load(), load(w.path(other), other, kind_of(other))]
            _, res = w.interleave(tasks(), tasks(), step["switches"])
            for r, k in zip(res, (i, j)):
                w.check(r.ok, "load", f"{what}: {r.name()}: {r.exc}")
                compare(r.value, k, what)
            os.unlink(w.path(other))
        # ---- without faults, and again
        for again in range(2):
            o = outcome(load())
            w.check(o.ok, "load", f"{what} can not be loaded: {o.name()}: {o.exc}")
            w.check(o.held == 0, "handle", f"{what}: {o.held} handles are open after loading")
            compare(o.value, i, what)
        w.check(open(path, "rb").read() == data, "touched", f"{what} is changed by loading")
        w.check(sorted(os.listdir(w.vol)) == files, "residue", f"loading of the {what} leaves other files")
        w.log(gen.snapshot(o.value))
        w.probe(kind + " " + step["way"])
        w.state(kind, step["way"], i, step["style"] % 1000)
    w.nontrivial = bool(w.faults) or rewritten > 0
