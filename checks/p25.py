"""P25: a model file that breaks a rule of the documented format is refused."""

import os

import numpy as np

from magnopy import load_spinham, load_spinham_hdf5, load_spinham_txt
from sim import gen, malformed, model, ops
from sim.engine import Violation, outcome
from checks.p10 import settings, tree

PROPERTY = "P25"
RUNS = {"quick": 1200, "thorough": 60000}
SHRINK = ["steps", "steps.*.faults", "steps.*.more", "hams", "hams.*.bonds", "hams.*.onsite"]
RULE = (
    "one run = a history of edits of model files (text and HDF5, seeded layout), each edit leaves the file right or makes one "
    "mistake of the catalogue at a seeded place, and of loads after the edits: plain, with short reads and read errors, "
    "interrupted, filtered, with the right file loaded in another thread; a file with a mistake must never load, and "
    "right files must load as what they describe, before and after; non-trivial: at least two mistakes were made"
)
WAYS = ["plain", "plain", "plain", "short", "short", "error", "interrupt", "threads", "filtered"]


def generate(rng, tier):
    hams = []
    for _ in range(rng.randint(1, 2)):
        ham = gen.gen_ham(rng, far=True, natoms=rng.choice([(1, 4), (2, 4), (9, 12)]), nbonds=rng.choice([(1, 4), (1, 4), (0, 2), (10, 13)]),
                          notation="any", onsite=0.7)
        for a in ham["atoms"]:
            if a["charge"] is None:
                a["charge"] = 0.0
        if rng.random() < 0.2:
            for a in ham["atoms"]:
                a["spin"] = [0.0, 0.0, rng.choice([1.5, 2.0, -0.5])]
        ham["late_notation"] = False
        hams.append(ham)
    steps = []
    for _ in range(rng.randint(3, 9)):
        fmt = rng.choice(["txt", "txt", "txt", "hdf5"])
        steps.append({
            "ham": rng.randrange(10), "style": rng.randrange(1 << 40), "fmt": fmt,
            "mistake": None if rng.random() < 0.15 else rng.choice(sorted(malformed.TEXT if fmt == "txt" else malformed.HDF5)),
            "seed": rng.randrange(1 << 30),
            "more": [[rng.choice(sorted(malformed.TEXT)), rng.randrange(1 << 30)] for _ in range(6 if fmt == "txt" else 0)],
            "way": rng.choice(WAYS),
            "faults": [{"cls": "read", "at": rng.randrange(1_000_000), "action": "short", "part": rng.randrange(1_000_000)}
                       for _ in range(rng.choice([1, 2, 4]))],
            "spec": {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"])},
            "switches": ops.switches(rng, rng.randint(1, 5), 2),
            "via": rng.randrange(3),
        })
    for s in steps:
        if s["way"] == "error":
            s["faults"] = [{"cls": rng.choice(["read", "open"]), "at": rng.randrange(1_000_000), "action": "err", "errno": rng.choice(["EIO", "EACCES"])}]
    return {"hams": hams, "steps": steps}


def execute(sc, w):
    if not sc["hams"]:
        return
    specs = []
    for s in sc["hams"]:
        n = len(s["atoms"])
        specs.append(dict(s, bonds=[b for b in s["bonds"] if b[0] < n and b[1] < n], onsite=[o for o in s["onsite"] if o[0] < n]))
    wants = [gen.build(s) for s in specs]
    notations = [gen.notation_tuple(s["notation"]) for s in specs]
    mistakes = 0

    def write(step, name, mistake):
        """True unless the mistake does not apply."""
        i = step["ham"] % len(specs)
        p = w.path(name)
        if step["fmt"] == "txt":
            t = model.text(specs[i], notations[i], step["style"])
            if mistake:
                t = malformed.text(t, mistake, step["seed"])
            if t is None:
                return False
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(t)
            return True
        if os.path.exists(p):
            os.unlink(p)
        model.hdf5(p, specs[i], notations[i], step["style"], group="model")
        return not mistake or malformed.hdf5(p, "model", mistake, step["seed"])

    def compare(got, i, what):
        big = max([1e-9] + [np.max(np.abs(b[3])) for b in specs[i]["bonds"]] + [np.max(np.abs(o[1])) for o in specs[i]["onsite"]])
        tol = {"cell": 1e-8, "pos": 1e-8, "spin": 1e-8, "g": 1e-12, "param": 1e-9 * big, "cone_axis": 1e-8, "spiral_vector": 1e-8}
        gen.same(w, got, wants[i], "model", what, tol=tol, order=False)

    kept = []
    for n, step in enumerate(sc["steps"]):
        name = "m." + step["fmt"]
        i = step["ham"] % len(specs)
        mistake = step["mistake"]
        if not write(step, name, mistake):
            mistake = None
            write(step, name, None)
        path = w.path(name)
        what = f"step {n}: {step['fmt']} file (layout {step['style']}, {step['way']}) with {mistake or 'no mistake'}"

        def loader(p):
            direct = load_spinham_txt if step["fmt"] == "txt" else load_spinham_hdf5
            return [lambda: load_spinham(p), lambda: direct(p), lambda: load_spinham(p, spinham_format=step["fmt"])][step["via"]]

        load = loader(path)

        def judge(o, fired=0, where=""):
            if mistake:
                w.check(not o.ok, "accepted", f"{what} is loaded without an error{where}")
                w.check(isinstance(o.exc, Exception), "exit", f"load of {what} ends with {o.name()}{where}")
            elif not o.ok:
                w.check(fired > 0, "refused", f"{what} can not be loaded: {o.name()}: {o.exc}{where}")
            else:
                compare(o.value, i, what + where)
            # (another load may be under way when this one ends)
            w.check(o.held == 0 or "same time" in where, "handle", f"load of {what} left {o.held} handles open{where}")

        files, st = tree(w), settings()
        _, counted = w.counted(load)
        if step["way"] in ("short", "error"):
            o, fired = w.with_faults(load, step["faults"], counted)
            judge(o, fired if step["way"] == "error" else 0, f", {fired} faults")
            w.log(n, "faults", fired, o.name())
        elif step["way"] == "interrupt":
            delivered, where, r, ex = w.interrupt(load, step["spec"])
            if mistake:
                w.check(ex is not None, "accepted", f"{what} is loaded without an error when it is interrupted at {where}")
            w.log(n, "interrupt", delivered, where)
        elif step["way"] == "filtered" and step["fmt"] == "txt":
            o = outcome(lambda: load_spinham_txt(path, save_filtered=True))
            judge(o, 0, ", filtered")
            filtered = w.path("filtered_" + name)
            if os.path.exists(filtered):
                o = outcome(lambda: load_spinham_txt(filtered))
                judge(o, 0, ", the filtered file")
                os.unlink(filtered)
        elif step["way"] == "threads":
            good = "good." + step["fmt"]
            write(step, good, None)
            files = tree(w)
            tasks = lambda: [load, loader(w.path(good))]
            _, res = w.interleave(tasks(), tasks(), step["switches"])
            judge(res[0], 0, ", another load at the same time")
            w.check(res[1].ok, "refused", f"right file next to {what} can not be loaded: {res[1].name()}: {res[1].exc}")
            compare(res[1].value, i, f"right file next to {what}")
        # ---- without faults, twice
        for _ in range(2):
            o = outcome(load)
            judge(o)
        w.log(n, step["fmt"], mistake, o.name())
        now = tree(w)
        for f in sorted(set(now) | set(files)):
            if now.get(f) != files.get(f):
                raise Violation("residue", f"load of {what} changed the file {f}")
        s = settings()
        for k in s:
            if s[k] != st[k]:
                raise Violation("settings", f"load of {what} changed {k} of the process: {str(st[k])[:100]} -> {str(s[k])[:100]}")
        if o.ok:
            kept.append((o.value, gen.snapshot(o.value), n))
        # ---- other mistakes in the same file, one after another
        for kind, seed in step["more"]:
            if not write(dict(step, seed=seed), "more.txt", kind):
                continue
            x = outcome(lambda: load_spinham_txt(w.path("more.txt")))
            w.check(not x.ok, "accepted", f"{what}: the text file with {kind} (seed {seed}) is loaded without an error")
            w.check(isinstance(x.exc, Exception), "exit", f"load of the text file with {kind} ends with {x.name()}")
            w.fault("mistake:" + kind)
            mistakes += 1
        # ---- models loaded earlier are on their own
        for h, snap, k in kept:
            d = gen.diff(snap, gen.snapshot(h))
            w.check(d is None, "shared", f"{what}: the model loaded in step {k} changed: {d}")
        if mistake:
            mistakes += 1
            w.fault("mistake:" + mistake)
        else:
            w.probe("right")
        w.probe(step["fmt"] + " " + step["way"])
        w.state(step["fmt"], mistake, step["way"], step["style"] % 100)
    # ---- and the right files of the same places load
    for fmt in ("txt", "hdf5"):
        if not sc["steps"]:
            return
        step = dict(sc["steps"][-1], fmt=fmt, mistake=None)
        write(step, "m." + fmt, None)
        o = outcome(lambda: load_spinham(w.path("m." + fmt)))
        w.check(o.ok, "refused", f"right {fmt} file can not be loaded at the end: {o.name()}: {o.exc}")
        compare(o.value, step["ham"] % len(specs), f"right {fmt} file at the end")
        w.log(gen.snapshot(o.value))
    w.nontrivial = bool(w.faults) or mistakes >= 2
