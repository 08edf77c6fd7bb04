"""P04: operations that only read the Hamiltonian never change it."""

import numpy as np

from sim import gen, history, ops, sched
from sim.engine import Violation, outcome

PROPERTY = "P04"
RUNS = {"quick": 1600, "thorough": 40000}
SHRINK = ["ops", "ops.*.tasks", "ops.*.switches", "ops.*.faults", "ham.bonds", "ham.onsite"]
RULE = (
    "one run = one Hamiltonian and a seeded sequence of reads (copies, filtered copies, energies, minimisation, "
    "dispersion, text, HDF5 and Vampire files), each of them plain, hit by disk faults, interrupted at a seeded line "
    "or run in interleaved threads together with an observer; the whole observable state is compared bit by bit with "
    "the one before after every read and at every observation; non-trivial: a fault or an interleaving happened"
)


def generate(rng, tier):
    ham = gen.gen_ham(
        rng, far=True, natoms=(1, 4), nbonds=(0, 7), notation=rng.choice(["any", "any", "any", "any", None]), onsite=0.7
    )
    out = []
    for _ in range(rng.randint(2, 6)):
        mode = rng.choice(["plain", "disk", "disk", "interrupt", "interrupt", "threads", "threads"])
        op = {"mode": mode, "what": rng.choice(ops.READS), "x": rng.randrange(1 << 20)}
        if mode == "disk":
            op["what"] = rng.choice(ops.STORED)
            op["faults"] = ops.disk_faults(rng, rng.randint(1, 2))
        elif mode == "interrupt":
            op["spec"] = {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"])}
        elif mode == "threads":
            n = rng.randint(1, 3)
            op["tasks"] = [[rng.choice(ops.READS), rng.randrange(1 << 20)] for _ in range(n)]
            op["switches"] = ops.switches(rng, rng.randint(2, 40), n + 1)
        out.append(op)
    return {"ham": ham, "ops": out, "edits": history.gen_ops(rng, rng.choice([0, 0, 3])),
            "filters": rng.randrange(3)}


def execute(sc, w):
    run = history.Run(w, sc["ham"])
    for op in sc["edits"]:
        run.apply(op)
    h = run.h
    before = gen.snapshot(h)
    handed = [p for _, _, _, p in h.exchange]  # the parameter objects stay where they are
    for n, op in enumerate(sc["ops"]):
        what, x = op["what"], op["x"]
        where = lambda name: w.path(f"{n}-{name}")
        fn = ops.read(h, what, x, where)
        if op["mode"] == "plain":
            out = outcome(fn)
            w.log(n, what, out.name())
            w.probe(what)
        elif op["mode"] == "disk":
            first, counted = w.counted(fn)
            gen.unchanged(w, before, h, what)
            out, fired = w.with_faults(fn, op["faults"], counted)
            w.log(n, what, "disk", fired, out.name())
            w.probe(what + "/disk", fired)
        elif op["mode"] == "interrupt":
            delivered, place, _, e = w.interrupt(fn, op["spec"])
            w.log(n, what, "interrupt", delivered, place, type(e).__name__)
            w.probe(what + "/interrupt", delivered)
        else:
            seen = []

            def observer():
                # reads through magnopy, so the scheduler can move the baton in the middle
                for _ in range(3):
                    seen.append(gen.snapshot(h))

            solo, fns = [], []
            for i, (t, y) in enumerate(op["tasks"]):
                solo.append(ops.read(h, t, y, lambda name, i=i: w.path(f"{n}-{i}-{name}")))
                fns.append(ops.read(h, t, y, lambda name, i=i: w.path(f"{n}-{i}b-{name}")))
            alone, results = w.interleave(solo + [observer], fns + [observer], op["switches"])
            w.log(n, [t[0] for t in op["tasks"]], [r.name() for r in results])
            if not results[-1].ok:
                raise results[-1].exc
            for s in seen:
                d = gen.diff(before, s)
                if d is not None:
                    raise Violation("seen-modified", f"while {[t[0] for t in op['tasks']]} ran, the Hamiltonian was seen changed: {d}")
            w.probe("observations", len(seen))
        gen.unchanged(w, before, h, f"{what} ({op['mode']})")
        if any(a is not b for a, (_, _, _, b) in zip(handed, h.exchange)):
            w.probe("replaced-object")
    history.compare(w, h, run.ref, "reads")
    w.log(before)
