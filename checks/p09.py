"""P09: a save that returns has saved everything, a save that could not says so."""

import os

import numpy as np

from magnopy import dump_spinham_hdf5, dump_spinham_txt, load_spinham, load_spinham_txt
from magnopy.io.txt.vampire import dump_mat, dump_ucf, dump_vampire
from magnopy.score import convert_tb2j
from sim import gen, ops, tb2j
from sim.engine import Violation, outcome

PROPERTY = "P09"
RUNS = {"quick": 1600, "thorough": 50000}
SHRINK = ["faults", "ham.bonds", "ham.onsite", "tb2j.bonds", "before"]
RULE = (
    "one run = one save (text, HDF5, UCF, material and input files of Vampire, filtered text file, conversion of a TB2J "
    "file) over a fresh or an existing file, under seeded disk faults (failed and short writes, full disk, failed open, "
    "close, rename, sync and lock, a process that dies at a seeded operation, an interruption at a seeded line), "
    "followed by a fault-free save; content is compared with the fault-free one; non-trivial: a fault fired"
)
SAVERS = ["txt", "txt", "hdf5", "hdf5", "ucf", "mat", "vampire", "filtered", "convert-txt", "convert-hdf5"]


def generate(rng, tier):
    mode = rng.choice(["disk"] * 6 + ["crash", "interrupt"])
    n = rng.choice([1, 1, 1, 2])
    return {
        "ham": gen.gen_ham(rng, far=True, natoms=(1, 4), nbonds=(0, 10), notation="any", onsite=0.7),
        "tb2j": tb2j.gen_tb2j(rng),
        "what": rng.choice(SAVERS),
        "mode": mode,
        "older": rng.random() < 0.4,
        "faults": ops.disk_faults(rng, n),
        "spec": {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"])},
        "before": [rng.choice(["other.txt", "other.hdf5", "notes"]) for _ in range(rng.randint(0, 2))],
    }


class Saver:
    """One way to save; ``at(tag)`` gives the call and the reader of what is on the disk."""

    def __init__(self, what, h, w, spec):
        self.what, self.h, self.w = what, h, w
        if what.startswith("convert"):
            with open(w.path("exchange.out"), "w") as f:
                f.write(tb2j.render(spec))
        if what == "filtered":
            dump_spinham_txt(h, filename=w.path("source.txt"), write_distance=True)

    def names(self, tag):
        base = {
            "txt": [f"{tag}.txt"], "hdf5": [f"{tag}.hdf5"], "ucf": [f"{tag}.UCF"], "mat": [f"{tag}.mat"],
            "vampire": [f"{tag}.UCF", f"{tag}.mat", "input"], "filtered": ["filtered_source.txt"],
            "convert-txt": [f"{tag}.txt"], "convert-hdf5": [f"{tag}.hdf5"],
        }[self.what]
        return base

    def call(self, tag, over=True):
        h, p = self.h, self.w.path
        return {
            "txt": lambda: dump_spinham_txt(h, filename=p(f"{tag}.txt")),
            "hdf5": lambda: dump_spinham_hdf5(h, filename=p(f"{tag}.hdf5"), overwrite=over),
            "ucf": lambda: dump_ucf(h, filename=p(f"{tag}.UCF"), nologo=True),
            "mat": lambda: dump_mat(h, filename=p(f"{tag}.mat"), nologo=True),
            "vampire": lambda: dump_vampire(h, seedname=p(tag), nologo=True),
            "filtered": lambda: load_spinham_txt(p("source.txt"), save_filtered=True),
            "convert-txt": lambda: convert_tb2j.manager(p("exchange.out"), output_filename=p(f"{tag}.txt")),
            "convert-hdf5": lambda: convert_tb2j.manager(p("exchange.out"), output_filename=p(f"{tag}.hdf5")),
        }[self.what]

    def content(self, tag):
        """What is on the disk, in a comparable form (raises if it is not readable)."""
        out = []
        for name in self.names(tag):
            path = self.w.path(name)
            if name.endswith(".hdf5"):
                out.append(gen.snapshot(load_spinham(path)))
            else:
                with open(path, encoding="utf-8") as f:
                    out.append(f.read().replace(self.w.path(tag), "SEED"))
        return out


def execute(sc, w):
    h = gen.build(sc["ham"])
    what = sc["what"]
    saver = Saver(what, h, w, sc["tb2j"])
    ref, counted = w.counted(saver.call("ref"))
    if not ref.ok:
        raise ref.exc
    want = saver.content("ref")
    bystanders = {}
    for name in sc["before"]:
        if name.endswith(".hdf5"):
            dump_spinham_hdf5(h, filename=w.path(name), overwrite=True)
        elif name.endswith(".txt"):
            dump_spinham_txt(h, filename=w.path(name))
        else:
            with open(w.path(name), "w") as f:
                f.write("notes of the user\n")
        bystanders[name] = open(w.path(name), "rb").read()
    older = sc["older"] and "hdf5" not in what and what != "filtered"
    tag = "out"
    if older:
        for name in saver.names(tag):
            if name != "input":
                with open(w.path(name), "w") as f:
                    f.write("older and longer content\n" * 2000)
    if what in ("vampire", "filtered"):
        for name in ("input", "filtered_source.txt"):
            if os.path.exists(w.path(name)):
                os.unlink(w.path(name))
    fn = saver.call(tag)

    def others():
        for name, data in bystanders.items():
            if open(w.path(name), "rb").read() != data:
                raise Violation("bystander", f"{what} under faults changed the file {name} that it does not own")

    def complete(t, when):
        got = outcome(lambda: saver.content(t))
        if not got.ok:
            raise Violation("lost", f"{what} returned {when}, but the file can not be read: {got.name()}: {got.exc}")
        if got.value != want:
            raise Violation("lost", f"{what} returned {when}, but the file is not complete: {first_difference(got.value, want)}")

    if sc["mode"] == "disk":
        out, fired = w.with_faults(fn, sc["faults"], counted)
        w.log(what, "disk", fired, out.name())
        w.check(out.held == 0, "handle", f"{what} ({out.name()}) left {out.held} handles open")
        if out.ok:
            complete(tag, f"normally although {fired} faults fired")
            w.probe("ok-under-faults", fired > 0)
        else:
            w.check(fired > 0, "failed", f"{what} failed without a fault: {out.name()}: {out.exc}")
            w.probe("reported")
    elif sc["mode"] == "crash":
        f = dict(sc["faults"][0], cls="mut") if sc["faults"] else {"cls": "mut", "at": 0}
        died = w.crashing(fn, f, counted)
        w.log(what, "crash", died)
        w.probe("crash", died)
    else:
        delivered, where, _, e = w.interrupt(fn, sc["spec"])
        w.log(what, "interrupt", delivered, where, type(e).__name__)
        e = None  # its traceback may hold the file that was being opened
    others()
    # the faults stop: the next save is complete (HDF5: in another file)
    again = "again" if "hdf5" in what else tag
    out = outcome(saver.call(again))
    if not out.ok:
        raise Violation("retry", f"{what} after the faults stopped fails: {out.name()}: {out.exc}")
    w.check(out.held == 0, "handle", f"{what} left {out.held} handles open")
    complete(again, "normally after the faults stopped")
    others()
    w.probe(what)
    w.state(what, sc["mode"], sorted(w.faults))
    w.nontrivial = bool(w.faults)


def first_difference(a, b):
    for x, y in zip(a, b):
        if isinstance(x, str):
            if x != y:
                return f"{len(x)} characters instead of {len(y)}, end of it: {x[-60:]!r}"
        else:
            d = gen.diff(y, x)
            if d is not None:
                return d
    return "number of files"
