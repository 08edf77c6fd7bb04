"""P16: sessions that share nothing do not notice each other."""

import os
import re

import numpy as np

from magnopy import (
    MagnonDispersion,
    dump_spinham_hdf5,
    dump_spinham_txt,
    load_spinham,
    load_spinham_hdf5,
    load_spinham_txt,
)
from magnopy.io.txt.vampire import dump_mat, dump_ucf, dump_vampire
from magnopy.score import convert_tb2j
from sim import disk, gen, history, ops, sched, tb2j
from sim.engine import Violation, outcome

from checks.p10 import settings

PROPERTY = "P16"
RUNS = {"quick": 600, "thorough": 30000}
SHRINK = ["sessions", "sessions.*.steps", "switches", "sessions.*.ham.bonds", "sessions.*.ham.onsite", "faults"]
RULE = (
    "one run = 2-4 sessions, each with Hamiltonians, energies and files of its own (edits, notation changes, saving and "
    "loading, conversion, energies, minimisation with a history file, dispersion, failing loads and saves), run alone "
    "and then in threads under a seeded plan of switches, with a disk error that hits one of them; results and files "
    "are compared with those of the run alone; non-trivial: the baton moved at least twice"
)
STEPS = [
    "edit", "edit", "edit", "edit", "edit", "txt", "txt-angles", "load-txt", "load-txt", "hdf5", "load-hdf5", "detect", "ucf", "mat", "vampire",
    "energy", "optimize", "dispersion", "bad-load", "bad-edit", "convert", "filtered-txt", "copy", "text",
]


def generate(rng, tier):
    n = rng.randint(2, 4)
    focus = rng.choice([None, None, ["txt", "load-txt", "filtered-txt", "bad-load", "convert", "edit"],
                        ["edit", "bad-edit", "copy", "energy", "dispersion"], ["hdf5", "load-hdf5", "txt", "load-txt"],
                        ["vampire", "txt", "load-txt", "convert"], ["one-group", "detect", "detect", "hdf5"]])
    same = rng.random() < 0.4  # sessions with the same names of atoms and of files
    ham = gen.gen_ham(rng, far=True, natoms=(1, 4), nbonds=(1, 6), notation="any")
    sessions = []
    for _ in range(n):
        sessions.append({
            "ham": ham if same else gen.gen_ham(rng, far=True, natoms=(1, 4), nbonds=(1, 6), notation="any"),
            "tb2j": tb2j.gen_tb2j(rng, natoms=(1, 3), nbonds=(1, 4)),
            "relative": rng.random() < 0.4,
            "steps": [[rng.choice(focus or STEPS), rng.randrange(1 << 20), history.gen_ops(rng, 1, weights={"filtered": 0, "copy": 0})[0]]
                      for _ in range(rng.randint(1, 6))],
        })
    fault = rng.random() < 0.25
    return {
        "sessions": sessions,
        "opcodes": rng.random() < 0.1,
        "switches": ops.switches(rng, rng.choice([2, 5, 20, 60, 150]), n),
        "faults": [{"cls": rng.choice(["write", "openw", "open", "read"]), "at": rng.randrange(1_000_000), "action": "err",
                    "errno": rng.choice(["EIO", "ENOSPC"])}] if fault else [],
    }


def masked(text, where):
    """Text of a file without the date and the place of the session."""
    text = text.replace(where + "/", "HERE/")
    text = re.sub(r" *(Copyright \(C\) \d+-)\d+( +Magnopy Team) *", r"\1YEAR\2 ", text)
    return re.sub(r" *Generated on \d{1,2} [A-Z][a-z]+ \d{4} at \d{1,2}:\d{1,2}:\d{1,2} *", "DATE", text)


class Session:
    def __init__(self, spec, where):
        self.spec = spec
        if spec.get("relative"):
            where = os.path.relpath(where)
        self.where = where
        self.number = int(where[-1])
        os.mkdir(where)
        with open(os.path.join(where, "exchange.out"), "w") as f:
            f.write(tb2j.render(spec["tb2j"]))
        with open(os.path.join(where, "bad.txt"), "w") as f:
            f.write("Cell\n1 2 3\n")
        self.run = None
        self.tick = lambda n: None

    def path(self, name):
        return os.path.join(self.where, name)

    def content(self, name):
        with open(self.path(name), encoding="utf-8") as f:
            return masked(f.read(), self.where)

    def step(self, what, x, op):
        h = self.run.h
        if what == "edit":
            self.run.apply(op)
            return gen.snapshot(self.run.h)
        if what == "copy":
            return gen.snapshot(h.copy())
        if what in ("txt", "txt-angles"):
            dump_spinham_txt(h, filename=self.path("m.txt"), write_spin_angles=what == "txt-angles", write_iso=x % 2 == 0,
                             write_dmi=x % 3 == 0, write_distance=x % 5 == 0)
            return self.content("m.txt")
        if what == "text":
            return masked(str(dump_spinham_txt(h, print_if_none=False)), self.where)
        if what == "load-txt":
            return gen.snapshot(load_spinham_txt(self.path("m.txt")))
        if what == "filtered-txt":
            r = gen.snapshot(load_spinham_txt(self.path("m.txt"), save_filtered=True))
            return [r, self.content("filtered_m.txt")]
        if what == "hdf5":
            dump_spinham_hdf5(h, filename=self.path("m.hdf5"), groupname=f"g{x % 3}", overwrite=True)
            return None
        if what == "load-hdf5":
            return gen.snapshot(load_spinham_hdf5(self.path("m.hdf5"), groupname=f"g{x % 3}"))
        if what == "one-group":
            if os.path.exists(self.path("m.hdf5")):
                os.unlink(self.path("m.hdf5"))
            dump_spinham_hdf5(h, filename=self.path("m.hdf5"), groupname=f"g{self.number}" + "/in" * (x % 3))
            return None
        if what == "detect":  # the name of the group is not given
            return gen.snapshot(load_spinham(self.path("m.hdf5")))
        if what == "ucf":
            dump_ucf(h, filename=self.path("v.UCF"), nologo=True, dmi=x % 2 == 0)
            return self.content("v.UCF")
        if what == "vampire":  # its template of the input is written in the working directory, which is shared
            dump_vampire(h, seedname=self.path("w"), nologo=x % 2 == 0, dmi=x % 3 == 0)
            return [self.content("w.UCF"), self.content("w.mat")]
        if what == "mat":
            dump_mat(h, filename=self.path("v.mat"), nologo=True)
            return self.content("v.mat")
        s, ax, q = ops.directions(h, x)
        if what == "energy":
            e = ops.energy(h)
            e.magnetic_field = ax
            return ops.hexes([e.ferro(s), e.spiral(s, ax, q), e.antiferro(s, ax, q)])
        if what == "optimize":
            e = ops.energy(h)
            case = ["ferro", "antiferro", "spiral"][x % 3]
            guess = {"ferro": s, "antiferro": (s, ax), "spiral": (s, ax, q)}[case]
            r = e.optimize(case, initial_guess=guess, antiferro_q=q, max_iterations=1, save_history=True,
                           history_filename=self.path("history"))
            return [[ops.hexes(v) for v in r], self.content("history")]
        if what == "dispersion":
            d = MagnonDispersion(h)
            return [ops.hexes(d.h(ax)), ops.hexes(d.omega(q))]
        if what == "bad-load":
            if x % 2:
                return gen.snapshot(load_spinham(self.path("bad.txt")))
            return gen.snapshot(load_spinham(self.path("nowhere.hdf5")))
        if what == "bad-edit":
            h.add_exchange("Nobody", "Nobody2", (0, 0, 1), iso=1.0)
            return None
        if what == "convert":
            convert_tb2j.manager(self.path("exchange.out"), output_filename=self.path("c.txt" if x % 2 else "c.hdf5"))
            return gen.snapshot(load_spinham(self.path("c.txt" if x % 2 else "c.hdf5")))
        raise AssertionError(what)

    def all(self):
        out = []
        self.run = history.Run(None, self.spec["ham"])
        for n, (what, x, op) in enumerate(self.spec["steps"]):
            self.tick(n)
            if what == "convert" and not x % 2 and os.path.exists(self.path("c.hdf5")):
                os.unlink(self.path("c.hdf5"))
            o = outcome(lambda: self.step(what, x, op))
            if not o.ok and not isinstance(o.exc, Exception):
                raise o.exc
            out.append([what, o.name(), o.value if o.ok else masked(str(o.exc), self.where)[:300],
                        o.ok or not isinstance(o.exc, OSError)])
            o = None
        # a file is what the last save left there
        for name in ("m.txt", "v.UCF", "history"):
            if os.path.exists(self.path(name)):
                o = outcome(lambda: self.content(name))
                out.append([name, o.name(), o.value, True])
        if os.path.exists(self.path("m.hdf5")):
            for g in range(3):
                o = outcome(lambda: gen.snapshot(load_spinham_hdf5(self.path("m.hdf5"), groupname=f"g{g}")))
                out.append([f"m.hdf5 {g}", o.name(), o.value, True])
        return out


def execute(sc, w):
    n = len(sc["sessions"])
    if n < 2:
        return
    a = [Session(s, w.path(f"alone{i}")) for i, s in enumerate(sc["sessions"])]
    b = [Session(s, w.path(f"together{i}")) for i, s in enumerate(sc["sessions"])]
    before = settings()
    counted = None
    if sc["faults"]:
        # the reference is not faulted: the sessions run alone, then again under the plan
        c = [Session(s, w.path(f"count{i}")) for i, s in enumerate(sc["sessions"])]
        _, counted = w.counted(lambda: [s.all() for s in c])
    alone = [s.all() for s in a]
    # positions of the plan are relative to the steps of the sessions alone
    d = [Session(s, w.path(f"steps{i}")) for i, s in enumerate(sc["sessions"])]
    steps = sum(sched.count_steps(s.all, sc["opcodes"])[2] for s in d)
    w.steps += steps
    plan = sorted((1 + steps * at // 1_000_000, t % n) for at, t in sc["switches"])

    def threads():
        results, trace = sched.run_tasks([lambda s=s: outcome(s.all) for s in b], plan, sc["opcodes"])
        w.record_trace(trace)
        for r in results:
            if r.exc is not None:
                raise r.exc
        return [r.value for r in results]

    if sc["faults"]:
        o, fired = w.with_faults(threads, sc["faults"], counted)
        if not o.ok:
            raise o.exc
        got = o.value
    else:
        fired = 0
        got = threads()
    hit = 0
    for i in range(n):
        if not got[i].ok:
            raise got[i].exc
        g, s = got[i].value, alone[i]
        stop = False
        for x, y in zip(g, s):
            if x[:3] != y[:3]:
                if fired and x[1] != "ok":
                    stop = True  # this session was hit by the fault and knows it
                    break
                raise Violation("different", f"session {i}, {x[0]}: {str(x[1:3])[:300]} instead of {str(y[1:3])[:300]}")
            w.probe(x[0].split()[0])
        hit += stop
        w.check(stop or len(g) == len(s), "different", f"session {i} left other files")
    w.check(hit <= fired, "spread", f"{fired} faults of the disk were seen by {hit} sessions")
    w.check(disk.open_handles() == 0, "handle", f"{disk.open_handles()} handles are open after the sessions")
    s = settings()
    for k in s:
        w.check(s[k] == before[k], "settings", f"sessions changed {k} of the process: {str(before[k])[:100]} -> {str(s[k])[:100]}")
    w.log(alone)
    w.state([[x[0] for x in s["steps"]] for s in sc["sessions"]])
    w.nontrivial = w.faults.get("preemption", 0) >= 2
