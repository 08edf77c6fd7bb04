"""P28: a long session does not grow: what is dropped is freed, whatever happened to it."""

import atexit
import collections
import contextlib
import functools
import gc
import io
import logging
import os
import shutil
import signal
import sys
import tempfile
import threading
import urllib.parse
import warnings
from array import array

import matplotlib.pyplot as plt
import numpy as np
from wulfric import Atom

from magnopy import MagnonDispersion, MatrixParameter, load_spinham
from magnopy.score import convert_tb2j, magnon_dispersion, minimize_energy
from sim import gen, history, ops, sched, spectrum, tb2j
from sim.engine import Violation

from checks.p06 import Shared
from checks.p16 import STEPS, Session
from checks.p20 import lattice
from checks.p27 import QUERIES

PROPERTY = "P28"
RUNS = {"quick": 500, "thorough": 10000}
SHRINK = ["tasks", "tasks.*.steps", "tasks.*.actions", "ham.bonds", "ham.onsite"]
RULE = (
    "one run = a session that repeats the same seeded tasks (loads, saves, exports, edits, energies, minimisations, spectra, "
    "conversions, commands, or edits and queries of objects that live on, some refused, interrupted at a seeded line or hit by a failure of the disk) several times from the "
    "same start (or with other numbers and names of files); after every repetition objects of the library, figures, threads, open files, handlers of logs, temporary "
    "files, allocated blocks of memory and the executed lines are counted; none may be larger after every repetition than after the one before; "
    "non-trivial: at least two tasks were repeated"
)
STUBS = ["disk below the system calls", "saving of plots", "limits of the number of steps and of the line search"]
REPEATS = 4
CACHE = type(functools.lru_cache(lambda: None))
# the first repetitions fill caches
WARM = 2
# blocks that caches of the interpreter, numpy and the plots may take before they are full
NOISE = {"dispersion": 200}
MODULES = {"minimise": minimize_energy, "dispersion": magnon_dispersion, "convert": convert_tb2j}
ACTIONS = QUERIES + ["optimize", "copied", "round-txt", "round-hdf5", "notations", "bond", "on-site", "atom", "settings", "filter", "renew",
                     "parameter", "ground", "refused"]
# an interrupt between the creation of the figure and the block that closes it can not be caught
BORDER = ("magnon_dispersion.py:manager", "energy.py:_lambda")


def generate(rng, tier):
    ham = gen.gen_ham(rng, natoms=(1, 3), nbonds=(1, 4), notation="any", far=True, extra_atoms=False)
    ham["cell"] = lattice(rng)[1]
    ham["late_notation"] = False
    tasks = []
    for _ in range(rng.randint(2, 5)):
        kind = rng.choice(["session"] * 4 + ["read"] * 4 + ["alive"] * 4 + ["minimise", "dispersion", "dispersion", "convert"])
        way = rng.choice(["plain", "plain", "interrupt", "disk", "disk"])
        t = {
            "kind": kind, "x": rng.randrange(1 << 20), "way": way,
            "spec": {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"])},
            "faults": ops.disk_faults(rng, 1) if rng.random() < 0.5 else
            [{"cls": rng.choice(["read", "openw", "open", "write"]), "at": rng.randrange(1_000_000), "action": "err", "errno": "EIO"}],
        }
        if kind == "session":
            t["steps"] = [[rng.choice(STEPS), rng.randrange(1 << 20), history.gen_ops(rng, 1, weights={"filtered": 0, "copy": 0})[0]]
                          for _ in range(rng.randint(1, 4))]
        elif kind == "alive":
            t["actions"] = [[rng.choice(ACTIONS), rng.randrange(1 << 20)] for _ in range(rng.randint(1, 6))]
        elif kind == "read":
            t["what"] = rng.choice(ops.READS)
        else:
            t["wrong"] = rng.random() < 0.3
        tasks.append(t)
    return {"vary": rng.random() < 0.5, "ham": ham, "tb2j": tb2j.gen_tb2j(rng, natoms=(1, 3), nbonds=(1, 4)), "tasks": tasks}


class Alive(Shared):
    """Objects that the user keeps from repetition to repetition."""

    def __init__(self, spec, path, x):
        super().__init__(spec)
        if x % 2:  # almost every step is accepted
            self.e.wolfe_c1, self.e.wolfe_c2 = -1e9, 1e9
        self.path = path

    def act(self, what, x):
        h = self.h
        names = [a.name for a in h.atoms]
        a, b = names[x % len(names)], names[x // 7 % len(names)]
        if what == "copied":
            self.h = h.copy() if x % 2 else h.filtered(max_distance=1e6)
        elif what == "round-txt":
            ops.dump_spinham_txt(h, filename=self.path("kept.txt"))
            self.h = load_spinham(self.path("kept.txt"))
        elif what == "round-hdf5":
            ops.dump_spinham_hdf5(h, filename=self.path("kept.hdf5"), groupname="kept", overwrite=True)
            self.h = load_spinham(self.path("kept.hdf5"))
        elif what == "notations":
            old = h.notation
            h.notation = ["tb2j", "spinw", "vampire", "magnopy"][x % 4]
            h.notation = old
        elif what == "bond":
            h.add_exchange(a, b, (3, x % 3, 1), iso=1.0)
            h[a, b, (3, x % 3, 1)] = MatrixParameter(iso=2.0)
            h.remove_exchange(a, b, (3, x % 3, 1))
        elif what == "on-site":
            old = h[a] if a in h else None
            h.add_on_site(a, iso=1.0)
            h.remove_on_site(a)
            if old is not None:
                h[a] = old
        elif what == "atom":
            h.add_atom(Atom("Zr9", (0.1, 0.2, 0.3), spin=1.0))
            if x % 2:
                h.add_exchange("Zr9", a, (0, 0, 1), iso=1.0)
            h.remove_atom("Zr9" if x % 3 else h.get_atom("Zr9"))
        elif what == "settings":
            self.e.magnetic_field = (0, 0, x % 5)
            self.e.spins = [1.5] * len(self.e.spins)
            self.e.g_factors = [2.0] * len(self.e.g_factors)
        elif what == "filter":
            h.filter(max_distance=1e6)
        elif what == "renew":
            self.e, self.d = ops.energy(h), MagnonDispersion(h)
        elif what == "parameter":
            p = h[next(iter(h.exchange))[:3]]
            p.iso, p.aniso, p.dmi = p.iso, p.aniso, p.dmi
            p.T, p + p, p * 2, 2 * p, -p, p - p, p @ p.matrix
        elif what == "ground":
            h.cone_axis, h.spiral_vector = (0, 1, x % 3), (0, 0, x % 3)
        elif what == "refused":
            [lambda: h.remove_exchange(a, b, (77, 0, 0)), lambda: h.add_exchange("Nobody", a, (0, 0, 1), iso=1.0),
             lambda: setattr(h, "notation", "nonsense"), lambda: setattr(self.e, "spins", "many")][x % 4]()
        elif what == "optimize":
            case = ["ferro", "antiferro", "spiral"][x % 3]
            s, ax, q = np.ones((len(self.e.spins), 3)), np.array([0, 0, 1.0]), np.array([0.1, 0.2, 0.3])
            guess = {"ferro": s, "antiferro": (s, ax), "spiral": (s, ax, q)}[case]
            self.e.optimize(case, initial_guess=guess, antiferro_q=q, max_iterations=1 + x % 3, save_history=x % 2 == 0, history_step=1 + x % 5 % 2,
                            history_filename=self.path("kept-history"))
        else:
            self.query(what, x)

    def all(self, actions):
        for what, x in actions:
            try:
                self.act(what, x)
            except Exception as e:
                if isinstance(e, OSError):
                    raise


def counts(temp):
    """What a session could leave behind."""
    urllib.parse.clear_cache()  # np.savetxt takes names of files for addresses
    out = collections.Counter()
    everything = gc.get_objects()
    for o in everything:  # caches of bounded size may fill
        if type(o) is CACHE and str(o.__module__).startswith("magnopy") and o.cache_parameters()["maxsize"] is not None:
            o.cache_clear()
    del everything, o
    gc.collect()
    everything = gc.get_objects()
    out["objects"] = len(everything)
    out["references"] = len(gc.get_referents(*everything))
    # the collector takes dictionaries of plain values for plain values
    owners = [o for o in everything if str(type(o).__module__).startswith("magnopy")] + [vars(m) for name, m in list(sys.modules.items()) if name.startswith("magnopy")]
    plain = {id(o): o for o in gc.get_referents(*owners) + gc.get_referents(*[vars(o) for o in owners if hasattr(o, "__dict__")]) if type(o) is dict and not gc.is_tracked(o)}
    out["values"] = sum(map(len, plain.values()))
    del owners, plain
    for o in everything:
        m = str(type(o).__module__)
        if m.startswith(("magnopy", "wulfric", "h5py", "matplotlib.figure", "concurrent", "multiprocessing")):
            out[f"objects of {type(o).__name__}"] += 1
    out["figures"] = len(plt.get_fignums())
    out["threads"] = threading.active_count()
    out["open files"] = len(os.listdir("/proc/self/fd"))
    out["temporary files"] = sum(len(d) + len(f) for _, d, f in os.walk(temp))
    out["callbacks at exit"] = atexit._ncallbacks()
    out["filters of warnings"] = len(warnings.filters)
    out["search path"] = len(sys.path)
    out["environment"] = len(os.environ)
    out["loggers"] = len(logging.root.manager.loggerDict)
    out["handlers of logs"] = sum(
        len(x.handlers) + len(x.filters)
        for x in [logging.root] + [v for v in logging.root.manager.loggerDict.values() if isinstance(v, logging.Logger)]
    )
    out["signal handlers"] = sum(callable(signal.getsignal(s)) for s in signal.valid_signals())
    return out


def execute(sc, w):
    spectrum.memoise_lattice_type()
    n = len(sc["ham"]["atoms"])
    original = dict(sc["ham"], bonds=[b for b in sc["ham"]["bonds"] if b[0] < n and b[1] < n],
                    onsite=[o for o in sc["ham"]["onsite"] if o[0] < n])
    if not original["bonds"] or not sc["tb2j"]["bonds"]:
        return
    temp = w.path("temp")
    os.mkdir(temp)
    tempfile.tempdir = temp
    os.environ["TMPDIR"] = temp
    os.chdir(w.vol)

    kept = {}

    def task(k, t, where, r):
        """The task from its beginning, in its own directory."""
        # the same model, or one with other numbers in every repetition
        spec = dict(original)
        if sc["vary"]:
            spec["cell"] = (np.array(spec["cell"]) * (1 + r / 128)).tolist()
            spec["bonds"] = [[i, j, R, (np.array(m) * (1 + r / 64)).tolist()] for i, j, R, m in spec["bonds"]]
        if t["kind"] == "session":
            s = Session({"ham": spec, "tb2j": sc["tb2j"], "steps": t["steps"]}, where)
            return s.all
        if t["kind"] == "alive":
            if k not in kept:
                os.mkdir(w.path(f"kept{k}"))
                kept[k] = Alive(spec, lambda name: w.path(f"kept{k}", name), t["x"])
            # an interrupted user would leave the atom there
            return lambda: kept[k].all([[a[0], a[1] + (30030 * r if sc["vary"] else 0)] for a in t["actions"] if a[0] != "atom" or t["way"] != "interrupt"])
        os.mkdir(where)

        def path(name):
            return os.path.join(where, name)

        if t["kind"] == "read":
            h = gen.build(spec)
            return ops.read(h, t["what"], t["x"], path)
        with open(path("exchange.out"), "w") as f:
            f.write(tb2j.render(sc["tb2j"]))
        x = t["x"]
        if t["kind"] == "convert":
            argv = ["-if", path("exchange.out"), "-of", path("c.txt" if x % 2 else "c.hdf5")] + (["-v"] if x % 3 == 0 else [])
        else:
            h = gen.build(spec)
            name = path("m.hdf5" if x % 2 else "m.txt")
            (ops.dump_spinham_hdf5 if x % 2 else ops.dump_spinham_txt)(h, filename=name)
            argv = ["-sh", name, "-os", path("out")]
            if t["kind"] == "minimise":
                argv += ["-gst", ["ferro", "spiral"][x % 2]]
            else:
                argv += ["-kps", "U1", "U1", "0", "0", "0", "U2", "U2", "0.1", "0", "0.2", "-kp", "U1-U2"] if x % 11 else []
                argv += ["-st"] + (["-jo"] if x % 5 == 0 else []) if x % 3 else []
        if t["wrong"]:
            argv[1] = path("nowhere.txt") if x % 7 < 4 else argv[1]
            argv += ["-kp", "G-Q9"] if t["kind"] == "dispersion" and "-kp" not in argv else []

        def run():
            with ops.short_minimisation(1, True):
                ops.command_line(MODULES[t["kind"]], argv)
        return run

    from magnopy.spinham.energy import np as shared  # the random source of the library is that of the process
    import random

    state, pstate = shared.random.get_state(), random.getstate()
    plan = {}
    outcomes = []

    def once(k, t, where, r):
        """One repetition of the task; returns (name of the outcome, lines)."""
        first = r == 0
        fn = task(k, t, where, r)
        lines = 0
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                if first:
                    if t["way"] == "disk":
                        out, plan[k] = w.counted(fn)
                        name = out.name()
                    else:
                        _, e, plan[k] = sched.count_steps(fn)
                        name = type(e).__name__
                elif t["way"] == "interrupt" and plan[k]:
                    pos = 1 + min(plan[k] - 1, plan[k] * t["spec"]["at"] // 1_000_000)
                    _, place, _, e = sched.run_interrupted(fn, pos, t["spec"]["kind"], handlers=False)
                    name = f"{type(e).__name__} {place}"
                    if place is not None:
                        w.fault("interrupt-" + t["spec"]["kind"])
                    if place in BORDER:
                        plt.close("all")
                elif t["way"] == "disk":
                    (out, fired), e, lines = sched.count_steps(lambda: w.with_faults(fn, t["faults"], plan[k]))
                    name = out.name()
                else:
                    _, e, lines = sched.count_steps(fn)
                    name = type(e).__name__
        finally:
            shutil.rmtree(where, ignore_errors=True)
        return name, lines

    # what is counted is kept in arrays that do not grow themselves
    series, lines = {}, [array("q", [0] * REPEATS) for _ in sc["tasks"]]
    blocks = array("q", [0] * REPEATS)

    def repetition(r):
        for k, t in enumerate(sc["tasks"]):
            shared.random.set_state(state)
            random.setstate(pstate)
            name, x = once(k, t, w.path(f"place{k}-{r}" if sc["vary"] else f"place{k}-0"), r)
            if r == WARM:
                outcomes.append([t["kind"], t["way"], name])
            if r > WARM:
                lines[k][r - WARM - 1] = x
        # all kinds are listed before the blocks are counted
        now = counts(temp)
        for kind in sorted(now):
            if kind not in series:
                series[kind] = array("q", [0] * REPEATS)
            if r > WARM:
                series[kind][r - WARM - 1] = now[kind]

    for r in range(REPEATS + WARM + 1):
        repetition(r)
        gc.collect()
        if r > WARM:
            blocks[r - WARM - 1] = sys.getallocatedblocks()
    w.log(outcomes)
    for kind in sorted(series):
        x = series[kind].tolist()
        w.check(not all(b > a for a, b in zip(x, x[1:])), "kept", f"{kind} after every repetition of the session: {x}")
    for k, t in enumerate(sc["tasks"] if not sc["vary"] else []):
        x = lines[k].tolist()
        w.check(not all(b > a for a, b in zip(x, x[1:])), "slower", f"lines that {t['kind']} takes in every repetition of the session: {x}")
    grown = [b - a for a, b in zip(blocks, blocks[1:])]
    if os.environ.get("VERIF_DEBUG"):
        sys.stderr.write(f"BLOCKS {min(grown) / max(1, sum(NOISE.get(t['kind'], 30) for t in sc['tasks']))} {grown} {series['objects'].tolist()} {series['references'].tolist()} {outcomes}\n")
    w.check(not all(g > 150 + sum(NOISE.get(t["kind"], 30) for t in sc["tasks"]) for g in grown), "memory", f"blocks of memory added by every repetition of the session: {grown}")
    for kind, way, name in outcomes:
        w.probe(kind)
        w.probe(f"{way}: " + name.split()[0])
        w.state(kind, way, name)
    w.nontrivial = len(sc["tasks"]) >= 2
