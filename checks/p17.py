"""P17: results do not depend on the environment of the process."""

import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np

from magnopy.io.txt.vampire import dump_mat, dump_ucf, dump_vampire
from magnopy.score import minimize_energy
from sim import disk, gen, history, ops, tb2j
from sim.engine import VERIF, Violation, outcome

from checks.p16 import STEPS, Session, masked

PROPERTY = "P17"
RUNS = {"quick": 150, "thorough": 8000}
SHRINK = ["sessions", "sessions.*.steps", "sessions.*.ham.bonds", "sessions.*.ham.onsite", "jumps"]
RULE = (
    "one run = up to four sessions (edits, saving and loading in every format, exports, energies, minimisation from a "
    "seeded random source, dispersion) in this process and in a second one with another hash seed, a simulated clock "
    "that starts elsewhere and jumps between the steps, another time zone, locale, umask and working directory with "
    "relative names; results and files are compared, the date of the header excepted; non-trivial: two environments ran"
)
STUBS = ["disk below the system calls", "wall clock", "plots"]
ONLY_ATOMS = ["notation", "dc", "sn", "xf", "of", "add", "rewrite", "rm", "off", "filter", "filtered", "addatom", "copy", "addmirror",
              "cone", "spiral"]
MORE = ["hdf5", "rebuild", "rebuild", "iterate", "magnetic", "vampire", "ucf-logo", "mat-logo", "minimize", "random", "energy-like"]


def generate(rng, tier):
    sessions = []
    for _ in range(rng.randint(1, 4)):
        kinds = STEPS + MORE + MORE
        sessions.append({
            "ham": gen.gen_ham(rng, natoms=(1, 6), nbonds=(1, 8), notation="any"),
            "tb2j": tb2j.gen_tb2j(rng, natoms=(1, 3), nbonds=(1, 4)),
            "steps": [[rng.choice(kinds), rng.randrange(1 << 20), history.gen_ops(rng, 1, weights={"filtered": 0, "copy": 0})[0]]
                      for _ in range(rng.randint(1, 8))],
        })
    return {
        "sessions": sessions,
        "hashseed": rng.randrange(1, 4294967295),
        "clock": rng.choice([0, 951782399, 978307199, 1709251199, 2147483640, 4102444799, rng.randrange(0, 4_000_000_000)]),
        "jumps": [rng.choice([-86400 * 400, -3600, -1, 3600, 86400 * 31, 86400 * 366]) for _ in range(rng.randint(0, 6))],
        "tz": rng.choice(["UTC", "Asia/Kathmandu", "America/St_Johns", "Pacific/Kiritimati"]),
        "locale": rng.choice(["C.UTF-8", "POSIX"]),
        "umask": rng.choice([0o022, 0o077, 0o002]),
        "relative": rng.random() < 0.6,
    }


class Here(Session):
    """Session with the operations that could depend on the environment."""

    def step(self, what, x, op):
        h = self.run.h
        if what == "iterate":
            return [[[a.name, b.name, list(map(int, R))] for a, b, R, _ in h.exchange], [a.name for a, _ in h.on_site],
                    [a.name for a in h.atoms]]
        if what == "magnetic":
            return [[a.name for a in h.magnetic_atoms], h.I]
        if what == "energy-like":
            return [[a.name, b.name, list(map(int, R)), ops.hexes(p.matrix)] for a, b, R, p in h.exchange_like]
        if what == "hdf5":
            super().step(what, x, op)
            with open(self.path("m.hdf5"), "rb") as f:
                return hashlib.sha256(f.read()).hexdigest()
        if what == "rebuild":  # atoms leave and others come, some of them with the same index
            rng = random.Random(x)
            for op in history.gen_ops(rng, rng.randint(2, 6), dict.fromkeys(ONLY_ATOMS, 0) | {"rmatom": 3, "newatom": 3, "on": 1}):
                self.run.apply(op)
            h = self.run.h
            s, ax, q = ops.directions(h, x)
            return [[a.name for a in h.magnetic_atoms], ops.hexes(ops.energy(h).ferro(s))]
        if what == "vampire":
            keep = os.getcwd()
            os.chdir(self.where)  # its input file is written in the working directory
            try:
                dump_vampire(h, seedname="vamp", nologo=x % 2 == 0)
            finally:
                os.chdir(keep)
            return [self.content(n) for n in ("vamp.UCF", "vamp.mat", "input")]
        if what == "ucf-logo":
            dump_ucf(h, filename=self.path("l.UCF"))
            return self.content("l.UCF")
        if what == "mat-logo":
            dump_mat(h, filename=self.path("l.mat"))
            return self.content("l.mat")
        if what in ("minimize", "random"):
            np.random.seed(x % 1000)
        if what == "random":
            case = ["ferro", "antiferro", "spiral"][x % 3]
            r = ops.energy(h).optimize(case, antiferro_q=(0.1, 0.2, 0.3), max_iterations=1)
            return [ops.hexes(v) for v in r]
        if what == "minimize":
            from magnopy import dump_spinham_txt

            dump_spinham_txt(h, filename=self.path("min.txt"))
            with ops.short_minimisation(1):
                o = outcome(lambda: minimize_energy.manager(self.path("min.txt"), ground_state_type=["ferro"],
                                                            output_seedname=self.path("min")))
            names = sorted(n for n in os.listdir(self.where) if n.startswith("min-"))
            return [o.name(), [self.content(n) for n in names] if o.ok else None, names]
        return super().step(what, x, op)


def sessions(specs, where, clock, jumps):
    out = []
    for i, s in enumerate(specs):
        if clock is not None:
            disk.clock(clock + sum(jumps[:i]))
        here = Here(s, os.path.join(where, f"s{i}"))
        if clock is not None and jumps:
            here.tick = lambda n: disk.clock(max(0, clock + sum(jumps[: (i + n) % len(jumps)])))
        out.append(here.all())
    return json.loads(json.dumps(out))


def execute(sc, w):
    if not sc["sessions"]:
        return
    os.mkdir(w.path("one"))
    os.mkdir(w.path("two"))
    want = sessions(sc["sessions"], w.path("one"), None, [])
    env = dict(os.environ)
    env.update({
        "PYTHONHASHSEED": str(sc["hashseed"]), "TZ": sc["tz"], "LC_ALL": sc["locale"], "LANG": sc["locale"],
        "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "HOME": w.scratch, "COLUMNS": "40",
    })
    if sc["relative"]:
        cwd, where = w.path("two"), ""
    else:
        cwd, where = w.out, w.path("two")
    job = {"sessions": sc["sessions"], "where": where, "clock": sc["clock"], "jumps": sc["jumps"], "cwd": cwd, "umask": sc["umask"]}
    p = subprocess.run([sys.executable, os.path.join(VERIF, "sim", "envrun.py")], input=json.dumps(job).encode(),
                       env=env, capture_output=True)
    if p.returncode != 0 or not p.stdout:
        raise RuntimeError(f"second process: {p.returncode} {p.stderr.decode()[-2000:]}")
    got = json.loads(p.stdout)
    for i, (a, b) in enumerate(zip(want, got)):
        for x, y in zip(a, b):
            w.check(x[:3] == y[:3], "environment",
                    f"session {i}, {x[0]}: {difference(y[1:3], x[1:3])} (hash seed {sc['hashseed']}, {sc['tz']}, {sc['locale']})")
            w.probe(x[0].split()[0])
        w.check(len(a) == len(b), "environment", f"session {i} left other files")
    w.fault("clock-jump", len(sc["jumps"]))
    w.fault("hash-seed")
    w.fault("locale-" + sc["locale"])
    w.log(want)
    w.state(sc["tz"], sc["locale"], sc["relative"], [x[0] for s in sc["sessions"] for x in s["steps"]])
    w.nontrivial = True


def difference(a, b):
    a, b = str(a), str(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, i - 60): i + 100]} instead of ...{b[max(0, i - 60): i + 100]}"
