"""P15: the history file of a minimisation: whole, in order, appended, a prefix after any failure."""

import contextlib
import io
import os

import numpy as np

from sim import gen, ops
from sim.engine import Violation, outcome

from checks.p14 import CASES, gen_task, gen_tolerance, guess_of, minimise, scaled, settle  # noqa: F401

PROPERTY = "P15"
RUNS = {"quick": 400, "thorough": 30000}
SHRINK = ["attempts", "ham.bonds", "ham.onsite"]
RULE = (
    "one run = one minimisation path that is recorded several times (other sizes of the batches, printed instead of "
    "saved, appended to earlier content) without faults, under disk faults, in a process that dies at a seeded "
    "operation and interrupted at a seeded line; records are compared with the states that the minimisation returns "
    "when it is stopped after every single step; non-trivial: a fault fired or two batches were written"
)


def generate(rng, tier):
    task = gen_task(rng)
    task["max"] = rng.choice([0, 1, 2, 2, 3, 3, 4, 5] if tier == "thorough" else [0, 1, 2, 2, 3, 3, 4])
    task["tol"] = gen_tolerance(rng, [1e-3, 0.3, 1e3])
    attempts = []
    for _ in range(rng.randint(1, 3)):
        attempts.append({
            "k": rng.choice(["plain", "disk", "disk", "crash", "interrupt", "print"]),
            "step": rng.choice([1, 1, 2, 3, 4, 1000]),
            "prior": rng.choice(["none", "run", "notes"]),
            "faults": ops.disk_faults(rng, 1),
            "spec": {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"])},
        })
    for a in attempts:
        for f in a["faults"]:
            f["cls"] = rng.choice(["write", "write", "openw", "close", "mut"])
            f["action"] = rng.choice(["err", "err", "full", "short"]) if f["cls"] == "write" else "err"
    easy = rng.random() < 0.6  # almost every step is accepted: long paths
    if easy:
        task["max"] = rng.choice([0, 1, 2, 3, 5, 8, 12] if tier == "thorough" else [1, 2, 3, 4, 6, 8])
    return {
        "ham": gen.gen_ham(rng, far=True, natoms=(1, 3), nbonds=(1, 5), notation="any"),
        "scale": rng.choice([1.0, 0.1, 0.1, 0.03]),
        "settings": {"m": rng.choice([None, 1, 2]), "c1": -1e9 if easy else None, "c2": 1e9 if easy else rng.choice([None, 0.99]),
                     "field": rng.choice([None, [0.3, -0.2, 5.0]]), "g": False, "spins": False},
        "task": task,
        "attempts": attempts,
    }


def recorded(e, t, name, step, mx):
    """Callable that runs the minimisation and records its history."""
    g, q = guess_of(t, len(e.spins))
    tol = t["tol"] and tuple(t["tol"][: 2 if t["case"] == "ferro" else 3])
    kw = {"tolerance": tol, "initial_guess": g, "max_iterations": mx, "save_history": True,
          "history_filename": name, "history_step": step}
    if t["case"] == "antiferro":
        kw["antiferro_q"] = q

    def run():
        np.random.seed(t["seed"] % (1 << 31))
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            r = e.optimize(t["case"], **kw)
        return r, out.getvalue()

    return run


def columns(t, v):
    """Numbers of a record, after the energy and the torques."""
    x = np.asarray(v[0]).ravel().tolist()
    if t["case"] != "ferro":
        x += list(np.asarray(v[1])) + list(np.asarray(v[2]))
    return x


def execute(sc, w):
    h = gen.build(scaled(sc["ham"], sc["scale"]))
    if h.I == 0:
        return
    t = sc["task"]
    nt = 1 if t["case"] == "ferro" else 2

    def fresh():
        e = ops.energy(h)
        settle(e, sc["settings"])
        return e

    # ---- the path, one state per step: the minimisation stopped after j steps
    states, failed = [], None
    for j in range(t["max"] + 1):
        o = outcome(minimise(fresh(), t, mx=j))
        if not o.ok:
            w.check("olfe" in str(o.exc), "failed", f"minimisation fails: {o.name()}: {o.exc}")
            failed = o
            break
        states.append([np.array(x) for x in o.value])
    # it may converge before the limit: the same state from then on
    popped = 0
    while len(states) > 1 and failed is None and all(np.array_equal(a, b) for a, b in zip(states[-1], states[-2])):
        states.pop()
        popped += 1
    f = getattr(fresh(), t["case"])
    energies = [float(f(*s)) for s in states]
    w.probe("path failed" if failed else "path returned")
    w.probe("steps", len(states) - 1)

    def check_text(text, n, what):
        """The text is the header and the first n records of the path."""
        w.check(text.endswith("\n") or text == "", "lines", f"{what}: the last record has no end of line")
        lines = text.split("\n")[:-1]
        w.check(len(lines) == n + 1, "records", f"{what}: {len(lines)} lines instead of the header and {n} records")
        w.check("nergy" in lines[0] and "orque" in lines[0], "header", f"{what}: header is {lines[0]!r}")
        width = len(lines[0].split())
        for i, line in enumerate(lines[1:]):
            try:
                x = [float(a) for a in line.split()]
            except ValueError:
                raise Violation("records", f"{what}: record {i} is {line!r}")
            w.check(len(x) == width, "records", f"{what}: record {i} has {len(x)} numbers, header {width}")
            w.check(abs(x[0] - energies[i]) <= 1e-7 * abs(energies[i]) + 1e-12, "energy",
                    f"{what}: record {i} has the energy {x[0]}, the state after {i} steps {energies[i]}")
            want = columns(t, states[i])
            w.check(len(x) == 1 + nt + len(want) and np.allclose(x[1 + nt:], want, rtol=0, atol=6e-9), "state",
                    f"{what}: record {i} has the state {x[1 + nt:]}, the state after {i} steps is {want}")
        return lines

    # ---- reference text, all at once
    w.counted(lambda: None)
    ref = w.path("reference")
    o = outcome(recorded(fresh(), t, ref, 1, t["max"] if failed is None else len(states) - 1))
    w.check(o.ok, "history", f"minimisation is different with the history: {o.name()}")
    full = open(ref).read()
    while popped and len(states) < full.count("\n") - 1:
        # a step from a stationary point may lead nowhere
        states.append(states[-1])
        energies.append(energies[-1])
        popped -= 1
    check_text(full, len(states), "history")
    # stopping: the first step that satisfies the tolerances, or the limit
    if t["tol"] is not None:
        rows = [[float(a) for a in x.split()] for x in full.split("\n")[1:-1]]
        good = [all(a <= b for a, b in zip(rows[i][1: 1 + nt], t["tol"][1:])) and abs(energies[i] - energies[i - 1]) <= t["tol"][0]
                for i in range(1, len(rows))]
        w.check(not any(good[:-1]), "tolerance", "minimisation goes on although the tolerances are satisfied")
        if failed is None and len(states) - 1 < t["max"]:  # fewer steps than allowed
            w.check(bool(good) and good[-1], "tolerance", "minimisation stops although neither the tolerances are satisfied nor the limit is reached")
            w.probe("converged")
    records = full.split("\n")
    for n, a in enumerate(sc["attempts"]):
        name = w.path(f"history-{n}")
        # ---- what is already there
        prior = ""
        if a["prior"] == "run":
            outcome(recorded(fresh(), t, name, 1000, min(1, t["max"])))
            prior = open(name).read()
        elif a["prior"] == "notes":
            prior = "notes of the user\n"
            with open(name, "w") as fh:
                fh.write(prior)
        # on a failure of the line search at most the last, incomplete batch is lost
        done = len(states) - 1
        if failed is None:
            expect = full
        else:
            kept = 1 + (done // a["step"]) * a["step"] if done >= a["step"] else 0
            least = "".join(x + "\n" for x in records[: 1 + kept])
        what = f"history ({a['k']}, batches of {a['step']}, prior content: {a['prior']})"
        fn = recorded(fresh(), t, name, a["step"], t["max"])

        def appended(p):
            data = open(p).read() if os.path.exists(p) else ""
            w.check(data.startswith(prior), "prior", f"{what}: earlier content of the file is changed")
            return data[len(prior):]

        def prefix(text):
            w.check(full.startswith(text), "prefix", f"{what}: {text[-200:]!r} is not the beginning of the complete history")

        if a["k"] == "print":
            e = fresh()
            out = io.StringIO()

            def show():
                np.random.seed(t["seed"] % (1 << 31))
                g, q = guess_of(t, len(e.spins))
                tol = t["tol"] and tuple(t["tol"][: 2 if t["case"] == "ferro" else 3])
                with contextlib.redirect_stdout(out):
                    return e.optimize(t["case"], tolerance=tol, initial_guess=g, max_iterations=t["max"],
                                      save_history=True, history_step=a["step"],
                                      **({"antiferro_q": q} if t["case"] == "antiferro" else {}))

            o = outcome(show)
            w.check(o.ok == (failed is None), "history", f"{what}: {o.name()}")
            if o.ok:
                w.check(out.getvalue() == full, "printed", f"{what}: what is printed is not what is saved")
            continue
        before = sorted(os.listdir(w.vol))
        if a["k"] == "plain":
            o = outcome(fn)
            w.check(o.ok == (failed is None) and o.held == 0, "history", f"{what}: {o.name()}, {o.held} handles open")
            text = appended(name)
            prefix(text)
            if o.ok:
                w.check(text == expect, "complete", f"{what} is not complete: {len(text)} characters of {len(expect)}")
            else:
                w.check(text.startswith(least), "batch", f"{what}: finished batches are lost: {len(text)} characters, {len(least)} expected")
        elif a["k"] == "disk":
            spare = w.path("spare")
            if prior:
                with open(spare, "w") as fh:
                    fh.write(prior)
            _, counted = w.counted(recorded(fresh(), t, spare, a["step"], t["max"]))
            os.unlink(spare)
            o, fired = w.with_faults(fn, a["faults"], counted)
            w.log(n, "disk", fired, o.name())
            w.check(o.held == 0, "handle", f"{what} left {o.held} handles open")
            text = appended(name)
            prefix(text)
            if o.ok:
                w.check(text == full, "lost", f"{what} returned although {fired} faults fired, but the file is not complete")
            elif failed is None:
                w.check(fired > 0, "failed", f"{what} fails without a fault: {o.name()}: {o.exc}")
        elif a["k"] == "crash":
            spare = w.path("spare")
            if prior:
                with open(spare, "w") as fh:
                    fh.write(prior)
            _, counted = w.counted(recorded(fresh(), t, spare, a["step"], t["max"]))
            os.unlink(spare)
            fault = dict(a["faults"][0], cls="mut") if a["faults"] else {"cls": "mut", "at": 0}
            died = w.crashing(fn, fault, counted)
            w.log(n, "crash", died)
            prefix(appended(name))
        else:
            keep = open(name).read() if os.path.exists(name) else None

            def again():
                # counted once and interrupted once: both from the same file
                if keep is None:
                    if os.path.exists(name):
                        os.unlink(name)
                else:
                    with open(name, "w") as fh:
                        fh.write(keep)
                return recorded(fresh(), t, name, a["step"], t["max"])()

            delivered, where, _, ex = w.interrupt(again, a["spec"])
            w.log(n, "interrupt", delivered, where, type(ex).__name__)
            prefix(appended(name))
        # ---- the faults stop: the next history is complete and what was there stays
        there = open(name).read() if os.path.exists(name) else ""
        o = outcome(recorded(fresh(), t, name, a["step"], t["max"]))
        w.check(o.ok == (failed is None), "retry", f"{what} after the faults stopped: {o.name()}")
        now = open(name).read()
        w.check(now.startswith(there), "prior", f"next history after {what} changes what was there")
        if o.ok:
            w.check(now[len(there):] == full, "retry", f"next history after {what} is not complete")
        w.check(set(os.listdir(w.vol)) - set(before) <= {os.path.basename(name), "tmp.png"}, "residue",
                f"{what} left {sorted(set(os.listdir(w.vol)) - set(before))}")
        w.probe(a["k"])
        w.state(t["case"], a["k"], a["step"], a["prior"], len(states), failed is None)
    w.log(full)
    w.nontrivial = bool(w.faults) or len(states) > 2
