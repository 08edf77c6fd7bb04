"""P18: the minimisation command: its results file says what it found, completely, for what was asked."""

import contextlib
import gc
import io
import itertools
import os
import re
import traceback

import numpy as np

from magnopy import Energy, dump_spinham_hdf5, dump_spinham_txt, load_spinham
from magnopy.exceptions import NotationError
from magnopy.score import minimize_energy
from sim import gen, ops, tb2j
from sim.engine import Violation, outcome

from checks.p14 import scaled

PROPERTY = "P18"
RUNS = {"quick": 160, "thorough": 12000}
SHRINK = ["runs", "ham.bonds", "ham.onsite"]
RULE = (
    "one run = a model saved to a file and several runs of the minimisation command on it (seeded format, ground state "
    "types, field, output name, random source, number of steps), without faults, under disk faults, interrupted at a "
    "seeded line; the results file is parsed and compared with energies recomputed from the printed configuration and "
    "with the history files; non-trivial: a fault fired or two runs of the command returned"
)
STUBS = ["disk below the system calls", "plots", "limits of the number of steps and of the line search"]
TYPES = ["ferro", "antiferro", "spiral"]
Q = [q for q in itertools.product((-1, 0, 1), repeat=3) if any(q)]


def generate(rng, tier):
    runs = []
    for _ in range(rng.randint(1, 3)):
        runs.append({
            "types": rng.choice([None, ["all"], ["ferro"], ["ferro"], ["spiral"], ["antiferro"], ["spiral", "ferro"],
                                 ["ferro", "spiral"], ["ferro", "all"], ["antiferro", "ferro"]]),
            "field": rng.choice([None, None, [0.0, 0.0, 1.0], [0.3, -0.2, 5.0]]),
            "seedname": rng.choice([None, "out", "sub/run", "a b", "run-1"]),
            "format": rng.random() < 0.4,
            "seed": rng.randrange(1 << 30),
            "steps": rng.choice([0, 1, 1, 2]),
            "easy": rng.random() < 0.8,
            "mode": rng.choice(["plain", "plain", "disk", "disk", "short", "interrupt"]),
            "faults": ops.disk_faults(rng, 1),
            "spec": {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"])},
        })
    for r in runs:
        for f in r["faults"]:
            f["cls"] = rng.choice(["write", "write", "openw", "close", "open", "read"])
            f["action"] = rng.choice(["err", "err", "full"]) if f["cls"] == "write" else "err"
            if r["mode"] == "short":
                f["cls"], f["action"] = rng.choice(["read", "write"]), "short"
    return {
        "ham": gen.gen_ham(rng, natoms=(1, 3), nbonds=(1, 4), notation="any"),
        "tb2j": tb2j.gen_tb2j(rng, natoms=(1, 2), nbonds=(1, 3)),
        "scale": rng.choice([0.3, 0.1, 0.03]),
        "file": rng.choice(["model.txt", "model.hdf5", "model.hdf5", "model", "exchange.out"]),
        "kind": rng.choice(["txt", "hdf5"]),
        "runs": runs,
    }


def numbers(text):
    return [float(x) for x in text.split()]


def parse(text):
    """(sections [(type, [block])], summary {type: energies}); block: file, qrel, atoms, axis, spiral vector."""
    parts = re.split(r"Start to minimize assuming (\S+) ground state type", text)
    tail = parts[-1].split("Summary:")
    if len(tail) != 2:
        raise ValueError("no summary")
    parts[-1] = tail[0]
    sections = []
    for kind, body in zip(parts[1::2], parts[2::2]):
        blocks = []
        chunks = body.split("Spin orientations in the minimum configuration:")
        for before, chunk in zip(chunks, chunks[1:]):
            b = {"atoms": [], "axis": None, "vector": None, "before": before}
            for line in chunk.split("\n")[2:]:
                m = re.match(r"\s*(\S+)((?:\s+-?\d+\.\d+){6})\s*$", line)
                if m:
                    b["atoms"].append((m.group(1), numbers(m.group(2))))
                elif "Cone axis is:" in line:
                    b["axis"] = numbers(line.split(":")[1])
                elif "Spiral vector is:" in line:
                    b["vector"] = numbers(line.split(":")[1])
            blocks.append(b)
        sections.append((kind, blocks))
    summary = []
    for line in tail[1].split("\n"):
        m = re.match(r"(Ferro|Antiferro|Spiral)\S* energ\S* :(.*)$", line)
        if m:
            kind = {"Ferro": "ferro", "Antiferro": "antiferro", "Spiral": "spiral"}[m.group(1)]
            summary.append((kind, numbers(m.group(2)) if kind != "antiferro" else []))
        elif line.strip():
            i, x = line.split()
            summary[-1][1].append((int(i), float(x)))
    return sections, summary


def execute(sc, w):
    os.mkdir(w.path("sub"))
    name = w.path(sc["file"])
    kind = {"model.txt": "txt", "model.hdf5": "hdf5", "exchange.out": "tb2j"}.get(sc["file"], sc["kind"])
    h = gen.build(scaled(sc["ham"], sc["scale"]))
    if kind == "tb2j":
        if not sc["tb2j"]["bonds"]:
            return
        with open(name, "w") as f:
            f.write(tb2j.render(sc["tb2j"]))
    elif h.I == 0:
        return
    elif kind == "txt":
        dump_spinham_txt(h, filename=name)
    else:
        dump_spinham_hdf5(h, filename=name)
    try:
        h = load_spinham(name, spinham_format=kind)
        Energy(h)
    except NotationError:
        return  # without exchange its part of the notation is not in the file
    atoms = [(a.name, list(a.position)) for a in h.magnetic_atoms]
    if not atoms:
        return
    bound = sum(np.max(np.abs(p.matrix)) * 9 for _, _, _, p in h.exchange_like) * max(max(1, a.spin) for a in h.magnetic_atoms) ** 2
    with open(w.path("notes"), "w") as f:
        f.write("notes of the user")
    outside = {n: open(w.path(n), "rb").read() for n in (sc["file"], "notes")}
    os.chdir(w.vol)
    returned = 0

    def tree():
        return {os.path.relpath(os.path.join(d, f), w.vol) for d, _, fs in os.walk(w.vol) for f in fs}

    for i, r in enumerate(sc["runs"]):
        def command(seedname):
            argv = ["-sh", sc["file"] if r["seed"] % 2 else name]
            # the format of a file is found from its extension; it can be given as well
            if r["format"] or sc["file"] == "model":
                argv += ["-shf", kind]
            if r["types"] is not None:
                argv += ["-gst"] + r["types"]
            if r["field"] is not None:
                argv += ["-mf"] + [str(x) for x in r["field"]]
            if seedname is not None:
                argv += ["-os", seedname]

            def run():
                np.random.seed(r["seed"])
                with ops.short_minimisation(r["steps"], r["easy"]), contextlib.redirect_stdout(io.StringIO()):
                    ops.command_line(minimize_energy, argv)
            return run

        asked = TYPES if r["types"] is None or "all" in r["types"] else r["types"]
        seedname = r["seedname"] and f"{r['seedname']}{i}"
        prefix = seedname or "minim"

        def expected(prefix):
            out = {f"{prefix}-results"}
            for t in asked:
                out |= {f"{prefix}-{t}-history"} if t != "antiferro" else {f"{prefix}-antiferro-history-{k}" for k in range(1, 27)}
            return out

        def remove(prefix):
            for f in tree():
                if f.startswith(prefix + "-"):
                    os.unlink(w.path(f))

        def plain(text):
            return [x for x in text.split("\n") if "enerated on" not in x]

        def check_results(prefix, what):
            """The files of a run that returned."""
            text = open(w.path(f"{prefix}-results"), encoding="utf-8").read()

            def bad(kind, msg):
                raise Violation(kind, f"{what}: {msg}")

            parsed = outcome(lambda: parse(text))
            if not parsed.ok:
                bad("results", f"results can not be read: {parsed.exc}: {text[-300:]!r}")
            sections, summary = parsed.value
            got = [{"ferromagnetic": "ferro", "antiferromagnetic": "antiferro"}.get(k, k) for k, _ in sections]
            if got != list(asked) or [k for k, _ in summary] != list(asked):
                bad("types", f"results are about {got}, the summary about {[k for k, _ in summary]}, asked for {asked}")
            e = Energy(h)
            if r["field"] is not None:
                e.magnetic_field = r["field"]
            magnitude = bound + (sum(r_ ** 2 for r_ in r["field"]) ** 0.5 * 10 if r["field"] else 0)
            seen = set()
            for (_, blocks), (t, energies) in zip(sections, summary):
                if t == "antiferro":
                    if [k for k, _ in energies] != list(range(1, 27)):
                        bad("summary", f"{len(energies)} numbered antiferromagnetic energies")
                    energies = [x for _, x in energies]
                if len(blocks) != (26 if t == "antiferro" else 1) or len(energies) != len(blocks):
                    bad("blocks", f"{len(blocks)} configurations and {len(energies)} energies of the {t} case")
                for k, (b, en) in enumerate(zip(blocks, energies)):
                    if [a for a, _ in b["atoms"]] != [a for a, _ in atoms]:
                        bad("atoms", f"atoms of the {t} configuration are {[a for a, _ in b['atoms']]} instead of {[a for a, _ in atoms]}")
                    for (a, x), (_, pos) in zip(b["atoms"], atoms):
                        if not np.allclose(x[:3], pos, rtol=0, atol=6e-9):
                            bad("position", f"position of {a} is {x[:3]} instead of {pos}")
                    s = np.array([x[3:] for _, x in b["atoms"]])
                    if not np.allclose(np.linalg.norm(s, axis=1), 1, rtol=0, atol=1e-7):
                        bad("unit", f"directions {s.tolist()} are not unit vectors")
                    state = s.ravel().tolist()
                    if t == "ferro":
                        want = float(e.ferro(s))
                    else:
                        if b["axis"] is None or b["vector"] is None:
                            bad("blocks", f"no cone axis or no spiral vector of the {t} case")
                        want = float(getattr(e, t)(s, np.array(b["axis"]), np.array(b["vector"])))
                        state += b["axis"] + b["vector"]
                    tol = 2e-8 + 1e-6 * magnitude
                    if abs(want - en) > tol:
                        bad("energy", f"energy of the {t} case is {en} in the summary, {want} for the printed configuration")
                    if t == "antiferro":
                        q = np.rint(np.array(b["vector"]) @ np.linalg.inv(h.reciprocal_cell) * 2).astype(int)
                        if not np.allclose(q @ h.reciprocal_cell / 2, b["vector"], rtol=0, atol=1e-7):
                            bad("q", f"spiral vector {b['vector']} is not a half of a reciprocal lattice vector")
                        seen.add(tuple(int(x) for x in q))
                        m = re.findall(r"q_rel = \(\s*(-?\d+),\s*(-?\d+),\s*(-?\d+)\) is written to the file (.*)\n", b["before"])
                        if len(m) != 1 or tuple(int(x) for x in m[0][:3]) != tuple(q):
                            bad("q", f"configuration {k + 1} has the vector {q.tolist()}, announced is {m}")
                        hist = m[0][3]
                        if hist != f"{prefix}-antiferro-history-{k + 1}":
                            bad("name", f"history {hist} of the antiferromagnetic configuration {k + 1}")
                    else:
                        hist = f"{prefix}-{t}-history"
                        if hist not in b["before"]:
                            bad("name", f"results do not name the file {hist}")
                    lines = open(w.path(hist)).read().split("\n")
                    if not any("nergy" in x for x in lines[:1]):
                        bad("history", f"{hist} begins with {lines[:1]}")
                    last = numbers(lines[-2])
                    if len(last) < len(state) or not np.allclose(last[-len(state):], state, rtol=0, atol=2.1e-8):
                        bad("history", f"last record of {hist} is not the configuration of the results: {last} and {state}")
                    if abs(last[0] - en) > 2e-8 + 1e-7 * abs(en):
                        bad("history", f"energy is {last[0]} in {hist} and {en} in the summary")
                    w.probe(t)
            if "antiferro" in asked and seen != set(Q):
                bad("q", f"wave vectors {sorted(set(Q) - seen)} are missing")
            return text

        what = f"command with -gst {r['types']} ({r['mode']})"
        before = tree()
        remove("minim")
        o = outcome(command(seedname))
        line_search = not o.ok and isinstance(o.exc, ValueError) and "olfe" in str(o.exc)
        w.check(o.ok or line_search, "failed", f"{what} fails: {o.name()}: {o.exc}")
        w.probe("returned" if o.ok else "line search failed")
        if o.ok:
            w.check(o.held == 0, "handle", f"{what} left {o.held} files open")
            new = tree() - before
            w.check(expected(prefix) <= tree(), "missing", f"{what} did not write {sorted(expected(prefix) - tree())}")
            w.check(new <= expected(prefix), "residue", f"{what} wrote {sorted(new - expected(prefix))}")
            text = check_results(prefix, what)
            returned += 1
            w.log(what, plain(text))
        else:
            traceback.clear_frames(o.exc.__traceback__)
            o.exc = o.exc.with_traceback(None)
            gc.collect()
        for n, data in outside.items():
            w.check(open(w.path(n), "rb").read() == data, "touched", f"{what} changed {n}")
        if not o.ok:
            continue
        # ---- the same once more, elsewhere, under faults
        _, counted = w.counted(command("spare"))
        w.check(plain(open(w.path("spare-results"), encoding="utf-8").read()) ==
                [x.replace(f"{prefix}-", "spare-") for x in plain(text)], "repeat",
                f"{what} gives another result from the same random source")
        remove("spare")
        if r["mode"] in ("disk", "short"):
            f, fired = w.with_faults(command("second"), r["faults"], counted)
            w.log("faults", fired, f.name())
            if f.ok:
                second = check_results("second", f"{what}, {fired} faults fired")
                w.check(plain(second) == [x.replace(f"{prefix}-", "second-") for x in plain(text)], "repeat",
                        f"{what} gives another result when {fired} faults fired")
            else:
                w.check(fired > 0, "failed", f"{what} fails without a fault: {f.name()}: {f.exc}")
                w.check(r["mode"] == "disk", "short", f"{what} fails because of a short read or write: {f.name()}: {f.exc}")
                traceback.clear_frames(f.exc.__traceback__)
                f.exc = f.exc.with_traceback(None)
                gc.collect()
                remove("second")
        elif r["mode"] == "interrupt":
            delivered, where, _, ex = w.interrupt(command("second"), r["spec"])
            w.log("interrupt", delivered, where)
            gc.collect()
            remove("second")
        # ---- the faults stop: complete again, nothing else touched
        o = outcome(command("second"))
        w.check(o.ok, "retry", f"{what} fails after the faults stopped: {o.name()}: {o.exc}")
        again = check_results("second", what + " after the faults stopped")
        w.check(plain(again) == [x.replace(f"{prefix}-", "second-") for x in plain(text)], "repeat",
                f"{what} gives another result after the faults stopped")
        w.check(tree() - before <= expected(prefix) | expected("second"), "residue",
                f"{what} wrote {sorted(tree() - before - expected(prefix) - expected('second'))}")
        remove("second")
        for n, data in outside.items():
            w.check(open(w.path(n), "rb").read() == data, "touched", f"{what} changed {n}")
        w.state(r["types"], kind, r["field"], r["steps"], r["mode"])
    w.nontrivial = bool(w.faults) or returned >= 2
