"""P27: objects sent to other processes are the same there, and work distributed over processes gives the same results."""

import base64
import copy
import json
import os
import pickle
import subprocess
import sys

import numpy as np

from magnopy import MagnonDispersion, MatrixParameter, load_spinham
from magnopy.magnons import solve_via_colpa
from sim import gen, history, ops
from sim.engine import VERIF, Violation, outcome

from checks.p06 import Shared
from checks.p16 import masked

PROPERTY = "P27"
RUNS = {"quick": 1200, "thorough": 30000}
SHRINK = ["steps", "points", "ham.bonds", "ham.onsite"]
RULE = (
    "one run = a coordinator with a Hamiltonian, an energy and a dispersion that are edited and sent (pickled by any protocol or deep-"
    "copied) at seeded moments to workers; a seeded network delivers the messages late, in another order, twice or after the worker was killed at a seeded "
    "line; workers compute, edit, forward and send back; some workers are forked, some are new processes with another hash seed; answers are compared with those "
    "of the original at the time of sending, edited objects with the reference table; non-trivial: two messages were delivered"
)
QUERIES = ["h", "omega", "omegas", "C", "A", "B", "J", "call", "ferro", "spiral", "antiferro", "like", "iterate", "copy", "energy", "dispersion",
           "magnetic", "txt-text", "ucf-text", "filtered", "get"]
PLAIN = ["like", "iterate", "copy", "magnetic", "txt-text", "ucf-text", "filtered", "get", "notation", "distance", "contains", "crystal"]


def generate(rng, tier):
    ham = gen.gen_ham(rng, far=True, natoms=(1, 4), nbonds=(1, 6), notation=rng.choice(["any", "any", "any", None]), onsite=0.7)
    steps = []
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        if r < 0.3:
            steps.append(["send", rng.choice([0, 1, 2, 3, 4, 5, "deepcopy"]), rng.choice(["all", "all", "apart", "ham"]),
                          [[rng.choice(QUERIES), rng.randrange(1 << 20)] for _ in range(rng.randint(1, 3))],
                          [[rng.choice(PLAIN), rng.randrange(1 << 20)] for _ in range(rng.randint(1, 3))]])
        elif r < 0.5:
            steps.append(["deliver", rng.randrange(100), rng.choice(["plain", "plain", "killed", "killed", "forked", "twice"]),
                          {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"])}])
        elif r < 0.7:
            steps.append(["edit", history.gen_ops(rng, 1)[0]])
        elif r < 0.85:
            steps.append(["there", rng.randrange(100), history.gen_ops(rng, 1)[0]])
        elif r < 0.9:
            steps.append(["forward", rng.randrange(100), rng.choice([2, 4, 5, "deepcopy"])])
        elif r < 0.95:
            steps.append(["back", rng.randrange(100), rng.choice([2, 4, 5])])
        else:
            steps.append(["failure", rng.randrange(14), rng.choice([2, 4, 5, "deepcopy"])])
    n = rng.choice([0, 3, 6, 9])
    return {
        "ham": ham, "steps": steps, "process": rng.random() < 0.06, "hashseed": rng.randrange(1, 4294967295),
        "points": [[round(rng.uniform(-1, 1), 3) for _ in range(3)] for _ in range(n)],
        "cuts": sorted(rng.randrange(n + 1) for _ in range(3)), "order": [rng.randrange(1000) for _ in range(8)],
        "deaths": [[rng.randrange(8), {"at": rng.randrange(1_000_000), "kind": "interrupt"}] for _ in range(rng.choice([0, 1, 2]))],
    }


def encode(objects, how):
    """Bytes of the message (or its copy, which is a message within the process)."""
    if how == "deepcopy":
        return copy.deepcopy(objects)
    return pickle.dumps(objects, protocol=how)


def decode(payload):
    # the payload of a repeated message is the same
    if isinstance(payload, dict):
        return {k: decode(v) for k, v in payload.items()}
    return pickle.loads(payload) if isinstance(payload, bytes) else copy.deepcopy(payload)


def undated(x):
    """The same without dates in texts."""
    if isinstance(x, (list, tuple)):
        return [undated(i) for i in x]
    return masked(x, "/nowhere") if isinstance(x, str) and "\n" in x else x


def work(objects, queries, plain):
    """Answers of a worker, in JSON."""
    out = []
    h = objects["h"]
    if objects.get("e") is not None:
        s = Shared.__new__(Shared)
        s.h, s.e, s.d, s.optimizing = h, objects["e"], objects["d"], False
        for what, x in queries:
            o = outcome(lambda: s.query(what, x))
            out.append([what, o.value if o.ok else [o.name(), str(o.exc)]])
    for what, x in plain:
        o = outcome(lambda: ops.read(h, what, x, None)())
        out.append([what, o.value if o.ok else [o.name(), str(o.exc)]])
    out = [[what, undated(v)] for what, v in out]
    out.append(["snapshot", gen.snapshot(h)])
    return json.loads(json.dumps(out))


def remote(jobs):
    """Workers of another process (sim/envrun.py)."""
    return [work(pickle.loads(base64.b64decode(b)), q, p) for b, q, p in jobs]


def number(x):
    try:
        return float.fromhex(x) if "0x" in x or x in ("nan", "inf", "-inf") else None
    except (ValueError, OverflowError):
        return None


def near(a, b, where=""):
    """None, or where the answers differ (numbers: beyond rounding)."""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{where}: {len(a)} and {len(b)} items"
        x = [number(i) if isinstance(i, str) else None for i in a]
        y = [number(i) if isinstance(i, str) else None for i in b]
        if a and None not in x and None not in y:
            x, y = np.array(x), np.array(y)
            big = max([1e-9] + [abs(v) for v in y if np.isfinite(v)])
            if np.allclose(x, y, rtol=1e-8, atol=1e-8 * big, equal_nan=True):
                return None
            return f"{where}: {x.tolist()} instead of {y.tolist()}"
        for i, (p, q) in enumerate(zip(a, b)):
            d = near(p, q, f"{where}.{i}")
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return f"{where}: {list(a)} and {list(b)}"
        for k in a:
            d = near(a[k], b[k], f"{where}.{k}")
            if d:
                return d
        return None
    if isinstance(a, str) and isinstance(b, str) and number(a) is not None and number(b) is not None:
        return near([a], [b], where)
    return None if a == b else f"{where}: {str(a)[:200]} instead of {str(b)[:200]}"


def execute(sc, w):
    run = history.Run(w, sc["ham"])
    for name in ("wrong.txt", "wrong.hdf5"):
        with open(w.path(name), "w") as f:
            f.write("nothing\n")
    queue, objects, pickles, members = [], [], [], []
    delivered = 0

    def child(h, ref, n):
        sub = history.Run.__new__(history.Run)
        sub.w, sub.h, sub.ref, sub.spare, sub.given, sub.older = w, h, ref, 1000 * (n + 1), [], []
        return sub

    def judge(m, got, how):
        d = near(got, m["answer"])
        w.check(d is None, "answer", f"message {m['n']} ({m['how']}, {how}): worker and original differ: {d}")

    def others(target, what):
        for i, r in enumerate([run] + objects):
            s = gen.snapshot(r.h)
            if r is not target and getattr(r, "seen", None) is not None:
                d = gen.diff(r.seen, s)
                w.check(d is None, "shared", f"{what} changed another object ({i}): {d}")
            r.seen = s

    def deliver(m, mode, spec):
        nonlocal delivered
        what = f"message {m['n']} ({m['how']}, {mode})"

        def receive():
            o = decode(m["payload"])
            return o, work(o, m["queries"], m["plain"])

        if mode == "killed":
            w.interrupt(receive, spec)
            w.probe("worker killed")
            others(None, what)
        if mode == "forked":
            judge(m, w.isolated(lambda: receive()[1]), "forked")
            w.fault("fork")
        for _ in range(2 if mode == "twice" else 1):
            o, got = receive()
            judge(m, got, mode)
        if mode == "twice":
            w.fault("duplicate")
        sub = child(o["h"], m["ref"].copy(), len(objects))
        history.compare(w, sub.h, sub.ref, f"{what} was received")
        objects.append(sub)
        others(sub, what)
        # the energy and the dispersion know nothing of later edits there
        if o.get("e") is not None:
            members.append((o, m))
        delivered += 1
        w.probe("delivered")

    others(None, "construction")
    for n, step in enumerate(sc["steps"]):
        k = step[0]
        if k == "edit":
            if run.apply(step[1]):
                history.compare(w, run.h, run.ref, f"edit {step[1][:3]}")
                others(run, f"edit {step[1][:3]} of the original")
                w.probe("edit")
        elif k == "send":
            h = run.h
            bundle = {"h": h}
            if step[2] != "ham" and outcome(lambda: h.notation).ok and h.I:
                bundle["e"], bundle["d"] = ops.energy(h), MagnonDispersion(h)
                if n % 3 == 0:  # settings of the object travel with it
                    bundle["e"].magnetic_field = [0.1 * n, -0.2, 0.3]
                    bundle["e"].g_factors = [1.5 + 0.1 * i for i in range(h.I)]
            m = {"n": n, "how": step[1], "queries": step[3], "plain": step[4], "ref": run.ref.copy()}
            if n % 2:  # the objects were used before
                work(bundle, step[3], step[4])
            if step[2] == "apart":
                m["payload"] = {k: encode(v, step[1]) for k, v in bundle.items()}
            else:
                m["payload"] = encode(bundle, step[1])
            m["answer"] = work(bundle, step[3], step[4])
            others(None, f"sending ({step[1]})")
            if isinstance(m["payload"], bytes):
                pickles.append(m)
            queue.append(m)
            w.log(n, m["answer"])
            w.fault("delay")
        elif k == "deliver":
            if queue:
                i = step[1] % len(queue)
                if i:
                    w.fault("reorder")
                m = queue.pop(i)
                deliver(m, step[2], step[3])
        elif k == "there":
            if objects:
                r = objects[step[1] % len(objects)]
                if r.apply(step[2]):
                    history.compare(w, r.h, r.ref, f"edit {step[2][:3]} of an object that was sent")
                    others(r, f"edit {step[2][:3]} of an object that was sent")
                    w.probe("edit there")
        elif k in ("forward", "back"):
            if objects:
                r = objects[step[1] % len(objects)]
                h = decode(encode(r.h, step[2]))
                sub = child(h, r.ref.copy(), 50 + n)
                history.compare(w, sub.h, sub.ref, "the object was sent on")
                d = gen.diff(gen.snapshot(r.h), gen.snapshot(h))
                w.check(d is None, "answer", f"object sent on ({step[2]}) is different: {d}")
                if k == "back":
                    objects.append(run)
                    run = sub
                else:
                    objects.append(sub)
                others(sub, "sending on")
                w.probe(k)
        elif k == "failure":
            # errors come back from workers as well
            h = run.h
            fns = [lambda: h.remove_exchange("nobody", "nothing", (0, 0, 0)), lambda: h.remove_on_site("nobody"), lambda: h["nobody", "nothing", (0, 0, 0)],
                   lambda: type(h)().notation, lambda: type(h)(notation="nonsense"), lambda: h.add_exchange("nobody", "nothing", (0, 0, 0), iso=1),
                   lambda: solve_via_colpa(np.diag([-1.0, -2.0])), lambda: load_spinham(w.path("wrong.txt")), lambda: load_spinham(w.path("no.txt")),
                   lambda: load_spinham(w.path("wrong.hdf5")), lambda: type(h)().on_site_factor, lambda: type(h)().exchange_factor,
                   lambda: type(h)().spin_normalized, lambda: MatrixParameter(matrix=[1, 2])]
            o = outcome(fns[step[1] % len(fns)])
            if not o.ok:
                e = outcome(lambda: decode(encode(o.exc, step[2])))
                w.check(e.ok, "exception", f"{o.name()} can not be sent ({step[2]}): {e.exc!r}")
                w.check(type(e.value) is type(o.exc) and str(e.value) == str(o.exc), "exception",
                        f"{o.exc!r} is received as {e.value!r}")
                w.probe("exception")
    # ---- everything on the way arrives
    while queue:
        deliver(queue.pop(), "plain", None)
    # ---- energies and dispersions that were sent know nothing of the edits since
    for o, m in members:
        again = work(dict(o, h=decode(m["payload"])["h"]), m["queries"], [])[:-1]
        first = [x for x in m["answer"][:len(m["queries"])]]
        for x, y in zip(again, first):
            if x[0] in ("h", "omega", "omegas", "C", "A", "B", "J", "call", "ferro", "spiral", "antiferro"):
                d = near(x, y)
                w.check(d is None, "answer", f"{x[0]} of an object that was sent changed with other edits: {d}")
    # ---- a spectrum computed in parts
    h = run.h
    if sc["points"] and outcome(lambda: h.notation).ok and h.I:
        d = MagnonDispersion(h)
        k = np.array(sc["points"])
        want = np.array(d.omegas(k))
        cuts = [0] + [c % (len(k) + 1) for c in sc["cuts"]] + [len(k)]
        cuts = sorted(cuts)
        parts = [(a, b) for a, b in zip(cuts, cuts[1:]) if b > a]
        todo = sorted(range(len(parts)), key=lambda i: (sc["order"][i % len(sc["order"])], i))
        todo += [i for i in todo if sc["order"][i % len(sc["order"])] % 4 == 0]  # some twice
        message = pickle.dumps(d)
        got = np.full(want.shape, np.nan)
        kept = pickle.loads(message)  # a worker that lives
        for n, i in enumerate(todo):
            a, b = parts[i]

            def part(o):
                return np.array([o.omega(x) for x in k[a:b]]).T

            for at, spec in sc["deaths"]:
                if at == n:
                    w.interrupt(lambda: part(pickle.loads(message)), spec)
                    w.probe("worker killed")
            r = part(kept if n % 2 else pickle.loads(message))
            got[:, a:b] = r
        w.check(near(ops.hexes(got), ops.hexes(want)) is None, "parts",
                f"spectrum in parts {parts} is {got.tolist()} instead of {want.tolist()}")
        w.check(near(ops.hexes(d.omegas(k)), ops.hexes(want)) is None, "parts", "spectrum of the original changed")
        w.log(got)
        w.probe("parts")
    # ---- a new process
    if sc["process"] and pickles:
        jobs = [[base64.b64encode(m["payload"]).decode(), m["queries"], m["plain"]] for m in pickles]
        env = dict(os.environ, PYTHONHASHSEED=str(sc["hashseed"]))
        p = subprocess.run([sys.executable, os.path.join(VERIF, "sim", "envrun.py")], input=json.dumps({"pickles": jobs}).encode(),
                           env=env, capture_output=True)
        if p.returncode != 0 or not p.stdout:
            raise Violation("process", f"a new process can not use what it received: {p.stderr.decode()[-600:]}")
        for m, got in zip(pickles, json.loads(p.stdout)):
            judge(m, got, f"a new process with the hash seed {sc['hashseed']}")
        w.fault("hash-seed")
        w.probe("process")
    w.log(gen.snapshot(run.h))
    w.state([s[0] for s in sc["steps"]], sc["process"])
    w.nontrivial = delivered >= 2
