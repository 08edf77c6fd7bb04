"""P06: results read from shared objects do not depend on other readers or on interrupted reads."""

import numpy as np

from magnopy import MagnonDispersion
from sim import gen, ops
from sim.engine import Violation, outcome

PROPERTY = "P06"
RUNS = {"quick": 800, "thorough": 30000}
SHRINK = ["tasks", "switches", "interrupts", "ham.bonds", "ham.onsite"]
RULE = (
    "one run = one Hamiltonian, energy and dispersion that are queried alone, on identical objects by 2-4 threads under "
    "a seeded plan of switches (every line or bytecode of magnopy is a switch point), and on identical objects after "
    "queries interrupted at a seeded line; results are compared bit by bit; non-trivial: the baton moved at least twice "
    "or an interruption was delivered"
)
QUERIES = [
    "h", "h", "omega", "omega", "omega", "omegas", "C", "C", "A", "B", "J", "call", "ferro", "spiral", "antiferro", "e-set",
    "optimize", "like", "iterate", "copy", "energy", "dispersion", "magnetic", "txt-text", "ucf-text", "filtered", "get",
]


def generate(rng, tier):
    ham = gen.gen_ham(rng, far=True, natoms=(1, 4), nbonds=(1, 6), notation="any", onsite=0.7)
    n = rng.randint(2, 4)
    focus = rng.choice([None, None, ["h", "omega", "omegas", "C", "call"], ["ferro", "spiral", "antiferro", "optimize"]])
    tasks = []
    for _ in range(n):
        tasks.append([[rng.choice(focus or QUERIES), rng.randrange(1 << 20)] for _ in range(rng.randint(1, 3))])
    opc = rng.random() < 0.15
    return {
        "ham": ham,
        "tasks": tasks,
        "opcodes": opc,
        "switches": ops.switches(rng, rng.choice([2, 5, 20, 60]), n),
        "early": rng.choice([0, 0, 1]),
        "interrupts": [
            {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"]), "q": rng.choice(focus or QUERIES),
             "x": rng.randrange(1 << 20), "opcodes": rng.random() < 0.3}
            for _ in range(rng.choice([0, 1, 2]))
        ],
    }


class Shared:
    def __init__(self, spec):
        self.h = gen.build(spec)
        self.e = ops.energy(self.h)
        self.d = MagnonDispersion(self.h)
        self.optimizing = False

    def query(self, what, x):
        h, e, d = self.h, self.e, self.d
        s, ax, q = ops.directions(h, x)
        k = ax
        if what in ("h", "A", "B", "J"):
            return ops.hexes(getattr(d, what)(k))
        if what == "omega":
            return ops.hexes(d.omega(k, return_imaginary=x % 2 == 0))
        if what == "omegas":
            return ops.hexes(d.omegas([k, q, -k]))
        if what == "call":
            return ops.hexes(d([k, q]))
        if what == "C":
            return ops.hexes(d.C())
        if what == "ferro":
            return ops.hexes(e.ferro(s))
        if what in ("spiral", "antiferro"):
            return ops.hexes(getattr(e, what)(s, ax, q))
        if what == "e-set":  # an energy of its own
            own = ops.energy(h)
            own.magnetic_field = ax
            own.spins = [1.5] * h.I
            return ops.hexes(own.ferro(s))
        if what == "optimize":
            case = ["ferro", "antiferro", "spiral"][x % 3]
            guess = {"ferro": s, "antiferro": (s, ax), "spiral": (s, ax, q)}[case]
            return [ops.hexes(v) for v in e.optimize(case, initial_guess=guess, antiferro_q=q, max_iterations=1)]
        return ops.read(h, what, x, None)()


def one_optimizer(tasks):
    """Minimisations of one energy object never overlap: only the first task keeps them."""
    owner = next((i for i, t in enumerate(tasks) if any(q == "optimize" for q, _ in t)), None)
    return [
        [[("ferro" if q == "optimize" and i != owner else q), x] for q, x in t] for i, t in enumerate(tasks)
    ]


def result(out):
    return out.value if out.ok else [out.name(), str(out.exc)[:80]]


def execute(sc, w):
    tasks = one_optimizer(sc["tasks"])
    a, b = Shared(sc["ham"]), Shared(sc["ham"])
    if a.h.I == 0:
        return

    def body(obj, t):
        return lambda: [result(outcome(lambda: obj.query(q, x))) for q, x in t]

    # every query on objects that nobody else has used
    solo = [[result(outcome(lambda: Shared(sc["ham"]).query(q, x))) for q, x in t] for t in tasks]
    alone, together = w.interleave(
        [body(a, t) for t in tasks], [body(b, t) for t in tasks], sc["switches"], sc["opcodes"]
    )
    for i, t in enumerate(tasks):
        for label, got in (("queried in turn", alone[i]), ("queried by several threads", together[i])):
            if not got.ok:
                raise got.exc
            for (q, x), g, s in zip(t, got.value, solo[i]):
                if g != s:
                    raise Violation("different", f"{q} of shared objects {label} gives {str(g)[:200]} instead of {str(s)[:200]}")
                w.probe(q)
    # afterwards the shared objects still give the same
    for i, t in enumerate(tasks):
        for (q, x), s in zip(t, solo[i]):
            g = result(outcome(lambda: b.query(q, x)))
            w.check(g == s, "different-after", f"{q} after the threads are done gives {str(g)[:200]} instead of {str(s)[:200]}")
    # interrupted queries leave nothing behind
    if sc["interrupts"]:
        c = Shared(sc["ham"])
        for spec in sc["interrupts"]:
            fresh = Shared(sc["ham"])
            from sim import sched

            _, _, n = sched.count_steps(lambda: outcome(lambda: fresh.query(spec["q"], spec["x"])), spec["opcodes"])
            if not n:
                continue
            pos = 1 + min(n - 1, n * spec["at"] // 1_000_000)
            delivered, where, _, e = sched.run_interrupted(lambda: c.query(spec["q"], spec["x"]), pos, spec["kind"], spec["opcodes"])
            if delivered:
                w.fault("interrupt-" + spec["kind"])
                w.log("interrupt", spec["q"], where, type(e).__name__)
        for i, t in enumerate(tasks):
            for (q, x), s in zip(t, solo[i]):
                g = result(outcome(lambda: c.query(q, x)))
                w.check(g == s, "different-after-interrupt", f"{q} after an interrupted query gives {str(g)[:200]} instead of {str(s)[:200]}")
    w.log(solo)
    w.state([[q for q, _ in t] for t in tasks])
    w.nontrivial = w.faults.get("preemption", 0) >= 2 or any(k.startswith("interrupt") for k in w.faults)
