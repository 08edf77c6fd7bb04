"""P02: after any history of edits the Hamiltonian is the table that replays the history."""

from sim import gen, history
from sim.engine import outcome

PROPERTY = "P02"
RUNS = {"quick": 2400, "thorough": 60000}
SHRINK = ["ops", "ham.bonds", "ham.onsite", "interrupts"]
RULE = (
    "one run = one Hamiltonian and a seeded history of 1-40 edits (several clients edit in turn, reads are "
    "interrupted between the edits); after every edit the whole observable state is compared with a reference "
    "table; non-trivial: at least two edits acted on an existing parameter or atom"
)


def generate(rng, tier):
    big = rng.random() < 0.15
    return {
        "ham": gen.gen_ham(
            rng, far=True, natoms=(1, 5), nbonds=(0, 14 if big else 6), notation=rng.choice(["any", "any", "any", None])
        ),
        "ops": history.gen_ops(rng, rng.randint(1, 40 if big else 16)),
        "interrupts": [
            {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"]), "every": rng.randint(2, 6),
             "what": rng.choice(["filtered", "copy", "iterate", "magnetic", "crystal"])}
            for _ in range(rng.randint(0, 2))
        ],
    }


def read(h, what):
    if what == "filtered":
        return lambda: h.filtered(max_distance=3.0)
    if what == "copy":
        return lambda: h.copy()
    if what == "magnetic":
        return lambda: h.magnetic_atoms
    if what == "crystal":
        return lambda: h.crystal
    return lambda: [list(h.exchange), list(h.on_site), outcome(lambda: list(h.exchange_like))]


def execute(sc, w):
    run = history.Run(w, sc["ham"])
    history.compare(w, run.h, run.ref, "the construction")
    acted = 0
    for n, op in enumerate(sc["ops"]):
        for spec in sc["interrupts"]:
            if n % spec["every"] == 0:
                w.interrupt(read(run.h, spec["what"]), spec)
                history.compare(w, run.h, run.ref, f"interrupted read ({spec['what']})")
        did = run.apply(op)
        w.log(n, op[0], did)
        if did:
            w.probe(op[0])
            acted += op[0] not in ("cone", "spiral", "copy")
            history.compare(w, run.h, run.ref, f"edit {n} {op[:4]}")
            w.state(gen.snapshot(run.h)["exchange"], gen.snapshot(run.h)["notation"])
    run.check_left_behind()
    w.log(gen.snapshot(run.h))
    w.nontrivial = acted >= 2
