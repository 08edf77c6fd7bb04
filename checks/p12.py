"""P12: files for Vampire describe the Hamiltonian, in whatever notation it is."""

import os

import numpy as np

from magnopy.io.txt.vampire import dump_mat, dump_ucf, dump_vampire
from sim import gen, history, ops
from sim.engine import Violation, outcome

PROPERTY = "P12"
RUNS = {"quick": 1400, "thorough": 40000}
SHRINK = ["ops", "faults", "ham.bonds", "ham.onsite"]
RULE = (
    "one run = a Hamiltonian with a seeded history of edits and notation changes that is exported with seeded options "
    "(masks, materials, decimals, separate files or all together, text or file) under short writes, interrupted and "
    "interleaved exports and failing masks; the files are parsed and compared with couplings computed by the reference "
    "table; non-trivial: a fault or an interleaving happened or the notation was changed"
)
MEV = 1.602176634e-22  # J


def generate(rng, tier):
    ham = gen.gen_ham(rng, far=True, natoms=(1, 5), nbonds=(0, 8), notation="any", onsite=0.7)
    n = rng.choice([0, 0, 2])
    return {
        "ham": ham,
        "ops": history.gen_ops(rng, rng.randint(0, 6)),
        "dmi": rng.random() < 0.7,
        "anisotropic": rng.random() < 0.7,
        "mask": rng.choice([None, None, None, "double", "zz", "fail"]),
        "decimals": rng.choice([5, 5, 3, 8]),
        "materials": rng.choice([None, None, "same", "two"]),
        "nologo": rng.random() < 0.6,
        "way": rng.choice(["ucf-file", "ucf-text", "vampire"]),
        "faults": [
            {"cls": "write", "at": rng.randrange(1_000_000), "action": "short", "part": rng.randrange(1_000_000)}
            for _ in range(rng.choice([0, 1, 2]))
        ],
        "interrupt": None if rng.random() < 0.7 else {"at": rng.randrange(1_000_000), "kind": "interrupt"},
        "threads": n,
        "switches": ops.switches(rng, rng.randint(2, 30), 2) if n else [],
    }


def materials(sc, n):
    return {None: None, "same": [0] * n, "two": [i % 2 for i in range(n)]}[sc["materials"]]


def expected(sc, ref, index):
    """{(i, j, R): matrix in J} computed from the reference table."""
    nt = ref.notation

    def part(m):
        if sc["mask"] == "double":
            return 2 * m
        if sc["mask"] == "zz":
            out = np.zeros((3, 3))
            out[2, 2] = m[2, 2]
            return out
        if not sc["dmi"]:
            m = (m + m.T) / 2
        if not sc["anisotropic"]:
            iso = np.trace(m) / 3
            m = (m - m.T) / 2 + iso * np.eye(3)
        return m

    out = {}
    for (a, b, R), (m, orient) in ref.pairs.items():
        f = nt["exchange_factor"] * (2 if nt["double_counting"] else 1)
        e = m * f
        if not nt["spin_normalized"]:
            e = e * ref.spins[a] * ref.spins[b]
        v = e / (2 * -0.5)
        out[index[a], index[b], R] = part(v) * MEV
        out[index[b], index[a], tuple(-x for x in R)] = part(v.T) * MEV
    for a, m in ref.on.items():
        e = m * nt["on_site_factor"]
        if not nt["spin_normalized"]:
            e = e * ref.spins[a] ** 2
        out[index[a], index[a], (0, 0, 0)] = part(e / -0.5) * MEV
    return out


def parse_ucf(text):
    lines = [l for l in text.split("\n") if l.strip() and not l.startswith("#")]
    it = iter(lines)
    size = [float(x) for x in next(it).split()]
    cell = [[float(x) for x in next(it).split()] for _ in range(3)]
    n, nm = (int(x) for x in next(it).split())
    atoms = []
    for _ in range(n):
        p = next(it).split()
        atoms.append((int(p[0]), [float(x) for x in p[1:4]], int(p[4])))
    p = next(it).split()
    count = int(p[0])
    kind = p[1]
    rows = []
    for l in it:
        p = l.split()
        rows.append((int(p[0]), int(p[1]), int(p[2]), tuple(int(x) for x in p[3:6]), [float(x) for x in p[6:]]))
    return size, cell, n, nm, atoms, count, kind, rows


def parse_mat(text):
    out = {}
    for l in text.split("\n"):
        l = l.split("!")[0].strip()
        if l and not l.startswith("#") and "=" in l:
            k, v = l.split("=", 1)
            out[k.strip()] = v.strip()
    return out


def ordered(h, ref, bad):
    """Magnetic atoms in the documented order (the one of two atoms with the same index is not documented)."""
    mags = list(h.magnetic_atoms)
    if sorted(a.name for a in mags) != sorted(ref.magnetic()) or any(a.index > b.index for a, b in zip(mags, mags[1:])):
        bad(f"magnetic atoms are {[(a.name, a.index) for a in mags]} instead of {sorted(ref.magnetic())}")
    return mags


def check_ucf(w, sc, text, h, ref, what):
    def bad(msg):
        raise Violation("ucf", f"{what}: {msg}")

    parsed = outcome(lambda: parse_ucf(text))
    if not parsed.ok:
        bad(f"can not be parsed: {parsed.exc}")
    size, cell, n, nm, atoms, count, kind, rows = parsed.value
    mags = ordered(h, ref, bad)
    index = {a.name: i for i, a in enumerate(mags)}
    mats = materials(sc, len(mags)) or list(range(len(mags)))
    if not np.allclose(size, np.linalg.norm(h.cell, axis=1), rtol=0, atol=1e-7):
        bad(f"size of the cell is {size}")
    if not np.allclose(cell, h.cell, rtol=0, atol=1e-7):
        bad(f"cell is {cell}")
    if n != len(mags) or nm != len(set(mats)):
        bad(f"{n} atoms of {nm} materials instead of {len(mags)} of {len(set(mats))}")
    for i, (a, (k, pos, m)) in enumerate(zip(mags, atoms)):
        if k != i or not np.allclose(pos, a.position, rtol=0, atol=1e-7) or m != mats[i]:
            bad(f"atom {a.name} is written as {k} {pos} {m}")
    want = expected(sc, ref, index)
    if count != len(rows) or [r[0] for r in rows] != list(range(len(rows))) or kind != "tensorial":
        bad(f"{count} interactions are announced, {len(rows)} are there")
    got = {r[1:4]: np.array(r[4]).reshape(3, 3) for r in rows}
    if len(got) != len(rows) or set(got) != set(want):
        bad(f"interactions {sorted(set(got) ^ set(want))[:4]} are missing, repeated or not expected")
    for k in want:
        tol = 10.0 ** (-sc["decimals"]) * np.abs(want[k]) + 1e-9 * np.max(np.abs(want[k])) + 1e-40
        if not np.all(np.abs(got[k] - want[k]) <= tol):
            bad(f"interaction {k} is {got[k].tolist()} instead of {want[k].tolist()}")


def check_mat(w, sc, text, h, ref, what):
    def bad(msg):
        raise Violation("mat", f"{what}: {msg}")

    mags = ordered(h, ref, bad)
    mats = materials(sc, len(mags)) or list(range(len(mags)))
    got = parse_mat(text)
    if int(got.get("material:num-materials", -1)) != max(mats) + 1:
        bad(f"number of materials is {got.get('material:num-materials')}")
    for i, a in enumerate(mags):
        m = mats[i]
        if m in mats[:i]:
            continue
        k = f"material[{m + 1}]:"
        if got.get(k + "material-name") != a.name:
            bad(f"material {m + 1} is named {got.get(k + 'material-name')} instead of {a.name}")
        if abs(float(got[k + "atomic-spin-moment"]) - a.spin) > 1e-8:
            bad(f"moment of material {m + 1} is {got[k + 'atomic-spin-moment']} instead of {a.spin}")
        d = [float(x) for x in got[k + "initial-spin-direction"].split(",")]
        if not np.allclose(d, np.array(a.spin_vector) / a.spin, rtol=0, atol=1e-7):
            bad(f"direction of material {m + 1} is {d}")


def execute(sc, w):
    run = history.Run(w, sc["ham"])
    for op in sc["ops"]:
        run.apply(op)
    h, ref = run.h, run.ref
    n = h.I
    if n == 0:
        return
    mats = materials(sc, n)
    calls = [0]

    def mask(m):
        calls[0] += 1
        if sc["mask"] == "fail" and calls[0] > 2:
            raise RuntimeError("the mask of the user fails")
        if sc["mask"] == "double":
            return 2 * m
        out = np.zeros((3, 3))
        out[2, 2] = m[2, 2]
        return out

    kw = {"dmi": sc["dmi"], "anisotropic": sc["anisotropic"], "decimals": sc["decimals"], "materials": mats, "nologo": sc["nologo"]}
    if sc["mask"]:
        kw["custom_mask"] = mask
    before = gen.snapshot(h)

    def export(tag):
        def fn():
            calls[0] = 0
            if sc["way"] == "ucf-text":
                return dump_ucf(h, **kw), dump_mat(h, materials=mats, nologo=sc["nologo"])
            if sc["way"] == "ucf-file":
                dump_ucf(h, filename=w.path(tag + ".UCF"), **kw)
                dump_mat(h, filename=w.path(tag + ".mat"), materials=mats, nologo=sc["nologo"])
            else:
                dump_vampire(h, seedname=tag, **kw)
                with open(w.path("input")) as f:
                    text = f.read()
                if f"material:file={tag}.mat" not in text or f"{tag}.UCF" not in text:
                    raise Violation("input", f"input file does not name the files: {text[-200:]}")
            return tuple(open(w.path(tag + e), encoding="utf-8").read() for e in (".UCF", ".mat"))
        return fn

    failing = sc["mask"] == "fail" and len(h.exchange_like) > 2
    first, counted = w.counted(export("one"))
    if failing or (sc["mask"] == "fail" and len(double(ref)) > 2):
        w.check(not first.ok, "mask", "failure of the mask is not reported")
        w.fault("callback-failure")
        gen.unchanged(w, before, h, "failed export")
        return
    if not first.ok:
        raise first.exc
    if sc["mask"] == "fail":
        return
    todo = [(first.value, "export")]
    if sc["faults"] and sc["way"] != "ucf-text":
        out, fired = w.with_faults(export("two"), sc["faults"], counted)
        if not out.ok:
            raise out.exc
        todo.append((out.value, "export with short writes"))
    if sc["interrupt"]:
        w.interrupt(export("three"), sc["interrupt"])
        todo.append((export("three")(), "export after an interrupted one"))
    if sc["threads"] and sc["way"] != "vampire":  # the name of the input file is fixed
        e = ops.energy(h)
        s, _, _ = ops.directions(h, 1)
        tasks = lambda t: [export(t), lambda: [e.ferro(s), gen.snapshot(h.copy())]]
        _, res = w.interleave(tasks("four"), tasks("five"), sc["switches"])
        for r in res:
            if not r.ok:
                raise r.exc
        todo.append((res[0].value, "export interleaved with other reads"))
    for (ucf, mat), what in todo:
        check_ucf(w, sc, ucf, h, ref, what)
        check_mat(w, sc, mat, h, ref, what)
        w.probe(what)
        if sc["nologo"]:
            w.log(what, ucf, mat)
    gen.unchanged(w, before, h, "export")
    w.state(sc["way"], sc["dmi"], sc["anisotropic"], sc["mask"], str(ref.notation))
    w.nontrivial = bool(w.faults) or len(sc["ops"]) > 0


def double(ref):
    return list(ref.pairs) * 2 + list(ref.on)
