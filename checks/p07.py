"""P07: an HDF5 file is a map from group names to Hamiltonians."""

import os

import numpy as np

from magnopy import SpinHamiltonian, dump_spinham_hdf5, load_spinham, load_spinham_hdf5
from sim import gen, ops
from sim.engine import Violation, outcome

PROPERTY = "P07"
RUNS = {"quick": 800, "thorough": 20000}
SHRINK = ["ops", "ops.*.faults", "hams", "hams.*.bonds", "hams.*.onsite"]
RULE = (
    "one run = a seeded history of saves (new group, refused, overwriting, of a Hamiltonian that can not be saved) and "
    "loads (by group, by search, of missing groups and files) over two files, with short reads and writes injected below "
    "libhdf5; after every operation every group of every file is loaded back and compared exactly with the reference "
    "map; non-trivial: at least two operations touched a file that already had a Hamiltonian"
)
TOL = {"cone_axis": 1e-14}  # the axis is normalised once more when it is loaded
GROUPS = ["spinham", "g1", "g10", "model", "x/y", "x/z", "deep/er/one", "Cr I3", "1", "2"]


def generate(rng, tier):
    hams = []
    for _ in range(rng.randint(1, 3)):
        big = rng.random() < 0.3
        hams.append(
            gen.gen_ham(
                rng, far=True, natoms=(9, 14) if big else (1, 4), nbonds=(8, 16) if big else (0, 6),
                notation="any", onsite=0.8,
            )
        )
    groups = rng.sample(GROUPS, rng.randint(1, 4))
    out = []
    for _ in range(rng.randint(2, 9)):
        k = rng.choice(["save", "save", "save", "over", "over", "load", "load", "search", "missing", "bad", "foreign"])
        op = {
            "k": k, "file": rng.choice(["a.hdf5", "b.hdf5", "a.hdf5"]), "group": rng.choice(groups),
            "ham": rng.randrange(10), "faults": [],
        }
        for _ in range(rng.choice([0, 0, 1, 3])):
            op["faults"].append(
                {"cls": rng.choice(["read", "write"]), "at": rng.randrange(1_000_000), "action": "short",
                 "part": rng.randrange(1_000_000)}
            )
        out.append(op)
    return {"hams": hams, "ops": out}


def counted_on_copy(w, fn):
    """Operations of the volume, counted on a copy of the volume that is put back."""
    import shutil

    keep = os.path.join(w.out, "keep")
    shutil.copytree(w.vol, keep)
    out, counted = w.counted(fn)
    for name in os.listdir(w.vol):
        p = os.path.join(w.vol, name)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    for name in os.listdir(keep):
        shutil.copy2(os.path.join(keep, name), os.path.join(w.vol, name))
    shutil.rmtree(keep)
    return out, counted


def check_file(w, path, content, when):
    """Every group of the file is what the reference map says."""
    if not content:
        return
    for g in sorted(content):
        got = load_spinham_hdf5(path, groupname=g)
        gen.same(w, got, content[g], "content", f"group {g} of the file after {when}", order=False, tol=TOL)
        a = [x.name for x in got.magnetic_atoms]
        b = [x.name for x in content[g].magnetic_atoms]
        w.check(a == b, "order", f"order of the magnetic atoms in group {g} after {when} is {a} instead of {b}")
        w.check([x.name for x, _ in got.on_site] == [x.name for x, _ in content[g].on_site], "order",
                f"order of the on-site terms in group {g} after {when}")
        mine = ops.energy(content[g]) if content[g].I and outcome(lambda: content[g].notation).ok else None
        if mine is not None and outcome(lambda: got.notation).ok:
            s, _, _ = ops.directions(content[g], 5)
            w.check(np.isclose(ops.energy(got).ferro(s), mine.ferro(s), rtol=1e-9, atol=1e-9), "energy",
                    f"energy of the Hamiltonian of group {g} after {when} is different")
        w.probe("groups-compared")


def execute(sc, w):
    if not sc["hams"]:
        return
    hams = [gen.build(s) for s in sc["hams"]]
    unsavable = SpinHamiltonian(cell=np.eye(3) * 3)
    bad = hams[0].copy()
    incomplete = gen.build(dict(sc["hams"][0], notation=None))
    can_fail = len(incomplete.exchange) > 0 or len(incomplete.on_site) > 0
    store = {}
    touched = 0
    for n, op in enumerate(sc["ops"]):
        path = w.path(op["file"])
        content = store.get(op["file"])
        h = hams[op["ham"] % len(hams)]
        g, k = op["group"], op["k"]
        related = content and any(g != q and (q.startswith(g + "/") or g.startswith(q + "/")) for q in content)
        if related:
            continue
        expect = "ok"
        if k == "save":
            fn = lambda: dump_spinham_hdf5(h, filename=path, groupname=g)
            if content and g in content:
                expect = "FileExistsError"
        elif k == "over":
            fn = lambda: dump_spinham_hdf5(h, filename=path, groupname=g, overwrite=True)
        elif k == "bad":
            if not can_fail:
                continue
            over = op["ham"] % 2 == 0
            fn = lambda: dump_spinham_hdf5(incomplete, filename=path, groupname=g, overwrite=over)
            expect = "fail"
        elif k in ("load", "search", "missing", "foreign"):
            if k == "load" and (not content or g not in content):
                continue
            if k == "load":
                fn = (lambda: load_spinham_hdf5(path, groupname=g)) if n % 2 else (lambda: load_spinham(path, groupname=g))
            elif k == "search":
                fn = (lambda: load_spinham_hdf5(path)) if n % 2 else (lambda: load_spinham(path))
                if content is None or len(content) != 1:
                    expect = "fail"
            elif k == "missing":
                fn = lambda: load_spinham_hdf5(path, groupname="nowhere")
                expect = "fail"
            else:
                # a file that is not an HDF5 file
                other = w.path("other.hdf5")
                with open(other, "wb") as f:
                    f.write(b"this is not an HDF5 file\n" * (op["ham"] + 1))
                before = open(other, "rb").read()
                fn = (lambda: load_spinham(other)) if n % 2 else (lambda: dump_spinham_hdf5(h, filename=other))
                expect = "fail"
        if op["faults"]:
            first, counted = counted_on_copy(w, fn)
            out, fired = w.with_faults(fn, op["faults"], counted)
            w.probe("faulted-ops", fired > 0)
        else:
            out = outcome(fn)
        w.log(n, k, op["file"], g, out.name())
        w.check(out.held == 0, "handle", f"{k} ({out.name()}) left {out.held} handles of the file open")
        if expect == "ok":
            if not out.ok:
                raise Violation("failed", f"{k} of group {g} failed: {out.name()}: {out.exc}")
        elif expect == "fail":
            w.check(not out.ok, "accepted", f"{k} of group {g} did not fail, file has {sorted(content or {})}")
        else:
            w.check(out.name() == expect, "accepted", f"{k} of existing group {g}: {out.name()}")
        if content:
            touched += 1
        if out.ok and k in ("save", "over"):
            store.setdefault(op["file"], {})[g] = h
        if out.ok and k in ("load", "search"):
            want = content[g] if k == "load" else next(iter(content.values()))
            gen.same(w, out.value, want, "loaded", f"{k} of group {g}", order=False, tol=TOL)
        if k == "foreign":
            w.check(open(other, "rb").read() == before, "foreign", "the file of someone else is changed")
        for name, c in store.items():
            check_file(w, w.path(name), c, f"{k} {g} of {op['file']} ({out.name()})")
        if k == "bad" and content is None and op["file"] not in store:
            w.check(not os.path.exists(path), "residue", "failed save left a file that was not there")
        w.probe(k)
        w.state(k, out.name(), sorted((f, sorted(c)) for f, c in store.items()))
    w.check(not [f for f in os.listdir(w.vol) if f not in ("a.hdf5", "b.hdf5", "other.hdf5")], "residue",
            f"unexpected files {os.listdir(w.vol)}")
    w.nontrivial = touched >= 2
