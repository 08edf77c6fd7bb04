"""P08: a Hamiltonian saved as text is loaded back up to the printed precision."""

import os

import numpy as np

from magnopy import dump_spinham_txt, load_spinham, load_spinham_txt
from sim import gen, ops
from sim.engine import Violation, outcome

PROPERTY = "P08"
RUNS = {"quick": 1000, "thorough": 30000}
SHRINK = ["ops", "ops.*.faults", "hams", "hams.*.bonds", "hams.*.onsite"]
RULE = (
    "one run = a seeded history of saves with seeded options (over longer and shorter older files), loads, loads that "
    "keep a filtered file and saves of what was loaded, over several files, with short reads and writes injected below "
    "the Python io stack; what is loaded is compared with what was saved up to the printed precision and the second "
    "generation of the file with the third one byte by byte; non-trivial: a file was overwritten or a fault fired"
)
TOL = {
    "cell": 5.001e-9, "pos": 5.001e-9, "spin": 5.001e-5, "g": 5.001e-5, "param": 5.001e-5, "cone_axis": 2e-8,
    "spiral_vector": 5.001e-9,
}


def generate(rng, tier):
    hams = []
    for _ in range(rng.randint(1, 3)):
        digits = rng.choice([None, None, 4])
        ham = gen.gen_ham(
            rng, far=True, natoms=rng.choice([(1, 4), (1, 4), (8, 12)]), nbonds=rng.choice([(0, 6), (0, 6), (10, 14)]),
            notation="any", digits=digits, onsite=0.8, reach=rng.choice([1, 2, 15]),
        )
        scale = rng.choice([1, 1, 1, 0.01, 300, 20000])
        if digits is None and scale != 1:
            for b in ham["bonds"]:
                b[3] = [[x * scale for x in row] for row in b[3]]
            for o in ham["onsite"]:
                o[1] = [[x * scale for x in row] for row in o[1]]
        ham["digits"] = digits
        hams.append(ham)
    out = []
    for _ in range(rng.randint(1, 6)):
        op = {
            "k": rng.choice(["save", "save", "save", "again", "filtered", "text"]), "ham": rng.randrange(10),
            "file": rng.choice(["a.txt", "a.txt", "b", "модель.txt", "sub/c.txt"]),
            "full": rng.random() < 0.7,
            "matrix": True, "iso": rng.random() < 0.4, "dmi": rng.random() < 0.4, "symm": rng.random() < 0.4,
            "distance": rng.random() < 0.4, "angles": rng.random() < 0.25,
            "faults": [],
        }
        if not op["full"]:
            op["matrix"] = False
            if not (op["iso"] or op["dmi"] or op["symm"]):
                op["iso"] = op["dmi"] = op["symm"] = True
        for _ in range(rng.choice([0, 1, 2])):
            op["faults"].append(
                {"cls": rng.choice(["read", "write"]), "at": rng.randrange(1_000_000), "action": "short",
                 "part": rng.randrange(1_000_000)}
            )
        out.append(op)
    return {"hams": hams, "ops": out}


def expected_matrix(p, op):
    """What the file has of the parameter."""
    if op["matrix"]:
        return p.matrix
    m = np.zeros((3, 3))
    if op["iso"]:
        m = m + p.iso * np.eye(3)
    if op["symm"]:
        m = m + p.aniso
    if op["dmi"]:
        m = m + p.dmi_matrix
    return m


def expected(h, op):
    """The Hamiltonian that the file describes."""
    e = h.copy()
    if not op["matrix"]:
        from magnopy import MatrixParameter

        for a, b, R, p in list(e.exchange):
            if (a, b, R) in e:
                e.add_exchange(a, b, R, MatrixParameter(matrix=expected_matrix(p, op)))
    return e


def execute(sc, w):
    if not sc["hams"]:
        return
    hams = [gen.build(s) for s in sc["hams"]]
    os.mkdir(w.path("sub"))
    files = {}
    over = 0
    for n, op in enumerate(sc["ops"]):
        i = op["ham"] % len(hams)
        h = hams[i]
        path = w.path(op["file"])
        kw = dict(
            write_matrix=op["matrix"], write_iso=op["iso"], write_dmi=op["dmi"], write_symm=op["symm"],
            write_distance=op["distance"], write_spin_angles=op["angles"],
        )
        parts = op["iso"] or op["dmi"] or op["symm"]
        tol = dict(TOL)
        if not op["matrix"]:
            tol["param"], tol["onsite"] = 2.1e-4, TOL["param"]
        elif parts:
            tol["param"], tol["onsite"] = 4e-4, TOL["param"]
        if op["angles"]:
            tol["spin"] = 1.2e-4
        if op["k"] == "text":
            # the text without a file is the text of the file
            text = dump_spinham_txt(h, print_if_none=False, **kw)
            dump_spinham_txt(h, filename=path, **kw)
            with open(path, encoding="utf-8") as f:
                same = f.read() == "\n".join(text)
            w.check(same, "text", "returned text is not the text of the file")
            files[op["file"]] = (h, op)
        over += op["file"] in files
        fn = lambda: dump_spinham_txt(h, filename=path, **kw)
        faults_w = [f for f in op["faults"] if f["cls"] == "write"]
        faults_r = [f for f in op["faults"] if f["cls"] == "read"]
        if faults_w:
            _, counted = w.counted(lambda: dump_spinham_txt(h, filename=w.path("counted"), **kw))
            os.unlink(w.path("counted"))
            out, fired = w.with_faults(fn, faults_w, counted)
        else:
            out = outcome(fn)
        if not out.ok:
            raise out.exc
        w.check(out.held == 0, "handle", f"saving left {out.held} handles open")
        files[op["file"]] = (h, op)
        load = (lambda: load_spinham_txt(path)) if n % 2 else (lambda: load_spinham(path, spinham_format=[None, "txt", "TXT"][n % 3]))
        if op["k"] == "filtered":
            load = lambda: load_spinham_txt(path, save_filtered=True)
        first, counted = w.counted(load)
        if not first.ok:
            raise Violation("unreadable", f"file saved with {op} can not be loaded: {first.name()}: {first.exc}")
        if faults_r:
            out, fired = w.with_faults(load, faults_r, counted)
            if not out.ok:
                raise out.exc
        else:
            out = first
        w.check(out.held == 0, "handle", f"loading left {out.held} handles open")
        got = out.value
        want = expected(h, op)
        gen.same(w, got, want, "loaded", f"text file with {kw}", tol=tol, order=False, charges=False)
        exact = sc["hams"][i].get("digits") is not None and op["matrix"] and not op["angles"]
        if exact:
            sharp = {"cell": 1e-12, "pos": 1e-12, "spin": 1e-12, "g": 1e-12, "cone_axis": 2e-8, "spiral_vector": 1e-12}
            plain = not parts and not sc["hams"][i].get("late_notation")
            if plain and not needs_rounding(h):
                sharp["param"] = 1e-9
                gen.same(w, got, want, "exact", f"text file of printed numbers with {kw}", tol=sharp, order=False, charges=False)
                w.probe("exact")
        w.check([a.name for a in got.magnetic_atoms] == [a.name for a in want.magnetic_atoms], "order",
                "order of the magnetic atoms is different")
        if op["k"] == "filtered":
            head, tail = os.path.split(path)
            flt = os.path.join(head, "filtered_" + tail)
            again = load_spinham_txt(flt)
            d = gen.diff(gen.snapshot(got), gen.snapshot(again))
            w.check(d is None, "filtered", f"the filtered file describes something else: {d}")
            w.probe("filtered")
        if op["k"] == "again":
            dump_spinham_txt(got, filename=w.path("gen2"))
            second = load_spinham_txt(w.path("gen2"))
            t0 = {"cell": 1e-12, "pos": 1e-12, "spin": 1e-4 if op["angles"] else 1e-12, "g": 1e-12, "cone_axis": 2e-8,
                  "spiral_vector": 1e-12, "param": 1e-4 if parts else 1e-7, "onsite": 1e-7}
            if scale_of(got) < 1e3:
                gen.same(w, second, got, "second", "file that was loaded and saved again", tol=t0, order=False)
            dump_spinham_txt(second, filename=w.path("gen3"))
            a, b = (lines(w.path(x)) for x in ("gen2", "gen3"))
            w.check(a == b, "drift", "saving and loading once more changes the file")
            w.probe("generations")
        # the other files are as they were
        for name, (h2, op2) in files.items():
            if name != op["file"]:
                t2 = dict(TOL, spin=1.2e-4, param=4e-4, onsite=TOL["param"])
                gen.same(w, load_spinham_txt(w.path(name)), expected(h2, op2), "other-file", f"file {name} that was saved before",
                         tol=t2, order=False, charges=False)
        w.log(n, op["k"], op["file"], sorted(kw.items()), gen.snapshot(got))
        w.probe(op["k"])
        w.state(kw, len(want.exchange), len(want.on_site))
    w.nontrivial = over > 0 or bool(w.faults)


def scale_of(h):
    return max([np.max(np.abs(p.matrix)) for _, _, _, p in h.exchange] + [np.max(np.abs(p.matrix)) for _, p in h.on_site] + [0])


def needs_rounding(h):
    """Whether the printed numbers lose digits."""
    ms = [p.matrix for _, _, _, p in h.exchange] + [p.matrix for _, p in h.on_site]
    return any(np.max(np.abs(m - np.round(m, 4))) > 1e-12 for m in ms)


def lines(path):
    """Sorted content of the file without the cone axis, which is normalised again."""
    with open(path, encoding="utf-8") as f:
        text = f.read()
    head, sep, tail = text.partition("Cone-axis")
    if sep:
        text = head + tail.split("=" * 80, 1)[-1]
    return text.split("-" * 80)
