"""P22: a parameter is what its history of assignments says, and derived parameters are on their own."""

import numpy as np

from magnopy import MatrixParameter
from sim import gen, ops
from sim.engine import outcome

PROPERTY = "P22"
RUNS = {"quick": 1500, "thorough": 60000}
SHRINK = ["steps", "switches"]
RULE = (
    "one run = a pool of parameters and a seeded history of assignments (matrix, isotropic, anisotropic and DM part, elements), "
    "arithmetic that makes new parameters, rejected assignments, changes of the arrays that were passed, and interrupted reads; after "
    "every step every parameter of the pool is compared with a plain matrix; at the end several threads read the same "
    "parameters; non-trivial: at least three assignments acted"
)
ELEMENTS = ["xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"]
KINDS = ["new", "new-parts", "matrix", "close", "close", "close", "iso", "iso", "dmi", "dmi", "aniso", "aniso", "element", "element", "element",
         "add", "sub", "mul", "rmul", "div", "floordiv", "mod", "neg", "pos", "abs", "T", "matmul", "wrong", "wrong", "array", "read", "eq"]


def generate(rng, tier):
    steps = []
    for _ in range(rng.randint(2, 30)):
        k = rng.choice(KINDS)
        s = gen.gen_symmetric(rng)
        tr = sum(s[i][i] for i in range(3)) / 3
        for i in range(3):
            s[i][i] -= tr
        steps.append({
            "k": k, "i": rng.randrange(1000), "j": rng.randrange(1000), "m": gen.gen_matrix(rng), "s": s,
            "v": [round(rng.uniform(-3, 3), 3) for _ in range(3)], "x": rng.choice([0.5, -2.0, 3, 1.25, 7, rng.uniform(0.2, 4)]),
            "e": rng.choice(ELEMENTS), "as": rng.choice(["list", "array", "tuple"]), "parts": rng.randrange(8),
            "wrong": rng.randrange(14), "spec": {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"])},
        })
    return {"steps": steps, "switches": ops.switches(rng, rng.choice([1, 4, 20]), 2), "threads": rng.random() < 0.3}


def levi(v):
    return np.array([[0, v[2], -v[1]], [-v[2], 0, v[0]], [v[1], -v[0], 0]], dtype=float)


def parts(m):
    iso = np.trace(m) / 3
    return iso, (m + m.T) / 2 - iso * np.eye(3), np.array([m[1][2] - m[2][1], m[2][0] - m[0][2], m[0][1] - m[1][0]]) / 2


def view(p):
    """Everything that can be read."""
    out = {n: getattr(p, n) for n in ELEMENTS}
    for n in ("matrix", "symm_matrix", "asymm_matrix", "A", "iso", "I", "iso_matrix", "aniso", "S", "aniso_diagonal",
              "aniso_diagonal_matrix", "dmi", "dmi_matrix", "dmi_module"):
        out[n] = np.array(getattr(p, n))
    out["T"] = np.array(p.T.matrix)
    out["array"] = np.array(p)
    return out


def want_view(m):
    iso, aniso, dmi = parts(m)
    out = {n: m["xyz".index(n[0])]["xyz".index(n[1])] for n in ELEMENTS}
    sym, asym = (m + m.T) / 2, (m - m.T) / 2
    out.update({
        "matrix": m, "symm_matrix": sym, "asymm_matrix": asym, "A": asym, "iso": iso, "I": iso, "iso_matrix": iso * np.eye(3),
        "aniso": aniso, "S": aniso, "aniso_diagonal": np.diag(aniso), "aniso_diagonal_matrix": np.diag(np.diag(aniso)),
        "dmi": dmi, "dmi_matrix": asym, "dmi_module": np.linalg.norm(dmi), "T": m.T, "array": m,
    })
    return out


def near(m, s):
    """Almost the same matrix: one element is the next number or a little off."""
    out = np.array(m, dtype=float)
    i, j = s["i"] % 3, s["j"] % 3
    x = out[i][j]
    y = x + [1e-3, 1e-6, 1e-9, 1e-12, 0.0][s["i"] % 5] * (abs(x) + 1e-3)
    out[i][j] = y if y != x else np.nextafter(x, np.inf)
    return out


def compare(w, p, m, what):
    want, got = want_view(m), view(p)
    scale = float(np.max(np.abs(m))) + 1e-9
    for n in want:
        w.check(np.shape(got[n]) == np.shape(want[n]) and np.all(np.abs(got[n] - want[n]) <= 1e-11 * max(scale, 1)), "value",
                f"{what}: {n} is {np.asarray(got[n]).tolist()} instead of {np.asarray(want[n]).tolist()}")
    if abs(want["iso"]) > 1e-6:
        w.check(abs(p.rel_dmi - want["dmi_module"] / abs(want["iso"])) <= 1e-9 * (1 + abs(p.rel_dmi)), "value", f"{what}: rel_dmi is {p.rel_dmi}")
    for fmt in (".4f", ".9f"):
        text = format(p, fmt)
        w.check(np.allclose([float(x) for x in text.split()], m.ravel(), rtol=0, atol=0.51 * 10 ** -int(fmt[1]) + 1e-9 * scale),
                "text", f"{what}: printed as {text!r}")


def execute(sc, w):
    pool = [MatrixParameter()]
    ref = [np.zeros((3, 3))]
    passed = []  # (array of the caller, its content)
    acted = 0

    def give(x, how):
        if how == "array":
            a = np.array(x, dtype=float)
            passed.append([a, a.copy()])
            return a
        return tuple(tuple(r) if isinstance(r, list) else r for r in x) if how == "tuple" else x

    for n, s in enumerate(sc["steps"]):
        k = s["k"]
        i, j = s["i"] % len(pool), s["j"] % len(pool)
        p, q, m = pool[i], pool[j], ref[i]
        what = f"step {n} {k}"
        iso, aniso, dmi = parts(m)
        new = None
        before = [x.copy() for x in ref]
        if k == "new":
            new = MatrixParameter(matrix=give(s["m"], s["as"])), np.array(s["m"])
        elif k == "new-parts":
            kw, t = {}, np.zeros((3, 3))
            if s["parts"] & 1:
                kw["iso"] = s["x"]
                t = t + s["x"] * np.eye(3)
            if s["parts"] & 2:
                kw["aniso"] = give(s["s"], s["as"])
                t = t + np.array(s["s"])
            if s["parts"] & 4:
                kw["dmi"] = give(s["v"], s["as"])
                t = t + levi(s["v"])
            new = MatrixParameter(**kw), t
        elif k == "matrix":
            p.matrix = give(s["m"], s["as"])
            ref[i] = np.array(s["m"], dtype=float)
        elif k == "iso":
            p.iso = s["x"]
            ref[i] = s["x"] * np.eye(3) + aniso + levi(dmi)
        elif k == "dmi":
            p.dmi = give(s["v"], s["as"])
            ref[i] = iso * np.eye(3) + aniso + levi(s["v"])
        elif k == "aniso":
            p.aniso = give(s["s"], s["as"])
            ref[i] = iso * np.eye(3) + np.array(s["s"]) + levi(dmi)
        elif k == "close":
            # almost what is there: repeated assignments of values that differ in the last digits
            name = ["matrix", "iso", "dmi", "aniso", s["e"]][s["j"] % 5]
            f = [1 + 1e-6, 1 - 1e-9, 1 + 3e-5, 1.0][s["i"] % 4]
            d = [0.0, 1e-9, -2e-9, 1e-6][s["wrong"] % 4]
            if name == "aniso":
                x = aniso * f + d * np.diag([1, 1, -2])
                p.aniso, ref[i] = x, iso * np.eye(3) + x + levi(dmi)
            elif name == "dmi":
                x = dmi * f + d
                p.dmi, ref[i] = x, iso * np.eye(3) + aniso + levi(x)
            elif name == "iso":
                x = iso * f + d
                p.iso, ref[i] = x, x * np.eye(3) + aniso + levi(dmi)
            elif name == "matrix":
                x = m * f + d
                p.matrix, ref[i] = x.tolist(), x
            else:
                a, b = ("xyz".index(c) for c in name)
                ref[i] = m.copy()
                ref[i][a][b] = m[a][b] * f + d
                setattr(p, name, ref[i][a][b])
        elif k == "element":
            setattr(p, s["e"], s["x"])
            ref[i] = m.copy()
            ref[i]["xyz".index(s["e"][0])]["xyz".index(s["e"][1])] = s["x"]
        elif k == "add":
            new = p + q, m + ref[j]
        elif k == "sub":
            new = p - q, m - ref[j]
        elif k == "mul":
            new = p * s["x"], m * s["x"]
        elif k == "rmul":
            new = s["x"] * p, m * s["x"]
        elif k == "div":
            new = p / s["x"], m / s["x"]
        elif k in ("floordiv", "mod"):
            base = np.round(m * 4) / 4 + 0.0625  # far from the jumps of the function
            t = MatrixParameter(matrix=base)
            new = (t // 0.5, base // 0.5) if k == "floordiv" else (t % 0.5, base % 0.5)
        elif k == "neg":
            new = -p, -m
        elif k == "pos":
            new = +p, m.copy()
        elif k == "abs":
            new = abs(p), np.abs(m)
        elif k == "T":
            new = p.T, m.T.copy()
        elif k == "matmul":
            v = np.array(s["v"])
            for x, y in ((p @ v, m @ v), (v @ p, v @ m), (p @ np.array(s["m"]), m @ np.array(s["m"])), (s["v"] @ p, v @ m)):
                w.check(np.allclose(np.array(x), y, rtol=1e-9, atol=1e-9), "value", f"{what}: product is {np.array(x).tolist()} instead of {y.tolist()}")
        elif k == "eq":
            for x, y in ((p == q, np.array_equal(p.matrix, q.matrix)), (p == p.matrix.tolist(), True), (p == MatrixParameter(matrix=m + 1), False),
                         (p == (p.matrix + np.eye(3)[0]).tolist(), False),
                         (p == MatrixParameter(matrix=near(p.matrix, s)), False), (p == near(p.matrix, s).tolist(), False),
                         (p != MatrixParameter(matrix=near(p.matrix, s)), True), (p != q, not np.array_equal(p.matrix, q.matrix)),
                         (p == MatrixParameter(matrix=p.matrix.tolist()), True)):
                w.check(bool(x) == y, "equal", f"{what}: comparison gives {x}")
        elif k == "wrong":
            def setter(name, value):
                return lambda: setattr(p, name, value)

            wrong = [
                setter("matrix", [[1, 2], [3, 4]]), setter("matrix", "abc"), setter("matrix", 5), setter("matrix", [1, 2, 3]),
                setter("dmi", [1, 2]), setter("dmi", "abc"), setter("dmi", [[1, 2, 3]]), setter("aniso", [1, 2, 3]),
                setter("aniso", "x"), setter(s["e"], "x"), setter("iso", "x"), lambda: p + 1, lambda: p - [[1] * 3] * 3, lambda: p == [1, 2],
            ][s["wrong"]]
            o = outcome(wrong)
            w.check(not o.ok, "accepted", f"{what}: wrong value {s['wrong']} was accepted")
        elif k == "array" and passed:
            a = passed[s["i"] % len(passed)]
            a[0][...] = s["x"]  # the caller goes on with the array
            a[1] = a[0].copy()
        elif k == "read":
            w.interrupt(lambda: view(p), s["spec"])
        if new is not None:
            if len(pool) < 6:
                pool.append(new[0])
                ref.append(np.array(new[1], dtype=float))
            else:
                pool[j], ref[j] = new[0], np.array(new[1], dtype=float)
        for t in range(len(pool)):
            compare(w, pool[t], ref[t], f"after {what} of parameter {i}, parameter {t}")
            if t < len(before) and t not in (i, j):
                w.check(np.array_equal(ref[t], before[t]), "harness", "reference")
        for a, c in passed:
            w.check(np.array_equal(a, c), "caller", f"{what} changed an array of the caller")
        w.probe(k)
        acted += k in ("matrix", "iso", "dmi", "aniso", "element") or new is not None
        w.state(k, s["as"], s["parts"] if k == "new-parts" else s["wrong"] if k == "wrong" else 0)
    if sc["threads"]:
        jobs = [lambda x=x: {n: np.asarray(v).tolist() for n, v in view(x).items()} for x in (pool[-1], pool[-1])]
        alone, together = w.interleave(jobs, jobs, sc["switches"])
        for x, y in zip(alone, together):
            w.check(x.ok and y.ok and x.value == y.value, "threads", "parameter reads differently in threads")
    w.log([[float(v).hex() for v in p.matrix.ravel()] for p in pool])
    w.nontrivial = acted >= 3
