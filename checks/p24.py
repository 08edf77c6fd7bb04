"""P24: a minimisation only goes down, moves everything that it may move and ends in a stationary state."""

import contextlib
import io

import numpy as np

from sim import gen, ops, spectrum
from sim.engine import outcome

PROPERTY = "P24"
RUNS = {"quick": 300, "thorough": 10000}
SHRINK = ["past", "ham.bonds", "ham.onsite"]
RULE = (
    "one run = one energy object with seeded couplings, settings and a past (interrupted, faulted and finished "
    "minimisations, changed settings) and one seeded minimisation: its states after 0, 1, 2, ... steps are valued by an "
    "independent computation of the energy, it is killed or interrupted and continued from the last complete record of its "
    "history file, and it is run until it ends by itself; models with a known minimum have to reach it; non-trivial: at "
    "least two steps were made"
)
CASES = ["ferro", "antiferro", "spiral"]
LIMIT = 120


def known(rng):
    """Model whose only stable states are known: (description, energy of the minimum)."""
    kind = rng.choice(["field", "fields", "fields", "easy-axis", "pair", "pair", "pair-field", "antiferro-chain", "spiral-chain"])
    return {
        "basin": rng.random() < 0.5, "wide": rng.random() < 0.5, "c": round(rng.uniform(3, 6), 3), "ratio": rng.uniform(0.5, 2.5),
        "hard": rng.choice([0.0, 0.0, round(rng.uniform(0.2, 0.6), 3)]),
        "kind": kind, "J": round(rng.choice([-1, 1]) * rng.uniform(0.4, 1.5), 3), "S": [rng.choice([0.5, 1.0, 1.5]), rng.choice([0.5, 1.0, 1.5])],
        "axis": [rng.uniform(-1, 1) for _ in range(3)], "field": round(rng.uniform(4, 15), 2), "factor": rng.choice([1.0, -1.0, 0.5]),
    }


def generate(rng, tier):
    k = known(rng) if rng.random() < 0.4 else None
    case = (k["kind"][:-6] if k["kind"].endswith("-chain") else "ferro") if k else rng.choice(CASES)
    past = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        past.append({"k": rng.choice(["plain", "interrupt", "settings"]), "seed": rng.randrange(1 << 30), "case": rng.choice(CASES),
                     "spec": {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"])}})
    sc = {
        "ham": gen.gen_ham(rng, natoms=(1, 2), nbonds=(1, 3), notation="any"),
        "idle": rng.random() < 0.25,
        "strength": rng.choice([0.5, 1.0, 2.0, 4.0]),
        "wolfe": rng.choice([None, None, [0.01, 0.9], [0.1, 0.9], [0.3, 0.9], [0.4, 0.99], [0.2, 0.5]]),
        "known": k,
        "case": case,
        "m": rng.choice([None, None, 1, 2, 5]),
        "field": rng.choice([None, None, [0.5, -0.3, 2.0]]),
        "half": [rng.randrange(2) for _ in range(3)],
        "seed": rng.randrange(1 << 30),
        "random": rng.random() < 0.25,
        "steps": rng.choice([2, 3, 4, 5]),
        "tol": rng.choice([None, None, None, [1e-4] * 3, [1e-6] * 3, [1e-9] * 3, [0.0] * 3,
                           [rng.choice([1e6, 1.0, 1e-2, 1e-5, 1e-9]) for _ in range(3)],
                           [1e6, rng.choice([0.1, 1e-3, 1e-5]), rng.choice([0.1, 1e-3, 1e-5])],
                           rng.sample([1e6, 1e6, rng.choice([1e-2, 1e-4, 1e-5])], 3)]),
        "aligned": [rng.choice([None, None, 1, -1]) for _ in range(3)],
        "past": past,
        "stop": rng.choice([None, "interrupt", "crash"]),
        "at": rng.randrange(1_000_000),
    }
    if k and k["basin"] and not k["kind"].endswith("-chain"):
        sc["wolfe"], sc["random"] = None, False
        sc["tol"] = rng.choice([None, None, [1e-4] * 3, [1e-6] * 3])
    return sc


def normalised(spec, strength):
    """Couplings of the wanted strength: steps of the line search have a reasonable length."""
    h = gen.build(spec)
    s = {a.name: a.spin for a in h.magnetic_atoms}
    total = 1e-9
    for key, m in gen.physics(h).items():
        a, b = (key, key) if isinstance(key, str) else key[:2]
        total += np.abs(np.array(m)).max() * s.get(a, 0) * s.get(b, 0)
    f = strength / total
    spec = dict(spec)
    spec["bonds"] = [b[:3] + [[[x * f for x in r] for r in b[3]]] + b[4:] for b in spec["bonds"]]
    spec["onsite"] = [o[:1] + [[[x * f for x in r] for r in o[1]]] + o[2:] for o in spec["onsite"]]
    return gen.build(spec)


def known_model(k):
    """(Hamiltonian, field, energy of the stable states)"""
    from magnopy import SpinHamiltonian
    from wulfric import Atom

    kind, J, (s1, s2), B = k["kind"], k["J"], k["S"], k["field"]
    h = SpinHamiltonian(cell=np.diag([4.0, 5.0, 6.0]), notation=(True, False, k["factor"], k["factor"]))
    n = np.array(k["axis"]) / np.linalg.norm(k["axis"])
    a = Atom("A1", (0, 0, 0), spin=(0, 0, s1), g_factor=2.0)
    b = Atom("B1", (0.5, 0.5, 0.5), spin=(0, 0, s2), g_factor=2.0)
    zeeman = spectrum.BOHR_MAGNETON * 2.0 * B
    h.add_atom(a)
    if kind == "field":
        h.add_on_site(a, matrix=np.zeros((3, 3)))
        return h, (B * n).tolist(), -zeeman * s1
    if kind == "easy-axis":
        h.add_on_site(a, matrix=-abs(J) / k["factor"] * np.outer(n, n))
        return h, None, -abs(J) * s1**2
    if kind == "fields":  # spins that do not feel each other
        c = Atom("C1", (0.2, 0.5, 0), spin=(0, 0, 2), g_factor=2.0)
        for x in (a, b, c):
            if x is not a:
                h.add_atom(x)
            h.add_on_site(x, matrix=np.zeros((3, 3)))
        return h, (B * n).tolist(), -zeeman * (s1 + s2 + 2)
    h.add_atom(b)
    if kind == "pair-field":
        J = -abs(J)
    h.add_exchange(a, b, (0, 0, 0), iso=J / k["factor"] / 2)
    e = -abs(J) * s1 * s2
    if kind == "pair-field":
        return h, (B * n).tolist(), e - zeeman * (s1 + s2)
    return h, None, e


def chain(k, rs):
    """Chain of spins with the ground state that is known: (Hamiltonian, energy, guess close to this state)"""
    from magnopy import SpinHamiltonian
    from wulfric import Atom

    S, c, D = k["S"][0] + 0.5, k["c"], k["hard"]
    axis = np.array(k["axis"]) / np.linalg.norm(k["axis"])
    spin = np.cross(axis, rs.normal(size=3))
    spin /= np.linalg.norm(spin)
    h = SpinHamiltonian(cell=np.diag([4.0, 5.0, c]), notation=(False, False, 1.0, 1.0))
    h.add_atom(Atom("A1", (0, 0, 0), spin=(0, 0, S)))
    J = abs(k["J"]) / 2
    if k["kind"] == "antiferro-chain":
        h.add_exchange("A1", "A1", (0, 0, 1), iso=J)
        if D:  # easy axis
            h.add_on_site("A1", matrix=-D * np.outer(spin, spin))
        q, minimum = np.array([0, 0, np.pi / c]), -J * S * S - D * S * S
    else:
        J1 = np.sign(k["J"]) * k["ratio"] * J
        h.add_exchange("A1", "A1", (0, 0, 1), iso=J1)
        h.add_exchange("A1", "A1", (0, 0, 2), iso=J)
        if D:  # easy plane
            h.add_on_site("A1", matrix=D * np.outer(axis, axis))
        angle = np.arccos(-J1 / 4 / J)
        q, minimum = np.array([0, 0, (angle + rs.uniform(-0.1, 0.1)) / c]), S * S * (J1 * np.cos(angle) + J * np.cos(2 * angle))
    return h, minimum, (np.array([near(rs, spin, 20)]), near(rs, axis, 20), q)


def near(rs, direction, degrees):
    """Random direction within some degrees from the given one."""
    d = np.array(direction) / np.linalg.norm(direction)
    u = np.cross(d, rs.normal(size=3))
    t = np.radians(degrees) * np.sqrt(rs.uniform())
    return np.cos(t) * d + np.sin(t) * u / np.linalg.norm(u)


def execute(sc, w):
    close = None
    if sc["known"] and sc["known"]["kind"].endswith("-chain"):
        h, minimum, close = chain(sc["known"], np.random.RandomState(sc["seed"] + 1))
        field = None
    elif sc["known"]:
        h, field, minimum = known_model(sc["known"])
    else:
        h, field, minimum = normalised(sc["ham"], sc["strength"]), sc["field"], None
    if sc.get("idle"):  # a spin that nothing acts on
        from wulfric import Atom

        idle = Atom("Idle", (0.1, 0.2, 0.3), spin=(0, 0, 1.0), g_factor=0.0)
        h.add_atom(idle)
        h.add_on_site(idle, matrix=np.zeros((3, 3)))
    n = h.I
    if n == 0:
        return
    case = sc["case"]
    rs = np.random.RandomState(sc["seed"])
    start, ax, q = rs.normal(size=(n, 3)), rs.normal(size=3), rs.normal(size=3) * 0.3
    if field is not None:
        for i, sign in zip(range(n), sc.get("aligned", [])):
            if sign is not None and (minimum is None or sign < 0):
                start[i] = sign * np.array(field)  # some spins begin where the field holds them
    if case == "antiferro":
        q = np.linalg.inv(np.array(h.cell)) @ np.array(sc["half"]) * np.pi
    # models and states from which the search has to succeed (measured, see DESIGN.md)
    basin = False
    if close:
        start[: len(close[0])], ax, q = close
    elif sc["known"] and sc["known"].get("basin") and sc["known"]["kind"] in ("field", "fields", "pair-field", "easy-axis"):
        k, axis = sc["known"], np.array(sc["known"]["axis"])
        if field is not None:
            stiff = min(spectrum.BOHR_MAGNETON * 2 * k["field"] * a.spin for a in h.magnetic_atoms if a.name != "Idle")
            start = np.array([near(rs, -axis, 60 if k["wide"] else 25) for _ in range(n)])
        else:
            stiff = 2 * abs(k["J"]) * k["S"][0] ** 2
            start = np.array([near(rs, axis if k["wide"] else -axis, 25) for _ in range(n)])
        basin = stiff >= 0.45 and not sc.get("wolfe") and (sc["tol"] is None or min(sc["tol"][:2]) >= 1e-6) and not sc["random"]
    tol = None
    if sc["tol"] is not None:
        tol = tuple(sc["tol"][: 2 if case == "ferro" else 3])

    def guess():
        if sc["random"] and not close:
            return {"ferro": None, "antiferro": None, "spiral": (None, None, q)}[case]
        return {"ferro": start, "antiferro": (start, ax), "spiral": (start, ax, q)}[case]

    def minimise(e, mx, g=None, history=None, kind=None, seed=None, step=1):
        kind = kind or case
        kw = {"max_iterations": mx, "initial_guess": guess() if g is None else g}
        if tol is not None and kind == case:
            kw["tolerance"] = tol
        if kind == "antiferro":
            kw["antiferro_q"] = q
        if history:
            kw.update(save_history=True, history_filename=history, history_step=step)

        def run():
            np.random.seed((seed or sc["seed"]) % (1 << 31))
            with contextlib.redirect_stdout(io.StringIO()):
                return e.optimize(kind, **kw)

        return run

    def fresh():
        e = ops.energy(h)
        if hasattr(e, "_wolfe_iter_max"):
            e._wolfe_iter_max = 300
        if sc["m"] is not None:
            e.m = sc["m"]
        if sc.get("wolfe"):
            e.wolfe_c1, e.wolfe_c2 = sc["wolfe"]
        e.magnetic_field = field
        return e

    def value(state):
        """Energy of a state, computed independently."""
        if case == "ferro":
            return spectrum.classical(h, "ferro", state[0], field=field)
        return spectrum.classical(h, case, state[0], state[1], state[2], field=field)

    scale = sum(np.abs(np.array(m)).max() * h_spin(h, key) for key, m in gen.physics(h).items())
    scale += 0 if field is None else spectrum.BOHR_MAGNETON * np.linalg.norm(field) * sum(abs(a.g_factor) * a.spin for a in h.magnetic_atoms)
    eps = 1e-7 * scale + 1e-12

    # ---- the object has a past
    e = fresh()
    for p in sc["past"]:
        g = {"ferro": start, "antiferro": (start, ax), "spiral": (start, ax, q)}[p["case"]]
        fn = minimise(e, 2, g=g, kind=p["case"], seed=p["seed"])
        if p["k"] == "interrupt":
            w.interrupt(fn, p["spec"])
        elif p["k"] == "settings":
            e.m, e.wolfe_c1, e.wolfe_c2, e.magnetic_field = 3, 0.2, 0.5, [1, 2, 3]
            outcome(fn)
            e.m, e.wolfe_c1, e.wolfe_c2, e.magnetic_field = fresh().m, fresh().wolfe_c1, fresh().wolfe_c2, field
        else:
            outcome(fn)

    # ---- step by step
    states = []
    for j in range(sc["steps"] + 1):
        o = outcome(minimise(e, j))
        if not o.ok:
            w.check(isinstance(o.exc, ValueError) and "olfe" in str(o.exc), "failed", f"minimisation fails: {o.name()}: {o.exc}")
            w.check(not basin, "failed", f"minimisation that starts next to the minimum fails: {o.exc}")
            break
        states.append([np.array(x) for x in o.value])
        w.check(all(np.all(np.isfinite(x)) for x in states[-1]), "finite", f"minimisation ({case}) gives {states[-1]} after {j} steps")
    energies = [value(s) for s in states]
    for j in range(1, len(energies)):
        w.check(energies[j] <= energies[j - 1] + eps, "up",
                f"step {j} of the minimisation ({case}) goes up from {energies[j-1]:.9g} to {energies[j]:.9g} meV")
        w.check(energies[j] <= energies[0] + eps, "up", f"minimisation ({case}) ends above the initial guess: {energies}")
    w.probe("steps", max(0, len(states) - 1))
    if len(states) > 1 and case == "antiferro":
        w.check(states[-1][2].tobytes() == q.tobytes(), "q", "spiral vector of the antiferromagnetic state moved")

    def slope(state, every=False):
        """Largest torque of the independent energy: (of spins, of the cone axis); or all of them."""
        best, each = [0.0, 0.0], []
        for i in range(n + (case != "ferro")):
            t = []
            for k in range(3):
                r = np.eye(3)[k]
                v = []
                for sign in (1, -1):
                    s = [np.array(x, dtype=float) for x in state]
                    turn = spectrum.rotation(r, sign * 1e-4)
                    if i < n:
                        s[0][i] = turn @ s[0][i]
                    else:
                        s[1] = turn @ s[1]
                    v.append(value(s))
                t.append((v[0] - v[1]) / 2e-4)
            best[i == n] = max(best[i == n], float(np.linalg.norm(t)))
            each.append(float(np.linalg.norm(t)))
        if every:
            return each
        return best

    # ---- a step is a real step: down if there is somewhere to go, and every degree of freedom takes part
    if len(states) > 1:
        t = slope(states[0])
        if max(t) > 1e-2 * scale + 1e-6 and (tol is None or max(t) > 10 * tol[0]):
            w.check(energies[1] < energies[0], "stuck", f"first step of the minimisation ({case}) does not go down from {energies[0]:.9g} meV")
        for i in range(n):
            first, later = states[0][0][i], states[1][0][i]
            if turned(value, states[0], i, scale):
                w.check(np.abs(first - later).max() > 1e-12, "still", f"spin {i} does not move although it feels a torque ({case})")
        if case != "ferro" and t[1] > 1e-2 * scale + 1e-6:
            w.check(np.abs(states[0][1] - states[1][1]).max() > 1e-12, "still", f"cone axis does not move although it feels a torque ({case})")
        # the first step has nothing to go by but the slopes: none of the degrees of freedom goes up
        for part, i in [(0, i) for i in range(n)] + ([(1, None)] if case != "ferro" else []):
            pick = (lambda s: s[0][i]) if part == 0 else (lambda s: s[1])
            u = np.cross(pick(states[0]), pick(states[1]))
            if max(t) < 2 and np.linalg.norm(u) > 1e-8:
                up = along(value, states[0], part, i, u / np.linalg.norm(u))
                w.check(up <= 1e-3 * scale + 1e-6, "uphill", f"first step turns {['spin', 'cone axis'][part]} {i} uphill ({case}, slope {up:.3g})")
        # what the first step gains, in the first order: turns times torques
        gain = 0.0
        for i, torque in enumerate(slope(states[0], True)):
            x, y = (states[0][0][i], states[1][0][i]) if i < n else (states[0][1], states[1][1])
            gain += torque * np.arctan2(np.linalg.norm(np.cross(x, y)), np.dot(x, y))
        if case == "spiral":
            g = []
            for k in range(3):
                v = []
                for sign in (1, -1):
                    v.append(value([states[0][0], states[0][1], states[0][2] + sign * 1e-5 * np.eye(3)[k]]))
                g.append((v[0] - v[1]) / 2e-5)
            dq, size = states[1][2] - states[0][2], float(np.linalg.norm(g))
            reach = max(np.abs(np.array(h.cell)).sum() * (1 + max([np.abs(R).max() for _, _, R, _ in h.exchange], default=0)), 1)
            if size > 1e-2 * scale * reach + 1e-6:
                w.check(np.abs(dq).max() > 1e-12, "still", f"spiral vector does not move although the energy has the slope {size:.3g}")
                w.check(np.dot(g, dq) <= 0, "uphill", f"first step moves the spiral vector by {dq} uphill, the slope is {g}")
                w.probe("slope of the spiral vector")
            gain += max(0.0, -np.dot(g, dq))
        if max(t) < 2:
            c1 = sc["wolfe"][0] if sc.get("wolfe") else 1e-4
            w.check(energies[1] <= energies[0] - 0.99 * c1 * gain + eps, "wolfe",
                    f"first step ({case}) goes from {energies[0]:.9g} to {energies[1]:.9g} meV, with c1 = {c1} it has to gain {c1 * gain:.3g}")

    # ---- killed or interrupted, and continued from the last complete record
    if sc["stop"] and len(states) > 2:
        name = w.path("history")
        fn = minimise(fresh(), sc["steps"], history=name)
        if sc["stop"] == "interrupt":
            w.interrupt(fn, {"at": sc["at"], "kind": "interrupt"})
        else:
            _, counted = w.counted(minimise(fresh(), sc["steps"], history=w.path("spare")))
            w.crashing(fn, {"cls": "write", "at": sc["at"], "action": "crash", "errno": "EIO", "part": 0}, counted)
        kept = records(name, n, case)[-1:]
        if kept:
            kept, state = kept[0]
            g = {"ferro": state[0], "antiferro": state[:2], "spiral": tuple(state)}[case]
            o = outcome(minimise(fresh(), 3, g=g))
            if o.ok:
                after = value(o.value)
                w.check(after <= kept + 1e-6 * scale + 1e-7, "restart",
                        f"minimisation continued from its history ({case}) ends at {after:.9g} above the recorded {kept:.9g} meV")
                w.probe("continued")

    # ---- to the end
    if len(states) == sc["steps"] + 1:
        name = w.path("way")
        o = outcome(minimise(fresh(), LIMIT, history=name))
        if o.ok:
            end = value(o.value)
            w.check(np.isfinite(end), "finite", f"minimisation ({case}) ends at {o.value}")
            w.check(end <= energies[-1] + eps, "up", f"minimisation ({case}) ends at {end:.9g}, above {energies[-1]:.9g} meV of its {sc['steps']}. step")
            way = records(name, n, case)
            ended = len(way) - 1 < LIMIT  # the first record is the initial guess
            w.probe("ended" if ended else "limit of iterations")
            # progress: small models with sensible tolerances end soon
            if tol is None or min(tol) >= 1e-6:
                bound = {"ferro": 60, "antiferro": LIMIT if sc["m"] is None else None, "spiral": None}[case]
                w.check(bound is None or (ended and len(way) - 1 <= bound), "progress",
                        f"minimisation ({case}) of {n} spins does not end in {bound} steps")
            if ended:
                t = slope([np.array(x) for x in o.value])
                w.check(len(way) >= 2, "slope", f"minimisation ({case}) ends without a step")
                # tolerances hold in the last state or in the one before it
                b = slope(way[-2][1])
                limits = (tol or (1e-5,) * 3)[1:]
                for now, last, limit, what in zip(t, b, limits, ("a spin", "the cone axis")):
                    w.check(min(now, last) <= 1.01 * limit + 1e-6 * scale + 1e-9, "slope",
                            f"minimisation ({case}) ends with tolerance {limit} where the torque of {what} is {now:.3g}, {last:.3g} before")
                drop = abs(value(way[-2][1]) - end)
                w.check(drop <= 1.01 * (tol or (1e-5,))[0] + 1e-6 * scale + 1e-9, "slope",
                        f"minimisation ({case}) ends with a step of {drop:.3g} meV, the tolerance is {tol}")
                w.log("torques", f"{t[0]:.2g} {t[1]:.2g}")
                if minimum is not None and (tol is None or max(tol) <= 1e-4):
                    w.check(abs(end - minimum) <= 1e-2 * scale, "minimum",
                            f"minimisation of the model with the minimum {minimum:.9g} ends at {end:.9g} ({sc['known']['kind']})")
                    w.probe("known minimum")
            if basin:
                w.probe("started next to the minimum")
                w.check(ended and len(way) - 1 <= 60, "progress", "minimisation that starts next to the minimum does not end in 60 steps")
        else:
            w.check(not basin, "failed", f"minimisation that starts next to the minimum fails: {o.exc}")
            w.probe("line search failed")
    w.state(case, n, sc["m"], len(states), bool(sc["known"]), [p["k"] for p in sc["past"]])
    w.log([ops.hexes(s[0]) for s in states])
    w.nontrivial = len(states) > 2


def h_spin(h, key):
    s = {a.name: a.spin for a in h.magnetic_atoms}
    a, b = (key, key) if isinstance(key, str) else key[:2]
    return s.get(a, 0) * s.get(b, 0)


def along(value, state, part, i, axis):
    """Slope of the energy when one vector turns around the axis."""
    v = []
    for sign in (1, -1):
        s = [np.array(x, dtype=float) for x in state]
        turn = spectrum.rotation(axis, sign * 1e-4)
        if part == 0:
            s[0][i] = turn @ s[0][i]
        else:
            s[1] = turn @ s[1]
        v.append(value(s))
    return (v[0] - v[1]) / 2e-4


def turned(value, state, i, scale):
    """Whether spin i of the state feels a clear torque."""
    for k in range(3):
        v = []
        for sign in (1, -1):
            s = [np.array(x, dtype=float) for x in state]
            s[0][i] = spectrum.rotation(np.eye(3)[k], sign * 1e-4) @ s[0][i]
            v.append(value(s))
        if abs(v[0] - v[1]) / 2e-4 > 1e-2 * scale + 1e-6:
            return True
    return False


def records(name, n, case):
    """(energy, state) of the complete lines of a history file."""
    try:
        with open(name) as f:
            lines = [x for x in f.read().split("\n")[:-1] if not x.lstrip().startswith("Energy")]
    except FileNotFoundError:
        return []
    out = []
    for line in lines:
        x = [float(v) for v in line.split()]
        if case == "ferro":
            out.append((x[0], [np.array(x[2:]).reshape(n, 3)]))
        else:
            s = np.array(x[3: 3 + 3 * n]).reshape(n, 3)
            out.append((x[0], [s, np.array(x[3 + 3 * n: 6 + 3 * n]), np.array(x[6 + 3 * n:])]))
    return out
