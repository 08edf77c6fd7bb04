"""Magnon energies from notation-free couplings (linear spin wave theory, written independently of magnopy)."""

import numpy as np

from . import gen


def frame(v):
    v = np.array(v, dtype=float) / np.linalg.norm(v)
    x = np.eye(3)[int(np.argmin(np.abs(v)))]
    e1 = np.cross(v, x)
    e1 /= np.linalg.norm(e1)
    return e1, np.cross(v, e1), v


def model(h):
    """(spin vectors, [(i, j, vector, matrix)]) of the magnetic atoms; H = sum over all entries of S_i M S_j."""
    atoms = {}
    couplings = []
    phys = gen.physics(h)
    cell = np.array(h.cell)
    named = {a.name: a for a in h.atoms}
    index = {}

    def number(name):
        if name not in index:
            index[name] = len(index)
            atoms[name] = named[name]
        return index[name]

    for key, m in phys.items():
        if isinstance(key, str):
            i = number(key)
            couplings.append((i, i, np.zeros(3), np.array(m)))
        else:
            a, b, R = key
            i, j = number(a), number(b)
            d = (np.array(R) + np.array(named[b].position) - np.array(named[a].position)) @ cell
            couplings.append((i, j, d, np.array(m) / 2))
            couplings.append((j, i, -d, np.array(m).T / 2))
    return [np.array(a.spin_vector, dtype=float) for a in atoms.values()], couplings


def matrix(mod, k):
    """The bosonic Hamiltonian at the absolute k."""
    spins, couplings = mod
    n = len(spins)
    S = [np.linalg.norm(s) for s in spins]
    frames = [frame(s) for s in spins]
    u = [e1 + 1j * e2 for e1, e2, _ in frames]
    v = [f[2] for f in frames]
    A = np.zeros((n, n), dtype=complex)
    Am = np.zeros((n, n), dtype=complex)
    B = np.zeros((n, n), dtype=complex)
    C = np.zeros(n)
    k = np.array(k, dtype=float)
    for i, j, d, m in couplings:
        f = np.sqrt(S[i] * S[j]) / 2
        ph = np.exp(1j * (k @ d))
        A[i, j] += f * (u[i] @ m @ u[j].conj()) * ph
        Am[i, j] += f * (u[i] @ m @ u[j].conj()) * ph.conj()
        B[i, j] += f * (u[i] @ m @ u[j]) * ph
        C[i] += S[j] * (v[i] @ m @ v[j])
    top = np.hstack([2 * A - 2 * np.diag(C), 2 * B])
    low = np.hstack([2 * B.conj().T, 2 * Am.conj() - 2 * np.diag(C)])
    return np.vstack([top, low])


def energies(mod, k, margin=1e-3):
    """Sorted energies if the matrix is clearly definite, "indefinite" if it clearly is not, None otherwise."""
    h = matrix(mod, k)
    ev = np.linalg.eigvalsh((h + h.conj().T) / 2)
    scale = np.max(np.abs(ev)) + 1e-12
    if ev[0] > margin * scale:
        sign = 1
    elif ev[-1] < -margin * scale:
        sign = -1
    elif ev[0] < -margin * scale and ev[-1] > margin * scale:
        return "indefinite"
    else:
        return None
    n = len(mod[0])
    g = np.diag([1.0] * n + [-1.0] * n)
    w = np.linalg.eigvals(g @ h * sign)
    w = np.sort(w.real)[n:]
    return sign * w if sign > 0 else np.sort(-w)


def memoise_lattice_type():
    """The type of a lattice is a pure (and slow) function of the third-party library: computed once per cell."""
    from wulfric import lattice

    plain = lattice.lepage
    known = {}

    def lepage(*args, **kwargs):
        key = repr((args, sorted(kwargs.items())))
        if key not in known:
            known[key] = plain(*args, **kwargs)
        return known[key]

    lattice.lepage = lepage


# ------------------------------------------------------------ classical energy
BOHR_MAGNETON = 0.057883818  # meV / Tesla


def rotation(axis, phi):
    n = np.array(axis, dtype=float) / np.linalg.norm(axis)
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + np.sin(phi) * K + (1 - np.cos(phi)) * (K @ K)


def lattice_couplings(h, names):
    """[(i, j, lattice vector, matrix)] with every pair once, on-site terms with i == j."""
    out = []
    for key, m in gen.physics(h).items():
        if isinstance(key, str):
            i = names.index(key)
            out.append((i, i, np.zeros(3), np.array(m)))
        else:
            a, b, R = key
            out.append((names.index(a), names.index(b), np.array(R) @ np.array(h.cell), np.array(m)))
    return out


def classical(h, case, directions, axis=None, q=None, field=None, spins=None, g_factors=None):
    """Energy per cell: spins of the cell at r are those of the first cell turned around the axis by q.r,
    averaged over the cells (two phases in the antiferromagnetic case, all of them in a spiral)."""
    atoms = list(h.magnetic_atoms)
    names = [a.name for a in atoms]
    values = [a.spin for a in atoms] if spins is None else spins
    factors = [a.g_factor for a in atoms] if g_factors is None else g_factors
    s = [np.array(v, dtype=float) / np.linalg.norm(v) * x for v, x in zip(directions, values)]
    phases = {"ferro": [0.0], "antiferro": [0.0, np.pi], "spiral": [2 * np.pi * k / 8 for k in range(8)]}[case]
    e = 0.0
    couplings = lattice_couplings(h, names)
    for phi in phases:
        for i, j, r, m in couplings:
            if case == "ferro":
                e += s[i] @ m @ s[j]
            else:
                e += (rotation(axis, phi) @ s[i]) @ m @ (rotation(axis, phi + np.array(q) @ r) @ s[j])
        if field is not None:
            for v, g in zip(s, factors):
                turned = v if case == "ferro" else rotation(axis, phi) @ v
                e += BOHR_MAGNETON * g * (np.array(field) @ turned)
    return e / len(phases)
