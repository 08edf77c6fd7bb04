"""Operations that only read a Hamiltonian, and their results in a comparable form."""

import contextlib
import inspect
import sys

import numpy as np

from magnopy import Energy, MagnonDispersion, dump_spinham_hdf5, dump_spinham_txt
from magnopy.io.txt.vampire import dump_mat, dump_ucf, dump_vampire

from . import gen

WOLFE_LIMIT = 60


def _savefig(name, *args, **kwargs):
    """Stub of the plotting library: the picture of a failed line search."""
    with open(name, "wb") as f:
        f.write(b"picture")


def stub_plots():
    import matplotlib.pyplot as plt

    plt.savefig = _savefig


stub_plots()


def energy(h):
    """Energy with a short line search (the default one may take minutes before it gives up)."""
    e = Energy(h)
    if hasattr(e, "_wolfe_iter_max"):
        e._wolfe_iter_max = WOLFE_LIMIT
    return e


def command_line(module, argv):
    """The command of a module, called as its script with the given arguments."""
    old = sys.argv
    sys.argv = ["magnopy-command"] + argv
    try:
        module.main()
    except SystemExit as e:
        if e.code:
            raise ValueError(f"the command ended with the exit code {e.code}: {argv}") from None
    finally:
        sys.argv = old


@contextlib.contextmanager
def short_minimisation(iterations, easy=False):
    """Inside, minimisations of the commands are limited: line search and number of steps."""
    init, optimize = Energy.__init__, Energy.optimize
    names = list(inspect.signature(optimize).parameters)
    place = names.index("max_iterations") - 1

    def short_init(self, *args, **kwargs):
        init(self, *args, **kwargs)
        if hasattr(self, "_wolfe_iter_max"):
            self._wolfe_iter_max = WOLFE_LIMIT
        if easy:  # almost every step is accepted
            self.wolfe_c1, self.wolfe_c2 = -1e9, 1e9

    def short_optimize(self, *args, **kwargs):
        if len(args) <= place:
            kwargs.setdefault("max_iterations", iterations)
        return optimize(self, *args, **kwargs)

    Energy.__init__, Energy.optimize = short_init, short_optimize
    try:
        yield
    finally:
        Energy.__init__, Energy.optimize = init, optimize


def hexes(x):
    x = np.asarray(x)
    if np.iscomplexobj(x):
        return [hexes(x.real), hexes(x.imag)]
    return [float(v).hex() for v in np.asarray(x, dtype=float).ravel()]


def directions(h, seed):
    rs = np.random.RandomState(seed % (1 << 31))
    return rs.normal(size=(h.I, 3)), rs.normal(size=3), rs.normal(size=3)


READS = [
    "copy", "filtered", "filtered-fail", "crystal", "iterate", "like", "magnetic", "contains", "get", "notation",
    "distance", "energy", "energy-field", "optimize", "dispersion", "txt", "txt-full", "txt-text", "hdf5",
    "hdf5-over", "ucf", "ucf-text", "ucf-bad", "mat", "vampire",
]
STORED = ["txt", "txt-full", "hdf5", "hdf5-over", "ucf", "mat", "vampire"]


class CallbackFailed(Exception):
    pass


def read(h, what, x, path):
    """Callable that reads ``h``; ``x`` varies it, ``path(name)`` is a place for its files."""
    if what == "copy":
        return lambda: gen.snapshot(h.copy())
    if what == "filtered":
        d = 1.0 + x % 13
        return lambda: gen.snapshot(
            [lambda: h.filtered(max_distance=d), lambda: h.filtered(min_distance=d / 3),
             lambda: h.filtered(custom_filter=lambda p: p.iso > 0)][x % 3]()
        )
    if what == "filtered-fail":
        def run():
            count = [0]

            def callback(p):
                count[0] += 1
                if count[0] > x % 3:
                    raise CallbackFailed()
                return False

            return gen.snapshot(h.filtered(custom_filter=callback))
        return run
    if what == "crystal":
        return lambda: [hexes(h.crystal.cell), [a.name for a in h.crystal.atoms]]
    if what == "iterate":
        return lambda: [
            [[a.name, b.name, list(map(int, R)), hexes(p.matrix)] for a, b, R, p in h.exchange],
            [[a.name, hexes(p.matrix)] for a, p in h.on_site],
        ]
    if what == "like":
        return lambda: [[a.name, b.name, list(map(int, R)), hexes(p.matrix)] for a, b, R, p in h.exchange_like]
    if what == "magnetic":
        return lambda: [[a.name for a in h.magnetic_atoms], h.I]
    if what == "contains":
        return lambda: [[a.name, a in h, (a, a, (9, 9, 9)) in h] for a in h.atoms]
    if what == "get":
        return lambda: [hexes(h[a, b, R].matrix) for a, b, R, _ in h.exchange]
    if what == "notation":
        return lambda: list(h.notation)
    if what == "distance":
        return lambda: [float(h.get_distance(a, b, R)).hex() for a, b, R, _ in h.exchange]
    if what in ("energy", "energy-field"):
        def run():
            e = energy(h)
            if what == "energy-field":
                e.magnetic_field = (0.1, -0.4, x % 5)
            s, ax, q = directions(h, x)
            return hexes([e.ferro(s), e.spiral(s, ax, q), e.antiferro(s, ax, q)])
        return run
    if what == "optimize":
        def run():
            e = energy(h)
            s, ax, q = directions(h, x)
            case = ["ferro", "antiferro", "spiral"][x % 3]
            guess = {"ferro": s, "antiferro": (s, ax), "spiral": (s, ax, q)}[case]
            r = e.optimize(case, initial_guess=guess, antiferro_q=q, max_iterations=1 + x % 2)
            return [hexes(v) for v in r]
        return run
    if what == "dispersion":
        def run():
            d = MagnonDispersion(h)
            k = directions(h, x)[1]
            return [hexes(d.h(k)), hexes(d.omega(k))]
        return run
    if what == "txt":
        return lambda: dump_spinham_txt(h, filename=path("model.txt"))
    if what == "txt-full":
        return lambda: dump_spinham_txt(
            h, filename=path("full.txt"), write_matrix=x % 2 == 0, write_iso=True, write_dmi=True, write_symm=True,
            write_distance=True, write_spin_angles=x % 3 == 0,
        )
    if what == "txt-text":
        return lambda: dump_spinham_txt(h, print_if_none=False)
    if what == "hdf5":
        return lambda: dump_spinham_hdf5(h, filename=path("model.hdf5"), groupname="g")
    if what == "hdf5-over":
        return lambda: dump_spinham_hdf5(h, filename=path("over.hdf5"), groupname="g", overwrite=True)
    kw = {"nologo": True, "anisotropic": x % 2 == 0, "dmi": x % 3 == 0}
    if what == "ucf":
        return lambda: dump_ucf(h, filename=path("v.UCF"), **kw)
    if what == "ucf-text":
        return lambda: dump_ucf(h, **kw)
    if what == "ucf-bad":
        def mask(m):
            raise CallbackFailed()
        if x % 2:
            return lambda: dump_ucf(h, custom_mask=mask, nologo=True)
        return lambda: dump_ucf(h, materials=[0], nologo=True)
    if what == "mat":
        return lambda: dump_mat(h, filename=path("v.mat"), nologo=True)
    if what == "vampire":
        return lambda: dump_vampire(h, seedname=path("vamp"), **kw)
    raise AssertionError(what)


def disk_faults(rng, n):
    """Seeded faults of the disk."""
    out = []
    for _ in range(n):
        cls = rng.choice(["write", "write", "openw", "close", "mut", "sync", "trunc", "rename", "lock", "open"])
        action = rng.choice(["err", "err", "full", "short"]) if cls == "write" else "err"
        out.append(
            {"cls": cls, "at": rng.randrange(1_000_000), "action": action,
             "errno": rng.choice(["EIO", "ENOSPC", "EACCES", "EDQUOT", "EROFS", "EMFILE"] if cls in ("open", "openw")
                                 else ["EIO", "ENOSPC", "EDQUOT"]),
             "part": rng.randrange(1_000_000)}
        )
    return out


def switches(rng, n, tasks):
    return [[rng.randrange(1_000_000), rng.randrange(tasks)] for _ in range(n)]
