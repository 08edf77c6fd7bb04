"""P10: a load gives the Hamiltonian of the file or an exception, and leaves nothing behind."""

import locale
import logging
import os
import random
import sys
import warnings

import numpy as np

from magnopy import dump_spinham_hdf5, dump_spinham_txt, load_spinham, load_spinham_hdf5, load_spinham_txt
from magnopy.io.txt.tb2j import load_tb2j
from sim import gen, tb2j
from sim.engine import Violation, outcome

PROPERTY = "P10"
RUNS = {"quick": 4000, "thorough": 80000}
SHRINK = ["attempts", "attempts.*.faults", "ham.bonds", "ham.onsite", "tb2j.bonds"]
RULE = (
    "one run = a good file (text, HDF5 or TB2J) and a seeded series of loads under read faults (failed open, read and "
    "lock, short reads), interruptions at a seeded line, and loads of damaged copies (cut at a seeded byte, lines "
    "dropped, doubled or garbled, sections missing, unknown atoms, not a file at all); after each of them handles, "
    "files and process-wide settings are compared with those before and the good file is loaded again; non-trivial: "
    "a fault fired or a damaged file was read"
)
DAMAGE = [
    "cut", "cut", "drop", "double", "garble", "binary", "empty", "missing", "directory", "no-cell", "no-atoms",
    "unknown-atom", "bad-number", "no-notation", "byte", "undecodable", "undecodable",
]
# damage that may be skipped or reported, but has no influence on what is loaded
SAME = {"undecodable"}
MUST = {"missing", "directory", "empty", "no-cell", "no-atoms", "unknown-atom", "bad-number", "no-notation", "binary"}


def generate(rng, tier):
    att = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["fault", "fault", "interrupt", "damage", "damage"])
        a = {"k": k, "x": rng.randrange(1 << 20)}
        if k == "fault":
            a["faults"] = [
                {"cls": rng.choice(["open", "read", "read", "read", "close", "lock"]), "at": rng.randrange(1_000_000),
                 "action": rng.choice(["err", "err", "short"]), "errno": rng.choice(["EIO", "EACCES", "EMFILE", "ESTALE"]),
                 "part": rng.randrange(1_000_000)}
                for _ in range(rng.choice([1, 1, 2]))
            ]
            for f in a["faults"]:
                if f["action"] == "short" and f["cls"] != "read":
                    f["action"] = "err"
        elif k == "interrupt":
            a["spec"] = {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"])}
        else:
            a["damage"] = rng.choice(DAMAGE)
            a["at"] = rng.randrange(1_000_000)
        att.append(a)
    return {
        "fmt": rng.choice(["txt", "txt", "hdf5", "tb2j"]),
        "ham": gen.gen_ham(rng, far=True, natoms=(1, 4), nbonds=(1, 6), notation="any", onsite=0.8),
        "tb2j": tb2j.gen_tb2j(rng),
        "attempts": att,
        "via": rng.randrange(2),
        "pad": rng.choice([None, {"at": rng.randrange(1_000_000), "border": rng.random() < 0.7,
                                  "size": rng.choice([300, 9000, 20000, 70000])}]),
    }


def borders(lines):
    """Indices of lines after which a section starts or ends."""
    return [i + 1 for i, l in enumerate(lines) if l.startswith(("=" * 60, "-" * 60))] or [len(lines)]


def pad(path, spec, fmt):
    """Insert a long comment into a text file, so that it takes several reads and they end at other places."""
    with open(path, encoding="utf-8") as f:
        lines = f.read().split("\n")
    if fmt == "tb2j":
        at = next(i for i, l in enumerate(lines) if l.startswith("Exchange parameters generated")) + 1
    else:
        b = borders(lines)
        at = b[spec["at"] % len(b)] if spec["border"] else len(lines) * spec["at"] // 1_000_000
        if at < len(lines) and at > 0 and spec["at"] % 3 == 0:
            at -= 1
    size = spec["size"]
    lines[at:at] = ["# " + "padding " * 9] * (size // 74)
    with open(path, "w", encoding="utf-8") as f:
        f.write("\n".join(lines))


def settings():
    """Process-wide settings that a library call must not change."""
    st = np.random.get_state()
    return {
        "tracebacklimit": getattr(sys, "tracebacklimit", None),
        "excepthook": sys.excepthook is sys.__excepthook__,
        "numpy errors": sorted(np.geterr().items()),
        "numpy print": str(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
        "numpy random": [st[0], int(st[2]), int(st[1].sum())],
        "python random": hash(random.getstate()),
        "cwd": os.getcwd(),
        "umask": current_umask(),
        "environment": sorted(os.environ.items()),
        "warnings": len(warnings.filters),
        "root logger": [logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable],
        "magnopy logger": [logging.getLogger("magnopy").level, len(logging.getLogger("magnopy").handlers)],
        "locale": locale.setlocale(locale.LC_ALL),
        "stdout": [sys.stdout is sys.__stdout__, sys.stderr is sys.__stderr__],
        "recursion": sys.getrecursionlimit(),
    }


def current_umask():
    m = os.umask(0)
    os.umask(m)
    return m


def tree(w):
    out = {}
    for d, _, fs in os.walk(w.vol):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, w.vol)] = fh.read()
    return out


def damaged(w, src, fmt, a):
    """Write the damaged copy; returns (path, whether it has to be rejected) or None."""
    kind, x, at = a["damage"], a["x"], a["at"]
    ext = {"txt": ".txt", "hdf5": ".hdf5", "tb2j": "-exchange.out"}[fmt]
    path = w.path("damaged" + ext)
    must = kind in MUST
    if kind == "missing":
        return w.path("nowhere" + ext), True
    if kind == "directory":
        os.makedirs(path, exist_ok=True)
        return path, True
    with open(src, "rb") as f:
        data = f.read()
    if kind == "empty":
        data = b""
        if fmt == "tb2j":
            must = False
    elif kind == "cut":
        data = data[: len(data) * at // 1_000_000]
        must = False
    elif kind == "byte":
        if fmt == "hdf5":
            return None  # libhdf5 does not promise to notice
        i = len(data) * at // 1_000_000
        data = data[:i] + bytes([x % 94 + 33]) + data[i + 1:]
    elif kind == "undecodable":
        # a comment with a byte that is no text, at any line of the file
        if fmt == "hdf5":
            return None
        lines = data.split(b"\n")
        if fmt == "tb2j":
            i = 2
        else:
            b = borders(data.decode("utf-8").split("\n"))
            i = b[at % len(b)] if x % 3 else len(lines) * at // 1_000_000
        bad = [b"\xff", b"\xc3", b"caf\xe9", b"\x80\x81"][x % 4]
        lines[i:i] = [b"# " + bad] if x % 5 else [b"# padding padding padding"] * 400 + [b"# " + bad]
        data = b"\n".join(lines)
    elif kind == "binary":
        data = bytes((x * (i + 1)) % 251 for i in range(400)) + b"\xff\xfe\x00\x9d"
        if fmt == "tb2j":
            must = False
    elif fmt == "hdf5":
        return None
    else:
        lines = data.decode("utf-8").split("\n")
        i = min(len(lines) - 1, len(lines) * at // 1_000_000)
        if kind == "drop":
            del lines[i]
        elif kind == "double":
            lines.insert(i, lines[i])
        elif kind == "garble":
            lines[i] = lines[i][::-1]
        elif fmt == "tb2j":
            return None
        elif kind in ("no-cell", "no-atoms", "no-notation"):
            key = {"no-cell": "Cell", "no-atoms": "Atoms", "no-notation": "Notation"}[kind]
            s = next((n for n, l in enumerate(lines) if l.startswith(key)), None)
            if s is None:
                return None
            e = next(n for n in range(s, len(lines)) if lines[n].startswith("=" * 80))
            del lines[s: e + 1]
        elif kind == "unknown-atom":
            s = next((n for n, l in enumerate(lines) if l.startswith("Exchange")), None)
            if s is None:
                return None
            s = next(n for n in range(s, len(lines)) if lines[n].startswith("-" * 80)) + 1
            s = next(n for n in range(s, len(lines)) if not lines[n].startswith("#"))
            parts = lines[s].split()
            parts[x % 2] = "Zz9"
            lines[s] = " ".join(parts)
        elif kind == "bad-number":
            s = next(n for n, l in enumerate(lines) if l.startswith("Cell")) + 1
            s = next(n for n in range(s, len(lines)) if not lines[n].startswith("#"))
            parts = lines[s].split()
            parts[x % 3] = "1.2.3"
            lines[s] = " ".join(parts)
        data = "\n".join(lines).encode()
    with open(path, "wb") as f:
        f.write(data)
    return path, must


def execute(sc, w):
    fmt = sc["fmt"]
    src = w.path({"txt": "good.txt", "hdf5": "good.hdf5", "tb2j": "good-exchange.out"}[fmt])
    if fmt == "tb2j":
        with open(src, "w") as f:
            f.write(tb2j.render(sc["tb2j"]))
    else:
        h = gen.build(sc["ham"])
        (dump_spinham_txt if fmt == "txt" else dump_spinham_hdf5)(h, filename=src)
    plain = None
    if fmt != "hdf5" and sc.get("pad"):
        plain = {"txt": load_spinham_txt, "tb2j": load_tb2j}[fmt](src)
        pad(src, sc["pad"], fmt)
    direct = {"txt": load_spinham_txt, "hdf5": load_spinham_hdf5, "tb2j": load_tb2j}[fmt]

    def load(path):
        if sc["via"]:
            return lambda: load_spinham(path)
        return lambda: direct(path)

    first, counted = w.counted(load(src))
    if not first.ok:
        raise first.exc
    want = gen.snapshot(first.value)
    if plain is not None:
        d = gen.diff(gen.snapshot(plain), want)
        w.check(d is None, "comment", f"a long comment in the {fmt} file changes what is loaded: {d}")

    def nothing_left(before_files, before_settings, held, what):
        w.check(held == 0, "handle", f"{what} left {held} handles open")
        now = tree(w)
        for name in set(now) | set(before_files):
            if now.get(name) != before_files.get(name):
                raise Violation("residue", f"{what} changed the file {name}")
        s = settings()
        for k in s:
            if s[k] != before_settings[k]:
                raise Violation("settings", f"{what} changed {k} of the process: {str(before_settings[k])[:100]} -> {str(s[k])[:100]}")

    nothing_left(tree(w), settings(), first.held, "load")
    for n, a in enumerate(sc["attempts"]):
        if a["k"] == "damage":
            made = damaged(w, src, fmt, a)
            if made is None:
                continue
            path, must = made
            files, st = tree(w), settings()
            out = outcome(load(path))
            what = f"load of a damaged {fmt} file ({a['damage']}: {out.name()})"
            w.log(n, a["damage"], out.name())
            if must:
                w.check(not out.ok, "accepted", f"damaged {fmt} file ({a['damage']}) is loaded without an error")
            elif out.ok and a["damage"] in SAME:
                d = gen.diff(want, gen.snapshot(out.value))
                w.check(d is None, "wrong", f"load of a {fmt} file with an unreadable comment returned something else: {d}")
            if not out.ok:
                w.check(isinstance(out.exc, Exception), "exit", f"{what} ends with {out.name()}")
            w.fault("damaged-file:" + a["damage"])
            nothing_left(files, st, out.held, what)
            if os.path.isfile(path):
                os.unlink(path)
            elif os.path.isdir(path):
                os.rmdir(path)
        elif a["k"] == "fault":
            files, st = tree(w), settings()
            out, fired = w.with_faults(load(src), a["faults"], counted)
            what = f"load of the {fmt} file under faults ({out.name()})"
            w.log(n, "fault", fired, out.name())
            if out.ok:
                d = gen.diff(want, gen.snapshot(out.value))
                w.check(d is None, "wrong", f"{what} returned something else: {d}")
            else:
                w.check(fired > 0, "failed", f"{what} without a fault: {out.exc}")
            w.probe("reported" if not out.ok else "survived", fired > 0)
            nothing_left(files, st, out.held, what)
        else:
            files, st = tree(w), settings()
            delivered, where, r, e = w.interrupt(load(src), a["spec"])
            w.log(n, "interrupt", delivered, where, type(e).__name__)
            if delivered and e is None:
                d = gen.diff(want, gen.snapshot(r))
                w.check(d is None, "wrong", f"load interrupted at {where} returned something else: {d}")
            place, e = where, None
            nothing_left(files, st, 0, f"load interrupted at {place}")
        again = outcome(load(src))
        if not again.ok:
            raise Violation("retry", f"the good file can not be loaded after attempt {n} ({a['k']}): {again.name()}: {again.exc}")
        d = gen.diff(want, gen.snapshot(again.value))
        w.check(d is None, "retry", f"the good file loads as something else after attempt {n} ({a['k']}): {d}")
        w.check(again.held == 0, "handle", f"load left {again.held} handles open")
        w.state(fmt, a["k"], a.get("damage"))
    w.probe(fmt)
    w.log(want)
    w.nontrivial = bool(w.faults)
