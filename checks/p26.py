"""P26: a command that is refused fails visibly, keeps the results of earlier commands and leaves nothing."""

import contextlib
import io
import os
import shutil

import matplotlib.pyplot as plt
import numpy as np

from magnopy import load_spinham
from magnopy.score import convert_tb2j, magnon_dispersion, minimize_energy
from sim import gen, malformed, model, ops, spectrum, tb2j
from sim.engine import Violation, outcome

from checks.p10 import settings, tree
from checks.p20 import lattice

PROPERTY = "P26"
RUNS = {"quick": 900, "thorough": 20000}
SHRINK = ["attempts", "attempts.*.faults", "ham.bonds", "ham.onsite"]
RULE = (
    "one run = a directory with a model in three formats, results of earlier commands (real or files of the user under the same "
    "names) and a history of commands that have to be refused: wrong arguments, missing, damaged or malformed input, errors "
    "of the disk while it is read, output that can not be opened; plain, interrupted, next to another thread that loads and "
    "saves; each has to fail, change no file, no directory and no setting of the process and hold no handle; then the right command works; "
    "non-trivial: at least two commands were refused"
)
STUBS = ["disk below the system calls", "plots", "limits of the number of steps and of the line search"]
MODULES = {"minimise": minimize_energy, "dispersion": magnon_dispersion, "convert": convert_tb2j}
WRONG = {
    "minimise": [["-gst", "neel"], ["-gst", "ferro", "para"], ["-mf", "1", "2"], ["-mf", "a", "b", "c"], ["-mf", "1", "2", "3", "4"],
                 ["-shf", "vampire"], ["--nonsense"], ["stray"], None],
    "dispersion": [["-shf", "json"], ["--nonsense"], ["stray"], ["-kp"], ["-os"], None],
    "convert": [["-f", "json"], ["-f", "vampire"], ["--nonsense"], ["stray"], ["-of"], None],
}
LATE = [["-kp", "G-Q9-X"], ["-kp", "NOT"], ["-kps", "U1", "U", "a", "0", "0"], ["-kps", "U1", "U", "0", "0", "1/2"],
        ["-kps", "U1", "U", "0.5", "0", "0", "-kp", "G-U2"]]
KINDS = {
    "minimise": ["argument", "missing", "directory", "malformed", "malformed", "malformed", "empty", "format", "extension", "disk", "output"],
    "dispersion": ["argument", "missing", "directory", "malformed", "malformed", "empty", "format", "extension", "disk", "output", "late", "late"],
    "convert": ["argument", "missing", "directory", "malformed", "malformed", "binary", "disk", "disk", "output"],
}
SEEDNAMES = ["out", "minim", "sub/run", "a b", "deep/er/x"]


def generate(rng, tier):
    ham = gen.gen_ham(rng, natoms=(1, 3), nbonds=(1, 4), notation="any", far=True, extra_atoms=False)
    ham["cell"] = lattice(rng)[1]
    for a in ham["atoms"]:
        if a["charge"] is None:
            a["charge"] = 0.0
    ham["late_notation"] = False
    attempts = []
    for _ in range(rng.randint(3, 8)):
        c = rng.choice(["minimise", "minimise", "dispersion", "convert"])
        fmt = "tb2j" if c == "convert" else rng.choice(["txt", "txt", "hdf5", "tb2j"])
        a = {
            "command": c, "fmt": fmt, "kind": rng.choice(KINDS[c]), "pick": rng.randrange(1 << 30),
            "seedname": rng.choice(SEEDNAMES), "given": rng.random() < 0.5, "absolute": rng.random() < 0.5,
            "way": rng.choice(["plain", "plain", "plain", "interrupt", "threads"]),
            "mistake": rng.choice(sorted({"txt": malformed.TEXT, "hdf5": malformed.HDF5, "tb2j": tb2j.MISTAKES}[fmt])),
            "faults": [{"cls": rng.choice(["read", "read", "open"]), "at": rng.randrange(1_000_000), "action": "err",
                        "errno": rng.choice(["EIO", "EACCES", "EMFILE"])}],
            "spec": {"at": rng.randrange(1_000_000), "kind": rng.choice(["interrupt", "memory"])},
            "switches": ops.switches(rng, rng.randint(1, 5), 2),
            "options": rng.randrange(1 << 30),
        }
        attempts.append(a)
    return {
        "ham": ham, "style": rng.randrange(1 << 40), "tb2j": tb2j.gen_tb2j(rng, natoms=(1, 3), nbonds=(1, 4)),
        "earlier": rng.choice(["notes", "notes", "real"]), "last": rng.choice(["minimise", "convert", "convert", "dispersion"]),
        "attempts": attempts,
    }


def everything(w):
    """Files with their contents, and directories."""
    out = tree(w)
    for d, ds, _ in os.walk(w.vol):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), w.vol) + "/"] = b""
    return out


def execute(sc, w):
    spectrum.memoise_lattice_type()
    n = len(sc["ham"]["atoms"])
    spec = dict(sc["ham"], bonds=[b for b in sc["ham"]["bonds"] if b[0] < n and b[1] < n],
                onsite=[o for o in sc["ham"]["onsite"] if o[0] < n])
    notation = gen.notation_tuple(spec["notation"])
    if not spec["bonds"] or not sc["tb2j"]["bonds"]:
        return
    for d in ("sub", "taken", "empty"):
        os.mkdir(w.path(d))
    os.chdir(w.vol)
    names = {"txt": "model.txt", "hdf5": "model.hdf5", "tb2j": "exchange.out"}

    def write(fmt, name, mistake=None, seed=0):
        """Whether the mistake could be made."""
        p = w.path(name)
        if os.path.exists(p):
            os.unlink(p)
        if fmt == "hdf5":
            model.hdf5(p, spec, notation, sc["style"], group="model")
            return not mistake or malformed.hdf5(p, "model", mistake, seed)
        t = model.text(spec, notation, sc["style"]) if fmt == "txt" else tb2j.render(sc["tb2j"])
        if mistake:
            t = malformed.text(t, mistake, seed) if fmt == "txt" else tb2j.spoil(t, mistake, seed)
        if t is None:
            return False
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(t)
        return True

    for fmt, name in names.items():
        write(fmt, name)
    wants = {fmt: load_spinham(w.path(name), spinham_format=fmt) for fmt, name in names.items()}
    snaps = {fmt: gen.snapshot(h) for fmt, h in wants.items()}

    def outputs(seedname):
        return [f"{seedname}-results", f"{seedname}-ferro-history", f"{seedname}-spiral-history", f"{seedname}-antiferro-history-3",
                f"{seedname}.png", f"{seedname}.txt", f"{seedname}_info.txt", f"{seedname}_data.txt", f"{seedname}.hdf5"]

    def run(command, argv):
        def fn():
            out = io.StringIO()
            np_state = np.random.get_state()
            try:
                with ops.short_minimisation(1, True), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                    ops.command_line(MODULES[command], argv)
            finally:
                if command == "dispersion":
                    plt.close("all")
                np.random.set_state(np_state)
            return out.getvalue()
        return fn

    def right(command, fmt, seedname):
        if command == "convert":
            return ["-if", names["tb2j"], "-of", seedname + (".txt" if fmt == "txt" else ".hdf5")]
        argv = ["-sh", names[fmt], "-shf", fmt, "-os", seedname]
        return argv + (["-gst", "ferro"] if command == "minimise" else ["-st"])

    # ---- results of earlier commands
    for s in SEEDNAMES[:-1]:
        for name in outputs(s):
            with open(w.path(name), "w") as f:
                f.write(f"notes of the user about {name}\n")
        if sc["earlier"] == "real" and s == "out":
            for c, fmt in (("minimise", "txt"), ("convert", "txt")):
                o = outcome(run(c, right(c, fmt, s)))
                o.exc = None
    refused = 0
    for i, a in enumerate(sc["attempts"]):
        c, fmt, kind, pick = a["command"], a["fmt"], a["kind"], a["pick"]
        source, extra, faults, seedname = names[fmt], [], [], a["seedname"]
        if kind == "argument":
            extra = WRONG[c][pick % len(WRONG[c])]
        elif kind == "late":
            extra = LATE[pick % len(LATE)]
        elif kind == "missing":
            source = ["nothing.", "sub/nothing.", "nowhere/nothing."][pick % 3] + ("out" if fmt == "tb2j" else fmt)
        elif kind == "directory":
            source = ["empty", "sub"][pick % 2]
        elif kind == "malformed":
            source = "wrong." + ("out" if fmt == "tb2j" else fmt)
            if not write(fmt, source, a["mistake"], pick):
                w.probe("mistake does not apply")
                continue
        elif kind == "empty":
            fmt = ["txt", "hdf5"][pick % 2]
            source = "nothing." + fmt
            with open(w.path(source), "w") as f:
                f.write(["", "\n\n", "# a comment\n"][pick % 3] if fmt == "txt" else "")
        elif kind == "binary":
            source = "binary.out"
            with open(w.path(source), "wb") as f:
                f.write(b"\x89HDF\r\n\x1a\n\xff\xfe" + bytes(range(128, 256)))
        elif kind == "format":
            fmt, source = [("hdf5", names["txt"]), ("txt", names["hdf5"]), ("hdf5", names["tb2j"]), ("txt", names["tb2j"]),
                           ("tb2j", names["hdf5"])][pick % 5]
        elif kind == "extension":
            # without a known extension a file is read as text
            fmt = ["hdf5", "tb2j"][pick % 2]
            source = ["model.xml", "exchange", "model.tx"][pick % 3]
            shutil.copy(w.path(names[fmt]), w.path(source))
        elif kind == "disk":
            faults = a["faults"]
        elif kind == "output":
            seedname = ["taken/x", "nowhere/x"][pick % 2]
            if c == "dispersion":
                seedname = ["taken/x", names["txt"] + "/x"][pick % 2]  # its directories are made
            for name in outputs("taken/x"):
                os.makedirs(w.path(name), exist_ok=True)
        argv = []
        if extra is not None:
            path = w.path(source) if a["absolute"] else source
            argv = ["-if" if c == "convert" else "-sh", path]
            if c == "convert":
                suffix = [".txt", ".hdf5"][a["options"] % 2]
                argv += ["-of", seedname + suffix] if "-of" not in extra else []
            else:
                if kind != "extension" and "-shf" not in extra and (a["given"] or fmt == "tb2j" or kind in ("format", "directory")):
                    argv += ["-shf", fmt]
                argv += ["-os", seedname] if "-os" not in extra else []
                if c == "dispersion":
                    argv += [["-st"], ["-st", "-jo"], ["-st", "-v"]][a["options"] % 3] if kind == "output" else [[], ["-st"], ["-st", "-jo"], ["-v"]][a["options"] % 4]
                elif "-gst" not in extra:
                    argv += [[], ["-gst", "ferro"], ["-gst", "spiral", "ferro"], ["-gst", "antiferro"]][a["options"] % 4]
                if c == "minimise" and a["options"] % 3 == 0 and "-mf" not in extra:
                    argv += ["-mf", "0", "0", "1.5"]
            argv += extra
        what = f"attempt {i}: {c} ({kind}) {' '.join(argv)}".replace(w.vol + "/", "@")
        fn = run(c, argv)
        files, st = everything(w), settings()

        def judge(o, where=""):
            w.check(not o.ok, "accepted", f"{what} returned without an error{where}")
            w.check(isinstance(o.exc, Exception), "exit", f"{what} ends with {o.name()}{where}")

        def unchanged(where=""):
            now = everything(w)
            for f in sorted(set(now) | set(files)):
                if now.get(f) != files.get(f):
                    raise Violation("lost" if f in files else "residue", f"{what}{where}: the file {f} "
                                    + ("is gone" if f not in now else "was made" if f not in files else f"was changed: {now[f][:80]!r}"))
            s = settings()
            for k in s:
                if s[k] != st[k]:
                    raise Violation("settings", f"{what}{where} changed {k} of the process: {str(st[k])[:100]} -> {str(s[k])[:100]}")

        if faults:
            # how often the input is used by a load
            _, counted = w.counted(lambda: load_spinham(w.path(source), spinham_format=fmt))
            if c == "convert":
                _, counted = w.counted(lambda: load_spinham(w.path(source), spinham_format="tb2j"))
            o, fired = w.with_faults(fn, faults, counted)
            if not fired:
                w.probe("fault did not fire")
                continue
            judge(o, where=f", {fired} faults")
            w.check(o.held == 0, "handle", f"{what} left {o.held} handles open")
            unchanged()
        else:
            if a["way"] == "interrupt" and kind not in ("argument", "output", "late"):
                delivered, where, _, e = w.interrupt(fn, a["spec"])
                w.check(e is not None, "accepted", f"{what} returned without an error, interrupted at {where}")
                unchanged(f", interrupted at {where}")
            elif a["way"] == "threads" and kind not in ("argument", "output"):
                # two loads at the same time, and the command
                def other():
                    return gen.snapshot(load_spinham(w.path(names["txt"])))
                _, res = w.interleave([fn, other], [fn, other], a["switches"])
                judge(res[0], where=", next to a load")
                w.check(res[1].ok, "other", f"load next to {what} fails: {res[1].name()}: {res[1].exc}")
                d = gen.diff(snaps["txt"], res[1].value)
                w.check(d is None, "other", f"load next to {what} gives another model: {d}")
                unchanged(", next to a load")
            for _ in range(2):
                o = outcome(fn)
                judge(o)
                w.check(o.held == 0, "handle", f"{what} left {o.held} handles open")
                unchanged()
        refused += 1
        w.log(what, o.name())
        w.fault("refused:" + kind)
        w.probe(c)
        w.state(c, kind, fmt, a["mistake"] if kind == "malformed" else pick % 10, a["way"])
    # ---- the right command works
    last = sc["last"]
    for fmt, name in names.items():
        d = gen.diff(snaps[fmt], gen.snapshot(load_spinham(w.path(name), spinham_format=fmt)))
        w.check(d is None, "input", f"the model in {name} changed: {d}")
    before = tree(w)
    fmt = ["txt", "hdf5"][sc["style"] % 2]
    o = outcome(run(last, right(last, fmt, "sub/last")))
    if last == "convert":
        w.check(o.ok, "failed", f"{last} fails after the refused commands: {o.name()}: {o.exc}")
        got = load_spinham(w.path("sub/last." + fmt))
        tol = {"cell": 5.001e-9, "pos": 2e-8, "spin": 5.001e-5, "g": 5.001e-5, "param": 5.001e-5} if fmt == "txt" else None
        gen.same(w, got, wants["tb2j"], "converted", f"conversion to {fmt} after the refused commands", tol=tol, order=False, charges=fmt == "hdf5")
    if o.ok:
        now = tree(w)
        made = {"convert": [f"sub/last.{fmt}"], "minimise": ["sub/last-results", "sub/last-ferro-history"],
                "dispersion": ["sub/last.png", "sub/last_info.txt", "sub/last_data.txt"]}[last]
        w.check(sorted(set(now) - set(before)) == sorted(made), "files", f"{last} made {sorted(set(now) - set(before))} instead of {made}")
        for f in before:
            w.check(before[f] == now[f], "lost", f"{last} changed the file {f}")
        w.probe("right " + last)
    w.log(last, o.name())
    w.nontrivial = refused >= 2
