"""Seeded search, isolation of runs, minimisation, replay and evidence."""

import gc
import hashlib
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import disk, sched

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 240  # seconds of CPU of one run (a run needs about one)
WALL_LIMIT = 800


class Violation(Exception):
    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


def child_seed(*parts):
    return int.from_bytes(
        hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:8], "big"
    )


class World:
    """One simulated world: volume, log of events, counters of what was reached."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.vol = os.path.join(scratch, "vol")
        self.out = os.path.join(scratch, "out")  # inspection area, outside of the volume
        os.mkdir(self.vol)
        os.mkdir(self.out)
        self.events = hashlib.sha256()
        self.nevents = 0
        self.tail = []
        self.faults = {}
        self.probes = {}
        self.steps = 0
        self.interleavings = set()
        self.states = set()
        self.nontrivial = False
        disk.attach(self.vol)

    # ------------------------------------------------------------- recording
    def log(self, *what):
        line = " ".join(str(x) for x in what)
        self.events.update(line.encode("utf-8", "replace") + b"\n")
        self.nevents += 1
        self.tail.append(line[:300])
        if len(self.tail) > 60:
            self.tail.pop(0)

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n
            self.nontrivial = True

    def probe(self, name, n=1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *what):
        self.states.add(hashlib.sha256(repr(what).encode()).hexdigest()[:12])

    def path(self, *names):
        return os.path.join(self.vol, *names)

    # --------------------------------------------------------------- helpers
    def fail(self, kind, message):
        raise Violation(kind, message)

    def check(self, cond, kind, message):
        if not cond:
            raise Violation(kind, message)

    def counted(self, fn):
        """Run fn without faults, return (outcome, operations of the volume per class)."""
        disk.clear()
        disk.reset_counts()
        out = outcome(fn)
        c = disk.counts()
        return out, c

    def with_faults(self, fn, faults, counted):
        """Run fn under the armed disk faults, return (outcome, number of fired faults)."""
        disk.clear()
        disk.reset_counts()
        handles = [(f, disk.arm(f, counted)) for f in faults]
        out = outcome(fn)
        fired = 0
        for f, h in handles:
            k = disk.fired(h)
            if k:
                self.fault(f"disk-{f['cls']}-{f['action']}" + (f"-{f['errno']}" if f.get("errno") else ""))
                fired += 1
        disk.clear()
        return out, fired

    def crashing(self, fn, fault, counted):
        """Run fn in a forked process that dies at the armed operation of the volume.

        Returns True if the process died at the crash point, False if it finished.
        """
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                disk.clear()
                disk.reset_counts()
                disk.arm(dict(fault, action="crash"), counted)
                outcome(fn)
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        died = os.WIFEXITED(status) and os.WEXITSTATUS(status) == disk.CRASHED
        if died:
            self.fault("process-crash")
        return died

    def isolated(self, fn):
        """Value of fn computed in a forked process (JSON-able)."""
        return in_child(fn)

    def interrupt(self, fn, spec):
        """Run fn twice: alone (its yield points are counted), then interrupted."""
        opc = bool(spec.get("opcodes"))
        _, _, n = sched.count_steps(fn, opc)
        self.steps += n
        if n == 0:
            return False, None, None, None
        pos = 1 + min(n - 1, n * spec["at"] // 1_000_000)
        delivered, where, r, e = sched.run_interrupted(fn, pos, spec["kind"], opc)
        if delivered:
            self.fault("interrupt-" + spec["kind"])
            self.log("interrupt", spec["kind"], where)
        if e is not None:
            # an interrupt right at the border of a with-block leaves the file to the garbage collector
            traceback.clear_frames(e.__traceback__)
            e = e.with_traceback(None)
            if disk.open_handles():
                gc.collect()
        return delivered, where, r, e


    def record_trace(self, trace):
        text = repr([t[1:] for t in trace])
        self.interleavings.add(hashlib.sha256(text.encode()).hexdigest()[:16])
        self.fault("preemption", len([t for t in trace if t[3] != "end"]))
        self.log("schedule", trace)

    def interleave(self, solo, tasks, switches, opcodes=False):
        """Run the tasks alone one by one (``solo``), then interleaved (``tasks``).

        Switches are [position in ppm of the steps of the solo runs, task].
        Returns (outcomes of the solo runs, outcomes of the interleaved tasks).
        """
        alone, steps = [], 0
        for fn in solo:
            r, e, n = sched.count_steps(lambda: outcome(fn), opcodes)
            if e is not None:
                raise e
            alone.append(r)
            steps += n
        self.steps += steps
        plan = sorted((1 + steps * at // 1_000_000, t) for at, t in switches)
        results, trace = sched.run_tasks([lambda fn=fn: outcome(fn) for fn in tasks], plan, opcodes)
        self.record_trace(trace)
        for r in results:
            if r.exc is not None:
                raise r.exc
        return alone, [r.value for r in results]


class Outcome:
    """What an operation did: value, or exception (kept without the traceback frames)."""

    def __init__(self, value=None, exc=None, held=0):
        self.value = value
        self.exc = exc
        self.held = held  # handles of the volume open when the operation was over

    @property
    def ok(self):
        return self.exc is None

    def name(self):
        return "ok" if self.exc is None else type(self.exc).__name__


def outcome(fn):
    try:
        v = fn()
        return Outcome(value=v, held=disk.open_handles())
    except Violation:
        raise
    except (Exception, KeyboardInterrupt) as e:
        held = disk.open_handles()
        return Outcome(exc=e, held=held)


def in_child(fn):
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            try:
                data = {"v": fn()}
            except Violation as e:
                data = {"violation": [e.kind, e.message]}
            with os.fdopen(wr, "w") as f:
                f.write(json.dumps(data))
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    data = json.loads(text)
    if "violation" in data:
        raise Violation(*data["violation"])
    return data["v"]


# ------------------------------------------------------------------ one run
def _summary(w):
    return {
        "digest": w.events.hexdigest()[:32],
        "nevents": w.nevents,
        "faults": w.faults,
        "probes": w.probes,
        "steps": w.steps,
        "interleavings": sorted(w.interleavings),
        "states": sorted(w.states),
        "nontrivial": bool(w.nontrivial),
        "tail": w.tail,
    }


UNUSABLE = (TypeError, AttributeError, LookupError, ValueError, ArithmeticError, AssertionError, FileNotFoundError)


def _through_magnopy(exc):
    tb = exc.__traceback__
    seen = False
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(sched.SRC):
            seen = True
        tb = tb.tb_next
    return seen


def _cpu(pid):
    """CPU time of the process group of the run, as the kernel counts it."""
    out = []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open(f"/proc/{p}/stat") as f:
                    x = f.read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if int(x[2]) == pid or int(p) == pid:
                out.append((int(p), x[11], x[12]))
    return sorted(out)


def run_scenario(module, scenario, base):
    """Execute one scenario in a forked process, return its record."""
    r, wr = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    scratch = tempfile.mkdtemp(dir=base)
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            null = os.open("/dev/null", os.O_RDWR)
            os.dup2(null, 0)
            os.dup2(null, 1)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(null, 2)
            w = World(scratch)
            disk.clock(1_700_000_000)  # every run starts at the same simulated time
            os.chdir(w.vol)
            rec = {"status": "ok"}
            try:
                module.execute(scenario, w)
            except Violation as e:
                rec = {"status": "violation", "kind": e.kind, "message": e.message}
            except BaseException as e:
                text = traceback.format_exc()
                if _through_magnopy(e):
                    rec = {
                        "status": "violation",
                        "kind": f"unexpected-{type(e).__name__}",
                        "message": f"operation raised {type(e).__name__}: {str(e)[:300]}\n{text[-1500:]}",
                    }
                elif isinstance(e, UNUSABLE):
                    # the simulator runs clean on sound values, so this one is not sound
                    rec = {
                        "status": "violation",
                        "kind": f"unusable-{type(e).__name__}",
                        "message": f"what magnopy handed out can not be used: {type(e).__name__}: {str(e)[:300]}\n{text[-1500:]}",
                    }
                else:
                    rec = {"status": "harness", "message": text}
            disk.detach()
            rec.update(_summary(w))
            data = json.dumps(rec).encode()
            while data:
                data = data[os.write(wr, data):]
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(wr)
    chunks = []
    idle, used, stuck = 0, None, False
    while True:
        if not select.select([r], [], [], 5)[0]:
            # neither result nor progress for half a minute: every thread waits for ever
            now = _cpu(pid)
            idle = idle + 1 if now == used else 0
            used = now
            if idle >= 6:
                stuck = True
                os.kill(pid, signal.SIGKILL)
                break
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        pass
    empty = {"digest": "", "nevents": 0, "faults": {}, "probes": {}, "steps": 0,
             "interleavings": [], "states": [], "nontrivial": False, "tail": []}
    if stuck:
        return {"status": "violation", "kind": "no-progress",
                "message": "every thread of the run waits and none goes on", **empty}
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU, signal.SIGKILL):
        return {"status": "violation", "kind": "no-progress",
                "message": f"the run did not finish within {CPU_LIMIT} s of CPU time", **empty}
    if os.WIFSIGNALED(status):
        return {"status": "violation", "kind": f"killed-by-signal-{os.WTERMSIG(status)}",
                "message": "the interpreter died", **empty}
    return {"status": "harness", "message": f"no result, status {status}", **empty}


# ------------------------------------------------------------- minimisation
def _get(obj, path):
    for p in path:
        if isinstance(obj, dict):
            if p not in obj:
                return None
        elif isinstance(obj, list):
            if not isinstance(p, int) or p >= len(obj):
                return None
        else:
            return None
        obj = obj[p]
    return obj


def _set(obj, path, value):
    obj = json.loads(json.dumps(obj))
    o = obj
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = value
    return obj


def _lists(scenario, patterns):
    """Concrete paths of the lists that may be shortened."""
    found = []

    def walk(obj, path, pattern):
        if not pattern:
            if isinstance(obj, list):
                found.append(tuple(path))
            return
        p, rest = pattern[0], pattern[1:]
        if p == "*":
            keys = range(len(obj)) if isinstance(obj, list) else (list(obj) if isinstance(obj, dict) else [])
            for k in keys:
                walk(obj[k], path + [k], rest)
        elif isinstance(obj, dict) and p in obj:
            walk(obj[p], path + [p], rest)

    for pattern in patterns:
        walk(scenario, [], pattern.split("."))
    return found


def minimise(module, scenario, record, base, budget=150, seconds=60):
    t0 = time.time()
    tries = 0
    kind = record["kind"]
    best, best_rec = scenario, record
    patterns = getattr(module, "SHRINK", ["ops", "faults"])
    progress = True
    while progress and tries < budget and time.time() - t0 < seconds:
        progress = False
        for path in _lists(best, patterns):
            cur = _get(best, path)
            if not isinstance(cur, list) or not cur:
                continue
            size = len(cur)
            while size >= 1:
                i = 0
                while True:
                    cur = _get(best, path)
                    if cur is None or i >= len(cur):
                        break
                    if tries >= budget or time.time() - t0 > seconds:
                        return best, best_rec, tries
                    cand = _set(best, path, cur[:i] + cur[i + size:])
                    tries += 1
                    if hasattr(module, "valid") and not module.valid(cand):
                        i += size
                        continue
                    rec = run_scenario(module, cand, base)
                    if rec["status"] == "violation" and rec["kind"] == kind:
                        best, best_rec = cand, rec
                        progress = True
                    else:
                        i += size
                size //= 2
    return best, best_rec, tries


# -------------------------------------------------------------------- search
def _worker(module, tier, seed, indices, base, wfd, stop_path, deadline):
    with os.fdopen(wfd, "w") as out:
        for i in indices:
            if os.path.exists(stop_path) or time.time() > deadline:
                break
            rng = random.Random(child_seed(seed, module.PROPERTY, i))
            scenario = module.generate(rng, tier)
            scenario = json.loads(json.dumps(scenario))
            t0 = time.time()
            rec = run_scenario(module, scenario, base)
            rec["index"] = i
            rec["secs"] = time.time() - t0
            if rec["status"] != "ok":
                rec["scenario"] = scenario
                open(stop_path, "w").close()
            elif i < 3:
                rec["scenario"] = scenario
            out.write(json.dumps(rec) + "\n")
            out.flush()
    os._exit(0)


def search(module, tier, seed, runs, workers, base, deadline):
    stop_path = os.path.join(base, "stop")
    pipes = []
    for k in range(workers):
        r, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for rr, _ in pipes:
                os.close(rr)
            try:
                _worker(module, tier, seed, range(k, runs, workers), base, wfd, stop_path, deadline)
            except BaseException:
                traceback.print_exc()
                os._exit(4)
        os.close(wfd)
        pipes.append((r, pid))
    records = []
    failed = False
    bufs = {r: b"" for r, _ in pipes}
    live = set(bufs)
    while live:
        ready, _, _ = select.select(list(live), [], [], 5)
        for r in ready:
            b = os.read(r, 1 << 16)
            if not b:
                live.discard(r)
                os.close(r)
            else:
                bufs[r] += b
    for _, pid in pipes:
        _, st = os.waitpid(pid, 0)
        failed = failed or st != 0
    for data in bufs.values():
        for line in data.decode().splitlines():
            records.append(json.loads(line))
    if os.path.exists(stop_path):
        os.unlink(stop_path)
    records.sort(key=lambda x: x["index"])
    return records, failed


# ------------------------------------------------------------------ evidence
def _merge(records, key):
    out = {}
    for r in records:
        for k, v in r[key].items():
            out[k] = out.get(k, 0) + v
    return dict(sorted(out.items()))


def write_evidence(module, tier, seed, records, wall, violations, extra):
    nontrivial = {r["digest"] for r in records if r["nontrivial"]}
    inter = set()
    states = set()
    for r in records:
        inter.update(r["interleavings"])
        states.update(r["states"])
    samples = [r["scenario"] for r in records if "scenario" in r][:2]
    cov = {
        "evaluations": len(records),
        "distinct_nontrivial": len(nontrivial),
        "rule": module.RULE,
        "samples": samples or ["none"],
        "seeds": f"{len(records)} run seeds derived from VERIF_SEED={seed}",
        "runs_per_hour": int(len(records) / max(wall, 1e-3) * 3600),
        "scheduler_steps": sum(r["steps"] for r in records),
        "simulated_time": "magnopy has no timers; time is counted in scheduler steps "
        "(lines of magnopy executed under the scheduler) and logged events",
        "logged_events": sum(r["nevents"] for r in records),
        "faults_injected": _merge(records, "faults"),
        "probes": _merge(records, "probes"),
        "distinct_interleavings": len(inter),
        "distinct_states": len(states),
        "real_components": module.REAL if hasattr(module, "REAL") else
        ["magnopy (working tree of /repo)", "numpy, scipy, wulfric, h5py and libhdf5", "CPython io stack"],
        "stubs": module.STUBS if hasattr(module, "STUBS") else
        ["disk below the system calls (LD_PRELOAD shim decides faults)", "thread scheduler"],
    }
    cov.update(extra)
    ev = {
        "property": module.PROPERTY,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{module.PROPERTY}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


# ----------------------------------------------------------- known findings
def known_findings(prop):
    """Findings of this property that are recorded rather than repaired."""
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.jsonl")) as f:
            for line in f:
                line = line.strip()
                if line:
                    rec = json.loads(line)
                    if rec.get("status") == "known" and rec.get("property") == prop:
                        out.append(rec)
    except FileNotFoundError:
        pass
    return out


# ---------------------------------------------------------------------- main
def load_check(prop):
    return importlib.import_module(f"checks.{prop.lower()}")


def replay(path, base):
    with open(path) as f:
        rep = json.load(f)
    module = load_check(rep["property"])
    rec = run_scenario(module, rep["scenario"], base)
    print(f"replay: status={rec['status']} kind={rec.get('kind')} digest={rec['digest']} (recorded {rep['digest']})")
    if rec.get("message"):
        print(rec["message"])
    if rec["status"] == "violation":
        print(f"VIOLATION property={rep['property']} replay={path}")
        same = rec["kind"] == rep["kind"] and rec["digest"] == rep["digest"]
        print("replay: reproduced exactly" if same else "replay: DIFFERENT failure")
        return 1
    return 0 if rec["status"] == "ok" else 2


def report(module, seed, rec, base):
    scenario = rec["scenario"]
    best, best_rec, tries = minimise(module, scenario, rec, base)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    name = hashlib.sha256(json.dumps(best, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(VERIF, "replays", f"{module.PROPERTY}-{name}.json")

    def dump(sc, r):
        with open(path, "w") as f:
            json.dump(
                {
                    "property": module.PROPERTY,
                    "kind": r["kind"],
                    "message": r["message"],
                    "seed": seed,
                    "index": rec["index"],
                    "digest": r["digest"],
                    "events": r["tail"],
                    "scenario": sc,
                },
                f,
                indent=1,
            )

    dump(best, best_rec)
    p = subprocess.run(
        [sys.executable, os.path.join(VERIF, "run.py"), "--replay", path],
        capture_output=True, text=True,
    )
    note = "replayed in a fresh process: "
    if p.returncode == 1 and "reproduced exactly" in p.stdout:
        note += "reproduced exactly"
    else:
        note += "not the same; the unreduced run is kept"
        dump(scenario, rec)
    print(f"{module.PROPERTY}: {best_rec['kind']}: {best_rec['message']}")
    print(f"seed={seed} run={rec['index']} minimised with {tries} runs; {note}")
    print(f"VIOLATION property={module.PROPERTY} replay={path}")


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--digests", help="write the digest of every run to this file")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args(argv)

    if not disk.PRESENT:
        print("the simulated volume is not loaded")
        return 2
    base = tempfile.mkdtemp(prefix="magnopy-sim-", dir=os.environ.get("VERIF_SCRATCH") or None)
    os.environ["MPLCONFIGDIR"] = os.path.join(base, "mpl")
    os.mkdir(os.environ["MPLCONFIGDIR"])
    try:
        if args.replay:
            return replay(os.path.abspath(args.replay), base)
        module = load_check(args.property)
        t0 = time.time()
        runs = args.runs or module.RUNS[args.tier]
        wall = WALL_LIMIT if args.tier == "quick" else 6 * 3600
        records, failed = search(module, args.tier, args.seed, runs, args.workers, base, t0 + wall)
        bad = [r for r in records if r["status"] == "violation"]
        harness = [r for r in records if r["status"] == "harness"]

        known = known_findings(args.property)
        for k in known:
            print(f"KNOWN-FINDING: property={args.property} {k['what']}")

        # the same seeds once more, in fresh processes: the event logs have to agree
        sample = [r for r in records if r["status"] == "ok"][:: max(1, len(records) // 8)][:8]
        same = 0
        for r in sample:
            rng = random.Random(child_seed(args.seed, module.PROPERTY, r["index"]))
            sc = json.loads(json.dumps(module.generate(rng, args.tier)))
            same += run_scenario(module, sc, base)["digest"] == r["digest"]
        extra = {"determinism_recheck": f"{same} of {len(sample)} runs repeated with the same event log"}

        if args.digests:
            with open(args.digests, "w") as f:
                for r in records:
                    f.write(f"{r['index']} {r['status']} {r['digest']} {r['nevents']}\n")
        if bad:
            report(module, args.seed, bad[0], base)
        if not args.no_evidence:
            write_evidence(module, args.tier, args.seed, records, time.time() - t0, len(bad), extra)
        print(
            f"{args.property} {args.tier}: {len(records)} of {runs} runs, {len(bad)} violations, "
            f"{time.time() - t0:.1f} s, faults {_merge(records, 'faults')}, probes {_merge(records, 'probes')}, "
            f"slowest run {max((r['secs'] for r in records), default=0):.1f} s, {extra['determinism_recheck']}"
        )
        if bad:
            return 1
        if harness or failed:
            for h in harness[:1]:
                print("harness error:", h["message"])
            return 2
        if len(records) < runs:
            print("the time limit was reached before all runs were done")
            return 2
        return 0
    finally:
        shutil.rmtree(base, ignore_errors=True)
