"""Control of the simulated volume (sim/simio.c)."""

import ctypes
import errno
import os

CLASSES = {
    "open": 0, "openw": 1, "read": 2, "write": 3, "close": 4, "trunc": 5,
    "sync": 6, "rename": 7, "unlink": 8, "mkdir": 9, "lock": 10, "mut": 11,
}
ACTIONS = {"err": 1, "full": 2, "short": 3, "crash": 4}
CRASHED = 137

_lib = ctypes.CDLL(None)
try:
    _lib.sim_attach
    PRESENT = True
except AttributeError:
    PRESENT = False

if PRESENT:
    _lib.sim_count.restype = ctypes.c_long
    _lib.sim_fired.restype = ctypes.c_long
    _lib.sim_log.restype = ctypes.c_size_t
    _lib.sim_escapes.restype = ctypes.c_size_t
    _lib.sim_clock.argtypes = [ctypes.c_longlong, ctypes.c_longlong]
    _lib.sim_clock_reads.restype = ctypes.c_long
    _lib.sim_plan.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int]


def attach(root):
    _lib.sim_attach(os.fsencode(root))


def detach():
    _lib.sim_detach()


def reset_counts():
    _lib.sim_reset_counts()


def counts():
    return {name: _lib.sim_count(i) for name, i in CLASSES.items()}


def clear():
    _lib.sim_clear()


def arm(fault, counted):
    """Arm one fault.

    ``fault``: {"cls", "at" (parts per million of the operations of this class seen in
    the fault-free run), "action", "errno", "part" (ppm, torn or short fraction)}.
    Returns the handle for fired(), or None if there is no such operation to hit.
    """
    n = counted.get(fault["cls"], 0)
    if n == 0:
        return None
    nth = 1 + min(n - 1, n * fault["at"] // 1_000_000)
    code = getattr(errno, fault.get("errno") or "EIO")
    return _lib.sim_plan(
        CLASSES[fault["cls"]], nth, ACTIONS[fault["action"]], code, fault.get("part", 500_000)
    )


def fired(handle):
    return 0 if handle is None else _lib.sim_fired(handle)


def log():
    buf = ctypes.create_string_buffer(1 << 20)
    n = _lib.sim_log(buf, 1 << 20)
    return buf.raw[: min(n, 1 << 20)].decode("utf-8", "replace")


def clear_log():
    _lib.sim_log_clear()


def escapes():
    buf = ctypes.create_string_buffer(1 << 14)
    n = _lib.sim_escapes(buf, 1 << 14)
    return [x for x in buf.raw[:n].decode("utf-8", "replace").split("\n") if x]


def open_handles():
    return _lib.sim_open_fds()


# ------------------------------------------------------------------ wall clock
def clock(seconds, tick=1000):
    """From now on the wall clock shows ``seconds`` and advances by ``tick`` ns per reading."""
    _lib.sim_clock(int(seconds * 1_000_000_000), tick)


def clock_reads():
    return _lib.sim_clock_reads()
