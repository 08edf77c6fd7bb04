"""Entry point of every check: prepares the process and hands over to the engine."""

import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
SRC = os.environ.get("VERIF_SRC", "/repo/src")
FLAG = "VERIF_SIM_READY"


def build():
    so = os.path.join(VERIF, "build", "simio.so")
    src = os.path.join(VERIF, "sim", "simio.c")
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        tmp = f"{so}.{os.getpid()}"
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", tmp, src, "-ldl"], check=True)
        os.replace(tmp, so)
    return so


if __name__ == "__main__":
    if "--build" in sys.argv:
        print(build())
        sys.exit(0)
    if os.environ.get(FLAG) != "1":
        env = dict(os.environ)
        env.update(
            {
                FLAG: "1",
                "LD_PRELOAD": build(),
                "PYTHONHASHSEED": env.get("VERIF_HASHSEED", "0"),
                "PYTHONDONTWRITEBYTECODE": "1",
                "PYTHONPATH": SRC + os.pathsep + VERIF,
                "OMP_NUM_THREADS": "1",
                "OPENBLAS_NUM_THREADS": "1",
                "MKL_NUM_THREADS": "1",
                "MPLBACKEND": "Agg",
                "VERIF_SRC": SRC,
                "PYTHONWARNINGS": "ignore",
                "LC_ALL": "C.UTF-8",
                "TZ": "UTC",
            }
        )
        env.pop("PYTHONSTARTUP", None)
        os.execve(PYTHON, [PYTHON, os.path.abspath(__file__)] + sys.argv[1:], env)

    # the sub-processes of the engine start without the marker
    os.environ[FLAG] = ""
    sys.path.insert(0, VERIF)
    sys.path.insert(0, SRC)
    import matplotlib.pyplot  # noqa: F401  third-party code keeps the ordinary locks
    import numpy  # noqa: F401
    import scipy.linalg  # noqa: F401
    import h5py  # noqa: F401
    import wulfric  # noqa: F401

    from sim import engine, sched

    sched.install_locks()
    import magnopy

    if not os.path.abspath(magnopy.__file__).startswith(SRC):
        print("magnopy is not imported from the working tree:", magnopy.__file__)
        sys.exit(2)
    code = engine.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
