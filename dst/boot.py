"""Brings up the code under test inside the simulator."""

import ctypes
import hashlib
import os
import pathlib
import subprocess
import sys
import types

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
SRC = REPO / "src"
BUILD = pathlib.Path(os.environ.get("VERIF_BUILD", VERIF / "build"))
NUM_THREADS = 16


def base_env(jit=True, hashseed="0"):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("NUMBA_", "PYTHON"))}
    env.update(
        HOME=os.environ.get("HOME", "/root"),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED=hashseed,
        PYTHONPATH=str(VERIF),
        PYTHONWARNINGS="ignore",
        MPLBACKEND="agg",
        NUMBA_NUM_THREADS=str(NUM_THREADS),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        TQDM_DISABLE="0",
    )
    if not jit:
        env["NUMBA_DISABLE_JIT"] = "1"
    return env


def python():
    p = pathlib.Path("/opt/venv/bin/python")
    return str(p) if p.exists() else sys.executable


def build_c(name, *flags):
    """Compile dst/csrc/<name>.c once per source content."""
    src = HERE / "csrc" / f"{name}.c"
    tag = hashlib.sha256(src.read_bytes() + repr(flags).encode()).hexdigest()[:12]
    out = BUILD / f"{name}-{tag}.so"
    if not out.exists():
        BUILD.mkdir(parents=True, exist_ok=True)
        tmp = BUILD / f".{name}-{tag}-{os.getpid()}.so"
        subprocess.run(
            ["gcc", "-O2", "-shared", "-fPIC", str(src), "-o", str(tmp), *flags], check=True
        )
        os.replace(tmp, out)
    return out


def import_harmonica():
    if str(SRC) not in sys.path[:1]:
        sys.path.insert(0, str(SRC))
    if not (SRC / "harmonica" / "_version.py").exists():
        stub = types.ModuleType("harmonica._version")
        stub.__version__ = "0.7.0"
        stub.version = "0.7.0"
        sys.modules["harmonica._version"] = stub
    import warnings

    warnings.simplefilter("ignore")
    import harmonica

    where = pathlib.Path(harmonica.__file__).resolve()
    if SRC.resolve() not in where.parents:
        raise RuntimeError(f"imported harmonica from {where}, not from {SRC}")
    return harmonica


_libc = ctypes.CDLL(None)


def perturb(byte):
    """Fill pattern of fresh heap memory (0 turns it off)."""
    _libc.mallopt(ctypes.c_int(-6), ctypes.c_int(byte))
