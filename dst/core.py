"""Seeded randomness, result records, value digests and comparisons."""

import hashlib
import json
import math
import random


class Rng(random.Random):
    """The only source of randomness of the machinery.

    Built from a chain of labels, so every decision is a pure function of
    VERIF_SEED and of where it is made.
    """

    def __new__(cls, *labels):
        return super().__new__(cls)

    def __init__(self, *labels):
        text = "/".join(str(x) for x in labels)
        super().__init__(int.from_bytes(hashlib.sha256(text.encode()).digest()[:16], "big"))

    def chance(self, p):
        return self.random() < p

    def logint(self, low, high):
        """Integer in [low, high], uniform in logarithm."""
        return int(round(math.exp(self.uniform(math.log(low), math.log(high)))))

    def pick(self, items):
        return items[self.randrange(len(items))]

    def some(self, items, low=0, high=None):
        items = list(items)
        high = len(items) if high is None else high
        return self.sample(items, self.randint(low, min(high, len(items))))


class Violation(Exception):
    """The property is broken. ``cls`` is what must stay equal on minimisation."""

    def __init__(self, cls, detail=""):
        super().__init__(f"{cls}: {detail}")
        self.cls = cls
        self.detail = detail


class Harness(Exception):
    """The machinery itself failed; never reported as a violation."""


class Stats(dict):
    def add(self, key, n=1):
        self[key] = self.get(key, 0) + n

    def merge(self, other):
        for k, v in other.items():
            if k.startswith("max_"):
                self[k] = max(self.get(k, 0), v)
            else:
                self[k] = self.get(k, 0) + v


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode() if not isinstance(p, bytes) else p)
        h.update(b"\0")
    return h.hexdigest()[:20]


def dump(obj):
    return json.dumps(obj, sort_keys=True, separators=(",", ":"))


# ---------------------------------------------------------------- snapshots
def freeze(obj, depth=0):
    """A hashable, bit-exact picture of a value (arrays, xarray, containers)."""
    import numpy as np

    if depth > 12:
        return ("deep", type(obj).__name__)
    if obj is None or isinstance(obj, (bool, int, str, bytes)):
        return obj if not isinstance(obj, bool) else ("bool", obj)
    if isinstance(obj, float):
        return ("f", np.float64(obj).tobytes())
    if isinstance(obj, complex):
        return ("c", np.complex128(obj).tobytes())
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return ("oa", obj.shape, tuple(freeze(o, depth + 1) for o in obj.ravel().tolist()))
        return ("a", obj.shape, obj.dtype.str, np.ascontiguousarray(obj).tobytes())
    if isinstance(obj, np.generic):
        return ("g", obj.dtype.str, obj.tobytes())
    mod = type(obj).__module__.split(".")[0]
    name = type(obj).__name__
    if mod == "xarray" and name == "Variable":
        return ("xv", obj.dims, freeze(np.asarray(obj.values)), freeze(dict(obj.attrs), depth + 1))
    if mod == "xarray" and name == "DataArray":
        return (
            "xda", obj.name, freeze(obj.variable, depth + 1),
            tuple((str(k), freeze(obj.coords[k].variable, depth + 1)) for k in sorted(obj.coords, key=str)),
        )
    if mod == "xarray" and name == "Dataset":
        return (
            "xds", freeze(dict(obj.attrs), depth + 1),
            tuple((str(k), freeze(obj.variables[k], depth + 1)) for k in sorted(obj.variables, key=str)),
            tuple(sorted(str(k) for k in obj.coords)),
        )
    if mod == "xarray" and name in ("IndexVariable",):
        return ("xv", obj.dims, freeze(np.asarray(obj.values)), freeze(dict(obj.attrs), depth + 1))
    if mod == "pandas":
        import pandas as pd

        if isinstance(obj, pd.DataFrame):
            return ("df", tuple(obj.columns), freeze(obj.index.to_numpy()),
                    tuple(freeze(obj[c].to_numpy(), depth + 1) for c in obj.columns))
        if isinstance(obj, (pd.Series, pd.Index)):
            return ("pd", obj.name, freeze(obj.to_numpy(), depth + 1))
    if isinstance(obj, dict):
        return ("d", tuple((freeze(k, depth + 1), freeze(v, depth + 1)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(freeze(v, depth + 1) for v in obj))
    if isinstance(obj, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, obj))))
    if callable(obj):
        return ("fn", getattr(obj, "__name__", name))
    if hasattr(obj, "__dict__"):
        return ("o", name, tuple((k, freeze(v, depth + 1)) for k, v in sorted(vars(obj).items())))
    return ("r", name, repr(obj))


def equal_values(a, b, rtol=1e-9, atol=0.0, path=""):
    """None when two results agree (floats to rounding), else where they differ."""
    import numpy as np

    moda, modb = type(a).__module__.split(".")[0], type(b).__module__.split(".")[0]
    if moda == "xarray" or modb == "xarray":
        if type(a) is not type(b):
            return f"{path}: {type(a).__name__} vs {type(b).__name__}"
        if type(a).__name__ == "Dataset":
            if set(map(str, a.variables)) != set(map(str, b.variables)):
                return f"{path}: variables {sorted(map(str, a.variables))} vs {sorted(map(str, b.variables))}"
            for k in a.variables:
                r = equal_values(a.variables[k], b.variables[k], rtol, atol, f"{path}.{k}")
                if r:
                    return r
            return equal_values(dict(a.attrs), dict(b.attrs), rtol, atol, path + ".attrs")
        if type(a).__name__ == "DataArray":
            if a.name != b.name:
                return f"{path}: name {a.name!r} vs {b.name!r}"
            if set(map(str, a.coords)) != set(map(str, b.coords)):
                return f"{path}: coords {sorted(map(str, a.coords))} vs {sorted(map(str, b.coords))}"
            for k in a.coords:
                r = equal_values(a.coords[k].variable, b.coords[k].variable, rtol, atol, f"{path}.{k}")
                if r:
                    return r
            return equal_values(a.variable, b.variable, rtol, atol, path)
        if tuple(a.dims) != tuple(b.dims):
            return f"{path}: dims {a.dims} vs {b.dims}"
        r = equal_values(dict(a.attrs), dict(b.attrs), rtol, atol, path + ".attrs")
        return r or equal_values(np.asarray(a.values), np.asarray(b.values), rtol, atol, path)
    if moda == "pandas" or modb == "pandas":
        return None if freeze(a) == freeze(b) else f"{path}: pandas objects differ"
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not isinstance(b, (list, tuple)) or not isinstance(a, (list, tuple)) or len(a) != len(b):
            return f"{path}: {type(a).__name__} vs {type(b).__name__} or lengths differ"
        for i, (x, y) in enumerate(zip(a, b)):
            r = equal_values(x, y, rtol, atol, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(a, dict) or isinstance(b, dict):
        if not isinstance(a, dict) or not isinstance(b, dict) or set(a) != set(b):
            return f"{path}: dicts differ in keys"
        for k in a:
            r = equal_values(a[k], b[k], rtol, atol, f"{path}[{k!r}]")
            if r:
                return r
        return None
    if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return None if a is b or (type(a) is type(b) and a == b) else f"{path}: {a!r} vs {b!r}"
    if isinstance(a, (np.ndarray, np.generic, float, int, complex)):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return f"{path}: shape {x.shape} vs {y.shape}"
        if x.dtype.kind in "OUSMm" or y.dtype.kind in "OUSMm":
            return None if freeze(x) == freeze(y) else f"{path}: {x} vs {y}"
        return close_arrays(x, y, rtol, atol, path)
    return None if freeze(a) == freeze(b) else f"{path}: objects differ"


def close_arrays(x, y, rtol, atol=0.0, path="", scale=None):
    """Compare with a tolerance relative to the largest reference magnitude."""
    import numpy as np

    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return f"{path}: shape {x.shape} vs {y.shape}"
    if x.size == 0:
        return None
    x, y = x.astype(complex if "c" in (x.dtype.kind, y.dtype.kind) else float), y.astype(
        complex if "c" in (x.dtype.kind, y.dtype.kind) else float)
    bad = np.isnan(x) != np.isnan(y)
    inf = ~np.isfinite(x) | ~np.isfinite(y)
    with np.errstate(all="ignore"):
        fin = ~inf
        if scale is None:
            scale = np.max(np.abs(y[fin])) if fin.any() else 0.0
        bad |= inf & ~np.isnan(x) & ~np.isnan(y) & (x != y)
        diff = np.where(fin, np.abs(np.where(fin, x, 0) - np.where(fin, y, 0)), 0.0)
    bad |= diff > rtol * scale + atol
    if not bad.any():
        return None
    i = tuple(int(v) for v in np.argwhere(bad)[0]) if x.ndim else ()
    return f"{path}{list(i)}: {x[i]!r} vs {y[i]!r} (scale {float(scale):.3g}, {int(bad.sum())}/{x.size} differ)"
