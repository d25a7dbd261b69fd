"""Generated equivalent-source workloads, and a plain numpy model of them."""

import numpy as np


def gen_spec(rng, kind, n=None):
    """kind: cart, gb or sph. All JSON."""
    n = n or rng.pick([1, 2, 3, 5, 6, 9, 12, 16, 20, 30])
    spec = dict(kind=kind, n=n, seed=rng.getrandbits(32), damping=rng.pick([None, 1e-3, 0.1, 10.0]),
                points=rng.pick([None, None, "custom"]), weights=rng.chance(0.4), shape2d=n % 2 == 0 and rng.chance(0.3))
    if kind == "sph":
        spec["depth"] = rng.pick([500, 2e4, 3e5])
    else:
        spec["depth"] = rng.pick(["default", 15.0, 60.0]) if n >= 4 else rng.pick([15.0, 60.0])
        spec["block"] = rng.pick([None, None, 40.0]) if n >= 4 else None
        spec["dtype"] = "float64"
    if kind == "gb":
        spec["window"] = rng.pick(["default", 0.3, 0.5, 0.95]) if n >= 4 else "default"
        spec["state"] = rng.randrange(1000)
    return spec


def data_of(spec, salt=0):
    """(coordinates, data, weights) of a spec; ``salt`` gives other data."""
    r = np.random.default_rng([spec["seed"], salt])
    n = spec["n"]
    if n > 1000:
        n += salt % 3 * 700
    if spec["kind"] == "sph":
        c = [r.uniform(-20, 20, n), r.uniform(-30, 30, n), r.uniform(6.38e6, 6.40e6, n)]
        d = r.normal(size=n) * 10
    else:
        c = [r.uniform(-100, 100, n) + 7 * salt, r.uniform(-80, 80, n), r.uniform(0, 20, n)]
        d = r.normal(size=n) * 10
    w = r.uniform(0.5, 2, n) if spec["weights"] else None
    if spec["shape2d"]:
        c = [x.reshape(2, -1) for x in c]
        d = d.reshape(2, -1)
        w = None if w is None else w.reshape(2, -1)
    return tuple(c), d, w


def custom_points(spec):
    r = np.random.default_rng([spec["seed"], 99])
    m = max(1, spec["n"] // 2) if spec["n"] < 1000 else 2
    if spec["kind"] == "sph":
        return (r.uniform(-20, 20, m), r.uniform(-30, 30, m), r.uniform(6.30e6, 6.36e6, m))
    return (r.uniform(-100, 100, m), r.uniform(-80, 80, m), r.uniform(-80, -20, m))


def make(spec, parallel=True):
    import harmonica as hm

    points = custom_points(spec) if spec["points"] else None
    if spec["kind"] == "sph":
        return hm.EquivalentSourcesSph(damping=spec["damping"], points=points, relative_depth=spec["depth"], parallel=parallel)
    kw = dict(damping=spec["damping"], points=points, depth=spec["depth"], block_size=spec["block"],
              parallel=parallel, dtype=spec["dtype"])
    if spec["kind"] == "gb":
        window = spec["window"]
        if window != "default":
            c = [data_of(spec, salt)[0] for salt in range(4)]
            window = float(window * min(min(np.ptp(x[0]), np.ptp(x[1])) for x in c))
        return hm.EquivalentSourcesGB(window_size=window, random_state=spec["state"], **kw)
    return hm.EquivalentSources(**kw)


def targets(spec, n, salt=0):
    r = np.random.default_rng([spec["seed"], 55, salt])
    if spec["kind"] == "sph":
        c = (r.uniform(-20, 20, n), r.uniform(-30, 30, n), r.uniform(6.41e6, 6.45e6, n))
    else:
        c = (r.uniform(-120, 120, n), r.uniform(-90, 90, n), r.uniform(25, 60, n))
    return c


def np_green(kind, coords, points):
    c = [np.asarray(x, dtype=float).ravel()[:, None] for x in coords[:3]]
    p = [np.asarray(x, dtype=float).ravel()[None, :] for x in points[:3]]
    if kind == "sph":
        def xyz(lon, lat, r):
            lon, lat = np.radians(lon), np.radians(lat)
            return r * np.cos(lat) * np.cos(lon), r * np.cos(lat) * np.sin(lon), r * np.sin(lat)
        c, p = xyz(*c), xyz(*p)
    return 1 / np.sqrt(sum((a - b) ** 2 for a, b in zip(c, p)))


def shrink_spec(spec):
    for n in (1, 2, 4, spec["n"] // 2, spec["n"] - 1):
        if 0 < n < spec["n"] and (n >= 4 or (spec["depth"] != "default" and not spec.get("block") and spec.get("window", "default") == "default")):
            yield dict(spec, n=n, shape2d=False)
    for k, v in dict(points=None, weights=False, shape2d=False, block=None, damping=0.1, window="default", dtype="float64").items():
        if k in spec and spec[k] != v:
            yield dict(spec, **{k: v})
    if spec["kind"] != "sph" and spec["depth"] == "default":
        yield dict(spec, depth=15.0)
