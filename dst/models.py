"""Generated forward-modelling workloads: JSON spec -> inputs -> call."""

import functools

from .core import Rng

PG = ["potential", "g_e", "g_n", "g_z", "g_ee", "g_nn", "g_zz", "g_en", "g_ez", "g_nz"]
PG_ALIAS = ["g_ne", "g_ze", "g_zn"]
B = ["b", "b_e", "b_n", "b_u"]
FAMILIES = dict(
    pg=PG + PG_ALIAS, ps=["potential", "g_z"], dip=B, prg=PG, prm=B,
    tg=["potential", "g_z"], tgv=["potential", "g_z"], pl=PG, tl=["potential", "g_z"],
)
PROGRESS = ("prg", "prm", "dip", "tg", "tgv", "pl", "tl")
SPHERICAL = ("ps", "tg", "tgv", "tl")
KINDS = ["array", "array", "array", "2d", "list", "noncontig", "scalar", "int", "3d"]


def gen_spec(rng, fam, field=None, big=True, kinds=KINDS, max_pts=None):
    field = field or rng.pick(FAMILIES[fam])
    if fam in ("tg", "tgv", "tl"):
        npts = rng.pick([1, 2, 3, 5, 7, 8, 13, 20])
        nsrc = rng.pick([1, 1, 2, 3, 4])
        if big and rng.chance(0.1):
            npts = rng.pick([33, 64, 100])
    elif fam == "pl":
        npts = rng.pick([1, 2, 3, 5, 8, 17, 32])
        nsrc = rng.pick([2, 3, 4])
    else:
        npts = rng.pick([1, 2, 3, 4, 5, 7, 8, 13, 16, 17, 31, 50])
        nsrc = rng.pick([1, 1, 2, 3, 5, 8, 16])
        if big and rng.chance(0.2):
            npts = rng.pick([64, 100, 128, 257, 500, 1000, 1025, 3000])
            nsrc = rng.pick([1, 2, 3, 20])
    kind = rng.pick(kinds)
    if big and fam not in ("tg", "tgv", "tl", "pl"):
        extreme = rng.random()
        if extreme < 0.03:  # past any plausible block size
            npts, nsrc, kind = rng.pick([4097, 8193, 10007, 16411, 20011, 66000]), rng.pick([1, 2]), "array"
        elif extreme < 0.06:  # far more sources than points
            npts, nsrc, kind = rng.pick([1, 2, 3, 5]), rng.pick([300, 1025, 3000, 9000]), "array"
    if big and fam in ("tg", "tgv", "tl") and rng.chance(0.1):
        npts, nsrc, kind = rng.pick([128, 140, 256, 260, 512, 520, 1024, 1030]), rng.pick([1, 2]), "array"
    if max_pts:
        npts = min(npts, max_pts)
    if kind == "scalar":
        npts = 1
    if kind == "2d" and npts > 1:
        npts += npts % 2
    if kind == "3d":
        npts = max(4, npts - npts % 4)
    spec = dict(fam=fam, field=field, npts=npts, nsrc=nsrc, kind=kind, seed=rng.getrandbits(32))
    if rng.chance(0.35):
        spec["layout"] = rng.pick(["runs", "runs", "same", "grid", "sorted", "profile", "clusters", "clusters"])
    if rng.chance(0.12):
        spec["bodies"] = rng.pick(["null", "some-null", "repeated"])
    if fam in ("tg", "tgv"):
        spec["radial"] = rng.chance(0.3)
        spec["near"] = rng.chance(0.6)
    if fam == "tgv":
        spec["dens"] = rng.pick(["lin", "exp"])
    if fam in ("tl", "pl"):
        spec["nan"] = rng.chance(0.3)
        if rng.chance(0.35):
            spec["thin"] = rng.pick([0.0, 0.3, 0.6, 2.0])
        spec["prop"] = rng.pick(["density", "density", "rho"])
    if fam not in ("pl", "tl") and rng.chance(0.08):
        spec["dtype"] = "float32"
    if rng.chance(0.4) and "dtype" not in spec:
        spec["place"] = rng.pick(["far", "mixed", "turn"] if fam in SPHERICAL else ["far", "mixed", "utm"])
    return spec


@functools.lru_cache(None)
def density_function(name):
    import numba
    import numpy as np

    if name == "lin":
        @numba.njit
        def density(radius):
            return 3000.0 - 2.0e-3 * (radius - 6.0e6)
    else:
        @numba.njit
        def density(radius):
            return 2000.0 + 900.0 * np.exp(-(radius - 6.0e6) / 2.0e4)
    return density


def rows_of(n):
    """Rows of the squarest grid of n nodes."""
    return max(k for k in range(1, int(n ** 0.5) + 1) if n % k == 0)


def as_kind(arrays, kind):
    import numpy as np

    if kind == "2d":
        return tuple(a.reshape((rows_of(a.size), -1) if a.size > 11 else (-1, 2) if a.size % 2 == 0 else (1, -1)) for a in arrays)
    if kind == "3d":
        return tuple(a.reshape((2, 2, -1)) for a in arrays)
    if kind == "list":
        return [a.tolist() for a in arrays]
    if kind == "noncontig":
        return tuple(np.repeat(a, 2)[::2] for a in arrays)
    if kind == "fortran":
        return tuple(np.asfortranarray(a.reshape((-1, 2) if a.size % 2 == 0 else (1, -1))) for a in arrays)
    if kind == "scalar":
        return tuple(float(a[0]) for a in arrays)
    if kind == "int":
        return tuple(np.round(a).astype(int) for a in arrays)
    if kind == "readonly":
        out = tuple(a.copy() for a in arrays)
        for a in out:
            a.flags.writeable = False
        return out
    return tuple(arrays)


def build(spec):
    """The inputs of a spec: dict(points=(3 flat arrays), body=..., ...)."""
    import numpy as np

    fam = spec["fam"]
    r = np.random.default_rng(spec["seed"])
    n, m = spec["npts"], spec["nsrc"]
    if fam in SPHERICAL:
        lon, lat = r.uniform(-16, 16, n), r.uniform(-16, 16, n)
        rad = 6.1e6 + (r.uniform(1e4, 6e4, n) if spec.get("near") else r.uniform(1e5, 4e5, n))
        pts = [lon, lat, rad]
    else:
        pts = [r.uniform(-200, 200, n), r.uniform(-200, 200, n), r.uniform(15, 120, n)]
    pts = arrange(pts, spec.get("layout"), r)
    if spec["kind"] == "int":
        pts = [np.round(p) for p in pts]
    out = dict(points=pts)
    if fam in ("pg", "dip"):
        out["src"] = tuple((r.uniform(-150, 150, m), r.uniform(-150, 150, m), r.uniform(-90, -5, m)))
        out["mass"] = r.uniform(-1, 2, m) * 1e7
        out["moment"] = tuple(r.normal(size=m) * 1e4 for _ in range(3))
    elif fam == "ps":
        out["src"] = (r.uniform(-30, 30, m), r.uniform(-40, 40, m), r.uniform(5.8e6, 6.05e6, m))
        out["mass"] = r.uniform(-1, 2, m) * 1e13
    elif fam in ("prg", "prm"):
        w, s = r.uniform(-150, 100, m), r.uniform(-150, 100, m)
        top = r.uniform(-60, 0, m)
        out["body"] = np.stack([w, w + r.uniform(5, 60, m), s, s + r.uniform(5, 60, m), top - r.uniform(1, 60, m), top], axis=1)
        if m > 2 and r.random() < 0.3:
            out["body"][m // 2, 4] = out["body"][m // 2, 5]  # a null prism
        out["density"] = r.uniform(-500, 1500, m)
        out["mag"] = tuple(r.normal(size=m) for _ in range(3))
    elif fam in ("tg", "tgv"):
        w, s = r.uniform(-14, 8, m), r.uniform(-14, 8, m)
        top = r.uniform(6.05e6, 6.1e6, m)
        size = r.uniform(1, 10, (2, m))
        out["body"] = np.stack([w, w + size[0], s, s + size[1], top - r.uniform(5e3, 5e4, m), top], axis=1)
        out["density"] = r.uniform(-500, 1500, m)
    elif fam == "pl":
        x = np.arange(m + 1) * 30.0 - 40
        y = np.arange(m) * 25.0 - 30
        surf = r.uniform(-40, 5, (m, m + 1))
        if spec.get("nan"):
            surf[0, 0] = np.nan
        out["layer"] = (x, y, surf, -20.0, r.uniform(100, 900, (m, m + 1)))
    elif fam == "tl":
        x = np.arange(m + 1) * 4.0 - 10
        y = np.arange(max(m, 2)) * 3.0 - 6
        surf = 6.05e6 + r.uniform(-2e4, 3e4, (y.size, m + 1))
        if spec.get("nan"):
            surf[0, 0] = np.nan
        out["layer"] = (x, y, surf, 6.05e6, r.uniform(100, 900, surf.shape))
    if spec.get("bodies"):
        degenerate(out, fam, spec["bodies"], r)
    if spec.get("place"):
        displace(out, fam, spec["place"], spec["kind"] == "int")
    return out


def displace(out, fam, how, whole):
    """Surveys of other extents: satellites, projected coordinates, other turns of longitude."""
    import numpy as np

    r = np.random.default_rng(len(out["points"][0]) + 17)
    lon, lat, up = out["points"]
    if how in ("far", "mixed"):
        away = r.random(up.size) < 0.5 if how == "mixed" else 1.0
        if fam in SPHERICAL:
            up = up + away * 10.0 ** r.uniform(5.5, 7)
        else:
            times = 10.0 ** r.uniform(0.3, 1.3)
            up = up + away * 100 * times
            if r.random() < 0.5:
                lon, lat = lon * (1 + away * (times - 1)), lat * (1 + away * (times - 1))
    elif how == "turn":
        lon = lon + 360.0 * r.integers(-1, 2, lon.size if r.random() < 0.5 else 1)
    elif how == "utm":
        shift = np.array([500000.0, 7000000.0, 0.0]) + np.round(r.uniform(-2e5, 2e5, 3)) * [1, 1, 0]
        lon, lat = lon + shift[0], lat + shift[1]
        if "src" in out:
            out["src"] = tuple(a + b for a, b in zip(out["src"], shift))
        if "body" in out:
            out["body"] = out["body"] + np.repeat(shift, 2)
        if "layer" in out:
            out["layer"] = (out["layer"][0] + shift[0], out["layer"][1] + shift[1]) + out["layer"][2:]
    out["points"] = [np.round(a) if whole else a for a in (lon, lat, up)]


def arrange(pts, layout, r):
    """Observation points with the structure of real surveys."""
    import numpy as np

    n = pts[0].size
    if layout == "runs":  # stationary stretches: consecutive repeated points
        keep = np.sort(r.integers(0, n, max(1, n // int(r.integers(2, 12)))))
        which = np.sort(r.choice(keep, n))
        return [p[which] for p in pts]
    if layout == "same":
        return [np.full(n, p[0]) for p in pts]
    if layout == "clusters":  # repeated measurements a few millimetres to metres apart
        which = r.integers(0, max(1, n // 3), n)
        scale = 10.0 ** r.uniform(-4, 0) * (np.array([1e-5, 1e-5, 1.0]) if np.abs(pts[2][0]) > 1e6 else np.ones(3))
        return [p[which] + s * r.uniform(-1, 1, n) for p, s in zip(pts, scale)]
    if layout == "sorted":
        order = np.lexsort((pts[0], np.round(pts[1], -1)))
        return [p[order] for p in pts]
    if layout == "profile":
        return [pts[0], np.full(n, pts[1][0]), np.full(n, pts[2][0])]
    if layout == "grid":
        nx = max(1, int(np.sqrt(n)))
        i = np.arange(n)
        xs, ys = np.sort(pts[0]), np.sort(pts[1])
        return [xs[i % nx], ys[(i // nx) % n], np.full(n, pts[2][0])]
    return pts


def degenerate(out, fam, how, r):
    """Bodies without volume or property, or repeated."""
    import numpy as np

    if "layer" in out:
        x, y, surf, ref, dens = out["layer"]
        if how == "null":
            surf = np.full_like(surf, np.nan)
        elif how == "some-null":
            surf = np.where(r.random(surf.shape) < 0.5, ref, surf)
        out["layer"] = (x, y, surf, ref, dens)
        return
    m = out["body"].shape[0] if "body" in out else out["src"][0].size
    pick = {"null": np.ones(m, bool), "some-null": r.random(m) < 0.5}.get(how, np.zeros(m, bool))
    if how == "repeated":
        for k, v in out.items():
            if k == "body":
                out[k] = np.repeat(v[:1], m, axis=0)
            elif k in ("src", "moment", "mag"):
                out[k] = tuple(np.full(m, a[0]) for a in v)
        return
    flat = r.random(m) < 0.5
    for k in ("mass", "density"):
        if k in out:
            out[k] = np.where(pick & ~(flat & ("body" in out)), 0.0, out[k])
    for k in ("moment", "mag"):
        if k in out:
            out[k] = tuple(np.where(pick & ~(flat & ("body" in out)), 0.0, a) for a in out[k])
    if "body" in out and fam != "tgv":
        out["body"][pick & flat, 4] = out["body"][pick & flat, 5]


def make_layer(spec, data):
    import harmonica as hm

    x, y, surf, ref, dens = data["layer"]
    make = hm.prism_layer if spec["fam"] == "pl" else hm.tesseroid_layer
    return make((x, y), surf, ref, properties=dict(density=dens, rho=3 * dens[::-1]))


def call(spec, data, parallel, progressbar=False, take=None, kind=None, layer=None):
    """Run the model; ``take`` selects observation points by index."""
    import harmonica as hm
    import numpy as np

    fam, field = spec["fam"], spec["field"]
    pts = [p if take is None else p[take] for p in data["points"]]
    kind = kind or spec["kind"]
    if take is not None:
        kind = "array"
        if spec["kind"] == "int":
            kind = "int"
    coords = as_kind(pts, kind)
    kw = dict(parallel=parallel)
    if spec.get("dtype"):
        kw["dtype"] = getattr(np, spec["dtype"])
    if progressbar:
        kw["progressbar"] = True
    if fam == "pg":
        return hm.point_gravity(coords, data["src"], data["mass"], field, **kw)
    if fam == "ps":
        return hm.point_gravity(coords, data["src"], data["mass"], field, coordinate_system="spherical", **kw)
    if fam == "dip":
        return hm.dipole_magnetic(coords, data["src"], data["moment"], field, **kw)
    if fam == "prg":
        return hm.prism_gravity(coords, data["body"], data["density"], field, **kw)
    if fam == "prm":
        return hm.prism_magnetic(coords, data["body"], data["mag"], field, **kw)
    if fam == "tg":
        return hm.tesseroid_gravity(coords, data["body"], data["density"], field,
                                    radial_adaptive_discretization=spec["radial"], **kw)
    if fam == "tgv":
        return hm.tesseroid_gravity(coords, data["body"], density_function(spec["dens"]), field,
                                    radial_adaptive_discretization=spec["radial"], **kw)
    if fam in ("pl", "tl"):
        layer = layer if layer is not None else make_layer(spec, data)
        acc = layer.prism_layer if fam == "pl" else layer.tesseroid_layer
        coords = tuple(np.asarray(c) for c in coords)
        if spec.get("thin") is not None:
            kw["thickness_threshold"] = spec["thin"] * (20.0 if fam == "pl" else 2e4)
        return acc.gravity(coords, field, density_name=spec.get("prop", "density"), **kw)
    raise KeyError(fam)


def components(result):
    """Flat component list of a result (tuple for the vector fields)."""
    import numpy as np

    if isinstance(result, tuple):
        return [np.asarray(c) for c in result]
    return [np.asarray(result)]


def shrink_spec(spec):
    if spec["npts"] > 1:
        for n in (1, 2, spec["npts"] // 2, spec["npts"] - 1):
            if n < spec["npts"]:
                yield dict(spec, npts=n, kind="array" if spec["kind"] in ("2d", "3d") else spec["kind"])
    if spec["nsrc"] > 1:
        for n in (1, spec["nsrc"] // 2, spec["nsrc"] - 1):
            if n < spec["nsrc"] and not (spec["fam"] in ("pl", "tl") and n < 2):
                yield dict(spec, nsrc=n)
    if spec["kind"] != "array":
        yield dict(spec, kind="array")
    if spec.get("dtype"):
        yield {k: v for k, v in spec.items() if k != "dtype"}
    for key in ("layout", "bodies", "place", "thin"):
        if spec.get(key) is not None:
            yield {k: v for k, v in spec.items() if k != key}
    for flag in ("radial", "near", "nan"):
        if spec.get(flag):
            yield dict(spec, **{flag: False})


def warm_key(spec, progressbar=False):
    return "|".join(str(x) for x in (
        spec["fam"], spec["field"], spec["kind"] == "int", spec.get("dtype", ""), spec.get("dens", ""), progressbar))


def warm_spec(spec):
    return dict({k: v for k, v in spec.items() if k != "place"}, npts=4 if spec["kind"] in ("2d", "3d") else (1 if spec["kind"] == "scalar" else 2),
                nsrc=2, near=False, nan=False, seed=7)


def label_rng(spec):
    return Rng(str(sorted(spec.items())))
