"""Calls of the public interface: JSON spec -> arguments -> call.

``build(spec)`` makes fresh arguments as a pure function of the spec;
``call(spec, args)`` performs the call on them (and on nothing else).
"""

import os
import pathlib

from . import files

FIELDS = ["potential", "g_e", "g_n", "g_z", "g_ee", "g_nz"]
HOW = ["array", "array", "2d", "list", "readonly", "fortran", "strided", "int", "float32", "series", "dataarray", "object"]
NULL = [None, None, None, "flat", "density", "twice"]
GRIDS = ["plain", "plain", "named", "unnamed", "float32", "nan", "coords", "readonly", "down"]
GHOW = ["array", "readonly", "fortran", "strided", "float32", "int"]

OPTS = dict(
    point=dict(field=FIELDS, how=HOW, sph=[False, True]),
    dipole=dict(field=["b", "b_e", "b_n", "b_u"], how=HOW),
    prism_g=dict(field=FIELDS, how=HOW, body=["array", "list", "readonly", "one", "int"], null=NULL),
    prism_m=dict(field=["b", "b_e", "b_u"], how=HOW, body=["array", "list", "readonly", "one", "int"], null=NULL),
    tesseroid=dict(field=["potential", "g_z"], how=HOW, body=["array", "list", "readonly", "one"], dens=["array", "lin"],
                   lon=["plain", "plain", "greenwich", "dateline", "360"], null=NULL),
    layer_make=dict(kind=["pl", "tl"], how=GHOW, reference=["scalar", "array"], mesh=[False, True], nan=[False, True]),
    layer_gravity=dict(kind=["pl", "tl"], field=["potential", "g_z"], how=HOW, nan=[False, True], threshold=[None, 15.0]),
    layer_body=dict(kind=["pl", "tl"], what=["body", "boundaries", "spacing", "shape"]),
    layer_update=dict(kind=["pl", "tl"], how=GHOW, reference=["scalar", "array"]),
    ellipsoid_g=dict(how=HOW, one=[False, True]),
    ellipsoid_m=dict(how=HOW, one=[False, True], inducing=["tuple", "array", "list", "readonly"]),
    bouguer=dict(how=GHOW + ["dataarray"], crust=["scalar", "array"]),
    moho=dict(how=GHOW + ["dataarray"], layers=[0, 1, 2], dens=["scalar", "array"]),
    deriv=dict(g=GRIDS, which=["easting", "northing", "upward"], method=["finite-diff", "fft"], order=[1, 2, 0], pad=["none", "default", "kwargs", "partial", "off"]),
    continuation=dict(g=GRIDS, pad=["none", "default", "kwargs", "partial", "off"], height=[10.0, 250.0]),
    gaussian=dict(g=GRIDS, which=["gaussian_lowpass", "gaussian_highpass"], pad=["none", "default", "kwargs", "partial", "off"], wave=[50.0, 400.0]),
    rtp=dict(g=GRIDS, pad=["none", "default", "kwargs", "partial", "off"], mag=[False, True]),
    gradient=dict(g=GRIDS, which=["total_gradient_amplitude", "tilt_angle"], pad=["none", "default", "kwargs", "partial", "off"]),
    angles=dict(which=["to_vec", "to_angles", "anomaly"], how=HOW, degrees=[True, False],
                regional=["arrays", "arrays", "numbers"], wide=[False, True]),
    sources=dict(kind=["cart", "gb", "sph"], how=GHOW, points=[None, "custom"], weights=[False, True], block=[None, 40.0], projection=[False, True]),
    euler=dict(kind=["ed", "ei", "eil"], how=GHOW + ["list"], weights=["tuple", "list", "array"]),
    icgem=dict(usecols=[None, [0, 1, 3], [1, 0, 2], [3, 1, 0, 4], [4, 2, 0, 1]], dtype=[None, "float32"], pathlib=[False, True]),
    oasis=dict(pathlib=[False, True], compressed=[False, True]),
    sources_more=dict(kind=["cart", "gb", "sph"], how=["array", "readonly", "2d"], what=["profile", "filter", "clone", "jacobian", "refit"]),
    igrf=dict(how=HOW, date=["2010-06-01", "2027-03-04T05:06:07", "1914-07-28"], nmax=[2, 4], ellipsoid=["WGS84", "GRS80"]),
    igrf_grid=dict(date=["2010-06-01", "2026-01-01"], shape=[[2, 3], [3, 4]], region=["tuple", "list", "array"], nmax=[2, 4]),
    mesh=dict(how=["array", "list", "readonly"], props=[False, True]),
    ellipsoid_surface=dict(size=[4, 7]),
)
GROUPS = dict(
    forward=["point", "dipole", "prism_g", "prism_m", "tesseroid", "ellipsoid_g", "ellipsoid_m"],
    layers=["layer_make", "layer_gravity", "layer_body", "layer_update"],
    grids=["deriv", "continuation", "gaussian", "rtp", "gradient", "bouguer", "moho", "angles"],
    fits=["sources", "euler", "sources_more"],
    reads=["icgem", "oasis", "igrf", "igrf_grid"],
)
FORWARD = ("point", "dipole", "prism_g", "prism_m", "tesseroid")
CORRUPT = ["short", "nan", "nan", "wild", "zero", "text", "none", "field", "empty", "option"]


def gen(rng, names=None, corrupt=0.15):
    name = rng.pick(names or sorted(OPTS))
    o = {k: rng.pick(v) for k, v in OPTS[name].items()}
    spec = dict(name=name, seed=rng.getrandbits(32), **o)
    if rng.chance(corrupt):
        spec["corrupt"] = [rng.pick(CORRUPT), rng.randrange(100)]
    return spec


def conv(x, how):
    import numpy as np

    x = np.asarray(x, dtype=float)
    if how == "2d":
        return x.reshape(2, -1) if x.size % 2 == 0 and x.ndim == 1 else x
    if how == "list":
        return x.tolist()
    if how == "readonly":
        x = x.copy()
        x.flags.writeable = False
        return x
    if how == "fortran":
        return np.asfortranarray(x.reshape(2, -1) if x.ndim == 1 and x.size % 2 == 0 else x)
    if how == "strided":
        return np.repeat(x, 2, axis=0)[::2]
    if how == "int":
        return np.round(x).astype(int)
    if how == "float32":
        return x.astype("float32")
    if how == "series":
        import pandas as pd

        return pd.Series(x.ravel())
    if how == "dataarray":
        import xarray as xr

        return xr.DataArray(x.copy(), dims=[f"d{k}" for k in range(x.ndim)], attrs=dict(units="m"), name="thing")
    if how == "object" and x.ndim == 1:
        return [np.array(v) for v in x] if x.size else x.tolist()
    return x.copy()


def points(r, n, how, sph=False, up=(15, 120)):
    if sph:
        c = (r.uniform(-16, 16, n), r.uniform(-16, 16, n), r.uniform(6.2e6, 6.5e6, n))
    else:
        c = (r.uniform(-200, 200, n), r.uniform(-200, 200, n), r.uniform(*up, n))
    out = tuple(conv(x, how) for x in c)
    return list(out) if how == "list" else out


def prisms(r, m, body):
    import numpy as np

    w, s, top = r.uniform(-150, 100, m), r.uniform(-150, 100, m), r.uniform(-60, -2, m)
    b = np.stack([w, w + r.uniform(5, 60, m), s, s + r.uniform(5, 60, m), top - r.uniform(3, 60, m), top], axis=1)
    return shaped_body(b, body)


def shaped_body(b, body):
    import numpy as np

    if body == "one":
        return b[0].tolist()
    if body == "int":
        return np.round(b).astype(int)
    return conv(b, body)


def nullify(r, a, kind):
    """Bodies without volume, without density, or given twice."""
    import numpy as np

    key = "prisms" if "prisms" in a else "tesseroids"
    b = np.array(a[key], dtype=float)
    if kind is None or b.ndim != 2 or not len(b):
        return a
    j = int(r.integers(len(b)))
    if kind == "flat":
        b[j, 5] = b[j, 4]
    elif kind == "twice":
        b[j] = b[0]
    elif isinstance(a.get("density"), np.ndarray) and a["density"].flags.writeable:
        a["density"][j] = 0
    a[key] = conv(b, "list" if isinstance(a[key], list) else "array" if a[key].flags.writeable else "readonly")
    return a


def grid(r, kind="plain", name="field"):
    import numpy as np

    da = plain_grid(r, name)
    if kind == "named":
        return da.rename(northing="y", easting="x")
    if kind == "unnamed":
        return da.rename(None)
    if kind == "float32":
        return da.astype("float32", keep_attrs=True)
    if kind == "nan":
        da.values[0, 0] = np.nan
    if kind == "coords":
        return da.assign_coords(line=("northing", np.arange(da.sizes["northing"])), survey="A")
    if kind == "readonly":
        da.values.flags.writeable = False
    if kind == "down":
        return da.isel(northing=slice(None, None, -1)).copy(deep=True)
    return da


def plain_grid(r, name="field"):
    import numpy as np
    import xarray as xr

    ny, nx = (int(v) for v in r.choice([5, 8], 2))
    dx, dy = r.choice([10.0, 10.0, 25.0, 0.5], 2)
    x, y = np.arange(nx) * dx + 3, np.arange(ny) * dy - 50
    da = xr.DataArray(r.normal(size=(ny, nx)) * 20, coords=dict(northing=y, easting=x), dims=("northing", "easting"),
                      name=name, attrs=dict(units="nT", history=["made"]))
    if r.random() < 0.5:
        da = da.assign_coords(upward=(("northing", "easting"), np.full((ny, nx), 7.0)))
    return da


def pad_options(g, how):
    if how in ("none", "off"):
        return None
    if how == "default":
        return {}
    if how == "partial":
        return dict(mode="reflect", constant_values=None) if g.sizes[g.dims[1]] > 3 else {}
    return dict(pad_width={d: 2 for d in g.dims}, mode="edge", constant_values=None)


def layer_spec(r, kind, nan=False, mesh=False, how="array", reference="scalar"):
    import numpy as np

    if kind == "pl":
        x, y = np.arange(3) * 30.0 - 40, np.arange(4) * 25.0 - 30
        surf, ref = r.uniform(-40, 5, (4, 3)), -20.0
    else:
        x, y = np.arange(3) * 4.0 - 10, np.arange(2) * 3.0 - 6
        surf, ref = 6.05e6 + r.uniform(-2e4, 3e4, (2, 3)), 6.05e6
    if nan:
        surf[0, 0] = np.nan
    if how == "int" and nan:
        surf[0, 0] = ref
    c = np.meshgrid(x, y) if mesh else (x, y)
    ref = ref if reference == "scalar" else np.full(surf.shape, ref) + r.uniform(-1, 1, surf.shape)
    dens = r.uniform(100, 900, surf.shape)
    return dict(coordinates=tuple(conv(v, "array") for v in c), surface=conv(surf, how), reference=ref if np.isscalar(ref) else conv(ref, how),
                properties=dict(density=conv(dens, how), other=conv(dens / 3, "array")))


def make_layer(kind, a):
    import harmonica as hm

    return (hm.prism_layer if kind == "pl" else hm.tesseroid_layer)(a["coordinates"], a["surface"], a["reference"], properties=a["properties"])


def accessor(kind, layer):
    return layer.prism_layer if kind == "pl" else layer.tesseroid_layer


def ellipsoids(r):
    import harmonica as hm

    out = []
    for k in range(int(r.integers(1, 4))):
        axes = r.uniform(5, 30, 3)
        if k == 1:
            axes[:] = axes[0]
        if k == 2:
            axes[1] = axes[2]
        out.append(hm.Ellipsoid(*axes, yaw=r.uniform(-90, 90), pitch=r.uniform(-90, 90), roll=r.uniform(-90, 90),
                                center=tuple(r.uniform(-80, 80, 2)) + (-60.0,), density=r.uniform(100, 900) if r.random() < 0.8 else None,
                                susceptibility=r.uniform(0, 2) if r.random() < 0.6 else r.uniform(0, 1, (3, 3)),
                                remanent_mag=r.normal(size=3) if r.random() < 0.7 else None))
    return out


def build(spec, scratch=None):
    import numpy as np

    r = np.random.default_rng(spec["seed"])
    a = build_args(spec, r, scratch)
    if "corrupt" in spec:
        corrupt(a, *spec["corrupt"])
    return a


def build_args(spec, r, scratch):
    import numpy as np

    name, how = spec["name"], spec.get("how", "array")
    n = int(r.choice([1, 2, 4]))
    m = int(r.integers(1, 4))
    if name == "point":
        sph = spec["sph"]
        src = (r.uniform(-30, 30, m), r.uniform(-40, 40, m), r.uniform(5.8e6, 6.05e6, m)) if sph else (
            r.uniform(-150, 150, m), r.uniform(-150, 150, m), r.uniform(-90, -5, m))
        field = spec["field"] if not sph or spec["field"] in ("potential", "g_z") else "g_z"
        return dict(coordinates=points(r, n, how, sph), points=tuple(src), masses=r.uniform(-1, 2, m) * 1e9, field=field)
    if name == "dipole":
        return dict(coordinates=points(r, n, how), dipoles=(r.uniform(-150, 150, m), r.uniform(-150, 150, m), r.uniform(-90, -5, m)),
                    moments=tuple(r.normal(size=m) * 1e4 for _ in range(3)), field=spec["field"])
    if name in ("prism_g", "prism_m"):
        if spec["body"] == "one":
            m = 1
        a = dict(coordinates=points(r, n, how), prisms=prisms(r, m, spec["body"]), field=spec["field"])
        if name == "prism_g":
            d = r.uniform(-500, 1500, m)
            a["density"] = float(d[0]) if spec["body"] == "one" else conv(d, "list" if spec["body"] == "list" else spec["body"])
        else:
            a["magnetization"] = tuple(r.normal(size=m) for _ in range(3))
        return nullify(r, a, spec.get("null"))
    if name == "tesseroid":
        if spec["body"] == "one":
            m = 1
        w, s, top = r.uniform(-14, 8, m), r.uniform(-14, 8, m), r.uniform(6.05e6, 6.1e6, m)
        b = np.stack([w, w + r.uniform(1, 5, m), s, s + r.uniform(1, 5, m), top - r.uniform(5e3, 5e4, m), top], axis=1)
        lon = spec.get("lon", "plain")
        if lon == "greenwich":
            b[:, 0], b[:, 1] = 360 - r.uniform(0.5, 4, m), r.uniform(0, 4, m)
        if lon == "dateline":
            b[:, 0], b[:, 1] = 180 - r.uniform(0, 4, m), 180 + r.uniform(0.5, 4, m)
        if lon == "360":
            b[:, :2] += 180
        if spec["dens"] == "lin":
            from .models import density_function

            d = density_function("lin")
        else:
            d = r.uniform(-500, 1500, m)
            d = float(d[0]) if spec["body"] == "one" else d
        return nullify(r, dict(coordinates=points(r, min(n, 2), how, True), tesseroids=shaped_body(b, spec["body"]), density=d,
                               field=spec["field"]), spec.get("null"))
    if name == "layer_make":
        return layer_spec(r, spec["kind"], spec["nan"], spec["mesh"], how, spec["reference"])
    if name in ("layer_gravity", "layer_body", "layer_update"):
        a = dict(layer=make_layer(spec["kind"], layer_spec(r, spec["kind"], spec.get("nan", False))))
        if name == "layer_gravity":
            a["coordinates"] = points(r, min(n, 2), how, spec["kind"] == "tl")
        if name == "layer_update":
            b = layer_spec(r, spec["kind"], False, False, how, spec["reference"])
            a.update(surface=b["surface"], reference=b["reference"])
        return a
    if name in ("ellipsoid_g", "ellipsoid_m"):
        bodies = ellipsoids(r)
        a = dict(coordinates=points(r, n, how), bodies=bodies[0] if spec["one"] else bodies)
        if name == "ellipsoid_m":
            f = [1000.0, -20000.0, 30000.0]
            a["inducing"] = tuple(f) if spec["inducing"] == "tuple" else conv(f, spec["inducing"])
        return a
    if name == "ellipsoid_surface":
        return dict(body=ellipsoids(r)[0])
    if name == "bouguer":
        t = r.normal(size=(3, 4)) * 500
        return dict(topography=conv(t, how), crust=2670)
    if name == "moho":
        b = r.normal(size=(3, 4)) * 500
        layers = {f"layer{k}": (conv(r.uniform(0, 900, (3, 4)), how), 1500.0 + 100 * k if spec["dens"] == "scalar" else conv(
            r.uniform(1500, 2500, (3, 4)), "array" if how == "int" else how)) for k in range(spec["layers"])}
        return dict(basement=conv(b, how), layers=layers or None)
    if name in ("deriv", "continuation", "gaussian", "rtp", "gradient"):
        g = grid(r, spec.get("g", "plain"))
        if name == "rtp" and r.random() < 0.5:
            g = g.drop_vars("upward", errors="ignore")
        return dict(grid=g, pad_kwargs=pad_options(g, spec["pad"]))
    if name == "angles":
        k = 4
        if spec["which"] == "to_vec":
            return dict(v=(conv(r.uniform(1, 9, k), how), conv(r.uniform(-90, 90, k), how), conv(r.uniform(-180, 180, k), how)))
        size = (2, k) if spec.get("wide") and how not in ("series", "object", "2d", "fortran") else k
        v = tuple(conv(r.normal(size=size) * 50, how) for _ in range(3))
        inc, dec = r.uniform(-90, 90, size), r.uniform(-180, 180, size)
        if spec.get("regional") == "numbers":
            return dict(v=v, inc=float(inc.flat[0]), dec=float(dec.flat[0]))
        return dict(v=v, inc=conv(inc, how), dec=conv(dec, how))
    if name == "sources":
        k = 6
        if spec["kind"] == "sph":
            c = (r.uniform(-20, 20, k), r.uniform(-30, 30, k), r.uniform(6.38e6, 6.40e6, k))
            t = (r.uniform(-20, 20, 4), r.uniform(-30, 30, 4), r.uniform(6.41e6, 6.45e6, 4))
            p = (r.uniform(-20, 20, 3), r.uniform(-30, 30, 3), r.uniform(6.30e6, 6.36e6, 3))
        else:
            c = (r.uniform(-100, 100, k), r.uniform(-80, 80, k), r.uniform(0, 20, k))
            t = (r.uniform(-100, 100, 4), r.uniform(-80, 80, 4), r.uniform(25, 60, 4))
            p = (r.uniform(-100, 100, 3), r.uniform(-80, 80, 3), r.uniform(-80, -20, 3))
            c[0][:2], c[1][:2] = (-95, 90), (70, -75)  # wider than the windows
        return dict(coordinates=tuple(conv(x, how) for x in c), data=conv(r.normal(size=k) * 10, how),
                    weights=conv(r.uniform(0.5, 2, k), "readonly" if how == "readonly" else "array") if spec["weights"] else None,
                    points=tuple(conv(x, how) for x in p) if spec["points"] else None, targets=tuple(conv(x, how) for x in t))
    if name == "sources_more":
        k = 6
        z = (6.38e6, 6.40e6) if spec["kind"] == "sph" else (0, 20)
        c = (r.uniform(-20, 20, k), r.uniform(-30, 30, k), r.uniform(*z, k))
        c[0][:2], c[1][:2] = (-20, 19), (30, -28)
        return dict(coordinates=tuple(conv(x, how) for x in c), data=conv(r.normal(size=k) * 10, how), weights=conv(r.uniform(0.5, 2, k), how),
                    points=(c[0] * 1.1, c[1] * 0.9, c[2] - 40.0), ends=((-10.0, -20.0), (15.0, 12.0)))
    if name == "euler":
        k = 8
        c = [r.uniform(-50, 50, k), r.uniform(-50, 50, k), r.uniform(0, 5, k)]
        src = (10.0, -5.0, -25.0)
        dx = [c[j] - src[j] for j in range(3)]
        dist = np.sqrt(sum(x**2 for x in dx))
        d = [1e6 / dist**2 + 3.0] + [-2e6 * x / dist**4 for x in dx]
        d = [x * (1 + 1e-2 * r.normal(size=k)) for x in d]
        w = (1, 0.1, 0.1, 0.025)
        return dict(coordinates=tuple(conv(x, how) for x in c), data=tuple(conv(x, how) for x in d),
                    weights=w if spec["weights"] == "tuple" else list(w) if spec["weights"] == "list" else np.array(w),
                    indices=[1, 2, 3])
    if name == "icgem":
        f = files.icgem(dict(seed=spec["seed"], ny=3, nx=4, extra=2))
        path = pathlib.Path(scratch) / f"icgem-{spec['seed']}.gdf"
        path.write_bytes(f["bytes"])
        return dict(path=path if spec["pathlib"] else str(path), kwargs={k: v for k, v in dict(
            usecols=list(spec["usecols"]) if spec["usecols"] else None, dtype=spec["dtype"]).items() if v is not None})
    if name == "oasis":
        f = files.oasis(dict(seed=spec["seed"], ny=3, nx=4, compressed=spec["compressed"]))
        path = pathlib.Path(scratch) / f"oasis-{spec['seed']}-{spec['compressed']}.grd"
        path.write_bytes(f["bytes"])
        return dict(path=path if spec["pathlib"] else str(path))
    if name in ("igrf", "igrf_grid"):
        import boule
        import harmonica as hm

        model = hm.IGRF14(spec["date"], 1, spec["nmax"], getattr(boule, spec.get("ellipsoid", "WGS84")))
        if name == "igrf":
            wide = 1 + 2 * int(r.integers(0, 2))  # longitudes beyond one turn too
            c = (conv(wide * r.uniform(-180, 360, n), how), conv(r.uniform(-89, 89, n), how), conv(r.uniform(0, 1e4, n), how))
            return dict(model=model, coordinates=list(c) if how == "list" else c)
        region = (-20.0, 30.0, -40.0, 50.0)
        return dict(model=model, region=dict(tuple=tuple, list=list, array=np.array)[spec["region"]](region), shape=tuple(spec["shape"]))
    if name == "mesh":
        props = dict(density=r.uniform(0, 1, 3), chi=[1.0, 2.0, 3.0]) if spec["props"] else None
        return dict(prisms=prisms(r, 3, how), properties=props)
    raise KeyError(name)


COORDINATES = ("coordinates", "targets", "ends")


def edit(a, spec, times):
    """The caller changes arguments in place: values move by one along the first axis."""
    for k in range(times):
        some = [key for key in a if (key in COORDINATES) == bool((spec["seed"] + k) % 2)]
        if not sum([move(a[key]) for key in some]):
            for key in a:
                move(a[key])
    return a


def move(x):
    """Number of things changed."""
    import numpy as np

    if isinstance(x, np.ndarray):
        if not x.flags.writeable or x.ndim == 0 or x.shape[0] < 2:
            return 0
        x[...] = np.roll(x, 1, axis=0)
        return 1
    if isinstance(x, dict):
        return sum([move(v) for v in x.values()])
    if isinstance(x, (list, tuple)):
        if isinstance(x, list) and len(x) > 1 and all(isinstance(v, (int, float, list)) for v in x):
            x[:] = x[-1:] + x[:-1]
            return 1
        return sum([move(v) for v in x])
    if type(x).__module__.startswith("xarray"):
        if type(x).__name__ == "Dataset":
            return sum([move(x[k].values) for k in x.data_vars])
        return move(x.values)
    if type(x).__module__.startswith("pandas"):
        x[:] = np.roll(x.to_numpy(), 1)
        return 1
    if type(x).__name__ == "Ellipsoid":
        x.yaw, x.pitch, x.roll = x.pitch / 2 - 3, x.roll / 2 + 5, x.yaw / 2
        if x.density is not None:
            x.density = 2 * x.density + 1
        return 1
    return 0


def corrupt(a, kind, k):
    """Spoil one argument; the call may then fail, always in the same way."""
    import numpy as np

    slots = []
    for key, v in a.items():
        if isinstance(v, np.ndarray):
            slots.append((a, key))
        elif isinstance(v, (tuple, list)) and v and isinstance(v[0], (np.ndarray, list)):
            a[key] = list(v)
            slots += [(a[key], j) for j in range(len(v))]
    if kind == "option" and a.get("pad_kwargs") is not None:
        a["pad_kwargs"]["pad_width"] = {"nowhere": 2}
    elif kind == "field" and "field" in a:
        a["field"] = "g_unknown"
    elif slots:
        places = [s for s in slots if s[0] is a.get("coordinates")]
        slots = places if places and k % 2 else slots
        box, key = slots[k // 2 % len(slots)]
        x = np.array(box[key])
        if x.ndim == 0:
            return
        if kind == "short":
            box[key] = x[:-1]
        elif kind == "nan" and x.dtype.kind == "f" and x.size:
            x.flat[k // 7 % x.size] = np.nan
            box[key] = x
        elif kind in ("wild", "zero") and x.dtype.kind == "f" and x.size:
            x.flat[:: 2] *= -37.0 if kind == "wild" else 0.0
            box[key] = x
        elif kind == "text":
            box[key] = np.full(x.shape, "text")
        elif kind == "none":
            box[key] = None
        elif kind == "empty":
            box[key] = x[:0]


def call(spec, a, parallel=False):
    import harmonica as hm

    name = spec["name"]
    if name == "point":
        return hm.point_gravity(a["coordinates"], a["points"], a["masses"], a["field"],
                                coordinate_system="spherical" if spec["sph"] else "cartesian", parallel=parallel)
    if name == "dipole":
        return hm.dipole_magnetic(a["coordinates"], a["dipoles"], a["moments"], a["field"], parallel=parallel)
    if name == "prism_g":
        return hm.prism_gravity(a["coordinates"], a["prisms"], a["density"], a["field"], parallel=parallel)
    if name == "prism_m":
        return hm.prism_magnetic(a["coordinates"], a["prisms"], a["magnetization"], a["field"], parallel=parallel)
    if name == "tesseroid":
        return hm.tesseroid_gravity(a["coordinates"], a["tesseroids"], a["density"], a["field"], parallel=parallel)
    if name == "layer_make":
        return make_layer(spec["kind"], a)
    if name == "layer_gravity":
        return accessor(spec["kind"], a["layer"]).gravity(a["coordinates"], spec["field"], density_name="density",
                                                          thickness_threshold=spec["threshold"], parallel=parallel)
    if name == "layer_body":
        acc = accessor(spec["kind"], a["layer"])
        if spec["what"] == "body":
            return [acc.get_prism((i, 0)) if spec["kind"] == "pl" else acc.get_tesseroid((i, 0)) for i in range(acc.shape[0])]
        return getattr(acc, spec["what"])
    if name == "layer_update":
        accessor(spec["kind"], a["layer"]).update_top_bottom(a["surface"], a["reference"])
        return a["layer"].copy(deep=True)
    if name == "ellipsoid_g":
        return hm.ellipsoid_gravity(a["coordinates"], a["bodies"])
    if name == "ellipsoid_m":
        return hm.ellipsoid_magnetic(a["coordinates"], a["bodies"], a["inducing"])
    if name == "ellipsoid_surface":
        return a["body"].get_surface(lon_size=spec["size"], lat_size=spec["size"] + 1), str(a["body"]), repr(a["body"])
    if name == "bouguer":
        return hm.bouguer_correction(a["topography"], density_crust=a["crust"])
    if name == "moho":
        return hm.isostatic_moho_airy(a["basement"], a["layers"])
    if name in ("deriv", "continuation", "gaussian", "rtp", "gradient"):
        kw = dict(pad=spec["pad"] != "off", pad_kwargs=a["pad_kwargs"])
        if name == "deriv":
            if spec["which"] == "upward":
                return hm.derivative_upward(a["grid"], order=max(1, spec["order"]), **kw)
            return getattr(hm, "derivative_" + spec["which"])(a["grid"], order=spec["order"], method=spec["method"], **kw)
        if name == "continuation":
            return hm.upward_continuation(a["grid"], spec["height"], **kw)
        if name == "gaussian":
            return getattr(hm, spec["which"])(a["grid"], spec["wave"], **kw)
        if name == "rtp":
            m = dict(magnetization_inclination=10.0, magnetization_declination=-50.0) if spec["mag"] else dict(
                magnetization_inclination=40.0, magnetization_declination=20.0)
            return hm.reduction_to_pole(a["grid"], 40.0, 20.0, **m, **kw)
        return getattr(hm, spec["which"])(a["grid"], **kw)
    if name == "angles":
        if spec["which"] == "to_vec":
            return hm.magnetic_angles_to_vec(*a["v"])
        if spec["which"] == "to_angles":
            return hm.magnetic_vec_to_angles(*a["v"], degrees=spec["degrees"])
        return hm.total_field_anomaly(a["v"], a["inc"], a["dec"])
    if name == "sources":
        return sources(spec, a, parallel)
    if name == "sources_more":
        return sources_more(spec, a, parallel)
    if name == "euler":
        if spec["kind"] == "ed":
            e = hm.EulerDeconvolution(structural_index=2).fit(a["coordinates"], a["data"])
        else:
            e = hm.EulerInversion(structural_index=a["indices"] if spec["kind"] == "eil" else 2)
            e.fit(a["coordinates"], a["data"], weights=a["weights"])
        return e.location_, e.base_level_, e.covariance_
    if name == "icgem":
        return hm.load_icgem_gdf(a["path"], **a["kwargs"])
    if name == "oasis":
        return hm.load_oasis_montaj_grid(a["path"])
    if name == "igrf":
        return a["model"].predict(a["coordinates"])
    if name == "igrf_grid":
        return a["model"].grid(a["region"], 100.0, shape=a["shape"])
    if name == "mesh":
        from harmonica.visualization import prism_to_pyvista

        m = prism_to_pyvista(a["prisms"], a["properties"])
        return m.points.copy(), {k: m.cell_data[k].copy() for k in m.cell_data}
    raise KeyError(name)


def new_sources(spec, a, parallel):
    import harmonica as hm

    if spec["kind"] == "sph":
        return hm.EquivalentSourcesSph(damping=1e-2, points=a["points"], relative_depth=2e4, parallel=parallel)
    kw = dict(damping=1e-2, points=a["points"], depth=30.0, block_size=spec["block"], parallel=parallel)
    if spec["kind"] == "gb":
        return hm.EquivalentSourcesGB(window_size=70.0, random_state=3, **kw)
    return hm.EquivalentSources(**kw)


def sources(spec, a, parallel):
    import numpy as np

    e = new_sources(spec, a, parallel)
    e.fit(a["coordinates"], a["data"], a["weights"])
    pred = e.predict(a["targets"])
    xx, yy = np.meshgrid([-9.0, 0.0, 12.0], [-15.0, 4.0])
    zz = np.full(xx.shape, 6.42e6 if spec["kind"] == "sph" else 40.0)
    kw = dict(projection=lambda e, n, **k: (e * 1.5, n + 3.0)) if spec["projection"] and spec["kind"] != "sph" else {}
    g = e.grid((xx, yy, zz), **kw)
    return np.asarray(e.coefs_), [np.array(p) for p in e.points_], pred, g["scalars"].values, e.score(
        a["coordinates"], a["data"], a["weights"]), list(e.region_), e.estimate_required_memory(a["coordinates"])


def sources_more(spec, a, parallel):
    """The rest of what the estimators offer."""
    import harmonica as hm
    import sklearn.base

    if spec["kind"] == "sph":
        e = hm.EquivalentSourcesSph(damping=1e-2, points=a["points"], parallel=parallel)
    elif spec["kind"] == "gb":
        e = hm.EquivalentSourcesGB(window_size=25.0, random_state=3, damping=1e-2, points=a["points"], depth=20.0, parallel=parallel)
    else:
        e = hm.EquivalentSources(damping=1e-2, points=a["points"], depth=20.0, parallel=parallel)
    if spec["what"] == "filter":
        return e.filter(a["coordinates"], a["data"], a["weights"])
    if spec["what"] == "clone":
        new = sklearn.base.clone(e).set_params(damping=1.0)
        new.fit(a["coordinates"], a["data"])
        return sorted(new.get_params(deep=False)), new.predict(a["coordinates"]), e.get_params(deep=False)["damping"]
    if spec["what"] == "jacobian":
        return e.jacobian(tuple(a["coordinates"]), tuple(a["points"]))
    e.fit(a["coordinates"], a["data"])
    first = e.predict(a["coordinates"])
    if spec["what"] == "refit":
        e.fit(a["coordinates"], a["data"], a["weights"])
        return first, e.predict(a["coordinates"]), e.score(a["coordinates"], a["data"])
    up = 6.42e6 if spec["kind"] == "sph" else 30.0
    return first, e.profile(*a["ends"], up, 5)


def public(obj):
    """A bit-exact picture of an argument, private caches left out."""
    from .core import freeze

    mod = type(obj).__module__.split(".")[0]
    if mod == "harmonica" and hasattr(obj, "__dict__"):
        names = sorted(k for k in dir(obj) if not k.startswith("_") and k != "coefficients")
        out = []
        for k in names:
            v = getattr(obj, k)
            if not callable(v):
                out.append((k, freeze(v)))
        return (type(obj).__name__, tuple(out))
    if isinstance(obj, dict):
        return ("d", tuple((str(k), public(v)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(public(v) for v in obj))
    return freeze(obj)


def cache_dir(scratch, world):
    """A cache already holding the coefficient file."""
    os.environ["XDG_CACHE_HOME"] = str(scratch)
    d = pathlib.Path(scratch) / "harmonica"
    d.mkdir(parents=True, exist_ok=True)
    return d
