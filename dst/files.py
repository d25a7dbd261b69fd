"""Generated ICGEM and Oasis Montaj files with the grid they contain."""

import struct
import zlib


def icgem(spec):
    """spec: seed, ny, nx, extra (data columns), height, eol, final, ... -> text, lines, expectation."""
    import numpy as np

    r = np.random.default_rng(spec["seed"])
    ny, nx, extra = spec["ny"], spec["nx"], spec["extra"]
    step = float(r.choice([0.5, 1.0, 2.0, 2.5]))
    west, south = float(r.integers(-90, 178)) * 2, float(r.integers(-45, 25)) * 2
    if r.random() < 0.25:  # the borders of the globe
        west = [-180.0, 0.0, 360.0 - step * (nx - 1), 360.0 - step * (nx // 2), 180.0 - step][r.integers(5)]
    if r.random() < 0.2:
        south = [-90.0, 90.0 - step * (ny - 1)][r.integers(2)]
    lon = west + step * np.arange(nx)
    lat = south + step * np.arange(ny)
    names = ["longitude", "latitude"] + [["sample_data", "h_over_geoid", "topography_grd", "second"][k] for k in range(extra)]
    units = ["[deg.]", "[deg.]"] + [["[mgal]", "[meter]", "[meter]", "[m2/s2]"][k] for k in range(extra)]
    order = list(range(len(names)))
    if spec.get("columns"):  # another order of the columns
        order = list(np.random.default_rng(spec["columns"]).permutation(len(names)))
    head = [
        ("generating_institute", "gfz-potsdam"), ("generating_date", "2018/01/30"), ("product_type", "gravity_field"),
        ("modelname", "EIGEN-6C4"), ("functional", "sample_data  (centrifugal term included)"), ("unit", "mgal"),
        ("gmrefpot", "3.98600441800E+14 m**3/s**2"), ("long_lat_unit", "degree"),
        ("latlimit_north", f"{lat[-1]:.12f}"), ("latlimit_south", f"{lat[0]:.12f}"),
        ("longlimit_west", f"{lon[0]:.11f}"), ("longlimit_east", f"{lon[-1]:.11f}"), ("gridstep", f"{step:.13f}"),
    ]
    if spec.get("height") is not None:
        head.append(("height_over_ell", f"{spec['height']:.4f} m"))
    head += [("latitude_parallels", str(ny)), ("longitude_parallels", str(nx)), ("number_of_gridpoints", str(nx * ny)),
             ("gapvalue", "9999999.0000"), ("weighted_mean", "3.5E+0 mgal"), ("grid_format", "long_lat_value")]
    lines = [f"{k:>20s}     {v}" for k, v in head]
    lines += ["", ""]
    lines.append("    ".join(names[j] for j in order))
    lines.append("    ".join(units[j] for j in order))
    lines.append("end_of_head " + "=" * 60)
    n_head = len(lines)
    values = r.normal(size=(extra, ny, nx)) * 50
    values = np.round(values, int(r.integers(3, 12)))
    text_of = lambda v: f"{v:.12g}"
    for i in range(ny)[::-1]:
        for j in range(nx):
            row = [f"{lon[j]:.6f}", f"{lat[i]:.6f}"] + [text_of(values[k, i, j]) for k in range(extra)]
            lines.append("  " + "   ".join(row[c] for c in order))
    eol = spec.get("eol", "\n")
    text = eol.join(lines) + (eol if spec.get("final", True) else "")
    attrs = {k: " ".join(v.split()) for k, v in head}
    for k in ("latitude_parallels", "longitude_parallels", "number_of_gridpoints", "latlimit_south", "latlimit_north",
              "longlimit_west", "longlimit_east"):
        attrs[k] = attrs[k].split()[0]
    attrs["attributes"] = " ".join(names[j] for j in order)
    attrs["attributes_units"] = " ".join(units[j].strip("[]") for j in order)
    data = {names[2 + k]: np.vectorize(lambda v: float(text_of(v)))(values[k]) for k in range(extra)}
    if spec.get("height") is not None:
        data["height_over_ell"] = np.full((ny, nx), float(f"{spec['height']:.4f}"))
    expect = dict(longitude=np.array([float(f"{v:.6f}") for v in lon]), latitude=np.array([float(f"{v:.6f}") for v in lat]),
                  data=data, attrs=attrs)
    return dict(bytes=text.encode(), lines=lines, n_head=n_head, eol=eol, expect=expect, order=[int(j) for j in order])


ELEMENT = {"b": (1, 1), "B": (1, 0), "h": (2, 1), "H": (2, 0), "i": (4, 1), "I": (4, 0), "f": (4, 2), "d": (8, 2)}
DUMMY = {"b": -127, "B": 255, "h": -32767, "H": 65535, "i": -2147483647, "I": 4294967295, "f": -1e32, "d": -1e32}


def oasis(spec):
    """spec: seed, ny, nx, type, ordering, rotation, compressed, blocks, dummies -> bytes, expectation."""
    import numpy as np

    r = np.random.default_rng(spec["seed"])
    ny, nx, kind = spec["ny"], spec["nx"], spec.get("type", "f")
    size, sign = ELEMENT[kind]
    if spec.get("sign") is not None:
        sign = spec["sign"]
    ordering = spec.get("ordering", 1)
    rotation = spec.get("rotation", 0.0)
    base, factor = spec.get("base", 0.0), spec.get("factor", 1.0)
    if kind in "fd":
        stored = r.normal(size=(ny, nx)) * 100
        if kind == "f":
            stored = stored.astype("<f4").astype(float)
    else:
        info = np.iinfo({"b": "i1", "B": "u1", "h": "i2", "H": "u2", "i": "i4", "I": "u4"}[kind])
        low, high = max(info.min + 2, -10**6), min(info.max - 2, 10**6)
        stored = r.integers(low, high, size=(ny, nx)).astype(float)
    dummy = np.zeros((ny, nx), dtype=bool)
    if spec.get("dummies"):
        dummy = r.random((ny, nx)) < spec["dummies"]
        if kind in "fd" and spec.get("very_low"):
            stored[dummy] = -2e32
        else:
            stored[dummy] = DUMMY[kind]
    dtype = {"b": "i1", "B": "u1", "h": "<i2", "H": "<u2", "i": "<i4", "I": "<u4", "f": "<f4", "d": "<f8"}[kind]
    flat = stored.ravel() if ordering == 1 else stored.T.ravel()
    body = flat.astype(dtype).tobytes()
    dx, dy = float(r.choice([0.5, 1.0, 30.0])), float(r.choice([0.25, 2.0, 30.0]))
    x0, y0 = float(r.normal() * 100), float(r.normal() * 1000)
    ne, nv, de, dv = (nx, ny, dx, dy) if ordering == 1 else (ny, nx, dy, dx)
    head = bytearray(512)
    es = size + 1024 if spec.get("compressed") else size
    struct.pack_into("<5i", head, 0, es, sign, ne, nv, ordering)
    struct.pack_into("<5d", head, 20, de, dv, x0, y0, rotation)
    struct.pack_into("<2d", head, 60, base, factor)
    head[76:76 + 9] = b"a grid   "
    struct.pack_into("<5i", head, 140, 2, 0, 1, 0, int((~dummy).sum()))
    struct.pack_into("<4f", head, 160, -1.5, 7.25, 0.5, 0.25)
    struct.pack_into("<d", head, 176, 12.5)
    struct.pack_into("<i", head, 184, 1)
    regions = [(0, 512, "header")]
    if spec.get("compressed"):
        nb = max(1, min(spec.get("blocks", 1), nv))
        vectors = -(-nv // nb)
        vec = ne * size
        chunks = [body[k * vectors * vec:(k + 1) * vectors * vec] for k in range(-(-nv // vectors))]
        packed = [bytes.fromhex("0f0efffe12345678020000000100000000")[:16] + zlib.compress(c, spec.get("level", 6)) for c in chunks]
        nb = len(packed)
        table = struct.pack("<4i", -119023417, 2, nb, vectors)
        start = 512 + 16 + 12 * nb
        offsets, pos = [], start
        for p in packed:
            offsets.append(pos)
            pos += len(p)
        table += struct.pack(f"<{nb}q", *offsets) + struct.pack(f"<{nb}i", *[len(p) for p in packed])
        regions += [(512 + 8, 512 + 12, "count")]
        regions += [(512 + 16 + 8 * nb, start, "sizes")]
        regions += [(o + 16, o + len(p), "stream") for o, p in zip(offsets, packed)]
        body = table + b"".join(packed)
    with np.errstate(all="ignore"):
        values = np.where(dummy, np.nan, stored) / factor + base
    e, n = np.linspace(x0, x0 + dx * (nx - 1), nx), np.linspace(y0, y0 + dy * (ny - 1), ny)
    expect = dict(values=values, attrs=dict(
        n_bytes_per_element=es, sign_flag=sign, shape_e=ne, shape_v=nv, ordering=ordering, spacing_e=de, spacing_v=dv,
        x_origin=x0, y_origin=y0, rotation=rotation, base_value=base, data_factor=factor, n_valid_points=int((~dummy).sum())))
    if rotation == 0:
        expect.update(dims=("northing", "easting"), easting=e, northing=n)
    else:
        x, y = np.meshgrid(dx * np.arange(nx), dy * np.arange(ny))
        c, s = np.cos(np.radians(rotation)), np.sin(np.radians(rotation))
        expect.update(dims=("y", "x"), easting=x0 + x * c - y * s, northing=y0 + x * s + y * c)
    return dict(bytes=bytes(head) + body, regions=regions, expect=expect)
