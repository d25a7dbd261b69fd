"""C10: reading an Oasis Montaj grid gives the whole correct grid or an error."""

import os
import struct
import zlib

from .. import boot, files, interrupt, reading, simdisk
from ..core import Violation, equal_values, freeze, sha

RULE = (
    "A case is a generated Oasis Montaj file (element type, plain or compressed in blocks, ordering, rotation, scaling, "
    "dummies), damage done to it at rest (truncation at any byte, lost or repeated bytes, wrong sizes in the header, "
    "damaged compressed streams and block tables), and a sequence of reads of it and of healthy files of other shapes, "
    "with the operating system delivering short reads, interruptions, errors or an early end of file, or an exception "
    "raised at a library statement. Non-trivial when a fault fired or the file was damaged."
)
MEASURE = "hash of the file layout, damage, delivery faults and outcomes"
REAL = ["load_oasis_montaj_grid, zlib, Python's buffered I/O, the file system"]
STUB = ["answers of open/read/close on the file (preloaded shim)"]
ASSUMPTIONS = [
    "a reference reader written from the format decides what a file holds; altered bytes of uncompressed values or of header "
    "fields that fit the size of the file leave a consistent file whose stored values changed",
    "bytes after the last compressed block may be ignored",
]
BUDGET = dict(quick=22, thorough=600)
EXC = ["memory", "interrupt", "os", "value", "exit"]
TYPES = {(1, 0): "u1", (1, 1): "i1", (2, 0): "<u2", (2, 1): "<i2", (4, 0): "<u4", (4, 1): "<i4", (4, 2): "<f4"}


def groups(tier):
    return ["delivery", "delivery", "rest", "rest", "rest", "truncation", "truncation", "layout"]


def jit(group):
    return False


def env(group):
    return simdisk.env()


def setup():
    simdisk.setup()


def prepare(group):
    hm = boot.import_harmonica()
    return dict(group=group, hm=hm)


def gen_file(rng):
    spec = dict(seed=rng.getrandbits(32), ny=rng.pick([1, 2, 3, 4, 5, 8, 13]), nx=rng.pick([1, 2, 3, 4, 6, 9, 14]), type=rng.pick("bBhHiIfdfdfd"),
                ordering=rng.pick([1, 1, -1]), rotation=rng.pick([0.0, 0.0, 30.0, -75.5, 180.0, 1e-3]), dummies=rng.pick([0, 0, 0.2, 0.9]),
                base=rng.pick([0.0, 0.0, 12.5, -1e4]), factor=rng.pick([1.0, 1.0, 10.0, 0.25, -2.0]))
    if rng.chance(0.1):
        spec["ny"], spec["nx"] = rng.pick([40, 61]), rng.pick([50, 83])
    if spec["type"] == "d":
        spec["sign"] = rng.pick([0, 1, 2])
    if rng.chance(0.5):
        spec.update(compressed=True, blocks=rng.pick([1, 1, 2, 3, 7]), level=rng.pick([0, 1, 6, 9]))
    if spec["dummies"] and rng.chance(0.3):
        spec["very_low"] = True
    return spec


def gen(rng, ctx, i):
    group = ctx["group"]
    spec = gen_file(rng)
    damage = []
    if group == "truncation":
        damage.append([rng.pick(["truncate", "truncate", "truncate-head", "truncate-element", "truncate-end", "extend", "empty"]), rng.random(), rng.getrandbits(30)])
    elif group == "rest":
        for _ in range(rng.pick([1, 1, 1, 2])):
            damage.append([rng.pick(["size-e", "size-v", "size-both", "stream", "stream", "stream", "count", "sizes", "lose", "lose", "repeat", "element",
                                     "type", "order", "zero-block", "drop-block", "tail", "value", "block-cut"]), rng.random(), rng.getrandbits(30)])
    reads = []
    for _ in range(rng.randint(1, 4)):
        r = dict(which=rng.pick(["main", "main", "main", "healthy", "other"]), source=rng.pick(["str", "path"]))
        r["shared"] = rng.chance(0.5)
        if group == "delivery" or rng.chance(0.2):
            r["faults"] = reading.disk_faults(rng, 10)
            if rng.chance(0.5):
                r["chunk"], r["chunk_seed"] = rng.pick([1, 5, 50, 600]), rng.getrandbits(30)
            if rng.chance(0.25):
                r["exc"], r["at"] = rng.pick(EXC), rng.getrandbits(32)
        reads.append(r)
    return dict(spec=spec, other=gen_file(rng), damage=damage, reads=reads)


# ------------------------------------------------------------------ damage
def apply(made, damage):
    blob = bytearray(made["bytes"])
    for kind, u, bits in damage:
        n = len(blob)
        if n < 520 and not kind.startswith(("trunc", "ext", "emp")):
            continue
        regions = {}
        for a, b, name in made["regions"]:
            regions.setdefault(name, []).append((a, b))
        compressed = "stream" in regions

        def spot(name):
            a, b = regions[name][bits % len(regions[name])]
            return a + int(u * (b - a))

        if kind == "truncate":
            del blob[int(u * n):]
        elif kind == "truncate-head":
            del blob[int(u * 513):]
        elif kind == "truncate-element":
            del blob[512 + int(u * (n - 512)):]
        elif kind == "truncate-end":
            del blob[max(0, n - 1 - int(u * 20)):]
        elif kind == "empty":
            del blob[:]
        elif kind == "extend":
            blob += bytes([bits & 255]) * (1 + bits % 40)
        elif kind in ("size-e", "size-v", "size-both"):
            for at in dict([("size-e", [8]), ("size-v", [12])]).get(kind, [8, 12]):
                old = struct.unpack_from("<i", blob, at)[0]
                struct.pack_into("<i", blob, at, [old + 1, old - 1, old * 2, 0, -old, 2**20][bits % 6] if kind != "size-both" else old + 1)
        elif kind == "element":
            struct.pack_into("<i", blob, 0, [1, 2, 4, 8, 1025, 1026, 1028, 1032, 3, 0, 1024, -4, 2048][bits % 13])
        elif kind == "type":
            struct.pack_into("<i", blob, 4, [0, 1, 2, 3, -1, 7][bits % 6])
        elif kind == "order":
            struct.pack_into("<i", blob, 16, [1, -1, 0, 2, -2][bits % 5])
        elif kind == "lose":
            k, m = 512 + int(u * (n - 512)), 1 + bits % 16
            del blob[k:k + m]
        elif kind == "repeat":
            k, m = 512 + int(u * (n - 512)), 1 + bits % 16
            blob[k:k] = blob[k:k + m]
        elif kind == "value" and not compressed:
            blob[512 + int(u * (n - 512))] ^= 1 << (bits % 8)
        elif compressed and kind == "stream":
            k = spot("stream")
            if k < n:
                blob[k] ^= 1 << (bits % 8)
        elif compressed and kind == "block-cut":
            k = spot("stream")
            del blob[k:k + 1]
        elif compressed and kind == "count":
            old = struct.unpack_from("<i", blob, 520)[0]
            struct.pack_into("<i", blob, 520, [old - 1, old + 1, 0, old * 3, -1][bits % 5])
        elif compressed and kind == "sizes":
            k = spot("sizes") // 4 * 4
            if k + 4 <= n:
                old = struct.unpack_from("<i", blob, k)[0]
                struct.pack_into("<i", blob, k, [old - 1, 16, 0, -5, old // 2, old + 3][bits % 6])
        elif compressed and kind == "zero-block":
            a, b = regions["stream"][bits % len(regions["stream"])]
            k = a + int(u * (b - a))
            blob[k:b] = bytes(max(0, b - k))
        elif compressed and kind == "drop-block":
            a, b = regions["stream"][bits % len(regions["stream"])]
            del blob[a - 16:b]
        elif kind == "tail":  # a torn write: the end of the file is zeros
            k = 512 + int(u * (n - 512))
            if compressed:
                blob[k:] = bytes(n - k)
    return bytes(blob)


# -------------------------------------------------------- reference reader
class Bad(Exception):
    pass


def reference(blob):
    """The grid a file holds; Bad when it must be rejected."""
    import numpy as np

    if len(blob) < 188:
        raise Bad("header cut")
    es, sign, ne, nv, ordering = struct.unpack_from("<5i", blob, 0)
    de, dv, x0, y0, rotation = struct.unpack_from("<5d", blob, 20)
    base, factor = struct.unpack_from("<2d", blob, 60)
    if ordering not in (1, -1):
        raise Bad("ordering")
    size = es - 1024 if es > 1024 else es
    if size not in (1, 2, 4, 8) or es in (1024,):
        raise Bad("element size")
    dtype = "<f8" if size == 8 else TYPES.get((size, sign))
    if sign == 3 or dtype is None:
        raise Bad("element type")
    body = blob[512:]
    if es > 1024:
        if len(body) < 16:
            raise Bad("no block table")
        nb = struct.unpack_from("<i", body, 8)[0]
        if nb < 0 or 16 + 12 * nb > len(body):
            raise Bad("block table cut")
        parts = []
        for k in range(nb):
            start = struct.unpack_from("<q", body, 16 + 8 * k)[0] - 512
            length = struct.unpack_from("<i", body, 16 + 8 * nb + 4 * k)[0]
            if length < 16 or start < 16 + 12 * nb or start + 16 >= len(body):
                raise Bad("block outside the file")
            one = zlib.decompressobj()
            try:
                part = one.decompress(body[start + 16:start + length])
            except zlib.error as e:
                raise Bad(f"block {k}: {e}")
            if not one.eof:
                raise Bad(f"block {k} is cut")
            parts.append(part)
        body = b"".join(parts)
    if ne <= 0 or nv <= 0 or len(body) != ne * nv * size:
        raise Bad(f"{len(body)} bytes for {ne} x {nv} elements of {size}")
    raw = np.frombuffer(body, dtype=dtype)
    values = raw.astype(float)
    if dtype[-2] == "f":
        # the dummy as an element of single precision lies below -1e32
        values[values <= -1e32] = np.nan
    else:
        dummy = {"u1": 255, "i1": -127, "<u2": 65535, "<i2": -32767, "<u4": 4294967295, "<i4": -2147483647}[dtype]
        values[raw.astype(np.int64) == dummy] = np.nan
    with np.errstate(all="ignore"):
        values = values / factor + base
    if ordering == 1:
        ny, nx, dx, dy = nv, ne, de, dv
        values = values.reshape(ny, nx)
    else:
        ny, nx, dx, dy = ne, nv, dv, de
        values = values.reshape(nx, ny).T
    return dict(values=values, ny=ny, nx=nx, dx=dx, dy=dy, x0=x0, y0=y0, rotation=rotation,
                attrs=dict(n_bytes_per_element=es, sign_flag=sign, shape_e=ne, shape_v=nv, ordering=ordering, spacing_e=de,
                           spacing_v=dv, x_origin=x0, y_origin=y0, rotation=rotation, base_value=base, data_factor=factor,
                           n_valid_points=struct.unpack_from("<i", blob, 156)[0]))


def compare(grid, want):
    import numpy as np

    x, y = want["dx"] * np.arange(want["nx"]), want["dy"] * np.arange(want["ny"])
    size = abs(want["x0"]) + abs(want["y0"]) + np.max(np.abs(x)) + np.max(np.abs(y))
    if want["rotation"] == 0:
        dims, e, n = ("northing", "easting"), want["x0"] + x, want["y0"] + y
    else:
        c, s = np.cos(np.radians(want["rotation"])), np.sin(np.radians(want["rotation"]))
        xx, yy = np.meshgrid(x, y)
        dims, e, n = ("y", "x"), want["x0"] + xx * c - yy * s, want["y0"] + xx * s + yy * c
    if tuple(grid.dims) != dims:
        return f"dims {grid.dims} instead of {dims}"
    for name, v in (("easting", e), ("northing", n)):
        got = np.asarray(grid.coords[name].values)
        if got.shape != v.shape or not np.allclose(got, v, rtol=0, atol=1e-9 * size):
            return f"{name} is {got.ravel()[:5]} instead of {v.ravel()[:5]}"
    got = np.asarray(grid.values, float)
    if got.shape != want["values"].shape:
        return f"shape {got.shape} instead of {want['values'].shape}"
    with np.errstate(all="ignore"):
        same = np.isclose(got, want["values"], rtol=1e-12, atol=0, equal_nan=True) | (got == want["values"])
    if not np.all(same):
        k = tuple(int(j) for j in np.argwhere(~same)[0])
        return f"value at {k} is {got[k]!r} instead of {want['values'][k]!r}"
    for k, v in want["attrs"].items():
        if k not in grid.attrs or equal_values(float(grid.attrs[k]), float(v), 0.0):
            return f"metadata {k} is {grid.attrs.get(k)} instead of {v}"
    return None


# ---------------------------------------------------------------- running
def run(case, ctx, out):
    folder = reading.folder()
    try:
        body(case, ctx["hm"], folder, out)
    finally:
        reading.remove(folder)


def body(case, hm, folder, out):
    made = files.oasis(case["spec"])
    blobs = dict(healthy=made["bytes"], main=apply(made, case["damage"]), other=files.oasis(case["other"])["bytes"])
    paths = {}
    for name, blob in blobs.items():
        paths[name] = folder / f"{name}.grd"
        paths[name].write_bytes(blob)
    trace, nontrivial, held = [], bool(case["damage"]), []
    for k, r in enumerate(case["reads"]):
        name = r["which"]
        blob = blobs[name]
        where = f"{case['spec']}, damage {case['damage']}, read {k} {r}"
        try:
            want, why = reference(blob), None
        except Bad as e:
            want, why = None, str(e)
        if want is None and blob == made["bytes"]:
            from ..core import Harness

            raise Harness(f"reference rejects a healthy file: {why} {case['spec']}")
        path = paths[name]
        if r.get("shared"):  # another file at the path read before, with the same time stamp
            path = folder / "shared.grd"
            path.write_bytes(blob)
            os.utime(path, (10**9, 10**9))
        arg = str(path) if r["source"] == "str" else path
        res = reading.call(lambda: hm.load_oasis_montaj_grid(arg), folder, r, out)
        hard, eof, closing = reading.effective(res, r)
        if res.open:
            raise Violation("file-left-open", f"{where}: {res.open} after {res.kind} {res.error!r}")
        if res.leaks:
            raise Violation("file-not-closed", f"{where}: {res.leaks}")
        fault = bool(res.disk["fired"]) or bool(res.tracer.fired)
        nontrivial = nontrivial or fault or bool(r.get("chunk"))
        if res.kind == "value":
            if hard:
                raise Violation("read-error-hidden", f"{where}: returned a grid after {hard}")
            if eof:
                seen = blob[:res.disk["delivered"]]
                try:
                    want, why = reference(seen), None
                except Bad as e:
                    want, why = None, f"only {len(seen)} of {len(blob)} bytes delivered: {e}"
            if want is None and len(case["damage"]) > 1 and res.value.size == 0 and 0 in struct.unpack_from("<2i", blob, 8):
                out.stats.add("empty_grids")  # two damages agree that the grid has no values
                continue
            if want is None:
                raise Violation("inconsistent-file-accepted", f"{where}: {why}; returned a grid {dict(res.value.sizes)}")
            bad = compare(res.value, want)
            if bad:
                raise Violation("wrong-grid", f"{where}: {bad}")
            held.append((res.value, freeze(res.value), where))
        else:
            what = type(res.error).__name__
            if not isinstance(res.error, Exception) and not res.tracer.fired:
                raise Violation("unexpected-exit", f"{where}: {res.error!r}")
            if blob == made["bytes"] or name == "other":
                if not fault:
                    raise Violation("healthy-file-rejected", f"{where}: {what}: {res.error}")
                if not (hard or eof or closing or res.tracer.fired):
                    raise Violation("delivery-broke-the-reader", f"{where}: {what}: {res.error}; faults fired {res.disk['fired']}")
            elif want is not None and not fault:
                out.stats.add("consistent_damage_rejected")
        trace.append((name, res.kind, sorted(res.disk["fired"]), why, interrupt.short(res.tracer.fired)))
        out.stats.add(f"{res.kind}_{name}")
        if why:
            out.stats.add("must_raise")
        res.value = res.error = None
    for grid, before, where in held:
        if freeze(grid) != before:
            raise Violation("later-read-changed-earlier-grid", where)
    for d in case["damage"]:
        out.fired("rest-" + d[0])
    out.digest = sha(trace, blobs["main"])
    if nontrivial:
        out.sigs.append([case["spec"], trace])


def shrink(case):
    for k in range(len(case["reads"])):
        if len(case["reads"]) > 1:
            yield dict(case, reads=case["reads"][:k] + case["reads"][k + 1:])
    for k in range(len(case["damage"])):
        yield dict(case, damage=case["damage"][:k] + case["damage"][k + 1:])
    simple = dict(ny=2, nx=3, type="f", ordering=1, rotation=0.0, dummies=0, base=0.0, factor=1.0)
    for key, v in simple.items():
        if case["spec"].get(key) != v:
            yield dict(case, spec=dict(case["spec"], **{key: v}))
    if case["other"] != dict(simple, seed=1):
        yield dict(case, other=dict(simple, seed=1))
    for key in ("compressed", "sign", "very_low"):
        if key in case["spec"]:
            yield dict(case, spec={a: b for a, b in case["spec"].items() if a != key})
    for k, r in enumerate(case["reads"]):
        for key in ("exc", "chunk"):
            if key in r:
                yield dict(case, reads=case["reads"][:k] + [{a: b for a, b in r.items() if a != key}] + case["reads"][k + 1:])
        for j in range(len(r.get("faults", ()))):
            yield dict(case, reads=case["reads"][:k] + [dict(r, faults=r["faults"][:j] + r["faults"][j + 1:])] + case["reads"][k + 1:])
