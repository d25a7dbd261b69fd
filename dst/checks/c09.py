"""C09: reading an ICGEM grid gives the whole correct grid or an error."""

import io
import os
import re

from .. import boot, files, interrupt, reading, simdisk
from ..core import Rng, Violation, equal_values, freeze, sha

RULE = (
    "A case is a generated ICGEM file, damage done to it at rest (lost, repeated, swapped, cut or altered lines, damaged "
    "header, truncation at any byte), and a sequence of reads of it and of a healthy file, each through a path or an open "
    "file, with the operating system delivering short reads, interruptions, errors or an early end of file, or an "
    "exception raised at a library statement. Non-trivial when a fault fired or the file was damaged."
)
MEASURE = "hash of the file layout, damage, delivery faults and outcomes"
REAL = ["load_icgem_gdf, numpy.loadtxt, Python's text and buffered I/O, the file system"]
STUB = ["answers of open/read/close on the file (preloaded shim), caller-owned raw streams"]
ASSUMPTIONS = [
    "a reference reader written from the format decides which damaged files are still consistent: a truncation within the last "
    "number, or an altered digit of a value, leaves a consistent file whose stored values changed",
    "coordinates off the grid by more than a tenth of the grid step must be rejected; smaller differences may be",
    "an exception injected at a statement that only moves references is not a real fault",
]
BUDGET = dict(quick=24, thorough=600)
EXC = ["memory", "interrupt", "os", "value", "exit"]
NUMBER = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")
NEEDED = ["latitude_parallels", "longitude_parallels", "number_of_gridpoints", "latlimit_south", "latlimit_north",
          "longlimit_west", "longlimit_east"]


def groups(tier):
    return ["delivery", "delivery", "delivery", "rest", "rest", "rest", "rest", "truncation"]


def jit(group):
    return False


def env(group):
    return simdisk.env()


def setup():
    simdisk.setup()


def prepare(group):
    hm = boot.import_harmonica()
    return dict(group=group, hm=hm)


DAMAGE = ["lose", "lose", "repeat", "swap", "swap", "overwrite", "char", "char", "cut", "head-lose", "head-value", "head-repeat",
          "join", "blank", "reverse", "column-swap", "shift", "insert", "block"]


def gen(rng, ctx, i):
    group = ctx["group"]
    spec = dict(seed=rng.getrandbits(32), ny=rng.pick([1, 2, 2, 3, 4, 5, 7, 12]), nx=rng.pick([1, 2, 2, 3, 4, 6, 9, 14]), extra=rng.pick([0, 1, 1, 1, 2, 2, 3, 4]),
                eol=rng.pick(["\n", "\n", "\r\n"]), final=rng.chance(0.8))
    if rng.chance(0.15):
        spec["ny"], spec["nx"] = rng.pick([20, 31]), rng.pick([25, 40])
    if rng.chance(0.25):
        spec["height"] = rng.pick([0.0, 10000.0, -125.5])
    if rng.chance(0.4):
        spec["columns"] = rng.randrange(1, 1000)
    damage = []
    if group == "truncation":
        damage.append(["truncate", rng.random(), rng.pick(["any", "data", "last-line", "line", "head"])])
    elif group == "rest":
        for _ in range(rng.pick([1, 1, 1, 2])):
            damage.append([rng.pick(DAMAGE), rng.random(), rng.random(), rng.getrandbits(20)])
    reads = []
    for _ in range(rng.randint(1, 4)):
        r = dict(damaged=rng.chance(0.8), source=rng.pick(["str", "path", "path", "str", "open", "open", "stringio", "raw", "newline", "spooled"]))
        r["shared"] = rng.chance(0.5)
        if group == "delivery" or rng.chance(0.2):
            r["faults"] = reading.disk_faults(rng, 12)
            if rng.chance(0.5):
                r["chunk"], r["chunk_seed"] = rng.pick([1, 3, 20, 500]), rng.getrandbits(30)
            if rng.chance(0.25):
                r["exc"], r["at"] = rng.pick(EXC), rng.getrandbits(32)
        if r["source"] == "raw":
            r.update(piece=rng.pick([0, 1, 7, 100]), fail=rng.random() if rng.chance(0.3) else None)
        if rng.chance(0.2):
            r["usecols"] = rng.getrandbits(10)
        if rng.chance(0.15):
            r["dtype"] = rng.pick(["float64", "float32"])
        reads.append(r)
    return dict(spec=spec, damage=damage, reads=reads)


# ------------------------------------------------------------------ damage
def apply(made, damage):
    """Bytes of the damaged file."""
    lines, n_head, eol = list(made["lines"]), made["n_head"], made["eol"]
    final = made["bytes"].endswith(b"\n")
    blob = None
    for d in damage:
        kind = d[0]
        if kind == "truncate":
            data = eol.join(lines).encode() + (eol.encode() if final else b"")
            head = len((eol.join(lines[:n_head]) + eol).encode())
            start, end = dict(any=(0, len(data)), data=(head, len(data)), head=(0, head), line=(head, len(data)))\
                .get(d[2], (len(data) - len(lines[-1]) - 2, len(data)))
            at = start + int(d[1] * max(1, end - start))
            if d[2] == "line":
                at = data.rfind(b"\n", 0, at) + 1
            blob = data[:max(0, at)]
            continue
        _, u, v, bits = d
        rows = range(n_head, len(lines))
        if kind.startswith("head"):
            k = int(u * n_head)
            if kind == "head-lose":
                lines.pop(k)
                n_head -= 1
            elif kind == "head-repeat":
                lines.insert(int(v * n_head), lines[k])
                n_head += 1
            else:
                keys = [j for j in range(n_head) if lines[j].split()[:1] and lines[j].split()[0] in NEEDED]
                if keys:
                    j = keys[int(u * len(keys))]
                    parts = lines[j].split()
                    number = float(parts[1])
                    if parts[0] in NEEDED[:3]:
                        parts[1] = str(int(number) + [1, -1, 2, 10][bits % 4])
                    else:
                        parts[1] = f"{number + [1.0, -2.0, 0.5, 90.0][bits % 4]:.8f}"
                    lines[j] = "     ".join(parts)
            continue
        if not len(rows):
            continue
        k, m = rows[int(u * len(rows))], rows[int(v * len(rows))]
        if kind == "lose":
            lines.pop(k)
        elif kind == "repeat":
            lines.insert(m, lines[k])
        elif kind == "swap":
            lines[k], lines[m] = lines[m], lines[k]
        elif kind == "overwrite":
            lines[k] = lines[m]
        elif kind == "insert":
            lines.insert(k, ["# lost", "   ", "nan nan nan", "0 0 0"][bits % 4])
        elif kind == "blank":
            lines[k] = ["", " ", "#" + lines[k]][bits % 3]
        elif kind == "reverse":
            a, b = min(k, m), max(k, m) + 1
            lines[a:b] = lines[a:b][::-1]
        elif kind == "shift":
            lines.insert(n_head, lines.pop())
        elif kind == "block":  # a run of rows overwritten by another run
            run = 1 + bits % 5
            a, b = min(k, len(lines) - run), min(m, len(lines) - run)
            if a >= n_head and b >= n_head:
                lines[a:a + run] = lines[b:b + run]
        elif kind == "join" and k + 1 < len(lines):
            lines[k:k + 2] = [lines[k] + " " + lines[k + 1]]
        elif kind == "cut":
            lines[k] = lines[k][: int(v * len(lines[k]))]
        elif kind == "column-swap":
            parts = lines[k].split()
            a, b = bits % len(parts), (bits // 7) % len(parts)
            parts[a], parts[b] = parts[b], parts[a]
            lines[k] = "  ".join(parts)
        elif kind == "char" and lines[k]:
            j = int(v * len(lines[k]))
            lines[k] = lines[k][:j] + "0123456789 -.#xe\x00\xff,"[bits % 19] + lines[k][j + 1:]
    if blob is None:
        blob = (eol.join(lines)).encode("latin-1") + (eol.encode() if final else b"")
    return blob


# -------------------------------------------------------- reference reader
class Bad(Exception):
    pass


def reference(blob, usecols=None, dtype="float64"):
    """The grid a file holds, Bad when it must be rejected, and whether it may be."""
    import numpy as np

    try:
        text = blob.decode("utf-8")
    except UnicodeDecodeError:
        raise Bad("not text")
    lines = text.replace("\r\n", "\n").replace("\r", "\n").split("\n")
    head, k, blank, columns, units, ended = {}, 0, False, None, None, False
    for k, line in enumerate(lines):
        if line.strip().startswith("end_of_head"):
            ended = True
            break
        words = line.split()
        if not words:
            blank = True
        elif not blank:
            head[words[0]] = " ".join(words[1:])
        elif columns is None:
            columns = words
        else:
            units = words
    if not ended:
        raise Bad("header does not end")
    if columns is None or units is None:
        raise Bad("no columns")
    if len(columns) != len(units):
        raise Bad("columns and units")
    for key in NEEDED:
        if not head.get(key, "").split():
            raise Bad(f"no {key}")
        head[key] = head[key].split()[0]
    try:
        ny, nx, size = (int(head[k]) for k in NEEDED[:3])
        south, north, west, east = (float(head[k]) for k in NEEDED[3:])
    except ValueError:
        raise Bad("numbers of the header")
    if ny * nx != size:
        raise Bad("shape and size")
    if usecols is not None:
        columns = [columns[j] for j in usecols]
    rows = []
    for line in lines[k + 1:]:
        words = line.split("#")[0].split()
        if not words:
            continue
        if usecols is None and len(words) != len(columns) or usecols is not None and len(words) <= max(usecols):
            raise Bad("row with another number of columns")
        words = [words[j] for j in usecols] if usecols is not None else words
        for w in words:
            if not NUMBER.match(w) and w.lower() not in ("nan", "inf", "-inf"):
                raise Bad(f"not a number: {w}")
        rows.append([float(w) for w in words])
    if len(rows) != size or size <= 0:
        raise Bad(f"{len(rows)} rows for {size} points")
    if "longitude" not in columns or "latitude" not in columns or len(set(columns)) != len(columns):
        raise Bad("coordinates missing")
    table = np.array(rows).astype(dtype).T.reshape(len(columns), ny, nx)
    lon, lat = table[columns.index("longitude")].astype(float), table[columns.index("latitude")].astype(float)
    if not (np.all(np.isfinite(lon)) and np.all(np.isfinite(lat))):
        raise Bad("coordinates are not numbers")
    gaps = [(north - south) / (ny - 1) if ny > 1 else 1.0, (east - west) / (nx - 1) if nx > 1 else 1.0]
    step = max(1e-9, min(abs(g) for g in gaps if g) if any(gaps) else 1.0)
    mesh = max(np.max(np.abs(lon - lon[:1])), np.max(np.abs(lat - lat[:, :1])))
    area = max(abs(lon.min() - west), abs(lon.max() - east), abs(lat.min() - south), abs(lat.max() - north))
    if mesh > 0.1 * step:
        raise Bad("coordinates do not form the grid")
    if area > 0.1 * step + 1e-5 * max(map(abs, (south, north, west, east))):
        raise Bad("area")
    data = {n: table[j][::-1] for j, n in enumerate(columns) if n not in ("longitude", "latitude")}
    if "height_over_ell" in head:
        try:
            data["height_over_ell"] = np.full((ny, nx), float(head["height_over_ell"].split()[0]))
        except (ValueError, IndexError):
            raise Bad("height")
    head = dict(head)
    head["attributes"] = " ".join(columns)
    head["attributes_units"] = " ".join(u.replace("[", "").replace("]", "").strip() for u in units)
    return dict(longitude=lon[0], latitude=lat[::-1, 0], data=data, attrs=head, tolerance=mesh)


def compare(grid, want, where):
    import numpy as np

    if tuple(grid.dims) != ("latitude", "longitude") and set(grid.dims) != {"latitude", "longitude"}:
        return f"dims {grid.dims}"
    for name in ("longitude", "latitude"):
        if grid[name].shape != want[name].shape or not np.allclose(grid[name].values, want[name], rtol=0, atol=want["tolerance"] + 1e-9):
            return f"{name} is {grid[name].values} instead of {want[name]}"
    if set(grid.data_vars) != set(want["data"]):
        return f"variables {sorted(grid.data_vars)} instead of {sorted(want['data'])}"
    for name, v in want["data"].items():
        if tuple(grid[name].dims) != ("latitude", "longitude"):
            return f"{name} has dims {grid[name].dims}"
        bad = equal_values(np.asarray(grid[name].values, float), np.asarray(v, float), 0.0, path=name)
        if bad:
            return bad
    got = {k: v for k, v in grid.attrs.items() if k != "attributes_units"}
    need = {k: v for k, v in want["attrs"].items() if k != "attributes_units"}
    if got != need:
        odd = sorted(k for k in set(got) | set(need) if got.get(k) != need.get(k))
        return f"metadata {[(k, got.get(k), need.get(k)) for k in odd]}"
    return None


# ---------------------------------------------------------------- running
def source(r, path, blob):
    """(what to pass to the reader, the caller's file or None, what to close)."""
    kind = r["source"]
    if kind == "str":
        return str(path), None
    if kind == "path":
        return path, None
    if kind == "open":
        f = path.open()
        return f, f
    if kind == "newline":
        f = open(path, newline="", buffering=64)
        return f, f
    if kind == "spooled":
        import tempfile

        f = tempfile.SpooledTemporaryFile(mode="w+", encoding="utf-8", newline="")
        f.write(blob.decode("utf-8"))
        f.seek(0)
        return f, f
    if kind == "stringio":
        f = io.StringIO(blob.decode("utf-8"), newline=None)
        return f, f
    raw = reading.Raw(blob, Rng("raw", len(blob)), r["piece"], None if r["fail"] is None else int(r["fail"] * len(blob)),
                      OSError(5, "caller's stream failed"))
    f = io.TextIOWrapper(io.BufferedReader(raw, buffer_size=512), encoding="utf-8")
    f.raw_stream = raw
    return f, f


def run(case, ctx, out):
    hm = ctx["hm"]
    folder = reading.folder()
    try:
        body(case, hm, folder, out)
    finally:
        reading.remove(folder)


def body(case, hm, folder, out):
    made = files.icgem(case["spec"])
    damaged = apply(made, case["damage"])
    paths = {}
    for name, blob in (("healthy", made["bytes"]), ("damaged", damaged)):
        paths[name] = folder / f"{name}.gdf"
        paths[name].write_bytes(blob)
    trace, nontrivial = [], bool(case["damage"])
    ncol = 2 + case["spec"]["extra"]
    for k, r in enumerate(case["reads"]):
        name = "damaged" if r["damaged"] else "healthy"
        blob = dict(damaged=damaged, healthy=made["bytes"])[name]
        where = f"{case['spec']}, damage {case['damage']}, read {k} {r}"
        kw = {}
        if "usecols" in r:
            rng = Rng("cols", r["usecols"])
            cols = [j for j in range(ncol) if rng.chance(0.6)]
            names = made["expect"]["attrs"]["attributes"].split()
            cols += [j for j in range(ncol) if names[j] in ("longitude", "latitude") and j not in cols]
            rng.shuffle(cols)
            kw["usecols"] = tuple(cols)
        if "dtype" in r:
            kw["dtype"] = r["dtype"]
        path = paths[name]
        if r.get("shared"):  # another file at the path read before, with the same time stamp
            path = folder / "shared.gdf"
            path.write_bytes(blob)
            os.utime(path, (10**9, 10**9))
        plain = dict(usecols=kw.get("usecols"), dtype=kw.get("dtype", "float64"))
        try:
            want, why = reference(blob, **plain), None
        except Bad as e:
            want, why = None, str(e)
        if r["source"] in ("stringio", "spooled"):
            try:
                blob.decode("utf-8")
            except UnicodeDecodeError:
                continue
        mine = []

        def go():
            arg, owned = source(r, path, blob)
            if owned is not None:
                mine.append(owned)
            return hm.load_icgem_gdf(arg, **kw)

        res = reading.call(go, folder, r, out)
        hard, eof, closing = reading.effective(res, r)
        owned = mine[-1] if mine else None
        raw = getattr(owned, "raw_stream", None)
        fds = res.open
        if owned is not None:
            if owned.closed:
                raise Violation("closed-the-callers-file", where)
            with_caller = [f for f in mine if hasattr(f, "fileno") and not isinstance(f, io.StringIO) and raw is None and r["source"] != "spooled"]
            allowed = {f.fileno() for f in with_caller if not f.closed}
            fds = [x for x in fds if x[0] not in allowed]
        if fds:
            raise Violation("file-left-open", f"{where}: {fds} after {res.kind} {res.error!r}")
        if owned is None and res.leaks:
            raise Violation("file-not-closed", f"{where}: {res.leaks}")
        for f in mine:
            try:
                f.close()
            except Exception:
                pass
        fault = bool(res.disk["fired"]) or bool(res.tracer.fired) or (raw is not None and raw.failed)
        nontrivial = nontrivial or fault or bool(r.get("chunk"))
        outcome = res.kind
        if res.kind == "error" and not isinstance(res.error, Exception) and not res.tracer.fired:
            raise Violation("unexpected-exit", f"{where}: {res.error!r}")
        if res.kind == "value":
            grid = res.value
            if hard:
                raise Violation("read-error-hidden", f"{where}: returned a grid after {hard}")
            if raw is not None and raw.failed:
                raise Violation("read-error-hidden", f"{where}: returned a grid after the caller's stream failed")
            if eof and owned is None or eof and r["source"] in ("open", "newline"):
                seen = blob[:res.disk["delivered"]]
                try:
                    want, why = reference(seen, **plain), None
                except Bad as e:
                    want, why = None, f"only {len(seen)} of {len(blob)} bytes delivered: {e}"
            if want is None:
                raise Violation("inconsistent-file-accepted", f"{where}: {why}; returned {dict(grid.sizes)} "
                                f"lon {grid.longitude.values[:6]} lat {grid.latitude.values[:6]}")
            bad = compare(grid, want, where)
            if bad:
                raise Violation("wrong-grid", f"{where}: {bad}")
            digest = freeze(grid)
        else:
            digest = type(res.error).__name__
            clean = not fault and (name == "healthy" or not case["damage"])
            if clean:
                raise Violation("healthy-file-rejected", f"{where}: {digest}: {res.error}")
            if fault and not hard and not res.tracer.fired and not eof and not closing and not (raw is not None and raw.failed) and (name == "healthy" or not case["damage"]):
                raise Violation("delivery-broke-the-reader", f"{where}: {digest}: {res.error}; faults fired {res.disk['fired']}")
            if why is None and name == "damaged":
                out.stats.add("consistent_damage_rejected")
        trace.append((r["source"], name, outcome, sorted(res.disk["fired"]), why, interrupt.short(res.tracer.fired)))
        out.stats.add(f"{outcome}_{r['source']}")
        if why:
            out.stats.add("must_raise")
        res.value = res.error = None
    for d in case["damage"]:
        out.fired("rest-" + d[0])
    out.digest = sha(trace, damaged)
    if nontrivial:
        out.sigs.append([case["spec"], trace])


def shrink(case):
    for k in range(len(case["reads"])):
        if len(case["reads"]) > 1:
            yield dict(case, reads=case["reads"][:k] + case["reads"][k + 1:])
    for k in range(len(case["damage"])):
        yield dict(case, damage=case["damage"][:k] + case["damage"][k + 1:])
    for key, v in dict(ny=2, nx=2, extra=1, eol="\n", final=True).items():
        if case["spec"][key] != v:
            yield dict(case, spec=dict(case["spec"], **{key: v}))
    for key in ("height", "columns"):
        if key in case["spec"]:
            yield dict(case, spec={a: b for a, b in case["spec"].items() if a != key})
    for k, r in enumerate(case["reads"]):
        for key in ("exc", "chunk", "usecols", "dtype"):
            if key in r:
                yield dict(case, reads=case["reads"][:k] + [{a: b for a, b in r.items() if a != key}] + case["reads"][k + 1:])
        for j in range(len(r.get("faults", ()))):
            yield dict(case, reads=case["reads"][:k] + [dict(r, faults=r["faults"][:j] + r["faults"][j + 1:])] + case["reads"][k + 1:])
        if r["source"] not in ("path",):
            yield dict(case, reads=case["reads"][:k] + [dict(r, source="path")] + case["reads"][k + 1:])
