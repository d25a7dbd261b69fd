"""A simulated Internet holding one archived IGRF coefficient file.

Everything above requests' transport adapter (requests, pooch, harmonica) is
real; the adapter's ``send`` is answered from here.  The archived file is
synthetic: its digest is presented as the official one, so every integrity
check of the code under test runs and must accept exactly this file.
"""

import hashlib
import io
import json

from .core import Rng

OFFICIAL_MD5 = "3606931c15c9234d9ba8e2e91b729cb0"
OFFICIAL_DOI = "10.5281/zenodo.14218973"
FILE_NAME = "igrf14coeffs.txt"
RECORD = "14218973"
EPOCHS = list(range(1900, 2026, 5))
NMAX = 13


class Archive:
    """A coefficient file drawn from a seed: arrays, text and digest."""

    def __init__(self, seed):
        import numpy as np

        r = np.random.default_rng(seed)
        ne = len(EPOCHS)
        self.g = np.zeros((ne, NMAX + 1, NMAX + 1))
        self.h = np.zeros((ne, NMAX + 1, NMAX + 1))
        self.gsv = np.zeros((NMAX + 1, NMAX + 1))
        self.hsv = np.zeros((NMAX + 1, NMAX + 1))
        for n in range(1, NMAX + 1):
            size = 3e4 / n**2.5
            for m in range(n + 1):
                for arr, sv, use in ((self.g, self.gsv, True), (self.h, self.hsv, m > 0)):
                    if use:
                        arr[:, n, m] = np.round(r.normal(0, size) + np.cumsum(r.normal(0, 0.02 * size, ne)), 2)
                        sv[n, m] = round(float(r.normal(0, 0.005 * size)), 2)
        head = [
            "# 14th Generation International Geomagnetic Reference Field Schmidt semi-normalised spherical harmonic coefficients, degree n=1,13",
            "# in units nanoTesla for IGRF and definitive DGRF main-field models (degree n=1,8 nanoTesla/year for secular variation (SV))",
            "c/s deg ord " + " ".join("DGRF" if y not in (1900, 2025) else "IGRF" for y in EPOCHS) + "     SV",
            "g/h n m " + " ".join(f"{y}.0" for y in EPOCHS) + " 2025-30",
        ]
        rows = []
        for n in range(1, NMAX + 1):
            for m in range(n + 1):
                rows.append(f"g  {n:2d}  {m:2d} " + " ".join(f"{v:9.2f}" for v in self.g[:, n, m]) + f" {self.gsv[n, m]:9.2f}")
                if m:
                    rows.append(f"h  {n:2d}  {m:2d} " + " ".join(f"{v:9.2f}" for v in self.h[:, n, m]) + f" {self.hsv[n, m]:9.2f}")
        self.bytes = ("\n".join(head + rows) + "\n").encode()
        self.md5 = hashlib.md5(self.bytes).hexdigest()

    def at(self, date):
        """g, h at a date (full degree), from the definition."""
        import datetime

        k = min((date.year - EPOCHS[0]) // 5, len(EPOCHS) - 1)
        t0 = datetime.datetime(EPOCHS[k], 1, 1)
        dt = (date - t0) / datetime.timedelta(days=1)
        if k == len(EPOCHS) - 1:
            years = dt / 365.25
            return self.g[k] + years * self.gsv, self.h[k] + years * self.hsv
        span = (datetime.datetime(EPOCHS[k] + 5, 1, 1) - t0) / datetime.timedelta(days=1)
        w = dt / span
        return (1 - w) * self.g[k] + w * self.g[k + 1], (1 - w) * self.h[k] + w * self.h[k + 1]


def synthesis(g, h, nmin, nmax, lon, lat, height, a, f):
    """Field (east, north, up) in the geodetic system by direct summation."""
    import math

    import numpy as np
    from scipy.special import lpmv

    lon, lat, height = (np.asarray(v, dtype=float) for v in (lon, lat, height))
    e2 = f * (2 - f)
    phi = np.radians(lat)
    nu = a / np.sqrt(1 - e2 * np.sin(phi) ** 2)
    rho, z = (nu + height) * np.cos(phi), (nu * (1 - e2) + height) * np.sin(phi)
    r, sph = np.hypot(rho, z), np.arctan2(z, rho)
    x = np.sin(sph)
    lam = np.radians(lon)

    def leg(n, m):
        if m > n:
            return np.zeros_like(x)
        if m < 0:
            return None
        return (-1) ** m * lpmv(m, n, x)

    be, bt, br = (np.zeros(np.broadcast(lon, r).shape) for _ in range(3))
    for n in range(max(nmin, 0), nmax + 1):
        for m in range(n + 1):
            norm = math.sqrt((2 if m else 1) * math.factorial(n - m) / math.factorial(n + m))
            p = norm * leg(n, m)
            if m == 0:
                dp = -norm * leg(n, 1)
            else:
                dp = norm * 0.5 * ((n + m) * (n - m + 1) * leg(n, m - 1) - leg(n, m + 1))
            q = (6371.2e3 / r) ** (n + 2)
            c, s = np.cos(m * lam), np.sin(m * lam)
            be += q * (m * g[n, m] * s - m * h[n, m] * c) * p
            bt += q * (g[n, m] * c + h[n, m] * s) * dp
            br += (n + 1) * q * (g[n, m] * c + h[n, m] * s) * p
    with np.errstate(all="ignore"):
        be = be / np.cos(sph)
    # bt is the derivative along colatitude, which is the northward component
    d = sph - phi
    return be, np.cos(d) * bt + np.sin(d) * br, -np.sin(d) * bt + np.cos(d) * br


class _Hasher:
    def __init__(self, world, data=b""):
        self._w, self._h = world, world.real_md5(data)
        self.name, self.digest_size, self.block_size = "md5", 16, 64

    def update(self, data):
        self._h.update(data)

    def hexdigest(self):
        d = self._h.hexdigest()
        return OFFICIAL_MD5 if d == self._w.archive.md5 else d

    def digest(self):
        return bytes.fromhex(self.hexdigest())

    def copy(self):
        new = _Hasher(self._w)
        new._h = self._h.copy()
        return new


class Clock:
    def __init__(self):
        self.now = 0.0

    def sleep(self, seconds):
        self.now += max(0.0, float(seconds))


class World:
    """Installs the simulated network, digest and clock in this process.

    ``faults`` maps the index of a request to [kind, number]; requests beyond
    the plan are served.
    """

    def __init__(self, archive, faults=None, on_request=None):
        self.archive = archive
        self.faults = dict(faults or {})
        self.requests = []
        self.fired = []
        self.clock = Clock()
        self.real_md5 = hashlib.md5
        self.on_request = on_request
        self.offline = False

    def install(self):
        import logging
        import time

        import pooch.hashes
        import pooch.utils
        import requests.adapters

        world = self
        pooch.utils.get_logger().setLevel(logging.CRITICAL)

        def md5(data=b"", **kw):
            return _Hasher(world, data)

        real_new = hashlib.new

        def new(name, data=b"", **kw):
            return md5(data) if name.lower() == "md5" else real_new(name, data, **kw)

        hashlib.md5, hashlib.new = md5, new
        for name in ("md5", "MD5"):
            pooch.hashes.ALGORITHMS_AVAILABLE[name] = md5
        requests.adapters.HTTPAdapter.send = lambda adapter, request, **kw: world.send(adapter, request, **kw)
        time.sleep = self.clock.sleep
        return self

    # -------------------------------------------------------------- server
    def send(self, adapter, request, **kw):
        import requests

        index = len(self.requests)
        self.requests.append(f"{request.method} {request.url}")
        if self.on_request:
            self.on_request(index)
        kind, arg = self.faults.get(index, (None, 0))
        if self.offline:
            kind, arg = "refused", 0
        if kind:
            self.fired.append(kind)
        timeout = kw.get("timeout")
        if isinstance(timeout, tuple):
            timeout = timeout[-1]
        if kind == "refused":
            raise requests.exceptions.ConnectionError(f"simulated: connection refused to {request.url}", request=request)
        if kind == "dns":
            raise requests.exceptions.ConnectionError("simulated: name resolution failed", request=request)
        if kind == "tls":
            raise requests.exceptions.SSLError("simulated: certificate verify failed", request=request)
        if kind == "timeout":
            if timeout is None:
                raise Hang("request without a timeout on a stalled server")
            self.clock.now += float(timeout)
            raise requests.exceptions.ReadTimeout("simulated: timed out", request=request)
        self.clock.now += 0.05
        if kind == "slow":
            self.clock.now += 5.0 + arg
        url = request.url.split("?")[0]
        status, headers, body = 404, {}, b"not found"
        if url == f"https://doi.org/{OFFICIAL_DOI}":
            status, headers, body = 302, {"Location": f"https://zenodo.org/records/{RECORD}"}, b""
        elif url == f"https://zenodo.org/records/{RECORD}":
            status, body = 200, b"<html>record</html>"
        elif url == f"https://zenodo.org/api/records/{RECORD}":
            files = [] if kind == "missing_file" else [dict(
                key=FILE_NAME, checksum=f"md5:{OFFICIAL_MD5}", size=len(self.archive.bytes),
                links=dict(self=f"https://zenodo.org/api/records/{RECORD}/files/{FILE_NAME}/content"))]
            status, headers, body = 200, {"Content-Type": "application/json"}, json.dumps(
                dict(id=int(RECORD), files=files)).encode()
        elif FILE_NAME in url and RECORD in url:
            status, headers, body = 200, {"Content-Type": "text/plain"}, self.archive.bytes
        declared = len(body)
        reset_at = None
        if kind == "status":
            status, headers, body = int(arg), {}, b"<html>error</html>"
            declared = len(body)
        elif kind == "html":
            status, headers, body = 200, {"Content-Type": "text/html"}, b"<html>Please log in to this network</html>"
            declared = len(body)
        elif kind == "empty":
            body, declared = b"", 0
        elif kind == "truncated":  # connection closed early, length declared
            body = body[: int(arg) % max(1, len(body))]
        elif kind == "short":  # a shorter but consistent body
            body = body[: int(arg) % max(1, len(body))]
            declared = len(body)
        elif kind == "whole_lines":  # ends exactly at a line break
            lines = body.splitlines(keepends=True)
            body = b"".join(lines[: int(arg) % max(1, len(lines))])
            declared = len(body)
        elif kind == "bitflip" and body:
            b = bytearray(body)
            b[int(arg) % len(b)] ^= 1 << (int(arg) % 7)
            body = bytes(b)
        elif kind == "digit" and body:  # still a perfectly readable file
            b = bytearray(body)
            digits = [i for i, c in enumerate(b) if 48 <= c <= 57]
            if digits:
                i = digits[int(arg) % len(digits)]
                b[i] = 48 + (b[i] - 48 + 1) % 10
            body = bytes(b)
        elif kind == "other_version":
            body = Archive(int(arg) + 12345).bytes
            declared = len(body)
        elif kind == "swapped" and body:  # two lines in another order
            lines = body.splitlines(keepends=True)
            i = int(arg) % max(1, len(lines) - 1)
            lines[i:i + 2] = lines[i:i + 2][::-1]
            body = b"".join(lines)
        elif kind == "doubled":
            body = body + body
            declared = len(body)
        elif kind == "reset":
            reset_at = int(arg) % max(1, len(body))
        if kind != "nolength":
            headers["Content-Length"] = str(declared)
        return self.respond(adapter, request, status, headers, body, reset_at)

    def respond(self, adapter, request, status, headers, body, reset_at):
        import urllib3

        raw = urllib3.HTTPResponse(
            body=Body(body, reset_at), headers=urllib3.HTTPHeaderDict(headers), status=status,
            preload_content=False, decode_content=False, request_method=request.method, request_url=request.url,
            reason=dict([(200, "OK"), (302, "Found")]).get(status, "error"),
        )
        return adapter.build_response(request, raw)


def serve(seed=1):
    """A healthy network and an empty cache in a scratch folder."""
    import atexit
    import os
    import shutil
    import tempfile

    scratch = tempfile.mkdtemp(prefix="igrf-", dir=os.environ.get("VERIF_SCRATCH"))
    os.environ["XDG_CACHE_HOME"] = scratch
    if not os.environ.get("VERIF_SCRATCH"):
        atexit.register(shutil.rmtree, scratch, True)
    return World(Archive(seed)).install()


class Hang(BaseException):
    """The simulated client would wait forever."""


class Body(io.RawIOBase):
    def __init__(self, data, reset_at):
        self.data, self.pos, self.reset_at = data, 0, reset_at

    def readable(self):
        return True

    def read(self, n=-1):
        if self.reset_at is not None and self.pos >= self.reset_at:
            raise ConnectionResetError(104, "simulated: connection reset by peer")
        end = len(self.data) if n is None or n < 0 else self.pos + n
        if self.reset_at is not None:
            end = min(end, self.reset_at)
        out = self.data[self.pos:end]
        self.pos += len(out)
        return out

    def readinto(self, b):
        out = self.read(len(b))
        b[: len(out)] = out
        return len(out)

    read1 = read


KINDS = ["refused", "dns", "tls", "timeout", "slow", "status", "html", "empty", "truncated", "short", "whole_lines",
         "bitflip", "digit", "other_version", "swapped", "doubled", "reset", "nolength", "missing_file"]


def random_faults(rng, n=8, rate=0.5):
    """{request index: [kind, number]} as a JSON list."""
    out = []
    for i in range(n):
        if rng.chance(rate):
            kind = rng.pick(KINDS)
            arg = rng.pick([404, 403, 429, 500, 502, 503, 504]) if kind == "status" else rng.randrange(60000)
            out.append([i, kind, arg])
    return out


def rng_of(seed):
    return Rng("simnet", seed)
