"""Exceptions injected at chosen statements of library code.

A dry run records the sequence of executed lines of the library (file, line);
a plan then names one of them by position, and the same execution is repeated
with the exception raised just before that line runs.
"""

import ast
import dis
import os
import sys
import tokenize

from . import boot

EXCEPTIONS = dict(
    memory=MemoryError, interrupt=KeyboardInterrupt, os=OSError, value=ValueError, exit=SystemExit,
    float=FloatingPointError, linalg=None,
)
_inside = {}
_plain = {}
_cleanup = {}
# a statement made of these only moves references around: no call returns in it,
# nothing is allocated, and CPython never checks for signals during it
PLAIN = {
    "LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "LOAD_CONST", "LOAD_DEREF", "STORE_ATTR", "STORE_FAST",
    "STORE_DEREF", "RETURN_VALUE", "RETURN_CONST", "COPY", "SWAP", "NOP", "POP_TOP", "PUSH_NULL", "RESUME",
    "JUMP_FORWARD", "CACHE", "EXTENDED_ARG", "BUILD_TUPLE", "UNPACK_SEQUENCE",
}
# handing finished values over, name by name: as good as one step (the window is
# nanoseconds wide and no calculation happens in it)
HANDING = PLAIN | {
    "LOAD_ATTR", "LOAD_GLOBAL", "CALL", "KW_NAMES", "GET_ITER", "FOR_ITER", "END_FOR", "JUMP_BACKWARD", "BUILD_LIST",
    "BUILD_MAP", "BUILD_CONST_KEY_MAP", "LIST_EXTEND", "BINARY_SUBSCR", "DICT_MERGE", "DICT_UPDATE", "CALL_FUNCTION_EX",
    "RETURN_GENERATOR", "STORE_SUBSCR", "BINARY_SLICE",
}
HANDERS = {"setattr", "getattr", "update", "items", "keys", "values", "zip", "vars", "__dict__", "dict", "tuple", "list"}


def plain(code, lineno):
    """True when the line can neither fail nor be interrupted."""
    lines = _plain.get(code)
    if lines is None:
        lines, current, managers = {}, None, set()
        for ins in dis.get_instructions(code):
            if ins.positions and ins.positions.lineno is not None:
                current = ins.positions.lineno
            if ins.opname == "BEFORE_WITH":
                managers.add(current)  # visited again right before the block is left
            ok = ins.opname in PLAIN
            if not ok and ins.opname in HANDING:
                ok = ins.opname not in ("LOAD_GLOBAL",) or ins.argval in HANDERS
                if ins.opname == "LOAD_ATTR" and ins.arg & 1:  # a method about to be called
                    ok = ins.argval in HANDERS
            lines[current] = lines.get(current, True) and ok
        lines.update(dict.fromkeys(managers, True))
        lines.update(dict.fromkeys(cleanup(code.co_filename), True))
        _plain[code] = lines
    return lines.get(lineno, False)


def cleanup(filename):
    """Lines of the ``finally`` and ``except`` blocks of a file.

    A second failure in the middle of undoing a first one is beyond what any
    code can survive.
    """
    lines = _cleanup.get(filename)
    if lines is None:
        lines = set()
        try:
            with tokenize.open(filename) as f:  # the real disk, not a simulated one
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            tree = ast.Module([], [])
        for node in ast.walk(tree):
            if isinstance(node, ast.Try):
                for part in node.finalbody + node.handlers:
                    lines.update(range(part.lineno, part.end_lineno + 1))
        _cleanup[filename] = lines
    return lines


def exception(kind):
    if kind == "linalg":
        import numpy as np

        return np.linalg.LinAlgError("injected")
    if kind == "os":
        return OSError(5, "injected")
    return EXCEPTIONS[kind]("injected")


def is_library(filename, roots):
    key = (filename, roots)
    hit = _inside.get(key)
    if hit is None:
        hit = _inside[key] = any(filename.startswith(r) for r in roots)
    return hit


def harmonica_roots():
    return (str(boot.SRC / "harmonica") + os.sep,)


def all_roots():
    import verde

    return harmonica_roots() + (os.path.dirname(verde.__file__) + os.sep,)


class Tracer:
    """Counts library lines; raises at line number ``at`` (0 = first)."""

    def __init__(self, at=None, kind="interrupt", roots=None, allow=None):
        self.at, self.kind, self.allow = at, kind, allow
        self.roots = roots or harmonica_roots()
        self.sites = []
        self.fired = None

    def __enter__(self):
        self.previous = sys.gettrace()
        self.handled = sys.exc_info()[1]
        sys.settrace(self.on_call)
        return self

    def __exit__(self, *exc):
        sys.settrace(self.previous)
        return False

    def on_call(self, frame, event, arg):
        if event == "call" and is_library(frame.f_code.co_filename, self.roots):
            return self.on_line
        return None

    def on_line(self, frame, event, arg):
        if event == "line" and not plain(frame.f_code, frame.f_lineno):
            k = len(self.sites)
            site = (frame.f_code.co_filename, frame.f_lineno)
            self.sites.append(site)
            if self.at is not None and k >= self.at and self.fired is None and (
                self.allow is None or self.allow()
            ) and sys.exc_info()[1] is self.handled:
                self.fired = site
                sys.settrace(None)
                raise exception(self.kind)
        return self.on_line


def choose(rng, sites):
    """Position of a line to fail at: uniform over distinct lines, then visits."""
    if not sites:
        return None
    distinct = sorted(set(sites))
    site = rng.pick(distinct)
    where = [i for i, s in enumerate(sites) if s == site]
    return rng.pick(where[:1] + where[-1:] + where)


def short(site):
    return f"{os.path.basename(site[0])}:{site[1]}" if site else None
