"""Deterministic fault injection: raise an exception before the k-th executed source line of the code under test."""
import ast
import functools
import os
import sys

from .core import REPO

ROOT = os.path.join(REPO, "src") + os.sep


class Injected(RuntimeError):
    pass


class Interrupted(BaseException):
    """Like a KeyboardInterrupt: not an Exception."""


@functools.lru_cache(None)
def protected(path):
    """Lines where no program can defend itself against an exception: the heads of `with` (also executed on the way out)
    and `try` statements, and clean-up code (`finally`, `except`)."""
    out = set()
    try:
        tree = ast.parse(open(path).read())
    except (OSError, SyntaxError):
        return out
    for node in ast.walk(tree):
        if isinstance(node, (ast.With, ast.AsyncWith)):
            out.update(range(node.lineno, node.body[0].lineno))
        elif isinstance(node, ast.Try):
            out.add(node.lineno)
            for part in list(node.finalbody) + list(node.handlers):
                out.update(range(part.lineno, part.end_lineno + 1))
    return out


def lines(fn):
    """Number of source lines of the code under test that `fn` executes (and its result)."""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
        return local

    def enter(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(ROOT) else None
    old = sys.gettrace()
    sys.settrace(enter)
    try:
        out = fn()
    finally:
        sys.settrace(old)
    return n[0], out


def trail(fn):
    """The executed source lines of the code under test, in order: [(file, line), ...]."""
    out = []

    def local(frame, event, arg):
        if event == "line":
            out.append((frame.f_code.co_filename, frame.f_lineno))
        return local

    def enter(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(ROOT) else None
    old = sys.gettrace()
    sys.settrace(enter)
    try:
        fn()
    finally:
        sys.settrace(old)
    return out


def places(r, fn):
    """One execution step (1-based) for every distinct source line that `fn` executes."""
    at = {}
    for k, q in enumerate(trail(fn), 1):
        at.setdefault(q, []).append(k)
    return [ks[0] if r.random() < .5 else ks[int(r.integers(len(ks)))] for ks in at.values()]


def interrupt(fn, k, exc=Interrupted):
    """Run `fn` and raise `exc` before line number `k` (or the first one after it that is not protected); returns (where, escaped exception or None)."""
    n, where = [0], [None]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] >= k and where[0] is None and frame.f_lineno not in protected(frame.f_code.co_filename):
                where[0] = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                raise exc("injected")
        return local

    def enter(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(ROOT) else None
    old = sys.gettrace()
    sys.settrace(enter)
    try:
        fn()
        return where[0], None
    except BaseException as e:
        return where[0], e
    finally:
        sys.settrace(old)
