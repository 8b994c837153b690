"""Interrupt the code under test at a chosen point (a line of its source about to run)."""
import ast
import os
import sys

from . import env

PACKAGE = os.path.realpath(os.path.join(env.SRC, "openscm_twolayermodel"))
_CLEANUP = {}


def _cleanup_lines(path):
    """Lines of handlers and finally blocks: no point of interruption (nothing could clean up after itself)."""
    if path not in _CLEANUP:
        lines = set()
        with open(path, "rb") as fh:
            tree = ast.parse(fh.read())
        for node in ast.walk(tree):
            parts = []
            if isinstance(node, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                parts = list(node.finalbody) + list(node.handlers)
                # the line that enters the protected block
                lines.add(node.lineno)
            for part in parts:
                lines.update(range(part.lineno, part.end_lineno + 1))
        _CLEANUP[path] = lines
    return _CLEANUP[path]


class Points:
    def __init__(self, on_event):
        self.on_event = on_event
        self.known = {}

    def inside(self, filename):
        if filename not in self.known:
            self.known[filename] = os.path.realpath(filename).startswith(PACKAGE + os.sep)
        return self.known[filename]

    def glob(self, frame, event, arg):
        if event == "call" and self.inside(frame.f_code.co_filename):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line" and not _in_cleanup(frame):
            self.on_event(frame)
        return self.local


def _in_cleanup(frame):
    """This line, or a line that called it, is part of cleaning up."""
    while frame is not None:
        name = frame.f_code.co_filename
        if name.startswith(env.SRC) and frame.f_lineno in _cleanup_lines(name):
            return True
        frame = frame.f_back
    return False


def traced(func, on_event):
    old = sys.gettrace()
    sys.settrace(Points(on_event).glob)
    try:
        return func()
    finally:
        sys.settrace(old)


def count(func):
    """How many points func() passes."""
    seen = [0]

    def event(frame):
        seen[0] += 1

    traced(func, event)
    return seen[0]


def interrupt(func, at, exc):
    """Run func() but raise exc at its at-th point; returns (line text or None, exception that came out or None)."""
    state = {"n": 0, "where": None}

    def event(frame):
        if state["where"] is None:
            if state["n"] == at:
                state["where"] = "{}:{}".format(os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise exc
            state["n"] += 1

    try:
        traced(func, event)
    except BaseException as got:  # pylint: disable=broad-except
        return state["where"], got
    return state["where"], None
