"""Calls leave the process they run in as it was."""
import contextlib
import gc
import io
import locale
import logging
import os
import random
import re
import signal
import sys
import tempfile
import threading
import warnings
import decimal
import time

import numpy as np
import pandas as pd
import pint

from .. import crash, dictionary, gens, scen, sut
from ..core import Violation, require
from ..env import ScmRun, convert_lambda_to_ecs, ur
from ..gens import st

RULE = (
    "up to 5 calls (constructing, assigning, set_drivers, reset, run, step, scenario runs with and without progress bar, conversions, climate "
    "sensitivity), successful, refused, failing or interrupted at a generated source line, under generated settings of the process; everything "
    "observable about the process compared before and after each call; non-trivial = at least one run or failing call"
)
ASSUMPTIONS = [
    "caches of the libraries underneath, and the monitor thread of the progress bar, are not settings",
    "with a progress bar only standard error is written",
]
EXAMPLES = {"quick": 110, "thorough": 8000}

CALLS = [
    "construct", "construct badly", "assign", "assign badly", "drivers", "drivers badly", "reset", "reset badly", "run", "run", "step",
    "scenarios", "scenarios", "progress", "no world", "bad axis", "gap", "not data", "convert", "convert badly", "ecs", "ecs badly",
]


@st.composite
def strategy_(draw):
    calls = []
    for _ in range(draw(st.integers(1, 5))):
        c = {"call": draw(st.sampled_from(CALLS)), "kind": draw(st.sampled_from(["tl", "ir"])), "at": draw(gens.sometimes(5, st.floats(0, 1)))}
        c["spec"] = draw(gens.model_spec(wide=False, which=(c["kind"],)))
        c["driver"] = draw(gens.driver("default", max_list=6, max_len=12, long_odds=40, long_len=60, value=st.one_of(gens.forcing_value(1e3), gens.forcing_value(1e3), st.sampled_from([1e200, -1e308]))))
        if c["call"] in ("scenarios", "progress"):
            c["axis"] = draw(scen.axis(2, 6))
            c["rows"] = draw(scen.rows(c["axis"]["n"], 1, 3))
            c["frame"] = draw(st.booleans())
        calls.append(c)
    return {
        "calls": calls,
        "settings": draw(
            st.fixed_dictionaries(
                {
                    "numpy": st.sampled_from(["ignore", "warn"]), "filter": st.sampled_from(["ignore", "default", "always"]),
                    "precision": st.sampled_from([None, 3, 12]), "seed": st.integers(0, 9), "units": st.sampled_from(["", "~", "P"]),
                }
            )
        ),
    }


def _directed():
    """Batches of many scenarios."""
    out = []
    for i, count in enumerate([12, 25, 40, 60, 110] + dictionary.lengths(13, 300, novel=True)[:8]):
        for call in ("scenarios", "progress"):
            kind = ("tl", "ir")[(i + (call == "progress")) % 2]
            c = {
                "call": call, "kind": kind, "at": None, "spec": {"model": kind, "via": "ctor", "params": {}}, "frame": bool(i % 2),
                "driver": {"forcing": {"values": [1.0, 2.0]}, "unit": "W/m^2"},
                "axis": {"kind": ("yearly", "monthly")[i % 2], "year": 2000, "month": 1, "n": 3}, "rows": scen.bulk_rows(count, 3),
            }
            settings = {"numpy": "warn", "filter": "default", "precision": None, "seed": i, "units": ""}
            out.append({"calls": [c], "settings": settings})
    return out


DIRECTED = _directed()


def strategy(tier):
    return strategy_()


# ---------------------------------------------------------------- what a process looks like

PROBES = [(1.0, "yr"), (1.0, "month"), (1.0, "W/m^2"), (1.0, "K"), (1.0, "delta_degC"), (1.0, "J/delta_degC/m^2"), (1.0, "day"), (1.0, "GtC"), (1.0, "degC")]
REGISTRY = ["default_format", "autoconvert_offset_to_baseunit", "force_ndarray", "force_ndarray_like", "default_as_delta", "case_sensitive", "auto_reduce_dimensions", "preprocessors"]


def pandas_options():
    out = {}

    def walk(prefix, tree):
        for k, v in tree.items():
            if isinstance(v, dict):
                walk(prefix + k + ".", v)
            else:
                out[prefix + k] = repr(v)

    walk("", pd._config.config._global_config)
    return out


def numpy_random():
    kind, keys, pos, has, cached = np.random.get_state()
    return (kind, keys.tobytes(), pos, has, cached)


def package_constants():
    mod = sys.modules["openscm_twolayermodel.constants"]
    return {k: (getattr(mod, k).magnitude, str(getattr(mod, k).units)) for k in ("DENSITY_WATER", "HEAT_CAPACITY_WATER")}


def class_data(cls):
    return {k: repr(v) for k, v in vars(cls).items() if not k.startswith("_") and isinstance(v, (str, int, float, tuple, list, dict, type(None)))}


ASPECTS = {
    "numpy error handling": lambda: (dict(np.geterr()), np.geterrcall()),
    "numpy print options": lambda: {k: repr(v) for k, v in np.get_printoptions().items()},
    "numpy random state": numpy_random,
    "random state": random.getstate,
    "warning filters": lambda: list(warnings.filters),
    "warning display": lambda: (warnings.showwarning, warnings.formatwarning),
    "pandas options": pandas_options,
    "unit registry settings": lambda: {k: repr(getattr(ur, k, None)) for k in REGISTRY},
    "unit registry contexts": lambda: repr(getattr(ur, "_active_ctx", None) and list(ur._active_ctx.maps and [sorted(map(str, m)) for m in ur._active_ctx.maps])),
    "unit definitions": lambda: [str(ur.Quantity(*p).to_base_units()) for p in PROBES],
    "pint's application registry": lambda: id(pint.get_application_registry().get() if hasattr(pint.get_application_registry(), "get") else pint.get_application_registry()),
    "constants of the package": package_constants,
    "ScmRun class": lambda: class_data(ScmRun),
    "working directory": os.getcwd,
    "environment variables": lambda: dict(os.environ),
    "import path": lambda: list(sys.path),
    "locale": lambda: locale.setlocale(locale.LC_ALL),
    "time zone": lambda: (time.tzname, time.timezone),
    "recursion limit": sys.getrecursionlimit,
    "decimal context": lambda: repr(decimal.getcontext()),
    "signal handlers": lambda: {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)},
    "alarm": lambda: signal.getitimer(signal.ITIMER_REAL)[0] > 0,
    "standard streams": lambda: (sys.stdin, sys.stdout, sys.stderr),
    "hooks": lambda: (sys.excepthook, sys.displayhook, threading.excepthook, sys.getprofile()),
    "logging": lambda: (logging.root.level, list(logging.root.handlers), logging.root.manager.disable, logging.getLoggerClass(), logging.raiseExceptions),
    "garbage collector": lambda: (gc.isenabled(), gc.get_threshold()),
    "switch interval": sys.getswitchinterval,
    "file mode mask": lambda: _umask(),
    "open files": lambda: sorted(_open_files()),
}


def _umask():
    now = os.umask(0o022)
    os.umask(now)
    return now


def _open_files():
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink("/proc/self/fd/" + fd))
        except OSError:
            pass
    return [f for f in out if not f.startswith("/proc/")]


def look():
    return {k: f() for k, f in ASPECTS.items()}


def threads():
    return sorted(t.name for t in threading.enumerate() if "TMonitor" not in type(t).__name__)


# ---------------------------------------------------------------- the calls


def call_of(c):
    """A function to call; whether it has to raise; and whether it computes anything."""
    kind, spec, what = c["kind"], c["spec"], c["call"]
    cls = sut.CLASSES[kind]
    drv = c["driver"]
    model = sut.build(spec)
    if what == "construct":
        quants = {k: sut.q(v) for k, v in spec["params"].items()}
        return lambda: cls(**quants), False
    if what == "construct badly":
        return lambda: cls(efficacy=ur.Quantity(1.0, "m")), True
    if what == "assign":
        value = sut.q(spec["params"]["efficacy"])
        return lambda: setattr(model, "efficacy", value), False
    if what == "assign badly":
        return lambda: setattr(model, "delta_t", ur.Quantity(1.0, "K")), True
    erf = sut.erf_quantity(drv)
    if what == "drivers":
        return lambda: model.set_drivers(erf), False
    if what == "drivers badly":
        return lambda: model.set_drivers(ur.Quantity(np.ones((2, 2)), "W/m^2")), True
    if what == "reset badly":
        return model.reset, True
    if what in ("reset", "run", "step"):
        model.set_drivers(erf)
        if what != "reset":
            model.reset()
        return {"reset": model.reset, "run": model.run, "step": model.step}[what], False
    if what in ("scenarios", "progress"):
        df = scen.frame(c["axis"], c["rows"])
        data = df if c["frame"] else ScmRun(df)
        return lambda: model.run_scenarios(data, progress=what == "progress"), False
    row = {"meta": {"model": "m", "scenario": "s"}, "unit": "W/m^2", "forcing": {"values": [1.0, 2.0, 3.0]}, "lead": 0, "trail": 0}
    axis = {"kind": "yearly", "year": 2000, "n": 3}
    if what == "no world":
        data = scen.scmrun(axis, [row], region="World|Land")
        return lambda: model.run_scenarios(data, progress=False), True
    if what == "bad axis":
        data = scen.scmrun({"kind": "explicit", "times": [[2000, 1, 1], [2002, 1, 1], [2004, 1, 1]], "n": 3}, [row])
        return lambda: model.run_scenarios(data, progress=False), True
    if what == "gap":
        other = dict(row, meta={"model": "m", "scenario": "t"}, forcing={"values": [1.0, float("nan"), 3.0]})
        data = scen.scmrun(axis, [row, other])
        return lambda: model.run_scenarios(data, progress=False), True
    if what == "not data":
        return lambda: model.run_scenarios(17, progress=False), True
    if what == "convert":
        if kind == "tl":
            model = sut.CLASSES["tl"](du=sut.q(spec["params"]["du"]), dl=sut.q(spec["params"]["dl"]), efficacy=sut.q(spec["params"]["efficacy"]))
            return model.get_impulse_response_parameters, False
        return model.get_two_layer_parameters, False
    if what == "convert badly":
        model = sut.CLASSES["tl"](a=ur.Quantity(0.1, "W/m^2/K^2"))
        return model.get_impulse_response_parameters, True
    lam, f2x = ur.Quantity(-1.1, "W/m^2/K"), ur.Quantity(3.5, "W/m^2")
    if what == "ecs":
        return lambda: convert_lambda_to_ecs(lam, f2x=f2x), False
    return lambda: convert_lambda_to_ecs(lam, f2x=3.5), True


class Planned(Exception):
    pass


def check(case, ctx):
    s = case["settings"]
    with contextlib.ExitStack() as stack:
        stack.enter_context(np.errstate(all=s["numpy"]))
        stack.enter_context(warnings.catch_warnings())
        warnings.simplefilter(s["filter"])
        if s["precision"] is not None:
            stack.enter_context(np.printoptions(precision=s["precision"]))
            stack.enter_context(pd.option_context("display.precision", s["precision"], "display.max_rows", 7))
        random.seed(s["seed"])
        np.random.seed(s["seed"])
        folder = tempfile.mkdtemp(prefix="pbt-c32-", dir=os.environ.get("PBT_SCRATCH"))
        old, old_temp = os.getcwd(), tempfile.tempdir
        stack.callback(_remove, folder)
        stack.callback(os.chdir, old)
        os.chdir(folder)
        # where files would be left
        stack.callback(setattr, tempfile, "tempdir", old_temp)
        tempfile.tempdir = folder
        for name in ("HOME", "TMPDIR", "XDG_CACHE_HOME"):
            stack.callback(_setenv, name, os.environ.get(name))
            os.environ[name] = folder
        stack.callback(setattr, ur, "default_format", ur.default_format)
        ur.default_format = s["units"]
        worth = False
        for i, c in enumerate(case["calls"]):
            worth |= one(i, c, ctx)
        ctx.nontrivial(worth)


def _setenv(name, value):
    if value is None:
        os.environ.pop(name, None)
    else:
        os.environ[name] = value


def _remove(folder):
    for name in os.listdir(folder):
        path = os.path.join(folder, name)
        if os.path.isdir(path) and not os.path.islink(path):
            _remove(path)
        else:
            os.remove(path)
    os.rmdir(folder)


BAR = re.compile(r"\d+it\b|%\||it/s|s/it")
WRITTEN = {"on": False, "files": []}
WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _audit(event, args):
    if not WRITTEN["on"]:
        return
    if event == "open":
        path, mode, flags = args
        if (isinstance(mode, str) and set(mode) & set("wax+")) or (isinstance(flags, int) and flags & WRITE_FLAGS):
            if not str(path).startswith(("/dev/", "/proc/")):
                WRITTEN["files"].append(str(path))
    elif event in ("os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "subprocess.Popen", "os.system", "socket.connect"):
        WRITTEN["files"].append("{} {}".format(event, args[0]))


def watch():
    """Record the files written from now on (once per process: audit hooks stay)."""
    if "hook" not in WRITTEN:
        WRITTEN["hook"] = True
        sys.addaudithook(_audit)
    WRITTEN["files"] = []


def one(i, c, ctx):
    what = c["call"]
    doing = "call {} ({})".format(i, what)
    with contextlib.redirect_stderr(io.StringIO()):
        # whatever preparing prints or warns about
        func, fails = call_of(c)
        points = crash.count(call_of(c)[0] if not fails else _quiet(call_of(c)[0])) if c["at"] is not None else 0
    at = None if not points else min(points - 1, int(c["at"] * points))
    real_out, real_err = sys.stdout, sys.stderr
    out, err = io.StringIO(), io.StringIO()
    sys.stdout, sys.stderr = out, err
    exc = None
    try:
        before, alive = look(), threads()
        watch()
        WRITTEN["on"] = True
        if at is not None:
            where, exc = crash.interrupt(func, at, Planned("planned interruption"))
            doing += " interrupted at {}".format(where)
        else:
            try:
                func()
            except Exception as got:  # pylint: disable=broad-except
                exc = got
        WRITTEN["on"] = False
        after, now = look(), threads()
    finally:
        WRITTEN["on"] = False
        sys.stdout, sys.stderr = real_out, real_err
    require(not WRITTEN["files"], "{} writes or changes {}", doing, WRITTEN["files"][:3])
    for k in before:
        if before[k] != after[k]:
            raise Violation("{} changes the process's {}: {} before, {} after".format(doing, k, _short(k, before, after), _short(k, after, before)))
    require(now == alive, "{} leaves threads behind: {}", doing, now)
    require(not os.listdir("."), "{} leaves files behind: {}", doing, os.listdir("."))
    require(out.getvalue() == "", "{} prints {!r}", doing, out.getvalue()[:200])
    bar = BAR.search(err.getvalue()) is not None
    require(not bar or what == "progress", "{} shows a progress bar that was not asked for: {!r}", doing, err.getvalue()[:200])
    if at is None:
        require(bar or what != "progress", "{} shows no progress bar: {!r}", doing, err.getvalue()[:200])
        if fails:
            require(exc is not None, "{} is accepted", doing)
        elif exc is not None:
            raise Violation("{}: unexpected {!r}".format(doing, exc)) from exc
    ctx.label(what, "interrupted" if at is not None else ("fails" if fails else "succeeds"))
    return fails or at is not None or what in ("run", "scenarios", "progress", "step")


def _quiet(func):
    def run():
        try:
            func()
        except Exception:  # pylint: disable=broad-except
            pass

    return run


def _short(k, a, b):
    a, b = a[k], b[k]
    if isinstance(a, dict) and isinstance(b, dict):
        return {x: v for x, v in a.items() if x not in b or b[x] != v}
    if isinstance(a, list) and isinstance(b, list):
        return [x for x in a if x not in b][:5]
    return repr(a)[:200]
