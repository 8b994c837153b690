"""Repeated work: the process does not hold on to more and more memory."""
import contextlib
import gc
import io
import itertools
import copy
import ctypes
import sys
import time
import warnings

from .. import gens, scen, sut
from ..core import require, sut as guard
from ..env import ScmRun, convert_lambda_to_ecs, ur
from ..gens import st

RULE = (
    "a cycle of 1 to 4 pieces of work (constructing, assigning, refused assignments and drivers, runs of 60 to 400 values, stepping, deep copies, scenario batches with and without "
    "progress bar, refused batches, conversions, sensitivities) on models that are kept or built anew in every round, with the same or other values in every round, repeated up to thirty times; memory in use after 4, 12, 20 and 28 "
    "rounds; non-trivial = the cycle contains a run or scenario batch"
)
ASSUMPTIONS = [
    "bytes glibc has handed out (mallinfo2: array data) and blocks Python has (small objects), after a garbage collection",
    "up to 400 bytes per round, and one block per round or 20 blocks per scenario batch, are put down to the libraries underneath "
    "(NumPy 1.26 loses one with every datetime conversion)",
]
EXAMPLES = {"quick": 20, "thorough": 700}

WORK = ["construct", "assign", "refused", "refused drivers", "run", "run", "step", "copy", "convert", "ecs", "scenarios", "scenarios", "progress", "refused batch"]
BATCHES, ROUNDS = 3, 8


@st.composite
def strategy_(draw):
    cycle = []
    for _ in range(draw(st.integers(1, 4))):
        w = {"work": draw(st.sampled_from(WORK)), "kind": draw(st.sampled_from(["tl", "tl", "ir"])), "anew": draw(st.booleans())}
        w["spec"] = draw(gens.model_spec(wide=False, which=(w["kind"],)))
        w["n"] = draw(st.integers(80, 300 if w["kind"] == "tl" else 100))
        w["seed"] = draw(st.integers(0, 99))
        w["vary"] = draw(st.booleans())
        if w["work"] in ("scenarios", "progress", "refused batch"):
            if any("batch" in c["work"] or c["work"] in ("scenarios", "progress") for c in cycle):
                w["work"] = "run"  # one batch per cycle, they are slow
            w["axis"] = {"kind": "yearly", "year": draw(st.integers(1700, 1800)), "n": w["n"]}
            w["count"] = draw(st.integers(1, 2))
            w["frame"] = draw(st.booleans())
        cycle.append(w)
    return {"cycle": cycle}


def strategy(tier):
    return strategy_()


def forcing(w):
    return {"forcing": {"shape": "ramp", "n": w["n"], "amp": 1.0 + w["seed"] / 50, "base": 0.0, "period": 7, "edits": []}, "unit": "W/m^2"}


def data(w, turn=0):
    rows = [
        {"meta": {"model": "m", "scenario": "s{} {}".format(i, turn)}, "unit": "W/m^2", "forcing": forcing(dict(w, seed=w["seed"] + i + turn / 7))["forcing"], "lead": 0, "trail": 0}
        for i in range(w["count"])
    ]
    df = scen.frame(w["axis"], rows)
    return df if w["frame"] else ScmRun(df)


def worker(w):
    """One piece of work as a function without arguments; what it is given stays the same or varies from call to call."""
    what, spec = w["work"], w["spec"]
    kept = sut.build(spec)
    params = {k: sut.q(v) for k, v in spec["params"].items()}
    calls = itertools.count() if w.get("vary") else itertools.repeat(0)

    def model():
        return sut.CLASSES[w["kind"]](**params) if w["anew"] else kept

    if what == "construct":
        return lambda: sut.CLASSES[w["kind"]](**params)
    if what == "assign":
        def assign():
            m = model()
            more = 1 + next(calls) * 1e-6
            for k, v in params.items():
                setattr(m, k, v * more)
        return assign
    if what == "refused":
        bad = ur.Quantity(1.0, "m/s")
        return lambda: refused(lambda: setattr(model(), "efficacy", bad))
    if what == "refused drivers":
        bad = ur.Quantity([1.0, float("nan")], "W/m^2")

        def drivers():
            m = copy.deepcopy(kept)
            m.set_drivers(bad)
            refused(m.reset)
        return drivers
    if what in ("run", "step", "copy"):
        erf = sut.erf_quantity(forcing(w))

        def run():
            m = model()
            if what == "copy":
                m = copy.deepcopy(m)
            m.set_drivers(erf * (1 + next(calls) * 1e-3))
            m.reset()
            if what == "step":
                # all the way, or not
                for _ in range(w["n"] * min(w["seed"], 66) // 66):
                    m.step()
            else:
                m.run()
        return run
    if what == "convert":
        def convert():
            m = model()
            m.efficacy = params.get("efficacy", ur.Quantity(1.0, "dimensionless")) * (1 + next(calls) * 1e-6)
            if w["kind"] == "ir":
                return m.get_two_layer_parameters()
            if spec["params"]["a"][0] != 0:
                return refused(m.get_impulse_response_parameters)
            return m.get_impulse_response_parameters()
        return convert
    if what == "ecs":
        lam = ur.Quantity(-1.1, "W/m^2/delta_degC")
        return lambda: convert_lambda_to_ecs(lam * (1 + next(calls) / 7))
    if w.get("vary") and what != "refused batch":
        return lambda: model().run_scenarios(data(w, next(calls)), progress=what == "progress")
    given = data(w)
    if what == "refused batch":
        return lambda: refused(lambda: model().run_scenarios(given, driver_var="not there", progress=False))
    return lambda: model().run_scenarios(given, progress=what == "progress")


def refused(func):
    try:
        func()
    except (ValueError, TypeError):
        pass


class Mallinfo2(ctypes.Structure):
    _fields_ = [(k, ctypes.c_size_t) for k in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


LIBC = ctypes.CDLL(None)
LIBC.mallinfo2.restype = Mallinfo2


def in_use():
    """Bytes of malloc (array data, large objects) and blocks of Python's own allocator (small objects)."""
    gc.collect()
    info = LIBC.mallinfo2()
    return info.uordblks + info.hblkhd, sys.getallocatedblocks()


def check(case, ctx):
    cycle = case["cycle"]
    with guard("preparing the work"):
        todo = [worker(w) for w in cycle]
    batches = sum(w["work"] in ("scenarios", "progress", "refused batch") for w in cycle)
    allowed = (ROUNDS * 400, ROUNDS * (20 if batches else 1))

    def rounds(count):
        for _ in range(count):
            for func in todo:
                func()

    names = [w["work"] for w in cycle]
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        with guard("repeating {}".format(names)):
            rounds(4)
            seen = [in_use()]
            for _ in range(BATCHES):
                rounds(ROUNDS)
                seen.append(in_use())
                if all(new - old < most for new, old, most in zip(seen[-1], seen[-2], allowed)):
                    break
            else:
                # perhaps something of limited size is being filled: see whether that comes to an end
                stop = time.monotonic() + 15
                while time.monotonic() < stop:
                    rounds(1)
                seen[-1] = in_use()
                for _ in range(BATCHES - 1):
                    rounds(ROUNDS)
                    seen.append(in_use())
    for i, what in enumerate(("bytes", "blocks")):
        growth = [b[i] - a[i] for a, b in zip(seen, seen[1:])]
        if len(growth) >= BATCHES:
            ctx.measure("growth of " + what, max(0, min(growth)) / allowed[i])
        require(min(growth) < allowed[i], "every {} rounds of {} take {} {} more", ROUNDS, names, growth, what)
    ctx.nontrivial(bool(batches) or any(n in ("run", "step", "copy") for n in names))
    ctx.label(*names)
    ctx.label("models kept" if not all(w["anew"] for w in cycle) else "models built anew")
