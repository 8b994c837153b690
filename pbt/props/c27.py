"""Interruptions at generated points of any call."""
import numpy as np

from .. import crash, gens, oracles, scen, sut, units
from ..core import Violation, require, sut as guard
from ..env import convert_lambda_to_ecs, ur
from ..gens import st
from .c09 import PARAMS

RULE = (
    "up to 3 calls (constructor, assignment, set_drivers, reset, run, step, scenario batch, conversion, sensitivity) on up to 2 models, each interrupted "
    "by KeyboardInterrupt, MemoryError or another exception at a generated point: before any line of the package that the call executes; "
    "non-trivial = at least one call was interrupted after its first line"
)
ASSUMPTIONS = [
    "points of interruption are source lines of the package outside handlers and finally blocks (found with sys.settrace)",
    "a parameter whose assignment is interrupted, or the time step of an interrupted scenario batch, is assigned again before it is relied on",
]
EXAMPLES = {"quick": 90, "thorough": 8000}

CALLS = ["construct", "set", "drivers", "reset", "run", "run", "run", "step", "scenarios", "scenarios", "convert", "convert", "ecs"]
ERRORS = ["KeyboardInterrupt", "MemoryError", "RuntimeError", "ValueError", "SystemExit", "ZeroDivisionError"]
SMALL = dict(max_list=6, max_len=10, long_odds=1000, long_len=12)


@st.composite
def strategy_(draw):
    specs = [draw(gens.model_spec(wide=False)) for _ in range(draw(st.integers(1, 2)))]
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        i = draw(st.integers(0, len(specs) - 1))
        kind = specs[i]["model"]
        c = {"call": draw(st.sampled_from(CALLS)), "i": i, "error": draw(st.sampled_from(ERRORS))}
        c["at"] = draw(st.integers(0, 1000).map(lambda k: k / 1000))
        if c["call"] == "set":
            names = sorted(set(units.MODEL_KINDS[kind]) - {"d1", "d2"})
            c["name"] = draw(st.sampled_from(names))
            table = gens.TL_PLAUSIBLE if kind == "tl" else gens.IR_PLAUSIBLE
            c["value"] = draw(gens.quantity(units.MODEL_KINDS[kind][c["name"]], table[c["name"]]))
        if c["call"] == "scenarios":
            c["axis"] = draw(scen.axis(2, 6))
            c["rows"] = draw(scen.rows(c["axis"]["n"], 1, 3, extra=False))
        c["drivers"] = draw(gens.driver(**SMALL))
        calls.append(c)
    return {"specs": specs, "calls": calls, "driver": draw(gens.driver(**SMALL)), "axis": draw(gens.sometimes(4, scen.axis(2, 6)))}


def strategy(tier):
    return strategy_()


def _directed():
    """Evenly spread points of every call of both models."""
    out = []
    drv = {"forcing": {"values": [2.0, -1.0, 3.0]}, "unit": "W/m^2"}
    small = [
        {"meta": {"model": "m", "scenario": s}, "unit": u, "forcing": {"values": v}, "lead": 0, "trail": 0}
        for s, u, v in (("a", "W/m^2", [1.0, 2.0, 3.0]), ("b", "mW/m^2", [5.0, 0.0, -2.0]))
    ]
    for kind in ("tl", "ir"):
        spec = {"model": kind, "via": "ctor", "params": dict(PARAMS[kind], delta_t=[0.5, "yr"])}
        if kind == "tl":
            spec["params"]["a"] = [0, "W/m^2/delta_degC^2"]
        value = [1.4, "dimensionless"]
        for what in ("construct", "set", "drivers", "reset", "run", "step", "scenarios", "convert", "ecs"):
            points = {"run": 14, "scenarios": 24, "convert": 10}.get(what, 4)
            for k in range(points):
                for err in ("KeyboardInterrupt", "RuntimeError"):
                    c = {"call": what, "i": 0, "error": err, "at": (k + (err == "RuntimeError") * 0.5) / points, "drivers": drv}
                    if what == "set":
                        c.update(name="efficacy", value=value)
                    if what == "scenarios":
                        c.update(axis={"kind": "yearly", "year": 2000, "n": 3}, rows=small)
                    out.append({"specs": [spec], "calls": [c], "driver": {"forcing": {"values": [4.0, 4.0, 1.0, 4.0]}, "unit": "W/m^2"}, "axis": None})
    return out


DIRECTED = _directed()


def error(name):
    return {
        "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError,
        "ValueError": ValueError, "SystemExit": SystemExit, "ZeroDivisionError": ZeroDivisionError,
    }[name]("planned interruption")


def convertible(spec):
    if spec["model"] == "ir":
        return True
    p = sut.si_params(spec)
    return p["a"] == 0 and min(p["lambda0"], p["eta"], p["efficacy"]) > 0


def prepare(c, spec, model):
    """Whatever the call needs; returns the call, and what it must leave alone."""
    what = c["call"]
    erf = sut.erf_quantity(c["drivers"])
    data = None
    if what == "construct":
        params = {k: sut.q(v) for k, v in spec["params"].items()}
        return (lambda: sut.CLASSES[spec["model"]](**params)), data
    if what == "set":
        value = sut.q(c["value"])
        return (lambda: setattr(model, c["name"], value)), data
    if what == "drivers":
        return (lambda: model.set_drivers(erf)), data
    if what in ("reset", "run", "step"):
        model.set_drivers(erf)
        if what == "reset":
            return model.reset, data
        model.reset()
        return (model.run if what == "run" else model.step), data
    if what == "scenarios":
        df = scen.frame(c["axis"], c["rows"])
        data = scen.scmrun(c["axis"], c["rows"])
        return (lambda: model.run_scenarios(data, progress=False)), (data, df)
    if what == "convert":
        if spec["model"] == "tl":
            return model.get_impulse_response_parameters, data
        return model.get_two_layer_parameters, data
    lam, f2x = ur.Quantity(-1.1, "W/m^2/K"), ur.Quantity(3.5, "W/m^2")
    return (lambda: convert_lambda_to_ecs(lam, f2x=f2x)), data


def values(model, kind):
    return {k: (getattr(model, k).magnitude, getattr(model, k).units) for k in units.MODEL_KINDS[kind]}


def check(case, ctx):
    specs = [dict(s, params=dict(s["params"])) for s in case["specs"]]
    models = [sut.build(s) for s in specs]
    interrupted = 0
    for pos, c in enumerate(case["calls"]):
        spec, model = specs[c["i"]], models[c["i"]]
        what, kind = c["call"], spec["model"]
        if what == "convert" and not convertible(spec):
            continue
        # how many points the same call passes on another model
        twin = sut.build(dict(spec, via="ctor"))
        with guard("{} without an interruption".format(what)):
            call, _ = prepare(c, spec, twin)
            total = crash.count(call)
        if total == 0:
            ctx.label("no points in " + what)
            continue
        at = min(total - 1, int(c["at"] * total))
        with guard("preparing {}".format(what)):
            call, data = prepare(c, spec, model)
            before = values(model, kind)
        exc = error(c["error"])
        where, got = crash.interrupt(call, at, exc)
        doing = "{} of model {} interrupted by {} at {} (point {} of {})".format(what, c["i"], c["error"], where, at, total)
        if where is None:
            # the call takes another path on the used model
            if got is not None:
                raise Violation("{} of model {}: unexpected {!r}".format(what, c["i"], got)) from got
            ctx.label("not reached")
        else:
            chain = got
            while chain is not None and chain is not exc:
                chain = chain.__cause__ or chain.__context__
            require(chain is exc, "{}: the exception does not reach the caller, {!r} does", doing, got)
            interrupted += at > 0
            ctx.label("interrupted " + what, c["error"])
        # nothing but what was being assigned may have changed
        touched = {"set": [c.get("name")], "scenarios": ["delta_t"]}.get(what, [])
        after = values(model, kind)
        for k in before:
            if k not in touched:
                require(
                    before[k][0] == after[k][0] and before[k][1] == after[k][1], "{}: {} changed from {} to {}", doing, k, before[k], after[k]
                )
        if data is not None:
            now = data[0].timeseries()
            want = data[1]
            now = now.reorder_levels(want.index.names).reindex(want.index)
            require(
                np.array_equal(now.values, want.values, equal_nan=True) and now.shape == want.shape, "{}: the caller's scenarios changed", doing
            )
            require(set(data[0].meta.columns) == set(want.index.names), "{}: the caller's metadata changed", doing)
        for k in touched:
            if k == "delta_t" and what == "scenarios":
                with guard("assigning the time step"):
                    model.delta_t = sut.q(spec["params"]["delta_t"])
            elif where is not None:
                spec["params"][k] = c["value"]
                with guard("assigning {} again".format(k)):
                    setattr(model, k, sut.q(c["value"]))
            else:
                spec["params"][k] = c["value"]
        full(case, specs, models, c["i"], "after {}".format(doing))
    for i in range(len(models)):
        full(case, specs, models, i, "at the end")
    ctx.nontrivial(interrupted >= 1)


def full(case, specs, models, i, when):
    """A complete run is that of a new model, and the documented one."""
    spec, model = specs[i], models[i]
    kind = spec["model"]
    p = sut.si_params(spec)
    new = sut.build(dict(spec, via="ctor"))
    erf = sut.erf_quantity(case["driver"])
    got = sut.run_erf(model, erf, doing="running " + when)
    oracles.same_bits(got, sut.run_erf(new, sut.erf_quantity(case["driver"]), doing="running a new model " + when), when)
    try:
        oracles.steps(kind, p, sut.driver_values(case["driver"])[1], got)
        if case["axis"] is not None:
            ps, Fs, out = scen.single(spec, case["driver"], case["axis"], model)
            oracles.steps(kind, ps, Fs, out)
    except Violation as exc:
        raise Violation("{}: {}".format(when, exc)) from exc
    finally:
        model.delta_t = sut.q(spec["params"]["delta_t"])


