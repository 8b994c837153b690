import numpy as np

from .. import gens, oracles, sut, units
from ..core import HarnessError, Violation, expect_raises, require, sut as guard
from ..env import ModelStateError, UnitError, ur
from ..gens import st

RULE = (
    "sequences of valid and faulty assignments (attributes, constructor, drivers) on one model against a dictionary of the "
    "expected parameters, followed by a run compared with a fresh model; non-trivial = at least one refusal and one run"
)
ASSUMPTIONS = ["the fresh model used as reference is built with the dictionary's values by the constructor"]
EXAMPLES = {"quick": 350, "thorough": 15000}

NON_QUANTITIES = [
    None, 3, 3.0, 0, "3 m", "", True, [1, 2], {"m": 1}, "array1", "array0", "complex", "fraction",
    "unit", "npfloat",
]
OTHER_DIMS = ["kg", "W", "J/delta_degC/m^2", "m^2", "W/m", "1/s", "mol", "m*s", "K/W", "W*m^2", "K^2/(W/m^2)"]
KIND_UNITS = {
    "depth": ["m", "km"], "time": ["s", "yr"], "flux": ["W/m^2"], "temp": ["delta_degC", "K"],
    "none": ["dimensionless"], "feedback": ["W/m^2/delta_degC"],
    "feedback2": ["W/m^2/delta_degC^2"], "gain": ["delta_degC/(W/m^2)"],
}


def wrong_units(kind):
    out = list(OTHER_DIMS)
    for k, us in KIND_UNITS.items():
        if k != kind:
            out.extend(us)
    return out


def non_quantity(tag):
    if tag == "array1":
        return np.array([1.0, 2.0])
    if tag == "array0":
        return np.array(1.0)
    if tag == "complex":
        return 1 + 2j
    if tag == "fraction":
        return units.Fr(1, 3)
    if tag == "unit":
        return ur.Unit("m")
    if tag == "npfloat":
        return np.float64(2.0)
    return tag


@st.composite
def bad_value(draw, kind):
    if draw(st.booleans()):
        return {"type": draw(st.sampled_from(NON_QUANTITIES))}
    return {"dim": [draw(st.one_of(st.just(1.0), gens.magnitude(1e-3, 1e3))), draw(st.sampled_from(wrong_units(kind)))]}


@st.composite
def op(draw, model):
    kinds = units.MODEL_KINDS[model]
    name = draw(st.sampled_from(sorted(kinds)))
    what = draw(
        st.sampled_from(
            ["good", "good", "bad", "bad", "bad", "bad_ctor", "bad_erf", "nd", "nan", "drivers", "run", "derived", "fresh"]
        )
    )
    if what == "good":
        table = gens.TL_PLAUSIBLE if model == "tl" else dict(
            gens.IR_PLAUSIBLE,
            d1=gens.magnitude(1e6, 9e8), d2=gens.magnitude(1e9, 1e12),
        )
        return {"op": what, "name": name, "value": draw(gens.quantity(kinds[name], table[name]))}
    if what in ("bad", "bad_ctor"):
        return {"op": what, "name": name, "value": draw(bad_value(kinds[name]))}
    if what == "bad_erf":
        return {"op": what, "via": draw(st.sampled_from(["set_drivers", "attribute"])), "value": draw(bad_value("flux"))}
    if what == "nd":
        return {"op": what, "shape": draw(st.sampled_from([[], [1, 1], [2, 3], [3, 1], [1, 3], [2, 1, 2]]))}
    if what == "nan":
        n = draw(st.integers(1, 6))
        return {"op": what, "n": n, "at": draw(st.integers(0, n - 1)), "all": draw(st.booleans())}
    if what in ("drivers", "run"):
        return {"op": what, "driver": draw(gens.driver(max_list=6, max_len=12, long_odds=10 ** 6, long_len=20))}
    return {"op": what}


@st.composite
def strategy_(draw):
    spec = draw(gens.model_spec(wide=False))
    ops = draw(st.lists(op(spec["model"]), min_size=1, max_size=8))
    return {"spec": spec, "ops": ops, "driver": draw(gens.driver(max_list=6, max_len=12, long_odds=10 ** 6, long_len=20, min_len=2))}


def _directed():
    """Every kind of wrong value for every parameter, assigned and constructed with."""
    from .c09 import PARAMS

    out = []
    for model in ("tl", "ir"):
        params = dict(PARAMS[model], delta_t=[0.5, "yr"])
        kinds = units.MODEL_KINDS[model]
        ops = []
        for what in ("bad", "bad_ctor"):
            for name in sorted(kinds):
                values = [{"type": t} for t in NON_QUANTITIES]
                values += [{"dim": [2.0, u]} for u in wrong_units(kinds[name])]
                ops += [{"op": what, "name": name, "value": v} for v in values]
        for via in ("set_drivers", "attribute"):
            values = [{"type": t} for t in NON_QUANTITIES]
            values += [{"dim": [2.0, u]} for u in wrong_units("flux")]
            ops += [{"op": "bad_erf", "via": via, "value": v} for v in values]
        ops += [{"op": "nd", "shape": shape} for shape in ([], [1, 1], [2, 3], [3, 1], [1, 3], [2, 1, 2], [0, 2], [1, 1, 1, 1])]
        ops += [{"op": "nan", "n": n, "at": at, "all": False} for n in (1, 2, 5, 40) for at in {0, n // 2, n - 1}]
        for i in range(0, len(ops), 12):
            out.append(
                {
                    "spec": {"model": model, "params": params, "via": "ctor" if i % 24 else "set"},
                    "ops": ops[i : i + 12],
                    "driver": {"forcing": {"values": [1.0, -2.0, 3.5]}, "unit": "W/m^2"},
                }
            )
    return out


DIRECTED = _directed()
SHRINK = ("ops",)


def strategy(tier):
    return strategy_()


def build_bad(value):
    if "type" in value:
        return non_quantity(value["type"]), TypeError
    return sut.q(value["dim"]), UnitError


def read_back(model, params, when):
    for name, (mag, unit) in params.items():
        with guard("reading " + name):
            got = getattr(model, name)
        want = sut.q([mag, unit])
        same = (
            type(got.magnitude) is type(want.magnitude)
            and got.magnitude == want.magnitude
            and got.units == want.units
        )
        require(same, "{}: {} reads back as {!r} instead of {!r}", when, name, got, want)


def attempt_refused(func, exc, doing):
    if exc is UnitError:
        got = expect_raises((UnitError,), func, doing)
    else:
        got = expect_raises((exc,), func, doing)
    require(isinstance(got, exc), "{}: raised {!r}", doing, got)


def check(case, ctx):
    spec = case["spec"]
    kind = spec["model"]
    kinds = units.MODEL_KINDS[kind]
    params = {k: list(v) for k, v in spec["params"].items()}
    model = sut.build(spec)
    read_back(model, params, "after construction")
    drivers = None  # the last accepted drivers; "nan" when unusable
    refusals = 0

    def verify_run(drv, when):
        fresh = sut.build({"model": kind, "params": params, "via": "ctor"})
        erf = sut.erf_quantity(drv)
        got = sut.run_erf(model, erf, doing=when)
        want = sut.run_erf(fresh, sut.erf_quantity(drv))
        oracles.same_bits(got, want, when)

    for i, o in enumerate(case["ops"]):
        what = o["op"]
        when = "op {} ({})".format(i, what)
        ctx.label(what)
        if what == "good":
            if not sut.keeps_timescales_apart(params, o["name"], o["value"]):
                continue
            with guard(when):
                setattr(model, o["name"], sut.q(o["value"]))
            params[o["name"]] = o["value"]
        elif what == "bad":
            value, exc = build_bad(o["value"])
            attempt_refused(lambda: setattr(model, o["name"], value), exc, "{} {}={!r}".format(when, o["name"], value))
            refusals += 1
        elif what == "bad_ctor":
            value, exc = build_bad(o["value"])
            kw = {k: sut.q(v) for k, v in params.items()}
            kw[o["name"]] = value
            attempt_refused(lambda: sut.CLASSES[kind](**kw), exc, "{} {}={!r}".format(when, o["name"], value))
            refusals += 1
        elif what == "bad_erf":
            if "type" in o["value"]:
                value, exc = build_bad(o["value"])
                if o["via"] == "set_drivers":
                    # only has to be refused
                    expect_raises((Exception,), lambda: model.set_drivers(value), when)
                else:
                    attempt_refused(lambda: setattr(model, "erf", value), exc, when)
            else:
                mag, unit = o["value"]["dim"]
                value = ur.Quantity(np.array([float(mag)] * 3), unit)
                if o["via"] == "set_drivers":
                    attempt_refused(lambda: model.set_drivers(value), UnitError, when)
                else:
                    attempt_refused(lambda: setattr(model, "erf", value), UnitError, when)
            refusals += 1
        elif what == "nd":
            value = ur.Quantity(np.ones(o["shape"]), "W/m^2")
            expect_raises((Exception,), lambda: model.set_drivers(value), when)
            refusals += 1
        elif what == "nan":
            vals = np.ones(o["n"])
            vals[o["at"]] = np.nan
            if o["all"]:
                vals[:] = np.nan
            with guard(when):
                model.set_drivers(ur.Quantity(vals, "W/m^2"))
            drivers = "nan"
            expect_raises((ModelStateError,), model.reset, when)
            refusals += 1
        elif what == "drivers":
            with guard(when):
                model.set_drivers(sut.erf_quantity(o["driver"]))
            drivers = o["driver"]
        elif what == "run":
            verify_run(o["driver"], when)
            drivers = o["driver"]
        elif what == "derived":
            if kind == "tl":
                for attr in ("heat_capacity_upper", "heat_capacity_lower"):
                    expect_raises(
                        (AttributeError,),
                        lambda attr=attr: setattr(model, attr, ur.Quantity(1.0, "J/delta_degC/m^2")),
                        when,
                    )
                refusals += 1
        elif what == "fresh":
            # a model whose drivers were never set refuses to be prepared for a run
            fresh = sut.build({"model": kind, "params": params, "via": "ctor"})
            expect_raises((ModelStateError,), fresh.reset, when)
            refusals += 1
        else:
            raise HarnessError(what)
        read_back(model, params, "after " + when)
        if isinstance(drivers, dict):
            with guard("reading the drivers"):
                got = model.erf
            want = sut.erf_quantity(drivers)
            require(
                got.units == want.units and np.array_equal(got.magnitude, want.magnitude),
                "after {}: the drivers read back as {!r} instead of {!r}", when, got, want,
            )
    if isinstance(drivers, dict):
        # drivers accepted earlier are still the ones used
        with guard("running with the drivers accepted last"):
            model.reset()
            model.run()
            got = sut.outputs(model)
        fresh = sut.build({"model": kind, "params": params, "via": "ctor"})
        oracles.same_bits(got, sut.run_erf(fresh, sut.erf_quantity(drivers)), "drivers accepted last")
    verify_run(case["driver"], "final run")
    ctx.nontrivial(refusals >= 1)
    ctx.label(kind)
    if refusals >= 3:
        ctx.label("refusals>=3")
