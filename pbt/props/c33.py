"""Stepping by hand: every step acts on the state and the parameters as they are."""
import numpy as np

from .. import gens, oracles, sut, units
from ..core import require, sut as guard
from ..gens import st

RULE = (
    "a model, new or used, stepped by hand through a driver series of 1 to 30 values, with parameters, depths or the time step assigned and things read or converted "
    "between the steps, stopped early or pushed past the end, then reset and run; after every call: the values so far, NaN beyond, earlier values "
    "untouched, the new value obeying the documented equations with the parameters as they are now; non-trivial = at least two steps with a change between"
)
ASSUMPTIONS = ["the drivers are not replaced between reset and the last step"]
EXAMPLES = {"quick": 220, "thorough": 10000}

TIMESCALES = {"d1": gens.magnitude(0.3 * gens.YEAR, 30 * gens.YEAR), "d2": gens.magnitude(20 * gens.YEAR, 3000 * gens.YEAR)}
READS = ["parameters", "capacities", "drivers", "convert"]


@st.composite
def action(draw, kind):
    what = draw(st.sampled_from(["set", "set", "read", "refused"]))
    if what == "set":
        name = draw(st.sampled_from(sorted(units.MODEL_KINDS[kind])))
        table = dict(gens.TL_PLAUSIBLE if kind == "tl" else gens.IR_PLAUSIBLE, **TIMESCALES)
        return ["set", name, draw(gens.quantity(units.MODEL_KINDS[kind][name], table[name]))]
    if what == "refused":
        return ["refused", draw(st.sampled_from(sorted(units.MODEL_KINDS[kind]) + ["erf"]))]
    return ["read", draw(st.sampled_from(READS))]


@st.composite
def strategy_(draw):
    spec = draw(gens.model_spec(wide=draw(st.booleans())))
    driver = draw(gens.driver(max_list=8, max_len=30, long_odds=50, long_len=60, min_len=1))
    n = len(gens.expand(driver["forcing"]))
    between = {}
    for _ in range(draw(st.integers(0, 6))):
        at = draw(st.integers(0, n))
        between.setdefault(str(at), []).append(draw(action(spec["model"])))
    return {
        "spec": spec, "driver": driver, "between": between,
        # the model has been run, or stepped part of the way, before
        "used": draw(st.sampled_from([None, None, "run", "run others", "step"])),
        "stop": draw(gens.sometimes(3, st.integers(0, n))), "past": draw(gens.sometimes(3, st.integers(1, 3))),
    }


def strategy(tier):
    return strategy_()


def act(model, spec, do, ctx):
    kind = spec["model"]
    if do[0] == "set":
        _, name, val = do
        if name in ("d1", "d2") and not sut.keeps_timescales_apart(spec["params"], name, val):
            return False
        with guard("assigning {}".format(name)):
            setattr(model, name, sut.q(val))
        spec["params"][name] = val
        ctx.label("assigned " + name)
        return True
    if do[0] == "refused":
        try:
            setattr(model, do[1], 1.5)
        except TypeError:
            pass
        return False
    with guard("reading " + do[1]):
        if do[1] == "parameters":
            _ = [getattr(model, k) for k in units.MODEL_KINDS[kind]]
        elif do[1] == "capacities" and kind == "tl":
            _ = model.heat_capacity_upper, model.heat_capacity_lower
        elif do[1] == "drivers":
            _ = model.erf
        elif do[1] == "convert" and kind == "ir":
            model.get_two_layer_parameters()
        elif do[1] == "convert" and float(model.a.magnitude) == 0 and float(model.eta.magnitude) > 0:
            model.get_impulse_response_parameters()
    return False


def check(case, ctx):
    spec = dict(case["spec"], params={k: list(v) for k, v in case["spec"]["params"].items()})
    kind = spec["model"]
    model = sut.build(spec)
    F = np.array(sut.driver_values(case["driver"])[1], float)
    n = len(F)
    ctx.label(kind)
    with np.errstate(all="ignore"), guard("using the model before"):
        if case["used"] is not None:
            ctx.label("used before: " + case["used"])
            other = case["driver"] if case["used"] != "run others" else {"forcing": {"values": [1.0, -2.0, 3.5]}, "unit": "W/m^2"}
            model.set_drivers(sut.erf_quantity(other))
            model.reset()
            if case["used"] == "step":
                for _ in range((n + 1) // 2):
                    model.step()
            else:
                model.run()
    with guard("preparing the run"):
        model.set_drivers(sut.erf_quantity(case["driver"]))
        model.reset()
    before = sut.outputs(model)
    for k, v in before.items():
        require(v.shape == (n,) and np.isnan(v).all(), "{} after reset: {}", k, list(v[:4]))
    stop = n if case["stop"] is None else min(n, case["stop"])
    changed = 0
    for i in range(stop):
        for do in case["between"].get(str(i), ()):
            changed += act(model, spec, do, ctx) and i > 0
        oracles.same_bits(sut.outputs(model), before, "before step {}: assigning and reading between steps".format(i))
        with np.errstate(all="ignore"), guard("step {}".format(i)):
            model.step()
        now = sut.outputs(model)
        for k in now:
            require(now[k].shape == (n,), "{} has shape {} after step {} for {} driver values", k, now[k].shape, i, n)
            require(np.isnan(now[k][i + 1 :]).all(), "{} after step {} has values beyond it: {}", k, i, list(now[k][i + 1 : i + 4]))
        oracles.same_bits({k: v[:i] for k, v in now.items()}, {k: v[:i] for k, v in before.items()}, "values before step {}".format(i))
        if i == 0:
            for k in now:
                require(now[k][0] == 0, "{} starts at {!r} instead of zero", k, float(now[k][0]))
        else:
            window = {k: v[i - 1 : i + 1] for k, v in now.items()}
            try:
                oracles.steps(kind, sut.si_params(spec), F[i - 1 : i + 1], window, ctx, start=False)
            except oracles.Violation as exc:
                raise oracles.Violation("step {}: {}".format(i, exc)) from exc
        before = now
    if stop == n and case["past"]:
        ctx.label("past the end")
        for _ in range(case["past"]):
            try:
                with np.errstate(all="ignore"):
                    model.step()
            except Exception:  # pylint: disable=broad-except
                pass
            else:
                require(False, "a step past the last driver value is accepted")
            oracles.same_bits(sut.outputs(model), before, "a refused step past the end")
    elif stop < n:
        ctx.label("stopped early")
    for do in case["between"].get(str(n), ()):
        act(model, spec, do, ctx)
    oracles.same_bits(sut.outputs(model), before, "assigning and reading after the last step")
    with np.errstate(all="ignore"), guard("resetting and running afterwards"):
        model.reset()
        cleared = sut.outputs(model)
        model.run()
    for k, v in cleared.items():
        require(v.shape == (n,) and np.isnan(v).all(), "{} after reset: {}", k, list(v[:4]))
    with np.errstate(all="ignore"):
        oracles.steps(kind, sut.si_params(spec), F, sut.outputs(model), ctx)
    ctx.nontrivial(stop > 1 and changed > 0)
