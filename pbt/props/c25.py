import numpy as np

from .. import gens, oracles, ref, sut, units
from ..core import expect_raises, require, sut as guard
from ..env import UnitError, ur
from ..gens import st

RULE = (
    "sequences of up to 10 accepted and refused assignments (depths in any units, the same number in another unit, other parameters, runs, scenario-free resets, copies) with the heat capacities checked after each; "
    "then a run with both depths multiplied by a factor against one with the time step divided by it, and the time step's worth of heat taken up by each layer in the first "
    "steps; non-trivial = at least one depth assignment after construction and a run with non-zero forcing"
)
ASSUMPTIONS = ["scaling relation: accumulated rounding bound of the run"]
EXAMPLES = {"quick": 320, "thorough": 15000}

BAD = [["dimension", "s"], ["dimension", "m^2"], ["dimension", "J/m^2"], ["type", 50.0], ["type", None], ["type", "50 m"]]


@st.composite
def op(draw):
    what = draw(st.sampled_from(["du", "du", "dl", "dl", "unit", "bad", "other", "run", "convert"]))
    if what in ("du", "dl"):
        return {"op": what, "value": draw(gens.quantity("depth", gens.magnitude(1e-2, 1e6)))}
    if what == "unit":
        return {"op": what, "name": draw(st.sampled_from(["du", "dl"])), "unit": draw(st.sampled_from(list(units.DEPTH)))}
    if what == "bad":
        return {"op": what, "name": draw(st.sampled_from(["du", "dl"])), "value": draw(st.sampled_from(BAD))}
    if what == "other":
        name = draw(st.sampled_from(["lambda0", "a", "efficacy", "eta", "delta_t"]))
        return {"op": what, "name": name, "value": draw(gens.quantity(units.TL_KINDS[name], gens.TL_PLAUSIBLE[name]))}
    return {"op": what}


@st.composite
def strategy_(draw):
    return {
        "spec": draw(gens.model_spec(which=("tl",))),
        "ops": draw(st.lists(op(), max_size=10)),
        "driver": draw(gens.driver(max_list=8, max_len=60, long_odds=10 ** 6, long_len=80, min_len=2)),
        "k": draw(st.one_of(gens.magnitude(1e-3, 1e3), st.sampled_from([2, 0.5, 4]))),
        "unit": draw(st.sampled_from(list(units.DEPTH))),
        "order": draw(st.booleans()),
    }


def strategy(tier):
    return strategy_()


def check_capacities(model, params, when):
    for attr, name in (("heat_capacity_upper", "du"), ("heat_capacity_lower", "dl")):
        want = float(units.si_exact("depth", *params[name]) * 1000 * 4181)
        with guard("reading " + attr):
            got = getattr(model, attr)
            both = [float(got.to("J/delta_degC/m^2").magnitude), float(got.to("J/K/m^2").magnitude)]
        for g in both:
            require(abs(g - want) <= 1e-13 * want, "{}: {} is {!r} J/K/m^2, the depth of {} makes it {!r}", when, attr, g, params[name], want)


def first_step(model, params, when):
    """The heat capacities a run uses: from the first responses to one unit of forcing."""
    erf = ur.Quantity(np.array([1.0, 0.0, 0.0]), "W/m^2")
    out = sut.run_erf(model, erf, doing=when)
    dt = units.si("time", *params["delta_t"])
    want = dt / float(units.si_exact("depth", *params["du"]) * 1000 * 4181)
    require(abs(float(out["Tu"][1]) - want) <= 1e-12 * want, "{}: first step of {!r} K, the upper depth makes it {!r} K", when, float(out["Tu"][1]), want)
    # the lower layer takes up the exchange with the upper one, over its own capacity
    low = float(out["Tu"][1]) * units.si("feedback", *params["eta"]) * dt / float(units.si_exact("depth", *params["dl"]) * 1000 * 4181)
    require(abs(float(out["Tl"][2]) - low) <= 1e-12 * abs(low) + 1e-300, "{}: first step of the lower layer {!r} K, its depth makes it {!r} K", when, float(out["Tl"][2]), low)
    require(abs(float(out["N"][1]) - 1.0) <= 1e-11, "{}: heat uptake {!r} of the first step", when, float(out["N"][1]))


def check(case, ctx):
    spec = case["spec"]
    params = {k: list(v) for k, v in spec["params"].items()}
    model = sut.build(spec)
    check_capacities(model, params, "after construction")
    assigned = 0
    for i, o in enumerate(case["ops"]):
        what = o["op"]
        when = "op {} ({})".format(i, what)
        if what in ("du", "dl"):
            with guard(when):
                setattr(model, what, sut.q(o["value"]))
            params[what] = o["value"]
            assigned += 1
        elif what == "unit":
            # the same number (and Python object) in another unit
            name = o["name"]
            params[name] = [params[name][0], o["unit"]]
            with guard(when):
                setattr(model, name, sut.q(params[name]))
            assigned += 1
        elif what == "bad":
            tag, v = o["value"]
            if tag == "type":
                expect_raises((TypeError,), lambda: setattr(model, o["name"], v), when)
            else:
                expect_raises((UnitError,), lambda: setattr(model, o["name"], ur.Quantity(10.0, v)), when)
        elif what == "other":
            with guard(when):
                setattr(model, o["name"], sut.q(o["value"]))
            params[o["name"]] = o["value"]
        elif what == "run":
            first_step(model, params, when)
        elif what == "convert" and params["a"][0] == 0 and units.si("feedback", *params["eta"]) > 0 and units.si("feedback", *params["lambda0"]) > 0 and params["efficacy"][0] > 0:
            with guard(when):
                model.get_impulse_response_parameters()
        check_capacities(model, params, "after " + when)
        ctx.label(what)
    p = {k: units.si(units.TL_KINDS[k], *v) for k, v in params.items()}
    _, F = sut.driver_values(case["driver"])
    first_step(model, params, "after all assignments")
    # both depths times k, or the time step divided by k
    k = units.Fr(case["k"])
    slow = sut.build({"model": "tl", "params": params, "via": "ctor"})
    fac = units.DEPTH[case["unit"]]
    names = ("du", "dl") if case["order"] else ("dl", "du")
    with guard("scaling"):
        for name in names:
            setattr(model, name, ur.Quantity(float(units.si_exact("depth", *params[name]) * k / fac), case["unit"]))
        slow.delta_t = ur.Quantity(float(units.si_exact("time", *params["delta_t"]) / k), "s")
    deep_out = sut.run_erf(model, sut.erf_quantity(case["driver"]))
    slow_out = sut.run_erf(slow, sut.erf_quantity(case["driver"]))
    kf = float(k)
    p_deep = dict(p, du=p["du"] * kf, dl=p["dl"] * kf)
    p_slow = dict(p, delta_t=p["delta_t"] / kf)
    t1, t2 = oracles.tl_bound(p_deep, F, deep_out), oracles.tl_bound(p_slow, F, slow_out)
    tol = {key: t1[key] + t2[key] for key in ("Tu", "Tl", "N")}
    oracles.close(deep_out, slow_out, tol, "both depths times {} against the time step divided by it".format(kf), ctx, label="scaling")
    oracles.tl_steps(p_deep, F, deep_out, ctx)
    ctx.nontrivial(assigned > 0 and any(F[:-1]))
