from .. import gens, sut, units
from ..core import expect_raises, require, sut as guard
from ..env import ImpulseResponseModel
from ..gens import st

RULE = (
    "(1) two-layer models with zero or non-zero a (1e-280 to 1e6 in magnitude, either sign, any unit), reached by construction or a history of "
    "assignments; conversion refused exactly when a is not zero; (2) pairs of timescales in all pairs of units, independent, equal, or one "
    "rounding step apart; construction refused exactly when d1 >= d2 in rational arithmetic; non-trivial = a non-zero or mixed/near-equal timescales"
)
ASSUMPTIONS = [
    "timescales that differ by less than 1e-12 relative without being equal are only judged when they are in the same unit"
]
EXAMPLES = {"quick": 900, "thorough": 40000}

ANY_A = st.one_of(
    gens.signed(1e-280, 1e6, zero=False),
    gens.signed(1e-20, 1e-3, zero=False),
    gens.signed(1e-6, 10, zero=False),
    st.sampled_from([1e-16, -1e-16, 2.3e-16, 1e-9, 1e-8, -1e-8, 1e-12, 5e-324 * 2 ** 100, 1, -1, 2]),
)
ZERO_A = st.sampled_from([0, 0.0, -0.0])


def a_value():
    return st.tuples(st.one_of(ANY_A, ZERO_A), st.sampled_from(list(units.KINDS["feedback2"]))).map(list)


@st.composite
def tl_case(draw):
    spec = draw(gens.model_spec(which=("tl",), wide=False))
    spec["params"]["a"] = draw(a_value())
    return {
        "what": "a",
        "spec": spec,
        "changes": draw(st.lists(a_value(), max_size=3)),
        "run_before": draw(st.integers(0, 3)) == 0,
    }


@st.composite
def ir_case(draw):
    names = list(units.TIME)
    u1, u2 = draw(st.sampled_from(names)), draw(st.sampled_from(names))
    secs = draw(st.one_of(gens.magnitude(1e-2, 1e12), st.sampled_from([31557600, 2629800, 86400 * 7, 3155760000])))
    how = draw(st.sampled_from(["independent", "equal", "near", "ulp", "same number", "factor"]))
    if how == "equal":
        k = draw(st.integers(1, 1000))
        big = max(units.TIME[u1], units.TIME[u2])
        d1 = [_exact(k * big / units.TIME[u1]), u1]
        d2 = [_exact(k * big / units.TIME[u2]), u2]
    elif how == "near":
        rel = draw(st.sampled_from([1e-11, 1e-9, 1e-6, 1e-3, -1e-11, -1e-9, -1e-6, -1e-3]))
        d1 = [float(units.Fr(secs) / units.TIME[u1]), u1]
        d2 = [float(units.Fr(secs) * units.Fr(1 + rel) / units.TIME[u2]), u2]
    elif how == "ulp":
        import math

        v = float(secs)
        d1 = [v, u1]
        d2 = [draw(st.sampled_from([math.nextafter(v, 0), v, math.nextafter(v, 1e300)])), u1]
    elif how == "same number":
        v = draw(gens.magnitude(1e-3, 1e4))
        d1, d2 = [v, u1], [v, u2]
    elif how == "factor":
        f = draw(gens.magnitude(0.05, 20))
        d1 = [float(units.Fr(secs) / units.TIME[u1]), u1]
        d2 = [float(units.Fr(secs) * units.Fr(float(f)) / units.TIME[u2]), u2]
    else:
        d1 = [draw(gens.magnitude(1e-3, 1e4)), u1]
        d2 = [draw(gens.magnitude(1e-3, 1e4)), u2]
    rest = draw(gens.ir_params())
    rest = {k: v for k, v in rest.items() if k in ("q1", "q2", "efficacy", "delta_t")}
    keep = draw(st.lists(st.sampled_from(sorted(rest)), unique=True))
    return {"what": "d", "d1": d1, "d2": d2, "how": how, "rest": {k: rest[k] for k in keep}}


def _exact(frac):
    f = units.Fr(frac)
    return int(f) if f.denominator == 1 else float(f)


@st.composite
def default_partner(draw):
    """Only one timescale given; the other one is the default (9 yr and 400 yr)."""
    which = draw(st.sampled_from(["d1", "d2"]))
    unit = draw(st.sampled_from(list(units.TIME)))
    base = {"d1": 400, "d2": 9}[which] * units.TIME["yr"]
    f = draw(st.one_of(gens.magnitude(1e-3, 1e3), st.sampled_from([1 + 1e-9, 1 - 1e-9, 1.0])))
    return {"what": "default", "which": which, "value": [float(base * units.Fr(float(f)) / units.TIME[unit]), unit]}


def strategy(tier):
    return st.one_of(tl_case(), ir_case(), ir_case(), default_partner())


def check_a(model, spec, value, when):
    if value[0] != 0:
        expect_raises((ValueError,), model.get_impulse_response_parameters, "{}: converting with a = {}".format(when, value))
        return
    with guard("{}: converting with a = {}".format(when, value)):
        out = model.get_impulse_response_parameters()
    require(set(out) == {"d1", "d2", "q1", "q2", "efficacy"}, "converted parameters {}", sorted(out))


def check_pair(d1, d2, build, ctx, doing):
    s1, s2 = units.si_exact("time", *d1), units.si_exact("time", *d2)
    if s1 != s2 and abs(s1 - s2) < units.Fr(1, 10 ** 12) * max(s1, s2) and d1[1] != d2[1]:
        ctx.label("too close to judge")
        return
    if s1 == s2 and d1[1] != d2[1] and not (isinstance(d1[0], int) and isinstance(d2[0], int)):
        ctx.label("too close to judge")
        return
    if s1 >= s2:
        ctx.label("refused")
        expect_raises((ValueError,), build, doing)
        return
    ctx.label("accepted")
    with guard(doing):
        model = build()
    for name, want in (("d1", d1), ("d2", d2)):
        got = getattr(model, name)
        require(got.magnitude == want[0] and got.units == sut.q(want).units, "{} reads back as {} not {}", name, got, want)


def check(case, ctx):
    if case["what"] == "a":
        spec = case["spec"]
        model = sut.build(spec)
        check_a(model, spec, spec["params"]["a"], "new model")
        if case["run_before"]:
            with guard("running"):
                model.set_drivers(sut.erf_quantity({"forcing": {"values": [0.0, 0.0]}, "unit": "W/m^2"}))
                model.reset()
                model.run()
            check_a(model, spec, spec["params"]["a"], "after a run")
        for i, value in enumerate(case["changes"]):
            with guard("assigning a"):
                model.a = sut.q(value)
            check_a(model, spec, value, "after assignment {}".format(i))
        allv = [spec["params"]["a"]] + case["changes"]
        ctx.label("a non-zero" if any(v[0] for v in allv) else "a zero")
        if any(0 < abs(v[0]) < 1e-15 for v in allv):
            ctx.label("a tiny")
        ctx.nontrivial(any(v[0] for v in allv) or len(allv) > 1)
    elif case["what"] == "d":
        kw = {k: sut.q(v) for k, v in case["rest"].items()}
        check_pair(
            case["d1"], case["d2"],
            lambda: ImpulseResponseModel(d1=sut.q(case["d1"]), d2=sut.q(case["d2"]), **kw), ctx,
            "constructing with d1 = {} and d2 = {}".format(case["d1"], case["d2"]),
        )
        ctx.label(case["how"])
        ctx.nontrivial(case["how"] in ("equal", "near", "ulp") or case["d1"][1] != case["d2"][1])
    else:
        v = case["value"]
        d1, d2 = ([v, [400.0, "yr"]] if case["which"] == "d1" else [[9.0, "yr"], v])
        s1, s2 = units.si_exact("time", *d1), units.si_exact("time", *d2)
        if abs(s1 - s2) < units.Fr(1, 10 ** 12) * max(s1, s2):
            ctx.label("too close to judge")
            return
        doing = "constructing with only {} = {}".format(case["which"], v)
        if s1 >= s2:
            expect_raises((ValueError,), lambda: ImpulseResponseModel(**{case["which"]: sut.q(v)}), doing)
        else:
            with guard(doing):
                ImpulseResponseModel(**{case["which"]: sut.q(v)})
        ctx.label("one timescale given")
        ctx.nontrivial()
