import numpy as np

from .. import gens, oracles, ref, scen, sut, units
from ..core import require, sut as guard
from ..env import ImpulseResponseModel, TwoLayerModel, convert_lambda_to_ecs, ur
from ..gens import st

RULE = (
    "one physical case (parameters, time step, drivers) stated in the models' own units and in generated units for every "
    "quantity independently; runs, conversions, heat capacities and sensitivities compared; non-trivial = at least two "
    "quantities in other units"
)
ASSUMPTIONS = [
    "unit factors from an own table; tolerances from rounding of the restated inputs propagated through the run or the "
    "conversion's condition number"
]
EXAMPLES = {"quick": 280, "thorough": 14000}


@st.composite
def strategy_(draw):
    what = draw(st.sampled_from(["run", "run", "run", "convert", "capacity", "ecs"]))
    if what == "ecs":
        return {
            "what": what,
            "lambda": draw(gens.quantity("feedback", gens.signed(1e-4, 1e3, zero=False))),
            "f2x": draw(st.one_of(st.none(), gens.quantity("flux", gens.signed(1e-3, 1e3)))),
            "units": [
                draw(st.sampled_from(list(units.KINDS["feedback"]))),
                draw(st.sampled_from(list(units.FLUX))),
            ],
        }
    if what == "convert":
        spec = draw(
            st.one_of(
                st.builds(lambda p: {"model": "tl", "params": p, "via": "ctor"}, tl_convertible()),
                gens.model_spec("default", which=("ir",)),
            )
        )
    else:
        which = ("tl",) if what == "capacity" else ("tl", "ir")
        spec = draw(gens.model_spec("default", which=which))
    kinds = units.MODEL_KINDS[spec["model"]]
    other = {
        name: draw(st.one_of(st.sampled_from(list(units.KINDS[kinds[name]])), st.just(None)))
        for name in spec["params"]
    }
    case = {"what": what, "spec": spec, "units": other}
    if what == "run":
        case["driver"] = draw(gens.driver("default", max_len=50, long_len=300, long_odds=30, min_len=2))
        case["driver_unit"] = draw(st.sampled_from(list(units.FLUX)))
        case["axis"] = draw(gens.sometimes(12, scen.axis(3, 30)))
        case["earlier"] = {
            name: draw(st.sampled_from(list(units.KINDS[kinds[name]])))
            for name in draw(gens.sometimes(2, st.lists(st.sampled_from(sorted(spec["params"])), min_size=1, max_size=3, unique=True))) or ()
        }
    return case


def tl_convertible():
    return gens.tl_params(
        "default", a="zero",
        overrides={
            "lambda0": gens.magnitude(1e-2, 1e2),
            "eta": gens.magnitude(1e-2, 1e2),
            "efficacy": gens.magnitude(1e-2, 1e2),
            "du": gens.magnitude(1e-1, 1e4),
            "dl": gens.magnitude(1e-1, 1e5),
        },
    )


def strategy(tier):
    return strategy_()


def restate(spec, names):
    kinds = units.MODEL_KINDS[spec["model"]]
    params = {}
    for name, quant in spec["params"].items():
        unit = names.get(name)
        params[name] = gens.requantify(kinds[name], quant, unit) if unit else quant
    return dict(spec, params=params)


def check(case, ctx):
    what = case["what"]
    ctx.label(what)
    if what == "ecs":
        return check_ecs(case, ctx)
    spec = case["spec"]
    kind = spec["model"]
    ctx.label(kind)
    other = restate(spec, case["units"])
    changed = sum(u not in (None, spec["params"][k][1]) for k, u in case["units"].items())
    p = sut.si_params(spec)
    if what == "capacity":
        one, two = sut.build(spec), sut.build(other)
        with guard("heat capacities"):
            for attr in ("heat_capacity_upper", "heat_capacity_lower"):
                x = getattr(one, attr).to("J/delta_degC/m^2").magnitude
                y = getattr(two, attr).to("J/delta_degC/m^2").magnitude
                require(abs(x - y) <= 1e-13 * abs(x), "{}: {!r} and {!r}", attr, x, y)
        ctx.nontrivial(changed >= 1)
        return None
    if what == "convert":
        return check_convert(spec, other, p, changed, ctx)
    drv = case["driver"]
    if case["axis"] is None:
        base = sut.run(spec, drv)
        model = None
        if case.get("earlier"):
            # the same numbers in other units before
            ctx.label("restated on the way")
            model = sut.build(dict(other, via="set"))
            now = dict(other["params"])
            for name, unit in sorted(case["earlier"].items()):
                if name in ("d1", "d2") and not sut.keeps_timescales_apart(now, name, [now[name][0], unit]):
                    continue
                now[name] = [now[name][0], unit]
                with guard("assigning {}".format(name)):
                    setattr(model, name, ur.Quantity(other["params"][name][0], unit))
            with np.errstate(all="ignore"):
                sut.run(other, dict(drv, unit=case["driver_unit"]), model=model)
            for name in sorted(case["earlier"]):
                with guard("assigning {}".format(name)):
                    setattr(model, name, sut.q(other["params"][name]))
        got = sut.run(other, dict(drv, unit=case["driver_unit"]), model=model)
        F = np.array(sut.driver_values(drv)[1], float)
    else:
        ctx.label("scenario run")
        axis = case["axis"]
        outs = []
        for sp, unit in ((spec, "W/m^2"), (other, case["driver_unit"])):
            row = {
                "meta": {"model": "m", "scenario": "s"},
                "forcing": scen._fit(drv["forcing"], axis["n"]),
                "unit": unit, "lead": 0, "trail": 0,
            }
            model = sut.build(sp)
            with guard("run_scenarios"):
                res = model.run_scenarios(scen.scmrun(axis, [row]), progress=False)
            rows = scen.result_rows(res)
            for short, var in sut.SCEN_VARS[kind].items():
                u = scen.pick(rows, variable=var).meta["unit"]
                require(u == sut.OUT_UNITS[short], "{} reported in {!r}", var, u)
            outs.append(scen.series(kind, rows, {"scenario": "s"}))
        base, got = outs
        F = np.array(scen.row_values(dict(row, unit="W/m^2"), axis["n"])[1], float)
        p["delta_t"] = scen.axis_step(axis)
    tol = oracles.bound(kind, p, F, base, unit_error=64 * oracles.EPS)
    if kind == "ir":
        tol["N"] = tol["N"] * 10
    oracles.close(got, base, tol, "restated run", ctx)
    if case["driver_unit"] != "W/m^2":
        changed += 1
        ctx.label("driver unit changed")
    ctx.nontrivial(changed >= 2 and F.any())
    return None


def check_convert(spec, other, p, changed, ctx):
    kind = spec["model"]
    one, two = sut.build(spec), sut.build(other)
    func = "get_impulse_response_parameters" if kind == "tl" else "get_two_layer_parameters"
    with guard("converting"):
        x, y = getattr(one, func)(), getattr(two, func)()
    require(set(x) == set(y), "different keys {} and {}", sorted(x), sorted(y))
    kinds = units.IR_KINDS if kind == "tl" else units.TL_KINDS
    rel = conversion_tolerance(kind, p)
    for name in x:
        unit = units.DEFAULT[kinds[name]]
        with guard("units of converted {}".format(name)):
            a, b = float(x[name].to(unit).magnitude), float(y[name].to(unit).magnitude)
        tol = rel.get(name, 1e-13) * abs(a)
        require(
            abs(a - b) <= tol, "converted {}: {!r} {} and {!r} {} for the same physical model",
            name, a, unit, b, unit,
        )
        ctx.measure("converted " + name, abs(a - b) / tol if tol else 0)
    cls = ImpulseResponseModel if kind == "tl" else TwoLayerModel
    if all(r < 1e-3 for r in rel.values()):
        with guard("building the equivalent model"):
            cls(**y)
    ctx.nontrivial(changed >= 2)


def conversion_tolerance(kind, p):
    """Relative tolerances of converted parameters (see ref.conversion_rel)."""
    if kind == "tl":
        return ref.tl_to_ir_rel(p)
    return ref.ir_to_tl_rel(p)


def check_ecs(case, ctx):
    args = [case["lambda"]] + ([case["f2x"]] if case["f2x"] is not None else [])
    kinds = ["feedback", "flux"]
    with guard("convert_lambda_to_ecs"):
        x = convert_lambda_to_ecs(*[sut.q(a) for a in args]).to("delta_degC").magnitude
        y = convert_lambda_to_ecs(
            *[sut.q(gens.requantify(k, a, u)) for k, a, u in zip(kinds, args, case["units"])]
        ).to("delta_degC").magnitude
    want = -(units.si_exact("flux", *args[1]) if len(args) > 1 else units.Fr(3.74)) / units.si_exact(
        "feedback", *args[0]
    )
    for v in (x, y):
        require(
            abs(v - float(want)) <= 1e-13 * abs(float(want)) + 1e-300,
            "sensitivity {!r} instead of {!r}", v, float(want),
        )
    ctx.nontrivial(case["units"][0] != args[0][1])
