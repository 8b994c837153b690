import math

import numpy as np

from .. import gens, oracles, ref, sut, units
from ..core import require, sut as guard
from ..env import convert_lambda_to_ecs, ur
from ..gens import st

RULE = (
    "constant forcing (any sign and unit) held until the slowest mode has decayed to 1e-7, two-layer models with and without state dependence "
    "(stable time steps, positive parameters in any units) and impulse-response models; non-trivial = non-zero forcing and equilibrium reached"
)
ASSUMPTIONS = [
    "time steps below the stability limit of the forward-difference scheme, chosen so that equilibrium takes at most about 3000 steps; "
    "cases whose timescales are too far apart for that are not judged",
    "state-dependent limit: forcing below 90% of the one beyond which no equilibrium exists",
]
EXAMPLES = {"quick": 110, "thorough": 5000}
MAX_STEPS = 3000
LEFT = 1e-7


@st.composite
def tl_case(draw):
    over = {
        "du": gens.magnitude(5, 500),
        "dl": gens.magnitude(5, 1000),
        "lambda0": gens.magnitude(0.1, 10),
        "eta": gens.magnitude(0.1, 10),
        "efficacy": st.one_of(st.just(1.0), gens.magnitude(0.3, 4)),
    }
    p = draw(gens.tl_params(a="zero", wide=False, overrides=over, with_dt=False))
    return {
        "what": "tl", "params": p,
        "state": draw(st.one_of(st.none(), gens.magnitude(1e-4, 0.9), gens.magnitude(1e-4, 5).map(lambda x: -x))),
        "a_unit": draw(st.sampled_from(list(units.KINDS["feedback2"]))),
    }


@st.composite
def ir_case(draw):
    over = {"q1": gens.magnitude(1e-3, 10), "q2": gens.magnitude(1e-3, 10)}
    return {"what": "ir", "params": draw(gens.ir_params(with_dt=False, wide=False, overrides=over))}


@st.composite
def strategy_(draw):
    case = draw(st.one_of(tl_case(), tl_case(), ir_case()))
    case["forcing"] = draw(st.one_of(gens.signed(1e-3, 1e3), st.sampled_from([3.74, 7.48, 1.0])))
    case["unit"] = draw(st.sampled_from(list(units.FLUX)))
    case["fraction"] = draw(st.floats(0.2, 0.9))
    case["time_unit"] = draw(st.sampled_from(["s", "yr", "month", "day"]))
    case["via"] = draw(st.sampled_from(["ctor", "set"]))
    return case


def strategy(tier):
    return strategy_()


def modes(A):
    """Decay rates (smallest, largest) of x' = -A x for a 2x2 matrix with real eigenvalues."""
    tr, det = A[0][0] + A[1][1], A[0][0] * A[1][1] - A[0][1] * A[1][0]
    disc = math.sqrt(max(0.0, tr * tr - 4 * det))
    fast = (tr + disc) / 2
    return det / fast, fast


def check_tl(case, ctx):
    params = {k: list(v) for k, v in case["params"].items()}
    F = float(case["forcing"])
    p = {k: units.si(units.TL_KINDS[k], *v) for k, v in params.items()}
    lam = p["lambda0"]
    if case["state"] is not None and F != 0:
        # x = 4 a F / lambda0^2
        a = case["state"] * lam ** 2 / (4 * F)
        params["a"] = gens.requantify("feedback2", [a, units.DEFAULT["feedback2"]], case["a_unit"])
        p["a"] = units.si("feedback2", *params["a"])
    mag = float(units.Fr(F) / units.FLUX[case["unit"]])
    F = float(units.Fr(mag) * units.FLUX[case["unit"]])
    x = 4 * p["a"] * F / lam ** 2
    root = math.sqrt(1 - x)
    limit = 2 * F / (lam * (1 + root))  # stable root of a T^2 - lam T + F = 0
    slope_end = lam * root  # local feedback at the limit
    lo, hi = min(lam, slope_end), max(lam, slope_end)
    C, CD = p["du"] * ref.RHO_CP, p["dl"] * ref.RHO_CP
    ee, eta = p["efficacy"] * p["eta"], p["eta"]
    slow, _ = modes([[(lo + ee) / C, -ee / C], [-eta / CD, eta / CD]])
    _, fast = modes([[(hi + ee) / C, -ee / C], [-eta / CD, eta / CD]])
    # every step must keep both layers a mixture of each other and of the limit
    dt = case["fraction"] * min(C / (hi + ee), CD / eta, 1 / fast)
    n = int(math.ceil(math.log(1 / LEFT) / (slow * dt))) + 10
    if n > MAX_STEPS:
        ctx.label("too stiff")
        return
    dt = float(units.Fr(dt) / units.TIME[case["time_unit"]])
    spec = {"model": "tl", "params": dict(params, delta_t=[dt, case["time_unit"]]), "via": case["via"]}
    model = sut.build(spec)
    out = sut.run_erf(model, ur.Quantity(np.full(n + 1, mag), case["unit"]))
    # amplitude left of the slowest mode (both layers start at -limit)
    tol = abs(limit) * (20 * LEFT * (1 + ee / lam + eta / lam) + 1e-9)
    for k in ("Tu", "Tl"):
        got = float(out[k][-1])
        require(abs(got - limit) <= tol, "{} ends at {!r} instead of {!r} after {} steps of F = {}", k, got, limit, n, F)
        ctx.measure(k, abs(got - limit) / (tol + 1e-300))
    tol_n = (hi + ee + eta) * 2 * tol + 1e-12 * (C + CD) / units.si("time", dt, case["time_unit"]) * abs(limit)
    got = float(out["N"][-1])
    require(abs(got) <= tol_n, "heat uptake ends at {!r} instead of zero (F = {})", got, F)
    ctx.measure("N", abs(got) / (tol_n + 1e-300))
    ctx.nontrivial(F != 0)
    ctx.label("state-dependent" if p["a"] else "linear")
    if p["a"]:
        return
    if F:
        # equilibrium under the doubling forcing is the sensitivity
        with guard("convert_lambda_to_ecs"):
            ecs = convert_lambda_to_ecs(-1 * model.lambda0, f2x=ur.Quantity(mag, case["unit"])).to("delta_degC").magnitude
        require(abs(ecs - float(out["Tu"][-1])) <= tol + 1e-12 * abs(ecs), "sensitivity {!r}, run ends at {!r}", ecs, float(out["Tu"][-1]))
        ctx.label("sensitivity")
        with guard("convert_lambda_to_ecs"):
            ecs = convert_lambda_to_ecs(-1 * model.lambda0).to("delta_degC").magnitude
        want = float(out["Tu"][-1]) * 3.74 / F
        require(abs(ecs - want) <= (tol + 1e-12) * abs(3.74 / F) + 1e-12 * abs(ecs), "sensitivity {!r}, run scaled to 3.74 W/m^2 ends at {!r}", ecs, want)


def check_ir(case, ctx):
    params = {k: list(v) for k, v in case["params"].items()}
    p = {k: units.si(units.IR_KINDS[k], *v) for k, v in params.items()}
    mag = float(units.Fr(float(case["forcing"])) / units.FLUX[case["unit"]])
    F = float(units.Fr(mag) * units.FLUX[case["unit"]])
    # any step will do, from shorter than d1 to longer than d2
    dt = p["d1"] * (p["d2"] / p["d1"]) ** case["fraction"]
    n = int(math.ceil(math.log(1 / LEFT) * p["d2"] / dt)) + 10
    if n > 400:
        dt, n = p["d2"] * math.log(1 / LEFT) / 390, 400
    dt = float(units.Fr(dt) / units.TIME[case["time_unit"]])
    spec = {"model": "ir", "params": dict(params, delta_t=[dt, case["time_unit"]]), "via": case["via"]}
    model = sut.build(spec)
    out = sut.run_erf(model, ur.Quantity(np.full(n + 1, mag), case["unit"]))
    limit = (p["q1"] + p["q2"]) * F
    got = float(out["T1"][-1] + out["T2"][-1])
    tol = abs(limit) * (3 * LEFT + 1e-11)
    require(abs(got - limit) <= tol, "temperature ends at {!r} instead of {!r}", got, limit)
    ctx.measure("T", abs(got - limit) / (tol + 1e-300))
    for k in ("1", "2"):
        box = float(out["T" + k][-1])
        want = p["q" + k] * F
        require(abs(box - want) <= 3 * LEFT * abs(want) + 1e-11 * abs(want), "box {} ends at {!r} instead of {!r}", k, box, want)
    lam, k1, k2, k_scale = ref.ir_coeffs({k: p[k] for k in ("q1", "q2", "d1", "d2", "efficacy")})
    tol_n = abs(F) * 1e-11 + (lam + abs(k1) + abs(k2)) * 6 * LEFT * (abs(limit)) + 1e-13 * k_scale * abs(limit)
    got = float(out["N"][-1])
    # (1-phi1) q1 + (1-phi2) q2 vanishes: both layers are equally warm
    require(abs(got) <= tol_n, "heat uptake ends at {!r} instead of zero (F = {})", got, F)
    ctx.measure("N impulse response", abs(got) / (tol_n + 1e-300))
    ctx.nontrivial(F != 0)
    ctx.label("impulse response", "efficacy=1" if p["efficacy"] == 1 else "efficacy!=1")
    with guard("get_two_layer_parameters"):
        lam_q = model.get_two_layer_parameters()["lambda0"]
        ecs = convert_lambda_to_ecs(-1 * lam_q, f2x=ur.Quantity(mag, case["unit"])).to("delta_degC").magnitude
    require(abs(ecs - limit) <= 1e-11 * abs(limit), "sensitivity {!r} of the equivalent feedback, limit {!r}", ecs, limit)


def check(case, ctx):
    (check_tl if case["what"] == "tl" else check_ir)(case, ctx)
