import mpmath
import numpy as np

from .. import gens, oracles, ref, sut, units
from ..core import require, sut as guard
from ..env import ImpulseResponseModel, ur
from ..gens import st

RULE = (
    "positive two-layer parameters (a = 0) in any units, efficacies at and away from one, piecewise-constant forcings, time steps from "
    "much shorter to much longer than the timescales; the converted impulse-response run against 40-digit matrix exponentials of "
    "the two-layer equations, and the two-layer run under step halving against it; non-trivial = non-zero forcing and at least 3 steps"
)
ASSUMPTIONS = [
    "tolerance: accumulated rounding plus the conversion's condition number",
    "step-halving part: 0.02/(fastest rate) as the coarser sub-step, error must shrink to at most 0.6 of it",
]
EXAMPLES = {"quick": 170, "thorough": 8000}


@st.composite
def strategy_(draw):
    over = {
        "du": gens.magnitude(1, 1000),
        "dl": gens.magnitude(10, 10000),
        "lambda0": gens.magnitude(0.05, 10),
        "eta": gens.magnitude(0.05, 10),
        "efficacy": st.one_of(st.just(1.0), gens.magnitude(0.2, 5)),
        "delta_t": gens.magnitude(1e4, 1e10),
    }
    wide = draw(st.booleans())
    p = draw(gens.tl_params(a="zero", wide=False, overrides=over if wide else None))
    return {
        "spec": {"model": "tl", "params": p, "via": draw(st.sampled_from(["ctor", "set"]))},
        "forcing": draw(gens.forcing(max_list=10, max_len=12, long_odds=10 ** 6, long_len=20, min_len=2, big=1e3)),
        "unit": draw(st.sampled_from(list(units.FLUX))),
        "euler": draw(st.booleans()),
    }


def strategy(tier):
    return strategy_()


def exact(p, F):
    """States of the two-layer ODE at the time points (mpmath)."""
    with mpmath.workdps(40):
        C, CD = mpmath.mpf(p["du"] * ref.RHO_CP), mpmath.mpf(p["dl"] * ref.RHO_CP)
        lam, eff, eta, dt = [mpmath.mpf(p[k]) for k in ("lambda0", "efficacy", "eta", "delta_t")]
        A = mpmath.matrix(
            [
                [-(lam + eff * eta) / C, eff * eta / C, 1 / C],
                [eta / CD, -eta / CD, 0],
                [0, 0, 0],
            ]
        ) * dt
        # scaling and squaring by hand: exp(A) = exp(A / 2^k)^(2^k)
        norm = max(abs(A[i, j]) for i in range(2) for j in range(2))
        k = max(0, int(mpmath.ceil(mpmath.log(norm + 1, 2))) + 2)
        k = min(k, 60)
        E = mpmath.expm(A / 2 ** k, method="taylor")
        for _ in range(k):
            E = E * E
        u = w = mpmath.mpf(0)
        Tu, Tl, N = [0.0], [0.0], [0.0]
        for f in F[:-1]:
            f = mpmath.mpf(float(f))
            N.append(float(f - lam * u - (eff - 1) * eta * (u - w)))
            u, w = E[0, 0] * u + E[0, 1] * w + E[0, 2] * f, E[1, 0] * u + E[1, 1] * w + E[1, 2] * f
            Tu.append(float(u))
            Tl.append(float(w))
        return np.array(Tu), np.array(Tl), np.array(N)


def check(case, ctx):
    spec = case["spec"]
    p = sut.si_params(spec)
    F = np.array(gens.expand(case["forcing"]), float)
    drv = {"forcing": case["forcing"], "unit": case["unit"]}
    F = np.array(sut.driver_values(drv)[1], float)
    n = len(F)
    rel = ref.tl_to_ir_rel(p)
    worst = max(rel.values())
    model = sut.build(spec)
    with guard("converting to an impulse-response model"):
        params = model.get_impulse_response_parameters()
        twin = ImpulseResponseModel(delta_t=model.delta_t, **params)
        back = twin.get_two_layer_parameters()
    out = sut.run_erf(twin, sut.erf_quantity(drv))
    Tu, Tl, N = exact(p, F)
    top = np.maximum.accumulate(np.abs(F))
    gain = 1 / p["lambda0"]
    # temperatures: every term is bounded by the box gain times the largest forcing so far
    size = (np.abs(out["T1"]) + np.abs(out["T2"])) + 3 * gain * np.concatenate([[0.0], top[:-1]])
    tol = size * (worst * 20 + 1e-12) + 1e-270
    ir = {k: float(v.to(units.DEFAULT[units.IR_KINDS[k]]).magnitude) for k, v in params.items()}
    k_scale = ref.ir_coeffs(dict(ir))[3] if p["efficacy"] != 1 else p["lambda0"]
    tolN = np.zeros(n)
    flux = np.abs(F[:-1]) + top[:-1]
    tolN[1:] = (
        1e-12 * flux
        + (p["lambda0"] + abs(p["efficacy"] - 1) * p["eta"] * 2) * tol[:-1] * 10
        + 1e-13 * k_scale * size[:-1]
        + 1e-270
    )
    ok = np.ones(n, bool)
    if worst < 1e-4:
        oracles.compare(
            "surface temperature of the converted model", out["T1"] + out["T2"], Tu, tol, ok, ctx, offset=0,
            what="the exact two-layer solution",
        )
        oracles.compare(
            "heat uptake of the converted model", out["N"], N, tolN, ok & (tolN < 1e-2 * (flux.max() + 1e-300)), ctx, offset=0,
            what="the exact two-layer balance",
        )
        ctx.nontrivial(n >= 4 and F.any())
    else:
        ctx.label("ill-conditioned")
    require(abs(back["lambda0"].to("W/m^2/delta_degC").magnitude - p["lambda0"]) <= 1e-3 * p["lambda0"] or worst > 1e-5, "feedback lost")
    ctx.label("efficacy=1" if p["efficacy"] == 1 else "efficacy!=1")
    if not case["euler"] or not F.any():
        return
    rate = (p["lambda0"] + p["efficacy"] * p["eta"]) / (p["du"] * ref.RHO_CP) + p["eta"] / (p["dl"] * ref.RHO_CP)
    dt = p["delta_t"]
    m = max(1, int(np.ceil(dt * rate / 0.02)))
    if m * n > 2500:
        ctx.label("too stiff for step halving")
        return
    errs = []
    for sub in (m, 2 * m):
        fine = sut.build(spec)
        with guard("setting the time step"):
            fine.delta_t = ur.Quantity(dt / sub, "s")
        res = sut.run_erf(fine, ur.Quantity(np.repeat(F, sub), "W/m^2"))
        errs.append(max(np.abs(res["Tu"][::sub] - Tu).max(), np.abs(res["Tl"][::sub] - Tl).max()))
    scale = np.abs(Tu).max() + np.abs(Tl).max()
    noise = 1e-11 * m * scale
    ctx.label("step halving")
    require(
        errs[1] <= 0.6 * errs[0] + noise, "halving the step changes the two-layer model's error from {} to {} (temperature scale {})",
        errs[0], errs[1], scale,
    )
    # size of the first-order error
    amp = float(np.abs(F).max()) / p["lambda0"] + scale
    require(
        errs[0] <= 0.05 * amp * (1 + n) + noise, "two-layer model is off the exact solution by {} (temperature scale {})", errs[0], scale
    )
    ctx.measure("step-halving ratio", errs[1] / (0.6 * errs[0] + noise + 1e-300))
    ctx.measure("first-order error", errs[0] / (0.05 * amp * (1 + n) + noise + 1e-300))
