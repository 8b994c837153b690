import numpy as np

from .. import gens, oracles, ref, sut, units
from ..core import require, sut as guard
from ..env import ur
from ..gens import st

RULE = (
    "impulse-response parameters (climate-like or extreme, any units, any efficacy), piecewise-constant forcing of 1 to 25 intervals and "
    "subdivision factors 1 to 60, the finer time step assigned to the same or another model; non-trivial = non-zero forcing, at least two intervals, factor >= 2"
)
ASSUMPTIONS = ["tolerance: accumulated rounding of both runs (box errors decay with the box)"]
EXAMPLES = {"quick": 110, "thorough": 8000}


@st.composite
def strategy_(draw):
    spec = draw(gens.model_spec(which=("ir",)))
    return {
        "spec": spec,
        "driver": draw(gens.driver(max_list=12, max_len=25, long_odds=10 ** 6, long_len=40, min_len=1, big=1e4)),
        "m": draw(st.one_of(st.sampled_from([2, 3, 12]), st.integers(1, 60))),
        "unit": draw(st.sampled_from(list(units.TIME))),
        "same_model": draw(st.booleans()),
    }


def strategy(tier):
    return strategy_()


def check(case, ctx):
    spec, m = case["spec"], case["m"]
    mags, F = sut.driver_values(case["driver"])
    p = sut.si_params(spec)
    coarse_model = sut.build(spec)
    coarse = sut.run_erf(coarse_model, sut.erf_quantity(case["driver"]))
    fine_model = coarse_model if case["same_model"] else sut.build(spec)
    step = units.si_exact("time", *spec["params"]["delta_t"]) / m / units.TIME[case["unit"]]
    with guard("assigning the shorter time step"):
        fine_model.delta_t = ur.Quantity(float(step), case["unit"])
    fine = sut.run_erf(fine_model, ur.Quantity(np.repeat(np.array(mags), m), case["driver"]["unit"]))
    n = len(F)
    require(len(fine["N"]) == n * m, "{} values for {} drivers", len(fine["N"]), n * m)
    pf = dict(p, delta_t=p["delta_t"] / m)
    tol_c = oracles.ir_bound(p, F, coarse)
    tol_f = oracles.ir_bound(pf, np.repeat(F, m), fine)
    want, got, tol = {}, {}, {}
    for k in ("T1", "T2"):
        got[k], want[k] = fine[k][::m], coarse[k]
        # the finer step is itself rounded: relative change of the exponent over the whole run
        x = p["delta_t"] / p["d" + k[1]]
        size = np.maximum.accumulate(np.abs(coarse[k])) + abs(p["q" + k[1]]) * np.concatenate([[0.0], np.maximum.accumulate(np.abs(F[:-1]))])
        tol[k] = tol_c[k] + tol_f[k][::m] + 4e-15 * size * min(x * n, 5.0) + 1e-280
    oracles.close(got, want, tol, "sub-steps per interval", ctx)
    if n > 1:
        # heat uptake of the step that starts at each shared time point
        idx = np.arange(n - 1) * m + 1
        lam, _, _, k_scale = ref.ir_coeffs(p)
        tol_n = (
            tol_c["N"][1:] + tol_f["N"][idx] + (abs(lam) + k_scale * (p["efficacy"] != 1)) * (tol["T1"][:-1] + tol["T2"][:-1])
        )
        oracles.close(
            {"N": fine["N"][idx]}, {"N": coarse["N"][1:]}, {"N": tol_n}, "heat uptake with sub-steps", ctx
        )
    ctx.nontrivial(n >= 2 and m >= 2 and any(F[:-1]))
    x1, x2 = p["delta_t"] / p["d1"], p["delta_t"] / p["d2"]
    ctx.label("step << timescales" if x1 < 0.01 else "step >> timescales" if x2 > 10 else "step comparable")
    ctx.label("efficacy=1" if p["efficacy"] == 1 else "efficacy!=1")
    ctx.label("same model" if case["same_model"] else "two models")
