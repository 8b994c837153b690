import numpy as np

from .. import gens, oracles, ref, scen, sut
from ..core import require
from ..gens import st

RULE = (
    "both models, parameters climate-like or extreme in any units, forcing lists and long patterns, direct runs and "
    "scenario runs; non-trivial = at least 3 steps with changing heat content (two-layer) or forcing (impulse response)"
)
ASSUMPTIONS = ["sums in extended precision, tolerance 1e-12 of the summed absolute terms"]
EXAMPLES = {"quick": 500, "thorough": 20000}


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "spec": st.one_of(
                gens.model_spec(which=("tl",)),
                gens.model_spec(which=("tl",)),
                gens.model_spec(which=("ir",)),
            ),
            "driver": gens.driver(max_len=60, long_len=600, long_odds=15),
            "scenario": gens.sometimes(16, scen.axis(3, 30)),
        }
    )


def get(case):
    spec = case["spec"]
    if case["scenario"] is None:
        p = sut.si_params(spec)
        _, F = sut.driver_values(case["driver"])
        return p, np.array(F, float), sut.run(spec, case["driver"])
    return scen.single(spec, case["driver"], case["scenario"])


def check(case, ctx):
    p, F, out = get(case)
    kind = case["spec"]["model"]
    n = len(F)
    require(all(len(v) == n for v in out.values()), "outputs and drivers differ in length")
    ctx.label(kind, "scenario run" if case["scenario"] else "direct run")
    if n < 2:
        return
    N = out["N"]
    if kind == "ir":
        T = out["T1"] + out["T2"]
        lam = 1 / (p["q1"] + p["q2"])
        if p["efficacy"] == 1:
            want = F[:-1] - lam * T[:-1]
            tol = 1e-12 * (
                np.abs(F[:-1]) + lam * (np.abs(out["T1"][:-1]) + np.abs(out["T2"][:-1]))
            )
            oracles.compare(
                "heat uptake", N[1:], want, tol + oracles.TINY, np.isfinite(want), ctx,
                what="forcing minus feedback",
            )
            ctx.nontrivial(n >= 4 and F.any())
        else:
            pred, tol = ref.ir_rndt(p, F[:-1], out["T1"][:-1], out["T2"][:-1])
            oracles.compare(
                "heat uptake (efficacy)", N[1:], pred, tol + oracles.TINY, np.isfinite(pred), ctx,
                what="the top-of-atmosphere balance",
            )
            ctx.nontrivial(n >= 4 and F.any())
        return

    C, CD = p["du"] * ref.RHO_CP, p["dl"] * ref.RHO_CP
    dt, lam, a, eff, eta = p["delta_t"], p["lambda0"], p["a"], p["efficacy"], p["eta"]
    Tu, Tl = out["Tu"], out["Tl"]
    good = np.isfinite(Tu) & np.isfinite(Tl) & (np.abs(Tu) < 1e120) & (np.abs(Tl) < 1e120)
    good &= np.cumsum(~good) == 0
    _, _, s_up, s_lo = ref.tl_predict(p, F, Tu, Tl)
    local = np.zeros(n)
    local[1:] = (
        C * (np.abs(Tu[1:]) + np.abs(Tu[:-1]))
        + CD * (np.abs(Tl[1:]) + np.abs(Tl[:-1]))
        + s_up[:-1] * C
        + s_lo[:-1] * CD
    )
    content = C * Tu + CD * Tl
    L = np.longdouble
    total = np.cumsum(np.where(good, N, 0).astype(L)) * L(dt)
    tol = 1e-12 * np.cumsum(np.where(good, local, 0)) + 1e-280
    ok = good & (tol < 1e250)
    oracles.compare(
        "accumulated heat uptake", total.astype(float), content, tol, ok, ctx, offset=0,
        what="the heat content of the layers",
    )
    terms = [
        F[:-1], -lam * Tu[:-1], a * Tu[:-1] ** 2, -(eff - 1) * eta * Tu[:-1], (eff - 1) * eta * Tl[:-1]
    ]
    want = sum(t.astype(L) for t in map(np.asarray, terms)).astype(float)
    tol = 1e-12 * (sum(np.abs(t) for t in terms) + local[1:] / dt) + 1e-280
    ok = good[1:] & good[:-1] & (tol < 1e250)
    oracles.compare(
        "heat uptake", N[1:], want, tol, ok, ctx, what="the top-of-atmosphere balance"
    )
    # exchange: efficacy * gain of the lower layer = loss of the upper layer through exchange
    gain = CD * (Tl[1:] - Tl[:-1]) / dt
    loss = F[:-1] - (lam - a * Tu[:-1]) * Tu[:-1] - C * (Tu[1:] - Tu[:-1]) / dt
    tol = 1e-12 * (1 + abs(eff)) * (local[1:] / dt + np.abs(F[:-1])) + 1e-280
    oracles.compare(
        "exchange heat loss of the upper layer", loss, eff * gain, tol, ok & (tol < 1e250), ctx,
        what="efficacy times the lower layer's gain",
    )
    ctx.nontrivial(ok.sum() >= 3 and np.abs(N[1:][ok]).max() > 0)
    if eff != 1:
        ctx.label("efficacy!=1")
    if a:
        ctx.label("state-dependent")
