import numpy as np

from .. import gens, oracles, ref, sut, units
from ..core import require, sut as guard
from ..gens import st

RULE = (
    "two-layer parameters (climate-like or extreme, any units) and forcings in three situations: eta = 0 (with two different lower depths and efficacies), "
    "a lower layer 1e12 to 1e30 m deep, and zero forcing (both models); non-trivial = non-zero forcing with at least 2 steps, or zero forcing with at least 2 steps"
)
ASSUMPTIONS = [
    "runs are compared until the upper layer overflows",
    "deep lower layer: tolerance is the heat the deep layer can take up over the run, plus accumulated rounding",
]
EXAMPLES = {"quick": 420, "thorough": 20000}


@st.composite
def strategy_(draw):
    what = draw(st.sampled_from(["eta", "eta", "deep", "deep", "zero"]))
    drv = draw(gens.driver(max_list=10, max_len=120, long_odds=12, long_len=1200))
    if what == "zero":
        spec = draw(gens.model_spec())
        n = len(gens.expand(drv["forcing"]))
        zero = draw(st.sampled_from([0.0, -0.0]))
        drv = {"forcing": {"shape": "const", "n": n, "amp": zero, "base": zero, "period": 1, "edits": []}, "unit": drv["unit"]}
        return {"what": what, "spec": spec, "driver": drv}
    over = {}
    if what == "eta":
        over["eta"] = st.sampled_from([0.0, 0, -0.0])
    spec = draw(gens.model_spec(which=("tl",)))
    if what == "eta":
        spec["params"]["eta"] = draw(gens.quantity("feedback", st.sampled_from([0.0, 0, -0.0])))
    else:
        spec = draw(st.builds(lambda p: {"model": "tl", "params": p, "via": "ctor"}, gens.tl_params(wide=draw(st.booleans()))))
    case = {"what": what, "spec": spec, "driver": drv}
    if what == "eta":
        case["other"] = {
            "dl": draw(gens.quantity("depth", gens.TL_WIDE["dl"])),
            "efficacy": draw(gens.quantity("none", gens.TL_WIDE["efficacy"])),
        }
    else:
        case["deep"] = draw(gens.quantity("depth", gens.magnitude(1e12, 1e30)))
        case["spec"]["params"]["dl"] = case["deep"]
    case["late"] = draw(st.booleans())
    return case


def strategy(tier):
    return strategy_()


def one_layer(F, C, dt, lam, a):
    """Next-step prediction chained from zero with a running rounding bound."""
    n = len(F)
    T, E = np.zeros(n), np.zeros(n)
    t = e = 0.0
    for i in range(1, n):
        growth = abs(1 - dt * lam / C) + 2 * abs(a) * dt / C * (abs(t) + e)
        terms = abs(t) + dt / C * (abs(F[i - 1]) + abs(lam * t) + abs(a) * t * t)
        t, e = t + dt * (F[i - 1] - lam * t + a * t * t) / C, e * growth + 1e-14 * terms + 1e-290
        if not (abs(t) < ref.BIG and e < ref.BIG):
            T[i:], E[i:] = np.nan, np.inf
            break
        T[i], E[i] = t, e
    return T, E


def check_eta(case, ctx):
    spec = case["spec"]
    p = sut.si_params(spec)
    _, F = sut.driver_values(case["driver"])
    model = sut.build(spec)
    out = sut.run_erf(model, sut.erf_quantity(case["driver"]))
    T, E = one_layer(F, p["du"] * ref.RHO_CP, p["delta_t"], p["lambda0"], p["a"])
    alive = np.isfinite(E)
    # an infinite upper layer times a zero coefficient is not a number
    require(bool((out["Tl"][alive] == 0).all()), "the lower layer moves without heat exchange: {}", out["Tl"].tolist()[:50])
    oracles.close(out, {"Tu": T}, {"Tu": E}, "without heat exchange, against one layer", ctx)
    other_spec = {"model": "tl", "params": dict(spec["params"], **case["other"]), "via": "ctor"}
    if case["late"]:
        with guard("assigning dl and efficacy"):
            for k, v in case["other"].items():
                setattr(model, k, sut.q(v))
        other = sut.run_erf(model, sut.erf_quantity(case["driver"]))
    else:
        other = sut.run(other_spec, case["driver"])
    for k in ("Tu", "Tl", "N"):
        same = (out[k] == other[k]) | (np.isnan(out[k]) & np.isnan(other[k])) | ~alive
        require(bool(same.all()), "{} depends on the lower depth or the efficacy although there is no exchange", k)
    ctx.nontrivial(len(F) >= 3 and any(F[:-1]))
    ctx.label("eta=0")


def check_deep(case, ctx):
    spec = case["spec"]
    p = sut.si_params(spec)
    _, F = sut.driver_values(case["driver"])
    out = sut.run(spec, case["driver"])
    C, CD, dt = p["du"] * ref.RHO_CP, p["dl"] * ref.RHO_CP, p["delta_t"]
    lam = p["lambda0"] + p["efficacy"] * p["eta"]
    T, E = one_layer(F, C, dt, lam, p["a"])
    # what the lower layer can take up per step, and its effect on the upper layer
    r = abs(p["eta"]) * dt / CD
    cross = dt / C * abs(p["efficacy"] * p["eta"])
    split = dt / C * (abs(p["lambda0"]) + abs(p["efficacy"] * p["eta"]))
    n = len(F)
    eu = el = 0.0
    Eu, El = np.zeros(n), np.zeros(n)
    for i in range(1, n):
        t = abs(T[i - 1])
        growth = abs(1 - dt * lam / C) + 2 * abs(p["a"]) * dt / C * (t + eu)
        terms = t * (1 + split) + dt / C * (abs(F[i - 1]) + abs(p["a"]) * t * t)
        eu, el = eu * growth + cross * el + 1e-14 * terms + 1e-290, el * (1 + r) + r * (t + eu) * (1 + 1e-9)
        if not (eu < ref.BIG and el < ref.BIG) or not np.isfinite(E[i]):
            Eu[i:], El[i:] = np.inf, np.inf
            break
        Eu[i], El[i] = eu, el
    # the deviation can reach the bound exactly: leave room for the bound's own rounding
    Eu, El = Eu * 1.0001, El * 1.0001
    oracles.close(out, {"Tu": T}, {"Tu": Eu}, "above a very deep layer, against one layer", ctx)
    ok = np.isfinite(El)
    require(
        bool((np.abs(out["Tl"][ok]) <= El[ok] * (1 + 1e-9)).all()), "a lower layer {} m deep warms by up to {!r}", p["dl"],
        float(np.abs(out["Tl"][ok]).max()),
    )
    ctx.nontrivial(len(F) >= 3 and any(F[:-1]) and r * n < 1e-3)
    ctx.label("deep")


def check_zero(case, ctx):
    out = sut.run(case["spec"], case["driver"])
    for k, v in out.items():
        require(bool((v == 0).all()), "{} moves without forcing: {}", k, v.tolist()[:50])
    ctx.nontrivial(len(v) >= 3)
    ctx.label("zero forcing", case["spec"]["model"])


def check(case, ctx):
    {"eta": check_eta, "deep": check_deep, "zero": check_zero}[case["what"]](case, ctx)
