import numpy as np

from .. import gens, oracles, sut
from ..core import require
from ..gens import st

RULE = (
    "superposition: two forcing series and two factors; mirror: sign of forcing and a flipped; delay: k leading zeros; both "
    "models, any parameters (a = 0 for superposition), stable and unstable steps; non-trivial = non-zero forcing, at least 3 "
    "values, comparison tolerance below 1e-6 of the response"
)
ASSUMPTIONS = [
    "tolerance: accumulated rounding bounded by a recursion with the absolute Jacobian of the step; comparisons stop where it "
    "is no longer meaningful"
]
EXAMPLES = {"quick": 350, "thorough": 15000}


@st.composite
def strategy_(draw):
    law = draw(st.sampled_from(["superpose", "superpose", "mirror", "delay"]))
    a = "zero" if law == "superpose" else "any"
    spec = draw(gens.model_spec(a=a))
    case = {"law": law, "spec": spec, "F": draw(gens.forcing(max_len=50, long_len=500, long_odds=25, min_len=2))}
    if law == "superpose":
        case["G"] = draw(gens.forcing(max_len=50, min_len=1))
        case["alpha"] = draw(st.one_of(st.just(1.0), gens.signed(1e-3, 1e3)))
        case["beta"] = draw(st.one_of(st.just(1.0), st.just(0.0), gens.signed(1e-3, 1e3)))
    elif law == "delay":
        case["k"] = draw(st.one_of(st.integers(1, 6), st.integers(1, 60)))
    return case


def strategy(tier):
    return strategy_()


def relevant(ref_out, tol):
    size = max(np.abs(ref_out[k][np.isfinite(tol[k])]).max(initial=0) for k in tol)
    worst = max(tol[k][np.isfinite(tol[k])].max(initial=0) for k in tol)
    return size > 0 and worst < 1e-6 * size


def check(case, ctx):
    spec, law = case["spec"], case["law"]
    kind = spec["model"]
    p = sut.si_params(spec)
    F = np.array(gens.expand(case["F"]), float)
    n = len(F)
    ctx.label(law, kind)
    base = sut.values(F, spec)
    require(all(len(v) == n for v in base.values()), "wrong output length")
    tolF = oracles.bound(kind, p, F, base)
    if law == "superpose":
        G = np.array(gens.expand(case["G"]), float)
        G = np.concatenate([G, np.zeros(max(0, n - len(G)))])[:n]
        al, be = float(case["alpha"]), float(case["beta"])
        other = sut.values(G, spec)
        both = sut.values(al * F + be * G, spec)
        tolG = oracles.bound(kind, p, G, other)
        # rounding while combining, as if the combined forcing had no cancellation
        mag = np.abs(al * F) + np.abs(be * G)
        size = {k: np.abs(al * base[k]) + np.abs(be * other[k]) for k in base}
        tolS = oracles.bound(kind, p, mag, size)
        want = {k: al * base[k] + be * other[k] for k in base}
        tol = {k: abs(al) * tolF[k] + abs(be) * tolG[k] + tolS[k] for k in base}
        if al == 0 or be == 0:
            tol = {k: tol[k] + 1e-280 for k in tol}
        oracles.close(both, want, tol, "superposition", ctx)
        ctx.nontrivial(n >= 3 and F.any() and relevant(want, tol))
        if G.any() and al and be:
            ctx.label("two non-zero components")
        return
    if law == "mirror":
        flipped = {"model": kind, "params": dict(spec["params"]), "via": spec["via"]}
        if kind == "tl":
            mag, unit = spec["params"]["a"]
            flipped["params"]["a"] = [-mag, unit]
        got = sut.values(-F, flipped)
        want = {k: -v for k, v in base.items()}
        oracles.close(got, want, tolF, "mirrored run", ctx)
        ctx.nontrivial(n >= 3 and F.any() and relevant(want, tolF))
        if p.get("a"):
            ctx.label("mirror with state dependence")
        return
    k = case["k"]
    late = sut.values(np.concatenate([np.zeros(k), F]), spec)
    for name, v in late.items():
        require(len(v) == n + k, "wrong output length")
        require(not v[: k + 1].any(), "{} is not zero before the forcing starts", name)
    oracles.close({m: v[k:] for m, v in late.items()}, base, tolF, "delayed run", ctx)
    ctx.nontrivial(n >= 3 and F.any() and relevant(base, tolF))
