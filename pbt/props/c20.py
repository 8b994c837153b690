import numpy as np

from .. import gens, ref, sut, units
from ..core import require
from ..gens import st

RULE = (
    "ordered pairs of forcings (the larger one = the smaller one plus non-negative increments, sometimes a single one), positive parameters in any units, "
    "time steps up to the stability limit for the two-layer model and unrestricted for the impulse-response model; non-trivial = the pair differs before the last value"
)
ASSUMPTIONS = [
    "two-layer time steps satisfy dt (lambda0 + efficacy eta) / C <= 1 and dt eta / C_D <= 1 (every step is then a weighted mean)",
    "inequalities up to 1e-12 of the equilibrium response to the largest absolute forcing, per step accumulated",
]
EXAMPLES = {"quick": 260, "thorough": 12000}


def nonneg():
    return st.one_of(st.just(0.0), gens.magnitude(1e-9, 1e4).map(float), st.floats(0, 10))


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(["tl", "ir"]))
    wide = draw(st.booleans())
    if kind == "tl":
        over = {
            "du": gens.magnitude(1e-1, 1e4), "dl": gens.magnitude(1e-1, 1e5),
            "lambda0": gens.magnitude(1e-3, 1e2), "eta": gens.magnitude(1e-3, 1e2), "efficacy": gens.magnitude(1e-2, 1e2),
        }
        params = draw(gens.tl_params(a="zero", wide=False, with_dt=False, overrides=over if wide else None))
        params["eta"] = draw(st.sampled_from([params["eta"]] * 9 + [[0.0, "W/m^2/K"]]))
        p = {k: units.si(units.TL_KINDS[k], *v) for k, v in params.items()}
        limit = p["du"] * ref.RHO_CP / (p["lambda0"] + p["efficacy"] * p["eta"])
        if p["eta"] > 0:
            limit = min(limit, p["dl"] * ref.RHO_CP / p["eta"])
        fraction = draw(st.one_of(st.floats(0.001, 0.999), st.sampled_from([0.99, 0.9, 0.5])))
        unit = draw(st.sampled_from(["s", "yr", "month", "day"]))
        params["delta_t"] = [float(units.Fr(limit * fraction) / units.TIME[unit]), unit]
    else:
        params = draw(gens.ir_params(wide=wide))
    # the smaller forcing and the increments
    low = draw(gens.forcing(max_list=12, max_len=100 if kind == "tl" else 40, long_odds=20, long_len=400 if kind == "tl" else 80, min_len=2, big=1e4))
    n = len(gens.expand(low))
    inc = draw(
        st.one_of(
            st.lists(st.tuples(st.integers(0, n - 1), nonneg()).map(list), min_size=1, max_size=3).map(lambda e: {"edits": e}),
            st.builds(lambda v: {"all": v}, nonneg()),
            st.builds(lambda v, i: {"from": i, "all": v}, nonneg(), st.integers(0, n - 1)),
        )
    )
    return {
        "spec": {"model": kind, "params": params, "via": draw(st.sampled_from(["ctor", "set"]))},
        "low": low, "abs": draw(st.booleans()), "inc": inc, "unit": draw(st.sampled_from(list(units.FLUX))),
    }


def strategy(tier):
    return strategy_()


def check(case, ctx):
    spec = case["spec"]
    kind = spec["model"]
    p = sut.si_params(spec)
    low = [float(v) for v in gens.expand(case["low"])]
    if case["abs"]:
        low = [abs(v) for v in low]
    inc = [0.0] * len(low)
    for i, v in case["inc"].get("edits", []):
        inc[i] += float(v)
    for i in range(case["inc"].get("from", 0), len(low)):
        inc[i] += float(case["inc"].get("all", 0.0))
    high = [a + b for a, b in zip(low, inc)]
    fac = float(units.FLUX[case["unit"]])
    series, outs = [], []
    for vals in (low, high):
        mags = [v / fac for v in vals]
        series.append(np.array([float(units.Fr(m) * units.FLUX[case["unit"]]) for m in mags]))
        outs.append(sut.run_erf(sut.build(spec), sut.ur.Quantity(np.array(mags), case["unit"])))
    lo, hi = outs
    n = len(low)
    if kind == "tl":
        names = {"Tu": 1 / p["lambda0"], "Tl": 1 / p["lambda0"]}
    else:
        names = {"T1": p["q1"], "T2": p["q2"]}
    steps = np.arange(n)
    for k, gain in names.items():
        top = np.concatenate([[0.0], np.maximum.accumulate(np.maximum(np.abs(series[0]), np.abs(series[1])))[:-1]])
        slack = gain * top * 1e-14 * (20 + steps) + 1e-270
        if kind == "tl":
            # rounding in the terms of a step relative to the temperatures
            slack = slack * (1 + p["delta_t"] / (p["du"] * ref.RHO_CP) * p["efficacy"] * p["eta"])
        short = lo[k] - hi[k]
        require(
            bool((short <= slack).all()), "{} is {!r} under the larger forcing and {!r} under the smaller one at index {}", k,
            float(hi[k][short.argmax()]), float(lo[k][short.argmax()]), int(short.argmax()),
        )
        ctx.measure("ordering " + k, float(np.max(short / slack)))
        for out, F, tag in ((lo, series[0], "smaller"), (hi, series[1], "larger")):
            upper = gain * np.concatenate([[0.0], np.maximum.accumulate(np.maximum(F, 0))[:-1]])
            lower = gain * np.concatenate([[0.0], np.minimum.accumulate(np.minimum(F, 0))[:-1]])
            T = out[k]
            i = int(np.argmax(np.maximum(T - upper, lower - T) - slack))
            require(
                bool(((T <= upper + slack) & (T >= lower - slack)).all()),
                "{} is {!r} at index {}, outside the equilibrium responses {!r} to {!r} of the forcings so far", k, float(T[i]), i,
                float(lower[i]), float(upper[i]),
            )
            if (F[:-1] >= 0).all():
                require(bool((T >= -slack).all()), "{} is negative ({!r}) under non-negative forcing", k, float(T.min()))
                ctx.label("non-negative forcing")
    ctx.nontrivial(any(series[0][:-1] != series[1][:-1]))
    ctx.label(kind)
