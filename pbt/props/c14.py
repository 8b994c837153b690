from .. import gens, oracles, ref, sut, units
from ..core import require, sut as guard
from ..env import ImpulseResponseModel, TwoLayerModel
from ..gens import st

RULE = (
    "positive two-layer parameters with a = 0 and positive two-timescale parameters, climate-like or extreme, any units; converted "
    "parameters against a 60-digit eigenvalue solution, then built and converted back; after further assignments as well; "
    "non-trivial = tolerance below 1e-6 for every parameter"
)
ASSUMPTIONS = [
    "tolerance: 64 ulps times the condition number of the documented closed form (its cancellation for extreme depth ratios "
    "is accepted rounding)"
]
EXAMPLES = {"quick": 420, "thorough": 20000}

POSITIVE = {
    "du": gens.magnitude(1e-1, 1e4),
    "dl": gens.magnitude(1e-1, 1e6),
    "lambda0": gens.magnitude(1e-3, 1e2),
    "eta": gens.magnitude(1e-3, 1e2),
    "efficacy": st.one_of(st.just(1.0), gens.magnitude(1e-2, 1e2)),
}


def tl_spec():
    return st.builds(
        lambda p, via: {"model": "tl", "params": p, "via": via},
        st.one_of(
            gens.tl_params(a="zero", overrides=POSITIVE),
            gens.tl_params(a="zero", wide=False),
        ),
        st.sampled_from(["ctor", "set"]),
    )


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "spec": st.one_of(tl_spec(), gens.model_spec(which=("ir",))),
            "change": st.one_of(st.none(), st.none(), st.sampled_from(["efficacy", "eta", "q1", "du", "dl", "q2", "lambda0"])),
            "factor": gens.magnitude(0.1, 10),
        }
    )


def mag(quantity, kind):
    return float(quantity.to(units.DEFAULT[kind]).magnitude)


def check_tl(model, p, ctx, doing):
    """Convert a two-layer model and compare with the eigenvalue solution."""
    with guard(doing):
        got = model.get_impulse_response_parameters()
    require(set(got) == {"d1", "d2", "q1", "q2", "efficacy"}, "keys {}", sorted(got))
    want = ref.tl_to_ir(p["lambda0"], p["du"] * ref.RHO_CP, p["dl"] * ref.RHO_CP, p["efficacy"], p["eta"])
    rel = ref.tl_to_ir_rel(p)
    out = {}
    for k in ("d1", "d2", "q1", "q2"):
        with guard("unit of converted " + k):
            out[k] = mag(got[k], units.IR_KINDS[k])
        w = float(want[k])
        if rel[k] < 1e-2:
            require(
                abs(out[k] - w) <= rel[k] * abs(w), "{}: {} is {!r}, exact {!r} (tolerance {:.2g})", doing, k, out[k], w, rel[k]
            )
            ctx.measure("tl->ir " + k, abs(out[k] - w) / (rel[k] * abs(w)))
    with guard("unit of converted efficacy"):
        out["efficacy"] = mag(got["efficacy"], "none")
    require(abs(out["efficacy"] - p["efficacy"]) <= 1e-15 * p["efficacy"], "efficacy {!r}", out["efficacy"])
    if max(rel.values()) < 1e-2:
        gain = out["q1"] + out["q2"]
        tol = (rel["q1"] * abs(out["q1"]) + rel["q2"] * abs(out["q2"])) * 2
        require(abs(gain - 1 / p["lambda0"]) <= tol + 1e-13 * gain, "q1 + q2 = {!r}, 1/lambda0 = {!r}", gain, 1 / p["lambda0"])
        if (want["d2"] - want["d1"]) / want["d2"] > 10 * max(rel["d1"], rel["d2"]):
            require(out["d1"] < out["d2"], "d1 = {!r} >= d2 = {!r}", out["d1"], out["d2"])
    return got, out, rel


def check_ir(model, p, ctx, doing):
    with guard(doing):
        got = model.get_two_layer_parameters()
    require(set(got) == {"lambda0", "du", "dl", "eta", "efficacy"}, "keys {}", sorted(got))
    eq = ref.ir_to_tl(p)
    rel = ref.ir_to_tl_rel(p)
    want = {
        "lambda0": float(eq["lambda0"]),
        "du": float(eq["C"] / ref.RHO_CP),
        "dl": float(eq["CD"] / ref.RHO_CP),
        "eta": float(eq["eta"]),
    }
    out = {}
    for k, w in want.items():
        with guard("unit of converted " + k):
            out[k] = mag(got[k], units.TL_KINDS[k])
        require(
            abs(out[k] - w) <= rel[k] * abs(w), "{}: {} is {!r}, exact {!r} (tolerance {:.2g})", doing, k, out[k], w, rel[k]
        )
        ctx.measure("ir->tl " + k, abs(out[k] - w) / (rel[k] * abs(w)))
    with guard("unit of converted efficacy"):
        out["efficacy"] = mag(got["efficacy"], "none")
    require(abs(out["efficacy"] - p["efficacy"]) <= 1e-15 * p["efficacy"], "efficacy {!r}", out["efficacy"])
    return got, out, rel


def convert(spec_kind, model, p, ctx, doing):
    return (check_tl if spec_kind == "tl" else check_ir)(model, p, ctx, doing)


def check(case, ctx):
    spec = case["spec"]
    kind = spec["model"]
    ctx.label(kind)
    p = sut.si_params(spec)
    model = sut.build(spec)
    converted, out, rel = convert(kind, model, p, ctx, "converting a {} model".format(kind))
    worst = max(rel.values())
    if worst < 1e-3 and (kind == "ir" or float(out["d2"]) > out["d1"] * (1 + 4 * worst)):
        other_kind = "ir" if kind == "tl" else "tl"
        cls = ImpulseResponseModel if kind == "tl" else TwoLayerModel
        with guard("building the equivalent {} model".format(other_kind)):
            other = cls(**converted)
        # what the other model makes of the values it was given
        q = dict(out)
        q["efficacy"] = out["efficacy"]
        if other_kind == "tl" or all(v > 0 for v in out.values()):
            _, back, rel2 = convert(other_kind, other, q, ctx, "converting back")
            # round trip: errors of the first conversion, amplified by the second
            amp = 40 * max(1.0, max(rel2.values()) / (64 * ref.EPS))
            for k, v in back.items():
                tol = min(1.0, worst * amp + rel2.get(k, 0) + 1e-13)
                if tol < 1e-3:
                    ctx.label("round trip")
                    require(
                        abs(v - p[k]) <= tol * abs(p[k]), "{} comes back as {!r} instead of {!r}", k, v, p[k]
                    )
                    ctx.measure("round trip " + k, abs(v - p[k]) / (tol * abs(p[k])))
    name = case["change"]
    if name in spec["params"]:
        # the conversion follows later assignments
        ctx.label("after assignment")
        value = [float(spec["params"][name][0]) * float(case["factor"]), spec["params"][name][1]]
        with guard("assigning " + name):
            setattr(model, name, sut.q(value))
        p2 = dict(p)
        p2[name] = units.si(units.MODEL_KINDS[kind][name], *value)
        convert(kind, model, p2, ctx, "converting after changing {}".format(name))
        with guard("converting twice"):
            func = "get_impulse_response_parameters" if kind == "tl" else "get_two_layer_parameters"
            x, y = getattr(model, func)(), getattr(model, func)()
        require(
            all(x[k].magnitude == y[k].magnitude and x[k].units == y[k].units for k in x), "converting twice differs"
        )
    ctx.nontrivial(worst < 1e-6)
    if worst >= 1e-6:
        ctx.label("ill-conditioned")
    if p["efficacy"] != 1:
        ctx.label("efficacy!=1")
