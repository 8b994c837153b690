"""Constructor arguments, defaults and reading parameters back."""
import numpy as np

from .. import gens, oracles, scen, sut, units
from ..core import require, sut as guard
from ..env import convert_lambda_to_ecs, ur
from ..gens import st

RULE = (
    "any subset of the constructor arguments, the first few positionally, more assigned afterwards, in any units; before that, up to 4 "
    "operations on other models of the process (default or not: assign, refused assign, run, scenarios, conversion, doubling forcing); "
    "non-trivial = at least one parameter left at its default and one given or an earlier operation"
)
ASSUMPTIONS = [
    "the published defaults are the ones of the constructors' signatures at the pinned commit, which the archived RCMIP results were made with",
    "the defaults' values are claimed, not the unit they are held in (relative tolerance 1e-14)",
]
EXAMPLES = {"quick": 220, "thorough": 15000}

# in the order of the constructors' arguments
DEFAULTS = {
    "tl": [
        ("du", [50, "m"]), ("dl", [1200, "m"]), ("lambda0", [3.74 / 3, "W/m^2/delta_degC"]), ("a", [0.0, "W/m^2/delta_degC^2"]),
        ("efficacy", [1.0, "dimensionless"]), ("eta", [0.8, "W/m^2/delta_degC"]), ("delta_t", [1, "yr"]),
    ],
    "ir": [
        ("q1", [0.3, "delta_degC/(W/m^2)"]), ("q2", [0.4, "delta_degC/(W/m^2)"]), ("d1", [9.0, "yr"]), ("d2", [400.0, "yr"]),
        ("efficacy", [1.0, "dimensionless"]), ("delta_t", [1.0 / 12, "yr"]),
    ],
}


@st.composite
def given_values(draw, kind, names):
    if kind == "tl":
        table = draw(st.sampled_from([gens.TL_PLAUSIBLE, gens.TL_PLAUSIBLE, gens.TL_WIDE]))
    else:
        year = gens.YEAR
        table = dict(gens.IR_PLAUSIBLE)
        # each on its own compatible with the other one's default
        table["d1"] = gens.magnitude(0.3, 300).map(lambda v: v * year)
        table["d2"] = gens.magnitude(12, 5000).map(lambda v: v * year)
    out = {n: draw(gens.quantity(units.MODEL_KINDS[kind][n], table[n])) for n in names}
    if "d1" in out and "d2" in out:
        d1, d2 = [units.si_exact("time", *out[k]) for k in ("d1", "d2")]
        if not d1 * units.Fr(1001, 1000) < d2:
            out["d1"] = [float(d2) / 10, "s"]
    return out


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(["tl", "ir"]))
    names = [n for n, _ in DEFAULTS[kind]]
    npos = draw(st.sampled_from([0, 0, 0, 1, 2, 3, len(names)]))
    rest = draw(st.lists(st.sampled_from(names[npos:]), unique=True, max_size=4)) if npos < len(names) else []
    values = draw(given_values(kind, names[:npos] + rest))
    later = draw(st.lists(st.sampled_from(rest), unique=True)) if rest else []
    ops = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "op": st.sampled_from(["set", "refused", "run", "scenarios", "convert", "ecs", "given"]),
                    "kind": st.sampled_from(["tl", "ir"]),
                    "pick": st.integers(0, 30),
                    "scale": st.sampled_from([0.5, 2.0, 1.1, 3.0]),
                    "monthly": st.booleans(),
                }
            ),
            max_size=4,
        )
    )
    return {
        "kind": kind, "npos": npos, "values": values, "later": later, "ops": ops,
        "driver": draw(gens.driver(max_list=8, max_len=25, long_odds=60, long_len=80)),
        "scenario": draw(gens.sometimes(12, scen.axis(2, 8))),
    }


def strategy(tier):
    return strategy_()


SAMPLE = {"values": [2.0, 3.7, -1.0, 4.0]}


def before(o):
    """Something done with other models first."""
    model = sut.CLASSES[o["kind"]]()
    names = [n for n, _ in DEFAULTS[o["kind"]]]
    name = names[o["pick"] % len(names)]
    what = o["op"]
    if what == "set":
        setattr(model, name, getattr(model, name) * o["scale"])
    elif what == "given":
        kwargs = {name: dict(DEFAULTS[o["kind"]])[name]}
        kwargs[name] = ur.Quantity(kwargs[name][0] * o["scale"], kwargs[name][1])
        sut.CLASSES[o["kind"]](**kwargs)
    elif what == "refused":
        try:
            setattr(model, name, "nothing" if o["pick"] % 2 else ur.Quantity(1.0, "mol"))
        except Exception:  # pylint: disable=broad-except
            pass
    elif what == "scenarios":
        axis = {"kind": "monthly", "year": 2000, "month": 1, "n": 4} if o["monthly"] else {"kind": "yearly", "year": 2000, "n": 4}
        row = {"meta": {"model": "m", "scenario": "s"}, "unit": "W/m^2", "forcing": SAMPLE, "lead": 0, "trail": 0}
        model.run_scenarios(scen.scmrun(axis, [row]), progress=False)
    elif what == "convert":
        if o["kind"] == "tl":
            sut.CLASSES["ir"](**model.get_impulse_response_parameters())
        else:
            sut.CLASSES["tl"](**model.get_two_layer_parameters())
    elif what == "ecs":
        convert_lambda_to_ecs(ur.Quantity(-1.2, "W/m^2/K"), f2x=ur.Quantity(3.7 * o["scale"], "W/m^2"))
    if what in ("run", "set"):
        sut.run_erf(model, ur.Quantity(np.array(SAMPLE["values"]), "W/m^2"))


def read_back(model, kind, values, when, skip=()):
    """Every parameter: exactly as given, or the default."""
    for name, (mag, unit) in DEFAULTS[kind]:
        if name in skip:
            continue
        with guard("reading {} {}".format(name, when)):
            got = getattr(model, name)
            if name in values:
                want = sut.q(values[name])
                same = got.units == want.units and got.magnitude == want.magnitude
            else:
                want = ur.Quantity(mag, unit)
                have = got.to(unit).magnitude
                same = abs(have - mag) <= 1e-14 * abs(mag)
        require(
            bool(same), "{} is {} {} instead of {} {}", name, got, when, "the given" if name in values else "the default", want
        )


def check(case, ctx):
    kind = case["kind"]
    for o in case["ops"]:
        with guard("operation {} on another model".format(o["op"])):
            before(o)
        ctx.label("earlier " + o["op"])
    names = [n for n, _ in DEFAULTS[kind]]
    pos = names[: case["npos"]]
    values = case["values"]
    with guard("constructing"):
        model = sut.CLASSES[kind](
            *[sut.q(values[n]) for n in pos],
            **{n: sut.q(v) for n, v in values.items() if n not in pos and n not in case["later"]}
        )
    now = {n: v for n, v in values.items() if n not in case["later"]}
    read_back(model, kind, now, "after construction")
    # the order does not matter as long as the timescales stay apart
    for n in sorted(case["later"]):
        with guard("assigning {}".format(n)):
            setattr(model, n, sut.q(values[n]))
    read_back(model, kind, values, "after assignment")
    params = {n: list(values.get(n, v)) for n, v in DEFAULTS[kind]}
    p = sut.si_params({"model": kind, "params": params})
    out = sut.run_erf(model, sut.erf_quantity(case["driver"]))
    F = sut.driver_values(case["driver"])[1]
    if p.get("d1", 0) * 1.001 < p.get("d2", 1):
        oracles.steps(kind, p, F, out, ctx)
    read_back(model, kind, values, "after a run")
    if case["scenario"] is not None:
        if p.get("d1", 0) * 1.001 < p.get("d2", 1):
            ps, Fs, outs = scen.single({"model": kind, "params": params}, case["driver"], case["scenario"], model)
            oracles.steps(kind, ps, Fs, outs, ctx)
            read_back(model, kind, values, "after a scenario run", skip=("delta_t",))
            ctx.label("scenario run")
    with guard("constructing with defaults"):
        plain = sut.CLASSES[kind]()
    read_back(plain, kind, {}, "of a default model afterwards")
    ctx.label(kind, "positional" if pos else "keywords only", "{} given".format(len(values)))
    if case["later"]:
        ctx.label("assigned later")
    if "delta_t" not in values:
        ctx.label("default time step")
    ctx.nontrivial(len(values) < len(names) and bool(values or case["ops"]))
