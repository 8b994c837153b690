import numpy as np

from .. import dictionary, gens, sut, units
from ..core import expect_raises, require, sut as guard
from ..env import convert_lambda_to_ecs, ur
from ..gens import st

RULE = (
    "scalar and array (0 to 3 dimensions, directed ones of up to thousands of values) feedback and forcing quantities of either sign in any units, default and explicit doubling forcing, positional and "
    "keyword arguments, non-quantities on either side; non-trivial = non-default units, an array, or a refusal"
)
ASSUMPTIONS = ["oracle: exact rational division, relative tolerance 1e-14 plus unit rounding"]
EXAMPLES = {"quick": 1500, "thorough": 60000}

NON_QUANTITIES = ["none", "int", "float", "str", "npfloat", "array", "list", "unit", "bool", "fraction", "dict"]
SHAPES = [[], [1], [3], [0], [2, 3], [1, 4], [2, 1, 2]]


def scalar(zero=False):
    return st.one_of(gens.signed(1e-6, 1e6, zero=zero), st.sampled_from([-1.2, -1, 1, -3.74, -0.5, 3.74, 7.48, -1.246]))


@st.composite
def value(draw, kind, zero):
    unit = draw(st.one_of(st.just(units.DEFAULT[kind]), st.sampled_from(list(units.KINDS[kind]))))
    shape = draw(st.sampled_from([None, None, None] + SHAPES))
    if shape is None:
        return {"mag": draw(scalar(zero)), "unit": unit, "shape": None}
    count = int(np.prod(shape))
    vals = draw(st.lists(scalar(zero).map(float), min_size=count, max_size=count))
    return {"mag": vals, "unit": unit, "shape": shape}


@st.composite
def strategy_(draw):
    what = draw(st.sampled_from(["plain", "plain", "plain", "scale", "bad"]))
    lam = draw(value("feedback", False))
    f2x = draw(st.one_of(st.none(), value("flux", True)))
    if f2x and lam["shape"] is not None and f2x["shape"] is not None:
        # arrays have to fit each other
        f2x["shape"] = lam["shape"]
        count = int(np.prod(lam["shape"]))
        pool = f2x["mag"] or [3.74]
        f2x["mag"] = [float(pool[i % len(pool)]) for i in range(count)]
    case = {"what": what, "lam": lam, "f2x": f2x, "how": draw(st.sampled_from(["positional", "keyword", "mixed"]))}
    if what == "scale":
        case["k"] = draw(gens.signed(1e-3, 1e3, zero=False))
    if what == "bad":
        case["side"] = draw(st.sampled_from(["lam", "f2x", "both"]))
        case["bad"] = draw(st.sampled_from(NON_QUANTITIES))
    return case


def _directed():
    """Large arrays."""
    out = []
    lam_units, f2x_units = sorted(units.KINDS["feedback"]), sorted(units.FLUX)
    shapes = [[70], [130], [8, 40], [1100], [40, 50], [2300]] + [[m] for m in dictionary.lengths(71, 6000, novel=True)[:8]]
    for i, shape in enumerate(shapes):
        count = int(np.prod(shape))
        mags = [(-1.0) ** (j % 3) * (0.3 + 0.0137 * j) for j in range(count)]
        lam = {"mag": mags, "unit": lam_units[i % len(lam_units)], "shape": shape}
        f2x = {"mag": [3.0 + 1 / (1 + j) for j in range(count)], "unit": f2x_units[i % len(f2x_units)], "shape": shape}
        for f in (None, {"mag": 3.81, "unit": "W/m^2", "shape": None}, f2x):
            out.append({"what": "plain", "lam": lam, "f2x": f, "how": "positional"})
    return out


DIRECTED = _directed()


def strategy(tier):
    return strategy_()


def build(v):
    if v["shape"] is None:
        return ur.Quantity(v["mag"], v["unit"])
    return ur.Quantity(np.array(v["mag"], float).reshape(v["shape"]), v["unit"])


def bad(tag):
    return {
        "none": None, "int": 3, "float": -1.2, "str": "3 W/m^2", "npfloat": np.float64(3.0), "array": np.array([1.0, 2.0]),
        "list": [ur.Quantity(1.0, "W/m^2")], "unit": ur.Unit("W/m^2"), "bool": True, "fraction": units.Fr(1, 3), "dict": {},
    }[tag]


def call(lam, f2x, how):
    if f2x is None:
        return convert_lambda_to_ecs(lam) if how == "positional" else convert_lambda_to_ecs(lambda_val=lam)
    if how == "positional":
        return convert_lambda_to_ecs(lam, f2x)
    if how == "mixed":
        return convert_lambda_to_ecs(lam, f2x=f2x)
    return convert_lambda_to_ecs(f2x=f2x, lambda_val=lam)


DEFAULT = {"mag": 3.74, "unit": "W/m^2", "shape": None}


def expected(lam, f2x):
    """Exact element-wise values in delta_degC with the shape of the result."""
    f2x = f2x or DEFAULT
    shape = lam["shape"] if lam["shape"] is not None else f2x["shape"]
    count = 1 if shape is None else int(np.prod(shape))

    def item(v, kind, i):
        mag = v["mag"] if v["shape"] is None else v["mag"][i]
        return units.si_exact(kind, mag, v["unit"])

    vals = [float(-item(f2x, "flux", i) / item(lam, "feedback", i)) for i in range(count)]
    return (np.array(vals[0]) if shape is None else np.array(vals).reshape(shape)), shape


def check_equal(got, want, shape, doing, ctx=None, rtol=1e-13):
    with guard(doing + ": converting to temperature"):
        mag = got.to("delta_degC").magnitude
        also = got.to("K").magnitude
    mag, also = np.asarray(mag, float), np.asarray(also, float)
    require(mag.shape == tuple(shape or ()), "{}: shape {} instead of {}", doing, mag.shape, shape)
    for m in (mag, also):
        err = np.abs(m - want)
        require(bool((err <= rtol * np.abs(want)).all()), "{}: {} instead of {}", doing, m.tolist(), want.tolist())
    if ctx is not None and mag.size:
        ctx.measure("sensitivity", float(np.max(err / (rtol * np.abs(want) + 1e-300))))


def check(case, ctx):
    lam, f2x = build(case["lam"]), (build(case["f2x"]) if case["f2x"] else None)
    how = case["how"]
    if case["what"] == "bad":
        value_ = bad(case["bad"])
        a = value_ if case["side"] in ("lam", "both") else lam
        b = value_ if case["side"] in ("f2x", "both") else f2x
        if case["side"] != "lam" and b is None and how == "positional":
            # None is not a quantity either
            expect_raises((TypeError,), lambda: convert_lambda_to_ecs(a, b), "f2x=None")
        elif case["side"] != "lam" and b is None:
            expect_raises((TypeError,), lambda: convert_lambda_to_ecs(a, f2x=None), "f2x=None")
        else:
            expect_raises((TypeError,), lambda: call(a, b, how), "non-quantity {} as {}".format(case["bad"], case["side"]))
        ctx.nontrivial()
        ctx.label("refused")
        return
    before = [(np.array(v.magnitude, copy=True), v.units, v.magnitude) for v in (lam, f2x) if v is not None]
    with guard("convert_lambda_to_ecs"):
        got = call(lam, f2x, how)
    want, shape = expected(case["lam"], case["f2x"])
    check_equal(got, want, shape, "sensitivity", ctx)
    for (mag, unit, obj), v in zip(before, (lam, f2x)):
        require(
            v.units == unit and v.magnitude is obj and np.array_equal(np.asarray(v.magnitude), mag), "argument changed from {} {} to {}", mag, unit, v
        )
    with guard("calling twice"):
        again = call(lam, f2x, how)
    require(
        np.array_equal(np.asarray(got.magnitude), np.asarray(again.magnitude)) and got.units == again.units, "two calls differ: {} and {}", got, again
    )
    if case["what"] == "scale":
        k = case["k"]
        base_f = f2x if f2x is not None else ur.Quantity(3.74, "W/m^2")
        with guard("scaled forcing"):
            scaled = convert_lambda_to_ecs(lam, f2x=base_f * k)
        check_equal(scaled, want * k, shape, "forcing times {}".format(k))
        with guard("scaled feedback"):
            scaled = convert_lambda_to_ecs(lam * k, f2x=base_f)
        check_equal(scaled, want / k, shape, "feedback times {}".format(k))
        if np.all(np.asarray(base_f.magnitude) != 0):
            with guard("inverse"):
                # feedback -> sensitivity -> feedback
                back = -base_f / convert_lambda_to_ecs(lam, f2x=base_f)
            m = np.asarray(back.to(lam.units).magnitude, float)
            require(bool((np.abs(m - lam.magnitude) <= 1e-13 * np.abs(lam.magnitude)).all()), "feedback comes back as {} instead of {}", back, lam)
        ctx.label("scaling")
    ctx.label("default forcing" if f2x is None else "explicit forcing", "array" if shape is not None else "scalar")
    ctx.nontrivial(
        shape is not None or case["lam"]["unit"] != units.DEFAULT["feedback"] or (f2x is not None and case["f2x"]["unit"] != "W/m^2")
    )
