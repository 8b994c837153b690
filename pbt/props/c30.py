"""Number types, array layouts and time-axis types: only the values count."""
import numpy as np
import pandas as pd

from .. import gens, oracles, scen, sut, units
from ..core import require, sut as guard
from ..env import ScmRun, convert_lambda_to_ecs, ur
from ..gens import st
from . import c06

RULE = (
    "one case computed twice: with Python floats and float64 arrays, and with the same values stored otherwise - parameters as int, numpy "
    "or 0-d array numbers, drivers as lists, tuples, integer, unsigned, boolean, big-endian, extended, strided, reversed, broadcast, masked or "
    "read-only arrays, scenario data as integer, object, single-precision, nullable or text columns, with time points as datetimes, numpy or "
    "cftime dates, ISO or year text, year numbers, wide, long or categorical; non-trivial = something stored differently and values not all zero"
)
ASSUMPTIONS = [
    "single precision (float16, float32) parameters and direct drivers are excluded: they are run in their own precision",
    "integer parameters are Python ints or int64 (narrower numpy integers overflow in their own arithmetic), Python ints in conversions",
    "feedback parameters given to the sensitivity, negative as a rule, are not stored as unsigned numbers",
]
EXAMPLES = {"quick": 210, "thorough": 12000}

PARAM_REPS = ["float", "int", "np.int64", "np.float64", "0d", "0d int"]
ARRAY_REPS = [
    "list", "tuple", "times unit", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "bool", ">f8", ">i4",
    "longdouble", "strided", "reversed", "readonly", "broadcast", "masked", "fortran",
]
UNSIGNED = {"uint8", "uint16", "uint32", "uint64", "bool"}
FRAME_REPS = ["float", "int", "int8", "float32", "object", "mixed", "Int64", "Float64", "text"]
TIME_REPS = ["datetime", "datetime64[s]", "datetime64[ns]", "cftime", "iso", "year text", "year int", "year float", "DatetimeIndex"]
LAYOUTS = ["wide", "columns", "categorical", "named", "long", "long year", "array"]


def integral(lo=-1000, hi=1000):
    return st.one_of(st.integers(-9, 9), st.integers(lo, hi)).map(float)


@st.composite
def strategy_(draw):
    what = draw(st.sampled_from(["direct", "direct", "direct", "direct", "scenarios", "convert", "ecs", "capacity"]))
    if what == "ecs":
        n = draw(st.integers(1, 4))
        vals = st.lists(st.integers(1, 120), min_size=n, max_size=n)
        return {
            "what": what, "lambda": draw(vals), "f2x": draw(vals), "negative": draw(st.booleans()),
            "units": [draw(st.sampled_from(list(units.KINDS["feedback"]))), draw(st.sampled_from(list(units.FLUX)))],
            "reps": [draw(st.sampled_from([r for r in ARRAY_REPS + PARAM_REPS * 2 if i or r not in UNSIGNED])) for i in range(2)],
        }
    if what == "scenarios":
        axis = draw(st.one_of(scen.yearly_axis(2, 8), scen.axis(2, 8)))
        rows = draw(scen.rows(axis["n"], 1, 3, pad=False, value=integral(-100, 100) if draw(st.booleans()) else integral(-40000, 40000), extra=False))
        return {
            "what": what, "spec": draw(gens.model_spec(wide=False, which=("tl", "ir"))), "axis": axis, "rows": rows,
            "frame": draw(st.sampled_from(FRAME_REPS)), "time": draw(st.sampled_from(TIME_REPS)), "layout": draw(st.sampled_from(LAYOUTS)),
        }
    if what == "convert":
        spec = draw(
            st.one_of(
                st.builds(lambda p: {"model": "tl", "params": p, "via": "ctor"}, c06.tl_convertible()),
                gens.model_spec("default", which=("ir",)),
            )
        )
    else:
        spec = draw(gens.model_spec("any", which=("tl",) if what == "capacity" else ("tl", "ir")))
    # products of two numpy integers overflow
    reps = [r for r in PARAM_REPS if what != "convert" or r not in ("np.int64", "0d int")]
    case = {"what": what, "spec": spec, "reps": {k: draw(st.sampled_from(reps)) for k in spec["params"]}}
    if what == "direct":
        case["driver"] = draw(gens.driver(max_list=8, max_len=40, long_odds=30, long_len=200, min_len=1, value=st.one_of(integral(), gens.forcing_value(1e4))))
        case["rep"] = draw(st.sampled_from(ARRAY_REPS))
    return case


def strategy(tier):
    return strategy_()


# ---------------------------------------------------------------- the same numbers, stored otherwise

INT_RANGE = {
    "int8": (-128, 127), "uint8": (0, 255), "int16": (-30000, 30000), "uint16": (0, 60000), "int32": (-10 ** 9, 10 ** 9),
    "uint32": (0, 4 * 10 ** 9), "int64": (-10 ** 15, 10 ** 15), "uint64": (0, 10 ** 15), ">i4": (-10 ** 9, 10 ** 9), "bool": (0, 1),
}


def array_values(vals, rep):
    """The values (floats) this representation can hold."""
    if rep in INT_RANGE:
        lo, hi = INT_RANGE[rep]
        return [float(min(hi, max(lo, round(v)))) for v in vals]
    if rep == "broadcast":
        return [vals[0]] * len(vals)
    return list(vals)


def stored(vals, rep):
    arr = np.array(vals, dtype=float)
    if rep == "list":
        return [int(v) if float(v).is_integer() and abs(v) < 2 ** 53 else float(v) for v in vals]
    if rep == "tuple":
        return tuple(float(v) for v in vals)
    if rep in INT_RANGE:
        return arr.astype(rep)
    if rep in (">f8", "longdouble"):
        return arr.astype(rep)
    if rep == "strided":
        return np.repeat(arr, 3)[::3]
    if rep == "reversed":
        return arr[::-1].copy()[::-1]
    if rep == "readonly":
        arr.setflags(write=False)
        return arr
    if rep == "broadcast":
        return np.broadcast_to(arr[:1], arr.shape)
    if rep == "masked":
        return np.ma.array(arr, mask=np.zeros(arr.shape, bool))
    if rep == "fortran":
        return np.asfortranarray(np.stack([arr, arr + 1.0]))[0]
    return arr


def array_quantity(vals, unit, rep):
    if rep == "times unit":
        return stored(vals, "list") * ur(unit)
    return ur.Quantity(stored(vals, rep), unit)


def number(value, rep):
    if rep == "int":
        return int(value)
    if rep == "np.int64":
        return np.int64(value)
    if rep == "np.float64":
        return np.float64(value)
    if rep == "0d":
        return np.array(float(value))
    if rep == "0d int":
        return np.array(int(value))
    return float(value)


def plain_spec(spec, reps):
    """The spec with values the representations can hold."""
    params = {k: [float(m), u] for k, (m, u) in spec["params"].items()}
    for k, rep in sorted(reps.items()):
        if "int" not in rep:
            continue
        value = float(min(10 ** 6, max(-(10 ** 6), round(params[k][0]))))
        if value == 0 and spec["params"][k][0] != 0:
            continue
        new = [value, params[k][1]]
        if k not in ("d1", "d2") or sut.keeps_timescales_apart(params, k, new):
            params[k] = new
    return dict(spec, params=params)


def stored_quantities(plain, reps):
    out = {}
    for k, (m, u) in plain["params"].items():
        rep = reps[k]
        if "int" in rep and not (float(m).is_integer() and abs(m) <= 10 ** 6):
            rep = "np.float64"
        out[k] = ur.Quantity(number(m, rep), u)
    return out


def build(spec, quants):
    with guard("constructing with {}".format({k: type(v.magnitude).__name__ for k, v in quants.items()})):
        cls = sut.CLASSES[spec["model"]]
        if spec.get("via", "ctor") == "ctor":
            return cls(**quants)
        model = cls()
        for k, v in quants.items():
            setattr(model, k, v)
        return model


# ---------------------------------------------------------------- the checks


def check(case, ctx):
    ctx.label(case["what"])
    if case["what"] == "ecs":
        return check_ecs(case, ctx)
    if case["what"] == "scenarios":
        return check_scenarios(case, ctx)
    plain = plain_spec(case["spec"], case["reps"])
    kind = plain["model"]
    quants = stored_quantities(plain, case["reps"])
    other = sum(type(v.magnitude) is not float for v in quants.values())
    one, two = sut.build(plain), build(plain, quants)
    p = sut.si_params(plain)
    if case["what"] == "capacity":
        for attr in ("heat_capacity_upper", "heat_capacity_lower"):
            with guard(attr):
                x, y = [float(getattr(m, attr).to("J/delta_degC/m^2").magnitude) for m in (one, two)]
            require(abs(x - y) <= 1e-14 * abs(x), "{}: {!r} and {!r} for the same depth", attr, x, y)
        ctx.nontrivial(other >= 1)
        return None
    if case["what"] == "convert":
        func = "get_impulse_response_parameters" if kind == "tl" else "get_two_layer_parameters"
        with guard("converting"):
            x, y = getattr(one, func)(), getattr(two, func)()
        require(set(x) == set(y), "different keys {} and {}", sorted(x), sorted(y))
        kinds = units.IR_KINDS if kind == "tl" else units.TL_KINDS
        rel = c06.conversion_tolerance(kind, p)
        for name in x:
            with guard("converted {}".format(name)):
                a, b = [float(v[name].to(units.DEFAULT[kinds[name]]).magnitude) for v in (x, y)]
            require(abs(a - b) <= rel.get(name, 1e-13) * abs(a), "converted {}: {!r} and {!r} for the same model", name, a, b)
        ctx.nontrivial(other >= 1)
        return None
    unit, rep = case["driver"]["unit"], case["rep"]
    ctx.label("drivers as " + rep, kind)
    vals = array_values(sut.driver_values(case["driver"])[0], rep)
    base = sut.run_erf(one, ur.Quantity(np.array(vals, float), unit))
    with guard("drivers as {}".format(rep)):
        erf = array_quantity(vals, unit, rep)
        two.set_drivers(erf)
        two.reset()
        two.run()
        got = sut.outputs(two)
    fac = units.FLUX[unit]
    F = np.array([float(units.Fr(v) * fac) for v in vals])
    tol = oracles.bound(kind, p, F, base)
    oracles.close(got, base, tol, "run with drivers as {}".format(rep), ctx, "run")
    ctx.nontrivial(F.any() and len(F) > 1)
    return None


def check_ecs(case, ctx):
    sign = -1 if case["negative"] else 1
    args, plains = [], []
    for vals, unit, rep in zip(([sign * v for v in case["lambda"]], case["f2x"]), case["units"], case["reps"]):
        if rep in PARAM_REPS:
            plains.append(np.array(vals[:1], float))
            args.append(ur.Quantity(number(vals[0], rep), unit))
        else:
            vals = array_values(vals, rep)
            if not all(vals):
                rep, vals = "list", [1.0] * len(vals)
            plains.append(np.array(vals, float))
            args.append(array_quantity(vals, unit, rep))
        ctx.label("as " + rep)
    with guard("convert_lambda_to_ecs"):
        got = convert_lambda_to_ecs(*args).to("delta_degC").magnitude
    lam = plains[0] * float(units.KINDS["feedback"][case["units"][0]])
    f2x = plains[1] * float(units.FLUX[case["units"][1]])
    want = -f2x / lam
    got = np.atleast_1d(np.array(got, float))
    require(got.shape == want.shape, "{} sensitivities instead of {}", got.shape, want.shape)
    require((np.abs(got - want) <= 1e-13 * np.abs(want)).all(), "sensitivity {} instead of {}", list(got), list(want))
    ctx.nontrivial()


def columns(times, rep):
    if rep in ("datetime64[s]", "datetime64[ns]"):
        return np.array(times, dtype=rep)
    if rep == "DatetimeIndex":
        return pd.DatetimeIndex(times)
    if rep == "cftime":
        import cftime

        return [cftime.DatetimeGregorian(*t.timetuple()[:6]) for t in times]
    if rep == "iso":
        return ["{:04d}-{:02d}-{:02d}".format(t.year, t.month, t.day) for t in times]
    if rep == "year text":
        return ["{:04d}".format(t.year) for t in times]
    if rep == "year int":
        return [t.year for t in times]
    if rep == "year float":
        return [float(t.year) for t in times]
    return list(times)


def possible(axis, rep):
    """The representation can express the time points (else plain datetimes)."""
    years = axis["year"], axis["year"] + axis["n"]
    if rep in ("datetime64[ns]", "DatetimeIndex"):
        return rep if 1680 < years[0] and years[1] < 2260 else "datetime"
    if rep.startswith("year"):
        first = axis["kind"] == "yearly" and axis.get("month", 1) == 1 and axis.get("day", 1) == 1
        return rep if first and 1000 <= years[0] and years[1] < 3000 else "datetime"
    if rep in ("iso", "cftime"):
        return rep if 1680 < years[0] and years[1] < 2260 else "datetime"
    return rep


def check_scenarios(case, ctx):
    spec, axis, rows = case["spec"], case["axis"], case["rows"]
    if not 1680 < axis["year"] < 2250:
        # pandas' own reshaping is limited to nanosecond time stamps
        axis = dict(axis, year=1990)
    time = possible(axis, case["time"])
    layout, frame_rep = case["layout"], case["frame"]
    times = scen.axis_times(axis)
    rows = [dict(r, forcing={"values": [float(round(v)) for v in sut.driver_values(r)[0]]}, unit=r["unit"]) for r in rows]
    # magnitudes as they are (in the row's own unit)
    df = scen.frame(axis, [dict(r, unit="W/m^2") for r in rows])
    df.index = pd.MultiIndex.from_tuples(
        [tuple(r["unit"] if n == "unit" else v for n, v in zip(df.index.names, lab)) for r, lab in zip(rows, df.index)],
        names=df.index.names,
    )
    if frame_rep == "int8":
        df = df.clip(-100, 100)
    if frame_rep == "float32":
        df = df.clip(-(2 ** 20), 2 ** 20)
    with guard("run_scenarios of the plain data"):
        want = scen.result_rows(sut.build(spec).run_scenarios(ScmRun(df.copy()), progress=False))
    p = sut.si_params(spec)
    p["delta_t"] = scen.axis_step(axis)
    for r, mags in zip(rows, df.values):
        fac = units.FLUX[r["unit"]]
        F = [units.Fr(float(v)) * fac for v in mags]
        oracles.steps(spec["model"], p, np.array([float(v) for v in F]), scen.series(spec["model"], want, r["meta"]), ctx)
    data = df.copy()
    if frame_rep in ("int", "int8", "float32", "object", "Int64", "Float64"):
        data = data.astype({"int": "int64"}.get(frame_rep, frame_rep))
    elif frame_rep == "text":
        data = data.astype(float).applymap(repr)
    elif frame_rep == "mixed":
        data[data.columns[0]] = data[data.columns[0]].astype(int)
    data.columns = columns(times, time)
    if layout == "columns":
        data = data.reset_index()
    elif layout == "categorical":
        data = data.reset_index()
        for c in ("scenario", "model", "unit"):
            data[c] = data[c].astype("category")
    elif layout == "named":
        data.columns.name = "time"
    elif layout in ("long", "long year"):
        names = list(data.index.names)
        data = data.stack().reset_index()
        data.columns = names + ["year" if layout == "long year" and time == "year int" else "time", "value"]
    elif layout == "array":
        meta = {n: list(data.index.get_level_values(n)) for n in data.index.names}
        data = ScmRun(data=np.array(data.values.T, dtype=float), index=columns(times, time), columns=meta)
    ctx.label("numbers as " + frame_rep, "times as " + time, "layout " + layout)
    with guard("run_scenarios with numbers as {}, times as {}, layout {}".format(frame_rep, time, layout)):
        got = scen.result_rows(sut.build(spec).run_scenarios(data, progress=False))
    require(len(got) == len(want), "{} series instead of {}", len(got), len(want))
    for w in want:
        meta = {k: w.meta[k] for k in ("variable", "scenario", "model", "unit")}
        g = scen.pick(got, **meta)
        require(g.times == w.times, "{}: time points {} instead of {}", meta, g.times[:3], w.times[:3])
        oracles.same_bits({"values": g.values}, {"values": w.values}, "{} with numbers as {}, times as {}, layout {}".format(meta["variable"], frame_rep, time, layout))
    ctx.nontrivial(frame_rep != "float" or time != "datetime" or layout != "wide")
