"""Shared generators. Everything they produce is JSON-able."""
import math

from . import dictionary, env, units  # noqa: F401

from hypothesis import strategies as st  # noqa: E402


# ---------------------------------------------------------------- numbers


def _nice(x):
    return float("%.2g" % x)


def magnitude(lo, hi, extra=(), scales=(1,)):
    """A positive number between lo and hi, log-uniform, rounded or special.

    scales: SI values of the units in which the source's constants may be meant.
    """
    assert 0 < lo < hi
    ratio = math.log(hi / lo)
    logu = st.floats(0, 1).map(lambda u: min(hi, max(lo, lo * math.exp(ratio * u))))
    options = [logu, logu, logu.map(_nice).filter(lambda v: lo <= v <= hi)]
    special = sorted(
        {v for v in dictionary.values(lo, hi, scales=scales)}
        | {float(e) for e in extra if lo <= e <= hi}
    )
    if special:
        options.append(st.sampled_from(special))
    novel = dictionary.values(lo, hi, novel=True, scales=scales)
    if novel:
        options.append(st.sampled_from(novel))
    ilo, ihi = max(1, math.ceil(lo)), min(10 ** 6, math.floor(hi))
    if ilo <= ihi:
        options.append(st.integers(ilo, ihi))
    return st.one_of(*options)


def signed(lo, hi, zero=True, extra=(), scales=(1,)):
    """Zero, or a number of either sign with absolute value between lo and hi."""
    pos = magnitude(lo, hi, extra, scales)
    options = [pos, pos, pos.map(lambda v: -v)]
    if zero:
        options.append(st.just(0.0))
        options.append(st.just(0))
    return st.one_of(*options)


@st.composite
def quantity(draw, kind, si_values, unit_mode="any"):
    """[magnitude, unit]; the SI value comes from si_values (up to rounding)."""
    val = draw(si_values)
    if unit_mode == "default":
        return [val, units.DEFAULT[kind]]
    names = list(units.KINDS[kind])
    default = units.DEFAULT[kind]
    unit = draw(st.one_of(st.just(default), st.sampled_from(names)))
    if unit == default:
        return [val, unit]
    return [to_unit(kind, val, unit), unit]


def to_unit(kind, val, unit):
    """Magnitude in unit of the SI value (nearest float, exact integers stay ints)."""
    fac = units.factor(kind, unit)
    if fac == 1:
        return val
    exact = units.Fr(val) / fac
    out = float(exact)
    if isinstance(val, int) and exact.denominator == 1 and abs(exact) < 2 ** 53:
        return int(exact)
    return out


def requantify(kind, quant, unit):
    """The same physical value in another unit (to rounding)."""
    exact = units.si_exact(kind, quant[0], quant[1]) / units.factor(kind, unit)
    return [float(exact), unit]


# ---------------------------------------------------------------- model parameters

YEAR = 31557600.0
TIMES = (1, YEAR, YEAR / 12, 86400.0)

# wide: everything the equations are defined for; plausible: climate-like values;
# both are used
TL_WIDE = {
    "du": magnitude(1e-2, 1e5),
    "dl": magnitude(1e-2, 1e6),
    "lambda0": signed(1e-4, 1e3),
    "a": signed(1e-6, 1e2),
    "efficacy": signed(1e-3, 1e2, extra=(1.0, 1.2)),
    "eta": signed(1e-4, 1e3),
    "delta_t": magnitude(1.0, 1e11, extra=(YEAR, YEAR / 12), scales=TIMES),
}
TL_PLAUSIBLE = {
    "du": magnitude(5, 500),
    "dl": magnitude(100, 5000),
    "lambda0": magnitude(0.2, 4),
    "a": st.one_of(st.just(0.0), signed(1e-3, 0.2)),
    "efficacy": magnitude(0.5, 2.5, extra=(1.0, 1.2)),
    "eta": magnitude(0.1, 3),
    "delta_t": st.one_of(
        st.sampled_from([YEAR, YEAR / 12, 86400.0]), magnitude(86400.0, YEAR)
    ),
}
IR_WIDE = {
    "q1": magnitude(1e-4, 1e3),
    "q2": magnitude(1e-4, 1e3),
    "efficacy": st.one_of(
        st.just(1.0),
        magnitude(1e-2, 1e2),
        st.sampled_from([1 + 1e-12, 1 - 1e-9, 1 + 1e-6, 1 - 1e-5, 1 + 1e-4, 1.001, 0.99]),
    ),
    "delta_t": magnitude(1.0, 1e11, extra=(YEAR, YEAR / 12), scales=TIMES),
}
IR_PLAUSIBLE = {
    "q1": magnitude(0.05, 1.0),
    "q2": magnitude(0.05, 1.5),
    "efficacy": st.one_of(st.just(1.0), magnitude(0.5, 2.5)),
    "delta_t": TL_PLAUSIBLE["delta_t"],
}


@st.composite
def tl_params(draw, unit_mode="any", wide=True, a="any", with_dt=True, overrides=None):
    """Two-layer parameters {name: [magnitude, unit]}."""
    table = dict(TL_WIDE if wide and draw(st.booleans()) else TL_PLAUSIBLE)
    if a == "zero":
        table["a"] = st.just(0.0)
    elif a == "nonzero":
        table["a"] = signed(1e-6, 10, zero=False)
    table.update(overrides or {})
    out = {}
    for name, kind in units.TL_KINDS.items():
        if name == "delta_t" and not with_dt:
            continue
        out[name] = draw(quantity(kind, table[name], unit_mode))
    return out


@st.composite
def ir_params(draw, unit_mode="any", wide=True, with_dt=True, overrides=None):
    """Impulse-response parameters with d1 clearly below d2."""
    is_wide = wide and draw(st.booleans())
    table = dict(IR_WIDE if is_wide else IR_PLAUSIBLE)
    table.update(overrides or {})
    out = {}
    for name in ("q1", "q2", "efficacy", "delta_t"):
        if name == "delta_t" and not with_dt:
            continue
        out[name] = draw(quantity(units.IR_KINDS[name], table[name], unit_mode))
    if is_wide:
        d1 = draw(magnitude(1e3, 1e11, scales=TIMES))
        ratio = draw(magnitude(1.001, 1e5))
    else:
        d1 = draw(magnitude(0.3, 30)) * YEAR
        ratio = draw(magnitude(1.5, 1000))
    for name, val in (("d1", float(d1)), ("d2", float(d1) * float(ratio))):
        out[name] = draw(quantity("time", st.just(val), unit_mode))
        if out[name][1] == "s" and draw(st.booleans()):
            out[name] = requantify("time", out[name], "yr")
    return out


def model_spec(unit_mode="any", wide=True, a="any", with_dt=True, which=("tl", "ir")):
    opts = []
    if "tl" in which:
        opts.append(
            st.builds(
                lambda p, via: {"model": "tl", "params": p, "via": via},
                tl_params(unit_mode, wide, a, with_dt),
                st.sampled_from(["ctor", "set"]),
            )
        )
    if "ir" in which:
        opts.append(
            st.builds(
                lambda p, via: {"model": "ir", "params": p, "via": via},
                ir_params(unit_mode, wide, with_dt),
                st.sampled_from(["ctor", "set"]),
            )
        )
    return st.one_of(*opts)


# ---------------------------------------------------------------- forcing


def forcing_value(big=1e6):
    specials = [0.0, -0.0, 1.0, -1.0, 3.74, 4.0, 7.48, 1e-300, -1e-12]
    opts = [
        st.floats(-10, 10),
        st.floats(-10, 10).map(_nice_signed),
        st.sampled_from(specials),
        st.integers(-5, 10).map(float),
        signed(1e-9, big),
    ]
    for novel in (False, True):
        dic = dictionary.values(-big, big, novel)
        if dic:
            opts.append(st.sampled_from(dic))
    return st.one_of(*opts)


def _nice_signed(x):
    return float("%.2g" % x)


SHAPES = ("const", "ramp", "step", "pulse", "sin", "alt", "quad", "saw", "noise")


def shape_value(spec, i, n):
    kind, amp, base, per = spec["shape"], spec["amp"], spec["base"], spec["period"]
    if kind == "const":
        v = amp
    elif kind == "ramp":
        v = amp * i / max(1, n - 1)
    elif kind == "step":
        v = amp if i >= per else 0.0
    elif kind == "pulse":
        v = amp if i % (per + 1) == per else 0.0
    elif kind == "sin":
        v = amp * math.sin(2 * math.pi * i / per)
    elif kind == "alt":
        v = amp if i % 2 else -amp
    elif kind == "quad":
        v = amp * (i / max(1, n)) ** 2
    elif kind == "saw":
        v = amp * ((i % per) / per - 0.5)
    else:  # a fixed pseudo-random sequence (pure function of the index and period)
        v = amp * (math.modf(math.sin((i + 1) * 12.9898 + per * 78.233) * 43758.5453)[0])
    return base + v


def expand(forcing):
    """The list of values of a forcing spec."""
    if "values" in forcing:
        return list(forcing["values"])
    n = forcing["n"]
    out = [shape_value(forcing, i, n) for i in range(n)]
    for i, v in forcing["edits"]:
        out[i % n] = v
    return out


@st.composite
def forcing(draw, max_list=12, max_len=120, long_len=1500, long_odds=6, min_len=1, big=1e6, value=None):
    """A forcing series spec: explicit values or a long pattern with edits."""
    value = value if value is not None else forcing_value(big)
    if draw(st.integers(0, 2)) == 2:
        return {"values": draw(st.lists(value, min_size=min_len, max_size=max(max_list, min_len)))}
    opts = [st.integers(min_len, max_len)]
    dic = dictionary.lengths(min_len, long_len)
    if draw(st.integers(0, long_odds)) == 0:
        if dic:
            opts = [st.sampled_from(dic), st.integers(min_len, long_len)]
        else:
            opts = [st.integers(min_len, long_len)]
    dic = dictionary.lengths(min_len, max(long_len, 20000), novel=True) if long_len > 300 else []
    if dic and draw(st.integers(0, 9)) == 5:
        opts = [st.sampled_from(dic)]
    n = draw(st.one_of(*opts))
    return {
        "shape": draw(st.sampled_from(SHAPES)),
        "n": n,
        "amp": draw(value),
        "base": draw(st.one_of(st.just(0.0), value)),
        "period": draw(st.integers(1, 40)),
        "edits": draw(
            st.lists(st.tuples(st.integers(0, n - 1), value).map(list), max_size=3)
        ),
    }


@st.composite
def driver(draw, unit_mode="any", **kwargs):
    """A forcing spec with the unit it is handed over in (values are in W/m^2)."""
    spec = draw(forcing(**kwargs))
    if unit_mode == "default":
        unit = "W/m^2"
    else:
        unit = draw(st.one_of(st.just("W/m^2"), st.sampled_from(list(units.FLUX))))
    return {"forcing": spec, "unit": unit}


@st.composite
def sometimes(draw, odds, strategy):
    """None, or (once in `odds`) a value of the strategy."""
    if draw(st.integers(0, odds - 1)) != odds - 1:
        return None
    return draw(strategy)
