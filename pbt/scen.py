"""Scenario data for run_scenarios: generators, builders and result readers."""
import datetime as dt

import numpy as np
import pandas as pd

from . import dictionary, gens, sut, units
from .core import Violation
from .env import ScmRun
from .gens import st

ERF = "Effective Radiative Forcing"


# ---------------------------------------------------------------- time axes


def axis_times(axis):
    """Datetimes of an axis spec."""
    kind, n = axis["kind"], axis["n"]
    if kind == "yearly":
        return [
            dt.datetime(axis["year"] + i, axis.get("month", 1), axis.get("day", 1))
            for i in range(n)
        ]
    if kind == "monthly":
        out = []
        for i in range(n):
            k = axis["month"] - 1 + i
            year, month = axis["year"] + k // 12, k % 12 + 1
            if axis.get("end"):
                nxt = dt.datetime(year + (month == 12), month % 12 + 1, 1)
                out.append(nxt - dt.timedelta(days=1))
            else:
                out.append(dt.datetime(year, month, axis.get("day", 1)))
        return out
    if kind == "explicit":
        return [dt.datetime(*t) for t in axis["times"]]
    raise ValueError(kind)


def axis_step(axis):
    """Length of the time step in seconds."""
    return units.si("time", 1, "yr" if axis["kind"] == "yearly" else "month")


# paleo and far-future runs; nanosecond time stamps end in 1677 and 2262
FAR_YEARS = st.sampled_from([1, 850, 1000, 1600, 1676, 2260, 2300, 2500, 3000, 9000])


def yearly_axis(min_n=2, max_n=40):
    return st.builds(
        lambda y, n, m, d: {"kind": "yearly", "year": y, "n": n, "month": m, "day": d},
        st.one_of(
            st.sampled_from([1750, 1850, 1999, 2000, 1899, 2015]),
            st.integers(1700, 2250),
            FAR_YEARS,
        ),
        st.integers(min_n, max_n),
        st.sampled_from([1, 1, 1, 7, 12]),
        st.sampled_from([1, 1, 15]),
    )


def monthly_axis(min_n=2, max_n=40):
    return st.builds(
        lambda y, m, n, d, e: {
            "kind": "monthly", "year": y, "month": m, "n": n, "day": d, "end": e,
        },
        st.one_of(st.integers(1700, 2250), st.integers(1700, 2250), FAR_YEARS),
        st.integers(1, 12),
        st.integers(min_n, max_n),
        st.sampled_from([1, 1, 15, 16, 28]),
        st.sampled_from([False, False, True]),
    )


def axis(min_n=2, max_n=40):
    return st.one_of(yearly_axis(min_n, max_n), yearly_axis(min_n, max_n), monthly_axis(min_n, max_n))


# ---------------------------------------------------------------- rows

WORDS = [
    "ssp119", "ssp585", "historical", "rcp26", "a", "A", "test scenario", "abrupt-4xCO2",
    "1pctCO2", "piControl", "unspecified", "World", "b", "0", "nan-like", "éà",
]


def word():
    return st.one_of(
        st.sampled_from(WORDS + dictionary.NOVEL_STRINGS),
        st.text("abcXYZ019 _-|+().", min_size=1, max_size=8).filter(lambda s: s.strip() == s),
    )


EXTRA_COLS = ["ensemble_member", "source", "note", "member id", "version"]


def identity(meta):
    """What tells scenarios apart: 0, 0.0 and "0" are too alike to do so."""
    return tuple(v if isinstance(v, str) and not _number(v) else str(float(v)) for _, v in sorted(meta.items()))


def _number(text):
    try:
        float(text)
    except ValueError:
        return False
    return True


@st.composite
def rows(draw, n_axis, min_rows=1, max_rows=4, pad=True, value=None, unit_mode="any", extra=True):
    """Driver rows with distinct metadata, possibly covering only part of the axis."""
    count = draw(st.integers(min_rows, max_rows))
    cols = draw(st.lists(st.sampled_from(EXTRA_COLS), max_size=2, unique=True)) if extra else []
    value = value if value is not None else gens.forcing_value(1e4)
    same_name = draw(st.booleans()) and bool(cols)
    out, seen = [], set()
    for i in range(count):
        meta = {
            "model": draw(word()),
            "scenario": "same" if same_name else draw(word()),
        }
        for c in cols:
            meta[c] = draw(st.one_of(word(), st.integers(0, 20), st.floats(0, 4)))
        if out and draw(st.integers(0, 2)) == 1:
            # shares a name with an earlier row
            other = out[draw(st.integers(0, i - 1))]["meta"]
            for k in draw(st.sampled_from([["model"], ["scenario"], ["scenario"] + cols, ["model"] + cols, cols])):
                meta[k] = other[k]
        key = identity(meta)
        if key in seen:
            meta["scenario"] = "{} #{}".format(meta["scenario"], i)
            key = identity(meta)
        seen.add(key)
        lead = trail = 0
        if pad and n_axis > 2 and draw(st.integers(0, 2)) == 0:
            lead = draw(st.integers(0, n_axis - 2))
            trail = draw(st.integers(0, n_axis - 2 - lead))
        n = n_axis - lead - trail
        if out and draw(st.integers(0, 7)) == 5:
            # the same values as an earlier row, perhaps in another unit
            forcing = _fit(out[draw(st.integers(0, i - 1))]["forcing"], n)
        elif draw(st.booleans()) and n <= 14:
            forcing = {"values": draw(st.lists(value, min_size=n, max_size=n))}
        else:
            forcing = {
                "shape": draw(st.sampled_from(gens.SHAPES)),
                "n": n,
                "amp": draw(value),
                "base": draw(st.one_of(st.just(0.0), value)),
                "period": draw(st.integers(1, 30)),
                "edits": draw(
                    st.lists(st.tuples(st.integers(0, n - 1), value).map(list), max_size=2)
                ),
            }
        unit = "W/m^2"
        if unit_mode != "default" and draw(st.integers(0, 2)) == 0:
            unit = draw(st.sampled_from(list(units.FLUX)))
        out.append({"meta": meta, "forcing": forcing, "unit": unit, "lead": lead, "trail": trail})
    if count > 1 and draw(st.integers(0, 5)) == 4:
        # the very same numbers next to each other, usually in another unit
        i = draw(st.integers(1, count - 1))
        twin = out[i - 1]
        twin["forcing"] = {
            "shape": draw(st.sampled_from([s for s in gens.SHAPES if s != "pulse"])), "n": n_axis - twin["lead"] - twin["trail"],
            "amp": draw(st.sampled_from([3.7, 0.25])), "base": draw(st.sampled_from([0.0, 1.5])), "period": 3, "edits": [], "own": True,
        }
        if i > 1 or (twin["lead"], twin["trail"]) == (0, 0):
            out[i].update(forcing=twin["forcing"], lead=twin["lead"], trail=twin["trail"])
            if unit_mode != "default":
                out[i]["unit"] = draw(st.sampled_from(list(units.FLUX)))
    # every time point is covered by some row (scmdata would keep it anyway, but
    # a column without data is not a meaningful input)
    out[0]["forcing"] = _fit(out[0]["forcing"], n_axis)
    out[0]["lead"] = out[0]["trail"] = 0
    if draw(st.booleans()):
        out = out[1:] + out[:1]
    return out


def _fit(forcing, n):
    if "values" in forcing:
        v = forcing["values"]
        return dict(forcing, values=[v[i % len(v)] for i in range(n)])
    out = dict(forcing)
    out["n"] = n
    return out


def bulk_rows(count, n_axis, offset=0.0):
    """Many small scenarios, all different."""
    return [
        {
            "meta": {"model": "m%d" % (i % 7), "scenario": "scenario %d" % i},
            "forcing": {
                "shape": gens.SHAPES[i % len(gens.SHAPES)], "n": n_axis - (i % 5 == 3),
                "amp": 0.5 + 0.37 * i, "base": offset, "period": 1 + i % 4, "edits": [],
            },
            "unit": "mW/m^2" if i % 6 == 4 else "W/m^2",
            "lead": int(i % 10 == 3),
            "trail": int(i % 10 == 8),
        }
        for i in range(count)
    ]


def row_values(row, n_axis):
    """(magnitudes along the axis with NaN padding, own W/m^2 values)."""
    mags, si = sut.driver_values(row)
    full = [np.nan] * row["lead"] + list(mags) + [np.nan] * row["trail"]
    if len(full) != n_axis:
        raise AssertionError("row does not fit the axis")
    return full, si


def frame(axis_spec, row_list, variable=ERF, region="World"):
    """A time-series data frame (wide, multi-index metadata)."""
    times = axis_times(axis_spec)
    metas, data = [], []
    for row in row_list:
        meta = {"variable": variable, "region": region, "unit": row["unit"]}
        meta.update(row["meta"])
        if "variable" in row:
            meta["variable"] = row["variable"]
        if "region" in row:
            meta["region"] = row["region"]
        metas.append(meta)
        data.append(row_values(row, len(times))[0])
    names = list(metas[0])
    index = pd.MultiIndex.from_tuples(
        [tuple(m[k] for k in names) for m in metas], names=names
    )
    return pd.DataFrame(np.array(data, dtype=float), index=index, columns=times)


def scmrun(axis_spec, row_list, **kwargs):
    return ScmRun(frame(axis_spec, row_list, **kwargs))


# ---------------------------------------------------------------- results


class Row:
    def __init__(self, meta, times, values):
        self.meta, self.times, self.values = meta, times, values

    def finite(self):
        keep = ~np.isnan(self.values)
        return self.values[keep]


def result_rows(out):
    ts = out.timeseries()
    names = list(ts.index.names)
    times = [_as_datetime(t) for t in ts.columns]
    found = []
    vals = ts.values
    for i, label in enumerate(ts.index):
        if not isinstance(label, tuple):
            label = (label,)
        found.append(Row(dict(zip(names, label)), times, np.array(vals[i], dtype=float)))
    return found


def _as_datetime(t):
    return dt.datetime(t.year, t.month, t.day, t.hour, t.minute, t.second)


def pick(rows_, **meta):
    hits = [r for r in rows_ if all(_same(r.meta.get(k), v) for k, v in meta.items())]
    if len(hits) != 1:
        raise Violation("{} output series match {} (expected one)".format(len(hits), meta))
    return hits[0]


def _same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if a is None or b is None:
        return a is b
    return bool(a == b)


def series(kind, rows_, meta):
    """Output arrays of one scenario over the axis, by short name."""
    return {
        k: pick(rows_, variable=v, **meta).values
        for k, v in sut.SCEN_VARS[kind].items()
    }


def trimmed(arrays, row, n_axis):
    """The part of full-axis arrays that belongs to the row's own period."""
    return {k: v[row["lead"] : n_axis - row["trail"]] for k, v in arrays.items()}


def single(spec, drv, axis_spec, model=None):
    """One scenario with the driver's values on the axis: (parameters, drivers, outputs)."""
    row = {
        "meta": {"model": "m", "scenario": "s"},
        "forcing": _fit(drv["forcing"], axis_spec["n"]),
        "unit": drv["unit"],
        "lead": 0,
        "trail": 0,
    }
    model = sut.build(spec) if model is None else model
    with sut.sut("run_scenarios"):
        out = model.run_scenarios(scmrun(axis_spec, [row]), progress=False)
    p = sut.si_params(spec)
    p["delta_t"] = axis_step(axis_spec)
    F = np.array(row_values(row, axis_spec["n"])[1], float)
    return p, F, series(spec["model"], result_rows(out), {"scenario": "s"})
