import datetime as dt

import numpy as np

from .. import gens, oracles, scen, sut, units
from ..core import expect_raises, require, sut as guard
from ..gens import st

RULE = (
    "calendar axes: yearly on any date, monthly on any day or month end, and others (multi-year, half-year, quarterly, weekly, "
    "daily, hourly, axes with points removed or moved, two-point axes crossing new year, series with interior gaps, in shuffled order), run by a fresh model or by one that ran (or refused) another axis before; oracle is "
    "the calendar rule the axis was generated from; non-trivial = any axis with at least 2 points"
)
ASSUMPTIONS = [
    "axes whose spacing is ambiguous (e.g. 28 to 31 day steps that are not calendar months, single points) are not generated"
]
EXAMPLES = {"quick": 110, "thorough": 5000}


def years():
    return st.one_of(
        st.sampled_from([1750, 1850, 1899, 1900, 1999, 2000, 2003, 2004, 2099, 2100, 2101, 1600]),
        st.integers(5, 9600),
    )


def plus_months(y, m, k):
    z = y * 12 + m - 1 + k
    return z // 12, z % 12 + 1


@st.composite
def other_axis(draw):
    """Times of an axis that is neither yearly nor monthly."""
    kind = draw(
        st.sampled_from(
            ["multi-year", "months", "days", "hole-yearly", "hole-monthly", "moved-yearly", "moved-monthly", "new-year", "mixed", "hours", "late-change", "within-year"]
        )
    )
    y, m, d = draw(years()), draw(st.integers(1, 12)), draw(st.sampled_from([1, 1, 15, 28]))
    n = draw(st.one_of(*[st.integers(2, 14)] * 9, st.integers(80, 260)))
    start = dt.datetime(y, m, d)
    if kind == "multi-year":
        k = draw(st.sampled_from([2, 3, 5, 10, 50]))
        n = min(n, max(2, (9990 - y) // k))
        out = [start.replace(year=y + k * i) for i in range(n)]
    elif kind == "months":
        k = draw(st.sampled_from([2, 3, 4, 6, 9, 18]))
        out = [dt.datetime(*plus_months(y, m, k * i), d) for i in range(n)]
    elif kind == "days":
        k = draw(st.sampled_from([1, 5, 7, 10, 14, 27, 32, 60, 90, 200, 300, 360, 363, 368, 400]))
        out = [start + dt.timedelta(days=k * i) for i in range(n)]
    elif kind == "hours":
        k = draw(st.sampled_from([1, 3, 6, 12]))
        start = dt.datetime(y, 12, 31, 23)
        out = [start + dt.timedelta(hours=k * i) for i in range(n)]
    elif kind in ("hole-yearly", "hole-monthly"):
        n = max(3, n)
        if kind == "hole-yearly":
            out = [start.replace(year=y + i) for i in range(n)]
        else:
            out = [dt.datetime(*plus_months(y, m, i), d) for i in range(n)]
        del out[draw(st.integers(1, n - 2))]
    elif kind in ("moved-yearly", "moved-monthly"):
        n = max(3, n)
        if kind == "moved-yearly":
            out = [start.replace(year=y + i) for i in range(n)]
            by = draw(st.sampled_from([40, -40, 100, -100, 180]))
        else:
            out = [dt.datetime(*plus_months(y, m, i), d) for i in range(n)]
            by = draw(st.sampled_from([10, -10, 14, -14]))
        i = draw(st.integers(0, n - 1))
        out[i] = out[i] + dt.timedelta(days=by)
        out = sorted(set(out))
    elif kind == "new-year":
        # two or three points, close together or far apart, in different years
        out = [dt.datetime(y, 12, draw(st.integers(12, 31))), dt.datetime(y + 1, 1, draw(st.integers(1, 8)))]
        if (out[1] - out[0]).days >= 28:
            out[0] = dt.datetime(y, 12, 31)
        if draw(st.booleans()):
            out = [dt.datetime(y, 1, draw(st.integers(1, 31))), dt.datetime(y + 1, 12, draw(st.integers(1, 31)))]
    elif kind == "within-year":
        # first and last day of one year (364 days), perhaps more years around them
        while y % 4 == 0:
            y += 1
        out = [dt.datetime(y, 1, 1), dt.datetime(y, 12, 31)]
        if draw(st.booleans()):
            out += [dt.datetime(y + i, 12, 31) for i in range(1, n)]
        if draw(st.booleans()):
            out = [dt.datetime(y - i, 1, 1) for i in range(min(n, y - 2), 0, -1)] + out
    elif kind == "mixed":
        n = max(2, n // 2)
        out = [start.replace(year=y + i) for i in range(n)]
        out += [dt.datetime(*plus_months(y + n - 1, m, i), d) for i in range(1, n + 1)]
    else:
        # regular at first, then something else at the end (or the reverse)
        n = max(3, n)
        if draw(st.booleans()):
            out = [start.replace(year=y + i) for i in range(n)]
            out.append(out[-1].replace(year=y + n - 1 + draw(st.sampled_from([2, 5, 10]))))
        else:
            out = [dt.datetime(*plus_months(y, m, i), d) for i in range(n)]
            out.append(dt.datetime(*plus_months(y, m, n - 1 + draw(st.sampled_from([2, 3, 12]))), d))
        if draw(st.booleans()):
            first = out[0]
            out = [first + (out[-1] - t) for t in reversed(out)]
    return {"times": [[t.year, t.month, t.day, t.hour] for t in out], "kind": kind}


@st.composite
def regular_axis(draw):
    y, m = draw(years()), draw(st.integers(1, 12))
    n = draw(st.one_of(*[st.integers(2, 5), st.integers(2, 30)] * 4, st.integers(80, 260)))
    if draw(st.booleans()):
        d = draw(st.sampled_from([1, 1, 15, 28, 30, 31]))
        if m == 2:
            d = min(d, 28)
        if m in (4, 6, 9, 11):
            d = min(d, 30)
        hour = draw(st.sampled_from([0, 0, 12]))
        return {"times": [[y + i, m, d, hour] for i in range(n)], "kind": "yearly"}
    if draw(st.integers(0, 3)) == 0:
        axis = {"kind": "monthly", "year": y, "month": m, "n": n, "end": True}
        return {"times": [[t.year, t.month, t.day, 0] for t in scen.axis_times(axis)], "kind": "month-end"}
    d = draw(st.sampled_from([1, 1, 10, 15, 16, 28]))
    return {"times": [list(plus_months(y, m, i)) + [d, 0] for i in range(n)], "kind": "monthly"}


@st.composite
def strategy_(draw):
    axis = draw(st.one_of(regular_axis(), other_axis()))
    n = len(axis["times"])
    gap = None
    if axis["kind"] in ("yearly", "monthly", "month-end") and n >= 3 and draw(st.integers(0, 3)) == 0:
        at = draw(st.integers(1, n - 2))
        gap = [at, draw(st.integers(1, n - 1 - at))]
    return {
        "spec": draw(gens.model_spec(wide=False)),
        "axis": axis,
        "values": draw(st.lists(gens.forcing_value(1e3), min_size=min(n, 30), max_size=min(n, 30))),
        "gap": gap,
        "gap_row_first": draw(st.booleans()),
        "others": draw(st.integers(0, 2)),
        # the model has already run data with as many time points
        "used": draw(st.sampled_from([None, None, "yearly", "monthly", "refused"])),
        "shuffle": draw(st.one_of(st.none(), st.permutations(range(n)) if n <= 30 else st.just(list(range(n - 1, -1, -1))))),
    }


def strategy(tier):
    return strategy_()


def check(case, ctx):
    spec, axis = case["spec"], case["axis"]
    kind = spec["model"]
    times = [dt.datetime(*t) for t in axis["times"]]
    n = len(times)
    if n < 2:
        return
    vals = np.resize(np.array(case["values"], float), n)
    rows = [vals + i for i in range(1 + case["others"])]
    metas = [{"model": "m", "scenario": "s%d" % i} for i in range(len(rows))]
    if case["gap"]:
        at, length = case["gap"]
        holed = vals.copy()
        holed[at : at + length] = np.nan
        rows.insert(0 if case["gap_row_first"] else len(rows), holed)
        metas.insert(0 if case["gap_row_first"] else len(metas), {"model": "m", "scenario": "gap"})
        if case["others"] == 2:
            # nobody else has values there either
            for r in rows:
                r[at : at + length] = np.nan
    import pandas as pd

    order = case["shuffle"] if case["shuffle"] is not None else list(range(n))
    index = pd.MultiIndex.from_tuples(
        [(m["model"], m["scenario"], scen.ERF, "World", "W/m^2") for m in metas],
        names=["model", "scenario", "variable", "region", "unit"],
    )
    df = pd.DataFrame(
        np.array(rows)[:, order], index=index, columns=[times[i] for i in order]
    )
    model = sut.build(spec)
    ctx.label(axis["kind"], kind)
    ctx.nontrivial(True)
    if case["shuffle"] is not None:
        ctx.label("columns in shuffled order")
    before = df.copy()
    with guard("building the scenario data"):
        data = scen.ScmRun(df)
    if case["used"]:
        ctx.label("used before: " + case["used"])
        if case["used"] == "refused":
            before.columns = [dt.datetime(1800, 1, 1) + dt.timedelta(days=3 * i) for i in range(n)]
        else:
            before.columns = scen.axis_times({"kind": case["used"], "year": 1800, "month": 2, "n": n})
        before = before.fillna(1.0)
        if case["used"] == "refused":
            expect_raises((NotImplementedError,), lambda: model.run_scenarios(scen.ScmRun(before), progress=False), "time steps of three days")
        else:
            with guard("run_scenarios on another axis before"):
                model.run_scenarios(scen.ScmRun(before), progress=False)
    regular = axis["kind"] in ("yearly", "monthly", "month-end")
    if not regular or case["gap"]:
        if case["gap"]:
            ctx.label("interior gap")
        expect_raises(
            (NotImplementedError,), lambda: model.run_scenarios(data, progress=False),
            "time axis {} ({})".format([t.isoformat()[:13] for t in times][:20], "gap" if case["gap"] else axis["kind"]),
        )
        return
    with guard("run_scenarios on a {} axis".format(axis["kind"])):
        results = scen.result_rows(model.run_scenarios(data, progress=False))
        dt_used = model.delta_t.to("s").magnitude
    want = units.si("time", 1, "yr" if axis["kind"] == "yearly" else "month")
    require(abs(dt_used - want) <= 1e-9 * want, "time step {} s on a {} axis", dt_used, axis["kind"])
    p = sut.si_params(spec)
    p["delta_t"] = want
    for r, m in zip(rows, metas):
        out = scen.series(kind, results, m)
        require(
            all(x.times == times for x in results), "output time points differ from the input's"
        )
        oracles.steps(kind, p, r, out, ctx)
