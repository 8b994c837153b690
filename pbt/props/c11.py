import numpy as np

from .. import dictionary, gens, scen, sut, units
from ..core import require, sut as guard
from ..env import ur
from .c09 import PARAMS
from ..gens import st

RULE = (
    "batches of 1 to 4 scenarios with generated metadata columns and values (text, integers, floats), parameters in any units, "
    "yearly and monthly axes, periods inside the axis; every output series' metadata, unit and time points compared with an independently built "
    "table; non-trivial = extra metadata columns or several scenarios"
)
ASSUMPTIONS = ["metadata columns not named like the driver's own or the parameter columns"]
EXAMPLES = {"quick": 70, "thorough": 3000}


@st.composite
def strategy_(draw):
    axis = draw(scen.axis(2, 12))
    return {
        "spec": draw(gens.model_spec(wide=False, with_dt=draw(st.booleans()))),
        "axis": axis,
        "rows": draw(scen.rows(axis["n"], 1, 4)),
        "old_climate_model": draw(gens.sometimes(3, scen.word())),
        "earlier": draw(gens.sometimes(6, st.just(True))),
    }


def bulk(kind, count):
    return {
        "spec": {"model": kind, "via": "ctor", "params": PARAMS[kind]},
        "axis": {"kind": "yearly", "year": 1990, "n": 4},
        "rows": scen.bulk_rows(count, 4),
        "old_climate_model": None,
        "earlier": None,
    }


DIRECTED = [bulk("tl", 70), bulk("ir", 104)]


def strategy(tier):
    return strategy_()


def same(a, b):
    if isinstance(b, str) or isinstance(a, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return float(a) == float(b)


def check(case, ctx):
    spec, axis = case["spec"], case["axis"]
    kind, n = spec["model"], axis["n"]
    rows = [dict(r, meta=dict(r["meta"])) for r in case["rows"]]
    if case["old_climate_model"]:
        for r in rows:
            r["meta"]["climate_model"] = case["old_climate_model"]
    model = sut.build(spec)
    if case["earlier"]:
        with guard("an earlier run_scenarios"):
            model.run_scenarios(scen.scmrun(axis, rows[:1]) if not (rows[0]["lead"] or rows[0]["trail"]) else scen.scmrun(axis, rows), progress=False)
    with guard("run_scenarios"):
        out = model.run_scenarios(scen.scmrun(axis, rows), progress=False)
        results = scen.result_rows(out)
    times = scen.axis_times(axis)
    variables = {v: sut.OUT_UNITS[k] for k, v in sut.SCEN_VARS[kind].items()}
    require(
        len(results) == len(rows) * (1 + len(variables)),
        "{} output series for {} scenarios", len(results), len(rows),
    )
    idx = {}
    used = set()
    for pos, row in enumerate(rows):
        keep = {k: v for k, v in row["meta"].items() if k != "climate_model"}
        full, si = scen.row_values(row, n)
        have = ~np.isnan(np.array(full, float))
        for var, unit in list(variables.items()) + [(scen.ERF, row["unit"])]:
            hits = [
                i for i, r in enumerate(results)
                if r.meta.get("variable") == var and all(k in r.meta and same(r.meta[k], v) for k, v in keep.items())
            ]
            require(len(hits) == 1, "{} series of {} with metadata {}", len(hits), var, keep)
            used.add(hits[0])
            r = results[hits[0]]
            require(r.meta["unit"] == unit, "{} has unit {!r}, not {!r}", var, r.meta["unit"], unit)
            require(r.meta["region"] == "World", "{} has region {!r}", var, r.meta["region"])
            require(
                r.meta.get("climate_model") == sut.NAMES[kind], "climate_model is {!r}", r.meta.get("climate_model")
            )
            require(r.times == times, "time points {} instead of {}", r.times, times)
            finite = ~np.isnan(r.values)
            if (finite != have).any():
                # an overflowing run may end in NaN, but only after an infinity
                lost = have & ~finite
                ok = (
                    var != scen.ERF and not (finite & ~have).any()
                    and np.isinf(r.values[: int(np.flatnonzero(lost)[0]) + 1]).any()
                ) or _overflows(results, r)
                require(ok, "{} has values at {} but its driver at {}", var, finite.tolist(), have.tolist())
                ctx.label("overflow")
            if var == scen.ERF:
                require(
                    np.array_equal(r.values[have], np.array(full, float)[have]), "driver values changed"
                )
            check_params(spec, r.meta)
            idx.setdefault(pos, set()).add(r.meta.get("run_idx"))
    require(len(used) == len(results), "series that belong to no scenario in the output")
    require(all(len(v) == 1 for v in idx.values()), "one scenario has several run indices: {}", idx)
    all_idx = sorted(next(iter(v)) for v in idx.values())
    require(all_idx == list(range(len(rows))), "run indices {} for {} scenarios", all_idx, len(rows))
    ctx.nontrivial(len(rows) > 1 or len(rows[0]["meta"]) > 2)
    ctx.label(kind, axis["kind"])
    if any(len(r["meta"]) > 2 for r in rows):
        ctx.label("extra metadata columns")
    if any(r["lead"] or r["trail"] for r in rows):
        ctx.label("different periods")
    if case["old_climate_model"]:
        ctx.label("climate_model given")
    if any(u != units.DEFAULT[units.MODEL_KINDS[kind][k]] for k, (_, u) in spec["params"].items()):
        ctx.label("parameters in other units")


def _overflows(results, r):
    """Some output of the same scenario exceeds 1e100."""
    return any(
        o.meta.get("run_idx") == r.meta.get("run_idx") and (np.abs(o.values[~np.isnan(o.values)]) > 1e100).any()
        for o in results
    )


def check_params(spec, meta):
    for name in sut.SAVED[spec["model"]]:
        mag, unit = spec["params"][name]
        cols = [k for k in meta if k.startswith(name + " (") and k.endswith(")")]
        require(len(cols) == 1, "columns for parameter {}: {}", name, cols)
        label = cols[0][len(name) + 2 : -1]
        with guard("parsing the unit {!r} of column {!r}".format(label, cols[0])):
            given = ur.Quantity(1.0, unit).units
            shown = ur.Unit(label)
        require(shown == given, "parameter {} labelled {!r} but given in {!r}", name, label, unit)
        require(
            float(meta[cols[0]]) == float(mag), "parameter {} reported as {!r}, given as {!r}", name, meta[cols[0]], mag
        )
