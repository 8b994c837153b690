import numpy as np

from .. import dictionary, gens, oracles, scen, sut, units
from ..core import require, sut as guard
from ..gens import st

RULE = (
    "batches of 1 to 6 scenarios (sometimes a dozen) with own units, periods inside the common axis, metadata and values; whole batch "
    "against each scenario alone (bit-identical), against a permuted batch, and against the reference equations; non-trivial = at least two "
    "scenarios that differ in values, unit or period"
)
ASSUMPTIONS = ["parameters climate-like (batches share scmdata overhead); reference tolerance as in C01 and C02"]
EXAMPLES = {"quick": 38, "thorough": 1500}


@st.composite
def strategy_(draw):
    axis = draw(scen.axis(2, 30))
    many = draw(st.integers(0, 14)) == 0
    rows = draw(scen.rows(axis["n"], 2 if not many else 9, 4 if not many else 13))
    if draw(st.integers(0, 11)) == 0:
        rows = rows[-1:]
        rows[0].update(lead=0, trail=0, forcing=scen._fit(rows[0]["forcing"], axis["n"]))
    return {
        "spec": draw(gens.model_spec(wide=False, with_dt=draw(st.booleans()))),
        "axis": axis,
        "rows": rows,
        "order": draw(st.permutations(range(len(rows)))),
        "alone": draw(st.lists(st.integers(0, len(rows) - 1), min_size=1, max_size=3, unique=True)),
        "same_model": draw(st.booleans()),
    }


PARAMS = {
    "tl": {
        "du": [55, "m"], "dl": [1.3, "km"], "lambda0": [1.25, "W/m^2/delta_degC"], "a": [0.02, "W/m^2/delta_degC^2"],
        "efficacy": [1.1, "dimensionless"], "eta": [0.75, "W/m^2/delta_degC"],
    },
    "ir": {
        "d1": [4.5, "yr"], "d2": [3900, "month"], "q1": [0.35, "delta_degC/(W/m^2)"],
        "q2": [0.45, "delta_degC/(W/m^2)"], "efficacy": [1.1, "dimensionless"],
    },
}


def bulk(kind, count, alone, axis="yearly"):
    rows = scen.bulk_rows(count, 4, 0.25)
    return {
        "spec": {"model": kind, "via": "ctor", "params": PARAMS[kind]},
        "axis": {"kind": axis, "year": 1990, "month": 1, "n": 4},
        "rows": rows,
        "order": list(range(count - 1, -1, -1)) if count < 100 else list(range(count)),
        "alone": alone,
        "same_model": True,
    }


def twins(kind, order):
    """The same numbers in one unit after the other."""
    rows = bulk(kind, len(units.FLUX), [0])["rows"]
    for r, unit in zip(rows, sorted(units.FLUX)):
        r.update(forcing={"values": [1.5, 2.5, -0.5, 0.0], "own": True}, lead=0, trail=0, unit=unit)
    return dict(bulk(kind, len(rows), [1]), rows=rows, order=order(range(len(rows))))


DIRECTED = [
    twins("tl", lambda r: list(r)[::2] + list(r)[1::2]), twins("ir", lambda r: list(r)[::-1]),
    bulk("tl", 70, [0, 33, 69]),
    bulk("ir", 70, [0, 33, 69]),
    bulk("tl", 110, [109]),
    bulk("ir", 110, [109], "monthly"),
] + [bulk("tl", m, [m - 1]) for m in dictionary.lengths(14, 300, novel=True)[:8]]


def strategy(tier):
    return strategy_()


def run(model, axis, rows):
    with guard("run_scenarios with {} scenarios".format(len(rows))):
        return scen.result_rows(model.run_scenarios(scen.scmrun(axis, rows), progress=False))


def get(kind, results, row, n):
    drv = scen.pick(results, variable=scen.ERF, **row["meta"])
    full, _ = scen.row_values(row, n)
    require(drv.meta["unit"] == row["unit"], "driver unit {} became {}", row["unit"], drv.meta["unit"])
    want = np.array(full, float)
    require(
        len(drv.values) == n and bool(((drv.values == want) | (np.isnan(drv.values) & np.isnan(want))).all()), "driver series in the output differs from the input: {} and {}",
        drv.values.tolist(), want.tolist(),
    )
    arrays = scen.series(kind, results, row["meta"])
    return scen.trimmed(arrays, row, n)


def check(case, ctx):
    spec, axis, rows = case["spec"], case["axis"], case["rows"]
    kind, n = spec["model"], axis["n"]
    p = sut.si_params(spec)
    p["delta_t"] = scen.axis_step(axis)
    model = sut.build(spec)
    batch = run(model, axis, rows)
    per = 1 + len(sut.SCEN_VARS[kind])
    require(len(batch) == per * len(rows), "{} output series for {} scenarios", len(batch), len(rows))
    whole = [get(kind, batch, r, n) for r in rows]
    for r, out in zip(rows, whole):
        _, F = scen.row_values(r, n)
        oracles.steps(kind, p, F, out, ctx)
    # alone: the scenario's own period only, i.e. data without the others' time points
    for i in case["alone"]:
        r = rows[i]
        own = dict(r, lead=0, trail=0)
        times = scen.axis_times(axis)[r["lead"] : n - r["trail"]]
        own_axis = {"kind": "explicit", "n": len(times), "times": [list(t.timetuple()[:3]) for t in times]}
        single = run(model if case["same_model"] else sut.build(spec), own_axis, [own])
        require(len(single) == per, "{} output series for one scenario", len(single))
        out = get(kind, single, own, len(times))
        oracles.same_bits(whole[i], out, "scenario {} in a batch and alone".format(i))
    shuffled = [rows[i] for i in case["order"]]
    if shuffled != rows:
        ctx.label("permuted")
        other = run(sut.build(spec), axis, shuffled)
        require(len(other) == per * len(rows), "{} output series for {} scenarios", len(other), len(rows))
        for i, r in enumerate(rows):
            oracles.same_bits(get(kind, other, r, n), whole[i], "scenario {} after reordering".format(i))
    ctx.label(kind, axis["kind"])
    if any(r["lead"] or r["trail"] for r in rows):
        ctx.label("different periods")
    if len({r["unit"] for r in rows}) > 1:
        ctx.label("mixed units")
    if len(rows) >= 8:
        ctx.label("many scenarios")
    ctx.nontrivial(len(rows) >= 2)
