import contextlib
import io
import os
import tempfile

import numpy as np
import pandas as pd

from .. import gens, oracles, scen, sut, units
from ..core import require, sut as guard
from ..env import ScmRun, convert_lambda_to_ecs, ur
from ..gens import st

RULE = (
    "run_scenarios on one data set packaged as ScmRun, wide frame with metadata index, wide frame with metadata columns, time-series frame "
    "and CSV file, rows and columns permuted, progress bar on and off; inputs snapshot before and compared after; direct runs and conversions "
    "with caller-owned arrays and quantities; non-trivial = packaging differs from a plain ScmRun or several rows, or direct run of 2+ values"
)
ASSUMPTIONS = ["drivers are float64 or integer arrays (single precision drivers are run in single precision)", "pyam is not installed; scmdata cannot build data from a bare array without metadata"]
EXAMPLES = {"quick": 75, "thorough": 3000}


@st.composite
def strategy_(draw):
    if draw(st.integers(0, 2)) == 0:
        return {
            "what": "direct",
            "spec": draw(gens.model_spec()),
            "driver": draw(gens.driver(max_len=30, long_odds=40, long_len=100)),
            "driver2": draw(gens.driver(max_len=10, long_odds=1000, long_len=20)),
            "dtype": draw(st.sampled_from(["float", "float", "int", "readonly", "view"])),
            "ecs": [draw(gens.magnitude(0.1, 10)), draw(gens.magnitude(0.1, 10))],
        }
    axis = draw(scen.axis(2, 10))
    rows = draw(scen.rows(axis["n"], 1, 3, value=st.one_of(st.floats(-9, 9).map(lambda v: round(v, 6)), st.integers(-4, 9).map(float))))
    return {
        "what": "scenarios",
        "spec": draw(gens.model_spec(wide=False)),
        "axis": axis,
        "rows": rows,
        "package": draw(st.sampled_from(["scmrun", "scmrun", "frame", "columns", "timeseries", "csv"])),
        "row_order": draw(st.permutations(range(len(rows)))),
        "col_order": draw(st.one_of(st.none(), st.permutations(range(axis["n"])))),
        "progress": draw(st.booleans()),
        "extra": draw(st.booleans()),
        "repeat": draw(st.booleans()),
    }


def many(kind, count, progress, package="scmrun"):
    return {
        "what": "scenarios",
        "spec": {"model": kind, "via": "ctor", "params": {"efficacy": [1.1, "dimensionless"]}},
        "axis": {"kind": "yearly", "year": 1990, "n": 4}, "rows": scen.bulk_rows(count, 4, 0.123456789), "package": package,
        "row_order": list(range(count)), "col_order": None, "progress": progress, "extra": True, "repeat": False,
    }


# a progress bar is redrawn every now and then only
DIRECTED = [many("tl", 60, True), many("ir", 60, True, "columns"), many("ir", 25, False, "csv"), many("tl", 130, True)]


def strategy(tier):
    return strategy_()


def params_snapshot(model, kind, skip=()):
    out = {}
    for name in units.MODEL_KINDS[kind]:
        if name not in skip:
            v = getattr(model, name)
            out[name] = (v.magnitude, str(v.units))
    return out


def check(case, ctx):
    ctx.label(case["what"], case["spec"]["model"])
    if case["what"] == "direct":
        return direct(case, ctx)
    return scenarios(case, ctx)


def direct(case, ctx):
    spec, dtype = case["spec"], case["dtype"]
    kind = spec["model"]
    mags, _ = sut.driver_values(case["driver"])
    arr = np.array(mags, float)
    if dtype == "int":
        arr = np.array([int(max(-1e6, min(1e6, m))) for m in mags])
    elif dtype == "view":
        arr = np.stack([arr, arr + 1], axis=1)[:, 0]
    keep = arr.copy()
    if dtype == "readonly":
        arr.setflags(write=False)
    ctx.label(dtype)
    quants = {k: sut.q(v) for k, v in spec["params"].items()}
    before_q = {k: (v.magnitude, str(v.units)) for k, v in quants.items()}
    erf = ur.Quantity(arr, case["driver"]["unit"])
    with guard("running with caller-owned quantities"):
        model = sut.CLASSES[kind](**quants)
        before = params_snapshot(model, kind)
        model.set_drivers(erf)
        model.reset()
        model.run()
        first = sut.outputs(model)
        if kind == "tl" and model.a.magnitude == 0 and min(
            sut.si_params(spec)[k] for k in ("lambda0", "eta", "efficacy")
        ) > 0:
            model.get_impulse_response_parameters()
            ctx.label("conversion")
        elif kind == "ir":
            model.get_two_layer_parameters()
            ctx.label("conversion")
        lam, f2x = [ur.Quantity(np.array([v, -v]), u) for v, u in zip(case["ecs"], ("W/m^2/K", "mW/m^2"))]
        convert_lambda_to_ecs(lam, f2x)
        convert_lambda_to_ecs(lam)
    require(np.array_equal(arr, keep) and arr.dtype == keep.dtype, "the caller's driver array changed")
    require(
        erf.magnitude is arr or np.array_equal(erf.magnitude, keep), "the caller's driver quantity changed"
    )
    require(str(erf.units) == str(ur.Quantity(1, case["driver"]["unit"]).units), "the driver quantity's unit changed")
    for k, v in quants.items():
        require((v.magnitude, str(v.units)) == before_q[k], "the caller's {} quantity changed", k)
    require(params_snapshot(model, kind) == before, "running changed the model's parameters")
    for v, q_ in zip(case["ecs"], (lam, f2x)):
        require(np.array_equal(q_.magnitude, np.array([v, -v])), "convert_lambda_to_ecs changed its argument")
    # the same values as a plain float array
    fresh = sut.build(dict(spec, via="ctor"))
    plain = sut.run_erf(fresh, ur.Quantity(keep.astype(float), case["driver"]["unit"]))
    oracles.same_bits(first, plain, "drivers as {}".format(dtype))
    # outputs belong to their run: a later run does not change what was returned or the caller's arrays
    with guard("a second run"):
        model.set_drivers(sut.erf_quantity(case["driver2"]))
        model.reset()
        model.run()
    require(np.array_equal(arr, keep), "a later run changed the caller's driver array")
    ctx.nontrivial(len(keep) >= 2)


def scenarios(case, ctx):
    spec, axis, rows = case["spec"], case["axis"], case["rows"]
    kind, n = spec["model"], axis["n"]
    package = case["package"]
    ctx.label(package)
    with guard("run_scenarios of the plain data"):
        want = scen.result_rows(
            sut.build(spec).run_scenarios(scen.scmrun(axis, rows), progress=False)
        )
    df = scen.frame(axis, [rows[i] for i in case["row_order"]])
    if case["extra"]:
        # a series that is not run
        more = df.iloc[[0]].copy()
        more.index = pd.MultiIndex.from_tuples(
            [tuple("Other" if name == "variable" else v for name, v in zip(df.index.names, df.index[0]))],
            names=df.index.names,
        )
        df = pd.concat([df, more])
    if case["col_order"] is not None and package != "csv":
        df = df.iloc[:, case["col_order"]]
    scratch = None
    try:
        with guard("packaging the data"):
            if package == "scmrun":
                data = ScmRun(df)
            elif package == "frame":
                data = df
            elif package == "columns":
                data = df.reset_index()
            elif package == "timeseries":
                data = ScmRun(df).timeseries()
            else:
                scratch = tempfile.mkdtemp(prefix="pbt-csv-", dir=os.environ.get("PBT_SCRATCH"))
                data = os.path.join(scratch, "data.csv")
                df.reset_index().to_csv(data, index=False)
        before = snapshot(data)
        model = sut.build(spec)
        params = params_snapshot(model, kind, skip=("delta_t",))
        for _ in range(1 + case["repeat"]):
            with guard("run_scenarios with data as {}".format(package)):
                with contextlib.redirect_stderr(io.StringIO()):
                    out = model.run_scenarios(data, progress=case["progress"])
                got = scen.result_rows(out)
            require(
                params_snapshot(model, kind, skip=("delta_t",)) == params, "run_scenarios changed the model's parameters"
            )
            same_snapshot(snapshot(data), before, package)
            require(len(got) == len(want), "{} series instead of {} with data as {}", len(got), len(want), package)
            for row in rows:
                meta = dict(row["meta"])
                if package == "csv":
                    meta = {k: v for k, v in meta.items() if k in ("scenario", "model")}
                    hits = [
                        r for r in got if str(r.meta["scenario"]) == str(meta["scenario"])
                        and str(r.meta["model"]) == str(meta["model"])
                    ]
                    same = [r for r in rows if all(str(r["meta"][k]) == str(meta[k]) for k in meta)]
                    if len(same) > 1:
                        continue
                    arrays = {
                        k: scen.pick(hits, variable=v).values for k, v in sut.SCEN_VARS[kind].items()
                    }
                else:
                    arrays = scen.series(kind, got, meta)
                base = scen.series(kind, want, row["meta"])
                if package == "csv":
                    # text round trip of the values
                    for k in base:
                        fin = np.isfinite(base[k])
                        top = np.maximum.accumulate(np.where(fin, np.abs(base[k]), 0))
                        ok = np.abs(arrays[k] - base[k]) <= 1e-9 * top
                        require((ok | ~fin | (top > 1e12)).all(), "{} differs with data from CSV", k)
                else:
                    oracles.same_bits(arrays, base, "data as {}".format(package))
                for r in got:
                    require(r.times == scen.axis_times(axis), "time points changed with data as {}", package)
    finally:
        if scratch is not None:
            for name in os.listdir(scratch):
                os.remove(os.path.join(scratch, name))
            os.rmdir(scratch)
    if case["progress"]:
        ctx.label("progress bar")
    if case["col_order"] is not None and list(case["col_order"]) != sorted(case["col_order"]):
        ctx.label("columns permuted")
    ctx.nontrivial(package != "scmrun" or len(rows) > 1)


def snapshot(data):
    if isinstance(data, str):
        with open(data) as fh:
            return fh.read()
    if isinstance(data, ScmRun):
        return (data.timeseries().copy(), data.meta.copy(), dict(data.metadata), list(data.meta.columns))
    return (data.copy(deep=True), list(data.columns), list(data.index.names))


def same_snapshot(now, before, package):
    if isinstance(before, str):
        require(now == before, "the CSV file changed")
        return
    require(
        len(now) == len(before) and all(_equal(a, b) for a, b in zip(now, before)),
        "the caller's data ({}) changed", package,
    )


def _equal(a, b):
    if isinstance(a, pd.DataFrame):
        return a.equals(b) and list(a.columns) == list(b.columns) and a.index.equals(b.index) and a.index.names == b.index.names
    return a == b
