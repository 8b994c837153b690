"""Results are self-contained: re-running them and rebuilding the model from their metadata."""
import numpy as np

from .. import gens, oracles, scen, sut, units
from ..core import require, sut as guard
from ..env import ScmRun, run_append, ur
from ..gens import st

RULE = (
    "results of 1 to 3 scenarios from a model with parameters in any units, possibly stored as a frame, filtered, or put together with another model's results; (a) run again "
    "by the same, an equal, or a rebuilt model, (b) run by another model, (c) every series reproduced by a model built from its metadata alone; "
    "non-trivial = several scenarios, different periods or a second model"
)
ASSUMPTIONS = ["in (b), the other model has parameters in the same units (a column for each unit is kept otherwise)"]
EXAMPLES = {"quick": 40, "thorough": 2500}


@st.composite
def strategy_(draw):
    spec = draw(gens.model_spec(wide=False))
    axis = draw(scen.axis(2, 10))
    other = draw(st.one_of(st.none(), gens.model_spec(wide=False)))
    if other is not None and other["model"] == spec["model"]:
        kinds = units.MODEL_KINDS[spec["model"]]
        other["params"] = {
            k: gens.requantify(kinds[k], v, spec["params"][k][1]) if k in spec["params"] else v for k, v in other["params"].items()
        }
    return {
        "spec": spec,
        "axis": axis,
        "rows": draw(scen.rows(axis["n"], 1, 3)),
        "other": other,
        "package": draw(st.sampled_from(["result", "result", "frame", "copy", "drivers"])),
        "by": draw(st.sampled_from(["same", "equal", "rebuilt"])),
    }


def strategy(tier):
    return strategy_()


def table(results):
    """{all metadata: values}"""
    out = {}
    for r in results:
        key = tuple(sorted((k, str(v) if isinstance(v, str) else float(v)) for k, v in r.meta.items() if k != "run_idx"))
        require(key not in out, "two series with the metadata {}", key)
        out[key] = r.values
    return out


def same_table(got, want, doing):
    a, b = table(got), table(want)
    require(
        set(a) == set(b), "{}: {} series, of which {} not expected, such as {}", doing, len(a), len(set(a) - set(b)),
        [k for k in a if k not in b][:1] + [k for k in b if k not in a][:1],
    )
    for k in a:
        x, y = a[k], b[k]
        require(
            x.shape == y.shape and bool(((x == y) | (np.isnan(x) & np.isnan(y))).all()), "{}: values of {} are {} instead of {}", doing, k, x, y
        )


def package(out, how):
    if how == "frame":
        return out.timeseries()
    if how == "copy":
        return ScmRun(out.timeseries())
    if how == "drivers":
        return out.filter(variable=scen.ERF)
    return out


def rebuilt(kind, meta):
    """A model from the parameter columns of a series."""
    params = {}
    for name in sut.SAVED[kind]:
        cols = [k for k in meta if k.startswith(name + " (") and k.endswith(")")]
        require(len(cols) == 1, "columns for parameter {}: {}", name, cols)
        with guard("reading {} back".format(cols[0])):
            params[name] = ur.Quantity(float(meta[cols[0]]), cols[0][len(name) + 2 : -1])
    with guard("building a model from the metadata of its results"):
        return sut.CLASSES[kind](**params)


def joined(case, first, ctx):
    """Results of two models put together are one collection of scenarios like any other."""
    spec, axis, rows, o = case["spec"], case["axis"], case["rows"], case["other"]
    with guard("joining results of two models and running them again"):
        parts = [
            sut.build(s).run_scenarios(scen.scmrun(axis, some), progress=False) for s, some in ((spec, rows[::2]), (o, rows[1::2]))
        ]
        if case["package"] == "drivers":
            parts = [p.filter(variable=scen.ERF) for p in parts]
        both = run_append(parts)
        again = scen.result_rows(sut.build(spec).run_scenarios(both, progress=False))
    require(len(again) == len(first), "joined results of two models: {} series instead of {}", len(again), len(first))
    for row in rows:
        oracles.same_bits(
            scen.series(spec["model"], again, row["meta"]), scen.series(spec["model"], first, row["meta"]), "joined results of two models"
        )
    names = {k for k in first[0].meta if k != "run_idx"}
    for row in rows:
        for r in again:
            if all(r.meta.get(k) == v for k, v in row["meta"].items()):
                want = scen.pick(first, variable=r.meta["variable"], **row["meta"]).meta
                for k in names:
                    require(r.meta[k] == want[k], "joined results of two models: {} of {} is {!r} instead of {!r}", k, r.meta["variable"], r.meta[k], want[k])
    ctx.label("joined")


def check(case, ctx):
    spec, axis, rows = case["spec"], case["axis"], case["rows"]
    kind = spec["model"]
    model = sut.build(spec)
    with guard("run_scenarios"):
        out = model.run_scenarios(scen.scmrun(axis, rows), progress=False)
        first = scen.result_rows(out)
        data = package(out, case["package"])
        before = out.timeseries().copy()
    ctx.label(kind, case["package"], case["by"])
    # run again
    if case["by"] == "same":
        again = model
    elif case["by"] == "equal":
        again = sut.build(dict(spec, via="ctor"))
    else:
        again = rebuilt(kind, first[0].meta)
    with guard("running the results again"):
        second = scen.result_rows(again.run_scenarios(data, progress=False))
    # finite or not, everything is as it was
    same_table(second, first, "running the results again")
    now = out.timeseries()
    require(now.equals(before) and now.index.equals(before.index), "running the results again changed them")
    # every series from its metadata alone
    for r in first:
        if r.meta["variable"] != scen.ERF:
            continue
        own = rebuilt(kind, r.meta)
        own.delta_t = sut.q([1, "yr" if axis["kind"] == "yearly" else "month"])
        have = ~np.isnan(r.values)
        arrays = sut.run_erf(own, ur.Quantity(r.values[have], r.meta["unit"]))
        for k, var in sut.SCEN_VARS[kind].items():
            if k not in arrays:
                continue
            hit = scen.pick(first, run_idx=r.meta["run_idx"], variable=var)
            oracles.same_bits({k: hit.values[have]}, {k: arrays[k]}, "run rebuilt from the metadata of {}".format(r.meta["scenario"]))
    # another model runs the results as it runs the scenarios
    if case["other"] is not None:
        o = case["other"]
        with guard("another model"):
            direct = scen.result_rows(sut.build(o).run_scenarios(scen.scmrun(axis, rows), progress=False))
            via = scen.result_rows(sut.build(o).run_scenarios(data, progress=False))
        require(len(direct) == len(via), "{} series instead of {} with another model", len(via), len(direct))
        for row in rows:
            oracles.same_bits(
                scen.series(o["model"], via, row["meta"]), scen.series(o["model"], direct, row["meta"]), "results run by another model"
            )
        for r in via:
            require(r.meta["climate_model"] == sut.NAMES[o["model"]], "climate_model is {!r} after another model ran it", r.meta["climate_model"])
        if len(rows) > 1:
            joined(case, first, ctx)
        if o["model"] == kind:
            same_table(via, direct, "results run by another model")
        ctx.label("other model" if o["model"] != kind else "other parameters")
    ctx.nontrivial(len(rows) > 1 or case["other"] is not None or any(r["lead"] or r["trail"] for r in rows))
