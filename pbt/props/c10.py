import numpy as np

from .. import dictionary, gens, oracles, scen, sut
from ..core import expect_raises, require, sut as guard
from ..gens import st

RULE = (
    "scenario data with the requested driver (or without it) mixed with look-alike variables and regions in any row order; "
    "output compared with the run of the requested World rows alone; without such rows ValueError; non-trivial = at least one "
    "decoy row that shares the driver's variable or region"
)
ASSUMPTIONS = ["variable names free of the characters scmdata's filters interpret (* [ ] { } ? \\) and different from the output variables"]
EXAMPLES = {"quick": 60, "thorough": 2500}

VARS = [
    scen.ERF,
    scen.ERF + "|CO2",
    scen.ERF + "|Anthropogenic",
    "Effective Radiative",
    "effective radiative forcing",
    "Effective Radiative Forcings",
    "X|" + scen.ERF,
    scen.ERF + " ",
    "Radiative Forcing",
    "Surface Temperature",
    "Surface Temperature|Upper",
    "Heat Uptake",
    "Emissions|CO2",
    "F",
    "Driver (all) + 1.0^2$",
    "Forcing|a.b",
    "Forcing|aXb",
]
VARS += [s for s in dictionary.NOVEL_STRINGS if not set(s) & set("*[]{}?\\") and s not in VARS]
# a driver named like one of the outputs cannot be told apart from it: refused by scmdata
OUTPUTS = {v for kind in sut.SCEN_VARS.values() for v in kind.values()}
REGIONS = [
    "World", "World|Northern Hemisphere", "World|Land", "world", "WORLD", "My World", "R5ASIA",
    "Worlds", "World ", "Africa", "unspecified",
]
REGIONS += [s for s in dictionary.NOVEL_STRINGS if s not in REGIONS]


@st.composite
def strategy_(draw):
    axis = draw(scen.axis(2, 14))
    n = axis["n"]
    asked = draw(st.one_of(st.none(), st.sampled_from([v for v in VARS if v not in OUTPUTS])))
    var = scen.ERF if asked is None else asked
    rows = draw(scen.rows(n, 1, 3, extra=False))
    present = draw(st.integers(0, 5)) > 0
    decoys = []
    for d in draw(scen.rows(n, 1, 5, extra=False, pad=False)):
        kind = draw(st.sampled_from(["region", "variable", "both"]))
        d["variable"] = var
        d["region"] = "World"
        if kind in ("variable", "both"):
            d["variable"] = draw(st.sampled_from([v for v in VARS if v != var]))
        if kind in ("region", "both"):
            d["region"] = draw(st.sampled_from([r for r in REGIONS if r != "World"]))
        if draw(st.booleans()):
            # same scenario as a real row
            d["meta"] = dict(rows[draw(st.integers(0, len(rows) - 1))]["meta"])
        decoys.append(d)
    seen, unique = set(), []
    for d in decoys:
        key = (d["meta"]["model"], d["meta"]["scenario"], d["variable"], d["region"])
        if key not in seen:
            seen.add(key)
            unique.append(d)
    for r in rows:
        r["variable"], r["region"] = var, "World"
    mixed = (rows if present else []) + unique
    order = draw(st.permutations(range(len(mixed))))
    return {
        "spec": draw(gens.model_spec(wide=False, with_dt=False)),
        "axis": axis,
        "asked": asked,
        "rows": rows if present else [],
        "mixed": [mixed[i] for i in order],
    }


def strategy(tier):
    return strategy_()


def check(case, ctx):
    spec, axis, rows = case["spec"], case["axis"], case["rows"]
    kind, n = spec["model"], axis["n"]
    kwargs = {} if case["asked"] is None else {"driver_var": case["asked"]}
    var = scen.ERF if case["asked"] is None else case["asked"]
    model = sut.build(spec)
    data = scen.scmrun(axis, case["mixed"])
    decoys = [r for r in case["mixed"] if r not in rows]
    ctx.label("default driver" if case["asked"] is None else "named driver", kind)
    if any(d["variable"] == var for d in decoys):
        ctx.label("other region, same variable")
    if any(d["region"] == "World" for d in decoys):
        ctx.label("other variable, World")
    ctx.nontrivial(any(d["variable"] == var or d["region"] == "World" for d in decoys))
    if not rows:
        ctx.label("no driver")
        expect_raises(
            (ValueError,), lambda: model.run_scenarios(data, progress=False, **kwargs),
            "run_scenarios without {} for World".format(var),
        )
        return
    with guard("run_scenarios"):
        got = scen.result_rows(model.run_scenarios(data, progress=False, **kwargs))
        plain = scen.result_rows(
            sut.build(spec).run_scenarios(scen.scmrun(axis, rows), progress=False, **kwargs)
        )
    per = 1 + len(sut.SCEN_VARS[kind])
    for res in (got, plain):
        require(len(res) == per * len(rows), "{} output series for {} driver rows", len(res), len(rows))
        require(all(r.meta["region"] == "World" for r in res), "other regions in the output")
    p = sut.si_params(spec)
    p["delta_t"] = scen.axis_step(axis)
    names = set(sut.SCEN_VARS[kind].values())
    for row in rows:
        outs = []
        for res in (got, plain):
            mine = [r for r in res if all(r.meta[k] == v for k, v in row["meta"].items())]
            require(all(r.meta["variable"] in names or r.meta["variable"] == var for r in mine), "other variables in the output")
            arrays = {}
            for short, name in sut.SCEN_VARS[kind].items():
                hits = [r for r in mine if r.meta["variable"] == name]
                require(len(hits) == 1, "{} series of {} for {}", len(hits), name, row["meta"])
                arrays[short] = hits[0].values
            drv = [r for r in mine if r.meta["variable"] == var and r.meta["unit"] == row["unit"]]
            want = np.array(scen.row_values(row, n)[0], float)
            require(any(_same_values(d.values, want) for d in drv), "the driver series is not in the output")
            outs.append(scen.trimmed(arrays, row, n))
        oracles.same_bits(outs[0], outs[1], "run with other series present")
        oracles.steps(kind, p, scen.row_values(row, n)[1], outs[0], ctx)


def _same_values(a, b):
    return len(a) == len(b) and bool(((a == b) | (np.isnan(a) & np.isnan(b))).all())
