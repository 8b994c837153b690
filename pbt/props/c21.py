import json
import os

import numpy as np

from .. import env, gens, oracles, scen, sut, units
from ..core import require, sut as guard
from ..gens import st

RULE = (
    "one of the four archived configurations, 1 to 5 of its 11 scenarios in any order, the first 2 to 751 years (of all or of each scenario), "
    "forcing and parameters in random equivalent units, given by constructor or assignment, on a new or a used model; non-trivial = at least 100 archived values compared"
)
ASSUMPTIONS = [
    "data/rcmip.npz holds the results archived in tests/test-data (written by pbt/make_rcmip.py)",
    "tolerance 1e-11 of the largest value so far, plus accumulated rounding; state-dependent runs are compared until the archived run leaves 1000 degrees",
]
EXAMPLES = {"quick": 45, "thorough": 800}

_Z = np.load(os.path.join(env.VERIF, "data", "rcmip.npz"))
META = json.loads(str(_Z["meta"]))
ARCHIVE = {k: _Z[k] for k in _Z.files if k != "meta"}
SCENARIOS = sorted(META["tl_default"]["scenarios"])
YEARS = 751
CONFIG = {
    # what the archive's configuration changes; everything else is left at its default
    "tl_default": ("tl", {}),
    "tl_efficacy": ("tl", {"efficacy": 1.2}),
    "tl_state": ("tl", {"a": 0.05}),
    "ir_default": ("ir", {}),
}
# the defaults the archive was made with, in the models' default units
DEFAULTS = {
    "tl": {
        "du": [50.0, "m"], "dl": [1200.0, "m"], "lambda0": [3.74 / 3, "W/m^2/delta_degC"], "a": [0.0, "W/m^2/delta_degC^2"],
        "efficacy": [1.0, "dimensionless"], "eta": [0.8, "W/m^2/delta_degC"],
    },
    "ir": {
        "q1": [0.3, "delta_degC/(W/m^2)"], "q2": [0.4, "delta_degC/(W/m^2)"], "d1": [9.0, "yr"], "d2": [400.0, "yr"],
        "efficacy": [1.0, "dimensionless"],
    },
}


@st.composite
def strategy_(draw):
    config = draw(st.sampled_from(sorted(CONFIG)))
    kind = CONFIG[config][0]
    most = YEARS if kind == "tl" or draw(st.integers(0, 5)) == 0 else 150
    end = st.one_of(st.integers(2, most), st.sampled_from([most, 2, 3, 266]).map(lambda v: min(v, most)))
    names = draw(st.lists(st.sampled_from(SCENARIOS), min_size=1, max_size=4 if most > 300 else 5, unique=True))
    each = draw(st.booleans())
    common = draw(end)
    given = draw(st.lists(st.sampled_from(sorted(DEFAULTS[kind])), unique=True))
    return {
        "config": config,
        "rows": [
            {"scenario": s, "years": draw(end) if each else common, "unit": draw(st.sampled_from(["W/m^2", "W/m^2"] + list(units.FLUX)))}
            for s in names
        ],
        "units": {k: draw(st.sampled_from(list(units.KINDS[units.MODEL_KINDS[kind][k]]))) for k in given},
        "via": draw(st.sampled_from(["ctor", "set"])),
        "used": draw(st.integers(0, 3)) == 0,
        "bare": draw(st.booleans()),
    }


def strategy(tier):
    return strategy_()


DIRECTED = [
    {
        "config": c, "rows": [{"scenario": s, "years": YEARS, "unit": "W/m^2"} for s in SCENARIOS[i::3]],
        "units": {}, "via": "ctor", "used": False, "bare": False,
    }
    for c in sorted(CONFIG) for i in range(3)
    if c != "ir_default" or i == 0
]


def check(case, ctx):
    config = case["config"]
    kind, changed = CONFIG[config]
    params = {}
    for k, (v, u) in DEFAULTS[kind].items():
        v = changed.get(k, v)
        if k in case["units"]:
            params[k] = gens.requantify(units.MODEL_KINDS[kind][k], [v, u], case["units"][k])
        elif k in changed:
            params[k] = [v, u]
    model = sut.build({"model": kind, "params": params, "via": case["via"]})
    if case["used"]:
        with guard("a run before"):
            model.run_scenarios(
                scen.scmrun({"kind": "yearly", "year": 2000, "n": 3}, [
                    {"meta": {"model": "m", "scenario": "s"}, "unit": "W/m^2", "forcing": {"values": [5.0, 1.0, 2.0]}, "lead": 0, "trail": 0}
                ]), progress=False,
            )
    rows = []
    for r in case["rows"]:
        F = ARCHIVE["{}/{}/F".format(config, r["scenario"])]
        F = F[: r["years"]]
        F = F[np.isfinite(F)]
        meta = dict(META[config]["scenarios"][r["scenario"]])
        meta.pop("unit", None)
        if case["bare"]:
            meta = {"model": meta["model"], "scenario": meta["scenario"]}
        rows.append({"F": F, "meta": meta, "unit": r["unit"], "name": r["scenario"]})
    n = max(len(r["F"]) for r in rows)
    if n < 2:
        return
    specs = [
        {
            "meta": r["meta"], "unit": r["unit"], "lead": 0, "trail": n - len(r["F"]),
            # rows are given in W/m^2 and handed over in the row's unit
            "forcing": {"values": r["F"].tolist()},
        }
        for r in rows
    ]
    axis = {"kind": "yearly", "year": 1750, "n": n}
    with guard("running archived scenarios"):
        out = scen.result_rows(model.run_scenarios(scen.scmrun(axis, specs), progress=False))
    p = {k: units.si(units.MODEL_KINDS[kind][k], changed.get(k, v), u) for k, (v, u) in DEFAULTS[kind].items()}
    p["delta_t"] = 31557600.0
    compared = 0
    for r, spec in zip(rows, specs):
        got = scen.trimmed(scen.series(kind, out, r["meta"]), spec, n)
        m = len(r["F"])
        want = {k: ARCHIVE["{}/{}/{}".format(config, r["name"], k)][:m] for k in got}
        alive = np.ones(m, bool)
        for v in want.values():
            alive &= np.isfinite(v) & (np.abs(np.where(np.isfinite(v), v, 0)) < 1e3)
        alive = np.cumsum(~alive) == 0
        safe = {k: np.where(alive, v, 0.0) for k, v in want.items()}
        extra = oracles.bound(kind, p, r["F"], safe)
        tol = {}
        for k, v in safe.items():
            t = 1e-11 * np.maximum.accumulate(np.abs(v)) + 1e-14
            t = t + extra.get(k, 1e-12 * np.abs(v))
            tol[k] = np.where(alive, t, np.inf)
        oracles.close(got, safe, tol, "scenario {} of {}".format(r["name"], config), ctx, label=config)
        compared += int(alive.sum()) * len(got)
    ctx.nontrivial(compared >= 100)
    ctx.label(config, "used model" if case["used"] else "new model")
    if len(rows) == len(SCENARIOS) or n == YEARS:
        ctx.label("complete period")
    if case["units"]:
        ctx.label("parameters in other units")
    if any(r["unit"] != "W/m^2" for r in rows):
        ctx.label("forcing in other units")
