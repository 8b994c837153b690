import numpy as np

from .. import gens, oracles, scen, sut
from ..core import Violation, require
from ..gens import st

RULE = (
    "pairs of forcing series that agree up to a generated index and differ afterwards (other values, other length), both "
    "models, any parameters, direct and scenario runs; non-trivial = common part non-zero with at least 2 values and a real difference after it"
)
ASSUMPTIONS = ["prefixes compared to 1e-12 of the largest absolute value in the prefix, exactly where that is zero"]
EXAMPLES = {"quick": 450, "thorough": 20000}


@st.composite
def strategy_(draw):
    spec = draw(gens.model_spec())
    drv = draw(gens.driver(min_len=1, max_len=60, long_len=800, long_odds=20))
    n = len(gens.expand(drv["forcing"]))
    return {
        "spec": spec,
        "driver": drv,
        "cut": draw(st.one_of(st.integers(0, n), st.just(n - 1), st.just(n))),
        "tail": draw(st.lists(gens.forcing_value(), min_size=0, max_size=6)),
        "same_length": draw(st.booleans()),
        "axis": draw(gens.sometimes(20, scen.axis(2, 2))),
    }


def strategy(tier):
    return strategy_()


def scenario_outputs(spec, axis, values):
    axis = dict(axis, n=len(values))
    row = {
        "meta": {"model": "m", "scenario": "s"},
        "forcing": {"values": list(values)},
        "unit": "W/m^2",
        "lead": 0,
        "trail": 0,
    }
    model = sut.build(spec)
    with sut.sut("run_scenarios"):
        out = model.run_scenarios(scen.scmrun(axis, [row]), progress=False)
    return scen.series(spec["model"], scen.result_rows(out), {"scenario": "s"})


def check(case, ctx):
    spec = case["spec"]
    _, F = sut.driver_values(case["driver"])
    cut = case["cut"]
    tail = list(case["tail"])
    if case["same_length"]:
        rest = len(F) - cut
        tail = [(tail[i % len(tail)] if tail else -1.5) for i in range(rest)]
    G = F[:cut] + tail
    if not G:
        G = F[:1]
    if case["axis"] is not None and len(F) >= 2 and len(G) >= 2 and len(F) < 100:
        ctx.label("scenario run")
        one = scenario_outputs(spec, case["axis"], F)
        two = scenario_outputs(spec, case["axis"], G)
        # the data frame drops nothing but cannot hold overflow
    else:
        ctx.label("direct run")
        one = sut.values(F, spec)
        two = sut.values(G, spec)
    for out, drivers in ((one, F), (two, G)):
        for k, v in out.items():
            require(len(v) == len(drivers), "{} has {} values for {} drivers", k, len(v), len(drivers))
            require(v[0] == 0, "{} starts at {!r}, not zero", k, float(v[0]))
    shared = 0
    while shared < min(len(F), len(G)) and F[shared] == G[shared]:
        shared += 1
    upto = min(shared + 1, len(F), len(G))
    for k in one:
        x, y = one[k][:upto], two[k][:upto]
        fin = np.isfinite(x)
        top = np.maximum.accumulate(np.where(fin, np.abs(x), 0))
        bad = fin & ~(np.abs(x - y) <= 1e-12 * top)
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            raise Violation(
                "{}[{}] changes from {!r} to {!r} when drivers change from index {} on".format(
                    k, i, float(x[i]), float(y[i]), shared
                )
            )
    ctx.nontrivial(shared >= 2 and any(F[:shared]) and F[shared:] != G[shared:])
    ctx.label(spec["model"])
    if len(F) != len(G):
        ctx.label("different lengths")
    if shared == len(F) - 1 and len(F) == len(G):
        ctx.label("only last driver differs")
