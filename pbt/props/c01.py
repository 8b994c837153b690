from .. import gens, oracles, scen, sut
from ..gens import st

RULE = (
    "two-layer parameters (climate-like or extreme, any units, signs and zeros), time step and forcing series "
    "(lists and long patterns), run directly (run or step by step, constructor or attribute assignment) and sometimes as a scenario; non-trivial = "
    "at least 3 finite steps with non-zero forcing compared"
)
ASSUMPTIONS = [
    "float64 arithmetic; tolerance 1e-12 of the sum of absolute terms of each step",
    "steps after an overflow to inf/NaN are not compared",
]
EXAMPLES = {"quick": 900, "thorough": 40000}


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "spec": gens.model_spec(which=("tl",)),
            "driver": gens.driver(),
            "steps": st.booleans(),
            "again": st.sampled_from([0, 0, 0, 1, 2]),
            "scenario": gens.sometimes(24, scen.axis(2, 60)),
        }
    )


def check(case, ctx):
    p = sut.si_params(case["spec"])
    _, F = sut.driver_values(case["driver"])
    model = sut.build(case["spec"])
    if case["scenario"] is not None:
        # the same forcing as a scenario: only the time step is another one
        ps, Fs, out = scen.single(case["spec"], case["driver"], case["scenario"], model)
        oracles.tl_steps(ps, Fs, out, ctx)
        ctx.label("scenario run")
        model = sut.build(case["spec"])
    for _ in range(1 + case["again"]):
        out = sut.run(case["spec"], case["driver"], steps=case["steps"], model=model)
        n = oracles.tl_steps(p, F, out, ctx)
    ctx.nontrivial(n >= 3 and any(F[:-1]))
    ctx.label("steps>=3" if n >= 3 else "steps<3")
    if len(F) > 300:
        ctx.label("long")
    if p["a"]:
        ctx.label("state-dependent")
    if p["eta"] == 0:
        ctx.label("eta=0")
    if n < len(F) - 1:
        ctx.label("overflow")
    if max([abs(x) for x in out["Tu"][: n + 1]] + [0]) > 1e3:
        ctx.label("unstable or extreme")
