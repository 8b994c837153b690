from .. import gens, oracles, scen, sut
from ..gens import st

RULE = (
    "impulse-response parameters (climate-like or extreme, any units, efficacy at, near and far from one), time step and forcing series "
    "(lists and long patterns), run directly (run or step by step, constructor or attribute assignment) and sometimes as a scenario; non-trivial = "
    "at least 3 finite steps with non-zero forcing compared"
)
ASSUMPTIONS = [
    "float64 arithmetic; tolerance 1e-12 of the terms of each step, for the efficacy term 1e-13 times the conversion's amplification of rounding",
    "steps after an overflow to inf/NaN are not compared",
]
EXAMPLES = {"quick": 250, "thorough": 12000}


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "spec": gens.model_spec(which=("ir",)),
            "driver": gens.driver(max_len=60, long_len=420, long_odds=25),
            "steps": st.booleans(),
            "again": st.sampled_from([0, 0, 0, 1, 2]),
            "scenario": gens.sometimes(24, scen.axis(2, 60)),
        }
    )


def check(case, ctx):
    p = sut.si_params(case["spec"])
    _, F = sut.driver_values(case["driver"])
    model = sut.build(case["spec"])
    if case["scenario"] is not None:
        # the same forcing as a scenario: only the time step is another one
        ps, Fs, out = scen.single(case["spec"], case["driver"], case["scenario"], model)
        oracles.ir_steps(ps, Fs, out, ctx)
        ctx.label("scenario run")
        model = sut.build(case["spec"])
    for _ in range(1 + case["again"]):
        out = sut.run(case["spec"], case["driver"], steps=case["steps"], model=model)
        n = oracles.ir_steps(p, F, out, ctx)
    ctx.nontrivial(n >= 3 and any(F[:-1]))
    ctx.label("steps>=3" if n >= 3 else "steps<3")
    if len(F) > 300:
        ctx.label("long")
    ctx.label("efficacy=1" if p["efficacy"] == 1 else "efficacy!=1")
    if 0 < abs(p["efficacy"] - 1) < 1e-2:
        ctx.label("efficacy near 1")
    if p["delta_t"] > p["d2"]:
        ctx.label("step longer than both timescales")
    elif p["delta_t"] > p["d1"]:
        ctx.label("step between timescales")
