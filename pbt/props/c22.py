import numpy as np

from .. import gens, scen, sut, units
from ..core import expect_raises, require, sut as guard
from ..env import Model, ModelStateError, TwoLayerVariant, UnitError, ur
from ..gens import st

RULE = (
    "generated model variants (own name, 0 to 3 declared parameters in any units, 0 to 3 output series in any region, own or inherited driver handling) that record every call, run on "
    "generated scenario batches on yearly and monthly axes, sometimes failing at a generated scenario and phase, sometimes with operations left out; "
    "non-trivial = at least two scenarios, a failure or a missing operation"
)
ASSUMPTIONS = ["output series are built by the variant from the base time series it is handed (metadata, time points)"]
EXAMPLES = {"quick": 75, "thorough": 3000}

OPS = ("set_drivers", "_reset", "_run", "_step", "_get_run_output_tss")
PHASES = ("set_drivers", "_reset", "_run", "_get_run_output_tss")
PARA_NAMES = ["gain", "memory", "offset", "du", "q1", "sensitivity_1", "zeta", "b"]
OUT_VARS = ["Surface Temperature", "Heat Uptake", "Ocean|Heat", "Albedo", "Surface Temperature|Upper", "X y"]
OUT_UNITS = ["delta_degC", "W/m^2", "K", "dimensionless", "m", "ZJ/yr"]
NAMES = ["my_variant", "two_layer", "v 1.0", "x", "éà", "two_timescale_impulse_response"]


class Boom(Exception):
    pass


ERRORS = {
    "custom": Boom, "value": ValueError, "key": KeyError, "stop": StopIteration, "type": TypeError,
    "notimpl": NotImplementedError, "attr": AttributeError, "zero": ZeroDivisionError, "assert": AssertionError,
    "index": IndexError, "runtime": RuntimeError, "arithmetic": ArithmeticError, "floating": FloatingPointError,
    "overflow": OverflowError, "lookup": LookupError, "os": OSError, "memory": MemoryError, "eof": EOFError,
    "warning": UserWarning, "state": ModelStateError, "unit": UnitError, "linalg": np.linalg.LinAlgError,
    "buffer": BufferError, "name": NameError, "import": ImportError, "plain": Exception, "timeout": TimeoutError,
}


def _directed():
    """Every kind of error in every phase, in the first or a later scenario."""
    out = []
    for i, error in enumerate(sorted(ERRORS)):
        for j, phase in enumerate(PHASES):
            at = (i + j) % 3
            out.append(
                {
                    "what": "fail", "name": "v", "paras": {}, "outputs": [["Albedo", "m", "double"]],
                    "own_drivers": bool((i + j) % 2), "axis": {"kind": "yearly", "year": 2000, "n": 3},
                    "rows": scen.bulk_rows(1 + at + (j > 1), 3), "again": False,
                    "fail": {"at": at, "phase": phase, "error": error},
                }
            )
    return out


DIRECTED = _directed()


@st.composite
def strategy_(draw):
    what = draw(st.sampled_from(["run", "run", "run", "fail", "missing", "steps"]))
    case = {"what": what, "name": draw(st.sampled_from(NAMES))}
    if what == "missing":
        # a complete variant is part of this too
        case["ops"] = draw(st.lists(st.sampled_from(OPS), unique=True).map(sorted))
        case["staged"] = draw(st.booleans())
        case["base"] = draw(st.sampled_from(["variant", "model"]))
        return case
    kinds = sorted(units.KINDS)
    paras = {}
    for name in draw(st.lists(st.sampled_from(PARA_NAMES), max_size=3, unique=True)):
        kind = draw(st.sampled_from(kinds))
        paras[name] = draw(gens.quantity(kind, gens.signed(1e-3, 1e3)))
    case["paras"] = paras
    case["outputs"] = draw(
        st.lists(
            st.tuples(
                st.sampled_from(OUT_VARS), st.sampled_from(OUT_UNITS), st.sampled_from(["double", "cumulate", "index", "step"]),
                st.sampled_from(["World", "World", "World|Land", "Ocean"]),
            ).map(list),
            min_size=draw(st.sampled_from([1, 1, 1, 1, 0])), max_size=3, unique_by=lambda t: (t[0], t[3]),
        )
    )
    case["own_drivers"] = draw(st.booleans())
    # the variant may also extend the public operations
    case["extends"] = draw(st.sampled_from([[], [], ["reset"], ["run"], ["reset", "run"]]))
    if what == "steps":
        case["ops"] = draw(st.lists(st.sampled_from(["reset", "run", "step"]), max_size=8))
        return case
    axis = draw(scen.axis(2, 10))
    case["axis"] = axis
    case["rows"] = draw(scen.rows(axis["n"], 1, 4, extra=draw(st.booleans())))
    case["again"] = draw(st.integers(0, 3)) == 0
    if what == "fail":
        case["fail"] = {
            "at": draw(st.integers(0, len(case["rows"]) - 1)),
            "phase": draw(st.sampled_from(PHASES)),
            "error": draw(st.sampled_from(sorted(ERRORS))),
        }
    return case


def strategy(tier):
    return strategy_()


def make_class(case, log):
    """The variant: every call goes to log."""

    def hit(phase):
        fail = case.get("fail")
        if fail and log["armed"] and fail["phase"] == phase and log["started"] - 1 == fail["at"]:
            log["raised"] = ERRORS[fail["error"]]("planned failure")
            raise log["raised"]

    class Variant(TwoLayerVariant):
        _name = case["name"]
        _save_paras = tuple(case["paras"])

        def __init__(self):
            self._values = None
            for k, v in case["paras"].items():
                setattr(self, k, sut.q(v))

        def _seen(self):
            return self._mine if case["own_drivers"] else self.erf

        def _reset(self):
            log["calls"].append(("reset", None))
            hit("_reset")

        def _run(self):
            log["calls"].append(("run", (self._seen(), self.delta_t)))
            hit("_run")
            self._values = np.array(self._seen().magnitude, float)

        def _step(self):
            log["calls"].append(("step", None))

        def _get_run_output_tss(self, ts_base):
            log["calls"].append(("outputs", ts_base.copy()))
            hit("_get_run_output_tss")
            out = []
            for variable, unit, rule, *region in case["outputs"]:
                ts = ts_base.copy()
                frame = ts.index.to_frame()
                frame["variable"], frame["unit"], frame["region"] = variable, unit, (region or ["World"])[0]
                ts.index = type(ts.index).from_frame(frame)
                ts.iloc[:, :] = produce(rule, self._values, self.delta_t)
                out.append(ts)
            return out

    if case["own_drivers"]:

        def set_drivers(self, erf):  # pylint: disable=arguments-differ
            log["started"] += 1
            log["calls"].append(("set_drivers", erf))
            hit("set_drivers")
            self._mine = erf

    else:

        def set_drivers(self, erf):  # pylint: disable=arguments-differ
            log["started"] += 1
            log["calls"].append(("set_drivers", erf))
            hit("set_drivers")
            TwoLayerVariant.set_drivers(self, erf)

    def reset(self):
        log["public"].append("reset")
        TwoLayerVariant.reset(self)

    def run(self):
        log["public"].append("run")
        TwoLayerVariant.run(self)

    Variant.set_drivers = set_drivers
    if "reset" in case.get("extends", ()):
        Variant.reset = reset
    if "run" in case.get("extends", ()):
        Variant.run = run
    return Variant


def produce(rule, values, delta_t):
    if rule == "double":
        return 2 * values
    if rule == "cumulate":
        return np.cumsum(values)
    if rule == "index":
        return np.arange(len(values), dtype=float)
    return np.full(len(values), float(delta_t.to("s").magnitude))


def check_missing(case, ctx):
    left_out = case["ops"]
    base = TwoLayerVariant if case["base"] == "variant" else Model
    needed = set(OPS)
    if case["base"] == "variant":
        needed -= {"set_drivers"}  # provided
    else:
        needed -= {"_get_run_output_tss"}  # only scenario runs need it
    body = {op: (lambda self, *args, **kwargs: None) for op in OPS if op not in left_out}
    if case["staged"]:
        # the operations are spread over two levels of subclasses
        names = sorted(body)
        first = type("Stage", (base,), {k: body[k] for k in names[::2]})
        cls = type("Final", (first,), {k: body[k] for k in names[1::2]})
    else:
        cls = type("Final", (base,), body)
    missing = needed & set(left_out)
    if missing:
        expect_raises((TypeError,), cls, "instantiating a variant without {}".format(sorted(missing)))
    else:
        with guard("instantiating a complete variant (without {})".format(left_out)):
            cls()
    expect_raises((TypeError,), base, "instantiating the base class itself")
    ctx.nontrivial(bool(left_out))
    ctx.label("operations missing" if missing else "complete")


def check_steps(case, ctx):
    log = {"calls": [], "public": [], "started": 0, "armed": False}
    with guard("instantiating the variant"):
        model = make_class(case, log)()
        model.delta_t = ur.Quantity(1.0, "yr")
        model.set_drivers(ur.Quantity(np.array([1.0, 2.0]), "W/m^2"))
    want = ["set_drivers"]
    for o in case["ops"]:
        with guard(o):
            getattr(model, o)()
        want.append(o)
    got = [c[0] for c in log["calls"]]
    require(got == want, "calls {} became {}", want, got)
    ctx.nontrivial(len(want) > 2)
    ctx.label("direct use")


def check_result(case, out, axis, rows, log, ctx):
    n = axis["n"]
    results = scen.result_rows(out)
    require(
        len(results) == len(rows) * (1 + len(case["outputs"])), "{} output series for {} scenarios with {} outputs",
        len(results), len(rows), len(case["outputs"]),
    )
    calls = log["calls"]
    names = [c[0] for c in calls]
    require(
        names == ["set_drivers", "reset", "run", "outputs"] * len(rows), "calls made for {} scenarios: {}", len(rows), names
    )
    extends = case.get("extends", [])
    require(log["public"] == extends * len(rows), "the variant's own {} were called as {} for {} scenarios", extends, log["public"], len(rows))
    if extends:
        ctx.label("public operations extended")
    step = scen.axis_step(axis)
    for pos, row in enumerate(rows):
        full, _ = scen.row_values(row, n)
        mags = np.array([v for v in full if v == v])
        drv = scen.pick(results, variable=scen.ERF, **row["meta"])
        i = int(drv.meta["run_idx"])
        require(0 <= i < len(rows), "run index {} of {}", i, len(rows))
        erf = calls[4 * i][1]
        require(isinstance(erf, ur.Quantity), "drivers handed over as {}", type(erf))
        require(erf.units == ur.Quantity(1.0, row["unit"]).units, "drivers in {} handed over in {}", row["unit"], erf.units)
        require(
            erf.magnitude.shape == mags.shape and np.array_equal(erf.magnitude, mags), "drivers of run {} are {}, its scenario has {}",
            i, erf.magnitude.tolist(), mags.tolist(),
        )
        seen, dt = calls[4 * i + 2][1]
        require(
            np.array_equal(seen.magnitude, mags) and seen.units == erf.units, "while running the drivers are {} instead of {}", seen, erf
        )
        require(abs(float(dt.to("s").magnitude) - step) <= 1e-9 * step, "time step {} instead of {} s", dt, step)
        base = calls[4 * i + 3][1]
        require(base.shape == (1, len(mags)), "base time series of shape {} for {} values", base.shape, len(mags))
        for variable, unit, rule, *region in case["outputs"]:
            r = scen.pick(results, variable=variable, region=(region or ["World"])[0], **row["meta"])
            require(r.meta["unit"] == unit, "{} has unit {}, not {}", variable, r.meta["unit"], unit)
            require(int(r.meta["run_idx"]) == i, "{} has run index {}, its driver {}", variable, r.meta["run_idx"], i)
            require(r.meta["climate_model"] == case["name"], "climate model {!r}, not {!r}", r.meta["climate_model"], case["name"])
            want = produce(rule, mags, dt)
            got = r.values[row["lead"] : n - row["trail"]]
            require(
                got.shape == want.shape and np.array_equal(got, want), "{} is {} but the variant produced {}", variable, got.tolist(), want.tolist()
            )
            cols = [k for k in r.meta if "(" in k and k.endswith(")") and k not in row["meta"]]
            require(len(cols) == len(case["paras"]), "parameter columns {} for {}", cols, sorted(case["paras"]))
            for name, (mag, punit) in case["paras"].items():
                hits = [k for k in cols if k.startswith(name + " (")]
                require(len(hits) == 1, "columns {} for parameter {}", hits, name)
                require(ur.Unit(hits[0][len(name) + 2 : -1]) == ur.Quantity(1.0, punit).units, "column {} for unit {}", hits[0], punit)
                require(float(r.meta[hits[0]]) == float(mag), "parameter {} reported as {!r} not {!r}", name, r.meta[hits[0]], mag)


def check(case, ctx):
    if case["what"] == "missing":
        return check_missing(case, ctx)
    if case["what"] == "steps":
        return check_steps(case, ctx)
    axis, rows = case["axis"], case["rows"]
    log = {"calls": [], "public": [], "started": 0, "armed": True, "raised": None}
    with guard("instantiating the variant"):
        model = make_class(case, log)()

    def run():
        return model.run_scenarios(scen.scmrun(axis, rows), progress=False)

    if case["what"] == "fail":
        fail = case["fail"]
        exc = expect_raises((ERRORS[fail["error"]],), run, "a variant raising {} in {}".format(fail["error"], fail["phase"]))
        require(exc is log["raised"] or exc.__cause__ is log["raised"], "another error reached the caller: {!r}", exc)
        depth = PHASES.index(fail["phase"]) + 1
        require(
            len(log["calls"]) == 4 * fail["at"] + depth, "{} calls made although call {} of scenario {} failed", len(log["calls"]), depth, fail["at"]
        )
        ctx.label("failing in " + fail["phase"])
        # the same instance works once the fault is gone
        log.update(calls=[], public=[], started=0, armed=False)
    with guard("running a variant"):
        out = run()
    check_result(case, out, axis, rows, log, ctx)
    if case["again"]:
        log.update(calls=[], public=[], started=0, armed=False)
        with guard("running a variant again"):
            out = run()
        check_result(case, out, axis, rows, log, ctx)
        ctx.label("run again")
    ctx.nontrivial(len(rows) > 1 or case["what"] == "fail")
    ctx.label("own drivers" if case["own_drivers"] else "inherited drivers")
