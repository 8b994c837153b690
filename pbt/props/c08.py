"""Operation histories over several live models."""
import numpy as np

from .. import gens, oracles, scen, sut, units
from ..core import Violation, require, sut as guard
from ..env import ModelStateError, ur
from ..gens import st

RULE = (
    "lists of up to 14 operations (construct, assign, refused assign, drivers, reset, single steps, run, scenario batch, "
    "conversion, complete run) over up to three live models of both kinds; after every complete run the outputs are compared bit by bit "
    "with a newly built model, and with the reference equations; models, values and drivers are often (nearly) shared; non-trivial = at least two earlier operations on the model compared"
)
ASSUMPTIONS = ["documented call order: drivers are set and the model is reset before stepping, at most one step per driver value"]
EXAMPLES = {"quick": 230, "thorough": 12000}

SMALL = dict(max_list=7, max_len=14, long_odds=40, long_len=60)


@st.composite
def good_value(draw, model, name):
    kinds = units.MODEL_KINDS[model]
    if model == "tl":
        table = draw(st.sampled_from([gens.TL_PLAUSIBLE, gens.TL_WIDE]))
    else:
        table = dict(gens.IR_PLAUSIBLE, d1=gens.magnitude(1e6, 9e8), d2=gens.magnitude(1e9, 1e12))
    return draw(gens.quantity(kinds[name], table[name]))


NEAR = [1e-10, 1e-9, 1e-7, 1e-6, 1e-4, 1e-3, -1e-9, -1e-5, -1e-3]


@st.composite
def value(draw, model, name, seen):
    """A new value, one used before in this case, or one close to such a value."""
    old = seen.get((model, name))
    how = draw(st.integers(0, 6)) if old else 0
    if how in (2, 3):
        val = list(draw(st.sampled_from(old)))
    elif how == 4:
        val = list(draw(st.sampled_from(old)))
        val[0] = float(val[0]) * (1 + draw(st.sampled_from(NEAR)))
    elif how == 5:
        # the same number in another unit, or the same value stated in another unit
        val = list(draw(st.sampled_from(old)))
        kind = units.MODEL_KINDS[model][name]
        unit = draw(st.sampled_from(list(units.KINDS[kind])))
        val = [val[0], unit] if draw(st.booleans()) else gens.requantify(kind, val, unit)
    else:
        val = draw(good_value(model, name))
    seen.setdefault((model, name), []).append(val)
    return val


@st.composite
def drivers(draw, seen):
    if seen and draw(st.integers(0, 2)) == 1:
        drv = draw(st.sampled_from(seen))
        if draw(st.integers(0, 2)) == 1:
            drv = dict(drv, unit=draw(st.sampled_from(["W/m^2", "mW/m^2", "kW/m^2"])))
    else:
        drv = draw(gens.driver(**SMALL))
    seen.append(drv)
    return drv


@st.composite
def strategy_(draw):
    specs = [draw(gens.model_spec(wide=False))]
    seen, seen_drivers = {}, []
    for k, v in specs[0]["params"].items():
        seen.setdefault((specs[0]["model"], k), []).append(v)
    for _ in range(draw(st.integers(0, 2))):
        if draw(st.booleans()):
            # differs from an earlier model in one or two parameters
            other = draw(st.sampled_from(specs))
            spec = dict(other, params=dict(other["params"]))
            for name in draw(st.lists(st.sampled_from(sorted(spec["params"])), min_size=1, max_size=2, unique=True)):
                val = draw(value(spec["model"], name, seen))
                if spec["model"] == "tl" or sut.keeps_timescales_apart(spec["params"], name, val):
                    spec["params"][name] = val
        else:
            spec = draw(gens.model_spec(wide=False))
            for k, v in spec["params"].items():
                seen.setdefault((spec["model"], k), []).append(v)
        specs.append(spec)
    ops = []
    count = draw(st.integers(1, 14))
    for _ in range(count):
        i = draw(st.integers(0, len(specs) - 1))
        model = specs[i]["model"]
        names = sorted(units.MODEL_KINDS[model])
        what = draw(
            st.sampled_from(
                ["set", "set", "drivers", "reset", "steps", "steps", "finish", "full", "full", "bad", "convert", "rebuild", "scenarios", "same"]
            )
        )
        if what == "scenarios" and draw(st.integers(0, 3)):
            what = "full"
        o = {"op": what, "i": i}
        if what == "set":
            o["name"] = draw(st.sampled_from(names))
            o["value"] = draw(value(model, o["name"], seen))
        elif what == "bad":
            o["name"] = draw(st.sampled_from(names))
            o["value"] = draw(st.sampled_from(["text", "dim", "nan-drivers", "2d-drivers"]))
        elif what in ("drivers", "full"):
            o["driver"] = draw(drivers(seen_drivers))
            o["buffer"] = draw(st.integers(0, 3)) == 1
            o["attribute"] = draw(st.integers(0, 3)) == 2
        elif what == "steps":
            o["k"] = draw(st.integers(1, 5))
        elif what == "scenarios":
            o["axis"] = draw(scen.axis(2, 6))
            o["rows"] = draw(scen.rows(o["axis"]["n"], 1, 2, extra=False))
        ops.append(o)
    return {"specs": specs, "ops": ops, "driver": draw(drivers(seen_drivers))}


def strategy(tier):
    return strategy_()


class Live:
    def __init__(self, spec):
        self.kind = spec["model"]
        self.params = {k: list(v) for k, v in spec["params"].items()}
        self.model = sut.build(spec)
        self.drivers = None   # last accepted drivers
        self.usable = False   # drivers without missing values
        self.done = None      # steps since the last reset, None when a reset is needed
        self.clean = False    # no parameter change since the reset
        self.ops = 0
        self.buffers = {}     # the caller's arrays for drivers

    def erf(self, o):
        """The drivers; from the caller's own array, overwritten with them, if that is asked for."""
        erf = sut.erf_quantity(o["driver"])
        if not o.get("buffer"):
            return erf
        n = erf.shape[0]
        array = self.buffers.setdefault(n, np.empty(n))
        array[:] = erf.magnitude
        return ur.Quantity(array, o["driver"]["unit"])

    def fresh(self, erf):
        return sut.run_erf(
            sut.build({"model": self.kind, "params": self.params, "via": "ctor"}), erf,
            doing="running a fresh model",
        )

    def compare(self, when):
        got = sut.outputs(self.model)
        self.judge(got, self.drivers, when)

    def judge(self, got, drv, when):
        """As a fresh model gives, and (state may leak into that one too) as the equations give."""
        oracles.same_bits(got, self.fresh(sut.erf_quantity(drv)), when)
        p = sut.si_params({"model": self.kind, "params": self.params})
        try:
            oracles.steps(self.kind, p, sut.driver_values(drv)[1], got)
        except Violation as exc:
            raise Violation("{}: {}".format(when, exc)) from exc


def check(case, ctx):
    lives = [Live(s) for s in case["specs"]]
    compared = 0
    for pos, o in enumerate(case["ops"]):
        m = lives[o["i"]]
        what = o["op"]
        when = "op {} ({}) on model {}".format(pos, what, o["i"])
        ctx.label(what)
        if what == "set":
            if not sut.keeps_timescales_apart(m.params, o["name"], o["value"]):
                continue
            with guard(when):
                setattr(m.model, o["name"], sut.q(o["value"]))
            m.params[o["name"]] = o["value"]
            if m.done:
                m.clean = False
        elif what == "rebuild":
            with guard(when):
                sut.build({"model": m.kind, "params": m.params, "via": "ctor"})
                sut.CLASSES[m.kind]()
        elif what == "bad":
            bad(m, o)
        elif what == "drivers":
            with guard(when):
                if o.get("attribute"):
                    m.model.erf = m.erf(o)
                else:
                    m.model.set_drivers(m.erf(o))
            m.drivers, m.usable, m.done = o["driver"], True, None
        elif what == "reset":
            if m.usable:
                with guard(when):
                    m.model.reset()
                m.done, m.clean = 0, True
        elif what in ("steps", "finish"):
            if m.done is not None:
                n = len(gens.expand(m.drivers["forcing"]))
                k = n - m.done
                if what == "steps":
                    k = min(o["k"], k)
                with guard(when):
                    for _ in range(k):
                        m.model.step()
                m.done += k
                if m.done == n and m.clean:
                    m.compare(when)
                    compared += m.ops >= 2
                    ctx.label("stepped to the end")
        elif what == "same":
            # run again with the drivers that are set
            if m.usable:
                with guard(when):
                    m.model.reset()
                    m.model.run()
                m.compare(when)
                compared += m.ops >= 2
                m.done, m.clean = len(gens.expand(m.drivers["forcing"])), True
        elif what == "full":
            got = sut.run_erf(m.model, m.erf(o), doing=when, attribute=o.get("attribute"))
            m.drivers, m.usable = o["driver"], True
            m.done, m.clean = len(gens.expand(o["driver"]["forcing"])), True
            m.judge(got, o["driver"], when)
            compared += m.ops >= 2
        elif what == "convert":
            convert(m, when)
        elif what == "scenarios":
            scenarios(m, o, when)
            compared += m.ops >= 2
        m.ops += 1
    for i, m in enumerate(lives):
        erf = sut.erf_quantity(case["driver"])
        got = sut.run_erf(m.model, erf, doing="final run of model {}".format(i))
        m.judge(got, case["driver"], "final run of model {}".format(i))
        compared += m.ops >= 2
        again = sut.run_erf(m.model, sut.erf_quantity(case["driver"]), steps=True)
        oracles.same_bits(again, got, "stepping after running, model {}".format(i))
    ctx.nontrivial(compared >= 1)
    if len(lives) > 1:
        ctx.label("several models")


def bad(m, o):
    """Something that is refused; whatever it raises is another property's business."""
    try:
        if o["value"] == "text":
            setattr(m.model, o["name"], "wrong")
        elif o["value"] == "dim":
            setattr(m.model, o["name"], ur.Quantity(1.0, "mol"))
        elif o["value"] == "2d-drivers":
            m.model.set_drivers(ur.Quantity(np.ones((2, 2)), "W/m^2"))
        else:
            m.drivers, m.usable, m.done = None, False, None
            m.model.set_drivers(ur.Quantity(np.array([1.0, np.nan, 2.0]), "W/m^2"))
            m.model.reset()
    except (TypeError, ValueError, AssertionError, ModelStateError):
        pass


def convert(m, when):
    if m.kind == "tl":
        if m.params["a"][0] == 0:
            p = sut.si_params({"model": "tl", "params": m.params})
            if min(p["lambda0"], p["eta"], p["efficacy"]) > 0:
                with guard(when):
                    m.model.get_impulse_response_parameters()
        else:
            try:
                m.model.get_impulse_response_parameters()
            except ValueError:
                pass
    else:
        with guard(when):
            m.model.get_two_layer_parameters()


def scenarios(m, o, when):
    axis, rows = o["axis"], o["rows"]
    with guard(when):
        got = m.model.run_scenarios(scen.scmrun(axis, rows), progress=False)
    new = sut.build({"model": m.kind, "params": m.params, "via": "ctor"})
    with guard("run_scenarios of a fresh model"):
        want = new.run_scenarios(scen.scmrun(axis, rows), progress=False)
    a, b = scen.result_rows(got), scen.result_rows(want)
    require(len(a) == len(b), "{}: {} series instead of {}", when, len(a), len(b))
    for row in rows:
        x = scen.series(m.kind, a, row["meta"])
        y = scen.series(m.kind, b, row["meta"])
        oracles.same_bits(x, y, when)
        p = sut.si_params({"model": m.kind, "params": dict(m.params, delta_t=[scen.axis_step(axis), "s"])})
        oracles.steps(m.kind, p, scen.row_values(row, axis["n"])[1], scen.trimmed(x, row, axis["n"]))
    unit = "yr" if axis["kind"] == "yearly" else "month"
    m.params["delta_t"] = [1, unit]
    last = rows[-1]
    # the drivers left in the model are an internal matter
    m.drivers, m.usable, m.done = None, False, None
    require(last is not None, "")
