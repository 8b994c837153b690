"""Independent instances: copies taken in the middle, interleaved calls, other threads."""
import copy
import sys
import threading

import numpy as np

from .. import crash, gens, oracles, scen, sut, units
from ..core import Violation, require, sut as guard
from ..gens import st

RULE = (
    "copies: a model stepped part of the way, deep-copied once or twice there (or two or three models built alike and stepped in turns), then each instance changed and stepped on in a generated order; "
    "threads: 2 or 3 tasks (run, scenario batch, conversion, assign and run) on their own models in their own threads, which take turns at generated points "
    "of the package's source; every result compared bit by bit with the same task on its own; non-trivial = at least one switch "
    "in the middle of a call, or a copy taken in the middle of a run"
)
ASSUMPTIONS = ["the turns of the threads are taken at source lines of the package (sys.settrace), one thread runs at a time"]
EXAMPLES = {"quick": 90, "thorough": 6000}

SMALL = dict(max_list=7, max_len=12, long_odds=1000, long_len=14, min_len=2)
LONG = dict(max_list=40, max_len=400, long_odds=10 ** 6, long_len=400, min_len=2)


@st.composite
def change(draw, spec):
    kind = spec["model"]
    name = draw(st.sampled_from(sorted(set(units.MODEL_KINDS[kind]) - {"d1", "d2"})))
    table = gens.TL_PLAUSIBLE if kind == "tl" else gens.IR_PLAUSIBLE
    return [name, draw(gens.quantity(units.MODEL_KINDS[kind][name], table[name]))]


@st.composite
def near_spec(draw, spec):
    """The same kind of model, with some of the same parameters."""
    new = dict(spec, params=dict(spec["params"]))
    for _ in range(draw(st.integers(0, 2))):
        name, val = draw(change(spec))
        new["params"][name] = val
    return new


@st.composite
def strategy_(draw):
    if draw(st.integers(0, 2)) == 0:
        spec = draw(gens.model_spec(wide=False))
        size = draw(st.sampled_from([SMALL, SMALL, SMALL, LONG]))
        return {
            "what": "copies",
            "spec": spec,
            "driver": draw(gens.driver(**size)),
            "first": draw(st.integers(0, size["max_len"])),
            # siblings are built one by one instead of copied
            "siblings": draw(st.sampled_from([False, False, True])),
            "second": draw(gens.sometimes(2, st.integers(0, 12))),
            "order": draw(st.lists(st.integers(0, 2), max_size=30)),
            "midway": draw(gens.sometimes(2, st.tuples(st.integers(0, 2), change(spec)).map(list))),
            "changes": draw(st.lists(st.one_of(st.none(), change(spec)), min_size=3, max_size=3)),
            "drivers": draw(st.lists(st.one_of(st.none(), gens.driver(**SMALL)), min_size=3, max_size=3)),
            "axis": draw(gens.sometimes(4, scen.axis(2, 6))),
        }
    spec = draw(gens.model_spec(wide=False))
    tasks = []
    for i in range(draw(st.sampled_from([2, 2, 3]))):
        own = spec if i == 0 else draw(st.one_of(near_spec(spec), gens.model_spec(wide=False)))
        t = {"spec": own, "task": draw(st.sampled_from(["run", "run", "scenarios", "convert", "assign"])), "driver": draw(gens.driver(**SMALL))}
        if t["task"] == "scenarios":
            t["axis"] = draw(scen.axis(2, 6))
            t["rows"] = draw(scen.rows(t["axis"]["n"], 1, 2, extra=False))
        if t["task"] == "assign":
            t["changes"] = draw(st.lists(change(own), min_size=1, max_size=3))
        tasks.append(t)
    return {"what": "threads", "tasks": tasks, "turns": draw(st.lists(st.integers(1, 60), min_size=1, max_size=25))}


def strategy(tier):
    return strategy_()


def check(case, ctx):
    ctx.label(case["what"])
    (copies if case["what"] == "copies" else threads)(case, ctx)


# ---------------------------------------------------------------- copies


def copies(case, ctx):
    spec = case["spec"]
    kind = spec["model"]
    n = len(gens.expand(case["driver"]["forcing"]))
    first = min(case["first"], n)
    F = sut.driver_values(case["driver"])[1]
    with guard("stepping part of the way"):
        model = sut.build(spec)
        model.set_drivers(sut.erf_quantity(case["driver"]))
        model.reset()
        for _ in range(first):
            model.step()
    order = case["order"]
    if case.get("siblings"):
        first = 0
        ctx.label("siblings")
        with guard("building more models"):
            lives = [sut.build(spec) for _ in range(2 + (case["second"] is not None))]
            for m in lives:
                m.set_drivers(sut.erf_quantity(case["driver"]))
                m.reset()
        order = [order[i % len(order)] for i in range(3 * n)] if order else []
    else:
        with guard("copying the model"):
            lives = [model, copy.deepcopy(model)]
    if not case.get("siblings") and case["second"] is not None:
        with guard("copying the model"):
            lives.append(copy.deepcopy(lives[1]))
    changed = None
    if case["midway"] is not None and first > 0:
        # one instance goes on with another parameter
        changed = case["midway"][0] % len(lives)
        name, val = case["midway"][1]
        with guard("assigning {} of instance {}".format(name, changed)):
            setattr(lives[changed], name, sut.q(val))
        ctx.label("changed in the middle of the run")
    done = [first] * len(lives)
    for i in order:
        i %= len(lives)
        if done[i] < n:
            with guard("stepping instance {}".format(i)):
                before = [None if k == i else sut.outputs(m) for k, m in enumerate(lives)]
                lives[i].step()
            done[i] += 1
            for k, m in enumerate(lives):
                if k != i:
                    oracles.same_bits(sut.outputs(m), before[k], "instance {} when instance {} of a model copied after {} of {} steps is stepped".format(k, i, first, n))
    for i, m in enumerate(lives):
        with guard("stepping instance {}".format(i)):
            for _ in range(n - done[i]):
                m.step()
    alone = sut.run(dict(spec, via="ctor"), case["driver"])
    reference = alone
    for i, m in enumerate(lives):
        if i == changed:
            with guard("the same change without copies"):
                one = sut.build(dict(spec, via="ctor"))
                one.set_drivers(sut.erf_quantity(case["driver"]))
                one.reset()
                for k in range(n):
                    if k == first:
                        setattr(one, name, sut.q(val))
                    one.step()
            alone = sut.outputs(one)
        else:
            alone = reference
        oracles.same_bits(sut.outputs(m), alone, "instance {} of a model copied after {} of {} steps".format(i, first, n))
    oracles.steps(kind, sut.si_params(spec), F, reference)
    if changed is not None:
        # back to the common parameters
        for k, v in spec["params"].items():
            with guard("assigning {} of instance {}".format(k, changed)):
                setattr(lives[changed], k, sut.q(v))
    # from here on they go their own ways
    own = []
    for i, m in enumerate(lives):
        params = dict(spec["params"])
        if case["changes"][i] is not None:
            name, val = case["changes"][i]
            params[name] = val
            with guard("assigning {} of instance {}".format(name, i)):
                setattr(m, name, sut.q(val))
            ctx.label("copies changed")
        drv = case["drivers"][i] or case["driver"]
        with guard("setting drivers of instance {}".format(i)):
            m.set_drivers(sut.erf_quantity(drv))
            m.reset()
        own.append(({"model": kind, "params": params, "via": "ctor"}, drv))
    for i, m in reversed(list(enumerate(lives))):
        sp, drv = own[i]
        with guard("running instance {}".format(i)):
            m.run()
        want = sut.run(sp, drv)
        got = sut.outputs(m)
        oracles.same_bits(got, want, "instance {} after copying".format(i))
        oracles.steps(kind, sut.si_params(sp), sut.driver_values(drv)[1], got)
    for i, m in enumerate(lives):
        oracles.same_bits(sut.outputs(m), sut.run(*own[i]), "instance {} after the others ran".format(i))
        if case["axis"] is not None:
            ps, Fs, out = scen.single(own[i][0], own[i][1], case["axis"], m)
            oracles.steps(kind, ps, Fs, out)
    ctx.nontrivial(0 < first < n or case.get("siblings", False) or any(c is not None for c in case["changes"]))
    if 0 < first < n:
        ctx.label("copied in the middle")


# ---------------------------------------------------------------- threads


class Blocked(BaseException):
    """A thread waits for something another one holds while that one waits for its turn."""


class Turns:
    """Hands the turn from thread to thread after the scheduled number of points."""

    def __init__(self, count, turns):
        self.cond = threading.Condition()
        self.alive = [True] * count
        self.turns, self.at = turns, 0
        self.left = turns[0]
        self.who = 0
        self.switches = 0

    def _next(self):
        count = len(self.alive)
        for k in range(1, count + 1):
            i = (self.who + k) % count
            if self.alive[i]:
                if i != self.who:
                    self.switches += 1
                self.who = i
                break
        self.at += 1
        self.left = self.turns[self.at % len(self.turns)]
        self.cond.notify_all()

    def wait(self, me):
        with self.cond:
            while self.who != me:
                if not self.cond.wait(60):
                    raise Blocked

    def point(self, me):
        with self.cond:
            self.left -= 1
            if self.left > 0:
                return
            self._next()
        self.wait(me)

    def finish(self, me):
        with self.cond:
            self.alive[me] = False
            self._next()


def perform(task):
    """The task; returns its results as {name: array}."""
    spec = task["spec"]
    kind = spec["model"]
    model = sut.build(spec)
    what = task["task"]
    if what == "scenarios":
        out = scen.result_rows(model.run_scenarios(scen.scmrun(task["axis"], task["rows"]), progress=False))
        res = {}
        for i, row in enumerate(task["rows"]):
            for k, v in scen.series(kind, out, row["meta"]).items():
                res["{} of scenario {}".format(k, i)] = v
        return res
    res = {}
    if what == "convert":
        convertible = kind == "ir"
        if kind == "tl":
            p = sut.si_params(spec)
            convertible = p["a"] == 0 and min(p["lambda0"], p["eta"], p["efficacy"]) > 0
        if convertible:
            new = model.get_impulse_response_parameters() if kind == "tl" else model.get_two_layer_parameters()
            res = {k: np.array([v.to(units.DEFAULT[units.MODEL_KINDS["ir" if kind == "tl" else "tl"][k]]).magnitude], float) for k, v in new.items()}
    if what == "assign":
        for name, val in task["changes"]:
            setattr(model, name, sut.q(val))
    res.update(sut.run_erf(model, sut.erf_quantity(task["driver"])))
    return res


def threads(case, ctx):
    tasks = case["tasks"]
    alone = []
    for t in tasks:
        with guard("the task {} on its own".format(t["task"])):
            alone.append(perform(t))
    turns = Turns(len(tasks), case["turns"])
    got, failed = [None] * len(tasks), [None] * len(tasks)

    def body(i):
        try:
            turns.wait(i)
            sys.settrace(crash.Points(lambda frame: turns.point(i)).glob)
            try:
                got[i] = perform(tasks[i])
            finally:
                sys.settrace(None)
        except BaseException as exc:  # pylint: disable=broad-except
            failed[i] = exc
        finally:
            turns.finish(i)

    pool = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(tasks))]
    for t in pool:
        t.start()
    for t in pool:
        t.join(300)
    if any(isinstance(f, Blocked) for f in failed):
        ctx.label("blocked")
        return
    for i, t in enumerate(tasks):
        doing = "the task {} of thread {}".format(t["task"], i)
        if failed[i] is not None:
            if isinstance(failed[i], Violation):
                raise Violation("{}: {}".format(doing, failed[i]))
            raise Violation("{}: {!r}".format(doing, failed[i])) from failed[i]
        require(got[i] is not None, "{} did not finish", doing)
        oracles.same_bits(alone[i], got[i], doing + " next to others")
        ctx.label("thread " + t["task"])
        if t["task"] in ("run", "convert", "assign"):
            params = dict(t["spec"]["params"])
            if t["task"] == "assign":
                params.update({k: v for k, v in t["changes"]})
            kind = t["spec"]["model"]
            keep = {k: v for k, v in got[i].items() if k in sut.ATTRS[kind]}
            oracles.steps(kind, sut.si_params({"model": kind, "params": params}), sut.driver_values(t["driver"])[1], keep)
    ctx.nontrivial(turns.switches >= len(tasks))
    ctx.label("{} switches".format(min(turns.switches, 20) // 5 * 5))
