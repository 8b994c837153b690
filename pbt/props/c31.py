"""The same results in every process."""
import atexit
import json
import os
import subprocess
import sys
import tempfile

from .. import env, gens, jobs, scen, units
from ..core import HarnessError, require
from ..gens import st

RULE = (
    "up to 8 jobs (scenario batch with its complete labelled output in order, direct run, conversion, climate sensitivity, bad input) done in this "
    "process and, one after another, in one of several others that differ in hash seed, optimisation (-O, -OO), time zone, locale, working "
    "directory, random state and display options; outcomes compared as text (numbers as hexadecimal); non-trivial = a batch or direct run among them"
)
ASSUMPTIONS = ["same machine and library versions", "settings that change the meaning of inputs (such as the registry's unit formatting) are left alone"]
EXAMPLES = {"quick": 30, "thorough": 2500}

SURROUNDINGS = [
    {"hash": "1", "flags": ["-O"], "tz": "Asia/Kathmandu", "lang": "C", "random": 1, "options": False},
    {"hash": "2", "flags": [], "tz": "America/St_Johns", "lang": "POSIX", "random": 22, "options": True},
    {"hash": "31337", "flags": ["-OO"], "tz": "UTC", "lang": "C.UTF-8", "random": 333, "options": False},
    {"hash": "4001", "flags": ["-X", "utf8"], "tz": "Pacific/Kiritimati", "lang": "C.UTF-8", "random": 4444, "options": True},
]


@st.composite
def job(draw):
    what = draw(st.sampled_from(["scenarios", "scenarios", "scenarios", "direct", "convert", "ecs", "refuse", "refuse"]))
    if what == "scenarios":
        axis = draw(scen.axis(2, 8))
        return {
            "job": what, "spec": draw(gens.model_spec(wide=False)), "axis": axis, "rows": draw(scen.rows(axis["n"], 1, 5)),
            "package": draw(st.sampled_from(["scmrun", "frame", "columns"])),
        }
    if what == "direct":
        spec = draw(gens.model_spec(wide=False, a="zero"))
        return {"job": what, "spec": spec, "driver": draw(gens.driver(max_len=30, long_odds=30, long_len=200))}
    if what == "convert":
        return {"job": what, "spec": draw(gens.model_spec(wide=False, a="zero"))}
    if what == "ecs":
        return {
            "job": what, "lambda": draw(gens.quantity("feedback", gens.signed(1e-3, 1e3, zero=False))),
            "f2x": draw(st.one_of(st.none(), gens.quantity("flux", gens.magnitude(1e-2, 1e2)))),
        }
    return {"job": what, "bad": draw(st.sampled_from(sorted(jobs.REFUSED))), "kind": draw(st.sampled_from(["tl", "ir"]))}


def strategy(tier):
    return st.fixed_dictionaries({"where": st.sampled_from(range(len(SURROUNDINGS))), "jobs": st.lists(job(), min_size=1, max_size=8)})


class Worker:
    def __init__(self, where):
        self.folder = tempfile.mkdtemp(prefix="pbt-c31-", dir=os.environ.get("PBT_SCRATCH"))
        self.log = open(os.path.join(self.folder, "log"), "wb")
        surroundings = dict(os.environ)
        for k in list(surroundings):
            if k.startswith("LC_") or k in ("LANGUAGE", "PYTHONOPTIMIZE"):
                del surroundings[k]
        surroundings.update(
            PYTHONHASHSEED=where["hash"], TZ=where["tz"], LANG=where["lang"], LC_ALL=where["lang"], PYTHONPATH=env.VERIF, PBT_REPO=env.REPO,
        )
        self.proc = subprocess.Popen(
            [sys.executable, "-B"] + where["flags"] + ["-m", "pbt.jobs"], cwd=self.folder, env=surroundings,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log,
        )
        self.send({"random": where["random"], "options": where["options"]})

    def send(self, obj):
        try:
            self.proc.stdin.write(json.dumps(obj).encode() + b"\n")
            self.proc.stdin.flush()
        except OSError as exc:
            self.fail(exc)

    def ask(self, obj):
        self.send(obj)
        line = self.proc.stdout.readline()
        if not line:
            self.fail("no answer")
        return json.loads(line)

    def fail(self, why):
        self.log.flush()
        with open(os.path.join(self.folder, "log"), errors="replace") as fh:
            tail = fh.read()[-1500:]
        raise HarnessError("worker process: {}\n{}".format(why, tail))

    def close(self):
        self.proc.stdin.close()
        self.proc.kill()
        self.proc.wait()
        self.log.close()


WORKERS = {}


def worker(index):
    key = (os.getpid(), index)
    if key not in WORKERS:
        WORKERS[key] = Worker(SURROUNDINGS[index])
    return WORKERS[key]


def close_all():
    for (pid, _), w in list(WORKERS.items()):
        if pid == os.getpid():
            w.close()
            del WORKERS[(pid, _)]


atexit.register(close_all)


def check(case, ctx):
    where = SURROUNDINGS[case["where"]]
    other = worker(case["where"])
    ctx.label("hash seed {}, {}, {}".format(where["hash"], " ".join(where["flags"]) or "no flags", where["tz"]))
    for j in case["jobs"]:
        ctx.label(j["job"] if j["job"] != "refuse" else "refuse " + j["bad"])
        here = json.loads(json.dumps(jobs.outcome(j)))
        there = other.ask(j)
        doing = "{} in a process with {}".format(j["job"] if j["job"] != "refuse" else "refusing " + j["bad"], where)
        require(
            ("raised" in here) == ("raised" in there), "{}: {} there and {} here", doing, there.get("raised", "a result"), here.get("raised", "a result")
        )
        if j["job"] == "refuse":
            for side, got in (("here", here), ("there", there)):
                name = got.get("raised")
                require(name is not None and jobs.REFUSED[j["bad"]] in ("", name), "{}: {} {}", doing, name or "accepted", side)
            continue
        if "raised" in here:
            continue
        difference = first_difference(here["result"], there["result"])
        require(difference is None, "{}: {}", doing, difference)
        ctx.nontrivial(j["job"] in ("scenarios", "direct"))


def number(x):
    """The number this text stands for, or None."""
    if isinstance(x, str) and (x in ("nan", "inf", "-inf") or x.lstrip("-").startswith("0x")):
        return float.fromhex(x)
    return None


def first_difference(here, there, path=""):
    """None, or what differs: text exactly, series of numbers up to rounding (pint sums up units in the order of their hashes)."""
    if here == there:
        return None
    message = "{}: {!r} here, {!r} there".format(path, here, there)[:600]
    if type(here) is not type(there):
        return message
    if isinstance(here, str):
        return series_difference([number(here)], [number(there)], path, message)
    if isinstance(here, dict):
        if list(here) != list(there):
            return message
        parts = [(k, here[k], there[k]) for k in here]
    elif isinstance(here, list):
        if len(here) != len(there):
            return message
        a, b = [number(x) for x in here], [number(x) for x in there]
        if None not in a and None not in b:
            return series_difference(a, b, path, message)
        parts = [(i, x, y) for i, (x, y) in enumerate(zip(here, there))]
    else:
        return message
    for k, x, y in parts:
        found = first_difference(x, y, "{}/{}".format(path, k))
        if found is not None:
            return found
    return None


def series_difference(a, b, path, message):
    top = 0.0
    for i, (x, y) in enumerate(zip(a, b)):
        if x is None or y is None:
            return message
        if x != x and y != y:
            continue
        if not abs(x) < 1e50 or not abs(y) < 1e50:
            # what follows depends on rounding
            return None if abs(x) > 1e49 and abs(y) > 1e49 else "{}/{}: {!r} here, {!r} there".format(path, i, x, y)
        top = max(top, abs(x), abs(y))
        if not abs(x - y) <= 1e-9 * top:
            return "{}/{}: {!r} here, {!r} there".format(path, i, x, y)
    return None
