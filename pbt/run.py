"""Run one property's check: ``python -m pbt.run C01 [--tier quick|thorough] [--replay FILE]``.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself failed.
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import core, env

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, seed, settings  # noqa: E402

SHARDS = 8
MAX_SAMPLE_CHARS = 1500


FORM = (ArithmeticError, AttributeError, LookupError, TypeError, ValueError)


def load(prop_id):
    return importlib.import_module("pbt.props." + prop_id.lower())


def derive_seed(base, prop_id, shard):
    text = "{}/{}/{}".format(base, prop_id, shard)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:6], "big")


def run_case(mod, case):
    """Run one case; returns (ctx, violation message or None)."""
    ctx = core.Ctx()
    try:
        mod.check(case, ctx)
    except core.Violation as exc:
        return ctx, str(exc)
    except FORM as exc:
        # calls of the code under test are guarded one by one, so this is a
        # result the oracle cannot even read: wrong shape, type, labels
        tail = traceback.format_exc().strip().splitlines()[-4:]
        return ctx, "result of an unexpected form: {}: {}\n{}".format(type(exc).__name__, str(exc)[:300], "\n".join(tail))
    return ctx, None


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.distinct = set()
        self.labels = collections.Counter()
        self.maxima = {}
        self.samples = []
        self.history = []
        self.first = None
        self.best = None
        self.last = None

    def record(self, case, ctx, message):
        text = core.canonical(case)
        key = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
        self.evaluations += 1
        for k, v in ctx.maxima.items():
            if v > self.maxima.get(k, -1.0):
                self.maxima[k] = v
        if key not in self.distinct:
            self.distinct.add(key)
            self.labels.update(ctx.labels)
            if ctx.is_nontrivial:
                self.nontrivial.add(key)
                n = len(self.nontrivial)
                if n in (1, 10, 60, 300) and len(text) < MAX_SAMPLE_CHARS:
                    self.samples.append(case)
        if message is None:
            if self.first is None:
                self.history.append(text)
            return
        if self.first is None:
            self.first = (text, message)
            self.best = (text, message)
        if len(text) <= len(self.best[0]):
            self.best = (text, message)
        self.last = (text, message)


def shrink_directed(case, keys, fails, seconds=20):
    """Greedily drop elements of the case's lists `keys` while it still fails."""
    stop = time.monotonic() + seconds
    for key in keys:
        chunk = max(1, len(case[key]) // 2)
        while chunk:
            i = 0
            while i < len(case[key]) and time.monotonic() < stop:
                trial = dict(case)
                trial[key] = case[key][:i] + case[key][i + chunk :]
                if fails(trial):
                    case = trial
                else:
                    i += chunk
            chunk //= 2
    return case


def shard_main(mod, prop_id, tier, base_seed, shard, shards, examples, budget, out):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    stats = Stats()
    error = None
    stop = time.monotonic() + budget

    def one(case):
        ctx, message = run_case(mod, case)
        stats.record(case, ctx, message)
        if message is not None:
            raise core.Violation(message)

    try:
        directed = list(getattr(mod, "DIRECTED", []))
        for i, case in enumerate(directed):
            if i % shards == shard and stats.first is None:
                try:
                    one(case)
                except core.Violation:
                    small = shrink_directed(
                        case, getattr(mod, "SHRINK", ()), lambda c: run_case(mod, c)[1] is not None
                    )
                    message = run_case(mod, small)[1]
                    if message is not None:
                        stats.record(small, core.Ctx(), message)

        if stats.first is None and examples:
            from hypothesis.internal.conjecture import engine

            if hasattr(engine, "MAX_SHRINKING_SECONDS"):
                engine.MAX_SHRINKING_SECONDS = 40

            @seed(derive_seed(base_seed, prop_id, shard))
            @settings(
                max_examples=examples,
                database=None,
                deadline=None,
                report_multiple_bugs=False,
                phases=[Phase.generate, Phase.shrink],
                print_blob=False,
                suppress_health_check=[
                    HealthCheck.too_slow,
                    HealthCheck.data_too_large,
                    HealthCheck.large_base_example,
                ],
            )
            @given(mod.strategy(tier))
            def test(case):
                if time.monotonic() > stop and stats.first is None:
                    return
                one(case)

            try:
                test()
            except Exception:  # pylint: disable=broad-except
                # with a recorded violation this is hypothesis reporting it (or
                # reporting that it is not reproducible on its own)
                if stats.first is None:
                    raise
    except Exception:  # pylint: disable=broad-except
        error = traceback.format_exc()
    failures = []
    for cand in (stats.best, stats.last, stats.first):
        if cand is not None and cand not in failures:
            failures.append(cand)
    with open(out, "w") as fh:
        json.dump(
            {
                "evaluations": stats.evaluations,
                "distinct": sorted(stats.distinct),
                "nontrivial": sorted(stats.nontrivial),
                "labels": stats.labels,
                "maxima": stats.maxima,
                "samples": stats.samples,
                "failures": failures,
                "history": stats.history if failures else [],
                "error": error,
            },
            fh,
        )


MP = multiprocessing.get_context("fork")


def _sequence_child(mod, cases, out):
    res = {"index": None, "message": None, "error": None}
    try:
        for i, case in enumerate(cases):
            _, message = run_case(mod, case)
            if message is not None:
                res = {"index": i, "message": message, "error": None}
                break
    except Exception:  # pylint: disable=broad-except
        res["error"] = traceback.format_exc()
    with open(out, "w") as fh:
        json.dump(res, fh)


def run_sequence(mod, cases, timeout=300):
    """Run the cases one after another in a fresh process."""
    tmp = tempfile.mkdtemp(prefix="pbt-seq-")
    try:
        out = os.path.join(tmp, "out.json")
        proc = MP.Process(target=_sequence_child, args=(mod, cases, out))
        proc.start()
        proc.join(timeout)
        if proc.is_alive():
            proc.kill()
            proc.join()
            return {"index": None, "message": None, "error": "timeout"}
        if not os.path.exists(out):
            return {"index": None, "message": None, "error": "process died"}
        with open(out) as fh:
            return json.load(fh)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def minimise_history(mod, history, last, budget=90):
    """Smallest sub-history (by delta debugging) after which `last` still fails."""
    stop = time.monotonic() + budget

    def fails(prefix):
        res = run_sequence(mod, prefix + [last], timeout=max(5, budget))
        return res["message"] is not None and res["index"] == len(prefix)

    if not fails(history):
        return None
    current = history
    chunk = max(1, len(current) // 2)
    while current and time.monotonic() < stop:
        shrunk = False
        start = 0
        while start < len(current) and time.monotonic() < stop:
            trial = current[:start] + current[start + chunk :]
            if fails(trial):
                current = trial
                shrunk = True
            else:
                start += chunk
        if not shrunk:
            if chunk == 1:
                break
            chunk = max(1, chunk // 2)
    return current


def known_findings():
    found = []
    path = os.path.join(env.VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("known: property="):
                    rest = line[len("known: property=") :]
                    pid, key, text = (rest.split(" ", 2) + ["", ""])[:3]
                    found.append((pid, key, text))
    return found


def write_replay(prop_id, base_seed, tier, cases, message, note):
    folder = os.path.join(env.VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, "{}-{}.json".format(prop_id, core.digest(cases)))
    with open(path, "w") as fh:
        json.dump(
            {
                "property": prop_id,
                "seed": base_seed,
                "tier": tier,
                "cases": cases,
                "message": message,
                "note": note,
            },
            fh,
            indent=1,
        )
        fh.write("\n")
    return path


def replay(mod, prop_id, path):
    with open(path) as fh:
        data = json.load(fh)
    res = run_sequence(mod, data["cases"], timeout=800)
    if res["error"]:
        print(res["error"])
        return 2
    if res["message"] is None:
        print("replay of {}: property {} holds".format(path, prop_id))
        return 0
    print("case {}: {}".format(res["index"], res["message"]))
    print("VIOLATION property={} replay={}".format(prop_id, path))
    return 1


def report(mod, prop_id, base_seed, tier, candidates, histories):
    """Confirm a failure in a fresh process, write its replay, print the line."""
    for text, message in candidates:
        res = run_sequence(mod, [json.loads(text)])
        if res["message"] is not None:
            path = write_replay(
                prop_id, base_seed, tier, [json.loads(text)], res["message"], "single case"
            )
            print(res["message"])
            print("VIOLATION property={} replay={}".format(prop_id, path))
            return
    # only fails after other cases: state leaks between uses of the library
    for history, (text, message) in histories:
        hist = minimise_history(
            mod, [json.loads(t) for t in history], json.loads(text)
        )
        if hist is not None:
            cases = hist + [json.loads(text)]
            path = write_replay(
                prop_id, base_seed, tier, cases, message, "fails only after the earlier cases"
            )
            print(message)
            print("VIOLATION property={} replay={}".format(prop_id, path))
            return
    text, message = candidates[0]
    path = write_replay(
        prop_id, base_seed, tier, [json.loads(text)], message,
        "seen once, not reproduced in a fresh process",
    )
    print(message)
    print("VIOLATION property={} replay={}".format(prop_id, path))


def main(argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument("prop")
    parser.add_argument("--tier", choices=["quick", "thorough"])
    parser.add_argument("--replay")
    parser.add_argument("--examples", type=int, help="per shard (development)")
    parser.add_argument("--shards", type=int, default=SHARDS)
    parser.add_argument("--no-evidence", action="store_true")
    args = parser.parse_args(argv)

    prop_id = args.prop.upper()
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    base_seed = int(os.environ.get("VERIF_SEED", "1"))
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-B", "-m", "pbt.run"] + (argv or sys.argv[1:]))

    start = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="pbt-{}-".format(prop_id))
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hypothesis")
    os.environ["PBT_SCRATCH"] = scratch
    from hypothesis.configuration import set_hypothesis_home_dir

    set_hypothesis_home_dir(os.path.join(scratch, "hypothesis"))
    try:
        mod = load(prop_id)
        if args.replay:
            return replay(mod, prop_id, args.replay)
        examples = mod.EXAMPLES[tier] if args.examples is None else args.examples
        budget = 240 if tier == "quick" else 3000
        limit = 700 if tier == "quick" else 7200

        procs = []
        for shard in range(args.shards):
            out = os.path.join(scratch, "shard-{}.json".format(shard))
            proc = MP.Process(
                target=shard_main,
                args=(mod, prop_id, tier, base_seed, shard, args.shards, examples, budget, out),
            )
            proc.start()
            procs.append((proc, out))
        results, errors = [], []
        for proc, out in procs:
            proc.join(max(1, limit - (time.monotonic() - start)))
            if proc.is_alive():
                proc.kill()
                proc.join()
                errors.append("shard timed out")
            elif not os.path.exists(out):
                errors.append("shard died with exit code {}".format(proc.exitcode))
            else:
                with open(out) as fh:
                    results.append(json.load(fh))
        errors += [r["error"] for r in results if r["error"]]
        failed = [r for r in results if r["failures"]]
        if failed:
            candidates = [tuple(c) for r in failed for c in r["failures"][:1]]
            candidates.sort(key=lambda c: (len(c[0]), c[0]))
            candidates = candidates[:3] + [
                tuple(c) for r in failed[:2] for c in r["failures"][1:]
            ]
            histories = [(r["history"], r["failures"][-1]) for r in failed[:2]]
            report(mod, prop_id, base_seed, tier, candidates, histories)
        for pid, key, text in known_findings():
            if pid == prop_id:
                print("KNOWN-FINDING: property={} {} {}".format(pid, key, text))

        distinct, nontrivial = set(), set()
        labels, maxima, samples = collections.Counter(), {}, []
        for r in results:
            distinct.update(r["distinct"])
            nontrivial.update(r["nontrivial"])
            labels.update(r["labels"])
            samples.extend(r["samples"])
            for k, v in r["maxima"].items():
                maxima[k] = max(v, maxima.get(k, -1.0))
        evaluations = sum(r["evaluations"] for r in results)
        wall = time.monotonic() - start
        evidence = {
            "property": prop_id,
            "tier": tier,
            "seed": base_seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_cases": len(distinct),
                "distinct_nontrivial": len(nontrivial),
                "rule": mod.RULE,
                "labels": dict(sorted(labels.items())),
                "largest_error_over_tolerance": {
                    k: float("%.3g" % v) for k, v in sorted(maxima.items())
                },
                "samples": samples[:6],
            },
            "assumptions": mod.ASSUMPTIONS,
            "wall_s": round(wall, 2),
            "violations": 1 if failed else 0,
        }
        if not args.no_evidence:
            folder = os.path.join(env.VERIF, "evidence")
            os.makedirs(folder, exist_ok=True)
            with open(os.path.join(folder, prop_id + ".json"), "w") as fh:
                json.dump(evidence, fh, indent=1)
                fh.write("\n")
        print(
            "{} {} seed={} evaluations={} nontrivial={} wall={:.1f}s {}".format(
                prop_id, tier, base_seed, evaluations, len(nontrivial), wall,
                json.dumps(evidence["coverage"]["largest_error_over_tolerance"]),
            )
        )
        if failed:
            return 1
        if errors:
            print("\n".join(errors))
            print("check error: {} shard(s) failed".format(len(errors)))
            return 2
        if evaluations == 0 or not nontrivial:
            print("check error: nothing non-trivial was explored")
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
