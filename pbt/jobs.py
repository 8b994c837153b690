"""Small pieces of work with the library whose complete outcome is plain text (for comparing processes).

As a program: reads one job per line (JSON), writes one outcome per line.
"""
import json
import sys

from . import scen, sut
from .env import ScmRun, convert_lambda_to_ecs, ur


def _hex(x):
    return float(x).hex()


def _label(x):
    return [type(x).__name__, str(x)] if isinstance(x, str) else ["number", _hex(x)]


def _quantity(q):
    return [_hex(q.magnitude), str(q.units)]


def scenarios(job):
    model = sut.build(job["spec"])
    df = scen.frame(job["axis"], job["rows"])
    data = {"scmrun": ScmRun, "frame": lambda d: d, "columns": lambda d: d.reset_index()}[job["package"]](df)
    ts = model.run_scenarios(data, progress=False).timeseries()
    return {
        "columns": [str(t) for t in ts.columns],
        "names": list(ts.index.names),
        "labels": [[_label(v) for v in label] for label in ts.index],
        "values": [[_hex(v) for v in row] for row in ts.values],
        "step": _quantity(model.delta_t),
    }


def direct(job):
    out = sut.run(job["spec"], job["driver"])
    return {k: [_hex(v) for v in arr] for k, arr in sorted(out.items())}


def convert(job):
    model = sut.build(job["spec"])
    func = model.get_impulse_response_parameters if job["spec"]["model"] == "tl" else model.get_two_layer_parameters
    return [[k, _quantity(v.to_base_units())] for k, v in func().items()]


def ecs(job):
    lam = ur.Quantity(*job["lambda"])
    out = convert_lambda_to_ecs(lam) if job["f2x"] is None else convert_lambda_to_ecs(lam, f2x=ur.Quantity(*job["f2x"]))
    return _quantity(out.to("delta_degC"))


def refuse(job):
    """Whatever is wrong has to be refused."""
    what, kind = job["bad"], job["kind"]
    cls = sut.CLASSES[kind]
    model = cls()
    row = {"meta": {"model": "m", "scenario": "s"}, "unit": "W/m^2", "forcing": {"values": [1.0, 2.0, 3.0]}, "lead": 0, "trail": 0}
    axis = {"kind": "yearly", "year": 2000, "n": 3}
    if what == "number":
        cls(efficacy=1.3)
    elif what == "unit":
        model.delta_t = ur.Quantity(1.0, "m")
    elif what == "2d drivers":
        model.set_drivers(ur.Quantity([[1.0, 2.0], [3.0, 4.0]], "W/m^2"))
    elif what == "0d drivers":
        model.set_drivers(ur.Quantity(1.0, "W/m^2"))
    elif what == "driver unit":
        model.set_drivers(ur.Quantity([1.0, 2.0], "kg"))
    elif what == "no drivers":
        model.reset()
    elif what == "nan drivers":
        model.set_drivers(ur.Quantity([1.0, float("nan")], "W/m^2"))
        model.reset()
    elif what == "a":
        sut.CLASSES["tl"](a=ur.Quantity(0.01, "W/m^2/K^2")).get_impulse_response_parameters()
    elif what == "timescales":
        sut.CLASSES["ir"](d1=ur.Quantity(10, "yr"), d2=ur.Quantity(10, "yr"))
    elif what == "lambda":
        convert_lambda_to_ecs(-1.2)
    elif what == "region":
        model.run_scenarios(scen.scmrun(axis, [row], region="World|Land"), progress=False)
    elif what == "axis":
        bad = {"kind": "explicit", "times": [[2000, 1, 1], [2002, 1, 1], [2004, 1, 1]], "n": 3}
        model.run_scenarios(scen.scmrun(bad, [row]), progress=False)
    return "accepted"


REFUSED = {
    "number": "TypeError", "unit": "UnitError", "2d drivers": "AssertionError", "0d drivers": "", "driver unit": "UnitError",
    "no drivers": "ModelStateError", "nan drivers": "ModelStateError", "a": "ValueError", "timescales": "ValueError", "lambda": "TypeError",
    "region": "ValueError", "axis": "NotImplementedError",
}


def outcome(job):
    try:
        return {"result": globals()[job["job"]](job)}
    except Exception as exc:  # pylint: disable=broad-except
        return {"raised": type(exc).__name__}


def main():
    import locale
    import random

    import numpy as np

    try:
        locale.setlocale(locale.LC_ALL, "")
    except locale.Error:
        pass
    out = sys.stdout
    sys.stdout = sys.stderr
    first = json.loads(sys.stdin.readline())
    random.seed(first["random"])
    np.random.seed(first["random"])
    if first["options"]:
        import pandas as pd

        np.set_printoptions(precision=2, threshold=3)
        pd.set_option("display.precision", 2, "display.max_rows", 2, "display.max_columns", 2)
    for line in sys.stdin:
        out.write(json.dumps(outcome(json.loads(line))) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
