"""Adapter to the code under test."""
import numpy as np

from . import env, gens, units
from .core import HarnessError, sut
from .env import ImpulseResponseModel, TwoLayerModel, ur

CLASSES = {"tl": TwoLayerModel, "ir": ImpulseResponseModel}
ATTRS = {
    "tl": {"Tu": "_temp_upper_mag", "Tl": "_temp_lower_mag", "N": "_rndt_mag"},
    "ir": {"T1": "_temp1_mag", "T2": "_temp2_mag", "N": "_rndt_mag"},
}
SCEN_VARS = {
    "tl": {
        "Tu": "Surface Temperature|Upper",
        "Tl": "Surface Temperature|Lower",
        "N": "Heat Uptake",
    },
    "ir": {
        "T1": "Surface Temperature|Box 1",
        "T2": "Surface Temperature|Box 2",
        "T": "Surface Temperature",
        "N": "Heat Uptake",
    },
}
OUT_UNITS = {
    "Tu": "delta_degC", "Tl": "delta_degC", "T1": "delta_degC", "T2": "delta_degC",
    "T": "delta_degC", "N": "W/m^2",
}
NAMES = {"tl": "two_layer", "ir": "two_timescale_impulse_response"}
SAVED = {
    "tl": ("du", "dl", "lambda0", "a", "efficacy", "eta"),
    "ir": ("d1", "d2", "q1", "q2", "efficacy"),
}


_SAME = {}


def same_object(mag):
    """One and the same Python object for equal numbers, as a user's variable would be."""
    if len(_SAME) > 4096:
        _SAME.clear()
    return _SAME.setdefault((type(mag), repr(mag)), mag)


def q(spec):
    """[magnitude, unit] -> pint quantity; lists become float arrays."""
    mag, unit = spec
    if isinstance(mag, list):
        mag = np.array(mag, dtype=float)
    elif type(mag) in (int, float):
        mag = same_object(mag)
    return ur.Quantity(mag, unit)


def build(spec, doing="constructing the model"):
    cls = CLASSES[spec["model"]]
    with sut(doing):
        if spec.get("via", "ctor") == "ctor":
            return cls(**{k: q(v) for k, v in spec["params"].items()})
        model = cls()
        for k, v in spec["params"].items():
            setattr(model, k, q(v))
        return model


def driver_values(drv):
    """Magnitudes of the driver in its unit, and the exact-ish W/m^2 values they stand for."""
    vals = gens.expand(drv["forcing"])
    unit = drv["unit"]
    fac = units.FLUX[unit]
    if fac == 1:
        mags = [float(v) for v in vals]
        return mags, mags
    f = float(fac)
    if drv["forcing"].get("own"):
        # the values are numbers in the row's own unit
        mags = [float(v) for v in vals]
    else:
        mags = [float(v) / f for v in vals]
    return mags, [float(units.Fr(m) * fac) for m in mags]


def erf_quantity(drv):
    mags, _ = driver_values(drv)
    return ur.Quantity(np.array(mags, dtype=float), drv["unit"])


def outputs(model):
    kind = "tl" if isinstance(model, TwoLayerModel) else "ir"
    out = {}
    for k, attr in ATTRS[kind].items():
        if not hasattr(model, attr):
            raise HarnessError("the adapter needs attribute {}".format(attr))
        out[k] = np.array(getattr(model, attr), dtype=float)
    return out


def run_erf(model, erf, steps=False, doing="running the model", attribute=False):
    """set_drivers, reset, run (or that many steps); returns copies of the outputs."""
    with sut(doing):
        if attribute:
            model.erf = erf
        else:
            model.set_drivers(erf)
        model.reset()
        if steps:
            for _ in range(erf.shape[0]):
                model.step()
        else:
            model.run()
        return outputs(model)


def run(spec, drv, steps=False, model=None):
    model = build(spec) if model is None else model
    return run_erf(model, erf_quantity(drv), steps=steps)


def values(mags, model_spec, steps=False):
    """Run the spec with plain W/m^2 values."""
    model = build(model_spec)
    return run_erf(model, ur.Quantity(np.array(mags, dtype=float), "W/m^2"), steps=steps)


def si_params(spec):
    """SI floats of the parameters of a model spec."""
    kinds = units.MODEL_KINDS[spec["model"]]
    return {k: units.si(kinds[k], *v) for k, v in spec["params"].items()}


def keeps_timescales_apart(params, name, value):
    """Assigning this to an impulse-response model leaves d1 clearly below d2."""
    new = dict(params)
    new[name] = value
    if "d1" not in new:
        return True
    return units.si_exact("time", *new["d1"]) * units.Fr(1001, 1000) < units.si_exact("time", *new["d2"])
