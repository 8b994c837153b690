"""Unit factors written down independently of pint (checked against it in the self test)."""
from fractions import Fraction as Fr

TIME = {
    "s": Fr(1),
    "minute": Fr(60),
    "hour": Fr(3600),
    "day": Fr(86400),
    "week": Fr(604800),
    "month": Fr(2629800),
    "yr": Fr(31557600),
    "year": Fr(31557600),
    "century": Fr(3155760000),
    "ms": Fr(1, 1000),
}
DEPTH = {
    "m": Fr(1),
    "km": Fr(1000),
    "cm": Fr(1, 100),
    "mm": Fr(1, 1000),
    "foot": Fr(3048, 10000),
    "inch": Fr(254, 10000),
}
FLUX = {
    "W/m^2": Fr(1),
    "mW/m^2": Fr(1, 1000),
    "kW/m^2": Fr(1000),
    "W/cm^2": Fr(10000),
    "J/s/m^2": Fr(1),
    "MW/km^2": Fr(1),
    "W/km^2": Fr(1, 1000000),
    "J/day/m^2": Fr(1, 86400),
}
TEMP = {
    "delta_degC": Fr(1),
    "K": Fr(1),
    "mK": Fr(1, 1000),
    "delta_degF": Fr(5, 9),
}
NONE = {
    "dimensionless": Fr(1),
    "cm/m": Fr(1, 100),
    "g/kg": Fr(1, 1000),
    "km/m": Fr(1000),
}


def _feedback(power):
    suffix = "" if power == 1 else "^{}".format(power)
    return {
        "{}/{}{}".format(f, t, suffix): ff / tf ** power
        for f, ff in FLUX.items()
        for t, tf in TEMP.items()
    }


def _gain():
    out = {
        "{}/({})".format(t, f): tf / ff for f, ff in FLUX.items() for t, tf in TEMP.items()
    }
    out["K*m^2/W"] = Fr(1)
    out["delta_degC m^2/kW"] = Fr(1, 1000)
    return out


KINDS = {
    "time": TIME,
    "depth": DEPTH,
    "flux": FLUX,
    "temp": TEMP,
    "none": NONE,
    "feedback": _feedback(1),
    "feedback2": _feedback(2),
    "gain": _gain(),
}
DEFAULT = {
    "time": "s",
    "depth": "m",
    "flux": "W/m^2",
    "temp": "delta_degC",
    "none": "dimensionless",
    "feedback": "W/m^2/delta_degC",
    "feedback2": "W/m^2/delta_degC^2",
    "gain": "delta_degC/(W/m^2)",
}

TL_KINDS = {
    "du": "depth",
    "dl": "depth",
    "lambda0": "feedback",
    "a": "feedback2",
    "efficacy": "none",
    "eta": "feedback",
    "delta_t": "time",
}
IR_KINDS = {
    "q1": "gain",
    "q2": "gain",
    "d1": "time",
    "d2": "time",
    "efficacy": "none",
    "delta_t": "time",
}
MODEL_KINDS = {"tl": TL_KINDS, "ir": IR_KINDS}
FACTOR = {u: f for table in KINDS.values() for u, f in table.items()}


def factor(kind, unit):
    return KINDS[kind][unit]


def si_exact(kind, mag, unit):
    """The exact value in SI base units of a float (or int) magnitude."""
    return Fr(mag) * KINDS[kind][unit]


def si(kind, mag, unit):
    return float(si_exact(kind, mag, unit))
