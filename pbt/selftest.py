"""Set-up step: check that the tools are there and that the harness's own tables are right."""
import sys

from . import dictionary, env, ref, units

import hypothesis
import mpmath

BASE = {
    "time": "s", "depth": "m", "flux": "W/m^2", "temp": "delta_degC", "none": "dimensionless",
    "feedback": "W/m^2/delta_degC", "feedback2": "W/m^2/delta_degC^2",
    "gain": "delta_degC/(W/m^2)",
}


def main():
    for kind, table in units.KINDS.items():
        for unit, factor in table.items():
            got = env.ur.Quantity(1.0, unit).to(BASE[kind]).magnitude
            if abs(got - float(factor)) > 1e-12 * float(factor):
                raise SystemExit("unit table: {} is {} not {}".format(unit, got, float(factor)))
    # the two conversions of the reference are inverses of each other
    p = {"q1": 0.33, "q2": 0.41, "d1": 9 * ref.YEAR, "d2": 400 * ref.YEAR, "efficacy": 1.3}
    eq = ref.ir_to_tl(p)
    back = ref.tl_to_ir(eq["lambda0"], eq["C"], eq["CD"], eq["efficacy"], eq["eta"])
    for k in ("q1", "q2", "d1", "d2"):
        if abs(float(back[k]) - p[k]) > 1e-12 * p[k]:
            raise SystemExit("reference conversions disagree in " + k)
    print("python", sys.version.split()[0], "hypothesis", hypothesis.__version__, "mpmath", mpmath.__version__)
    print("code under test:", env.openscm_twolayermodel.__file__)
    print("dictionary:", len(dictionary.NUMBERS), "numbers,", len(dictionary.STRINGS), "strings")


if __name__ == "__main__":
    main()
