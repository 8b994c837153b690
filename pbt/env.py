"""Process set-up: find the third-party tools, import the code under test from /repo/src."""
import logging
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# PBT_REPO is for development only (trying planted bugs in a scratch copy)
REPO = os.environ.get("PBT_REPO", "/repo")
SRC = os.path.join(REPO, "src")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(var, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

if TOOLS not in sys.path:
    sys.path.append(TOOLS)
sys.path.insert(0, SRC)

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

import numpy as np  # noqa: E402

np.seterr(all="ignore")

import pandas as pd  # noqa: E402,F401
import openscm_twolayermodel  # noqa: E402
import openscm_twolayermodel.base  # noqa: E402
import openscm_twolayermodel.errors  # noqa: E402
import openscm_twolayermodel.utils  # noqa: E402
from openscm_units import unit_registry as ur  # noqa: E402
from scmdata.run import ScmRun, run_append  # noqa: E402,F401

warnings.simplefilter("ignore")

if not os.path.realpath(openscm_twolayermodel.__file__).startswith(
    os.path.realpath(SRC) + os.sep
):
    raise RuntimeError(
        "openscm_twolayermodel imported from {} instead of {}".format(
            openscm_twolayermodel.__file__, SRC
        )
    )

TwoLayerModel = openscm_twolayermodel.TwoLayerModel
ImpulseResponseModel = openscm_twolayermodel.ImpulseResponseModel
UnitError = openscm_twolayermodel.errors.UnitError
ModelStateError = openscm_twolayermodel.errors.ModelStateError
TwoLayerVariant = openscm_twolayermodel.base.TwoLayerVariant
Model = openscm_twolayermodel.base.Model
convert_lambda_to_ecs = openscm_twolayermodel.utils.convert_lambda_to_ecs
