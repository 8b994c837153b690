"""Writes data/rcmip.npz from the results archived in the repository's tests (run by hand, once)."""
import json
import os

import numpy as np
import pandas as pd

from . import env

FILES = {
    "tl_default": "two-layer-output/test_twolayer_defaults.csv",
    "tl_efficacy": "two-layer-output/test_twolayer_plus_efficacy.csv",
    "tl_state": "two-layer-output/test_twolayer_plus_state_dependence.csv",
    "ir_default": "impulse-response-output/test_impulse_response_defaults.csv",
}
SHORT = {
    "Effective Radiative Forcing": "F", "Surface Temperature|Upper": "Tu", "Surface Temperature|Lower": "Tl",
    "Surface Temperature|Box 1": "T1", "Surface Temperature|Box 2": "T2", "Surface Temperature": "T", "Heat Uptake": "N",
}


def main():
    arrays, metas = {}, {}
    for name, path in FILES.items():
        df = pd.read_csv(os.path.join(env.REPO, "tests", "test-data", path))
        years = [int(c[:4]) for c in df.columns if c[:4].isdigit()]
        cols = [c for c in df.columns if c[:4].isdigit()]
        scens = sorted(df["scenario"].unique())
        meta = {}
        for s in scens:
            sub = df[df["scenario"] == s]
            for _, row in sub.iterrows():
                arrays["{}/{}/{}".format(name, s, SHORT[row["variable"]])] = row[cols].to_numpy(float)
                meta[s] = {k: row[k] for k in ("model", "scenario", "activity_id", "mip_era")}
                if row["variable"] == "Effective Radiative Forcing":
                    meta[s]["unit"] = row["unit"]
        metas[name] = {"years": [years[0], years[-1], len(years)], "scenarios": meta, "params": {
            c: float(df[c].iloc[0]) for c in df.columns if "(" in c}}
    arrays["meta"] = np.array(json.dumps(metas))
    np.savez_compressed(os.path.join(env.VERIF, "data", "rcmip.npz"), **arrays)
    print(json.dumps(metas, indent=1)[:6000])


if __name__ == "__main__":
    main()
