"""Independent reference implementations (own constants, own unit table)."""
import functools
import math

import mpmath
import numpy as np

RHO_CP = 1000.0 * 4181.0
YEAR = 31557600.0
# values beyond this are not compared: how far an overflow reaches depends on the order of the operations
BIG = 1e100


# ---------------------------------------------------------------- two-layer model


def tl_predict(p, F, Tu, Tl):
    """Next-step temperatures from each state, with the sum of absolute terms."""
    C, CD = p["du"] * RHO_CP, p["dl"] * RHO_CP
    dt, lam, a, eff, eta = p["delta_t"], p["lambda0"], p["a"], p["efficacy"], p["eta"]
    feedback = (lam - a * Tu) * Tu
    upper = Tu + dt * ((F - feedback - eff * eta * (Tu - Tl)) / C)
    lower = Tl + dt * (eta * (Tu - Tl) / CD)
    s_up = np.abs(Tu) + dt / C * (
        np.abs(F)
        + abs(lam) * np.abs(Tu)
        + abs(a) * Tu * Tu
        + abs(eff * eta) * (np.abs(Tu) + np.abs(Tl))
    )
    s_lo = np.abs(Tl) + dt / CD * abs(eta) * (np.abs(Tu) + np.abs(Tl))
    return upper, lower, s_up, s_lo


def tl_rndt(p, Tu, Tl):
    """Rate of change of heat content over each step."""
    C, CD = p["du"] * RHO_CP, p["dl"] * RHO_CP
    dt = p["delta_t"]
    up = C * (Tu[1:] - Tu[:-1]) / dt
    lo = CD * (Tl[1:] - Tl[:-1]) / dt
    scale = C / dt * (np.abs(Tu[1:]) + np.abs(Tu[:-1])) + CD / dt * (
        np.abs(Tl[1:]) + np.abs(Tl[:-1])
    )
    return up + lo, scale


def tl_run(p, F):
    """Whole two-layer trajectory."""
    n = len(F)
    Tu, Tl = np.zeros(n), np.zeros(n)
    C, CD = p["du"] * RHO_CP, p["dl"] * RHO_CP
    dt, lam, a, eff, eta = p["delta_t"], p["lambda0"], p["a"], p["efficacy"], p["eta"]
    for i in range(1, n):
        u, w = Tu[i - 1], Tl[i - 1]
        Tu[i] = u + dt * ((F[i - 1] - (lam - a * u) * u - eff * eta * (u - w)) / C)
        Tl[i] = w + dt * (eta * (u - w) / CD)
    N = np.zeros(n)
    if n > 1:
        N[1:] = tl_rndt(p, Tu, Tl)[0]
    return {"Tu": Tu, "Tl": Tl, "N": N}


# ---------------------------------------------------------------- impulse response model


def ir_to_tl(p, dps=60):
    """Two-layer equivalents (mpmath) with conditioning information.

    lambda0, C, C_D, eta from the two-timescale parameters in SI (q in K m^2/W, d in s).
    """
    with mpmath.workdps(dps):
        m = {k: mpmath.mpf(v) for k, v in p.items()}
        q1, q2, d1, d2, eff = m["q1"], m["q2"], m["d1"], m["d2"], m["efficacy"]
        lam = 1 / (q1 + q2)
        w1, w2 = q1 * lam, q2 * lam
        C = lam / (w1 / d1 + w2 / d2)
        mean = lam * (w1 * d1 + w2 * d2)
        CD = (mean - C) / eff
        eta = CD / (d1 * w2 + d2 * w1)
        cond = mean / (mean - C)
        return {"lambda0": lam, "C": C, "CD": CD, "eta": eta, "cond": float(cond), "efficacy": eff}


def tl_to_ir(lam, C, CD, eff, eta, dps=60):
    """Two-timescale equivalents (mpmath) of a two-layer model in SI units.

    From the eigenvalues of the linear system rather than from the library's formulas:
    C Tu' = F - lam Tu - eff eta (Tu - Tl), CD Tl' = eta (Tu - Tl).
    """
    with mpmath.workdps(dps):
        lam, C, CD, eff, eta = [mpmath.mpf(v) for v in (lam, C, CD, eff, eta)]
        m11 = -(lam + eff * eta) / C
        m12 = eff * eta / C
        m21 = eta / CD
        m22 = -eta / CD
        tr, det = m11 + m22, m11 * m22 - m12 * m21
        disc = mpmath.sqrt(tr * tr - 4 * det)
        fast, slow = (tr - disc) / 2, det / ((tr - disc) / 2)
        d1, d2 = -1 / fast, -1 / slow
        # eigenvectors (1, phi): lower row: m21 + m22 phi = s phi
        phi1 = m21 / (fast - m22)
        phi2 = m21 / (slow - m22)
        # impulse 1/C on Tu splits over the eigenvectors: x1 + x2 = 1/C, x1 phi1 + x2 phi2 = 0
        x1 = (phi2 / (phi2 - phi1)) / C
        x2 = (-phi1 / (phi2 - phi1)) / C
        return {
            "d1": d1, "d2": d2, "q1": x1 * d1, "q2": x2 * d2,
            "phi1": phi1, "phi2": phi2, "disc": disc, "tr": tr, "det": det,
            "fast": fast, "slow": slow, "lambda0": lam, "eta": eta, "efficacy": eff,
            "b_over_delta": float(-tr / disc),
        }


@functools.lru_cache(maxsize=64)
def _ir_coeffs(key):
    p = dict(key)
    eq = ir_to_tl(p)
    with mpmath.workdps(60):
        both = tl_to_ir(eq["lambda0"], eq["C"], eq["CD"], eq["efficacy"], eq["eta"])
        eff = eq["efficacy"]
        k1 = eq["eta"] * (eff - 1) * (1 - both["phi1"])
        k2 = eq["eta"] * (eff - 1) * (1 - both["phi2"])
        # how strongly rounding in the conversion is amplified in floating point:
        # eta by cond, phi by its own cancellation
        b = -both["tr"]
        bstar = (eq["lambda0"] + eff * eq["eta"]) / eq["C"] - eq["eta"] / eq["CD"]
        disc = both["disc"]
        phiscale = eq["C"] / (2 * eff * eq["eta"]) * (abs(bstar) + disc + b * b / disc)
        k_scale = abs(eq["eta"] * (eff - 1)) * (1 + phiscale) * eq["cond"] * (
            1 + eq["cond"]
        ) * (b / disc) ** 2 + abs(eq["eta"]) * (1 + phiscale) * 2
        return float(eq["lambda0"]), float(k1), float(k2), float(k_scale)


def ir_coeffs(p):
    """lambda0, coefficients of T1 and T2 in the efficacy term, its rounding scale."""
    key = tuple(sorted((k, p[k]) for k in ("q1", "q2", "d1", "d2", "efficacy")))
    return _ir_coeffs(key)


def ir_predict(p, F, T, k):
    """Next value of box k from each state, and its rounding tolerance."""
    d, qk, dt = p["d%d" % k], p["q%d" % k], p["delta_t"]
    x = dt / d
    decay, rise = math.exp(-x), -math.expm1(-x)
    pred = T * decay + F * qk * rise
    tol = (
        1e-12 * (np.abs(T) * decay * (1 + x) + np.abs(F * qk) * rise)
        + 4e-15 * (np.abs(T) + np.abs(F * qk))
    )
    return pred, tol


def ir_rndt(p, F, T1, T2):
    lam, k1, k2, k_scale = ir_coeffs(p)
    pred = F - lam * (T1 + T2) - (k1 * T1 + k2 * T2)
    tol = 1e-12 * (np.abs(F) + abs(lam) * (np.abs(T1) + np.abs(T2)))
    if p["efficacy"] != 1:
        tol = tol + 1e-13 * k_scale * (np.abs(T1) + np.abs(T2))
    return pred, tol


def ir_run(p, F):
    n = len(F)
    out = {"T1": np.zeros(n), "T2": np.zeros(n)}
    for k in (1, 2):
        x = p["delta_t"] / p["d%d" % k]
        decay, rise = math.exp(-x), -math.expm1(-x)
        T = out["T%d" % k]
        for i in range(1, n):
            T[i] = T[i - 1] * decay + F[i - 1] * p["q%d" % k] * rise
    N = np.zeros(n)
    if n > 1:
        N[1:] = ir_rndt(p, np.asarray(F[:-1], float), out["T1"][:-1], out["T2"][:-1])[0]
    out["N"] = N
    return out


# ---------------------------------------------------------------- conditioning of the conversions

EPS = 2.2e-16


def tl_to_ir_rel(p, ulps=64):
    """Relative rounding tolerance of each converted parameter (two-layer -> impulse response)."""
    C, CD = p["du"] * RHO_CP, p["dl"] * RHO_CP
    eff, eta, lam = p["efficacy"], p["eta"], p["lambda0"]
    r = tl_to_ir(lam, C, CD, eff, eta)
    with mpmath.workdps(60):
        b, sd = -r["tr"], r["disc"]
        b1 = (mpmath.mpf(lam) + mpmath.mpf(eff) * mpmath.mpf(eta)) / mpmath.mpf(C)
        bstar = 2 * b1 - b
        # b carries eps*b, the root eps*b^2/root, differences inherit both absolutely
        noise = b + b * b / sd
        k = {
            "d1": noise / (b - sd),
            "d2": noise / (b + sd),
        }
        phi1 = noise / abs(bstar - sd)
        phi2 = noise / abs(bstar + sd)
        both = (b * b / sd + noise) / sd + phi1 * 0
        k = {
            # fast timescale: 1/d1 = (b + root)/2; the library forms it from the difference
            "d1": k["d1"], "d2": k["d2"],
            "q1": k["d1"] + phi2 + both,
            "q2": k["d2"] + phi1 + both,
        }
        return {name: min(1e30, ulps * EPS * (2 + float(v))) for name, v in k.items()}


def ir_to_tl_rel(p, ulps=64):
    eq = ir_to_tl(p)
    cond = eq["cond"]
    return {
        "lambda0": ulps * EPS,
        "du": ulps * EPS,
        "dl": ulps * EPS * (2 + cond),
        "eta": ulps * EPS * (2 + cond),
    }
