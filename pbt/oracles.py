"""Step-by-step comparison of a run with the reference equations."""
import numpy as np

from . import ref
from .core import Violation

TINY = 1e-270


def _first_bad(bad):
    return int(np.flatnonzero(bad)[0])


def compare(name, got, want, tol, ok, ctx, offset=1, what="the documented equation"):
    """got == want within tol wherever ok."""
    if not ok.any():
        return
    err = np.abs(got - want)
    bad = ok & ~(err <= tol)
    if bad.any():
        i = _first_bad(bad)
        raise Violation(
            "{} at index {} is {!r} but {} gives {!r} (tolerance {:.3g})".format(
                name, i + offset, float(got[i]), what, float(want[i]), float(tol[i])
            )
        )
    if ctx is not None:
        with np.errstate(all="ignore"):
            ratio = np.where(ok & (tol > TINY * 10), err / tol, 0.0)
        ctx.measure(name, np.nanmax(ratio))


def check_lengths(out, n):
    for k, v in out.items():
        if v.shape != (n,):
            raise Violation("{} has shape {} for {} driver values".format(k, v.shape, n))
        if n and not v[0] == 0:
            raise Violation("{} starts at {!r} instead of zero".format(k, float(v[0])))


def tl_steps(p, F, out, ctx=None, start=True):
    """Residual check of a two-layer run (or a window of it); returns the number of steps compared."""
    n = len(F)
    if start:
        check_lengths(out, n)
    if n < 2:
        return 0
    F = np.asarray(F, float)
    Tu, Tl, N = out["Tu"], out["Tl"], out["N"]
    up, lo, s_up, s_lo = ref.tl_predict(p, F[:-1], Tu[:-1], Tl[:-1])
    good = (np.abs(Tu[:-1]) < ref.BIG) & (np.abs(Tl[:-1]) < ref.BIG)
    # one overflow ends the comparison: what follows is not a number any more
    good &= np.cumsum(~good) == 0
    ok_u = good & (s_up < ref.BIG)
    ok_l = good & (s_lo < ref.BIG)
    compare("upper temperature", Tu[1:], up, 1e-12 * s_up + TINY, ok_u, ctx)
    compare("lower temperature", Tl[1:], lo, 1e-12 * s_lo + TINY, ok_l, ctx)
    rn, s_n = ref.tl_rndt(p, Tu, Tl)
    # heat uptake may equally be formed from the tendencies
    C, CD = p["du"] * ref.RHO_CP, p["dl"] * ref.RHO_CP
    s_n = s_n + s_up * C / p["delta_t"] + s_lo * CD / p["delta_t"]
    ok_n = ok_u & ok_l & (s_n < ref.BIG * 1e40) & np.isfinite(Tu[1:]) & np.isfinite(Tl[1:])
    compare(
        "heat uptake", N[1:], rn, 1e-12 * s_n + TINY, ok_n, ctx,
        what="the change in heat content",
    )
    return int(ok_u.sum())


def ir_steps(p, F, out, ctx=None, start=True):
    n = len(F)
    if start:
        check_lengths(out, n)
    if n < 2:
        return 0
    F = np.asarray(F, float)
    T1, T2, N = out["T1"], out["T2"], out["N"]
    good = np.isfinite(T1[:-1]) & np.isfinite(T2[:-1])
    for k, T in ((1, T1), (2, T2)):
        pred, tol = ref.ir_predict(p, F[:-1], T[:-1], k)
        compare("box {} temperature".format(k), T[1:], pred, tol + TINY, good, ctx)
    if "T" in out:
        compare(
            "surface temperature", out["T"], T1 + T2, 1e-13 * (np.abs(T1) + np.abs(T2)) + TINY,
            np.isfinite(T1 + T2), ctx, offset=0, what="the sum of the boxes",
        )
    pred, tol = ref.ir_rndt(p, F[:-1], T1[:-1], T2[:-1])
    compare("heat uptake", N[1:], pred, tol + TINY, good, ctx)
    return int(good.sum())


def steps(kind, p, F, out, ctx=None, start=True):
    return (tl_steps if kind == "tl" else ir_steps)(p, F, out, ctx, start)


def same_bits(a, b, what):
    """Bitwise equality up to the sign of zero (NaN equals NaN)."""
    for k in a:
        x, y = a[k], b[k]
        if x.shape != y.shape:
            raise Violation("{}: {} has {} and {} values".format(what, k, x.shape, y.shape))
        bad = ~((x == y) | (np.isnan(x) & np.isnan(y)))
        if bad.any():
            i = _first_bad(bad)
            raise Violation(
                "{}: {} differs at index {}: {!r} and {!r}".format(
                    what, k, i, float(x[i]), float(y[i])
                )
            )


# ---------------------------------------------------------------- error bounds of whole runs

EPS = 2.2e-16


def tl_bound(p, F, out, unit_error=16 * EPS):
    """Bound on the accumulated effect of relative rounding `unit_error` per step.

    Recursion with the absolute values of the step's Jacobian, so it covers unstable runs.
    Returns bounds for Tu, Tl and N (inf once not meaningful any more).
    """
    n = len(F)
    C, CD = p["du"] * ref.RHO_CP, p["dl"] * ref.RHO_CP
    dt, lam, a, eff, eta = p["delta_t"], p["lambda0"], p["a"], p["efficacy"], p["eta"]
    Eu, El, En = np.zeros(n), np.zeros(n), np.zeros(n)
    a12, a21, a22 = dt / C * abs(eff * eta), dt / CD * abs(eta), abs(1 - dt / CD * eta)
    F = np.asarray(F, float)
    Tu, Tl = out["Tu"], out["Tl"]
    _, _, s_up, s_lo = ref.tl_predict(p, F, Tu, Tl)
    eu = el = 0.0
    lin = abs(1 - dt / C * (lam + eff * eta))
    with np.errstate(all="ignore"):
        for i in range(1, n):
            a11 = lin + (2 * abs(a) * dt / C * (abs(float(Tu[i - 1])) + eu) if a else 0.0)
            eu, el = (
                a11 * eu + a12 * el + unit_error * float(s_up[i - 1]) + 1e-290,
                a21 * eu + a22 * el + unit_error * float(s_lo[i - 1]) + 1e-290,
            )
            if not (eu < ref.BIG and el < ref.BIG):
                eu = el = float("inf")
            Eu[i], El[i] = eu, el
        scale = np.zeros(n)
        scale[1:] = C / dt * (np.abs(Tu[1:]) + np.abs(Tu[:-1])) + CD / dt * (
            np.abs(Tl[1:]) + np.abs(Tl[:-1])
        )
        En[1:] = (
            C / dt * (Eu[1:] + Eu[:-1])
            + CD / dt * (El[1:] + El[:-1])
            + unit_error * (scale[1:] + np.abs(F[:-1]))
        )
    for arr in (Eu, El, En):
        arr[~(arr < ref.BIG * 1e40)] = np.inf
    return {"Tu": Eu, "Tl": El, "N": En}


def ir_bound(p, F, out, unit_error=64 * EPS):
    n = len(F)
    F = np.asarray(F, float)
    res = {}
    for k in ("1", "2"):
        # errors decay like the temperatures do; exp() amplifies by the exponent
        x = p["delta_t"] / p["d" + k]
        T = out["T" + k]
        local = unit_error * (1 + min(x, 50)) * (np.abs(T) + np.abs(F * p["q" + k]))
        res["T" + k] = np.concatenate([[0.0], np.cumsum(local)[:-1]]) + TINY
    lam, _, _, k_scale = ref.ir_coeffs(p)
    En = np.zeros(n)
    _, tol = ref.ir_rndt(p, F[:-1], out["T1"][:-1], out["T2"][:-1])
    coef = abs(lam) + (k_scale if p["efficacy"] != 1 else 0.0)
    En[1:] = tol + coef * (res["T1"][:-1] + res["T2"][:-1])
    res["N"] = En
    return res


def bound(kind, p, F, out, **kwargs):
    return (tl_bound if kind == "tl" else ir_bound)(p, F, out, **kwargs)


def close(got, want, tol, what, ctx=None, label=None):
    """Compare dictionaries of arrays; skips entries whose tolerance is not finite or that come after very large values."""
    alive = True
    for k in tol:
        alive = alive & (np.abs(want[k]) < ref.BIG * (1e40 if k == "N" else 1))
    for k in tol:
        x, y = got[k], want[k]
        if x.shape != y.shape:
            raise Violation("{}: {} has {} and {} values".format(what, k, x.shape, y.shape))
        t = tol[k]
        ok = np.isfinite(t) & alive
        ok &= np.cumsum(~ok) == 0
        err = np.abs(x - y)
        bad = ok & ~(err <= t)
        if bad.any():
            i = _first_bad(bad)
            raise Violation(
                "{}: {} at index {} is {!r} instead of {!r} (tolerance {:.3g})".format(
                    what, k, i, float(x[i]), float(y[i]), float(t[i])
                )
            )
        if ctx is not None and ok.any():
            ratio = np.where(ok & (t > TINY * 10), err / np.where(t > 0, t, 1), 0.0)
            ctx.measure((label or what) + " " + k, np.nanmax(ratio))
