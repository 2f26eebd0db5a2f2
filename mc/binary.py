"""Reference arithmetic for the binary-domain layers (numpy, double precision)."""
import numpy as np
import torch
from . import comps as C, layers as Y, models as M

TC = ("race", "tc", "race10", "tc10")


def quantile(a, p):
    s = np.sort(np.asarray(a, dtype=np.float64).ravel())
    pos = p * (len(s) - 1)
    i = int(np.floor(pos + 1e-9))
    i = min(max(i, 0), len(s) - 1)
    j = min(i + 1, len(s) - 1)
    f = min(max(pos - i, 0.0), 1.0)
    return s[i] + (s[j] - s[i]) * f


def magnitude(a, q):
    return max(abs(quantile(a, 0.5 - q / 2)), abs(quantile(a, 0.5 + q / 2)))


def exponent(a, q, rounding):
    """Power of two of the quantile magnitude, and the distance from a rounding decision (to avoid ambiguous tests)."""
    m = magnitude(a, q)
    if m == 0:
        return 0, 1.0
    lg = np.log2(m)
    if rounding == "round":
        return int(np.rint(lg)), abs(lg - np.floor(lg) - 0.5)
    near = abs(lg - np.rint(lg))
    if near < 1e-9:
        return int(np.rint(lg)), 1.0
    return int(np.floor(lg) if rounding == "floor" else np.ceil(lg)), near


def table(width, rngi, rngw):
    """ones produced together, indexed [input magnitude][weight magnitude]."""
    w = width - 1
    n = 2 ** w
    si, sw = M.rng_seq(rngi, w, 1), M.rng_seq(rngw, w, 1)
    ctl, lee = (sw, si) if (rngw.lower() in TC and rngi.lower() not in TC) else (si, sw)
    T = np.zeros((n, n), dtype=np.int64)
    for a in range(n):
        k = int((a > ctl).sum())
        for b in range(n):
            T[a, b] = int((b > lee[:k]).sum())
    return T


_T = {}


def get_table(width, rngi, rngw):
    k = (width, rngi.lower(), rngw.lower())
    if k not in _T:
        _T[k] = table(*k)
    return _T[k]


def hub(x, w, b, width, rngi, rngw, qi, qw, rounding, cycle, xall=None):
    """x [N, n], w [O, n]; xall: the tensor the magnitude is taken from."""
    ei, _ = exponent(x if xall is None else xall, qi, rounding)
    ew, _ = exponent(w, qw, rounding)
    full = 2 ** (width - 1)
    cyc = full if cycle is None else min(cycle, full)
    bi = np.minimum(np.abs(np.rint(x / 2.0 ** (ei - (width - 1)))), cyc - 1).astype(np.int64)
    bw = np.minimum(np.abs(np.rint(w / 2.0 ** (ew - (width - 1)))), cyc - 1).astype(np.int64)
    T = get_table(width, rngi, rngw)
    out = np.zeros((len(x), len(w)))
    for j in range(x.shape[1]):
        out += T[bi[:, j][:, None], bw[:, j][None, :]] * np.sign(x[:, j])[:, None] * np.sign(w[:, j])[None, :]
    step = 2.0 ** (ei + ew - (width - 1))
    out = out * step
    return (out if b is None else out + b), step


def fxp_round(x, e, width):
    s = 2.0 ** (e - (width - 1))
    return np.clip(np.rint(x / s), -(2 ** width - 1), 2 ** width - 1) * s


def fxp(x, w, b, wi, ww, qi, qw, rounding, xall=None):
    ei, _ = exponent(x if xall is None else xall, qi, rounding)
    ew, _ = exponent(w, qw, rounding)
    out = fxp_round(x, ei, wi) @ fxp_round(w, ew, ww).T
    step = 2.0 ** (ei - (wi - 1) + ew - (ww - 1))
    return (out if b is None else out + b), step


def digits(mag, t, cycle):
    """Integer magnitudes, base 2^t, each digit limited to cycle-1."""
    mag = mag.astype(np.int64)
    out = np.zeros_like(mag)
    k = 0
    while (mag >> (t * k)).any():
        d = (mag >> (t * k)) & (2 ** t - 1)
        out += np.minimum(d, cycle - 1) << (t * k)
        k += 1
    return out


def tlut_fxp(x, e, width, t, cycle, cut):
    """width: magnitude bits; cut: this operand is the temporal one."""
    s = 2.0 ** (e - width)
    q = np.trunc(np.clip(x / s, -(2 ** width - 1), 2 ** width - 1))
    m = np.abs(q)
    return np.sign(q) * (digits(m, t, cycle) if cut else m) * s


FPW = dict(bfloat16=8, float16=11, float32=24)


def tlut_fp(x, width, t, cycle):
    m, e = np.frexp(np.asarray(x, dtype=np.float64))
    i = np.abs(m) * 2.0 ** width
    return np.sign(m) * digits(np.floor(i), t, cycle) * 2.0 ** (e.astype(np.float64) - width)


def tlut(x, w, b, hw, xall=None):
    t = hw["widtht"]
    cyc = 2 ** t if hw["cycle"] is None else min(hw["cycle"], 2 ** t)
    fi, fw = hw["formati"].lower(), hw["formatw"].lower()
    ti = hw["temporal"].lower() in ("i", "input")
    r = hw["rounding"].lower()
    xa = x if xall is None else xall
    if fi == "fxp" and fw == "fxp":
        nx = tlut_fxp(x, exponent(xa, hw["quantilei"], r)[0], hw["widthi"] - 1, t, cyc, ti)
        nw = tlut_fxp(w, exponent(w, hw["quantilew"], r)[0], hw["widthw"] - 1, t, cyc, not ti)
    elif fi != "fxp" and fw != "fxp":
        nx = tlut_fp(x, FPW[fi], t, cyc) if ti else x
        nw = tlut_fp(w, FPW[fw], t, cyc) if not ti else w
    else:
        nx, nw = x, w
        if ti:
            nx = tlut_fxp(x, exponent(xa, hw["quantilei"], r)[0], hw["widthi"] - 1, t, cyc, True)
        else:
            nw = tlut_fxp(w, exponent(w, hw["quantilew"], r)[0], hw["widthw"] - 1, t, cyc, True)
    out = nx @ nw.T
    absum = np.abs(nx) @ np.abs(nw).T
    return (out if b is None else out + b), absum, nx, nw


def conv_windows(x, k, s, p, d):
    win, osz = Y.im2col(x, k, s, p, d, 0.0)
    return win, osz


def fold(o, N, osz):
    """[N*P, O] -> [N, O, OH, OW]"""
    O = o.shape[1]
    return o.reshape(N, -1, O).transpose(0, 2, 1).reshape(N, O, *osz)


def unambiguous(a, q, rounding, eps=1e-3):
    return exponent(a, q, rounding)[1] > eps
