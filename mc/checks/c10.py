from ..core import Case
from .. import comps as C, lanes as L, models as M
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("width 1-2: reachable (window, positions) states x words; all 4^8 pairs of histories of length 8 at widths 1-4; all pairs of periodic "
          "histories over more than two windows at widths 1-6; deterministic random number kinds, dims 1-4, types and shapes; ramps over windows of up to 2^10 bits")
ASSUMPTIONS = ["random numbers of kinds sys and lfsr are not modelled here (their streams are covered by C01/C03/C09)"]


def pairs_periodic(ctx, width, mode, rng, dimr, pa, pb, windows, cut=None, types=((F32, F32, F32),)):
    n = 2 ** width
    Lh = int(windows * n) + 3
    A = L.periodic([(0,), (1,)], pa, Lh)
    B = L.periodic([(0,), (1,)], pb, Lh)
    if cut is not None:
        B = L.switching([(0,), (1,)], pb, Lh, cut)
    H = np.concatenate([np.repeat(A, len(B), axis=0), np.tile(B, (len(A), 1, 1))], axis=2)
    for s, b, r in types:
        run_hist(ctx, C.mulstream(width, mode, rng, dimr), H, s, b, r)


def ramp(ctx, mode, rng, w, windows, s=F32):
    """Second operand: runs of ones and zeros and dithers filling and draining the window; first: constant and alternating."""
    n = 2 ** w
    T = windows * n + 9
    t = np.arange(T)
    b = [t * 0 + 1, t * 0, (t < n + 3), (t >= n - 5), (t % n) < n // 2, t % 2, t % 3 == 0, (t // 7) % 2]
    a = [t * 0 + 1, t * 0, t % 2, (t % 5) < 2]
    H = np.array([np.stack([x, y], 1) for x in a for y in b]).astype(np.int64)
    run_hist(ctx, C.mulstream(w, mode, rng), H, s, F32, F32)


def cases(tier):
    q = tier != "thorough"
    cs = []
    for mode in ("unipolar", "bipolar"):
        for rng in ("Sobol", "rc", "race", "TC", "race10", "tc10"):
            for w in (1, 2):
                cs.append(Case("cover-%s-%s-w%d" % (mode[:3], rng, w), case_cover, lambda w=w, mode=mode, rng=rng: C.mulstream(w, mode, rng),
                               5 if w == 1 else 3, tail=6, max_states=3000, max_lanes=60000 if q else 300000))
            for w in (1, 2, 3, 4):
                if rng in ("Sobol", "race10") or not q:
                    cs.append(Case("words-%s-%s-w%d" % (mode[:3], rng, w), case_words, lambda w=w, mode=mode, rng=rng: C.mulstream(w, mode, rng), 7 if q else 9, tail=2 ** w + 2))
        for w in (1, 2, 3, 4, 5, 6):
            for d in (1, 2, 3, 4):
                mp = 5 if w <= 3 else 4 if w == 4 else 3
                cs.append(Case("periodic-%s-d%d-w%d" % (mode[:3], d, w), pairs_periodic, w, mode, "Sobol", d, mp, mp, 2.5))
            for rng in ("race", "tc10"):
                cs.append(Case("periodic-%s-%s-w%d" % (mode[:3], rng, w), pairs_periodic, w, mode, rng, 1, 3, 3, 2.5))
        for w in (2, 3, 4, 5):
            cs.append(Case("forget-%s-w%d" % (mode[:3], w), pairs_periodic, w, mode, "Sobol", 1, 2, 3, 3.5, 2 ** w + 1))
        for s in C.mulstream(2, mode).stypes:
            cs.append(Case("types-%s-%s" % (mode[:3], dt(s)), case_words, lambda mode=mode: C.mulstream(2, mode.upper(), "SOBOL", 2), 6, types=[(s, F32)],
                           rtypes=(F32, F64, I32, I64), tail=6))
            cs.append(Case("types5-%s-%s" % (mode[:3], dt(s)), pairs_periodic, 7, mode, "Sobol", 1, 2, 2, 1.5, None, [(s, F32, F32)]))
        cs.append(Case("shapes-%s" % mode[:3], case_shapes, lambda mode=mode: C.mulstream(2, mode), 5))
        if not q:
            cs.append(Case("big-%s" % mode[:3], pairs_periodic, 8, mode, "Sobol", 1, 2, 3, 2.2))
    for mode in ("unipolar", "bipolar"):
        for w in (7, 8, 9, 10) if q else (7, 8, 9, 10, 11, 12):
            for rng in ("Sobol", "tc10"):
                cs.append(Case("ramp-%s-%s-w%d" % (mode[:3], rng, w), ramp, mode, rng, w, 3 if w < 10 else 2))
        for s in C.mulstream(2, mode).stypes:
            cs.append(Case("ramp-%s-types-%s" % (mode[:3], dt(s)), ramp, mode, "Sobol", 9, 2, s))
    return cs
