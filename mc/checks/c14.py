from ..core import Case
from .. import comps as C, lanes as L
from ..common import *

LEVEL = "model_checking"
BOUNDS = "depth 1-8: every reachable counter state x all words of length 9; all stream/buffer type pairs; all 2^15 histories of length 15; ramps through both limits at depths 7 to 13"
ASSUMPTIONS = ["buffer types hold 2^depth"]


def never_negative(ctx, depth, k):
    """The running bipolar sum of the output never falls more than one below zero (before saturation)."""
    W = L.words([(0,), (1,)], k)[:, :, 0]
    impl = C.relu(depth).make()
    s = np.zeros(len(W)); sat = np.zeros(len(W), bool)
    for t in range(k):
        o, = impl([L.bits(W[:, t], F32)])
        o = L.to_np(o)
        s += 2 * o - 1
        ctx.check(bool((s >= -1)[~sat].all()), "output runs below bipolar zero", depth=depth, cycle=t)
        ctx.check(bool((o >= W[:, t]).all()), "a one was swallowed", depth=depth, cycle=t)
        sat |= s + 2 ** (depth - 1) >= 2 ** depth - 1
        ctx.evals += len(W)


def cases(tier):
    q = tier != "thorough"
    cs = []
    ml = 120000 if q else 600000
    for d in range(1, 9):
        cs.append(Case("cover-d%d" % d, case_cover, lambda d=d: C.relu(d), 9 if q else 12, tail=5, max_lanes=ml))
    for d in (1, 2, 3, 4):
        cs.append(Case("words-d%d" % d, case_words, lambda d=d: C.relu(d), 15 if q else 18))
    for d in (3, 6):
        comp = C.relu(d)
        for s in comp.stypes:
            cs.append(Case("types-%s-d%d" % (dt(s), d), case_cover, lambda d=d: C.relu(d), 6, types=[(s, b) for b in comp.btypes]))
    for d in (2, 3):
        cs.append(Case("shapes-d%d" % d, case_shapes, lambda d=d: C.relu(d), 8))
    for d in (2, 4, 6):
        cs.append(Case("nonneg-d%d" % d, never_negative, d, 14))
    cs.append(Case("long-d8", case_periodic, lambda: C.relu(8), 4, 700, cut=[150, 300, 301]))
    cs.append(Case("long-d10", case_periodic, lambda: C.relu(10), 4, 1300, cut=[600]))
    for d in (7, 8, 9, 10, 11):
        ty = wide_types(C.relu(d), 2 ** d)
        for i in range(0, len(ty), 9):
            cs.append(Case("ramp-d%d-%d" % (d, i), case_ramp, lambda d=d: C.relu(d), 2 ** (d - 1) + 9, 4, types=ty[i:i + 9] if d < 10 or not q else ty[i:i + 2], dither=d == 7, count=i == 0))
    for d in (12,) if q else (12, 14, 16):
        cs.append(Case("ramp-d%d" % d, case_ramp, lambda d=d: C.relu(d), 2 ** (d - 1) + 9, 3, count=False))
    return cs
