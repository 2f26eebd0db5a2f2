from ..core import Case
from .. import comps as C, lanes as L
from ..common import *

LEVEL = "model_checking"
BOUNDS = "depth 1-5: every reachable state x all words of length 5-7 over 4 input pairs; all 36 type pairs at depth 2; 4^8 full histories; held and dithered ramps through both limits at depths 6-12 (16 thorough)"
ASSUMPTIONS = ["stream bits are 0 or 1 and inputs have the configured stream data type"]


def ledger(ctx, depth, k):
    """Conservation, judged without the model: ones out + withheld = ones in."""
    W = L.words([(0, 0), (0, 1), (1, 0), (1, 1)], k)
    impl = C.skewedsync(depth).make()
    bal = np.zeros(len(W))
    for t in range(k):
        a, b = L.bits(W[:, t, 0], F32), L.bits(W[:, t, 1], F32)
        o1, o2 = impl([a, b])
        bal += W[:, t, 0] - L.to_np(o1)
        ctx.check(bool((L.to_np(o2) == W[:, t, 1]).all()), "second stream altered", cycle=t)
        ctx.check(bool(((bal >= 0) & (bal <= 2 ** depth - 1)).all()), "withheld ones leave their range", cycle=t)
        ctx.evals += len(W)


def cases(tier):
    q = tier != "thorough"
    cs = []
    for d in (1, 2, 3, 4, 5):
        cs.append(Case("cover-d%d" % d, case_cover, lambda d=d: C.skewedsync(d), 6 if q else 7, tail=4, max_lanes=150000 if q else 600000))
    if not q:
        cs.append(Case("cover-d7", case_cover, lambda: C.skewedsync(7), 5, max_lanes=300000))
    cs.append(Case("words", case_words, lambda: C.skewedsync(2), 8 if q else 9))
    comp = C.skewedsync(2)
    for s in comp.stypes:
        cs.append(Case("types-%s" % dt(s), case_cover, lambda: C.skewedsync(2), 4, types=[(s, b) for b in comp.btypes]))
    for d in (1, 3):
        cs.append(Case("shapes-d%d" % d, case_shapes, lambda d=d: C.skewedsync(d), 5))
    for d in (1, 2, 3):
        cs.append(Case("ledger-d%d" % d, ledger, d, 7 if q else 8))
    cs.append(Case("long-d6", case_periodic, lambda: C.skewedsync(6), 3, 200, cut=[70, 100]))
    for d in (6, 7, 8, 9, 10):
        ty = wide_types(comp, 2 ** d)
        for i in range(0, len(ty), 9):
            cs.append(Case("ramp-d%d-%d" % (d, i), case_ramp, lambda d=d: C.skewedsync(d), 2 ** d + 5, 3, types=ty[i:i + 9] if d < 9 or not q else ty[i:i + 2], count=i == 0))
    for d in (12,) if q else (12, 14, 16):
        cs.append(Case("ramp-d%d" % d, case_ramp, lambda d=d: C.skewedsync(d), 2 ** d + 5, 2 if d > 12 else 3, count=False))
    return cs
