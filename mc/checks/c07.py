from ..core import Case
from .. import comps as C, lanes as L
from ..common import *

LEVEL = "model_checking"
BOUNDS = "depth 2-8: every reachable accumulator state x all words of length 10; all 36 type pairs at depth 4; all 2^16 histories of length 16; 600-cycle periodic histories; ramps through both saturations at depths 9-13 (17 thorough)"
ASSUMPTIONS = ["stream bits are 0 or 1 and inputs have the configured stream data type"]


def ledger(ctx, depth, k):
    W = L.words([(0,), (1,)], k)[:, :, 0]
    impl = C.uni2bi(depth).make()
    out = np.zeros(len(W)); ones = np.zeros(len(W))
    for t in range(k):
        ones += W[:, t]
        o, = impl([L.bits(W[:, t], F32)])
        out += L.to_np(o)
        ctx.check(bool((out == np.floor((t + 1 + ones) / 2)).all()), "ones out differ from floor((t+k)/2)", cycle=t, depth=depth)
        ctx.evals += len(W)


def cases(tier):
    q = tier != "thorough"
    cs = []
    for d in range(2, 9):
        cs.append(Case("cover-d%d" % d, case_cover, lambda d=d: C.uni2bi(d), 10 if q else 13, tail=6, max_lanes=200000 if q else 900000))
    cs.append(Case("words", case_words, lambda: C.uni2bi(4), 16 if q else 18))
    comp = C.uni2bi(4)
    for s in comp.stypes:
        cs.append(Case("types-%s" % dt(s), case_cover, lambda: C.uni2bi(4), 8, types=[(s, b) for b in comp.btypes]))
    for d in (3, 4):
        cs.append(Case("shapes-d%d" % d, case_shapes, lambda d=d: C.uni2bi(d), 8))
    for d in (4, 6):
        cs.append(Case("ledger-d%d" % d, ledger, d, 14))
    cs.append(Case("long", case_periodic, lambda: C.uni2bi(4), 6, 600, cut=[300, 301]))
    for d in (9, 10, 11, 12):
        ty = wide_types(comp, 2 ** (d - 2) + 2)
        for i in range(0, len(ty), 9):
            cs.append(Case("ramp-d%d-%d" % (d, i), case_ramp, lambda d=d: C.uni2bi(d), 2 ** (d - 2) + 9, 4, types=ty[i:i + 9] if d < 11 or not q else ty[i:i + 2], dither=d == 9, count=i == 0))
    for d in (13,) if q else (13, 15, 17):
        cs.append(Case("ramp-d%d" % d, case_ramp, lambda d=d: C.uni2bi(d), 2 ** (d - 2) + 9, 3, count=False))
    return cs
