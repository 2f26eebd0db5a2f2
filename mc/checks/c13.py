from ..core import Case
from .. import comps as C, lanes as L
from ..common import *

LEVEL = "model_checking"
BOUNDS = "depth 1-8: every reachable counter state x all words of length 9; all type pairs; all 2^15 histories of length 15; long periodic histories through both saturations; ramps through both limits at depths 7 to 13"
ASSUMPTIONS = ["buffer types hold 2^depth"]


def cases(tier):
    q = tier != "thorough"
    cs = []
    ml = 120000 if q else 600000
    for d in range(1, 9):
        cs.append(Case("cover-d%d" % d, case_cover, lambda d=d: C.signabs(d), 9 if q else 12, tail=5, max_lanes=ml))
    for d in (1, 2, 3, 4):
        cs.append(Case("words-d%d" % d, case_words, lambda d=d: C.signabs(d), 15 if q else 18))
    for d in (3, 6):
        comp = C.signabs(d)
        for s in comp.stypes:
            cs.append(Case("types-%s-d%d" % (dt(s), d), case_cover, lambda d=d: C.signabs(d), 6, types=[(s, b) for b in comp.btypes]))
    for d in (2, 3):
        cs.append(Case("shapes-d%d" % d, case_shapes, lambda d=d: C.signabs(d), 8))
    cs.append(Case("long-d8", case_periodic, lambda: C.signabs(8), 4, 700, cut=[150, 300, 301]))
    cs.append(Case("long-d10", case_periodic, lambda: C.signabs(10), 4, 1300, cut=[600]))
    for d in (7, 8, 9, 10, 11):
        ty = wide_types(C.signabs(d), 2 ** d)
        for i in range(0, len(ty), 9):
            cs.append(Case("ramp-d%d-%d" % (d, i), case_ramp, lambda d=d: C.signabs(d), 2 ** (d - 1) + 9, 4, types=ty[i:i + 9] if d < 10 or not q else ty[i:i + 2], dither=d == 7, count=i == 0))
    for d in (12,) if q else (12, 14, 16):
        cs.append(Case("ramp-d%d" % d, case_ramp, lambda d=d: C.signabs(d), 2 ** (d - 1) + 9, 3, count=False))
    return cs
