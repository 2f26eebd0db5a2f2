from ..core import Case
from .. import comps as C, lanes as L, models as M
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("core: every reachable state x words, 1-8 stored bits; dividers: all 4^8 pairs of histories, reachable states (up to a cap, reported) x words, "
          "all pairs of periodic histories over 200 cycles; depths, entries, random number kinds/dims, both modes, all type pairs, shapes; ramps over up to 128 stored bits and deep synchronisers")
ASSUMPTIONS = ["the unipolar core is judged on all dividend/divisor pairs, synchronised or not"]


def cases(tier):
    q = tier != "thorough"
    cs = []
    ml = 60000 if q else 300000
    for e in (1, 2, 4, 8):
        for rng, d in (("Sobol", 4), ("Sobol", 1), ("rc", 2), ("race", 1), ("tc", 4), ("race10", 1), ("TC10", 3)):
            cs.append(Case("core-e%d-%s-%d" % (e, rng, d), case_cover, lambda e=e, rng=rng, d=d: C.cordiv(e, rng, d), 5, tail=e, max_lanes=ml))
        cs.append(Case("core-words-e%d" % e, case_words, lambda e=e: C.cordiv(e), 7 if q else 9, tail=2 * e))
        cs.append(Case("uni-words-e%d" % e, case_words, lambda e=e: C.div("unipolar", entry=e), 7 if q else 9, tail=4))
        cs.append(Case("bip-words-e%d" % e, case_words, lambda e=e: C.div("bipolar", entry=e), 7 if q else 9, tail=6))
        for rng, d in (("Sobol", 1), ("Sobol", 4), ("race", 1), ("tc10", 2), ("Sobol", 3)):
            for mode in ("unipolar", "bipolar"):
                cs.append(Case("div-%s-e%d-%s-%d" % (mode[:3], e, rng, d), case_periodic, lambda mode=mode, e=e, rng=rng, d=d: C.div(mode, 3, 2, e, rng, d),
                               3, 120, cut=[60]))
    for dsa in (1, 2, 3, 4, 6):
        for dss in (1, 2, 3, 4):
            cs.append(Case("bip-sa%d-ss%d" % (dsa, dss), case_cover, lambda dsa=dsa, dss=dss: C.div("bipolar", dsa, dss, 4), 3, tail=8,
                           max_states=600 if q else 8000, max_lanes=40000 if q else 600000))
    for dss in (1, 2, 3, 4):
        for e in (1, 2, 4):
            cs.append(Case("uni-ss%d-e%d" % (dss, e), case_cover, lambda dss=dss, e=e: C.div("unipolar", 3, dss, e), 4, tail=6, max_lanes=ml))
    for s in C.cordiv(2).stypes:
        cs.append(Case("types-core-%s" % dt(s), case_cover, lambda: C.cordiv(4), 3, types=[(s, F32)]))
        for mode in ("Unipolar", "BIPOLAR"):
            comp = C.div(mode)
            cs.append(Case("types-%s-%s" % (mode[:3], dt(s)), case_words, lambda mode=mode: C.div(mode, 3, 2, 4, "SOBOL", 4), 5, tail=20,
                           types=[(s, b) for b in comp.btypes]))
    cs.append(Case("shapes-core", case_shapes, lambda: C.cordiv(4), 4))
    for mode in ("unipolar", "bipolar"):
        cs.append(Case("shapes-%s" % mode, case_shapes, lambda mode=mode: C.div(mode), 4))
        cs.append(Case("long-%s" % mode, case_periodic, lambda mode=mode: C.div(mode, 5, 3, 8), 4, 300, cut=[100, 151], maxp_switch=2))
    for e in (16, 32, 64, 128, 256):
        for rng, d in (("Sobol", 4), ("race", 1), ("tc10", 1)):
            cs.append(Case("core-ramp-e%d-%s" % (e, rng), case_ramp, lambda e=e, rng=rng, d=d: C.cordiv(e, rng, d), min(e + 5, 150), 2, dither=True, count=False))
        for mode in ("unipolar", "bipolar"):
            cs.append(Case("ramp-%s-e%d" % (mode[:3], e), case_ramp, lambda mode=mode, e=e: C.div(mode, 5, 4, e), min(e + 5, 150), 2, dither=True, count=False))
    for mode in ("unipolar", "bipolar"):
        for dsa, dss in ((8, 8), (9, 6), (10, 9), (7, 10)):
            cs.append(Case("ramp-%s-sa%d-ss%d" % (mode[:3], dsa, dss), case_ramp, lambda mode=mode, dsa=dsa, dss=dss: C.div(mode, dsa, dss, 4), 2 ** max(dsa - 1, dss) + 9, 3, count=False))
    return cs
