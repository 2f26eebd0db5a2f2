from ..core import Case
from .. import comps as C, lanes as L, models as M
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("all variants (inserting with 1-8 register entries; tracing by flip-flop or correlated division) in both modes: reachable states (capped, reported) x words, "
          "all 2^15 histories of length 15, all periodic histories (period <= 6) over 300 cycles, all type pairs, shapes; ramps over long shift registers")
ASSUMPTIONS = []


def variants():
    for mode in ("unipolar", "bipolar"):
        for e in (1, 2, 4, 8):
            yield "%s-emit-e%d" % (mode[:3], e), (lambda mode=mode, e=e: C.sqrt(mode, True, True, e))
        yield "%s-jk" % mode[:3], (lambda mode=mode: C.sqrt(mode, False, True))
        for rng, d in (("Sobol", 4), ("race", 1), ("tc10", 1), ("sobol", 2)):
            yield "%s-div-%s-%d" % (mode[:3], rng, d), (lambda mode=mode, rng=rng, d=d: C.sqrt(mode, False, False, rng=rng, dimr=d))


def cases(tier):
    q = tier != "thorough"
    cs = []
    for name, fn in variants():
        cs.append(Case("words-" + name, case_words, fn, 15 if q else 18))
        cs.append(Case("cover-" + name, case_cover, fn, 5, tail=8, max_states=1500 if q else 20000, max_lanes=50000 if q else 600000))
        cs.append(Case("periodic-" + name, case_periodic, fn, 6, 300, cut=[100, 201], maxp_switch=4))
        cs.append(Case("long-" + name, case_periodic, fn, 3, 700, cut=[300], maxp_switch=3))
        cs.append(Case("shapes-" + name, case_shapes, fn, 6))
    for s in C.sqrt("unipolar", True).stypes:
        for name, fn in variants():
            if name.endswith(("e1", "e8", "race-1", "tc10-1", "sobol-2")):
                continue
            cs.append(Case("types-%s-%s" % (dt(s), name), case_words, fn, 8, tail=20, types=[(s, b) for b in fn().btypes]))
    cs.append(Case("case-letters", case_words, lambda: C.sqrt("BiPolar", True, True, 2, rng="SOBOL"), 10))
    for mode in ("unipolar", "bipolar"):
        for e in (16, 32, 64, 128, 256):
            fn = lambda mode=mode, e=e: C.sqrt(mode, True, entry_sr=e)
            cs.append(Case("ramp-%s-e%d" % (mode[:3], e), case_ramp, fn, e + 9, 4, dither=e < 100, count=False))
            cs.append(Case("bigperiodic-%s-e%d" % (mode[:3], e), case_periodic, fn, 5, 3 * e if e > 50 else 200, cut=[e + 3]))
            if e > 100:
                ty = [(s, b) for s in fn().stypes for b in (F32, F64)]
                cs.append(Case("ramptypes-%s-e%d" % (mode[:3], e), case_ramp, fn, e + 9, 2, types=ty, count=False))
    return cs
