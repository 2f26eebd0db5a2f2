from ..core import Case
from .. import comps as C, lanes as L
from ..common import *

LEVEL = "model_checking"
BOUNDS = "1-8 entries (16 in long runs): every reachable content x all words of (bit[, mask]); every read position at every cycle; type and shape variants; ramps over registers of up to some hundred entries"
ASSUMPTIONS = ["an instance sees inputs of one shape throughout its life"]


def positions(ctx, entry, k, masked):
    """Every sequence of read positions (as the 'index' argument) with bits and masks."""
    K = C.K()
    m = C.M.ShiftReg(entry, masked, read=True)
    A = m.alphabet()
    # position is one value per call: enumerate position sequences outside, bits/masks in lanes
    import itertools
    BA = list(itertools.product(*([range(2)] * (1 + masked))))
    W = L.words(BA, k)
    for pos in itertools.product(range(entry), repeat=k):
        obj = K.ShiftReg(dict(entry=entry), dict(stype=F32))
        st = m.init(len(W))
        for t in range(k):
            x = np.concatenate([W[:, t], np.full((len(W), 1), pos[t])], 1)
            L.visit(ctx, st, x)
            kw = dict(mask=L.bits(W[:, t, 1], F32)) if masked else {}
            out, cnt = obj(L.bits(W[:, t, 0], F32), index=pos[t], **kw)
            st, exp = m.step(st, x)
            ctx.check(bool((L.to_np(out) == exp[:, 0]).all() and (L.to_np(cnt) == exp[:, 1]).all()),
                      "read position %d returns the wrong bit or count" % pos[t], positions=pos, cycle=t, entry=entry)
        ctx.traces += len(W)


def cases(tier):
    q = tier != "thorough"
    cs = []
    ml = 60000 if q else 400000
    for e in range(1, 9):
        cs.append(Case("cover-e%d" % e, case_cover, lambda e=e: C.shiftreg(e), 7, tail=5, max_lanes=ml))
        cs.append(Case("cover-masked-e%d" % e, case_cover, lambda e=e: C.shiftreg(e, True), 5, tail=5, max_lanes=ml))
    for e in (1, 2, 3, 4):
        cs.append(Case("words-masked-e%d" % e, case_words, lambda e=e: C.shiftreg(e, True), 7 if q else 8))
        cs.append(Case("words-e%d" % e, case_words, lambda e=e: C.shiftreg(e), 13))
    for s in C.shiftreg(3).stypes:
        for e in (2, 3):
            cs.append(Case("types-%s-e%d" % (dt(s), e), case_cover, lambda e=e: C.shiftreg(e), 5, types=[(s, F32)]))
            cs.append(Case("types-masked-%s-e%d" % (dt(s), e), case_cover, lambda e=e: C.shiftreg(e, True), 4, types=[(s, F32)]))
    for e in (1, 2, 3, 4):
        for masked in (False, True):
            cs.append(Case("positions-e%d-%s" % (e, masked), positions, e, 4 if e > 2 else 5, masked))
    for e in (3, 4):
        cs.append(Case("shapes-e%d" % e, case_shapes, lambda e=e: C.shiftreg(e), 6))
        cs.append(Case("shapes-masked-e%d" % e, case_shapes, lambda e=e: C.shiftreg(e, True), 4))
    for e in (16, 64):
        cs.append(Case("long-e%d" % e, case_periodic, lambda e=e: C.shiftreg(e), 5, 3 * e, cut=[e + 1]))
        cs.append(Case("long-masked-e%d" % e, case_periodic, lambda e=e: C.shiftreg(e, True), 3, 3 * e))
    for e in (127, 128, 129, 200, 256, 257, 300, 512):
        for s in C.shiftreg(3).stypes if e in (129, 257, 512) or not q else (F32, I8):
            cs.append(Case("ramp-e%d-%s" % (e, dt(s)), case_ramp, lambda e=e: C.shiftreg(e), e + 5, 3, types=[(s, F32)], dither=True, count=False))
        cs.append(Case("ramp-masked-e%d" % e, case_ramp, lambda e=e: C.shiftreg(e, True), e + 5, 2, dither=True, count=False))
    if not q:
        for e in (1024, 2048, 3000):
            cs.append(Case("ramp-e%d" % e, case_ramp, lambda e=e: C.shiftreg(e), e + 5, 3, count=False))
    return cs
