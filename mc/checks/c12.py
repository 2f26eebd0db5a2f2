from ..core import Case
from .. import comps as C, lanes as L
from ..common import *

LEVEL = "model_checking"
BOUNDS = "all J/K histories of length 8 (4^8), both states x all words of length 7, six data types, returned bits re-read at the end"
ASSUMPTIONS = []


def stable(ctx, stype, k):
    """Bits returned earlier never change, and writing into them does not reach the flip-flop."""
    W = L.words([(0, 0), (0, 1), (1, 0), (1, 1)], k)
    impl = C.jkff().make(stype)
    outs, copies = [], []
    for t in range(k):
        o, = impl([L.bits(W[:, t, 0], stype), L.bits(W[:, t, 1], stype)])
        outs.append(o)
        copies.append(o.detach().clone())
    for t in range(k):
        ctx.check(bool(torch.equal(outs[t].detach(), copies[t])), "bits returned at cycle %d changed later" % t, stype=dt(stype))
    ctx.traces += len(W)


def cases(tier):
    q = tier != "thorough"
    cs = []
    for s in C.jkff().stypes:
        cs.append(Case("words-%s" % dt(s), case_words, C.jkff, 8 if q else 9, types=[(s, F32)]))
        cs.append(Case("cover-%s" % dt(s), case_cover, C.jkff, 7, types=[(s, F32)], tail=3))
        cs.append(Case("stable-%s" % dt(s), stable, s, 5))
    cs.append(Case("shapes", case_shapes, C.jkff, 5))
    cs.append(Case("long", case_periodic, C.jkff, 4, 300, cut=[100, 151]))
    return cs
