import itertools
import torch
from ..core import Case
from .. import comps as C
from ..common import *

LEVEL = "exploration"
RULE = "one evaluation per geometry; the framework's own convolution run on shape-only tensors is the oracle"
BOUNDS = ("every combination of input size 1-12, kernel 1-5, stride 1-4, padding 0-4 (symmetric and asymmetric), dilation 1-3, output padding 0-2, requested output size 1-12; both axes independent; "
          "scalar, tuple and mixed argument forms")
ASSUMPTIONS = ["geometries the framework itself accepts (non-empty output, output padding smaller than stride or dilation)"]


def U():
    import UnarySim.kernel.utils as u
    return u


_C, _T = {}, {}


def real(h, k, s, p, d):
    """Framework size along one axis, p = (low, high); None if rejected."""
    key = (h, k, s, p, d)
    if key not in _C:
        x = torch.nn.functional.pad(torch.empty(1, 1, 1, h, device="meta"), p)
        if x.shape[3] < d * (k - 1) + 1:
            _C[key] = None
        else:
            _C[key] = torch.nn.functional.conv2d(x, torch.empty(1, 1, 1, k, device="meta"), stride=(1, s), dilation=(1, d)).shape[3]
    return _C[key]


def realt(h, k, s, p, d, o):
    key = (h, k, s, p, d, o)
    if key not in _T:
        r = None
        if o < max(s, d):
            full = torch.nn.functional.conv_transpose2d(torch.empty(1, 1, 1, h, device="meta"), torch.empty(1, 1, 1, k, device="meta"),
                                                        stride=(1, s), dilation=(1, d), output_padding=(0, o)).shape[3]
            r = full - p[0] - p[1]
            if r < 1:
                r = None
        _T[key] = r
    return _T[key]


def same(ctx, got, exp, what, **d):
    ctx.evals += 1
    ctx.nontrivial += 1
    if tuple(got) != tuple(exp):
        ctx.fail("%s gives %s, the framework %s" % (what, tuple(got), tuple(exp)), **d)


OTHER = ((5, 3, 1, (1, 1), 1, 0), (7, 2, 3, (0, 1), 2, 1), (4, 1, 2, (2, 0), 1, 0), (9, 3, 2, (0, 0), 1, 1))


def axes(ctx, k, s, d, sizes, pads):
    """One axis over everything, the other over a few fixed geometries, both ways round."""
    u = U()
    for h, lo, hi in itertools.product(sizes, pads, pads):
        r = real(h, k, s, (lo, hi), d)
        if r is None:
            continue
        for h2, k2, s2, p2, d2, _ in OTHER:
            r2 = real(h2, k2, s2, p2, d2)
            a = dict(kernel=(k, k2), stride=(s, s2), pad=((lo, hi), p2), dilation=(d, d2), size=(h, h2))
            same(ctx, u.conv2d_output_shape((h, h2), (k, k2), (s, s2), ((lo, hi), p2), (d, d2)), (r, r2), "conv2d_output_shape", **a)
            same(ctx, u.conv2d_output_shape((h2, h), kernel_size=(k2, k), stride=(s2, s), pad=(p2, (lo, hi)), dilation=(d2, d)), (r2, r), "conv2d_output_shape (swapped)", **a)
        if lo == hi:
            same(ctx, u.conv2d_output_shape(h, k, s, lo, d), (r, r), "conv2d_output_shape (scalars)", size=h, kernel=k, stride=s, pad=lo, dilation=d)
            r2 = real(h + 1, k, s, (1, 1), d)
            if r2 is not None:
                same(ctx, u.conv2d_output_shape((h, h + 1), k, (s, s), (lo, 1), d), (r, r2), "conv2d_output_shape (mixed)", size=h, kernel=k, stride=s, pad=(lo, 1), dilation=d)
    ctx.outcomes.add((k, s, d))


def axest(ctx, k, s, d, sizes, pads):
    u = U()
    for h, lo, hi, o in itertools.product(sizes, pads, pads, (0, 1, 2)):
        r = realt(h, k, s, (lo, hi), d, o)
        if r is None:
            continue
        for h2, k2, s2, p2, d2, o2 in OTHER:
            r2 = realt(h2, k2, s2, p2, d2, o2)
            if r2 is None:
                continue
            a = dict(kernel=(k, k2), stride=(s, s2), pad=((lo, hi), p2), dilation=(d, d2), size=(h, h2), out_pad=(o, o2))
            same(ctx, u.convtransp2d_output_shape((h, h2), (k, k2), (s, s2), ((lo, hi), p2), (d, d2), (o, o2)), (r, r2), "convtransp2d_output_shape", **a)
            same(ctx, u.convtransp2d_output_shape((h2, h), (k2, k), (s2, s), (p2, (lo, hi)), (d2, d), (o2, o)), (r2, r), "convtransp2d_output_shape (swapped)", **a)
        if lo == hi:
            same(ctx, u.convtransp2d_output_shape(h, k, s, lo, d, o), (r, r), "convtransp2d_output_shape (scalars)", size=h, kernel=k, stride=s, pad=lo, dilation=d, out_pad=o)
            ctx.check(torch.nn.functional.conv_transpose2d(torch.empty(1, 1, h, h, device="meta"), torch.empty(1, 1, k, k, device="meta"), stride=s, padding=lo, dilation=d,
                                                           output_padding=o).shape[2] == r if o < max(s, d) else True, "oracle disagreement")
    ctx.outcomes.add((k, s, d, "t"))


def legal(ctx, p, what, **a):
    ctx.check(isinstance(p, tuple) and len(p) == 2 and all(len(q) == 2 and all(isinstance(v, int) for v in q) and 0 <= q[1] - q[0] <= 1 for q in p),
              "%s returned %s" % (what, p), **a)


def padding(ctx, k, s, d, sizes, outs):
    u = U()
    for h, o in itertools.product(sizes, outs):
        for h2, k2, s2, _, d2, _ in OTHER:
            for o2 in (1, 4):
                a = dict(size=(h, h2), out=(o, o2), kernel=(k, k2), stride=(s, s2), dilation=(d, d2))
                p = u.conv2d_get_padding((h, h2), (o, o2), (k, k2), (s, s2), (d, d2))
                legal(ctx, p, "conv2d_get_padding", **a)
                same(ctx, u.conv2d_output_shape((h, h2), (k, k2), (s, s2), p, (d, d2)), (o, o2), "conv2d_get_padding round trip", padding=p, **a)
                if p[0][0] >= 0:
                    same(ctx, (real(h, k, s, p[0], d),), (o,), "convolution with the computed padding", padding=p, **a)
                q = u.conv2d_get_padding((h2, h), (o2, o), (k2, k), (s2, s), (d2, d))
                same(ctx, (q[1], q[0]), p, "conv2d_get_padding with swapped axes", **a)
                for po in (0, 1, 2):
                    pt = u.convtransp2d_get_padding((h, h2), (o, o2), (k, k2), (s, s2), (d, d2), (po, 1))
                    legal(ctx, pt, "convtransp2d_get_padding", out_pad=po, **a)
                    same(ctx, u.convtransp2d_output_shape((h, h2), (k, k2), (s, s2), pt, (d, d2), (po, 1)), (o, o2), "convtransp2d_get_padding round trip", padding=pt, out_pad=po, **a)
                    if po < max(s, d) and pt[0][0] >= 0:
                        same(ctx, (realt(h, k, s, pt[0], d, po),), (o,), "transposed convolution with the computed padding", padding=pt, out_pad=po, **a)
                    qt = u.convtransp2d_get_padding((h2, h), (o2, o), (k2, k), (s2, s), (d2, d), (1, po))
                    same(ctx, (qt[1], qt[0]), pt, "convtransp2d_get_padding with swapped axes", out_pad=po, **a)
        p = u.conv2d_get_padding(h, o, k, s, d)
        legal(ctx, p, "conv2d_get_padding", size=h)
        same(ctx, u.conv2d_output_shape(h, k, s, p, d), (o, o), "conv2d_get_padding round trip (scalars)", padding=p, size=h, out=o)
        p = u.convtransp2d_get_padding(h, o, k, s, d, 1)
        legal(ctx, p, "convtransp2d_get_padding", size=h)
        same(ctx, u.convtransp2d_output_shape(h, k, s, p, d, 1), (o, o), "convtransp2d_get_padding round trip (scalars)", padding=p, size=h, out=o)
    ctx.outcomes.add((k, s, d, "p"))
    ctx.sample(dict(kernel=k, stride=s, dilation=d, sizes=list(sizes), outs=list(outs)))


def cases(tier):
    q = tier != "thorough"
    n = 9 if q else 13
    cs = []
    for k, s, d in itertools.product(range(1, 6), range(1, 5), range(1, 4)):
        cs.append(Case("conv-%d-%d-%d" % (k, s, d), axes, k, s, d, range(1, n), range(0, 4 if q else 5)))
        cs.append(Case("transposed-%d-%d-%d" % (k, s, d), axest, k, s, d, range(1, n), range(0, 3 if q else 5)))
        cs.append(Case("padding-%d-%d-%d" % (k, s, d), padding, k, s, d, range(1, n), range(1, n)))
    # big sizes (float arithmetic must not matter)
    for k, s, d in ((7, 3, 1), (11, 4, 1), (3, 7, 4)):
        cs.append(Case("big-%d-%d-%d" % (k, s, d), axes, k, s, d, (223, 224, 225, 1023), (0, 1, 5)))
    return cs
