"""Case builders shared by the streaming-component checks."""
import numpy as np
import torch
from . import lanes as L
from .comps import F32, F64, F16, I8, I32, I64, dt
from .core import Case, Violation


def run_hist(ctx, comp, hist, stype=F32, btype=F32, rtype=F32, shape=None, count=True):
    impl = comp.make(stype, btype, rtype)
    cfg = dict(component=comp.name, **{k: str(v) for k, v in comp.cfg.items()})
    cfg.update(stype=dt(stype), btype=dt(btype), rtype=dt(rtype), shape=shape)
    out_dtype = None if comp.name.startswith("ShiftReg") else stype
    L.conform(ctx, comp.model, hist, impl, comp.label(), in_dtype=stype, out_dtype=out_dtype, shape=shape,
              outs=comp.outs, config=cfg, count=count)


def case_cover(ctx, comp_fn, suffix, tail=0, max_states=4000, max_depth=10 ** 9, max_lanes=60000, types=((F32, F32),)):
    """Every reachable model state x every word of length `suffix` on the implementation."""
    comp = comp_fn()
    hist, info = L.cover(comp.model, suffix, max_states=max_states, max_depth=max_depth, max_lanes=max_lanes, tail=tail)
    ctx.notes["cover"] = info
    for s, b in types:
        run_hist(ctx, comp, hist, s, b)


def case_words(ctx, comp_fn, k, types=((F32, F32),), rtypes=(F32,), tail=0):
    """All histories of length k (then repeated up to k+tail cycles)."""
    comp = comp_fn()
    W = L.words(comp.model.alphabet(), k)
    if tail:
        W = np.tile(W, (1, -(-(k + tail) // k), 1))[:, :k + tail]
    for s, b in types:
        for r in rtypes:
            run_hist(ctx, comp_fn(), W, s, b, r)


def case_periodic(ctx, comp_fn, maxp, length, cut=None, maxp_switch=2, types=((F32, F32),)):
    comp = comp_fn()
    P = L.periodic(comp.model.alphabet(), maxp, length)
    for s, b in types:
        run_hist(ctx, comp_fn(), P, s, b)
    if cut:
        for c in cut:
            run_hist(ctx, comp_fn(), L.switching(comp.model.alphabet(), maxp_switch, length, c))


def case_shapes(ctx, comp_fn, k, shapes=None):
    """The same histories laid out in different tensor shapes."""
    comp = comp_fn()
    W = L.words(comp.model.alphabet(), k)
    n = len(W)
    for shape in shapes or [(n, 1), (1, n), (2, n // 2), (n // 2, 1, 2), (2, 1, n // 4, 2)]:
        run_hist(ctx, comp_fn(), W, shape=shape, count=False)
    # single elements in several ranks
    for i in range(0, n, max(1, n // 12)):
        for shape in [(1,), (1, 1), (1, 1, 1)]:
            run_hist(ctx, comp_fn(), W[i:i + 1], shape=shape, count=False)


BF16 = torch.bfloat16
ALL6 = (F32, F64, F16, I8, I32, I64)


def type_pairs(comp, full=True):
    return [(s, b) for s in comp.stypes for b in comp.btypes]


def ramps(alphabet, seg, nseg, extra=3, dither=True):
    """Every word of `nseg` letters, each letter held for `seg` cycles (plus two-letter dither segments), then `extra` cycles."""
    A = np.array(alphabet, dtype=np.int64)
    n = len(A)
    segs = [np.repeat(A[i][None], seg, 0) for i in range(n)]
    if dither:
        for i in range(n):
            for j in range(i + 1, n):
                s = np.repeat(A[i][None], seg, 0)
                s[1::2] = A[j]
                segs.append(s)
    m = len(segs)
    W = np.array(list(np.ndindex(*(m,) * nseg)))
    out = np.concatenate([np.array(segs)[W[:, k]] for k in range(nseg)], axis=1)
    return np.concatenate([out, out[:, :extra]], axis=1)


def case_ramp(ctx, comp_fn, seg, nseg, types=((F32, F32),), rtypes=(F32,), dither=False, count=True, extra=3):
    """Slow drifts: large counters driven into and out of their bounds."""
    comp = comp_fn()
    H = ramps(comp.model.alphabet(), seg, nseg, extra, dither)
    for s, b in types:
        for r in rtypes:
            run_hist(ctx, comp_fn(), H, s, b, r, count=count)


def wide_types(comp, top):
    """Stream x buffer types whose buffers hold values up to `top` exactly."""
    ok = lambda t: top <= {F16: 2048, I8: 127}.get(t, 2 ** 24)
    return [(s, b) for s in comp.stypes for b in comp.btypes if ok(b)]
