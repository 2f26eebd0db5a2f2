from ..core import Case
from .. import comps as C, lanes as L, models as M
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("1-5 entries, both modes, scales {default, 1, 1.5, 2, 2.5, entry+1, 2*entry}, depths 3-10: every reachable accumulator state x all "
          "words that fit the lane budget; reduced dimensions 0-2 and negative; configured and runtime entry/scale; all type pairs; ramps through saturation at depths 8-12; 17 to 2050 entries")
ASSUMPTIONS = ["bits are 0 or 1; scales are dyadic so that the accumulator is exact"]


def ledger(ctx, n, mode, scale, k):
    """scale*ones_out + residue = offset-corrected ones_in: residue inferred, must stay below scale/saturation."""
    import itertools
    A = list(itertools.product((0, 1), repeat=n))
    W = L.words(A, k)
    s = scale if scale is not None else n
    off = 0 if mode == "unipolar" else (n - s) / 2
    impl = C.add(n, mode, scale, depth=10).make()
    res = np.zeros(len(W))
    for t in range(k):
        o, = impl([L.bits(W[:, t, j], F32) for j in range(n)])
        before = res + W[:, t].sum(1) - off
        o = L.to_np(o)
        ctx.check(bool((o == (before >= s)).all()), "carry does not follow the conserved residue", n=n, mode=mode, scale=scale, cycle=t)
        res = before - s * o
        ctx.evals += len(W)


def precedence(ctx):
    """Runtime values bind on the first cycle only and for the instance's life."""
    K = C.K()
    for mode in ("unipolar", "bipolar"):
        for cfg_s in (None, 1, 2):
            for cfg_e in (None, 3):
                for s1 in (None, 1, 4):
                    for e1 in (None, 3, 5):
                        for s2, e2 in ((None, None), (2, None), (None, 4), (3, 6)):
                            obj = K.FSUAdd(dict(mode=mode, scale=cfg_s, dima=0, depth=10, entry=cfg_e), dict(btype=F32, stype=F32))
                            e = e1 if e1 is not None else (cfg_e if cfg_e is not None else 3)
                            s = s1 if s1 is not None else (cfg_s if cfg_s is not None else e)
                            m = C.M.Add(e, mode, s, 10, nin=3)
                            st = m.init(8)
                            X = L.words([(0,), (1,)], 3)[:, :, 0]
                            for t in range(9):
                                x = np.roll(X, t, axis=0)
                                inp = L.bits(x.T, F32)
                                kw = {}
                                a, b = (s1, e1) if t == 0 else (s2, e2)
                                if a is not None:
                                    kw["scale"] = a
                                if b is not None:
                                    kw["entry"] = b
                                got = L.to_np(obj(inp, **kw))
                                st, exp = m.step(st, x)
                                ctx.check(bool((got == exp[:, 0]).all()), "configured/runtime scale and entry precedence broken", mode=mode,
                                          cfg_scale=cfg_s, cfg_entry=cfg_e, first=(s1, e1), later=(s2, e2), cycle=t,
                                          observed=got.tolist(), expected=exp[:, 0].tolist())
                                ctx.states.add((mode, cfg_s, cfg_e, s1, e1, s2, e2, t))
                            ctx.traces += 8


def dims(ctx, mode, dima, shape, n):
    """Reducing any dimension of a multi-dimensional input."""
    K = C.K()
    full = list(shape)
    d = dima if dima >= 0 else dima + len(shape) + 1
    full.insert(d, n)
    N = int(np.prod(shape))
    obj = K.FSUAdd(dict(mode=mode, scale=None, dima=dima, depth=8, entry=None), dict(btype=F32, stype=F32))
    m = C.M.Add(n, mode, n, 8, nin=n)
    st = m.init(N)
    g = np.random.RandomState(7)
    for t in range(40):
        x = np.stack([((np.arange(N) * (j + 3) + t * (j + 1) + (np.arange(N) >> j)) >> (t % 3)) % 2 for j in range(n)], 1).astype(np.int64)
        xin = np.moveaxis(x.T.reshape((n,) + tuple(shape)), 0, d)
        got = obj(L.bits(xin, F32))
        st, exp = m.step(st, x)
        ctx.check(tuple(got.shape) == tuple(shape) and bool((L.to_np(got).reshape(-1) == exp[:, 0]).all()),
                  "wrong sum along dimension %d of input shape %s" % (dima, full), cycle=t, mode=mode)
    ctx.traces += N
    ctx.n_states += 40


def many(ctx, mode, n, scale, depth, stype):
    """Many entries: every number of ones from 0 to n at once (position-rotated), over many cycles."""
    H = np.zeros((n + 1, 12, n), dtype=np.int64)
    for k in range(n + 1):
        for t in range(12):
            kk = (k if t % 3 < 2 else n - k)
            H[k, t, (np.arange(kk) + t * 5) % n] = 1
    m = M.Add(n, mode, n if scale is None else scale, depth, nin=n)
    for dima in (0, 1):
        add = C.K().FSUAdd(dict(mode=mode, scale=scale, dima=dima, depth=depth, entry=None), dict(btype=F32, stype=stype))
        st = m.init(n + 1)
        for t in range(H.shape[1]):
            st, exp = m.step(st, H[:, t])
            x = L.bits(H[:, t], stype)
            o = add(x.t().contiguous() if dima == 0 else x)
            ctx.check(tuple(o.shape) == (n + 1,) and o.dtype == stype, "output shape %s type %s" % (tuple(o.shape), o.dtype), mode=mode, entries=n)
            ov = L.to_np(o)
            ctx.evals += n + 1
            if not (ov == exp[:, 0]).all():
                i = int(np.argmax(ov != exp[:, 0]))
                ctx.fail("FSUAdd with %d entries: output %s at cycle %d, expected %s" % (n, ov[i], t, exp[i, 0]), mode=mode, scale=scale, depth=depth, stype=dt(stype), dima=dima,
                         ones=[int(v) for v in H[i, :t + 1].sum(1)])
    ctx.traces += 2 * (n + 1)
    ctx.n_states += (n + 1) * H.shape[1]
    ctx.n_trans += (n + 1) * H.shape[1] * 2
    ctx.nontrivial += n + 1
    ctx.outcomes.add((mode, n, scale))


def cases(tier):
    q = tier != "thorough"
    cs = []
    lanes = 60000 if q else 400000
    for mode in ("unipolar", "bipolar"):
        for n in (1, 2, 3, 4, 5):
            for scale in [None] + sorted({1, 1.5, 2, 2.5, n + 1, 2 * n}):
                if scale == n:
                    continue
                for depth in ((5, 10) if q else (3, 4, 5, 6, 8, 10, 12)):
                    if scale is not None and scale > 2 ** (depth - 2):
                        continue
                    suf = {1: 10, 2: 6, 3: 4, 4: 3, 5: 2}[n]
                    if depth >= 8 and q:
                        suf = min(suf, {1: 6, 2: 3, 3: 2, 4: 1, 5: 1}[n])
                    cs.append(Case("cover-%s-n%d-s%s-d%d" % (mode[:3], n, scale, depth), case_cover,
                                   lambda n=n, mode=mode, scale=scale, depth=depth: C.add(n, mode, scale, depth),
                                   suf, tail=5, max_lanes=lanes))
        cs.append(Case("saturate-%s-d3" % mode[:3], case_cover, lambda mode=mode: C.add(2, mode, 1, 3), 7, tail=4, max_lanes=lanes))
        cs.append(Case("saturate-%s-d4" % mode[:3], case_cover, lambda mode=mode: C.add(3, mode, 1, 4), 5, tail=4, max_lanes=lanes))
        # the default scale equals the saturation bound or exceeds it
        cs.append(Case("bound-%s" % mode[:3], case_cover, lambda mode=mode: C.add(4, mode, None, 4), 3, tail=4, max_lanes=lanes))
        for rs, re, ce in ((1, None, None), (2, 4, None), (None, 6, None), (None, None, 5), (3, None, 5), (1.5, 3, 2)):
            cs.append(Case("run-%s-%s-%s-%s" % (mode[:3], rs, re, ce), case_cover,
                           lambda mode=mode, rs=rs, re=re, ce=ce: C.add(3, mode, 2 if ce is None else None, 6, cfg_entry=ce, run_scale=rs, run_entry=re),
                           4, tail=4, max_lanes=lanes))
        for n, s in ((2, None), (3, None), (3, 1), (2, 1), (1, None)):
            cs.append(Case("ledger-%s-n%d-s%s" % (mode[:3], n, s), ledger, n, mode, s, {1: 12, 2: 7, 3: 5}[n]))
        for dima in (0, 1, 2, -1, -2):
            for shape in ((4, 6), (2, 3, 2)):
                for n in (1, 2, 3):
                    if -len(shape) - 1 <= dima <= len(shape):
                        cs.append(Case("dims-%s-%d-%s-%d" % (mode[:3], dima, "x".join(map(str, shape)), n), dims, mode, dima, shape, n))
    comp = C.add(2, "bipolar")
    for s in comp.stypes:
        for mode, scale in (("bipolar", None), ("Unipolar", 1), ("BIPOLAR", 1)):
            cs.append(Case("types-%s-%s-%s" % (dt(s), mode, scale), case_cover, lambda mode=mode, scale=scale: C.add(2, mode, scale, 6), 3, tail=8,
                           types=[(s, b) for b in comp.btypes], max_lanes=20000))
    cs.append(Case("precedence", precedence))
    for mode in ("unipolar", "bipolar"):
        cs.append(Case("shapes-%s" % mode, case_shapes, lambda mode=mode: C.add(2, mode, 1, 5), 4))
        cs.append(Case("long-%s" % mode, case_periodic, lambda mode=mode: C.add(3, mode, 1, 8), 2, 400, cut=[150, 200]))
        cs.append(Case("wide-%s" % mode, case_periodic, lambda mode=mode: C.add(9, mode, None, 12), 1, 60))
    for mode in ("unipolar", "bipolar"):
        for n, scale, depth in ((2, 1, 8), (2, None, 9), (3, 1, 10), (2, 5, 10), (2, 1, 12), (3, 7, 12), (1, 1, 9), (2, 300, 12), (2, 60, 9)):
            cfn = lambda n=n, mode=mode, scale=scale, depth=depth: C.add(n, mode, scale, depth)
            cs.append(Case("ramp-%s-n%d-s%s-d%d" % (mode[:3], n, scale, depth), case_ramp, cfn, 2 ** (depth - 2) + 7, 3, count=depth < 10))
            ty = wide_types(cfn(), 2 ** (depth - 2) + 2 * n)
            for i in range(1, len(ty), 5):
                if depth < 11 and n == 2:
                    cs.append(Case("ramptypes-%s-n%d-s%s-d%d-%d" % (mode[:3], n, scale, depth, i), case_ramp, cfn, 2 ** (depth - 2) + 7, 2, types=ty[i:i + 1 if q else i + 5], count=False))
        for n in (17, 64, 130, 300, 2050):
            for scale in (None, 1, 3, 64):
                for st in (F32, I8, F16, I64):
                    cs.append(Case("entries-%s-n%d-s%s-%s" % (mode[:3], n, scale, dt(st)), many, mode, n, scale, 12 if n < 1000 else 16, st))
    return cs
