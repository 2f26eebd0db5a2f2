import torch
from ..core import Case
from .. import comps as C, lanes as L, models as M
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("widths 1-3: every reachable pair of stream positions x every operand x words; widths 4-8: every operand x all periodic histories over more "
          "than two periods; all words of length 8-10 x every operand at widths 1-5; race/tc/race10/tc10/sobol/rc, dims 1-8; sys/lfsr judged against "
          "the sequence they exhibit; widths 9-11 (13 thorough) over more than a period for every random number kind")
ASSUMPTIONS = ["input streams carry the configured stream data type"]

DET = ("Sobol", "rc", "Race", "tc", "race10", "TC10")


def operands(width, mode):
    B = np.arange(2 ** width + 1) / 2.0 ** width
    return B if mode.lower() == "unipolar" else 2 * B - 1


def tiled(ctx, width, mode, rng, dimr, hist, types=((F32, F32, F32),), frac=0.0):
    """Every operand x every history in one run (operand tensor of the lane shape)."""
    vals = operands(width, mode)
    if frac:
        step = (1 if mode.lower() == "unipolar" else 2) / 2.0 ** width
        vals = np.concatenate([vals, np.clip(vals + frac * step, 0 if mode.lower() == "unipolar" else -1, 1)])
    n = len(hist)
    H = np.tile(hist, (len(vals), 1, 1))
    prob = torch.from_numpy(np.repeat(vals, n)).float()
    for s, b, r in types:
        comp = C.mulstatic(width, mode, prob, rng, dimr)
        impl = comp.make(s, b, r)
        cfg = dict(comp.cfg, stype=dt(s), rtype=dt(r))
        L.conform(ctx, comp.model, H, impl, comp.label(), in_dtype=s, out_dtype=s, config=cfg)


def c_words(ctx, width, mode, rng, dimr, k, types=((F32, F32, F32),), frac=0.0):
    tiled(ctx, width, mode, rng, dimr, L.words([(0,), (1,)], k), types, frac)


def c_cover(ctx, width, mode, rng, dimr, k, tail):
    m = M.MulStatic(0, M.rng_seq(rng, width, dimr), mode.lower())
    hist, info = L.cover(m, k, tail=tail)
    ctx.notes["cover"] = info
    tiled(ctx, width, mode, rng, dimr, hist)


def c_periodic(ctx, width, mode, rng, dimr, maxp, periods):
    tiled(ctx, width, mode, rng, dimr, L.periodic([(0,), (1,)], maxp, int(periods * 2 ** width) + 3))


def c_scalar(ctx, width, mode, rng, dimr, k):
    """A single operand value broadcast over all lanes, and a row broadcast over a matrix of lanes."""
    W = L.words([(0,), (1,)], k)
    for v in operands(width, mode):
        comp = C.mulstatic(width, mode, torch.tensor([v], dtype=torch.float), rng, dimr)
        L.conform(ctx, comp.model, W, comp.make(), comp.label(), in_dtype=F32, out_dtype=F32, config=dict(comp.cfg, operand=v))
    vals = operands(width, mode)
    H = np.repeat(W, len(vals), axis=0)
    comp = C.mulstatic(width, mode, torch.from_numpy(vals).float(), rng, dimr)
    comp.model.B = np.tile(M.quantize(vals, width, mode.lower()), len(W))
    L.conform(ctx, comp.model, H, comp.make(), comp.label() + " row operand", in_dtype=F32, out_dtype=F32, shape=(len(W), len(vals)), config=dict(comp.cfg))


def c_exact(ctx, width, mode, rng, dimr):
    """Any 2^width consecutive input ones yield exactly the operand's count (permutation sequences)."""
    n = 2 ** width
    vals = operands(width, mode)
    prob = torch.from_numpy(vals).float()
    comp = C.mulstatic(width, mode, prob, rng, dimr)
    impl = comp.make()
    ones = []
    for t in range(3 * n):
        o, = impl([torch.ones(len(vals))])
        ones.append(L.to_np(o))
    ones = np.stack(ones)
    B = np.arange(n + 1)
    for s in range(2 * n + 1):
        ctx.check(bool((ones[s:s + n].sum(0) == B).all()), "a full period of ones does not reproduce the operand", width=width, start=s, rng=rng, mode=mode)
    ctx.traces += len(vals)
    ctx.n_states += 2 * n


def c_exhibited(ctx, width, mode, rng, seedn):
    """sys / lfsr: infer the sequence from the all-ones lanes, then judge every other lane with it."""
    torch.manual_seed(seedn)
    np.random.seed(seedn)
    n = 2 ** width
    vals = operands(width, mode)
    P = L.periodic([(0,), (1,)], 4, 2 * n + 5)
    ones = np.ones((1, 2 * n + 5, 1), dtype=np.int64)
    H = np.concatenate([ones, P])
    nh = len(H)
    HH = np.tile(H, (len(vals), 1, 1))
    prob = torch.from_numpy(np.repeat(vals, nh)).float()
    K = C.K()
    obj = K.FSUMul(in_1_prob=prob, hwcfg=dict(width=width, mode=mode, static=True, rng=rng, dimr=1), swcfg=dict(rtype=F32, stype=F32, btype=F32))
    outs = np.stack([L.to_np(obj(L.bits(HH[:, t, 0], F32))) for t in range(2 * n + 5)])
    ref = outs[:, ::nh]            # all-ones lane of every operand: [T, n+1]
    seq = (ref[:n] == 0).sum(1) - 1
    ctx.check(bool(((seq >= 0) & (seq < n)).all()), "random numbers out of range", rng=rng)
    if rng == "sys":
        ctx.check(sorted(seq.tolist()) == list(range(n)), "sys sequence is no permutation", seq=seq.tolist())
    else:
        ctx.check(sorted(set(seq[:n - 1].tolist())) == list(range(1, n)) and seq[-1] == seq[0], "lfsr sequence is not maximal", seq=seq.tolist())
    m = M.MulStatic(np.repeat(np.arange(n + 1), nh), seq, mode)
    st = m.init(len(HH))
    for t in range(2 * n + 5):
        st, exp = m.step(st, HH[:, t])
        bad = np.nonzero(outs[t] != exp[:, 0])[0]
        ctx.check(not len(bad), "product bit differs", rng=rng, width=width, cycle=t, history=HH[bad[0], :t + 1, 0].tolist() if len(bad) else None)
    ctx.traces += len(HH)
    ctx.evals += outs.size


def c_wide(ctx, w, mode, rng, d, types=((F32, F32, F32),)):
    """Every operand of a wide multiplier x a handful of periodic and slowly changing histories."""
    T = int(1.3 * 2 ** w) + 5
    t = np.arange(T)
    H = np.array([t * 0 + 1, t * 0, t % 2, t % 3 == 0, t < T // 2, (t // 5) % 2]).astype(np.int64)[:, :, None]
    vals = operands(w, mode)
    if w > 9:
        vals = np.unique(np.concatenate([vals[:9], vals[-9:], vals[::2 ** (w - 7)], vals[3::2 ** (w - 7) + 1]]))
    B = M.quantize(vals, w, mode)
    prob = torch.from_numpy(np.tile(vals, len(H))).float()
    hh = np.repeat(H, len(vals), axis=0)
    for s, b, r in types:
        comp = C.mulstatic(w, mode, prob, rng, d)
        comp.model.B = np.tile(B, len(H))
        L.conform(ctx, comp.model, hh, comp.make(s, b, r), comp.label(), in_dtype=s, out_dtype=s, config=dict(comp.cfg, rtype=dt(r)), count=False)
    ctx.n_states += 2 ** w * len(vals)
    ctx.n_trans += len(vals) * len(H) * T


def cases(tier):
    q = tier != "thorough"
    cs = []
    for mode in ("unipolar", "bipolar"):
        for rng in DET:
            for w in (1, 2, 3):
                cs.append(Case("cover-%s-%s-w%d" % (mode[:3], rng, w), c_cover, w, mode, rng, 2 if w == 3 else 1, 4 if w < 3 else 3, 2 ** w))
            for w in (4, 5):
                cs.append(Case("words-%s-%s-w%d" % (mode[:3], rng, w), c_words, w, mode, rng, 1, 9 if q else 12))
        for w in (1, 2, 3, 4, 5, 6, 7, 8):
            for rng in (("Sobol", "race") if q else DET):
                for d in ((1, 2, 3) if q else (1, 2, 3, 4, 5, 8, 16)):
                    if rng != "Sobol" and d > 1 and w > 3:
                        continue
                    mp = 4 if w <= 5 else 3 if w <= 7 else 2
                    cs.append(Case("periodic-%s-%s-d%d-w%d" % (mode[:3], rng, d, w), c_periodic, w, mode, rng, d, mp, 2.2 if w > 6 else 3))
        for w in (2, 3, 4):
            cs.append(Case("scalar-%s-w%d" % (mode[:3], w), c_scalar, w, mode, "Sobol", 1, 7))
        for w in (2, 4, 6):
            for rng in DET:
                cs.append(Case("exact-%s-%s-w%d" % (mode[:3], rng, w), c_exact, w, mode, rng, 2))
        for w in (2, 3, 5):
            for sd in range(3 if q else 10):
                for rng in ("sys", "lfsr"):
                    cs.append(Case("exhibited-%s-%s-w%d-%d" % (mode[:3], rng, w, sd), c_exhibited, w, mode, rng, sd))
        for frac in (0.25, 0.5, 0.75):
            cs.append(Case("offgrid-%s-%s" % (mode[:3], frac), c_words, 3, mode, "Sobol", 1, 8, ((F32, F32, F32),), frac))
        comp = C.mulstatic(2, mode, torch.zeros(1))
        for s in comp.stypes:
            cs.append(Case("types-%s-%s" % (mode[:3], dt(s)), c_words, 3, mode.upper(), "SOBOL", 2, 9, [(s, F32, r) for r in comp.rtypes]))
            cs.append(Case("types8-%s-%s" % (mode[:3], dt(s)), c_periodic_types, 8, mode, s))
        cs.append(Case("shapes-%s" % mode[:3], c_shapes, mode))
        for w in (9, 10, 11) if q else (9, 10, 11, 12, 13):
            for rng in DET:
                cs.append(Case("wide-%s-%s-w%d" % (mode[:3], rng, w), c_wide, w, mode, rng, 2))
        cs.append(Case("wide-%s-half" % mode[:3], c_wide, 10, mode, "Sobol", 1, [(F32, F32, F16), (F32, F32, I64), (F16, F32, F32), (I8, F32, I32)]))
    return cs


def c_periodic_types(ctx, width, mode, s):
    tiled(ctx, width, mode, "Sobol", 1, L.periodic([(0,), (1,)], 2, 2 ** width + 20), [(s, F32, F32), (s, F32, I64)])


def c_shapes(ctx, mode):
    w = 3
    vals = operands(w, mode)[1:]           # 8 values
    W = L.words([(0,), (1,)], 6)
    H = np.repeat(W, len(vals), axis=0)
    B = np.tile(M.quantize(vals, w, mode), len(W))
    for shape in [(64, 8), (8, 8, 8), (512, 1), (1, 512), (2, 4, 8, 8)]:
        prob = torch.from_numpy(np.tile(vals, len(W))).float().reshape(shape)
        comp = C.mulstatic(w, mode, prob)
        comp.model.B = B
        L.conform(ctx, comp.model, H, comp.make(), comp.label(), in_dtype=F32, out_dtype=F32, shape=shape, config=dict(comp.cfg, shape=shape))
