import itertools
import numpy as np
import torch
from ..core import Case
from .. import comps as C, lanes as L, models as M
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("binary activations: every multiple of 1/64 in [-8,8] (every float16 value as well), scales, four floating types, shapes, in-place and not; streaming hard sigmoid: reachable accumulator states x words, "
          "all 2^14 histories, long periodic histories, both modes, buffer depths 3-10, type pairs; streaming hard tanh: all histories")
ASSUMPTIONS = ["buffer depth at least 4 for the streaming hard sigmoid's counting formula to be free of saturation (its accumulator stays within 0..3)"]
F = dict(f16=torch.float16, bf16=torch.bfloat16, f32=torch.float32, f64=torch.float64)
EPS = dict(f16=2.0 ** -10, bf16=2.0 ** -7, f32=2.0 ** -22, f64=2.0 ** -50)


def functions():
    K = C.K()
    out = []
    for s in (1.0, 1, 0.5, 2.0, 6.0, 0.25):
        out.append(("relu(%s)" % s, lambda s=s: K.HUBReLU(s), lambda x, s=s: np.clip(x, 0, s)))
        out.append(("relu-scale(%s)" % s, lambda s=s: K.HUBReLU(scale=s), lambda x, s=s: np.clip(x, 0, s)))
    out.append(("relu()", lambda: K.HUBReLU(), lambda x: np.clip(x, 0, 1)))
    out.append(("tanh()", lambda: K.HUBHardtanh(), lambda x: np.clip(x, -1, 1)))
    for s in (3, 1, 1.0, 2, 6, 0.5, 12):
        out.append(("sigmoid(%s)" % s, lambda s=s: K.HUBHardsigmoid(s), lambda x, s=s: np.clip((s * x + 3) / 6, 0, 1)))
    out.append(("sigmoid()", lambda: K.HUBHardsigmoid(), lambda x: np.clip((x + 1) / 2, 0, 1)))
    return out


def binary(ctx, name, k):
    nm, make, ref = functions()[k]
    x = np.arange(-512, 513) / 64.0
    x = np.concatenate([x, [1e-4, -1e-4, 100.0, -100.0, 3.0001, -0.9999]])
    if name == "f16":
        a = np.arange(0, 0x7c00, dtype=np.uint16).view(np.float16).astype(np.float64)
        x = np.concatenate([x, a, -a])
    t = torch.tensor(x).to(F[name])
    x = t.double().numpy()
    e = ref(x)
    f = make()
    for shape in ((len(x),), (1, len(x)), (len(x), 1, 1)):
        for _ in range(2):
            i = t.clone().reshape(shape)
            y = f(i)
            ctx.check(tuple(y.shape) == shape and y.dtype == F[name], "%s returned %s %s" % (nm, tuple(y.shape), y.dtype))
            ctx.check(torch.equal(i.reshape(-1), t), "%s modified its input" % nm)
            g = L.to_np(y).ravel()
            bad = np.nonzero(~(np.abs(g - e) <= 2 * EPS[name] * np.maximum(np.abs(e), 1.0 if "sigmoid" in nm else 0)))[0]
            ctx.evals += len(x)
            ctx.nontrivial += len(x)
            if len(bad):
                ctx.fail("%s of %s is %s, expected %s (%d of %d differ)" % (nm, x[bad[0]], g[bad[0]], e[bad[0]], len(bad), len(x)), dtype=name)
    for v in (-2.0, 0.25, 5.0):
        y = f(torch.tensor(v, dtype=F[name]))
        ctx.check(y.dim() == 0 and abs(float(y) - float(ref(np.float64(v)))) <= 2 * EPS[name], "%s of the scalar %s is %s" % (nm, v, y))
    ctx.outcomes.add(hash((nm, name, e.tobytes())))


def inplace(ctx):
    for s in (1.0, 2.0):
        f = C.K().HUBReLU(s, True)
        t = torch.arange(-8, 9) / 4.0
        e = t.clamp(0, s)
        y = f(t)
        ctx.check(torch.equal(y, e) and torch.equal(t, e) and y.data_ptr() == t.data_ptr(), "in-place activation", scale=s)
        t = torch.arange(-8, 9) / 4.0
        ctx.check(torch.equal(C.K().HUBReLU(s, inplace=True)(t), e) and torch.equal(t, e), "in-place activation", scale=s)
    ctx.nontrivial += 4


def counting(ctx, mode, depth, T, maxp):
    """floor((t+k)/2) ones after t cycles with k input ones, straight from the statement."""
    H = np.concatenate([L.words([(0,), (1,)], min(T, 12)), np.tile(L.words([(0,), (1,)], 2), (1, 6, 1))])
    P = L.periodic([(0,), (1,)], maxp, T)
    for H in (H, P):
        impl = C.hardsigmoid(depth, mode).make()
        k = np.zeros(len(H))
        n = np.zeros(len(H))
        for t in range(H.shape[1]):
            k += H[:, t, 0]
            n += L.to_np(impl([L.bits(H[:, t, 0], F32)])[0])
            bad = np.nonzero(n != np.floor((t + 1 + k) / 2))[0]
            ctx.evals += len(H)
            if len(bad):
                i = int(bad[0])
                ctx.fail("hard sigmoid produced %d ones after %d cycles with %d input ones" % (n[i], t + 1, k[i]), history=H[i, :t + 1, 0].tolist(), mode=mode, depth=depth)
        ctx.traces += len(H)


def cases(tier):
    q = tier != "thorough"
    cs = []
    for k in range(len(functions())):
        for name in F:
            cs.append(Case("binary-%s-%s" % (functions()[k][0], name), binary, name, k))
    cs.append(Case("inplace", inplace))
    for mode in ("unipolar", "bipolar"):
        for d in (4, 5, 8, 10):
            cs.append(Case("cover-%s-%d" % (mode, d), case_cover, lambda d=d, mode=mode: C.hardsigmoid(d, mode), 12 if q else 15))
            cs.append(Case("words-%s-%d" % (mode, d), case_words, lambda d=d, mode=mode: C.hardsigmoid(d, mode.upper() if d == 5 else mode), 12 if q else 15))
            cs.append(Case("count-%s-%d" % (mode, d), counting, mode, d, 300 if q else 1100, 8))
        comp = C.hardsigmoid(8, mode)
        for s in comp.stypes:
            cs.append(Case("types-%s-%s" % (mode, dt(s)), case_words, lambda mode=mode: C.hardsigmoid(6, mode), 9,
                           types=[(s, b) for b in comp.btypes]))
        cs.append(Case("shapes-%s" % mode, case_shapes, lambda mode=mode: C.hardsigmoid(6, mode), 5))
        cs.append(Case("long-%s" % mode, case_periodic, lambda mode=mode: C.hardsigmoid(8, mode), 8, 400, cut=[127, 200]))
    cs.append(Case("hardtanh-words", case_words, C.hardtanh, 12))
    for s in ALL6:
        cs.append(Case("hardtanh-%s" % dt(s), case_words, C.hardtanh, 8, types=[(s, F32)]))
    cs.append(Case("hardtanh-shapes", case_shapes, C.hardtanh, 5))
    return cs
