import itertools
import numpy as np
import torch
from ..core import Case
from .. import comps as C, lanes as L
from ..common import *

LEVEL = "exploration"
RULE = "one evaluation per rounded value; the grid holds every multiple of a quarter (quick) or eighth step over twice the representable range, so every tie and both saturations"
BOUNDS = "integer widths 0-6, fraction widths 0-8 on complete grids, wider formats up to 23 bits around zero, every power of two and both saturations; float16/bfloat16/float32/float64 tensors (values representable in the type), shapes of 0-4 dimensions, huge and infinite values, repeated and nested application"
ASSUMPTIONS = ["values are representable in the input's data type and in single precision"]
F = dict(f16=torch.float16, bf16=torch.bfloat16, f32=torch.float32, f64=torch.float64)


def ref(x, i, f):
    n = 2 ** (i + f) - 1
    return np.clip(np.rint(x * 2.0 ** f), -n, n) / 2.0 ** f


def grid(ctx, i, f, name, sub):
    d = F[name]
    n = 2 ** (i + f)
    x = np.arange(-2 * n * sub, 2 * n * sub + 1) / (sub * 2.0 ** f)
    x = np.concatenate([x, [1e4, -1e4, 6e4, -3e4]])
    t = torch.tensor(x, dtype=torch.float64).to(d)
    # keep exactly representable values only
    t = t[t.double() == torch.tensor(x, dtype=torch.float64)]
    x = t.double().numpy()
    R = C.K().Round(intwidth=i, fracwidth=f)
    e = torch.tensor(ref(x, i, f)).to(d)
    keep = t.clone()
    for shape in ((len(x),), (len(x), 1), (1, len(x), 1, 1)):
        y = R(t.reshape(shape))
        ctx.check(tuple(y.shape) == shape, "output shape %s for input shape %s" % (tuple(y.shape), shape), intwidth=i, fracwidth=f)
        ctx.check(y.dtype == d, "output type %s for input type %s" % (y.dtype, d), intwidth=i, fracwidth=f)
        y = y.reshape(-1)
        bad = (~(y == e)).nonzero().reshape(-1)
        ctx.evals += len(x)
        ctx.nontrivial += len(x)
        if len(bad):
            k = int(bad[0])
            ctx.fail("Round(%d,%d) of %s is %s, expected %s (%d of %d differ)" % (i, f, x[k], float(y[k]), float(e[k]), len(bad), len(x)), dtype=name)
    ctx.check(torch.equal(t, keep), "Round modified its input", intwidth=i, fracwidth=f)
    y = R(t)
    ctx.check(torch.equal(R(y), y), "not idempotent", intwidth=i, fracwidth=f, dtype=name)
    ctx.outcomes.add(hash((i, f, name, e.double().numpy().tobytes())))
    ctx.sample(dict(intwidth=i, fracwidth=f, dtype=name, values=len(x), first=x[:3].tolist()))


def wide(ctx, i, f):
    """Formats too wide for a full grid: windows of quarter steps around zero, every power of two and both saturations."""
    n = 2 ** (i + f)
    w = np.arange(-40, 41)
    k = np.unique(np.concatenate([w] + [w + s * 4 * 2 ** j for j in range(i + f + 1) for s in (1, -1)] + [w + s * 4 * (n - 1) for s in (1, -1)] + [np.array([8 * n, -8 * n])]))
    x = k / 4.0 / 2.0 ** f
    R = C.K().Round(intwidth=i, fracwidth=f)
    for name, d in F.items():
        t = torch.tensor(x, dtype=torch.float64).to(d)
        t = t[(t.double() == torch.tensor(x, dtype=torch.float64)) & (t.float().double() == t.double())]
        v = t.double().numpy()
        e = torch.tensor(ref(v, i, f)).to(d)
        y = R(t)
        bad = (~(y == e)).nonzero().reshape(-1)
        ctx.evals += len(v)
        ctx.nontrivial += len(v)
        if len(bad):
            j = int(bad[0])
            ctx.fail("Round(%d,%d) of %r is %r, expected %r (%d of %d differ)" % (i, f, v[j], float(y[j]), float(e[j]), len(bad), len(v)), dtype=name)
        ctx.outcomes.add(hash((i, f, name)))
    ctx.sample(dict(intwidth=i, fracwidth=f, values=len(x)))


def edge(ctx, i, f):
    R = C.K().Round(intwidth=i, fracwidth=f)
    ctx.check(R(None) is None, "a missing input does not stay missing", intwidth=i, fracwidth=f)
    top = (2 ** (i + f) - 1) / 2.0 ** f
    for d in F.values():
        y = R(torch.tensor([float("inf"), -float("inf")]).to(d))
        exp = torch.tensor([top, -top], dtype=torch.float64).to(d)
        ctx.check(y.dtype == d and torch.equal(y, exp), "infinite values give %s" % y.tolist(), intwidth=i, fracwidth=f, dtype=str(d))
        for v in (0.0, 0.5, -0.5, 1.0, 2.5, -7.75):
            y = R(torch.tensor(v).to(d))
            ctx.check(y.dim() == 0 and y.dtype == d and float(y) == float(torch.tensor(float(ref(v, i, f))).to(d)), "scalar %s gives %s" % (v, y), intwidth=i, fracwidth=f, dtype=str(d))
            ctx.nontrivial += 1
    # one quantiser, many uses
    R1 = C.K().Round(intwidth=i, fracwidth=f)
    for a in (torch.ones(2, 2), torch.zeros(1), torch.full((3,), -0.3)):
        for _ in range(2):
            ctx.check(torch.equal(R1(a).double(), torch.tensor(ref(a.double().numpy(), i, f))), "result depends on earlier calls", intwidth=i, fracwidth=f)
    ctx.outcomes.add((i, f))


def cases(tier):
    q = tier != "thorough"
    cs = []
    for i, f in itertools.product(range(0, 7), range(0, 9)):
        for name in F:
            cs.append(Case("grid-%d-%d-%s" % (i, f, name), grid, i, f, name, 4 if q else 16))
        cs.append(Case("edge-%d-%d" % (i, f), edge, i, f))
    for i, f in itertools.product((0, 1, 2, 4, 7, 8, 10, 12, 15, 20), (0, 1, 4, 8, 9, 10, 11, 12, 14, 16, 20, 23)):
        if 7 <= i + f <= 23 and (i > 6 or f > 8):
            cs.append(Case("wide-%d-%d" % (i, f), wide, i, f))
    return cs
