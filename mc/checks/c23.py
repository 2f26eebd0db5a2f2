import itertools
import numpy as np
import torch
from ..core import Case
from .. import comps as C, lanes as L, layers as Y, binary as B
from ..common import *
from .c18 import combos
from .c22 import DT

LEVEL = "exploration"
RULE = "one evaluation per gradient element; upstream gradients are the whole unit basis (linearity extends the result to every upstream gradient) plus combinations"
BOUNDS = ("hybrid, fixed-point and temporal look-up (fixed/fixed, fixed/float, float/float) dense and convolution layers, every unit upstream gradient, all subsets of operands requiring gradients, "
          "batches 1-5, convolution geometries, early termination, saturating operands, repeated backward passes; rounding over a fine grid beyond both saturations")
ASSUMPTIONS = ["gradients are compared to relative rounding error of the operands' data type"]
TOL = {torch.float32: 2e-6, torch.float16: 4e-3, torch.bfloat16: 3e-2}


def tlut(temporal, fi, fw, t=3, cycle=None, q=1, r="round"):
    return dict(temporal=temporal, widtht=t, formati=fi, widthi=6, quantilei=q, formatw=fw, widthw=5, quantilew=1, cycle=cycle, rounding=r, signmag=True)


def kinds():
    """(name, dense class, convolution class, configuration, data type)"""
    out = []
    for cyc in (None, 5):
        for ri, rw in (("Sobol", "Sobol"), ("race", "sobol"), ("sobol", "tc")):
            out.append(("hub-%s-%s-%s" % (ri, rw, cyc), "HUBLinear", "HUBConv2d",
                        dict(widthi=5, rngi=ri, quantilei=1 if cyc else 0.8, widthw=5, rngw=rw, quantilew=1, cycle=cyc, rounding="round", signmag=True), torch.float32))
    for wi, ww, q, r in ((5, 4, 1, "round"), (3, 6, 0.5, "floor"), (8, 8, 1, "ceil")):
        out.append(("fxp-%d-%d" % (wi, ww), "FXPLinear", "FXPConv2d", dict(widthi=wi, quantilei=q, widthw=ww, quantilew=1, rounding=r), torch.float32))
    for cyc in (None, 3):
        for te in ("i", "w"):
            fx = [("fxp", "fxp"), ("float32", "float32"), ("float16", "float16"), ("bfloat16", "bfloat16")]
            fx += [("fxp", "float32"), ("fxp", "float16")] if te == "i" else [("float32", "fxp"), ("bfloat16", "fxp")]
            for fi, fw in fx:
                d = DT[fi] if fi in DT else DT[fw] if fw in DT else torch.float32
                out.append(("tlut-%s-%s-%s-%s" % (te, fi, fw, cyc), "TLUTLinear", "TLUTConv2d", tlut(te, fi, fw, 3, cyc), d))
    return out


def close(ctx, got, exp, dtype, what, cfg):
    if exp is None:
        ctx.check(got is None, "%s exists although it was not requested" % what, config=cfg)
        return
    ctx.check(got is not None, "%s is missing" % what, config=cfg)
    ctx.check(tuple(got.shape) == tuple(exp.shape), "%s has shape %s, expected %s" % (what, tuple(got.shape), tuple(exp.shape)), config=cfg)
    ctx.check(got.dtype == dtype, "%s has type %s, expected %s" % (what, got.dtype, dtype), config=cfg)
    g, e = L.to_np(got), L.to_np(exp)
    tol = TOL[dtype] * (np.abs(e).max() + 1e-6) * 4
    bad = np.argwhere(~(np.abs(g - e) <= tol))
    ctx.evals += g.size
    ctx.nontrivial += int((e != 0).sum())
    if len(bad):
        i = tuple(int(v) for v in bad[0])
        ctx.fail("%s element %s is %s, expected %s (%d of %d differ)" % (what, i, g[i], e[i], len(bad), g.size), config=cfg)
    ctx.outcomes.add(hash(e.tobytes()))


def backs(ctx, layer, ref, x, w, b, d, cfg, subsets):
    """ref(x, w, b): the ordinary layer in double precision."""
    for need in subsets:
        need = tuple(n and (i < 2 or b is not None) for i, n in enumerate(need))
        if not any(need):
            continue
        tx = x.clone().requires_grad_(need[0])
        layer.weight.requires_grad_(need[1])
        if b is not None:
            layer.bias.requires_grad_(need[2])
        rx, rw = x.double().requires_grad_(need[0]), w.double().requires_grad_(need[1])
        rb = None if b is None else b.double().requires_grad_(need[2])
        ro = ref(rx, rw, rb)
        n = ro.numel()
        ups = list(torch.eye(n).reshape((n,) + ro.shape)) if n <= 40 else [torch.eye(n)[i].reshape(ro.shape) for i in range(0, n, max(1, n // 23))]
        ups += [((torch.arange(n) * 5 % 9 - 4) / 4.0).reshape(ro.shape), torch.ones(ro.shape)]
        for u in ups:
            layer.weight.grad = None
            tx.grad = rx.grad = rw.grad = None
            if b is not None:
                layer.bias.grad = None
                rb.grad = None
            out = layer(tx)
            out.backward(u.to(out.dtype))
            ref(rx, rw, rb).backward(u.double())
            c = dict(cfg, requires_grad=need, upstream=u.reshape(-1).tolist()[:40])
            close(ctx, tx.grad, rx.grad, d, "input gradient", c)
            close(ctx, layer.weight.grad, rw.grad, d, "weight gradient", c)
            if b is not None:
                close(ctx, layer.bias.grad, rb.grad, d, "bias gradient", c)


ALL = list(itertools.product((False, True), repeat=3))


def dense(ctx, kind):
    name, cls, _, hw, d = kind
    lin = torch.nn.functional.linear
    for N, n, O in ((1, 1, 1), (1, 3, 2), (2, 2, 3), (5, 3, 2), (3, 1, 2)):
        x = ((torch.arange(N * n) * 7 % 11 - 5) / 4.0).reshape(N, n).to(d)
        w = ((torch.arange(O * n) * 5 % 13 - 6) / 5.0).reshape(O, n).to(d)
        for bias in (True, False):
            b = (torch.arange(O) / 3.0 - 0.4).to(d) if bias else None
            layer = getattr(C.K(), cls)(n, O, bias=bias, weight_ext=w.clone(), bias_ext=None if b is None else b.clone(), hwcfg=dict(hw))
            backs(ctx, layer, lambda rx, rw, rb: lin(rx, rw, rb), x, w, b, d, dict(hw, layer=cls, batch=N, inputs=n, outputs=O, bias=bias), ALL)
    ctx.sample(dict(layer=cls, config=hw))


def conv(ctx, kind, geoms):
    name, _, cls, hw, d = kind
    done = 0
    for Cc, hwin, k, s, p, dil, bias in geoms:
        pp, dd = Y.pair(p), Y.pair(dil)
        if any(hwin[i] + 2 * pp[i] < dd[i] * (k[i] - 1) + 1 for i in (0, 1)):
            continue
        O, N = 2, 1 + done % 2
        x = ((torch.arange(N * Cc * hwin[0] * hwin[1]) * 7 % 11 - 5) / 4.0).reshape(N, Cc, *hwin).to(d)
        w = ((torch.arange(O * Cc * k[0] * k[1]) * 5 % 13 - 6) / 5.0).reshape(O, Cc, *k).to(d)
        b = torch.tensor([0.3, -0.6]).to(d) if bias else None
        layer = getattr(C.K(), cls)(Cc, O, k, stride=s, padding=p, dilation=dil, bias=bias, weight_ext=w.clone(), bias_ext=None if b is None else b.clone(), hwcfg=dict(hw))
        ref = lambda rx, rw, rb: torch.nn.functional.conv2d(rx, rw, rb, stride=s, padding=p, dilation=dil)
        backs(ctx, layer, ref, x, w, b, d, dict(hw, layer=cls, kernel=k, stride=s, padding=p, dilation=dil, bias=bias, shape=x.shape),
              [(True, True, True), (True, False, False), (False, True, False)] if done % 3 == 0 else [(True, True, True)])
        done += 1
    ctx.notes["geometries"] = done


def rounding(ctx, i, f):
    R = C.K().Round(intwidth=i, fracwidth=f)
    n = 2 ** (i + f)
    x = torch.arange(-2 * n * 4, 2 * n * 4 + 1) / (4.0 * 2 ** f)
    for d in (torch.float32, torch.float64, torch.float16, torch.bfloat16):
        for up in (torch.ones(len(x)), (torch.arange(len(x)) % 7 - 3) / 2.0):
            t = x.to(d).clone().requires_grad_(True)
            R(t).backward(up.to(d))
            ctx.evals += len(x)
            ctx.nontrivial += len(x)
            ctx.check(t.grad is not None and t.grad.dtype == d and torch.equal(t.grad, up.to(d)), "gradient of rounding is not the identity", intwidth=i, fracwidth=f, dtype=str(d))
        t = x.to(d)
        ctx.check(not R(t).requires_grad, "rounding a tensor without gradient requires one", intwidth=i, fracwidth=f)
    ctx.outcomes.add((i, f))


def cases(tier):
    q = tier != "thorough"
    cs = []
    g = combos()
    for n, k in enumerate(kinds()):
        cs.append(Case("dense-" + k[0], dense, k))
        cs.append(Case("conv-" + k[0], conv, k, g[n % 17::29 if q else 5]))
    for i in range(0, 5):
        for f in range(0, 6):
            cs.append(Case("round-%d-%d" % (i, f), rounding, i, f))
    return cs
