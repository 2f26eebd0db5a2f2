import contextlib
import copy
import itertools
import torch
from ..core import Case
from .. import comps as C, subjects as SB
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("every trainable layer and cell, several configurations each: every word of 3 operations (4 for the single-input layers in thorough, longer cyclic ones always) over {call, call without gradients, backward, two calls then backward in reverse order, "
          "clear gradients, optimiser step, load_state_dict, in-place weight change, parameter replacement, weight clipper, deep copy, evaluation mode, training mode, failing call}; after every operation the outputs for three "
          "inputs of different magnitude and all gradients are compared")
ASSUMPTIONS = ["parameters are not changed between a call and its backward pass", "the reference is a fresh instance that is given the current parameters (judged by C20-C25)"]



class Trainee:
    """A layer under training next to nothing but its parameter values and gradients."""

    def __init__(self, make, names, xs, bad):
        self.make, self.names, self.xs, self.bad = make, names, xs, bad

    def fresh(self, vals):
        return self.make({k: None if v is None else v.clone() for k, v in vals.items()})


def grads(o, names):
    return {n: None if getattr(o, n, None) is None or getattr(o, n).grad is None else getattr(o, n).grad.clone() for n in names}


def up(y):
    return ((torch.arange(y.numel()) * 5 % 7 - 3) / 4.0).reshape(y.shape).to(y.dtype)


def back(o, xs, order):
    ys = [o(x) for x in xs]
    if len(xs) > 1:
        with torch.no_grad():
            o(xs[0] * 0.5)
    for i in order:
        ys[i].backward(up(ys[i]))


def alt(v, k):
    return ((torch.arange(v.numel()) * (3 + k) + k) % 9 - 4).reshape(v.shape).to(v.dtype) / (4.0 + 3 * k)


OPS = ("call", "silent", "backward", "crossed", "clear", "step", "load", "inplace", "replace", "clip", "copy", "eval", "train", "fail")


class Run:
    def __init__(self, ctx, tr):
        self.ctx, self.tr = ctx, tr
        self.vals = {n: None if v is None else v.clone() for n, v in tr.start.items()}
        self.o = tr.fresh(self.vals)
        self.g = {n: None for n in tr.names}
        self.k = 0

    def add(self, delta):
        for n, d in delta.items():
            if d is not None:
                self.g[n] = d if self.g[n] is None else self.g[n] + d

    def apply(self, op):
        o, tr = self.o, self.tr
        live = [n for n in tr.names if self.vals[n] is not None]
        self.k += 1
        if op == "call":
            o(tr.xs[self.k % 3])
        elif op == "silent":
            with torch.no_grad():
                o(tr.xs[(self.k + 1) % 3])
        elif op in ("backward", "crossed"):
            xs, order = ([tr.xs[0]], [0]) if op == "backward" else ([tr.xs[0], tr.xs[1]], [1, 0])
            back(o, xs, order)
            for i in order:     # the contributions one by one, without anything between a call and its backward pass
                f = tr.fresh(self.vals)
                back(f, [xs[i]], [0])
                self.add(grads(f, tr.names))
        elif op == "clear":
            o.zero_grad(set_to_none=True)
            self.g = {n: None for n in tr.names}
        elif op == "step":
            torch.optim.SGD(o.parameters(), lr=0.25).step()
            for n in live:
                if self.g[n] is not None:
                    self.vals[n] = self.vals[n] - 0.25 * self.g[n]
        elif op == "load":
            sd = o.state_dict()
            for n in live:
                self.vals[n] = alt(self.vals[n], 1)
                sd[n] = self.vals[n].clone()
            o.load_state_dict(sd)
        elif op == "inplace":
            for n in live:
                getattr(o, n).data.mul_(-0.5)
                self.vals[n] = self.vals[n] * -0.5
        elif op == "replace":
            for n in live:
                self.vals[n] = alt(self.vals[n], 2)
                setattr(o, n, torch.nn.Parameter(self.vals[n].clone()))
                self.g[n] = None
        elif op == "clip":
            C.K().NN_SC_Weight_Clipper(frequency=2, mode="bipolar", method="clip", bitwidth=3)(o)
            for n in live:
                if n in ("weight", "bias"):
                    self.vals[n] = (self.vals[n].clamp(-1, 1) * 4).round() / 4
        elif op == "copy":
            with torch.no_grad():
                o(tr.xs[0])  # the cells keep the intermediates of the last call, which can be copied only without a gradient graph
            self.o = copy.deepcopy(o)
            self.g = {n: None for n in tr.names}  # a copied parameter starts without gradient
        elif op == "eval":
            o.eval()
        elif op == "train":
            o.train()
        elif op == "fail":
            with contextlib.suppress(Exception):
                o(tr.bad)

    def probe(self, word):
        ctx, o, tr = self.ctx, self.o, self.tr
        for n in tr.names:
            v = getattr(o, n, None)
            if self.vals[n] is None:
                continue
            t = 0.02 if v.dtype == torch.bfloat16 else 1e-5
            ctx.check(torch.allclose(v.detach(), self.vals[n], rtol=t, atol=t * (1 + float(self.vals[n].abs().max()))), "%s: parameter %s is not what the operations make it" % (tr.name, n),
                      operations=word, got=v.detach().tolist(), expected=self.vals[n].tolist())
            self.vals[n] = v.detach().clone()
            g, e = v.grad, self.g[n]
            if e is None:
                ctx.check(g is None or not g.abs().sum(), "%s: gradient of %s although there was no backward pass" % (tr.name, n), operations=word)
            else:
                ctx.check(g is not None and torch.allclose(g, e, rtol=t * 4, atol=t * (1 + float(e.abs().max()))), "%s: wrong gradient of %s" % (tr.name, n),
                          operations=word, got=None if g is None else g.tolist(), expected=e.tolist())
                self.g[n] = g.detach().clone()
        f = tr.fresh(self.vals)
        with torch.no_grad():
            for i, x in enumerate(tr.xs):
                keep = x.clone()
                a, b = o(x), f(keep)
                ctx.evals += a.numel()
                if a.dtype != b.dtype or a.shape != b.shape or not torch.equal(torch.nan_to_num(a), torch.nan_to_num(b)):
                    ctx.fail("%s: a call after these operations differs from a fresh layer with the same parameters" % tr.name, operations=word, input=i,
                             got=a.tolist(), expected=b.tolist())
                ctx.check(torch.equal(x, keep), "%s modified its input" % tr.name, operations=word)


def explore(ctx, build, name, n, part, parts):
    tr = build()
    tr.name = name
    words = list(itertools.product(OPS, repeat=n))[part::parts]
    words += [w * 4 for i, w in enumerate(itertools.product(("call", "backward", "step", "clear", "load", "copy"), repeat=2)) if i % parts == part]
    words += [("backward", "step", "clear", "silent") * 3, ("crossed", "clip", "step", "eval", "train") * 2] if part == 0 else []
    done = set()
    for w in words:
        r = Run(ctx, tr)
        for j, op in enumerate(w):
            r.apply(op)
            if w[:j + 1] not in done or j + 1 == len(w):
                r.probe(w[:j + 1])
                done.add(w[:j + 1])
            ctx.n_trans += 1
        ctx.traces += 1
    ctx.n_states += len(done)
    ctx.nontrivial += 1
    ctx.outcomes.add(name)
    ctx.sample(dict(layer=name, words=len(words), first=words[min(5, len(words) - 1)]))


def dense(cls, hw, n=2, O=3, bias=True, dtype=F32):
    def b():
        xs = [((torch.arange(3 * n) * 7 % 11 - 5) / q).reshape(3, n).to(dtype) for q in (8.0, 1.5, 37.0)]
        tr = Trainee(lambda v: getattr(C.K(), cls)(n, O, bias=bias, weight_ext=v["weight"], bias_ext=v["bias"], hwcfg=dict(hw)), ("weight", "bias"), xs, torch.ones(2, n + 1).to(dtype))
        tr.start = dict(weight=SB.vals((O, n)).to(dtype) * 0.9, bias=SB.vals((O,), 4).to(dtype) if bias else None)
        return tr
    return b


def conv(cls, hw, bias=True, dtype=F32, padding=1):
    def b():
        xs = [((torch.arange(18) * 7 % 11 - 5) / q).reshape(2, 1, 3, 3).to(dtype) for q in (8.0, 1.5, 37.0)]
        tr = Trainee(lambda v: getattr(C.K(), cls)(1, 2, 2, padding=padding, bias=bias, weight_ext=v["weight"], bias_ext=v["bias"], hwcfg=dict(hw)), ("weight", "bias"), xs, torch.ones(2, 3, 3, 3).to(dtype))
        tr.start = dict(weight=SB.vals((2, 1, 2, 2)).to(dtype) * 0.9, bias=SB.vals((2,), 4).to(dtype) if bias else None)
        return tr
    return b


def cell(cls, bias, hard):
    def b():
        names = ("weight_f", "bias_f", "weight_n", "bias_n")

        def make(v):
            o = getattr(C.K(), cls)(2, 2, bias=bias, hard=hard)
            for n in names:
                if v[n] is not None:
                    getattr(o, n).data = v[n]
            return o
        xs = [((torch.arange(6) * 7 % 11 - 5) / q).reshape(3, 2) for q in (8.0, 1.5, 37.0)]
        tr = Trainee(make, names, xs, torch.ones(2, 5))
        tr.start = dict(weight_f=SB.vals((2, 4), 1) * 0.9, bias_f=SB.vals((2,), 2) if bias else None, weight_n=SB.vals((2, 4), 3) * 0.9, bias_n=SB.vals((2,), 4) if bias else None)
        return tr
    return b


def subjects():
    hub = lambda **k: dict(dict(widthi=4, rngi="Sobol", quantilei=1, widthw=4, rngw="Sobol", quantilew=1, cycle=8, rounding="round", signmag=True), **k)
    fxp = lambda **k: dict(dict(widthi=5, quantilei=1, widthw=4, quantilew=1, rounding="round"), **k)
    tl = lambda **k: dict(dict(temporal="i", widtht=2, formati="fxp", widthi=5, quantilei=1, formatw="fxp", widthw=4, quantilew=1, cycle=None, rounding="round", signmag=True), **k)
    L = [("HUB", hub()), ("HUB", hub(rngi="race", cycle=5, quantilew=0.8, rounding="floor")), ("FXP", fxp()), ("FXP", fxp(quantilei=0.9, rounding="ceil")),
         ("TLUT", tl()), ("TLUT", tl(temporal="w", cycle=2)), ("TLUT", tl(formati="float32", formatw="float32", cycle=3))]
    for i, (cls, hw) in enumerate(L):
        yield "%sLinear-%d" % (cls, i), dense(cls + "Linear", hw, bias=i % 2 == 0)
        yield "%sConv2d-%d" % (cls, i), conv(cls + "Conv2d", hw, bias=i % 2 == 0)
    yield "TLUTLinear-bf16", dense("TLUTLinear", tl(formati="bfloat16", formatw="bfloat16", cycle=3), dtype=torch.bfloat16)
    for hard in (True, False):
        yield "HardMGUCell-%d" % hard, cell("HardMGUCell", hard, hard)
        yield "HardMGUCellFXP-%d" % hard, cell("HardMGUCellFXP", True, hard)


def unseeded(ctx, cls, hw, is_conv):
    """Without given parameters a layer starts like one that is given its parameters."""
    for bias in (True, False):
        for seed in range(4):
            torch.manual_seed(seed)
            a = ((1, 2, 2) if is_conv else (3, 2))
            o = getattr(C.K(), cls)(*a, bias=bias, hwcfg=dict(hw))
            f = getattr(C.K(), cls)(*a, bias=bias, weight_ext=o.weight.detach().clone(), bias_ext=o.bias.detach().clone() if bias else None, hwcfg=dict(hw))
            ctx.check((o.bias is None) == (not bias), "%s: bias exists against the request" % cls)
            for q in (8.0, 1.5, 37.0):
                x = ((torch.arange(18) * 7 % 11 - 5) / q).reshape((2, 1, 3, 3) if is_conv else (6, 3))
                ctx.check(torch.equal(o(x), f(x)), "%s without given parameters differs from one given the same parameters" % cls, bias=bias, seed=seed, config=hw)
            ctx.nontrivial += 1
    ctx.outcomes.add(cls)
    ctx.sample(dict(layer=cls, config=hw))


def cases(tier):
    q = tier != "thorough"
    c = []
    for name, b in subjects():
        n = 3
        parts = 2 if q else 4
        for p in range(parts):
            c.append(Case("words-%s-%d" % (name, p), explore, b, name, n, p, parts))
        if not q and name.endswith("Linear-0") or not q and name in ("FXPLinear-2", "TLUTLinear-4"):
            for p in range(16):
                c.append(Case("words4-%s-%d" % (name, p), explore, b, name, 4, p, 16))
    for i, (cls, hw) in enumerate([("HUB", dict(widthi=4, rngi="Sobol", quantilei=1, widthw=4, rngw="Sobol", quantilew=1, cycle=8, rounding="round", signmag=True)),
                                   ("FXP", dict(widthi=5, quantilei=1, widthw=4, quantilew=1, rounding="round")),
                                   ("TLUT", dict(temporal="i", widtht=2, formati="fxp", widthi=5, quantilei=1, formatw="fxp", widthw=4, quantilew=1, cycle=None, rounding="round", signmag=True))]):
        c.append(Case("unseeded-%sLinear" % cls, unseeded, cls + "Linear", hw, False))
        c.append(Case("unseeded-%sConv2d" % cls, unseeded, cls + "Conv2d", hw, True))
    return c
