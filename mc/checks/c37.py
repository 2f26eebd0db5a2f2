import contextlib
import itertools
import torch
from ..core import Case, Violation
from .. import comps as C, subjects as SB
from ..common import *
from .c32 import pristine, snap

LEVEL = "model_checking"
BOUNDS = ("every component, layer and metric: every word of 3 calls (4 thorough) over {plain, strided, axis-permuted, offset view, under no_grad, in evaluation mode, in training mode}, "
          "runs entirely under no_grad and inference_mode, inputs and constructor tensors that record gradients, constructor tensors strided, permuted, offset or given as parameters (x every layout)")
ASSUMPTIONS = ["streams that record gradients are not fed to the streaming dense, convolution and recurrent layers", "the reference is a run on contiguous tensors in a pristine process"]


def strided(x):
    if x.dim() == 0:
        return torch.stack([x, x + 1])[0]
    y = torch.full([2 * n for n in x.shape], 7).to(x.dtype)[tuple(slice(1, None, 2) for _ in x.shape)]
    y.copy_(x)
    return y


def permuted(x):
    if x.dim() < 2:
        return strided(x)
    y = torch.zeros(tuple(reversed(x.shape)), dtype=x.dtype).permute(*reversed(range(x.dim())))
    y.copy_(x)
    return y


def offset(x):
    y = torch.full((x.numel() + 9,), 5).to(x.dtype)[4:4 + x.numel()].reshape(x.shape)
    y.copy_(x)
    return y


LAYOUTS = dict(strided=strided, permuted=permuted, offset=offset)


def mode(o, name):
    f = getattr(o, name, None)
    if f is not None:
        f()


def call(s, o, ins, t, how):
    if how in LAYOUTS:
        return s.call(o, [LAYOUTS[how](x.detach()) for x in ins], t)
    if how == "no_grad":
        with torch.no_grad():
            return s.call(o, ins, t)
    if how in ("eval", "train"):
        mode(o, how)
        return s.call(o, ins, t)
    if how == "recording":
        return s.call(o, [x.clone().requires_grad_() if x.is_floating_point() else x for x in ins], t)
    return s.call(o, ins, t)


def relay(x, f):
    if isinstance(x, torch.Tensor):
        return f(x)
    if isinstance(x, dict):
        return {k: relay(v, f) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(relay(v, f) for v in x)
    return x


EXTS = dict(LAYOUTS, parameter=lambda x: torch.nn.Parameter(x) if x.is_floating_point() else x,
            recording=lambda x: x.clone().requires_grad_() if x.is_floating_point() else x)


def has_tensor(x):
    hit = []
    relay(x, lambda t: hit.append(1) or t)
    return bool(hit)


def reference(s, n):
    o = s.make(s.ext())
    return [snap(s.call(o, s.inputs(t, 0), t)) for t in range(n)]


def compare(ctx, s, got, ref, t, **kw):
    ctx.evals += sum(len(g[2]) for g in got)
    ctx.n_trans += 1
    if got != ref:
        raise Violation("%s: call %d depends on the memory layout or execution mode" % (s.name, t + 1), dict(kw, got=got, plain=ref))


def explore(ctx, s, n, heavy, streaming):
    st, ref = pristine(reference, s, n)
    if st != "ok":
        ctx.fail("%s cannot be run: %s" % (s.name, ref))
    letters = ["plain", "strided", "permuted", "offset", "no_grad", "eval", "train"]
    if s.ninp == 0:
        letters = [l for l in letters if l not in LAYOUTS]
    words = itertools.product(letters, repeat=n) if not heavy else [(l,) * n for l in letters] + [tuple(letters[(i + j) % len(letters)] for j in range(n)) for i in range(len(letters))]
    words = list(words)
    if not streaming:
        words += [w for w in itertools.product(("plain", "recording", "no_grad", "strided"), repeat=n) if "recording" in w][:None if not heavy else 3]
    for w in words:
        o = s.make(s.ext())
        for t in range(n):
            compare(ctx, s, snap(call(s, o, s.inputs(t, 0), t, w[t])), ref[t], t, calls=w)
        ctx.traces += 1
    for cm in (torch.no_grad, torch.inference_mode):
        with cm():
            o = s.make(s.ext())
            for t in range(n):
                compare(ctx, s, snap(s.call(o, s.inputs(t, 0), t)), ref[t], t, calls=cm.__name__)
        ctx.traces += 1
    if has_tensor(s.ext()):
        for e, f in EXTS.items():
            for l in ("plain", "strided", "permuted") if not heavy else ("plain",):
                ext = relay(s.ext(), f)
                o = s.make(ext)
                for t in range(n):
                    compare(ctx, s, snap(call(s, o, s.inputs(t, 0), t, l)), ref[t], t, constructor=e, calls=l)
                ctx.traces += 1
    ctx.n_states += len(words) * n
    ctx.nontrivial += 1
    ctx.outcomes.add((s.name, str(ref)))
    ctx.sample(dict(component=s.name, words=len(words), first=words[1]))


def cases(tier):
    q = tier != "thorough"
    n = 3 if q else 4
    heavy = lambda s: s.name.startswith("HUBMGU") or (s.name.startswith(("HUBLinear", "HUBConv", "TLUT")) and q)
    layer = lambda s: s.name.startswith(("FSULinear", "FSUConv2d", "FSUMGUCell"))
    return [Case("layout-" + s.name, explore, s, n, heavy(s), layer(s)) for s in SB.all_subjects()]
