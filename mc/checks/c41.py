import copy
import itertools
import torch
from ..core import Case
from .. import comps as C, subjects as SB
from ..common import *

LEVEL = "exploration"
RULE = "one evaluation per configuration (or argument shape); every combination of the legal and illegal values listed for a class is tried and compared with the documented rule"
BOUNDS = ("every class with documented restrictions: all combinations of legal (in several letter cases) and illegal values of mode, random number kind, quantiles, rounding, temporal operand, formats, sign-magnitude switch, data types, "
          "bias, scale; all weight and bias shapes up to 4 (dense) and 3 (convolution) per axis; sequence lengths and register sizes 1-70; refused calls inserted at every position of call words")
ASSUMPTIONS = ["a refusal is any exception raised at construction (at the call for argument shapes)"]
MODES = [("unipolar", 1), ("bipolar", 1), ("UniPolar", 1), ("BIPOLAR", 1), ("", 0), ("uni", 0), ("bipolar ", 0), ("tripolar", 0), ("signed", 0)]
KINDS = [(k, 1) for k in ("sobol", "race", "lfsr", "sys", "rc", "tc", "race10", "tc10", "Sobol", "RACE10", "Lfsr", "TC")] + [(k, 0) for k in ("", "sobl", "halton", "race1", "tc100", "random", "sobol ")]
QUANT = [(1, 1), (0.5, 1), (1e-3, 1), (0.999, 1), (0, 0), (0.0, 0), (-0.5, 0), (1.0001, 0), (2, 0), (-1, 0)]
ROUND = [("round", 1), ("floor", 1), ("ceil", 1), ("ROUND", 1), ("Ceil", 1), ("", 0), ("trunc", 0), ("nearest", 0), ("rounds", 0)]
FORMAT = [("fxp", 1), ("bfloat16", 1), ("float16", 1), ("float32", 1), ("FXP", 1), ("Float16", 1), ("float64", 0), ("int8", 0), ("", 0), ("fp32", 0)]
TEMPORAL = ("race", "tc", "race10", "tc10")
F32s = dict(btype=F32, rtype=F32, stype=F32)


def refused(make):
    try:
        make()
    except Exception:
        return True
    return False


def table(ctx, name, make, axes, legal=None):
    """make(**values) for every combination of the axes: refused exactly when a value is illegal or legal(values) does not hold."""
    keys = list(axes)
    for combo in itertools.product(*axes.values()):
        v = {k: c[0] for k, c in zip(keys, combo)}
        ok = all(c[1] for c in combo) and (legal is None or bool(legal(v)))
        keep = copy.deepcopy(v)
        got = not refused(lambda: make(**v))
        ctx.check(got == ok, "%s %s %s" % (name, "refuses the legal" if ok else "accepts the illegal", ", ".join("%s=%r" % kv for kv in keep.items())), configuration=keep)
        ctx.nontrivial += 1
        ctx.outcomes.add((name, tuple(bool(c[1]) for c in combo), ok))
    ctx.sample(dict(cls=name, axes={k: [x[0] for x in a] for k, a in axes.items()}))


def streams(ctx):
    k, s = C.K(), C.S()
    src = torch.tensor([0.25, 0.5])
    table(ctx, "RNG", lambda rng, width: s.RNG(dict(width=width, dimr=1, rng=rng), dict(rtype=F32)), dict(rng=KINDS, width=[(w, 1) for w in (2, 3, 5)]))
    table(ctx, "RawScale", lambda quantile: s.RawScale(dict(quantile=quantile)), dict(quantile=QUANT))
    table(ctx, "BinGen", lambda mode, width: s.BinGen(src, dict(width=width, mode=mode), dict(rtype=F32)), dict(mode=MODES, width=[(1, 1), (8, 1)]))
    table(ctx, "BSGen", lambda n: s.BSGen(src, torch.arange(n).float(), dict(stype=F32)), dict(n=[(n, (n & (n - 1)) == 0) for n in list(range(1, 71)) + [127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097]]))
    table(ctx, "FSUAdd", lambda mode, scale, entry: k.FSUAdd(dict(mode=mode, scale=scale, dima=0, depth=8, entry=entry), dict(F32s)), dict(mode=MODES, scale=[(None, 1), (1, 1), (2.5, 1)], entry=[(None, 1), (3, 1)]))
    table(ctx, "FSUMul", lambda mode, rng, static, p: k.FSUMul(in_1_prob=p, hwcfg=dict(width=3, mode=mode, static=static, rng=rng, dimr=1), swcfg=dict(F32s)),
          dict(mode=MODES, rng=KINDS, static=[(True, 1), (False, 1)], p=[(src, 1), (None, 1)]), lambda v: not v["static"] or v["p"] is not None)
    table(ctx, "FSUDiv", lambda mode, rng: k.FSUDiv(dict(depth_sa=3, depth_ss=2, entry_kn=4, mode=mode, rng=rng, dimr=1), dict(F32s)), dict(mode=MODES, rng=KINDS))
    ent = [(n, (n & (n - 1)) == 0) for n in range(1, 18)]
    table(ctx, "FSUSqrt", lambda mode, kn, sr, emit, jk: k.FSUSqrt(dict(mode=mode, jk_trace=jk, emit=emit, entry_kn=kn, entry_sr=sr, rng="Sobol", dimr=1), dict(F32s)),
          dict(mode=MODES, kn=ent, sr=ent, emit=[(True, 1), (False, 1)], jk=[(True, 1), (False, 1)]))
    table(ctx, "FSUHardsigmoid", lambda mode: k.FSUHardsigmoid(dict(mode=mode, depth=6, scale=2, dima=0, entry=2), dict(F32s)), dict(mode=MODES))
    from UnarySim.metric.metric import ProgError, Stability
    table(ctx, "ProgError", lambda mode, scale: ProgError(src, dict(scale=scale, mode=mode)), dict(mode=MODES, scale=[(1, 1), (2, 1)]))
    table(ctx, "Stability", lambda mode, threshold: Stability(src, dict(scale=1, mode=mode, threshold=threshold)), dict(mode=MODES, threshold=[(0.05, 1), (0.5, 1)]))


def clip(ctx):
    nn = torch.nn
    for mode, ok in MODES:
        if mode.lower() != mode:
            continue        # the clipper documents the lower-case names only
        for freq in (0, 1, 2, 5):
            m = nn.Linear(2, 2)
            w = m.weight.detach().clone()
            c = C.K().NN_SC_Weight_Clipper(frequency=freq, mode=mode, method="clip", bitwidth=4)
            got = not refused(lambda: c(m))
            ctx.check(got == bool(ok), "the clipper %s mode %r" % ("refuses" if ok else "accepts", mode), frequency=freq)
            if not ok:
                ctx.check(torch.equal(m.weight, w), "a refused clipping changed the weight", mode=mode)
            ctx.nontrivial += 1
            ctx.outcomes.add((mode, freq, got))


def fsu_layers(ctx):
    k = C.K()
    wl, bl = torch.full((2, 3), 0.25), torch.full((2,), 0.5)
    wc = torch.full((2, 1, 2, 2), 0.25)
    types = [(F32, 1), (F64, 0), (F16, 0), (I8, 0)]

    def legal(n):
        return lambda v: not (v["mode"].lower() == "bipolar" and v["scale"] is not None and v["scale"] != n + v["bias"] and v["rng"].lower() in TEMPORAL)
    for name, make, n in (("FSULinear", lambda bias, hw, sw: k.FSULinear(3, 2, bias=bias, weight_ext=wl, bias_ext=bl if bias else None, hwcfg=hw, swcfg=sw), 3),
                          ("FSUConv2d", lambda bias, hw, sw: k.FSUConv2d(1, 2, 2, bias=bias, weight_ext=wc, bias_ext=bl if bias else None, hwcfg=hw, swcfg=sw), 4)):
        hw = lambda mode, rng, scale: dict(width=3, mode=mode, scale=scale, depth=8, rng=rng, dimr=1)
        table(ctx, name, lambda mode, rng, scale, bias: make(bias, hw(mode, rng, scale), dict(F32s)),
              dict(mode=MODES, rng=KINDS, scale=[(s, 1) for s in (None, 1, 2, n, n + 1, n + 2)], bias=[(True, 1), (False, 1)]), legal(n))
        table(ctx, name, lambda b, r, s: make(True, hw("bipolar", "Sobol", None), dict(btype=b, rtype=r, stype=s)), dict(b=types, r=types, s=types))
    hwm = lambda mode, rng: dict(width=3, mode=mode, depth=8, depth_ismul=3, rng=rng, dimr=1)
    wf, hb = torch.full((2, 3), 0.25), torch.tensor([[0.5, -0.25]])
    table(ctx, "FSUMGUCell", lambda mode, rng: k.FSUMGUCell(1, 2, bias=True, weight_ext_f=wf, bias_ext_f=bl, weight_ext_n=wf, bias_ext_n=bl, hx_buffer=hb, hwcfg=hwm(mode, rng), swcfg=dict(F32s)),
          dict(mode=[(m, m.lower() == "bipolar") for m, _ in MODES], rng=[(r, o and r.lower() not in TEMPORAL) for r, o in KINDS]))
    sh = list(itertools.product(range(1, 5), repeat=2))
    Z = torch.zeros
    table(ctx, "FSUMGUCell", lambda f, n, bias, bf, bn: k.FSUMGUCell(1, 2, bias=bias, weight_ext_f=Z(f), weight_ext_n=Z(n), bias_ext_f=Z(bf) if bias else None, bias_ext_n=Z(bn) if bias else None, hx_buffer=hb, hwcfg=hwm("bipolar", "Sobol"), swcfg=dict(F32s)),
          dict(f=[(s, s == (2, 3)) for s in sh], n=[(s, s == (2, 3)) for s in sh], bias=[(True, 1)], bf=[(b, b == 2) for b in (1, 2, 3)], bn=[(b, b == 2) for b in (1, 2, 3)]))


def dense_shapes(ctx, cls):
    k = C.K()
    for I, O in ((3, 2), (1, 1), (2, 4)):
        table(ctx, cls, lambda w, bias, b: getattr(k, cls)(I, O, bias=bias, weight_ext=None if w is None else torch.full(w, 0.25), bias_ext=None if b is None or not bias else torch.full((b,), 0.5)),
              dict(w=[(s, s == (O, I)) for s in itertools.product(range(1, 5), repeat=2)] + ([(None, 1)] if not cls.startswith("FSU") else []), bias=[(True, 1), (False, 1)], b=[(n, 1) for n in range(1, 5)]),
              lambda v: not v["bias"] or v["b"] == O)


def conv_shapes(ctx, cls):
    k = C.K()
    for I, O, kk in ((1, 2, 2), (2, 1, (1, 3)), (2, 2, (2, 1))):
        ks = kk if isinstance(kk, tuple) else (kk, kk)
        table(ctx, cls, lambda w, bias, b: getattr(k, cls)(I, O, kk, bias=bias, weight_ext=torch.full(w, 0.25), bias_ext=torch.full((b,), 0.5) if bias else None),
              dict(w=[(s, s == (O, I) + ks) for s in itertools.product(range(1, 4), repeat=4)], bias=[(True, 1), (False, 1)], b=[(n, 1) for n in range(1, 4)]),
              lambda v: not v["bias"] or v["b"] == O)
    table(ctx, cls, lambda groups, padding_mode: getattr(k, cls)(2, 2, 2, groups=groups, padding_mode=padding_mode, bias=False, weight_ext=torch.full((2, 2, 2, 2), 0.25)),
          dict(groups=[(1, 1), (2, 0)], padding_mode=[("zeros", 1), ("reflect", 0), ("replicate", 0), ("circular", 0)]))


def hybrid(ctx, conv):
    k = C.K()
    w = torch.full((2, 1, 2, 2) if conv else (2, 3), 0.25)
    mk = lambda hw: k.HUBConv2d(1, 2, 2, bias=False, weight_ext=w, hwcfg=hw) if conv else k.HUBLinear(3, 2, bias=False, weight_ext=w, hwcfg=hw)
    name = "HUBConv2d" if conv else "HUBLinear"
    kinds = [x for x in KINDS if x[0].lower() != "lfsr"]
    base = dict(widthi=3, rngi="Sobol", quantilei=1, widthw=3, rngw="Sobol", quantilew=1, cycle=4, rounding="round", signmag=True)
    table(ctx, name, lambda **v: mk(dict(base, **v)), dict(rngi=kinds, rngw=kinds), lambda v: not (v["rngi"].lower() in TEMPORAL and v["rngw"].lower() in TEMPORAL))
    table(ctx, name, lambda **v: mk(dict(base, **v)), dict(quantilei=QUANT, quantilew=QUANT, rounding=ROUND))
    table(ctx, name, lambda **v: mk(dict(base, **v)), dict(signmag=[(True, 1), (False, 0)], cycle=[(None, 1), (1, 1), (4, 1), (100, 1)], rounding=ROUND))


def lookup(ctx, conv):
    k = C.K()
    w = torch.full((2, 1, 2, 2) if conv else (2, 3), 0.25)
    mk = lambda hw: k.TLUTConv2d(1, 2, 2, bias=False, weight_ext=w, hwcfg=hw) if conv else k.TLUTLinear(3, 2, bias=False, weight_ext=w, hwcfg=hw)
    name = "TLUTConv2d" if conv else "TLUTLinear"
    base = dict(temporal="i", widtht=2, formati="fxp", widthi=4, quantilei=1, formatw="fxp", widthw=4, quantilew=1, cycle=None, rounding="round", signmag=True)
    T = [("i", 1), ("w", 1), ("input", 1), ("weight", 1), ("I", 1), ("Weight", 1), ("", 0), ("iw", 0), ("inputs", 0), ("o", 0)]
    table(ctx, name, lambda **v: mk(dict(base, **v)), dict(temporal=T, formati=FORMAT, formatw=FORMAT, signmag=[(True, 1), (False, 0)]))
    table(ctx, name, lambda **v: mk(dict(base, **v)), dict(quantilei=QUANT, quantilew=QUANT, rounding=ROUND, formati=[("fxp", 1), ("float32", 1)]))


def shapes_at_call(ctx):
    """Argument shapes that are refused at the call, and nothing else is; a refused call has no effect on later ones."""
    k = C.K()
    sh = {1: (3,), 2: (2, 3), 3: (2, 1, 3), 4: (1, 2, 1, 3)}
    hub = dict(widthi=3, rngi="Sobol", quantilei=1, widthw=3, rngw="Sobol", quantilew=1, cycle=4, rounding="round", signmag=True)
    w, b = torch.full((2, 3), 0.25), torch.full((2,), 0.5)
    lin = lambda mode, rng: lambda: k.FSULinear(3, 2, weight_ext=w, bias_ext=b, hwcfg=dict(width=3, mode=mode, scale=None, depth=8, rng=rng, dimr=1), swcfg=dict(F32s))
    cell = lambda: k.FSUMGUCell(3, 2, bias=False, weight_ext_f=torch.full((2, 5), 0.25), weight_ext_n=torch.full((2, 5), -0.5), hx_buffer=torch.tensor([[0.5, -0.25], [0.0, 1.0]]), hwcfg=dict(width=3, mode="bipolar", depth=8, depth_ismul=3, rng="Sobol", dimr=1), swcfg=dict(F32s))
    one = torch.ones
    good = lambda t: ((torch.arange(6) * 5 + t * 3) % 4 < 2).float().reshape(2, 3)
    h = lambda t: ((torch.arange(4) + t) % 3 < 1).float().reshape(2, 2)
    subj = []
    for mode in ("unipolar", "bipolar"):
        for rng in ("Sobol", "race"):
            subj.append(("FSULinear-%s-%s" % (mode, rng), lin(mode, rng), lambda o, t: o(good(t)), [lambda o, s=s: o(one(s)) for d, s in sh.items() if d != 2] + [lambda o: o(one(2, 4)), lambda o: o(one(2, 2))]))
    subj.append(("HUBLinear", lambda: k.HUBLinear(3, 2, bias=False, weight_ext=w, hwcfg=hub), lambda o, t: o(good(t) - 0.25 * t), [lambda o, s=s: o(one(s)) for d, s in sh.items() if d in (3, 4)] + [lambda o: o(one(2, 4))]))
    subj.append(("FSUMGUCell", cell, lambda o, t: o(good(t), h(t)), [lambda o: o(one(2, 2), h(0)), lambda o: o(one(2, 4), h(0)), lambda o: o(one(1, 3), h(0)), lambda o: o(one(3, 3), h(0)), lambda o: o(good(0), one(2, 1)), lambda o: o(good(0), one(2, 3)), lambda o: o(good(0), one(3, 2)), lambda o: o(good(0), one(1, 2))]))
    subj.append(("ShiftReg", lambda: k.ShiftReg(dict(entry=3), dict(F32s)), lambda o, t: torch.stack(o(good(t), mask=good(t + 1), index=t % 3)),
                 [lambda o: o(good(0), mask=one(2)), lambda o: o(good(0), mask=one(3)), lambda o: o(good(0), mask=one(3, 2)), lambda o: o(good(0), mask=one(1, 3)), lambda o: o(good(0), mask=one(1)), lambda o: o(good(0), index=3), lambda o: o(good(0), index=7)]))
    N = 4
    for name, make, call, bad in subj:
        o = make()
        ref = [call(o, t).clone() for t in range(N)]
        for i, f in enumerate(bad):
            for where in itertools.product((0, 1), repeat=N):
                o = make()
                for t in range(N):
                    if where[t]:
                        ctx.check(refused(lambda: f(o)), "%s accepts the illegal call %d" % (name, i), before_call=t)
                    y = call(o, t)
                    ctx.check(torch.equal(y, ref[t]), "%s: a refused call changed a later result" % name, illegal_call=i, positions=where, call=t)
                ctx.traces += 1
        ctx.nontrivial += 1
        ctx.outcomes.add(name)


def cases(tier):
    c = [Case("streams", streams), Case("clip", clip), Case("fsu", fsu_layers), Case("calls", shapes_at_call)]
    for conv in (False, True):
        c += [Case("hybrid-%d" % conv, hybrid, conv), Case("lookup-%d" % conv, lookup, conv)]
    for x in ("FSU", "HUB", "FXP", "TLUT"):
        c += [Case("dense-%s" % x, dense_shapes, x + "Linear"), Case("conv-%s" % x, conv_shapes, x + "Conv2d")]
    return c
