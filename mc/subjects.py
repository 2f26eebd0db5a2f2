"""Every component as a uniform subject: build it, call it with deterministic inputs.

A subject has make(ext) -> object and call(obj, ins) -> tuple of tensors; inputs(t, salt)
gives the (deterministic) arguments of call number t.  `ext` is a dictionary
holding every argument passed to the constructor, so that checks can snapshot it."""
import copy
import inspect
import numpy as np
import torch
from . import comps as C, layers as Y
from .comps import F32, F64, F16, I8, I32, I64


class Subject:
    def __init__(self, name, cls, args, ninp, shape, call, kind="bits", dtype=F32, metric=False, values=None):
        self.name, self.cls, self.args, self.ninp, self.shape = name, cls, args, ninp, shape
        self.callf, self.kind, self.dtype, self.metric = call, kind, dtype, metric

    def ext(self):
        return copy.deepcopy(self.args())

    def make(self, ext):
        a, kw = ext
        return self.cls()(*a, **kw)

    def inputs(self, t, salt=0):
        out = []
        for j in range(self.ninp):
            sh = self.shape[j] if isinstance(self.shape, list) else self.shape
            n = int(np.prod(sh)) if len(sh) else 1
            i = np.arange(n, dtype=np.int64)
            if self.kind == "bits":
                v = ((i * 2654435761 + (t + 1) * 40503 + (j + 1) * 97 + salt * 7919) >> 7) & 1
            elif self.kind == "cycle":
                v = (t * 3 + salt + 0 * i) if t % 2 else (t + i)
            else:
                # different magnitudes, so that nothing derived from one input serves for another
                v = ((i * 37 + t * 11 + salt * 5 + j * 3) % 31 - 15) / 16.0 * (1.0, 0.0625, 3.0, 0.25)[(t + 2 * salt) % 4]
            d = torch.long if self.kind == "cycle" else self.dtype
            out.append(torch.tensor(v, dtype=torch.float64).to(d).reshape(sh))
        return out

    def call(self, obj, ins, t):
        r = self.callf(obj, ins, t)
        return tuple(r) if isinstance(r, (tuple, list)) else (r,)


def vals(shape, salt=1, lo=-1.0, hi=1.0, q=16):
    n = int(np.prod(shape))
    v = ((np.arange(n) * 7 + salt * 5) % (q + 1)) / q
    return torch.tensor(v * (hi - lo) + lo, dtype=F32).reshape(shape)


def sw(s=F32, b=F32, r=F32):
    return dict(stype=s, btype=b, rtype=r)


def plain(o, ins, t):
    return o(*ins)


def all_subjects():
    K, S = C.K, C.S
    out = []

    def add(name, cls, args, ninp=1, shape=(3,), call=plain, kind="bits", dtype=F32, metric=False):
        out.append(Subject(name, cls, args, ninp, shape, call, kind, dtype, metric))

    import UnarySim.metric.metric as MM
    for d, sh in ((2, (3,)), (1, (2, 2)), (3, ())):
        add("SkewedSync-%d" % d, lambda: S().SkewedSync, lambda d=d: ((dict(depth=d), sw()), {}), 2, sh)
    for d, sh in ((4, (3,)), (3, (2, 2))):
        add("Bi2Uni-%d" % d, lambda: S().Bi2Uni, lambda d=d: ((dict(depth=d), sw()), {}), 1, sh)
        add("Uni2Bi-%d" % d, lambda: S().Uni2Bi, lambda d=d: ((dict(depth=d), sw()), {}), 1, sh)
    add("SkewedSync-default", lambda: S().SkewedSync, lambda: ((), {}), 2)
    add("Bi2Uni-default", lambda: S().Bi2Uni, lambda: ((), {}))
    add("Uni2Bi-default", lambda: S().Uni2Bi, lambda: ((), {}))
    for rng, w, dim in (("Sobol", 3, 1), ("sobol", 3, 2), ("race", 2, 1), ("tc10", 3, 1)):
        add("RNG-%s-%d-%d" % (rng, w, dim), lambda: S().RNG, lambda rng=rng, w=w, dim=dim: ((dict(width=w, dimr=dim, rng=rng), dict(rtype=F32)), {}), 0)
    add("RNG-default", lambda: S().RNG, lambda: ((), {}), 0)
    for m in ("unipolar", "bipolar"):
        add("BinGen-%s" % m, lambda: S().BinGen, lambda m=m: ((vals((4,), 1, 0 if m == "unipolar" else -1), dict(width=4, mode=m), dict(rtype=F32)), {}), 0)
    add("BinGen-default", lambda: S().BinGen, lambda: ((vals((4,)),), {}), 0)
    for n in (4, 8):
        add("BSGen-%d" % n, lambda: S().BSGen, lambda n=n: ((torch.arange(5).float(), torch.arange(n).float().flip(0), dict(stype=F32)), {}), 1, (5,), kind="cycle")
    add("RawScale", lambda: S().RawScale, lambda: ((dict(quantile=0.9),), {}), 1, (7,), kind="values")
    add("RawScale-default", lambda: S().RawScale, lambda: ((), {}), 1, (7,), kind="values")
    for mode, scale, dima, sh in (("unipolar", None, 0, (3, 2)), ("bipolar", 1, 1, (2, 3)), ("bipolar", None, -1, (2, 2, 3))):
        add("FSUAdd-%s-%s-%s" % (mode, scale, dima), lambda: K().FSUAdd, lambda mode=mode, scale=scale, dima=dima: ((dict(mode=mode, scale=scale, dima=dima, depth=6, entry=None), sw()), {}), 1, sh)
    add("FSUAdd-default", lambda: K().FSUAdd, lambda: ((), {}), 1, (3, 2))
    add("FSUAdd-runtime", lambda: K().FSUAdd, lambda: ((dict(mode="bipolar", scale=None, dima=0, depth=8, entry=None), sw()), {}), 1, (3, 2), call=lambda o, i, t: o(i[0], scale=2, entry=4))
    once = lambda o, i, t: o(i[0], scale=3, entry=5) if t == 0 else o(i[0])     # runtime settings count from the first call on
    for mode in ("unipolar", "bipolar"):
        add("FSUAdd-once-%s" % mode, lambda: K().FSUAdd, lambda mode=mode: ((dict(mode=mode, scale=None, dima=0, depth=8, entry=None), sw()), {}), 1, (5, 2), call=once)
    for mode in ("unipolar", "bipolar"):
        add("FSUMul-static-%s" % mode, lambda: K().FSUMul, lambda mode=mode: ((), dict(in_1_prob=vals((3,), 2, 0 if mode == "unipolar" else -1), hwcfg=dict(width=3, mode=mode, dimr=1, rng="Sobol", static=True), swcfg=sw())), 1)
        add("FSUMul-stream-%s" % mode, lambda: K().FSUMul, lambda mode=mode: ((), dict(in_1_prob=None, hwcfg=dict(width=3, mode=mode, dimr=1, rng="Sobol", static=False), swcfg=sw())), 2)
        add("FSUDiv-%s" % mode, lambda: K().FSUDiv, lambda mode=mode: ((dict(depth_sa=3, depth_ss=2, entry_kn=2, mode=mode, rng="Sobol", dimr=4), sw()), {}), 2)
        for emit, jk in ((True, True), (False, True), (False, False)):
            add("FSUSqrt-%s-%s-%s" % (mode, emit, jk), lambda: K().FSUSqrt, lambda mode=mode, emit=emit, jk=jk: ((dict(mode=mode, jk_trace=jk, emit=emit, entry_kn=2, entry_sr=2, rng="Sobol", dimr=4), sw()), {}), 1)
        add("FSUHardsigmoid-%s" % mode, lambda: K().FSUHardsigmoid, lambda mode=mode: ((dict(depth=6, mode=mode, scale=2, dima=0, entry=2), sw()), {}), 1)
    add("FSUMul-default", lambda: K().FSUMul, lambda: ((), {}), 2)
    add("FSUDiv-default", lambda: K().FSUDiv, lambda: ((), {}), 2)
    add("FSUSqrt-default", lambda: K().FSUSqrt, lambda: ((), {}), 1)
    add("FSUHardsigmoid-default", lambda: K().FSUHardsigmoid, lambda: ((), {}), 1)
    add("FSUHardtanh", lambda: K().FSUHardtanh, lambda: ((), {}), 1)
    add("CORDIV-4", lambda: K().CORDIV_kernel, lambda: ((dict(entry=4, rng="Sobol", dimr=4), sw()), {}), 2)
    add("CORDIV-default", lambda: K().CORDIV_kernel, lambda: ((), {}), 2)
    for s in (F32, I8):
        add("JKFF-%s" % C.dt(s), lambda: K().JKFF, lambda s=s: ((dict(stype=s),), {}), 2, dtype=s)
    add("JKFF-default", lambda: K().JKFF, lambda: ((), {}), 2)
    for e, sh in ((3, (3,)), (2, (2, 2))):
        add("ShiftReg-%d" % e, lambda: K().ShiftReg, lambda e=e: ((dict(entry=e), sw()), {}), 1, sh)
    add("ShiftReg-masked", lambda: K().ShiftReg, lambda: ((dict(entry=3), sw()), {}), 2, (3,), call=lambda o, i, t: o(i[0], mask=i[1], index=t % 3))
    add("ShiftReg-default", lambda: K().ShiftReg, lambda: ((), {}), 1)
    for d in (2, 3):
        add("FSUSignAbs-%d" % d, lambda: K().FSUSignAbs, lambda d=d: ((dict(depth=d), sw()), {}), 1)
        add("FSUReLU-%d" % d, lambda: K().FSUReLU, lambda d=d: ((dict(depth=d), sw()), {}), 1)
    add("FSUSignAbs-default", lambda: K().FSUSignAbs, lambda: ((), {}), 1)
    add("FSUReLU-default", lambda: K().FSUReLU, lambda: ((), {}), 1)
    for mode, rng, bias in (("bipolar", "Sobol", True), ("unipolar", "Sobol", False), ("bipolar", "race", True)):
        lo = 0 if mode == "unipolar" else -1
        add("FSULinear-%s-%s" % (mode, rng), lambda: K().FSULinear, lambda mode=mode, rng=rng, bias=bias, lo=lo: ((2, 3), dict(bias=bias, weight_ext=vals((3, 2), 1, lo), bias_ext=vals((3,), 2, lo) if bias else None,
            hwcfg=dict(width=3, mode=mode, scale=None, depth=8, rng=rng, dimr=1), swcfg=sw())), 1, (2, 2))
        add("FSUConv2d-%s-%s" % (mode, rng), lambda: K().FSUConv2d, lambda mode=mode, rng=rng, bias=bias, lo=lo: ((1, 2, 2), dict(padding=1, bias=bias, weight_ext=vals((2, 1, 2, 2), 1, lo), bias_ext=vals((2,), 2, lo) if bias else None,
            hwcfg=dict(width=3, mode=mode, scale=None, depth=8, rng=rng, dimr=1), swcfg=sw())), 1, (2, 1, 2, 2))
    lhw = lambda mode, rng: dict(width=3, mode=mode, scale=None, depth=8, rng=rng, dimr=2)
    for mode, rng in (("bipolar", "Sobol"), ("unipolar", "tc")):
        lo = 0 if mode == "unipolar" else -1
        lin = lambda lo=lo, mode=mode, rng=rng: ((2, 3), dict(bias=True, weight_ext=vals((3, 2), 1, lo), bias_ext=vals((3,), 2, lo), hwcfg=lhw(mode, rng), swcfg=sw()))
        con = lambda lo=lo, mode=mode, rng=rng: ((1, 2, 2), dict(stride=(1, 2), padding=(1, 0), bias=True, weight_ext=vals((2, 1, 2, 2), 1, lo), bias_ext=vals((2,), 2, lo), hwcfg=lhw(mode, rng), swcfg=sw()))
        add("FSULinear-once-%s" % mode, lambda: K().FSULinear, lin, 1, (2, 2), call=once)
        add("FSUConv2d-once-%s" % mode, lambda: K().FSUConv2d, con, 1, (2, 1, 2, 2), call=once)
        add("FSULinearPC-%s" % mode, lambda: K().FSULinearPC, lin, 1, (2, 2))
        add("FSUConv2dPC-%s" % mode, lambda: K().FSUConv2dPC, con, 1, (2, 1, 2, 2))
    add("FSULinear-default", lambda: K().FSULinear, lambda: ((2, 3), dict(weight_ext=vals((3, 2)), bias_ext=vals((3,)))), 1, (2, 2))
    add("FSUConv2d-default", lambda: K().FSUConv2d, lambda: ((1, 2, 2), dict(weight_ext=vals((2, 1, 2, 2)), bias_ext=vals((2,)))), 1, (1, 1, 3, 3))
    hub = lambda **k: dict(dict(widthi=4, rngi="Sobol", quantilei=1, widthw=4, rngw="Sobol", quantilew=1, cycle=8, rounding="round", signmag=True), **k)
    tl = lambda **k: dict(dict(temporal="i", widtht=2, formati="fxp", widthi=5, quantilei=1, formatw="fxp", widthw=4, quantilew=1, cycle=None, rounding="round", signmag=True), **k)
    bins = [("HUB", hub(), 0), ("HUB", hub(rngi="race", cycle=5), 1), ("FXP", dict(widthi=5, quantilei=1, widthw=4, quantilew=0.9, rounding="floor"), 0),
            ("TLUT", tl(), 0), ("TLUT", tl(formati="float32", formatw="float32", cycle=3), 1), ("TLUT", tl(temporal="w", formati="float32"), 2)]
    for cls, hw, i in bins:
        add("%sLinear-%d" % (cls, i), lambda cls=cls: getattr(K(), cls + "Linear"), lambda hw=hw: ((2, 3), dict(weight_ext=vals((3, 2)), bias_ext=vals((3,), 4), hwcfg=dict(hw))), 1, (3, 2), kind="values")
        add("%sConv2d-%d" % (cls, i), lambda cls=cls: getattr(K(), cls + "Conv2d"), lambda hw=hw: ((1, 2, 2), dict(padding=1, weight_ext=vals((2, 1, 2, 2)), bias_ext=vals((2,), 4), hwcfg=dict(hw))), 1, (2, 1, 3, 3), kind="values")
    for cls in ("HUB", "FXP", "TLUT"):
        add("%sLinear-default" % cls, lambda cls=cls: getattr(K(), cls + "Linear"), lambda: ((2, 3), dict(weight_ext=vals((3, 2)), bias_ext=vals((3,), 4))), 1, (3, 2), kind="values")
        add("%sConv2d-default" % cls, lambda cls=cls: getattr(K(), cls + "Conv2d"), lambda: ((1, 2, 2), dict(weight_ext=vals((2, 1, 2, 2)), bias_ext=vals((2,), 4))), 1, (2, 1, 3, 3), kind="values")
    mg = dict(width=3, mode="bipolar", depth=8, depth_ismul=3, rng="Sobol", dimr=1)
    w = lambda: dict(weight_ext_f=vals((2, 4), 1), bias_ext_f=vals((2,), 2), weight_ext_n=vals((2, 4), 3), bias_ext_n=vals((2,), 4))
    add("FSUMGUCell", lambda: K().FSUMGUCell, lambda: ((2, 2), dict(w(), hx_buffer=vals((2, 2), 5), hwcfg=dict(mg), swcfg=sw())), 2, (2, 2))
    add("FSUMGUCell-default", lambda: K().FSUMGUCell, lambda: ((2, 2), dict(w(), hx_buffer=vals((2, 2), 5))), 2, (2, 2))
    add("HUBMGUCell", lambda: K().HUBMGUCell, lambda: ((2, 2), dict(w(), hwcfg=dict(mg))), 2, (2, 2), kind="values")
    add("HUBMGUCell-default", lambda: K().HUBMGUCell, lambda: ((2, 2), w()), 2, (1, 2), kind="values")

    def setw(c):
        for i, (n, p) in enumerate(sorted(c.named_parameters())):
            p.data = vals(tuple(p.shape), i)
        return c
    for hard in (True, False):
        add("HardMGUCell-%s" % hard, lambda: (lambda *a, **k: setw(K().HardMGUCell(*a, **k))), lambda hard=hard: ((2, 2), dict(hard=hard)), 2, (3, 2), kind="values")
        add("HardMGUCellFXP-%s" % hard, lambda: (lambda *a, **k: setw(K().HardMGUCellFXP(*a, **k))), lambda hard=hard: ((2, 2), dict(hard=hard)), 2, (3, 2), kind="values")
    add("HUBReLU", lambda: K().HUBReLU, lambda: ((), {}), 1, kind="values")
    add("HUBReLU-2", lambda: K().HUBReLU, lambda: ((0.5,), {}), 1, kind="values")
    add("HUBHardsigmoid", lambda: K().HUBHardsigmoid, lambda: ((), {}), 1, kind="values")
    add("HUBHardsigmoid-1", lambda: K().HUBHardsigmoid, lambda: ((1,), {}), 1, kind="values")
    add("HUBHardtanh", lambda: K().HUBHardtanh, lambda: ((), {}), 1, kind="values")
    add("Round-1-2", lambda: K().Round, lambda: ((1, 2), {}), 1, kind="values")
    add("Round", lambda: K().Round, lambda: ((), {}), 1, kind="values")

    def mon(o, ins, t):
        o.Monitor(*ins)
        r = o()
        return tuple(x.detach().clone() for x in (r if isinstance(r, tuple) else (r,)))
    for mode in ("unipolar", "bipolar"):
        add("ProgError-%s" % mode, lambda: MM.ProgError, lambda mode=mode: ((vals((3,), 2), dict(scale=2, mode=mode)), {}), 1, call=mon, metric=True)
        add("Stability-%s" % mode, lambda: MM.Stability, lambda mode=mode: ((vals((3,), 2), dict(scale=1, mode=mode, threshold=0.3)), {}), 1, call=mon, metric=True)
    add("ProgError-default", lambda: MM.ProgError, lambda: ((vals((3,), 2),), {}), 1, call=mon, metric=True)
    add("Stability-default", lambda: MM.Stability, lambda: ((vals((3,), 2),), {}), 1, call=mon, metric=True)
    add("Correlation", lambda: MM.Correlation, lambda: ((), {}), 2, call=mon, metric=True)
    add("Correlation-single", lambda: MM.Correlation, lambda: ((), {}), 1, (2, 2), call=mon, metric=True)
    return out


def freeze(x):
    """A comparable snapshot of an argument structure."""
    if isinstance(x, torch.Tensor):
        return ("T", str(x.dtype), tuple(x.shape), tuple(x.detach().double().reshape(-1).tolist()))
    if isinstance(x, dict):
        return ("D", tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ("L", tuple(freeze(v) for v in x))
    return ("V", repr(x))


def defaults():
    """Snapshot of every default constructor argument of every class."""
    import UnarySim.kernel, UnarySim.stream, UnarySim.metric.metric as MM
    snap = {}
    for mod in (UnarySim.kernel, UnarySim.stream, MM):
        for n, c in vars(mod).items():
            if inspect.isclass(c) and c.__module__.startswith("UnarySim"):
                for a, p in inspect.signature(c.__init__).parameters.items():
                    if p.default is not inspect.Parameter.empty:
                        snap[n, a] = freeze(p.default)
    return snap
