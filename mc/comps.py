"""Streaming components of the code under test, paired with their reference models."""
import numpy as np
import torch
from . import models as M

F32, F64, F16, I8, I32, I64 = torch.float32, torch.float64, torch.float16, torch.int8, torch.int32, torch.int64


def K():
    import UnarySim.kernel as k
    return k


def S():
    import UnarySim.stream as s
    return s


class Comp:
    """make(stype, btype, rtype) -> callable(list of bit tensors) -> tuple of tensors."""

    def __init__(self, name, cfg, model, make, outs=None, stypes=(F32, F64, F16, I8, I32, I64),
                 btypes=(F32, F64, F16, I8, I32, I64), rtypes=(F32,)):
        self.name, self.cfg, self.model, self._make = name, cfg, model, make
        self.ninp = model.ninp
        self.outs = outs if outs is not None else None
        self.stypes, self.btypes, self.rtypes = stypes, btypes, rtypes

    def make(self, stype=F32, btype=F32, rtype=F32):
        return self._make(dict(self.cfg), dict(stype=stype, btype=btype, rtype=rtype))

    def label(self):
        return "%s(%s)" % (self.name, ",".join("%s=%s" % kv for kv in sorted(self.cfg.items())))


def _un(cls):
    def mk(cfg, sw):
        obj = cls()(cfg, sw)

        def call(ins):
            out = obj(*ins)
            return out if isinstance(out, tuple) else (out,)
        call.obj = obj
        return call
    return mk


def skewedsync(depth):
    return Comp("SkewedSync", dict(depth=depth), M.SkewedSync(depth), _un(lambda: S().SkewedSync))


def bi2uni(depth):
    return Comp("Bi2Uni", dict(depth=depth), M.Bi2Uni(depth), _un(lambda: S().Bi2Uni))


def uni2bi(depth):
    return Comp("Uni2Bi", dict(depth=depth), M.Uni2Bi(depth), _un(lambda: S().Uni2Bi))


def signabs(depth):
    # the counter reaches 2^depth-1 and is computed one past it before saturating
    bt = (F32, F64, F16, I32, I64) + ((I8,) if depth <= 6 else ())
    return Comp("FSUSignAbs", dict(depth=depth), M.SignAbs(depth), _un(lambda: K().FSUSignAbs), btypes=bt)


def relu(depth):
    bt = (F32, F64, F16, I32, I64) + ((I8,) if depth <= 6 else ())
    return Comp("FSUReLU", dict(depth=depth), M.ReLU(depth), _un(lambda: K().FSUReLU), btypes=bt)


def hardsigmoid(depth, mode):
    return Comp("FSUHardsigmoid", dict(depth=depth, mode=mode, scale=2, dima=0, entry=2), M.Uni2Bi(depth),
                _un(lambda: K().FSUHardsigmoid))


def hardtanh():
    class Id(M.Model):
        def init(self, n):
            return np.zeros((n, 0))

        def step(self, st, x):
            return st, x[:, :1]

    def mk(cfg, sw):
        obj = K().FSUHardtanh()
        return lambda ins: (obj(ins[0]),)
    return Comp("FSUHardtanh", {}, Id(), mk, btypes=(F32,))


def jkff():
    def mk(cfg, sw):
        obj = K().JKFF(sw)
        f = lambda ins: (obj(ins[0], ins[1]),)
        f.obj = obj
        return f
    return Comp("JKFF", {}, M.JKFF(), mk, btypes=(F32,))


def add(entry, mode, scale=None, depth=10, dima=0, cfg_entry=None, run_scale=None, run_entry=None):
    """The inputs are stacked along dimension dima.  Effective entry/scale per the documented precedence."""
    e = run_entry if run_entry is not None else (cfg_entry if cfg_entry is not None else entry)
    s = run_scale if run_scale is not None else (scale if scale is not None else e)
    model = M.Add(e, mode.lower(), s, depth, nin=entry)
    cfg = dict(mode=mode, scale=scale, dima=dima, depth=depth, entry=cfg_entry)

    def mk(cfg, sw):
        obj = K().FSUAdd(cfg, sw)
        first = [True]

        def call(ins):
            kw = {}
            if run_scale is not None:
                kw["scale"] = run_scale
            if run_entry is not None:
                kw["entry"] = run_entry
            return (obj(torch.stack(ins, dim=dima), **kw),)
        call.obj = obj
        return call
    c = Comp("FSUAdd", cfg, model, mk)
    if run_scale is not None or run_entry is not None or cfg_entry is not None:
        c.name = "FSUAdd[n=%d,run_scale=%s,run_entry=%s]" % (entry, run_scale, run_entry)
    return c


def shiftreg(entry, masked=False):
    model = M.ShiftReg(entry, masked)

    def mk(cfg, sw):
        obj = K().ShiftReg(cfg, sw)

        def call(ins):
            out, cnt = obj(ins[0], mask=ins[1]) if masked else obj(ins[0])
            return (out, cnt)
        call.obj = obj
        return call
    return Comp("ShiftReg" + ("[masked]" if masked else ""), dict(entry=entry), model, mk, btypes=(F32,))


def mulstatic(width, mode, prob, rng="Sobol", dimr=1):
    """prob: tensor of operand values, broadcast against / equal to the lane shape."""
    seq = M.rng_seq(rng, width, dimr)
    B = M.quantize(prob.double().numpy(), width, mode.lower()).reshape(-1)
    model = M.MulStatic(B if B.size > 1 else B[0], seq, mode.lower())

    def mk(cfg, sw):
        obj = K().FSUMul(in_1_prob=prob, hwcfg=cfg, swcfg=sw)
        f = lambda ins: (obj(ins[0]),)
        f.obj = obj
        return f
    return Comp("FSUMul[static]", dict(width=width, mode=mode, static=True, rng=rng, dimr=dimr), model, mk,
                btypes=(F32,), rtypes=(F32, F64, I32, I64))


def mulstream(width, mode, rng="Sobol", dimr=1):
    seq = M.rng_seq(rng, width, dimr)
    model = M.MulStream(width, seq, mode.lower())

    def mk(cfg, sw):
        obj = K().FSUMul(in_1_prob=None, hwcfg=cfg, swcfg=sw)
        f = lambda ins: (obj(ins[0], ins[1]),)
        f.obj = obj
        return f
    return Comp("FSUMul[stream]", dict(width=width, mode=mode, static=False, rng=rng, dimr=dimr), model, mk,
                btypes=(F32,), rtypes=(F32, F64, I32, I64))


def cordiv(entry, rng="Sobol", dimr=4):
    w = int(np.log2(entry))
    model = M.Cordiv(entry, M.rng_seq(rng, w, dimr))

    def mk(cfg, sw):
        obj = K().CORDIV_kernel(cfg, sw)
        f = lambda ins: (obj(ins[0], ins[1]),)
        f.obj = obj
        return f
    return Comp("CORDIV_kernel", dict(entry=entry, rng=rng, dimr=dimr), model, mk, btypes=(F32,))


def div(mode, depth_sa=3, depth_ss=2, entry=2, rng="Sobol", dimr=4):
    w = int(np.log2(entry))
    model = M.Div(mode.lower(), depth_sa, depth_ss, entry, M.rng_seq(rng, w, dimr))

    def mk(cfg, sw):
        obj = K().FSUDiv(cfg, sw)
        f = lambda ins: (obj(ins[0], ins[1]),)
        f.obj = obj
        return f
    return Comp("FSUDiv", dict(depth_sa=depth_sa, depth_ss=depth_ss, entry_kn=entry, mode=mode, rng=rng, dimr=dimr), model, mk)


def sqrt(mode, emit, jk=True, entry_sr=2, entry_kn=1, rng="Sobol", dimr=4):
    m = mode.lower()
    if emit:
        model = M.SqrtEmit(m, entry_sr)
    else:
        model = M.SqrtTrace(m, jk, None if jk else M.rng_seq(rng, 2, 4))
    return Comp("FSUSqrt", dict(mode=mode, jk_trace=jk, emit=emit, entry_kn=entry_kn, entry_sr=entry_sr, rng=rng, dimr=dimr),
                model, _un(lambda: K().FSUSqrt))


def dt(t):
    return str(t).replace("torch.", "")
