"""Reference models and conformance driver for the streaming layers."""
import itertools
import numpy as np
import torch
from . import comps as C, lanes as L, models as M
from .core import Violation

F32 = torch.float32
SW = dict(btype=F32, rtype=F32, stype=F32)


def value(b, width, mode):
    """Source value whose binary form is the integer b."""
    b = np.asarray(b, dtype=np.float64) / 2 ** width
    return b if mode.lower() == "unipolar" else 2 * b - 1


class Linear(M.Model):
    """W: int [out, n] quantised weights, B: int [out] or None."""

    def __init__(self, W, B, width, mode, rng="sobol", dimr=1, scale=None, entry=None, depth=12):
        self.W = np.asarray(W, dtype=np.int64)
        self.B = None if B is None else np.asarray(B, dtype=np.int64)
        self.ninp = self.W.shape[1]
        self.out = self.W.shape[0]
        self.mode = mode.lower()
        self.wtc = rng.lower() in ("race", "tc", "race10", "tc10")
        self.seq = M.rng_seq(rng, width, dimr)
        n = self.ninp + (B is not None)
        self.scale = float(n if scale is None else scale)
        self.entry = n if entry is None else entry
        self.offset = 0.0 if self.mode == "unipolar" else (self.entry - self.scale) / 2
        self.lim = 2.0 ** (depth - 2)

    def init(self, n):
        return np.zeros((n, 2 * self.ninp + 1 + self.out))

    def step(self, st, x):
        n, Ls = self.ninp, len(self.seq)
        i1 = st[:, :n].astype(np.int64)
        i0 = st[:, n:2 * n].astype(np.int64)
        t = st[:, 2 * n].astype(np.int64)
        acc = st[:, 2 * n + 1:]
        if self.wtc:
            w = (self.W[None] > self.seq[t][:, None, None]).astype(np.int64)
            prod = x[:, None, :] & w
            if self.mode == "bipolar":
                prod = 1 - (x[:, None, :] ^ w)
        else:
            w1 = (self.W[None] > self.seq[i1][:, None, :]).astype(np.int64)
            prod = x[:, None, :] & w1
            if self.mode == "bipolar":
                w0 = (self.W[None] > self.seq[i0][:, None, :]).astype(np.int64)
                prod = prod | ((1 - x[:, None, :]) & (1 - w0))
                i0 = (i0 + 1 - x) % Ls
            i1 = (i1 + x) % Ls
        cnt = prod.sum(2)
        if self.B is not None:
            cnt = cnt + (self.B[None] > self.seq[t][:, None])
        if self.B is not None or self.wtc:
            t = (t + 1) % Ls
        acc = np.clip(acc + cnt - self.offset, -self.lim, self.lim)
        o = (acc >= self.scale).astype(np.int64)
        acc = np.clip(acc - o * self.scale, -self.lim, self.lim)
        self.count = cnt
        return np.concatenate([i1, i0, t[:, None], acc], 1).astype(float), o


def all_rows(width, n, vals=None):
    return np.array(list(itertools.product(vals if vals is not None else range(2 ** width + 1), repeat=n)), dtype=np.int64)


def grid(x):
    return torch.tensor(np.asarray(x, dtype=np.float64), dtype=F32)


def make_linear(W, B, width, mode, rng="Sobol", dimr=1, scale=None, depth=12, pc=False):
    hw = dict(width=width, mode=mode, scale=scale, depth=depth, rng=rng, dimr=dimr)
    cls = C.K().FSULinear
    return cls(W.shape[1], W.shape[0], bias=B is not None, weight_ext=grid(value(W, width, mode)),
               bias_ext=None if B is None else grid(value(B, width, mode)), hwcfg=hw, swcfg=dict(SW))


def conform(ctx, model, hist, impl, what, config, in_shape=None, out_shape=None, count=True, call=None):
    """hist [N, T, a] bits; impl(tensor[N]+in_shape) -> tensor [N]+out_shape; model out flattens out_shape."""
    N, T, a = hist.shape
    in_shape = in_shape or (a,)
    st = model.init(N)
    salt = hash((what, repr(config))) & 0xffffffff
    for t in range(T):
        x = hist[:, t]
        if count:
            L.visit(ctx, st, x)
        ns, exp = model.step(st, x)
        osh = (N,) + tuple(out_shape or (exp.shape[1],))
        inp = L.bits(x, F32).reshape((N,) + tuple(in_shape))
        keep = inp.clone()
        got = impl(inp) if call is None else call(inp, t)
        if not isinstance(got, torch.Tensor) or tuple(got.shape) != osh:
            raise Violation("%s returned shape %s, expected %s" % (what, tuple(getattr(got, "shape", ())), osh), dict(config=config, cycle=t))
        if got.dtype != F32:
            raise Violation("%s returned data type %s" % (what, got.dtype), dict(config=config))
        if not torch.equal(keep, inp):
            raise Violation("%s modified its input" % what, dict(config=config, cycle=t))
        gv = L.to_np(got).reshape(N, -1)
        ctx.evals += gv.size
        bad = np.argwhere(gv != exp)
        if len(bad):
            i, j = (int(v) for v in bad[0])
            raise Violation("%s: output %d of batch item %d at cycle %d is %s, expected %s (%d of %d outputs differ)" % (
                what, j, i, t, gv[i, j], exp[i, j], len(bad), gv.size),
                dict(config=config, lane=i, output=j, cycle=t, history=hist[i, :t + 1].tolist()))
        st = ns
        if t < 64:
            ctx.outcomes.add((salt, t, hash(exp.tobytes())))
    ctx.traces += N
    ctx.nontrivial += N * exp.shape[1]
    ctx.sample(dict(what=what, config=config, batch=N, cycles=T, outputs=int(exp.shape[1]), history=hist[N // 2, :12].tolist()))


def im2col(x, k, s, p, d, pad):
    """x int [N,C,H,W] -> windows [N,P,C*kh*kw], (OH, OW); explicit loops, channel-major."""
    N, Cc, H, W = x.shape
    xp = np.full((N, Cc, H + 2 * p[0], W + 2 * p[1]), pad, dtype=x.dtype)
    xp[:, :, p[0]:p[0] + H, p[1]:p[1] + W] = x
    oh = (H + 2 * p[0] - d[0] * (k[0] - 1) - 1) // s[0] + 1
    ow = (W + 2 * p[1] - d[1] * (k[1] - 1) - 1) // s[1] + 1
    out = np.zeros((N, oh * ow, Cc * k[0] * k[1]), dtype=x.dtype)
    for i in range(oh):
        for j in range(ow):
            q = 0
            for c in range(Cc):
                for a in range(k[0]):
                    for b in range(k[1]):
                        out[:, i * ow + j, q] = xp[:, c, i * s[0] + a * d[0], j * s[1] + b * d[1]]
                        q += 1
    return out, (oh, ow)


def pair(v):
    return tuple(v) if isinstance(v, (tuple, list)) else (v, v)


class Conv(M.Model):
    """W: int [O, C, kh, kw]; inputs are flattened frames."""

    def __init__(self, W, B, in_hw, width, mode, stride=1, padding=0, dilation=1, **kw):
        W = np.asarray(W)
        self.k, self.s, self.p, self.d = W.shape[2:], pair(stride), pair(padding), pair(dilation)
        self.C, self.hw = W.shape[1], in_hw
        self.lin = Linear(W.reshape(W.shape[0], -1), B, width, mode, **kw)
        self.mode = mode.lower()
        self.O = W.shape[0]
        _, self.osz = im2col(np.zeros((1, self.C) + tuple(in_hw), dtype=np.int64), self.k, self.s, self.p, self.d, 0)
        self.P = self.osz[0] * self.osz[1]
        self.ninp = self.C * in_hw[0] * in_hw[1]

    def init(self, n):
        return np.concatenate([np.zeros((n, 1)), self.lin.init(n * self.P).reshape(n, -1)], 1)

    def step(self, st, x):
        n = len(x)
        par = int(st[0, 0])
        pad = par if self.mode == "bipolar" else 0
        win, _ = im2col(x.reshape((n, self.C) + tuple(self.hw)), self.k, self.s, self.p, self.d, pad)
        sub, o = self.lin.step(st[:, 1:].reshape(n * self.P, -1), win.reshape(n * self.P, -1))
        o = o.reshape(n, self.P, self.O).transpose(0, 2, 1).reshape(n, -1)
        return np.concatenate([np.full((n, 1), float(1 - par)), sub.reshape(n, -1)], 1), o


class MGU(M.Chain):
    """inputs: hidden bits then input bits; outputs: hidden bits."""

    def __init__(self, Wf, Bf, Wn, Bn, hx, width, depth, depth_ismul, rng="sobol", dimr=1):
        self.H = len(Wf)
        self.ninp = np.asarray(Wf).shape[1]
        kw = dict(rng=rng, dimr=dimr, scale=1, depth=depth)
        f = Linear(Wf, Bf, width, "bipolar", **kw)
        n = Linear(Wn, Bn, width, "bipolar", **kw)
        seq = M.rng_seq(rng, width, dimr)
        seq2 = M.rng_seq(rng, depth_ismul, dimr)
        self.hx = np.asarray(hx, dtype=np.int64)  # [H] or [N, H]
        subs = dict(f=f, n=n)
        for j in range(self.H):
            subs["s%d" % j] = M.SatAcc(2, 0, 2, depth)
            subs["m%d" % j] = M.MulStatic(self.hx[..., j], seq, "bipolar")
            subs["p%d" % j] = M.MulStream(depth_ismul, seq2, "bipolar")
            subs["y%d" % j] = M.SatAcc(3, 1, 1, depth)
        self._subs(**subs)

    def step(self, st, x):
        new = st.copy()
        fi = self.sub(new, st, "f", x)
        one = np.ones_like(fi[:, :1])
        fg = np.concatenate([self.sub(new, st, "s%d" % j, np.concatenate([fi[:, j:j + 1], one], 1)) for j in range(self.H)], 1)
        fh = np.concatenate([self.sub(new, st, "m%d" % j, fg[:, j:j + 1]) for j in range(self.H)], 1)
        ng = self.sub(new, st, "n", np.concatenate([fh, x[:, self.H:]], 1))
        out = []
        for j in range(self.H):
            p = self.sub(new, st, "p%d" % j, np.concatenate([fg[:, j:j + 1], ng[:, j:j + 1]], 1))
            out.append(self.sub(new, st, "y%d" % j, np.concatenate([ng[:, j:j + 1], 1 - p, fh[:, j:j + 1]], 1)))
        return new, np.concatenate(out, 1)
