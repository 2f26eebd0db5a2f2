"""Reference models: plain integer state machines, vectorised over lanes.

A model has init(n) -> state (float64 array [n, k]; every value is exactly
representable) and step(state, x) -> (state', out) with x an int64 array
[n, a] of input bits and out an int64 array [n, b] of output bits.  They are
written from the definitions of the components, not from the code.
"""
import numpy as np


class Model:
    """ninp: number of input streams; alphabet: tuples of input bits."""
    ninp = 1

    def alphabet(self):
        return [tuple((i >> (self.ninp - 1 - j)) & 1 for j in range(self.ninp)) for i in range(2 ** self.ninp)]


class Chain(Model):
    """Helper for composite models: sub-states are column slices."""

    def _subs(self, **subs):
        self.subs = subs
        self.slices = {}
        pos = 0
        for k, m in subs.items():
            w = m.init(1).shape[1]
            self.slices[k] = slice(pos, pos + w)
            pos += w
        self.width = pos

    def init(self, n):
        return np.concatenate([m.init(n) for m in self.subs.values()], axis=1) if self.subs else np.zeros((n, 0))

    def sub(self, new, old, key, x):
        st, out = self.subs[key].step(old[:, self.slices[key]], x)
        new[:, self.slices[key]] = st
        return out


def col(a):
    return a[:, None]


class SkewedSync(Model):
    ninp = 2

    def __init__(self, depth):
        self.top = 2 ** depth - 1

    def init(self, n):
        return np.zeros((n, 1))

    def step(self, st, x):
        held = st[:, 0]
        a, b = x[:, 0], x[:, 1]
        out = a.copy()
        new = held.copy()
        lone_a = (a == 1) & (b == 0)
        keep = lone_a & (held < self.top)
        out[keep] = 0
        new[keep] += 1
        give = (a == 0) & (b == 1) & (held > 0)
        out[give] = 1
        new[give] -= 1
        return col(new), np.stack([out, b], 1)


class SatAcc(Model):
    """out = 1 iff acc (after adding delta, saturated) >= scale, then scale is taken out."""

    def __init__(self, nin, offset, scale, depth):
        self.ninp = nin
        self.offset, self.scale = float(offset), float(scale)
        self.lim = 2.0 ** (depth - 2)

    def init(self, n):
        return np.zeros((n, 1))

    def step(self, st, x):
        acc = np.clip(st[:, 0] + x.sum(1) - self.offset, -self.lim, self.lim)
        out = (acc >= self.scale).astype(np.int64)
        acc = acc - out * self.scale
        # taking the scale out saturates, too
        acc = np.clip(acc, -self.lim, self.lim)
        return col(acc), col(out)


class Add(SatAcc):
    def __init__(self, entry, mode, scale, depth, nin=None):
        off = 0 if mode == "unipolar" else (entry - scale) / 2.0
        super().__init__(nin if nin is not None else entry, off, scale, depth)


class Bi2Uni(Model):
    def __init__(self, depth):
        self.lim = 2.0 ** (depth - 2)

    def init(self, n):
        return np.zeros((n, 1))

    def step(self, st, x):
        acc = np.clip(st[:, 0] + 2 * x[:, 0] - 1, -self.lim, self.lim)
        out = (acc >= 1).astype(np.int64)
        return col(acc - out), col(out)


class Uni2Bi(Model):
    def __init__(self, depth):
        self.lim = 2.0 ** (depth - 2)

    def init(self, n):
        return np.zeros((n, 1))

    def step(self, st, x):
        acc = np.clip(st[:, 0] + x[:, 0] + 1, -self.lim, self.lim)
        out = (acc >= 2).astype(np.int64)
        return col(acc - 2 * out), col(out)


class JKFF(Model):
    ninp = 2

    def init(self, n):
        return np.zeros((n, 1))

    def step(self, st, x):
        q = st[:, 0].astype(np.int64)
        j, k = x[:, 0], x[:, 1]
        q = np.where(j == 1, np.where(k == 1, 1 - q, 1), np.where(k == 1, 0, q))
        return col(q.astype(float)), col(q)


class SignAbs(Model):
    def __init__(self, depth):
        self.top, self.half = 2 ** depth - 1, 2 ** (depth - 1)

    def init(self, n):
        return np.full((n, 1), float(self.half))

    def step(self, st, x):
        acc = np.clip(st[:, 0] + 2 * x[:, 0] - 1, 0, self.top)
        sign = (acc < self.half).astype(np.int64)
        return col(acc), np.stack([sign, sign ^ x[:, 0]], 1)


class ReLU(Model):
    def __init__(self, depth):
        self.top, self.half = 2 ** depth - 1, 2 ** (depth - 1)

    def init(self, n):
        return np.full((n, 1), float(self.half))

    def step(self, st, x):
        out = np.where(st[:, 0] >= self.half, x[:, 0], 1)
        acc = np.clip(st[:, 0] + 2 * out - 1, 0, self.top)
        return col(acc), col(out)


class ShiftReg(Model):
    """inputs: bit[, mask]; outputs: bit at the read position, count (before shift).
    x may carry a read position in its last column when read=True."""

    def __init__(self, entry, masked=False, read=False):
        self.entry, self.masked, self.read = entry, masked, read
        self.ninp = 1 + masked + read

    def alphabet(self):
        import itertools
        dom = [range(2)] + ([range(2)] if self.masked else []) + ([range(self.entry)] if self.read else [])
        return list(itertools.product(*dom))

    def init(self, n):
        return np.tile(np.arange(self.entry) % 2, (n, 1)).astype(float)

    def step(self, st, x):
        pos = x[:, -1] if self.read else np.zeros(len(x), dtype=np.int64)
        out = st[np.arange(len(st)), pos].astype(np.int64)
        cnt = st.sum(1).astype(np.int64)
        sh = np.concatenate([st[:, 1:], x[:, :1].astype(float)], axis=1)
        if self.masked:
            sh = np.where(x[:, 1:2] == 1, sh, st)
        return sh, np.stack([out, cnt], 1)


class Cordiv(Model):
    ninp = 2

    def __init__(self, entry, seq):
        self.entry, self.seq = entry, np.asarray(seq, dtype=np.int64)

    def init(self, n):
        return np.concatenate([np.tile(np.arange(self.entry) % 2, (n, 1)).astype(float), np.zeros((n, 1))], axis=1)

    def step(self, st, x):
        reg, t = st[:, :-1], st[:, -1].astype(np.int64)
        hist = reg[np.arange(len(st)), self.seq[t]].astype(np.int64)
        a, b = x[:, 0], x[:, 1]
        q = np.where(b == 1, a, hist)
        sh = np.concatenate([reg[:, 1:], col(q.astype(float))], axis=1)
        reg = np.where(col(b) == 1, sh, reg)
        return np.concatenate([reg, col(((t + 1) % self.entry).astype(float))], axis=1), col(q)


class Div(Chain):
    ninp = 2

    def __init__(self, mode, depth_sa, depth_ss, entry, seq):
        self.mode = mode
        subs = dict(ss=SkewedSync(depth_ss), kn=Cordiv(entry, seq))
        if mode == "bipolar":
            subs.update(sa=SignAbs(depth_sa), sb=SignAbs(depth_sa), ua=Bi2Uni(3), ub=Bi2Uni(3), out=Uni2Bi(4))
        self._subs(**subs)

    def uni(self, new, st, x):
        return self.sub(new, st, "kn", self.sub(new, st, "ss", x))

    def step(self, st, x):
        new = st.copy()
        if self.mode == "unipolar":
            return new, self.uni(new, st, x)
        sa = self.sub(new, st, "sa", x[:, 0:1])
        sb = self.sub(new, st, "sb", x[:, 1:2])
        ua = self.sub(new, st, "ua", sa[:, 1:2])
        ub = self.sub(new, st, "ub", sb[:, 1:2])
        q = self.uni(new, st, np.concatenate([ua, ub], 1))
        bq = self.sub(new, st, "out", q)
        return new, sa[:, 0:1] ^ sb[:, 0:1] ^ bq


class SqrtEmit(Chain):
    def __init__(self, mode, entry_sr):
        self.mode = mode
        subs = dict(fb=_Reg(0), add=SatAcc(2, 0, 1, 10), sr=ShiftReg(entry_sr))
        if mode == "bipolar":
            subs["b2u"] = Bi2Uni(3)
        self._subs(**subs)

    def step(self, st, x):
        new = st.copy()
        fb = st[:, self.slices["fb"]].astype(np.int64)
        out = self.sub(new, st, "add", np.concatenate([x, fb], 1))
        old_inv = self.sub(new, st, "sr", 1 - out)[:, 0:1]
        cur = self.sub(new, st, "b2u", out) if self.mode == "bipolar" else out
        new[:, self.slices["fb"]] = old_inv & cur
        return new, out


class SqrtTrace(Chain):
    def __init__(self, mode, jk, seq=None):
        self.mode, self.jk = mode, jk
        subs = dict(tr=_Reg(0))
        if mode == "bipolar":
            subs["b2u"] = Bi2Uni(3)
        if jk:
            subs["jk"] = JKFF()
        else:
            subs["kn"] = Cordiv(4, seq)
            subs["dff"] = _Reg(0)
        self._subs(**subs)

    def step(self, st, x):
        new = st.copy()
        tr = st[:, self.slices["tr"]].astype(np.int64)
        out = np.where(tr == 1, 1, x)
        cur = self.sub(new, st, "b2u", out) if self.mode == "bipolar" else out
        if self.jk:
            t = self.sub(new, st, "jk", np.concatenate([cur, np.ones_like(cur)], 1))
        else:
            d = st[:, self.slices["dff"]].astype(np.int64)
            dividend = (1 - d) & cur
            t = self.sub(new, st, "kn", np.concatenate([dividend, dividend | d], 1))
            new[:, self.slices["dff"]] = 1 - d
        new[:, self.slices["tr"]] = t
        return new, out


class _Reg(Model):
    def __init__(self, v):
        self.v = v

    def init(self, n):
        return np.full((n, 1), float(self.v))


class MulStatic(Model):
    """One lane per history; the operand B may differ per lane (array)."""

    def __init__(self, B, seq, mode):
        self.B, self.seq, self.mode = B, np.asarray(seq, dtype=np.int64), mode

    def init(self, n):
        return np.zeros((n, 2))

    def step(self, st, x):
        L = len(self.seq)
        i1, i0 = st[:, 0].astype(np.int64), st[:, 1].astype(np.int64)
        x = x[:, 0]
        B = np.asarray(self.B)
        out = x & (B > self.seq[i1]).astype(np.int64)
        if self.mode == "bipolar":
            out = out | ((1 - x) & (1 - (B > self.seq[i0]).astype(np.int64)))
            i0 = (i0 + 1 - x) % L
        i1 = (i1 + x) % L
        return np.stack([i1, i0], 1).astype(float), col(out)


class MulStream(Chain):
    ninp = 2

    def __init__(self, width, seq, mode):
        self.seq, self.mode, self.L = np.asarray(seq, dtype=np.int64), mode, 2 ** width
        self._subs(sr=ShiftReg(self.L), ix=_Reg2())

    def step(self, st, x):
        new = st.copy()
        cnt = self.sub(new, st, "sr", x[:, 1:2])[:, 1]
        ix = st[:, self.slices["ix"]].astype(np.int64)
        i1, i0 = ix[:, 0], ix[:, 1]
        a = x[:, 0]
        out = a & (cnt > self.seq[i1])
        if self.mode == "bipolar":
            out = out | ((1 - a) & (1 - (cnt > self.seq[i0])))
            i0 = (i0 + 1 - a) % self.L
        i1 = (i1 + a) % self.L
        new[:, self.slices["ix"]] = np.stack([i1, i0], 1)
        return new, col(out.astype(np.int64))


class _Reg2(Model):
    def init(self, n):
        return np.zeros((n, 2))


def sobol(width, dim):
    """The requested Sobol dimension, from the library the repository builds on."""
    import torch
    if width == 0:
        return np.zeros(1, dtype=np.int64)
    v = torch.quasirandom.SobolEngine(dim).draw(2 ** width)[:, dim - 1].double().numpy()
    return np.floor(v * 2 ** width).astype(np.int64)


def rng_seq(kind, width, dim):
    kind = kind.lower()
    n = 2 ** width
    if kind in ("sobol", "rc"):
        return sobol(width, dim)
    if kind in ("race", "tc"):
        return np.arange(n)
    if kind in ("race10", "tc10"):
        return np.arange(n)[::-1].copy()
    raise ValueError(kind)


def quantize(v, width, mode):
    v = np.asarray(v, dtype=np.float64)
    return np.rint((v if mode == "unipolar" else (v + 1) / 2) * 2 ** width).astype(np.int64)
