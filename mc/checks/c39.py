import os
import numpy as np
import torch
from ..core import Case
from .. import comps as C, lanes as L, repo, rtl
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("every module under hw/kernel and hw/stream except old/ and the two CORDIV_kernel_IS regenerators: depths 1-5, every input history of 12-16 bits (all cycles; 16-20 thorough) and every periodic history up to period 4 over 40 cycles, "
          "6 random number sequences, restart by reset after every prefix")
ASSUMPTIONS = ["the sources are simulated by mc/rtl.py, two-valued, inputs stable before the clock edge", "converters inside a circuit are followed as long as their counter stays within its range, beyond which the circuits wrap and the simulated components saturate",
               "outputs that pass a register in the circuit are compared one cycle later"]


class Ref:
    """A simulated component as a state machine over int64 lanes."""

    def __init__(self, make):
        self.o = make(dict(stype=F32, btype=F32))

    def __call__(self, *ins, **kw):
        r = self.o(*[torch.from_numpy(np.ascontiguousarray(i)).float() for i in ins], **kw)
        r = tuple(x.detach().numpy().astype(np.int64) for x in (r if isinstance(r, tuple) else (r,)))
        return r if len(r) > 1 else r[0]


class Machine:
    """One cycle: out(ins) -> outputs before the clock edge; registers update in the same call."""
    valid = None

    def __init__(self, n, p):
        self.n, self.p, self.z = n, p, np.zeros(n, dtype=np.int64)
        self.valid = np.ones(n, dtype=bool)
        self.start()


class B2U:
    """Registered Bi2Uni; valid until the ideal count leaves the range of the circuit."""

    def __init__(self, m, dep):
        self.m, self.half, self.a, self.q = m, 2 ** (dep - 1), m.z.copy(), m.z.copy()
        self.c = Ref(lambda sw: C.S().Bi2Uni(dict(depth=14), sw))

    def push(self, x):
        self.a = self.a + 2 * x - 1 - (self.a > 0)
        self.m.valid &= (self.a >= -self.half) & (self.a < self.half)
        self.q = self.c(x)


class Cordiv:
    def __init__(self, m, dep):
        self.sr = Ref(lambda sw: C.K().ShiftReg(dict(entry=dep), dict(stype=F32)))
        self.dep = dep
        self.h = np.array([[i % 2] * m.n for i in range(dep)])

    def step(self, a, b, r):
        q = np.where(b == 1, a, self.h[r % self.dep])
        s, _ = self.sr(q, index=int(r % self.dep))
        assert (s == self.h[r % self.dep]).all(), "ShiftReg disagrees with the quotient history"
        self.h = np.concatenate([self.h[1:], q[None]])
        return q


class SkewedSync(Machine):
    def start(self):
        self.c = Ref(lambda sw: C.S().SkewedSync(dict(depth=self.p["DEP"]), sw))

    def out(self, a, b):
        return self.c(a, b)


class SignAbs(Machine):
    def start(self):
        self.c, self.s = Ref(lambda sw: C.K().FSUSignAbs(dict(depth=self.p["DEP"]), sw)), self.z

    def out(self, x):
        s = self.s
        self.s = self.c(x)[0]
        return s, x ^ s


class Sign(SignAbs):
    def out(self, x):
        return super().out(x)[:1]


class JKFF(Machine):
    def start(self):
        self.c, self.q = Ref(lambda sw: C.K().JKFF(dict(stype=F32))), self.z

    def out(self, j, k):
        q = self.q
        self.q = self.c(j, k)
        return q,


class Uni2Bi(Machine):
    def start(self):
        self.c, self.q = Ref(lambda sw: C.S().Uni2Bi(dict(depth=4), sw)), self.z

    def out(self, x):
        q = self.q
        self.q = self.c(x)
        return q,


class Bi2Uni(Machine):
    def start(self):
        self.b = B2U(self, self.p["DEP"])

    def out(self, x):
        q = self.b.q
        self.b.push(x)
        return q,


class SqrtJKU(Machine):
    def start(self):
        self.c = Ref(lambda sw: C.K().FSUSqrt(dict(mode="unipolar", jk_trace=True, emit=False, entry_kn=1, entry_sr=2, rng="Sobol", dimr=4), sw))

    def out(self, x):
        return self.c(x),


class SqrtJKB(Machine):
    def start(self):
        self.b, self.j, self.t = B2U(self, self.p["DEP"]), Ref(lambda sw: C.K().JKFF(dict(stype=F32))), self.z

    def out(self, x):
        o = x | self.t
        self.t = self.j(self.b.q, np.ones_like(x))
        self.b.push(o)
        return o,


class SqrtISU(Machine):
    def start(self):
        self.k, self.d, self.o = Cordiv(self, self.p["DEP"]), 0, self.z

    def out(self, x, r):
        o = self.o
        a = (1 - self.d) & o
        q = self.k.step(a, self.d | a, r)
        self.o, self.d = x | q, 1 - self.d
        return o,


class SqrtISB(Machine):
    def start(self):
        self.k, self.d, self.b = Cordiv(self, self.p["DEP"]), 0, B2U(self, 3)

    def out(self, x, r):
        a = (1 - self.d) & self.b.q
        o = x | self.k.step(a, self.d | a, r)
        self.d = 1 - self.d
        self.b.push(o)
        return o,


class SqrtOU(Machine):
    bip = False

    def start(self):
        self.sr = Ref(lambda sw: C.K().ShiftReg(dict(entry=self.p["DEP_SR"]), dict(stype=F32)))
        self.add = Ref(lambda sw: C.K().FSUAdd(dict(mode="unipolar", scale=1, dima=0, depth=14, entry=2), sw))
        self.o, self.b, self.a = self.z, B2U(self, 3), self.z

    def out(self, x, r):
        o = self.o
        s, _ = self.sr(1 - o, index=int(r % self.p["DEP_SR"]))
        e = s & (self.b.q if self.bip else o)
        if self.bip:
            self.b.push(o)
        h = 2 ** (self.p["DEP"] - 1)
        self.a = self.a + x + e - o
        self.valid &= self.a < h
        self.o = self.add(np.stack([x, e]))
        return o,


class SqrtOB(SqrtOU):
    bip = True


class CordivKernel(Machine):
    def start(self):
        self.k = Cordiv(self, self.p["DEP"])

    def out(self, a, b, r):
        return self.k.step(a, b, r),


class DivU(Machine):
    def start(self):
        self.s, self.k = Ref(lambda sw: C.S().SkewedSync(dict(depth=self.p["DEP_SYNC"]), sw)), Cordiv(self, self.p["DEP_KERNEL"])

    def out(self, a, b, r):
        return self.k.step(*self.s(a, b), r),


class DivB(Machine):
    def start(self):
        self.sa = [SignAbs(self.n, dict(DEP=self.p["DEP_ABS"])) for _ in "ab"]
        self.bu = [B2U(self, 3) for _ in "ab"]
        self.d, self.u = DivU(self.n, self.p), Uni2Bi(self.n, {})

    def out(self, a, b, r):
        (sa, aa), (sb, ab) = self.sa[0].out(a), self.sa[1].out(b)
        q, = self.d.out(self.bu[0].q, self.bu[1].q, r)
        self.bu[0].push(aa)
        self.bu[1].push(ab)
        return self.u.out(q)[0] ^ sa ^ sb,


class Gaines(Machine):
    """Saturating counter; the output is 1 while the count exceeds the random number."""
    def start(self):
        self.c, self.m, self.d = self.z + 2 ** (self.p["DEP"] - 1), 2 ** self.p["DEP"] - 1, self.z

    def out(self, *ins):
        o = (self.c > ins[-1]).astype(np.int64)
        up, dn = self.updown(o, *ins[:-1])
        self.c = np.clip(self.c + up - dn, 0, self.m)
        return o,


class GdivU(Gaines):
    def updown(self, o, a, b):
        return a, o & b


class GdivB(Gaines):
    def updown(self, o, a, b):
        d, self.d = self.d, b
        # the divisor multiplies the quotient: counts up if the dividend agrees with the divisor more than predicted
        qb = 1 - (o ^ (1 - (b ^ d)) ^ 1)
        eq = 1 - (b ^ a)
        x2 = 1 - ((1 - (b ^ d)) ^ (1 - o))
        return eq & x2, (1 - eq) & (1 - x2)


class GsqrtU(Gaines):
    def updown(self, o, a):
        d, self.d = self.d, o
        return a, o & d


class GsqrtB(Gaines):
    def updown(self, o, a):
        d, self.d = self.d, o
        return a, 1 - (o ^ d)


class SyncInt(Machine):
    """Adds up the values of in0 and passes the sum on when in1 is 1; followed while the sum fits the counter."""
    def start(self):
        self.c = self.z

    def out(self, a, b):
        s = self.c + a
        self.valid &= s < 2 ** self.p["DEP"]
        o = np.where(b == 1, s, 0)
        self.c = s - o
        return o, b


def path(mod):
    for base, dirs, files in os.walk(os.path.join(repo.REPO, "hw")):
        if "old" in dirs:
            dirs.remove("old")
        if mod + ".sv" in files:
            return os.path.join(base, mod + ".sv")
    return None


def histories(nbits, budget, tier_extra):
    k = max(2, (budget + tier_extra) // nbits)
    A = [tuple((v >> i) & 1 for i in range(nbits)) for v in range(2 ** nbits)]
    yield "words", np.array(L.words(A, k))
    yield "periodic", np.array(L.periodic(A, 4 if nbits == 1 else 3 if nbits == 2 else 2, 40))


def rands(lim, T):
    t = np.arange(T)
    return [t * 0, t * 0 + lim - 1, t % lim, (lim - 1 - t) % lim, (t * 3 + 1) % lim, (t // 2) % lim]


def explore(ctx, mod, ref, params, bits, outs, rand=None, words=0, budget=14):
    f = path(mod)
    if f is None:
        ctx.notes["absent"] = mod
        ctx.outcomes.add("absent")
        return
    try:
        base = rtl.Sim(f, mod, params)
        unreset = base.reset(1)
    except rtl.Unsupported as e:
        ctx.notes["unsupported"] = "%s: %s" % (mod, e)
        ctx.outcomes.add("unsupported")
        return
    except rtl.Bad as e:
        ctx.fail("%s cannot be elaborated: %s" % (mod, e), module=mod, parameters=params)
    ctx.check(not unreset, "%s leaves state undefined after reset: %s" % (mod, unreset), module=mod, parameters=params)
    wd = [1] * len(bits) if not words else words
    for kind, H in histories(sum(wd), budget, ctx.q(0, 4)):
        N, T = H.shape[0], H.shape[1]
        cols, p = [], 0
        for w in wd:
            cols.append((H[:, :, p:p + w] * (2 ** np.arange(w))).sum(2).astype(np.int64))
            p += w
        for rs in (rands(rand[1], T) if rand else [None]):
            sim = rtl.Sim(f, mod, params)
            for restart in ((False, True) if kind == "periodic" or not rand else (False,)):
                sim.reset(N)
                if restart:
                    # an arbitrary different history, then reset: no trace of it remains
                    for t in range(min(T, 7)):
                        sim.cycle(dict({b: 1 - c[:, t] if w == 1 else c[:, t] for b, c, w in zip(bits, cols, wd)}, **({rand[0]: np.full(N, rs[T - 1 - t])} if rand else {})))
                    sim.reset(N)
                m = ref(N, params)
                for t in range(T):
                    ins = {b: c[:, t] for b, c in zip(bits, cols)}
                    if rand:
                        ins[rand[0]] = np.full(N, rs[t])
                    got = sim.cycle(ins)
                    ok = m.valid.copy()
                    exp = m.out(*[c[:, t] for c in cols], *([rs[t]] if rand else []))
                    ok = m.valid & ok if ref is SyncInt else ok
                    for name, e in zip(outs, exp):
                        ctx.evals += int(ok.sum())
                        bad = np.argwhere(ok & (got[name] != e))
                        if len(bad):
                            i = int(bad[0][0])
                            ctx.fail("%s: output %s in cycle %d is %d, the simulated component gives %d" % (mod, name, t + 1, got[name][i], e[i]),
                                     module=mod, parameters=params, inputs={b: c[i, :t + 1].tolist() for b, c in zip(bits, cols)},
                                     random=None if rs is None else rs[:t + 1].tolist(), after_reset=restart)
                    ctx.n_trans += N
                ctx.check(not sim.oob, "%s selects a bit outside its register" % mod, module=mod, parameters=params)
                ctx.traces += N
                ctx.n_states += int(m.valid.sum())
    ctx.nontrivial += 1
    ctx.outcomes.add(mod)
    ctx.sample(dict(module=mod, parameters=params))


def cases(tier):
    c = []

    def add(mod, ref, params, *a, **k):
        c.append(Case("rtl-%s%s" % (mod, "".join("-%s%s" % (x.lower(), y) for x, y in params.items())), explore, mod, ref, params, *a, **k))
    for d in (1, 2, 3) if tier != "thorough" else (1, 2, 3, 4, 5):
        add("SkewedSync", SkewedSync, dict(DEP=d), ("in0", "in1"), ("out0", "out1"))
    for d in (2, 3, 4, 5):
        add("Sign", Sign, dict(DEP=d), ("value",), ("sign",))
        add("Abs", SignAbs, dict(DEP=d), ("value",), ("sign", "abs"))
    for d, b in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (4, 3)):
        add("SkewedSyncInt", SyncInt, dict(DEP=d, BWIN=b, BWOUT=d), ("in0", "in1"), ("out0", "out1"), words=[b, 1])
    add("JKFF", JKFF, {}, ("J", "K"), ("out",))
    add("Uni2Bi", Uni2Bi, {}, ("in",), ("out",))
    for d in (2, 3, 4, 5):
        add("Bi2Uni", Bi2Uni, dict(DEP=d), ("in",), ("out",))
        add("BISQRT_S_JK_B", SqrtJKB, dict(DEP=d), ("in",), ("out",))
    add("BISQRT_S_JK_U", SqrtJKU, {}, ("in",), ("out",))
    for d, l in ((1, 1), (2, 1), (4, 2), (8, 3)):
        kp = dict(DEP=d, DEPLOG=l)
        add("CORDIV_kernel", CordivKernel, kp, ("dividend", "divisor"), ("quotient",), ("randNum", d), budget=12)
        add("BISQRT_S_IS_U", SqrtISU, kp, ("in",), ("out",), ("randNum", d), budget=12)
        add("BISQRT_S_IS_B", SqrtISB, kp, ("in",), ("out",), ("randNum", d), budget=12)
        for s in (1, 2, 3):
            add("ISCBDIV_U", DivU, dict(DEP_KERNEL=d, DEPLOG_KERNEL=l, DEP_SYNC=s), ("dividend", "divisor"), ("quotient",), ("randNum", d), budget=12)
            add("ISCBDIV_B", DivB, dict(DEP_ABS=s + 1, DEP_KERNEL=d, DEPLOG_KERNEL=l, DEP_SYNC=s), ("dividend", "divisor"), ("quotient",), ("randNum", d), budget=12)
        for a in (3, 5):
            add("BISQRT_O_U", SqrtOU, dict(DEP=a, DEP_SR=d, DEPLOG_SR=l), ("in",), ("out",), ("randNum", d), budget=12)
            add("BISQRT_O_B", SqrtOB, dict(DEP=a, DEP_SR=d, DEPLOG_SR=l), ("in",), ("out",), ("randNum", d), budget=12)
    for d in (2, 3, 5):
        add("GDIV_U", GdivU, dict(DEP=d), ("dividend", "divisor"), ("quotient",), ("randNum", 2 ** d), budget=12)
        add("GDIV_B", GdivB, dict(DEP=d), ("dividend", "divisor"), ("quotient",), ("randNum", 2 ** d), budget=12)
        add("GSQRT_U", GsqrtU, dict(DEP=d), ("in",), ("out",), ("randNum", 2 ** d), budget=12)
        add("GSQRT_B", GsqrtB, dict(DEP=d), ("in",), ("out",), ("randNum", 2 ** d), budget=12)
    return c
