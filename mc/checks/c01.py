import itertools
import random
import numpy as np
import torch
from ..core import Case
from .. import comps as C, models as M
from ..common import *

LEVEL = "exploration"
RULE = "one evaluation per sequence element of an RNG configuration; a configuration is (kind, letter case, width, dimension, data type, random choices)"
BOUNDS = ("all kinds x widths 0-12 x Sobol dimensions 1-24 x 6 data types x letter cases; lfsr: every initial register state (width <= 7) and every generator "
          "polynomial choice; sys: every permutation of the library generator for width <= 2, many seeds otherwise")
ASSUMPTIONS = ["torch.quasirandom.SobolEngine is the definition of the Sobol sequence", "the data type can hold 2^width-1", "pylfsr supports widths >= 2"]

DET = ["sobol", "rc", "race", "tc", "race10", "tc10"]
CAP = {F32: 24, F64: 30, F16: 11, I8: 7, I32: 30, I64: 30}


def letters(kind):
    out = {kind, kind.upper(), kind.capitalize(), kind.swapcase()}
    out.add("".join(c.upper() if i % 2 else c for i, c in enumerate(kind)))
    return sorted(out)


def get(ctx, kind, width, dim=1, rtype=F32):
    cfg = dict(width=width, dimr=dim, rng=kind)
    sw = dict(rtype=rtype)
    c0, s0 = dict(cfg), dict(sw)
    g = C.S().RNG(cfg, sw)
    seq = g()
    info = dict(rng=kind, width=width, dimr=dim, rtype=dt(rtype))
    ctx.check(cfg == c0 and sw == s0, "RNG changed its configuration dictionaries", **info)
    ctx.check(isinstance(seq, torch.Tensor) and tuple(seq.shape) == (2 ** width,), "sequence length is not 2^width", **info)
    ctx.check(seq.dtype == rtype, "sequence data type %s is not the requested one" % seq.dtype, **info)
    again = g()
    ctx.check(torch.equal(again, seq), "two reads of the same generator differ", **info)
    v = seq.detach().double().numpy()
    ctx.check(bool((v == np.floor(v)).all()), "sequence holds non-integers", **info)
    ctx.evals += v.size
    ctx.outcomes.add((kind, width, dim, v.astype(np.int64).tobytes()))
    return v.astype(np.int64)


def expect(ctx, got, exp, kind, width, dim):
    bad = np.nonzero(got != exp)[0]
    if len(bad):
        i = int(bad[0])
        ctx.fail("%s sequence of width %d, dimension %d: entry %d is %d, expected %d" % (kind, width, dim, i, got[i], exp[i]),
                 observed=got[:64].tolist(), expected=np.asarray(exp)[:64].tolist())


def blocks(ctx, v, width, info):
    for k in range(width + 1):
        b = v.reshape(-1, 2 ** k) >> (width - k)
        ok = (np.sort(b, axis=1) == np.arange(2 ** k)).all()
        ctx.check(bool(ok), "an aligned block of %d Sobol numbers misses a sub-range" % 2 ** k, **info)


def det(ctx, kind, width, dims, types):
    for d in dims:
        exp = M.rng_seq(kind, width, d)
        for r in types:
            if width > CAP[r]:
                continue
            for name in (letters(kind) if d == dims[0] and r == types[0] else [kind]):
                got = get(ctx, name, width, d, r)
                expect(ctx, got, exp, name, width, d)
                ctx.nontrivial += 1
        if kind in ("sobol", "rc"):
            blocks(ctx, got, width, dict(rng=kind, width=width, dimr=d))
    ctx.sample(dict(rng=kind, width=width, dims=list(dims), first=exp[:8].tolist()))


def repeat(ctx, kind, widths):
    """Other generators and the state of the global random sources never matter."""
    for w in widths:
        ref = {}
        for rep in range(4):
            torch.manual_seed(rep * 77)
            np.random.seed(rep)
            random.seed(rep)
            for d in (1, 2, 5, 2):
                if rep:
                    get(ctx, "sys", w)
                    if w >= 2:
                        get(ctx, "lfsr", w)
                v = get(ctx, kind, w, d)
                ref.setdefault(d, v)
                ctx.check(np.array_equal(ref[d], v), "deterministic sequence changes", rng=kind, width=w, dimr=d)
                expect(ctx, v, M.rng_seq(kind, w, d), kind, w, d)
                ctx.nontrivial += 1


def lfsr_ok(ctx, v, width, info):
    n = 2 ** width
    ctx.check(v.min() >= 1 and v.max() <= n - 1, "lfsr value outside 1..2^width-1", sequence=v[:64].tolist(), **info)
    p = n - 1
    ctx.check(len(set(v[:p].tolist())) == p, "lfsr repeats before its full period", sequence=v[:64].tolist(), **info)
    ctx.check(v[p] == v[0], "lfsr period is not 2^width-1", sequence=v[:64].tolist(), **info)
    ctx.nontrivial += 1


def lfsr_seeds(ctx, width, seeds, types):
    for s in seeds:
        np.random.seed(s)
        torch.manual_seed(s)
        random.seed(s)
        r = types[s % len(types)]
        if width > CAP[r]:
            r = F32
        name = letters("lfsr")[s % len(letters("lfsr"))]
        lfsr_ok(ctx, get(ctx, name, width, 1, r), width, dict(seed=s, width=width))


def lfsr_states(ctx, width, max_states):
    """Enumerate the random choices: every initial state and polynomial index (all-zero included)."""
    real = np.random.randint
    npoly = [1]
    used = [0]
    choice = dict(poly=0, state=None)

    def fake(low, high=None, size=None, dtype=int):
        if high == 2 and low == 0 and size == width:
            used[0] += 1
            return np.array(choice["state"])
        if low == 0 and size in (1, (1,)) and high is not None:
            npoly[0] = high
            return np.array([choice["poly"] % high])
        return real(low, high, size, dtype)

    done = set()
    for st in itertools.islice(itertools.product((0, 1), repeat=width), max_states):
        p = 0
        while p < npoly[0]:
            if p and st not in ((0,) * width, (0,) * (width - 1) + (1,), (1,) * width):
                break
            choice.update(poly=p, state=st)
            try:
                np.random.randint = fake
                v = get(ctx, "lfsr", width)
            finally:
                np.random.randint = real
            lfsr_ok(ctx, v, width, dict(initial=st, polynomial=p))
            if used[0]:
                done.add((st, p))
            p += 1
    ctx.notes["random choices enumerated"] = len(done)
    ctx.sample(dict(rng="lfsr", width=width, choices=len(done)))


def sys_perms(ctx, width):
    n = 2 ** width
    real = torch.randperm
    used = 0
    for perm in itertools.permutations(range(n)):
        def fake(k, *a, **kw):
            nonlocal used
            if k == n:
                used += 1
                return torch.tensor(perm)
            return real(k, *a, **kw)
        try:
            torch.randperm = fake
            v = get(ctx, "sys", width)
        finally:
            torch.randperm = real
        ctx.check(sorted(v.tolist()) == list(range(n)), "sys is not a permutation", width=width, sequence=v.tolist())
        ctx.nontrivial += 1
    ctx.notes["random choices enumerated"] = used


def sys_seeds(ctx, width, seeds, types):
    for s in seeds:
        torch.manual_seed(s)
        np.random.seed(s)
        random.seed(s)
        r = types[s % len(types)]
        if width > CAP[r]:
            r = F32
        v = get(ctx, letters("sys")[s % len(letters("sys"))], width, 1, r)
        ctx.check(np.array_equal(np.sort(v), np.arange(2 ** width)), "sys is not a permutation", width=width, seed=s, sequence=v[:64].tolist())
        ctx.nontrivial += 1


def reject(ctx):
    for bad in ("", "sobo", "race1", "random", "tc100", "lfsr2"):
        ok = False
        try:
            C.S().RNG(dict(width=3, dimr=1, rng=bad), dict(rtype=F32))
        except Exception:
            ok = True
        ctx.check(ok, "unknown kind accepted", rng=bad)
    g = C.S().RNG()
    ctx.check(np.array_equal(g().double().numpy().astype(int), M.sobol(8, 1)), "default configuration is not 8-bit Sobol dimension 1")


def cases(tier):
    q = tier != "thorough"
    types = list(ALL6)
    cs = []
    for kind in DET:
        for w in range(0, 13 if q else 17):
            if kind in ("sobol", "rc"):
                dims = list(range(1, 25)) if w <= 8 else [1, 2, 3, 7, 16]
                if not q and w <= 12:
                    dims = list(range(1, 65))
            else:
                dims = [1, 2, 9]
            cs.append(Case("%s-w%d" % (kind, w), det, kind, w, dims, types))
        cs.append(Case("repeat-%s" % kind, repeat, kind, (2, 4, 8)))
    cs.append(Case("far-dims", det, "sobol", 8, [50, 100, 777, 1111], types))
    for w in range(2, 8 if q else 11):
        cs.append(Case("lfsr-states-w%d" % w, lfsr_states, w, 2 ** 12))
    for w in range(2, 11 if q else 13):
        cs.append(Case("lfsr-seeds-w%d" % w, lfsr_seeds, w, range(12 if w > 6 else 40), types))
    for w in (0, 1, 2):
        cs.append(Case("sys-perms-w%d" % w, sys_perms, w))
    if not q:
        cs.append(Case("sys-perms-w3", sys_perms, 3))
    for w in range(0, 13):
        cs.append(Case("sys-seeds-w%d" % w, sys_seeds, w, range(24), types))
    cs.append(Case("reject-and-default", reject))
    return cs
