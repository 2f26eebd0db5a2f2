import itertools
import os
import pickle
import numpy as np
import torch
from ..core import Case, Violation
from .. import comps as C, subjects as SB
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("every component and metric as two instances of equal arguments and every pair of configurations of one class, and every pair of classes: all interleavings of construction and 3 calls each "
          "(2 calls across classes), compared with runs alone in a pristine process; snapshots of inputs, arguments, default arguments and earlier results after every step; inputs overwritten after each call")
ASSUMPTIONS = ["components drawing from the global random state (kinds lfsr and sys, weights not given) are not interleaved", "in-place activations and the weight clipper modify their tensor by design",
               "metric reports are live views"]


def snap(ts):
    return tuple((str(t.dtype), tuple(t.shape), t.detach().double().reshape(-1).tolist()) for t in ts)


def alone(s, T, salt):
    o = s.make(s.ext())
    return [snap(s.call(o, s.inputs(t, salt), t)) for t in range(T)]


def pristine(fn, *a):
    """Runs fn in a forked child, so that nothing it does is seen here and nothing done later is seen by it."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = pickle.dumps(("ok", fn(*a)))
        except BaseException as e:
            data = pickle.dumps(("error", repr(e)))
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def runs(ss, base, order, ctx, scribble, shared):
    """order: sequence of subject indices; the first occurrence constructs."""
    n = len(ss)
    exts = [None] * n
    frozen = [None] * n
    objs = [None] * n
    t = [0] * n
    held = []
    for step, i in enumerate(order):
        s = ss[i]
        if objs[i] is None:
            if shared and i and exts[0] is not None:
                exts[i] = exts[0]           # the very same argument objects
            else:
                exts[i] = s.ext()
            frozen[i] = SB.freeze(exts[i])
            objs[i] = s.make(exts[i])
        else:
            ins = s.inputs(t[i], i if not shared else 0)
            keep = [x.clone() for x in ins]
            out = s.call(objs[i], ins, t[i])
            got, exp = snap(out), base[i][t[i]]
            ctx.evals += sum(len(g[2]) for g in got)
            if got != exp:
                raise Violation("%s call %d gives a different result when interleaved with %s" % (s.name, t[i] + 1, [x.name for j, x in enumerate(ss) if j != i]),
                                dict(order=order[:step + 1], got=got, alone=exp))
            ctx.check(all(torch.equal(a, b) for a, b in zip(ins, keep)), "%s modified its input" % s.name, order=order[:step + 1])
            if scribble:
                for x in ins:
                    x.copy_(1 - x)
            elif not s.metric:
                held.append((s.name, t[i], out, got))
            t[i] += 1
        for j in range(n):
            if exts[j] is not None:
                ctx.check(SB.freeze(exts[j]) == frozen[j], "constructor arguments of %s were modified" % ss[j].name, order=order[:step + 1])
    for name, k, out, got in held:
        ctx.check(snap(out) == got, "the result of call %d of %s changed later" % (k + 1, name), order=order)
    ctx.traces += 1


def orders(n, T):
    """All interleavings of n sequences of T+1 events, first event of subject 0 first (by symmetry for equal subjects: all)."""
    def rec(left):
        if not any(left):
            yield ()
            return
        for i in range(n):
            if left[i]:
                l2 = list(left)
                l2[i] -= 1
                for r in rec(tuple(l2)):
                    yield (i,) + r
    return rec((T + 1,) * n)


def group(ctx, pairs, T, bases, defs):
    for a, b, modes in pairs:
        ss = (a, b)
        for scribble, shared in modes:
            base = [bases[x.name][0 if shared else j] for j, x in enumerate(ss)]
            for o in orders(2, T):
                runs(ss, base, o, ctx, scribble, shared)
                ctx.n_trans += len(o)
                ctx.n_states += len(o)
        ctx.nontrivial += 1
        ctx.outcomes.add((a.name, b.name))
        now = SB.defaults()
        for k, v in defs.items():
            ctx.check(now.get(k) == v, "default argument %s of %s changed" % (k[1], k[0]), after=(a.name, b.name))
    ctx.sample(dict(pairs=[(a.name, b.name) for a, b, _ in pairs[:5]], calls=T))


def trio(ctx, subs, bases, defs):
    """Three instances of one class, all interleavings of 1 call each after construction, and long strict alternations."""
    for s in subs:
        base = [bases[s.name][j] for j in (0, 1)]
        for o in orders(3, 1):
            runs((s, s, s), [bases[s.name][j] for j in (0, 1, 2)], o, ctx, False, False)
            ctx.n_trans += len(o)
        ctx.nontrivial += 1
    ctx.check(SB.defaults() == defs, "a default argument changed")


def cases(tier):
    q = tier != "thorough"
    T = 3 if q else 4
    subs = SB.all_subjects()
    defs = SB.defaults()
    heavy = lambda s: s.name.startswith("HUBMGU") or (s.name.startswith(("HUBLinear", "HUBConv")) and "default" in s.name)
    bases = {}

    def both(s):
        return [alone(s, T, j) for j in (0, 1, 2)]
    for s in subs:
        st, r = pristine(both, s)
        if st != "ok":
            # reported by the case below, in the usual way
            bases[s.name] = None
        else:
            bases[s.name] = r
    cs = []
    cls = lambda s: s.name.split("-")[0]
    bad = [s for s in subs if bases[s.name] is None]
    for s in bad:
        cs.append(Case("alone-" + s.name, broken, s, T))
    subs = [s for s in subs if bases[s.name] is not None]
    for c in sorted({cls(s) for s in subs}):
        mine = [s for s in subs if cls(s) == c]
        prs = []
        for a, b in itertools.combinations_with_replacement(mine, 2):
            modes = [(False, False)]
            if a is b:
                modes += [(True, False), (False, True)] if a.name != "FSUHardtanh" else [(True, False)]
            if heavy(a) or heavy(b):
                modes = modes[:1]
            prs.append((a, b, modes))
        light = [p for p in prs if not (heavy(p[0]) or heavy(p[1]))]
        for i in range(0, len(light), 4):
            cs.append(Case("class-%s-%d" % (c, i), group, light[i:i + 4], T, bases, defs))
        for i, p in enumerate(prs):
            if p not in light:
                cs.append(Case("classheavy-%s-%d" % (c, i), group, [p], 1 if q else 2, bases, defs))
        cs.append(Case("trio-%s" % c, trio, [s for s in mine if not heavy(s)], bases, defs))
    # across classes: one representative each against every other
    reps = {}
    for s in subs:
        if not heavy(s):
            reps.setdefault(cls(s), s)
    reps = list(reps.values())
    prs = [(a, b, [(False, False)]) for a, b in itertools.combinations(reps, 2)]
    for i in range(0, len(prs), 25):
        cs.append(Case("across-%d" % i, group, prs[i:i + 25], 2 if q else 3, bases, defs))
    return cs


def broken(ctx, s, T):
    """The subject cannot run at all: surface its error as a violation."""
    try:
        for j in (0, 1, 2):
            alone(s, T, j)
    except Exception as e:
        ctx.fail("%s cannot be run: %r" % (s.name, e))
