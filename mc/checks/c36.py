import contextlib
import copy
import io
import pickle
import torch
from ..core import Case, Violation
from .. import comps as C, subjects as SB
from ..common import *
from .c32 import pristine, snap

LEVEL = "model_checking"
BOUNDS = ("every component and metric: every snapshot point (before the first call up to call 4, up to call 6 thorough), snapshot by deepcopy, pickle and torch.save, restored here and in another process; "
          "afterwards all interleavings of original and copy, 2-3 calls each on diverging inputs; chains handing over to a new copy after every call; random kinds and layers with drawn weights: copy against original")
ASSUMPTIONS = ["binary recurrent cells are called without gradient recording (they keep their last results, and torch refuses to copy tensors that carry a recorded graph)", "the reference is a fresh instance driven with the same history in a pristine process"]


def dump(o):
    b = io.BytesIO()
    torch.save(o, b)
    return b.getvalue()


def load(b):
    return torch.load(io.BytesIO(b), weights_only=False)


METHODS = {
    "deepcopy": copy.deepcopy,
    "pickle": lambda o: pickle.loads(pickle.dumps(o)),
    "save": lambda o: load(dump(o)),
}


def reference(s, k, n):
    """Results of calls k..k+n-1 on own inputs (0) and on diverging inputs (1), after k common calls."""
    out = []
    for salt in (0, 1):
        o = s.make(s.ext())
        for t in range(k):
            s.call(o, s.inputs(t, 0), t)
        out.append([snap(s.call(o, s.inputs(t, salt), t)) for t in range(k, k + n)])
    return out


def orders(n):
    def rec(a, b):
        if not (a or b):
            yield ()
        if a:
            for r in rec(a - 1, b):
                yield (0,) + r
        if b:
            for r in rec(a, b - 1):
                yield (1,) + r
    return list(rec(n, n))


def expect(ctx, s, got, ref, what, **kw):
    ctx.evals += sum(len(g[2]) for g in got)
    if got != ref:
        raise Violation("%s: %s" % (s.name, what), dict(got=got, expected=ref, **kw))


def quiet(s):
    """Binary recurrent cells keep their last results, which carry a recorded graph unless recording is off."""
    return torch.no_grad() if s.name.startswith("HardMGU") else contextlib.nullcontext()


def explore(ctx, s, points, n, heavy):
    with quiet(s):
        for k in points:
            st, ref = pristine(reference, s, k, n)
            if st != "ok":
                ctx.fail("%s cannot be run: %s" % (s.name, ref))
            for m, f in METHODS.items():
                for o in (orders(n) if not heavy else [(1,) * n + (0,) * n, (0,) * n + (1,) * n, (0, 1) * n]):
                    a = s.make(s.ext())
                    for t in range(k):
                        s.call(a, s.inputs(t, 0), t)
                    both = (a, f(a))
                    done = [0, 0]
                    for i in o:
                        t = k + done[i]
                        got = snap(s.call(both[i], s.inputs(t, i), t))
                        expect(ctx, s, got, ref[i][done[i]], "the %s snapshot taken after call %d does not continue like the component" % (m, k) if i else
                               "the component changed by using its %s snapshot taken after call %d" % (m, k), order=o, call=t + 1)
                        done[i] += 1
                        ctx.n_trans += 1
                    ctx.traces += 1
                ctx.n_states += (n + 1) ** 2
            # hand over to a new copy after every call; and to another process
            a = s.make(s.ext())
            for t in range(k):
                s.call(a, s.inputs(t, 0), t)
            for j, m in enumerate(list(METHODS) * n):
                if j == n:
                    break
                a = METHODS[m](a)
                expect(ctx, s, snap(s.call(a, s.inputs(k + j, 1), k + j)), ref[1][j], "a chain of snapshots lost the state", start=k, step=j)
            a = s.make(s.ext())
            for t in range(k):
                s.call(a, s.inputs(t, 0), t)
            blob = dump(a)

            def elsewhere():
                with quiet(s):
                    b = load(blob)
                    return [snap(s.call(b, s.inputs(t, 1), t)) for t in range(k, k + n)]
            st, got = pristine(elsewhere)
            if st != "ok":
                ctx.fail("%s saved after call %d cannot be used in another process: %s" % (s.name, k, got))
            for j in range(n):
                expect(ctx, s, got[j], ref[1][j], "restored in another process it continues differently", start=k, step=j)
            ctx.traces += 2
            ctx.nontrivial += 1
            ctx.outcomes.add((s.name, k, tuple(str(r) for r in ref[1])))
    ctx.sample(dict(component=s.name, points=list(points), calls=n))


def groupc(ctx, subs, points, n, heavy):
    for s in subs:
        explore(ctx, s, points, n, heavy)


def drawn_subjects():
    """Components whose construction draws from the global random state."""
    K, S = C.K, C.S
    out = []

    def add(name, cls, args, ninp=1, shape=(3,), kind="bits"):
        out.append(SB.Subject(name, cls, args, ninp, shape, SB.plain, kind))
    for rng in ("sys", "lfsr"):
        add("RNG-" + rng, lambda: S().RNG, lambda rng=rng: ((dict(width=4, dimr=1, rng=rng), dict(rtype=F32)), {}), 0)
        for st in (True, False):
            add("FSUMul-%s-%s" % (rng, st), lambda: K().FSUMul, lambda rng=rng, st=st: ((), dict(in_1_prob=SB.vals((3,), 2) if st else None,
                hwcfg=dict(width=4, mode="bipolar", dimr=1, rng=rng, static=st), swcfg=SB.sw())), 1 if st else 2)
        add("FSUDiv-" + rng, lambda: K().FSUDiv, lambda rng=rng: ((dict(depth_sa=3, depth_ss=2, entry_kn=4, mode="bipolar", rng=rng, dimr=4), SB.sw()), {}), 2)
        add("FSULinear-" + rng, lambda: K().FSULinear, lambda rng=rng: ((2, 3), dict(bias=True, weight_ext=SB.vals((3, 2)), bias_ext=SB.vals((3,), 4),
            hwcfg=dict(width=4, mode="bipolar", scale=None, depth=8, rng=rng, dimr=1), swcfg=SB.sw())), 1, (2, 2))
    for cls in ("HUB", "FXP", "TLUT"):
        add("%sLinear-drawn" % cls, lambda cls=cls: getattr(K(), cls + "Linear"), lambda: ((2, 3), {}), 1, (3, 2), kind="values")
        add("%sConv2d-drawn" % cls, lambda cls=cls: getattr(K(), cls + "Conv2d"), lambda: ((1, 2, 2), {}), 1, (2, 1, 3, 3), kind="values")
    for cls in ("HardMGUCell", "HardMGUCellFXP"):
        add(cls + "-drawn", lambda cls=cls: getattr(K(), cls), lambda: ((2, 2), {}), 2, (3, 2), kind="values")
    return out


def drawn(ctx, s, points, n):
    """No fresh instance repeats the draw: the copies are compared with the original, in every order."""
    with quiet(s):
        for seed in range(3):
            for k in points:
                for m, f in METHODS.items():
                    for o in orders(n):
                        torch.manual_seed(seed)
                        a = s.make(s.ext())
                        for t in range(k):
                            s.call(a, s.inputs(t, 0), t)
                        both, done, got = (a, f(a)), [0, 0], ([], [])
                        for i in o:
                            t = k + done[i]
                            got[i].append(snap(s.call(both[i], s.inputs(t, 1), t)))
                            done[i] += 1
                            ctx.n_trans += 1
                        for j in range(n):
                            expect(ctx, s, got[1][j], got[0][j], "the %s snapshot taken after call %d and the component differ" % (m, k), order=o, step=j, seed=seed)
                        ctx.traces += 1
                ctx.n_states += (n + 1) ** 2
                ctx.outcomes.add((s.name, seed, k, str(got[0])))
                ctx.nontrivial += 1


def cases(tier):
    q = tier != "thorough"
    heavy = lambda s: s.name.startswith(("HUBMGU", "HUBLinear", "HUBConv", "FSUMGU", "TLUT"))
    cs = []
    by = {}
    for s in SB.all_subjects():
        if heavy(s):
            slow = q and s.name == "HUBMGUCell-default"
            cs.append(Case("snap-" + s.name, groupc, [s], (1,) if slow else (0, 1, 2) if q else (0, 1, 2, 3, 5), 1 if slow else 2 if q else 3, True))
        else:
            by.setdefault(s.name.split("-")[0], []).append(s)
    for c, subs in by.items():
        cs.append(Case("snap-" + c, groupc, subs, range(0, 5) if q else range(0, 7), 2 if q else 3, False))
    for s in drawn_subjects():
        cs.append(Case("drawn-" + s.name, drawn, s, (0, 1, 3) if q else range(0, 6), 2 if q else 3))
    return cs
