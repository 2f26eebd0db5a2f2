"""Explicit-state exploration of reference models and exhaustive conformance of
the implementation, one tensor lane per history (no access to internals)."""
import itertools
import numpy as np
import torch

from .core import Violation


def words(alphabet, k):
    """All words of length k over the alphabet: int64 [|A|^k, k, a]."""
    A = np.array(alphabet, dtype=np.int64)
    n = len(A)
    idx = np.array(list(itertools.product(range(n), repeat=k)), dtype=np.int64).reshape(n ** k, k)
    return A[idx]


def rowkeys(a):
    a = np.ascontiguousarray(a)
    return a.view(np.dtype((np.void, a.dtype.itemsize * a.shape[1]))).ravel() if a.shape[1] else np.zeros(len(a), dtype="V1")


def reach(model, max_states=100000, max_depth=10 ** 9, alphabet=None):
    """BFS over the model: list of (path of letter indices) for each reachable state."""
    A = np.array(alphabet or model.alphabet(), dtype=np.int64)
    s0 = model.init(1)
    seen = {s0.tobytes(): ()}
    order = [()]
    frontier = [(s0[0], ())]
    trans = 0
    depth = 0
    complete = True
    while frontier and depth < max_depth:
        st = np.repeat(np.stack([f[0] for f in frontier]), len(A), axis=0)
        x = np.tile(A, (len(frontier), 1))
        ns, _ = model.step(st, x)
        nxt = []
        trans += len(ns)
        for r in range(len(ns)):
            k = ns[r].tobytes()
            if k not in seen:
                path = frontier[r // len(A)][1] + (r % len(A),)
                seen[k] = path
                order.append(path)
                nxt.append((ns[r], path))
                if len(seen) >= max_states:
                    return order, trans, False
        frontier = nxt
        depth += 1
    return order, trans, (complete and not frontier)


def cover(model, suffix, max_states=100000, max_depth=10 ** 9, max_lanes=200000, tail=0, alphabet=None):
    """Histories [N, L, a]: access path of every reachable model state, extended by every
    word of length `suffix`, then `tail` more cycles repeating the word."""
    alphabet = alphabet or model.alphabet()
    A = np.array(alphabet, dtype=np.int64)
    order, trans, complete = reach(model, max_states, max_depth, alphabet)
    while len(order) * len(A) ** suffix > max_lanes and suffix > 1:
        suffix -= 1
    W = words(alphabet, suffix)
    L = max(len(p) for p in order) + suffix + tail
    out = np.zeros((len(order) * len(W), L, A.shape[1]), dtype=np.int64)
    r = 0
    for p in order:
        blk = out[r:r + len(W)]
        if p:
            blk[:, :len(p)] = A[list(p)][None]
        pos = len(p)
        while pos < L:
            k = min(suffix, L - pos)
            blk[:, pos:pos + k] = W[:, :k]
            pos += k
        r += len(W)
    return out, dict(model_states=len(order), model_transitions=trans, complete=complete, suffix=suffix, length=L)


def periodic(alphabet, maxp, L, limit=None):
    """All periodic histories with period 1..maxp, length L: int64 [N, L, a]."""
    outs = []
    for p in range(1, maxp + 1):
        W = words(alphabet, p)
        reps = -(-L // p)
        outs.append(np.tile(W, (1, reps, 1))[:, :L])
    out = np.concatenate(outs)
    out = np.unique(out.reshape(len(out), -1), axis=0).reshape(-1, L, out.shape[2])
    return out


def switching(alphabet, maxp, L, cut):
    """Periodic history, switching to another periodic one at cycle `cut`: all pairs."""
    P = periodic(alphabet, maxp, L)
    n = len(P)
    a = np.repeat(P, n, axis=0)
    b = np.tile(P, (n, 1, 1))
    a = a.copy()
    a[:, cut:] = b[:, cut:]
    return a


def bits(x, dtype):
    return torch.from_numpy(np.ascontiguousarray(x)).to(dtype)


def to_np(t):
    return t.detach().to(torch.float64).cpu().numpy()


def visit(ctx, st, x):
    """Count distinct (model state) and (model state, input) pairs."""
    k = np.concatenate([st, x.astype(float)], axis=1)
    h = hash_rows(st)
    hk = hash_rows(k)
    ctx.states.update(np.unique(h).tolist())
    ctx.trans.update(np.unique(hk).tolist())


_MULT = np.random.RandomState(12345).randint(1, 2 ** 62, size=20000, dtype=np.int64) | 1


def hash_rows(a):
    v = (a * 64).astype(np.int64)
    if v.shape[1] == 0:
        return np.zeros(len(v), dtype=np.int64)
    with np.errstate(over="ignore"):
        h = (v * _MULT[:v.shape[1]]).sum(1)
        h ^= (h >> 29)
        h *= 0x9E3779B97F4A7C1 | 1
    return h


def conform(ctx, model, hist, impl, what, in_dtype=torch.float, out_dtype=None, shape=None, outs=None,
            config=None, count=True):
    """Drive a fresh implementation (callable: list of input tensors -> tensor or tuple)
    with all histories at once and compare every output of every cycle with the model.

    hist: [N, L, a].  shape: lane layout, default (N,).  outs: which model output
    columns the implementation returns, in order."""
    N, L, a = hist.shape
    shape = tuple(shape) if shape is not None else (N,)
    st = model.init(N)
    salt = hash((what, repr(config))) & 0xffffffff
    for t in range(L):
        x = hist[:, t]
        if count:
            visit(ctx, st, x)
        ns, exp = model.step(st, x)
        ins = [bits(x[:, j], in_dtype).reshape(shape) for j in range(a)]
        got = impl(ins)
        if not isinstance(got, (tuple, list)):
            got = (got,)
        cols = outs if outs is not None else range(exp.shape[1])
        if len(got) != len(cols):
            raise Violation("%s returned %d values, expected %d" % (what, len(got), len(cols)), dict(config=config))
        for g, c in zip(got, cols):
            if not isinstance(g, torch.Tensor) or tuple(g.shape) != shape:
                raise Violation("%s returned shape %s for inputs of shape %s" % (what, tuple(getattr(g, "shape", ())), shape),
                                dict(config=config, cycle=t))
            if out_dtype is not None and g.dtype != out_dtype:
                raise Violation("%s returned data type %s, expected %s" % (what, g.dtype, out_dtype), dict(config=config))
            gv = to_np(g).reshape(-1)
            bad = np.nonzero(gv != exp[:, c])[0]
            ctx.evals += N
            if len(bad):
                i = int(bad[0])
                raise Violation(
                    "%s: output %d at cycle %d is %s, expected %s (%d of %d histories differ at this cycle)" % (
                        what, c, t, gv[i], exp[i, c], len(bad), N),
                    dict(config=config, lane=i, lanes=N, shape=shape, cycle=t, history=hist[i, :t + 1].tolist(),
                         observed=float(gv[i]), expected=float(exp[i, c]), model_state=st[i].tolist()))
        st = ns
        if t < 64:
            ctx.outcomes.add((salt, t, hash(exp.tobytes())))
    ctx.traces += N
    ctx.nontrivial += N
    ctx.sample(dict(what=what, config=config, history=hist[N // 2, :24].tolist(), cycles=L, histories=N))
