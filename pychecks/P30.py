from explore import *
import numpy as np
from sparseglm.utils import make_correlated_data


def grid(ch):
    big = ch.flag()
    if big:  # large and lopsided sizes, extreme ratios
        n, p = ch.of([(300, 3), (3, 700), (130, 260), (70001, 2), (2, 3000)])
        t = ch.of([1, 2, 300] if n * p < 5000 else [1, 2])
        corr = ch.of([0.6, 0.0, 0.999999])
        snr = ch.of([3, np.inf, 1e-6, 1e6, 1e9])
    else:
        n = ch.of(by_tier([1, 2, 30], [1, 2, 3, 7, 30, 100]))
        p = ch.of(by_tier([1, 3, 30], [1, 2, 3, 7, 10, 30, 64]))
        t = ch.of(by_tier([1, 2, 4], [1, 2, 3, 4, 9]))
        corr = ch.of([0.6, 0.0, 0.99, 1e-6])
        snr = ch.of([3, np.inf, 0.1, 1000.0])
    given = ch.pick(2 if big else 4)   # w_true: simulated, supplied 2-D, supplied 1-D, supplied zero / read-only
    density = ch.of([0.2, 0.01] if big else [0.2, 1.0, 0.5, 0.01, 0.29]) if given == 0 else 0.2
    seed = 3 if big else ch.of(by_tier([0, 1], [0, 1, 2, 12345]))
    src = 0 if big else ch.pick(by_tier(3 if seed == 0 else 1, 3))     # int seed, RandomState, positional
    kw = dict(n_samples=n, n_features=p, n_tasks=t, corr=corr, snr=snr, density=density)
    w0 = None
    if given:
        if given == 2 and t > 1: ch.skip()
        w0 = np.array([[((j * 5 + k * 3) % 7) - 3.0 for k in range(t)] for j in range(p)])
        if given == 2: w0 = w0[:, 0].copy()
        if given == 3: w0 = np.zeros_like(w0)
        w0.setflags(write=False)
        kw["w_true"] = w0
    ch.note(lambda: f"{ {k: v for k, v in kw.items() if k != 'w_true'} } seed={seed} given={given} seed kind={src}")
    keep = None if w0 is None else (w0.tobytes(), w0.shape, w0.strides, w0.dtype)

    def gen():
        if src == 2: return make_correlated_data(n, p, t, corr, snr, density, w0, seed)
        return make_correlated_data(**kw, random_state=seed if src == 0 else np.random.RandomState(seed))
    np.random.seed(99)
    g0 = repr(np.random.get_state())
    X, Y, w = must(gen)
    ensure(repr(np.random.get_state()) == g0, "a seeded call moved numpy's global generator")
    X2, Y2, w2 = must(gen)
    ensure(X.shape == (n, p), lambda: f"X has shape {X.shape}")
    ensure(Y.shape == ((n,) if t == 1 else (n, t)), lambda: f"Y has shape {Y.shape}")
    ensure(w.shape == ((p,) if t == 1 else (p, t)), lambda: f"w_true has shape {w.shape}")
    ensure(np.array_equal(X, X2) and np.array_equal(Y, Y2) and np.array_equal(w, w2), "equal seeds give different data")
    ensure(np.isfinite(X).all() and np.isfinite(w).all(), "non-finite data")
    W = w.reshape(p, t)
    if w0 is None:
        k = int((W != 0).any(axis=1).sum())
        want = int(density * p)
        ensure(k == want, lambda: f"{k} non-zero true rows, expected int({density} * {p}) = {want}")
        ensure(((W != 0).all(axis=1) | (W == 0).all(axis=1)).all(), "a true row is partly zero")
    else:
        ensure((w0.tobytes(), w0.shape, w0.strides, w0.dtype) == keep, "the supplied w_true was modified")
        ensure(np.array_equal(W, w0.reshape(p, t)), "the returned w_true is not the supplied one")
    S = X @ W
    N = Y.reshape(n, t) - S
    ns, nn = np.linalg.norm(S), np.linalg.norm(N)
    ensure(np.isfinite(Y).all(), lambda: f"non-finite targets {Y}")
    if np.isinf(snr): ensure(nn <= 1e-12 * (1 + ns), lambda: f"infinite ratio, noise norm {nn}")
    elif ns > 0:
        ensure(nn > 0, lambda: f"no noise, requested signal-to-noise ratio {snr}")
        ensure(abs(ns / nn - snr) <= 1e-9 * snr * (1 + snr), lambda: f"signal-to-noise ratio {ns / nn}, requested {snr}")
    else: ensure(nn == 0, lambda: f"no signal, noise norm {nn}")
    if n * p > 4:
        X3 = must(lambda: make_correlated_data(**kw, random_state=seed + 1000))[0]
        ensure(not np.array_equal(X, X3), "different seeds give the same design")
    ch.outcome_f(X); ch.outcome_f(Y)
    if ns == 0: ch.trivial()


def structure(ch):
    """large samples: mean 0, variance 1, correlation corr^|i-j| (fixed seeds: deterministic; six standard errors)"""
    corr = ch.of([0.0, 0.3, 0.6, 0.9, 0.99])
    seed = ch.pick(by_tier(3, 12))
    p = ch.of([2, 6])
    n = 40000
    X = must(lambda: make_correlated_data(n_samples=n, n_features=p, corr=corr, random_state=seed))[0]
    ch.note(lambda: f"corr={corr} seed={seed} n_features={p} n_samples={n}")
    se = 6 / np.sqrt(n)
    ensure(np.abs(X.mean(axis=0)).max() < se, lambda: f"means {X.mean(axis=0)}")
    C = X.T @ X / n
    want = corr ** np.abs(np.subtract.outer(np.arange(p), np.arange(p)))
    ensure(np.abs(C - want).max() < se * np.sqrt(2), lambda: f"second moments {C.round(3).tolist()}, expected {want.round(3).tolist()}")
    W = must(lambda: make_correlated_data(n_samples=5, n_features=20000, n_tasks=2, density=0.5, corr=corr, random_state=seed))[2]
    v = W[(W != 0).any(axis=1)]
    ensure(abs(v.mean()) < 6 / np.sqrt(v.size) and abs((v ** 2).mean() - 1) < 6 * np.sqrt(2 / v.size), "non-zero true coefficients are not standard Gaussian")
    ix = np.flatnonzero((W != 0).any(axis=1))
    ensure(abs(ix.mean() / 20000 - 0.5) < 6 * 0.29 / np.sqrt(len(ix)), "the support is not spread over the features")
    ch.outcome_f(C)


def invalid(ch):
    bad_corr = ch.flag()
    nan = float("nan")
    if bad_corr: kw = dict(corr=ch.of([1, 1.0, 1.5, -0.1, -1e-12, nan, np.inf]), density=ch.of([0.2, 1.0]))
    else: kw = dict(density=ch.of([0, 0.0, -0.1, 1.0 + 1e-9, 2, nan, np.inf]), corr=ch.of([0.6, 0.0]))
    kw["n_tasks"] = ch.of([1, 2])
    if ch.flag(): kw["w_true"] = np.ones((50, kw["n_tasks"]))
    ch.note(lambda: f"{ {k: v for k, v in kw.items() if k != 'w_true'} }")
    s, v = call(make_correlated_data, **kw, random_state=0)
    ensure(s == "raised" and isinstance(v, ValueError), lambda: f"accepted (or not a ValueError): {v!r}")
    ch.outcome(sorted((k, str(v)) for k, v in kw.items() if k != "w_true"))


def defaults(ch):
    """arguments left out: the documented signature's values; no seed: numpy's global generator, moving on"""
    dflt = dict(n_samples=100, n_features=50, n_tasks=1, corr=0.6, snr=3, density=0.2)
    other = dict(n_samples=7, n_features=11, n_tasks=3, corr=0.0, snr=np.inf, density=0.5)
    given = {k: other[k] for k in dflt if ch.flag()}
    ch.note(lambda: f"arguments given: {given}")
    a = must(lambda: make_correlated_data(**given, random_state=5))
    b = must(lambda: make_correlated_data(**{**dflt, **given}, w_true=None, random_state=5))
    ensure(all(u.shape == v.shape and np.array_equal(u, v) for u, v in zip(a, b)), lambda: f"arguments left out are not the documented defaults: shapes {[u.shape for u in a]} against {[u.shape for u in b]}")
    seq = []
    for _ in range(2):
        np.random.seed(17)
        seq.append([must(lambda: make_correlated_data(**given)) for _ in range(3)])
    eq = lambda u, v: all(np.array_equal(i, j) for i, j in zip(u, v))
    ensure(all(eq(u, v) for u, v in zip(*seq)), "unseeded calls do not follow numpy's global generator")
    ensure(not eq(seq[0][0], seq[0][1]) and not eq(seq[0][1], seq[0][2]), "successive unseeded calls give equal data")
    ensure(eq(must(lambda: make_correlated_data(**given, random_state=17)), seq[0][0]), "an unseeded call after numpy.random.seed(s) differs from random_state=s")
    ch.outcome_f(a[0]); ch.outcome_f(a[1])


def body(ch):
    return (grid, invalid, structure, defaults)[ch.pick(4)](ch)


main("P30", "exploration",
     "one execution: one call with a full argument assignment, twice with the same seed and once with another; shapes, number of non-zero rows, exact noise ratio, supplied coefficients untouched, reproducibility, global generator untouched; or one invalid assignment; or one large-sample moment check; or one subset of arguments left out, against the documented defaults and numpy's global generator; trivial = zero signal",
     "sizes 1 2 7 30 (thorough: more), tasks 1 2 4, corr .6 0 .99 1e-6, snr 3 inf .1 1000; sizes 300x3 3x700 130x260 70001x2 2x3000 with up to 300 tasks, snr 1e-6 1e6 1e9; density .2 1 .5 .01 .29, seeds, w_true simulated / 2-D / 1-D / zero and read-only; int seed, RandomState, positional call; invalid: corr 1 1.5 -.1 NaN inf, density 0 -.1 1+ 2 NaN inf",
     "the full product of these alphabets", ["moments: 40000 samples, six standard errors, fixed seeds"], body)
