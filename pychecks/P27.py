from explore import *
from common import *
from sklearn.base import clone
import copy

TOL = 1e-9
SHAPES = by_tier([(4, 3), (3, 1), (2, 4), (8, 6)], [(4, 3), (3, 1), (2, 4), (8, 6), (1, 1), (1, 3), (5, 5), (14, 12)])


def problem(ch, dv, kind, shapes=SHAPES, nk=None):
    n, p = ch.of(shapes)
    if not nk and n == shapes[0][0]:  # lopsided sizes
        n, p = dv.of([(n, p), (3, 60 if kind == "MultiTaskElasticNet" else 300), (300, 3)])
    t = dv.of([2, 1, 3]) if kind in MULTI else 1
    X, Y = data(n, p, t, ch.pick(nk or by_tier(2, 6)))
    if t > 1:  # a task without signal
        nul = dv.of([None, 0, t - 1])
        if nul is not None: Y[:, nul] = 0
    frac = dv.of([0.1, 0.5, 1.25, 0.0])
    extra = None
    if EXTRA[kind] == "l1_ratio": extra = dv.of([0.5, 1.0, 0.0])
    if EXTRA[kind] == "gamma": extra = dv.of([good_gamma(X), np.inf])
    return X, Y, float(alpha_max(X, Y) * frac), extra


def check_fit(kind, est, X, Y, alpha, extra, tol=TOL):
    c = est.coef_
    p, t = X.shape[1], Y.shape[1]
    want = (t, p) if kind in MULTI else (p,)
    ensure(isinstance(c, np.ndarray) and c.shape == want, lambda: f"coef_ has shape {getattr(c, 'shape', type(c))}, expected {want}")
    ensure(np.isfinite(c).all(), lambda: f"coef_ {c}")
    W = np.asarray(c).T.reshape(p, t)
    if EXTRA[kind] == "gamma" and np.isinf(extra): kind, extra = ("MultiTaskLasso" if kind in MULTI else "Lasso"), None
    v = violation(kind, X, Y, W, alpha, extra)
    slack = 1e-11 * (1 + np.abs(X).max() * (np.abs(Y).max() + np.abs(X @ W).max()))
    ensure(v <= tol * 1.001 + slack, lambda: f"coefficients {W.tolist()} violate the optimality conditions by {v:.3g} (tolerance {tol:g})")
    return W


def containers(ch):
    kind = ch.of(KINDS)
    dv = Dev(ch, by_tier(1, 2))
    X, Y, alpha, extra = problem(ch, dv, kind)
    multi = kind in MULTI
    form = ch.pick(3)
    dtypes = [np.float64, np.float32, np.int64, np.int32, np.int8, np.float16, np.uint8]
    xd = dv.of(dtypes)
    if xd == np.uint8: X = np.abs(X)
    if form == 2:
        ydt = ch.of(dtypes[1:])
        if ydt == np.uint8: Y = np.abs(Y)
        x, xhow = dense(X, "F"), "F"
    else:
        ydt = np.float64
        xhow = ch.of(DENSE if form == 0 else SPARSE)
        if form == 1 and xhow == "coo duplicates" and xd == np.uint8: ch.skip()
        if xhow == "dia" and xd == np.float16: ch.skip()
        if form == 1 and xd == np.float16: ch.skip()  # scipy has no half-precision sparse arithmetic
        x = dense(X, xhow, xd) if form == 0 else sparse(X, xhow, xd)
    yhow = dv.of(["C", "strided rows", "reversed rows", "matrix slice", "list", "read-only", "big-endian"] + (["F", "strided columns", "reversed columns"] if multi else []))
    y = dense(Y if multi else Y[:, 0], yhow, ydt)
    ch.note(lambda: f"{kind} alpha={alpha} extra={extra} X={X.tolist()} as {xhow} {np.dtype(xd)} Y={Y.tolist()} as {yhow} {np.dtype(ydt)}")
    sx, sy = snapshot(x), snapshot(y)
    est = make(kind, alpha, extra, tol=TOL, max_epochs=20000)
    r = must(est.fit, x, y)
    ensure(r is est, "fit does not return the estimator")
    ensure(snapshot(x) == sx and snapshot(y) == sy, "fit modified its inputs")
    W = check_fit(kind, est, X, Y, alpha, extra)
    ch.outcome_f(W)
    if not W.any(): ch.trivial()


def histories(ch):
    """fit, refit, clone and set_params sequences: every fit equals a fresh estimator's"""
    kind = ch.of(KINDS)
    multi = kind in MULTI
    t = 2 if multi else 1
    sets = []
    for (n, p, k, sparse_) in [(4, 3, 0, False), (5, 2, 1, True), (4, 3, 2, False)]:
        X, Y = data(n, p, t, k)
        sets.append((sparse(X, "csc") if sparse_ else dense(X, "F"), Y if multi else Y[:, 0], X, Y))
    ex = {None: None, "l1_ratio": 0.5, "gamma": 8.0}[EXTRA[kind]]
    cur = {"alpha": 0.25, "tol": TOL, "max_epochs": 20000}
    if EXTRA[kind]: cur[EXTRA[kind]] = ex
    est = make(kind, cur["alpha"], ex, tol=TOL, max_epochs=20000)
    log = []
    last = None
    for _ in range(by_tier(3, 4)):
        op = ch.pick(7)
        ch.step()
        if op < 3:
            x, y, X, Y = sets[op]
            must(est.fit, x, y)
            fresh = make(kind, cur["alpha"], cur.get(EXTRA[kind]), **{k: v for k, v in cur.items() if k not in ("alpha", EXTRA[kind])})
            must(fresh.fit, x, y)
            ensure(np.array_equal(est.coef_, fresh.coef_), lambda: f"after {log}, fit of dataset {op} gives {est.coef_.tolist()}, a fresh estimator {fresh.coef_.tolist()}")
            check_fit(kind, est, X, Y, cur["alpha"], cur.get(EXTRA[kind]))
            last = est.coef_.copy()
            log.append(f"fit {op}")
        elif op == 3:
            est = must(clone, est); last = None; log.append("clone")
            ensure(est.coef_ is None, "a clone carries fitted coefficients")
        elif op == 4:
            a = ch.of([0.5, 2.0]); cur["alpha"] = a; must(est.set_params, alpha=a); log.append(f"alpha={a}")
        elif op == 5:
            if not EXTRA[kind]: ch.skip()
            a = {"l1_ratio": 1.0, "gamma": 16.0}[EXTRA[kind]]
            cur[EXTRA[kind]] = a; must(est.set_params, **{EXTRA[kind]: a}); log.append(f"{EXTRA[kind]}={a}")
        else:
            n, v = ch.of([("K", 3), ("p0", 1), ("use_accel", False)]); cur[n] = v; must(est.set_params, **{n: v}); log.append(f"{n}={v}")
        ps = est.get_params()
        ensure(all(ps[k] == v for k, v in cur.items()), lambda: f"after {log}, parameters {ps}, expected {cur}")
        if last is not None: ensure(np.array_equal(est.coef_, last), lambda: f"after {log}, coefficients changed without a fit")
    ch.note(lambda: f"{kind}: {log}")
    ch.outcome(kind, log)


def epochs(kind, X, Y, alpha, extra, feats, k):
    """k plain cyclic proximal coordinate-descent epochs over the given features, from zero"""
    n, p = X.shape
    W = np.zeros((p, Y.shape[1]))
    for _ in range(k):
        for j in feats:
            L = (X[:, j] ** 2).sum() / n
            u = W[j] - X[:, j] @ (X @ W - Y) / n / L
            s = 1 / L
            nu = np.sqrt((u ** 2).sum())
            a = alpha if EXTRA[kind] != "l1_ratio" else alpha * extra
            v = np.zeros_like(u) if nu <= a * s else u * (1 - a * s / nu)
            if EXTRA[kind] == "l1_ratio": v = v / (1 + s * alpha * (1 - extra))
            if EXTRA[kind] == "gamma":
                g = extra / s
                v = u if nu > g * alpha * s else v / (1 - 1 / g)
            W[j] = v
    return W


LONG_REF = {}


def arguments(ch):
    """every constructor argument has its documented effect"""
    kind = ch.of(KINDS)
    multi = kind in MULTI
    t = 2 if multi else 1
    sp_ = ch.flag()
    X, Y = data(6, 4, t, ch.pick(by_tier(2, 4)) * 3)
    ex = {None: None, "l1_ratio": 0.5, "gamma": good_gamma(X)}[EXTRA[kind]]
    am = float(alpha_max(X, Y) / (0.5 if EXTRA[kind] == "l1_ratio" else 1))
    alpha = am * 0.05
    x, y = (sparse(X, "csc") if sp_ else dense(X, "F")), (Y if multi else Y[:, 0])

    def fit(**k):  # reads x and y at call time
        e = make(kind, k.pop("alpha", alpha), k.pop("extra", ex), **k)
        must(e.fit, x, y)
        return np.asarray(e.coef_).T.reshape(X.shape[1], Y.shape[1])
    score = np.array([np.sqrt(((X[:, j] @ Y) ** 2).sum()) for j in range(X.shape[1])])
    order = list(np.argsort(-score))
    if len(set(np.round(score, 9))) < len(score): ch.skip()
    which = ch.pick(8)
    ch.note(lambda: f"{kind} sparse={sp_} alpha={alpha} extra={ex} X={X.tolist()} Y={Y.tolist()} argument {['max_epochs and use_accel', 'p0', 'max_iter', 'tol', 'verbose', 'K', 'use_accel', 'large budgets'][which]}")
    if which == 0:
        k = ch.pick(10)
        got, want = fit(tol=0.0, max_iter=1, max_epochs=k, p0=100, use_accel=False), None
        # the order of the coordinates within an epoch is the solver's own: any order
        import itertools
        ok = any(rel(got, epochs(kind, X, Y, alpha, ex, o, k)) < 1e-9 for o in itertools.permutations(range(X.shape[1])))
        ensure(ok, lambda: f"max_iter=1, max_epochs={k}, use_accel=False: {got.tolist()} is not {k} epoch(s) of coordinate descent")
    elif which == 1:
        m = 1 + ch.pick(4)
        got = fit(tol=0.0, max_iter=1, max_epochs=1, p0=m)
        ensure({j for j in range(4) if got[j].any()} <= set(order[:m]), lambda: f"p0={m}: features {np.flatnonzero(got.any(axis=1)).tolist()} moved, the {m} most violated are {order[:m]}")
        import itertools
        ok = any(rel(got, epochs(kind, X, Y, alpha, ex, o, 1)) < 1e-9 for o in itertools.permutations(order[:m]))
        ensure(ok, lambda: f"p0={m}, one epoch: {got.tolist()} is not one epoch over the {m} most violated features {order[:m]}")
    elif which == 2:
        k = ch.pick(4)
        got = fit(tol=0.0, max_iter=k, max_epochs=1, p0=1, use_accel=False)
        if k == 0: ensure(not got.any(), "max_iter=0 moves coefficients")
        moved = int(got.any(axis=1).sum())
        ensure(moved <= (1, 1, 2, 4)[k] if k else True, lambda: f"max_iter={k}, p0=1: {moved} features moved")
        if k == 3:
            full = fit(tol=TOL, max_iter=50, max_epochs=20000, p0=1)
            ensure(violation(kind, X, Y, full, alpha, ex) < TOL * 1.01 + 1e-11, "max_iter=50 does not converge")
    elif which == 3:
        # the initial violation is alpha_max - alpha
        v0 = violation(kind, X, Y, np.zeros((4, t)), alpha, ex)
        f = ch.of([1.001, 0.999, 0.5, 0.1, 1e-3])
        got = fit(tol=float(v0 * f), max_epochs=20000)
        v = violation(kind, X, Y, got, alpha, ex)
        ensure(v <= v0 * f * (1 + 1e-9), lambda: f"tol={v0 * f:g}: violation {v:g}")
        ensure(got.any() == (f < 1), lambda: f"tol={v0 * f:g}, violation at zero {v0:g}: {got.tolist()}")
    elif which == 4:
        _, quiet = captured(lambda: fit(verbose=False))
        r, loud = captured(lambda: fit(verbose=True))
        ensure(quiet == b"", lambda: f"verbose=False prints {quiet[:80]}")
        ensure(len(loud) > 0, "verbose=True prints nothing")
        ensure(np.array_equal(r, fit(verbose=False)), "verbose changes the fit")
    elif which == 7:
        # budgets beyond narrow integer types, used up on two nearly collinear features, against scalar coordinate descent
        base, off = np.array([1.0, 0.75, 1.25, -1.0]), np.array([1.0, -1.0, 0.5, 1.0])
        X = np.column_stack([base, base + 0.02 * off])
        Y = (base + 0.25 * off)[:, None]
        x, y = (sparse(X, "csc") if sp_ else dense(X, "F")), (Y if multi else Y[:, 0])
        if EXTRA[kind] == "l1_ratio": ex = 1.0
        if EXTRA[kind] == "gamma": ex = np.inf
        a = 1e-6
        (g00, g01), (_, g11) = (X.T @ X / 4).tolist()
        c0, c1 = (X.T @ Y / 4)[:, 0].tolist()
        soft = lambda u, s: u - s if u > s else u + s if u < -s else 0.0

        def ref(k):
            if k not in LONG_REF: LONG_REF[k] = run(k)
            return LONG_REF[k]

        def run(k):
            w0 = w1 = 0.0
            for _ in range(k):
                if first == 0:
                    w0 = soft((c0 - g01 * w1) / g00, a / g00); w1 = soft((c1 - g01 * w0) / g11, a / g11)
                else:
                    w1 = soft((c1 - g01 * w0) / g11, a / g11); w0 = soft((c0 - g01 * w1) / g00, a / g00)
            return np.array([[w0], [w1]])
        first = 0 if abs(c0) > abs(c1) else 1
        k, how = ch.of([(70001, "max_epochs"), (3001, "max_epochs"), (70001, "max_iter"), (3001, "max_iter")])
        got = fit(alpha=a, extra=ex, tol=0.0, use_accel=False, p0=70000, **({"max_iter": 1, "max_epochs": k} if how == "max_epochs" else {"max_iter": k, "max_epochs": 1}))
        want = ref(k)
        if how == "max_epochs":
            ensure(rel(got, want) < 1e-6, lambda: f"max_epochs={k}: {got.tolist()}, {k} epochs of coordinate descent give {want.tolist()}")
        else:  # the two features may be cycled in either order
            d, far = rel(got, want), rel(ref(max(k - 65536, k // 2)), want)
            ensure(d < 0.5 * far or d < 1e-9, lambda: f"max_iter={k}: {got.tolist()}, {k} epochs of coordinate descent give {want.tolist()}")
    elif which == 6:
        # somewhere on seven datasets acceleration must change an iterate, or the argument does nothing
        for k in range(2, 9):
            X, Y = data(6, 4, t, k)
            x, y = (sparse(X, "csc") if sp_ else dense(X, "F")), (Y if multi else Y[:, 0])
            q = dict(alpha=float(alpha_max(X, Y) * 0.05), extra=good_gamma(X) if EXTRA[kind] == "gamma" else ex, tol=0.0, max_iter=1, p0=100, max_epochs=12)
            if rel(fit(use_accel=True, K=3, **q), fit(use_accel=False, K=3, **q)) > 1e-9: break
        else:
            raise Bad("use_accel=True gives exactly the iterates of use_accel=False on every dataset")
    else:
        # no extrapolation can happen before K points exist
        K = ch.of([1, 2, 3, 5, 8])
        dep = []
        for e in range(1, 10):
            a, b = fit(tol=0.0, max_iter=1, max_epochs=e, p0=100, use_accel=True, K=K), fit(tol=0.0, max_iter=1, max_epochs=e, p0=100, use_accel=False, K=K)
            if rel(a, b) > 1e-9: dep.append(e)
        ensure(not dep or min(dep) >= K - 1, lambda: f"K={K}: accelerated and plain iterates differ at epoch {dep}")
    ch.outcome(kind, which, ch.taken[3:])


DEFAULTS = dict(max_iter=50, max_epochs=1000, tol=1e-9, p0=10, use_accel=True, K=5, verbose=True)


def defaults(ch):
    """every subset of the arguments left out, the rest given by name or by position in the documented order: the documented defaults"""
    kind = ch.of(KINDS)
    multi = kind in MULTI
    X, Y = data(12, 14, 2 if multi else 1, ch.pick(by_tier(2, 4)))
    alpha = float(alpha_max(X, Y) * 0.003)
    extra = {"l1_ratio": 0.5, "gamma": 30.0}.get(EXTRA[kind])
    first = [alpha] + ([extra] if extra is not None else [])
    names = list(DEFAULTS)
    how = ch.pick(2)
    if how:
        given = ch.pick(len(names) + 1)
        est = must(getattr(E, kind), *first, *[DEFAULTS[k] for k in names[:given]])
        ch.note(lambda: f"{kind}: {given} optional arguments by position")
    else:
        kept = {k: DEFAULTS[k] for k in names if ch.flag()}
        est = must(getattr(E, kind), *first, **kept)
        ch.note(lambda: f"{kind}: given {sorted(kept)}")
    got = est.get_params()
    want = {**DEFAULTS, "alpha": alpha, **({EXTRA[kind]: extra} if extra is not None else {})}
    ensure(got == want, lambda: f"parameters {got}, documented {want}")
    x, y = dense(X, "F"), (Y if multi else Y[:, 0])
    est.verbose = False
    ref = make(kind, alpha, extra, **{**DEFAULTS, "verbose": False})
    a, b = must(est.fit, x, y).coef_, must(ref.fit, x, y).coef_
    ensure(np.asarray(a).tobytes() == np.asarray(b).tobytes(), lambda: f"coefficients {a.tolist()}, with every argument given {b.tolist()}")
    ch.outcome_f(np.asarray(a))
    ch.outcome(kind, how, ch.taken[2:])


def body(ch):
    return (containers, histories, arguments, defaults)[ch.pick(4)](ch)


main("P27", "exploration",
     "one execution: one estimator on one dataset in one container (numpy optimality violation, shape, untouched inputs); or one fit/clone/set_params history (bit-equal to a fresh estimator); or one constructor argument's effect against a numpy coordinate-descent reference; trivial = all-zero coefficients",
     "six estimators; X: " + ", ".join(DENSE + SPARSE) + "; dtypes float64/32/16, int64/32/8, uint8; y: 10 containers; strengths .1 .5 1.25 0 of the critical one; l1_ratio .5 1 0; gamma admissible and infinite",
     f"shapes {SHAPES}; one (quick) / two (thorough) departures per container case; histories up to 3 (quick) / 4 operations; epochs up to 9, budgets up to 70001; 3x300 and 300x3 as departures; every subset of the optional arguments left out, and every number given by position",
     ["scipy's half-precision sparse arithmetic is out of scope"], body)
