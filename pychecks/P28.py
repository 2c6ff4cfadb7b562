from explore import *
from common import *
import math, re

VALUE = "ValueError"   # must be rejected with a ValueError
TYPE = "any error"     # must be rejected, with any ordinary exception
OK = "accepted"
nan, inf = float("nan"), float("inf")
# value, verdict
GRID = {
    "alpha": [(0.5, OK), (0.0, OK), (1e-12, OK), (100.0, OK), (np.float64(0.25), OK), (-0.5, VALUE), (-1e-12, VALUE), (-inf, VALUE), ("0.5", TYPE), (None, TYPE), ([0.5], TYPE), (1j, TYPE)],
    "l1_ratio": [(0.5, OK), (0.0, OK), (1.0, OK), (np.float64(0.25), OK), (-1e-12, VALUE), (1.0 + 1e-9, VALUE), (-0.5, VALUE), (2.0, VALUE), (inf, VALUE), ("0.5", TYPE), (None, TYPE)],
    "gamma": [(16.0, OK), (1.0, OK), (1.5, OK), (inf, OK), (1.0 - 1e-9, VALUE), (0.0, VALUE), (-3.0, VALUE), (-inf, VALUE), ("3", TYPE), (None, TYPE)],
    "tol": [(1e-6, OK), (0.0, OK), (10.0, OK), (-1e-12, VALUE), (-1.0, VALUE), ("1e-9", TYPE), (None, TYPE)],
    "max_iter": [(10, OK), (0, OK), (1, OK), (-1, VALUE), (-50, VALUE), (2.5, TYPE), ("50", TYPE), (None, TYPE)],
    "max_epochs": [(100, OK), (0, OK), (1, OK), (-1, VALUE), (2.5, TYPE), ("1", TYPE), (None, TYPE)],
    "p0": [(10, OK), (1, OK), (10 ** 6, OK), (0, VALUE), (-1, VALUE), (2.5, TYPE), ("10", TYPE), (None, TYPE)],
    "K": [(5, OK), (1, OK), (50, OK), (0, VALUE), (-1, VALUE), (2.5, TYPE), ("5", TYPE), (None, TYPE)],
    "use_accel": [(True, OK), (False, OK)],
    "verbose": [(False, OK), (True, OK)],
}
NAMES = list(GRID)


def states(message, values):
    """does the message contain one of these numbers (up to single-precision rounding)?"""
    found = [float(m) for m in re.findall(r"-?inf|-?\d+\.?\d*(?:e[-+]?\d+)?", message)]
    return any(f == v or abs(f - v) <= 1e-6 * abs(v) for f in found for v in values)


def args_of(kind):
    return [n for n in NAMES if n not in ("l1_ratio", "gamma") or EXTRA[kind] == n]


def params(ch):
    kind = ch.of(KINDS)
    names = args_of(kind)
    cur = {n: GRID[n][0] for n in names}
    i = ch.pick(len(names))
    a = names[i]
    cur[a] = ch.of(GRID[a])
    if i + 1 < len(names) and ch.flag():
        b = names[i + 1 + ch.pick(len(names) - i - 1)]
        cur[b] = ch.of(GRID[b][1:])
        if THOROUGH and ch.flag():
            rest = [n for n in names if n not in (a, b)]
            c = ch.of(rest)
            cur[c] = ch.of(GRID[c][1:])
    how = ch.pick(2)  # at construction, or through set_params on a valid estimator
    sp_ = ch.flag()
    X, Y = data(4, 3, 2 if kind in MULTI else 1, 0)
    x, y = (sparse(X, "csc") if sp_ else dense(X, "F")), (Y if kind in MULTI else Y[:, 0])
    vals = {n: v for n, (v, _) in cur.items()}
    verdicts = {n: v for n, (_, v) in cur.items() if v != OK}
    ch.note(lambda: f"{kind} {'set_params' if how else 'constructor'} sparse={sp_} {vals}")

    def run():
        if how == 0:
            e = getattr(E, kind)(**vals)
        else:
            e = getattr(E, kind)(**{n: GRID[n][0][0] for n in names})
            e.set_params(**vals)
        e.fit(x, y)
        return e
    s, v = call(run)
    ch.outcome(kind, s, type(v).__name__, vals)
    if not verdicts:
        ensure(s == "ok", lambda: f"documented values {vals} rejected: {type(v).__name__}: {v}")
        c = v.coef_
        ensure(c.shape == ((2, 3) if kind in MULTI else (3,)) , lambda: f"coef_ shape {c.shape}")
        # MCP needs gamma above the inverse curvature to be well posed; here the accepted fit only has to be finite
        ensure(np.isfinite(c).all(), lambda: f"{vals}: coefficients {c}")
        if EXTRA[kind] != "gamma" and vals["max_iter"] == 10 and vals["max_epochs"] == 100 and vals["alpha"] > 0.1 and vals["tol"] > 0:
            d = violation(kind, X, Y, c.T.reshape(3, -1), vals["alpha"], vals.get("l1_ratio"))
            ensure(d <= vals["tol"] * 1.01 + 1e-9, lambda: f"{vals}: accepted, but the fit violates optimality by {d}")
        if not c.any(): ch.trivial()
    else:
        ensure(s != "ok", lambda: f"{vals} accepted, although {verdicts} must be rejected")
        if all(k == VALUE for k in verdicts.values()):
            ensure(isinstance(v, ValueError), lambda: f"{vals}: rejected with {type(v).__name__} ({v}), not ValueError")
            ensure(states(str(v), [vals[n] for n in verdicts]), lambda: f"{vals}: the error {v} states none of the rejected values {[vals[n] for n in verdicts]}")


# values past the ranges of narrow number types: accepted, and the fit converges (a truncated budget would not)
LARGE = {"p0": [255, 256, 257, 300, 65535, 65536, 65537, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 53 + 1, 2 ** 62], "K": [64, 255, 256, 257, 300],
         "max_iter": [255, 256, 300, 65536, 65546, 2 ** 31, 2 ** 32, 2 ** 32 + 10, 2 ** 53, 2 ** 62], "max_epochs": [256, 300, 356, 65536, 65636, 2 ** 31, 2 ** 32, 2 ** 32 + 100, 2 ** 53, 2 ** 62]}


def large(ch):
    """large values of the integer arguments, one or two at a time, on data of ordinary sizes"""
    kind = ch.of(KINDS)
    names = list(LARGE)
    cur = dict(p0=10, K=5, max_iter=60, max_epochs=2000)
    i = ch.pick(len(names))
    cur[names[i]] = ch.of(LARGE[names[i]])
    if ch.flag():
        j = ch.pick(len(names))
        if j <= i: ch.skip()
        cur[names[j]] = ch.of(LARGE[names[j]])
    sp_ = ch.flag()
    multi = kind in MULTI
    n, p = ch.of([(6, 4), (12, 30)])
    X, Y = data(n, p, 2 if multi else 1, 1)
    x, y = (sparse(X, "csc") if sp_ else dense(X, "F")), (Y if multi else Y[:, 0])
    ex = {None: None, "l1_ratio": 0.5, "gamma": float(2 * (n / (X ** 2).sum(axis=0)).max() + 1)}[EXTRA[kind]]
    alpha = float(alpha_max(X, Y) * 0.3)
    how = ch.pick(2)
    if how and i: ch.skip()
    ch.note(lambda: f"{kind} {'set_params' if how else 'constructor'} sparse={sp_} {n}x{p} alpha={alpha} extra={ex} {cur}")

    def run():
        if how: e = make(kind, alpha, ex, tol=1e-9); e.set_params(**cur)
        else: e = make(kind, alpha, ex, tol=1e-9, **cur)
        return e.fit(x, y)
    s, v = call(run)
    ensure(s == "ok", lambda: f"{cur} rejected: {type(v).__name__}: {v}")
    W = np.asarray(v.coef_).T.reshape(p, -1)
    d = violation(kind, X, Y, W, alpha, ex)
    ensure(d <= 1.1e-9, lambda: f"{cur}: accepted, but the fit violates optimality by {d}")
    ensure(W.any(), "all-zero fit below the critical strength")
    ensure({k: v.get_params()[k] for k in cur} == cur, "parameters changed by the fit")
    ch.outcome(kind, cur, sp_)
    ch.outcome_f(W)


def faults(ch):
    """bad data: rejected with an ordinary exception, and the estimator keeps working afterwards"""
    kind = ch.of(KINDS)
    multi = kind in MULTI
    n, p = ch.of([(4, 3), (1, 1), (5, 1), (2, 4)])
    X, Y = data(n, p, 2 if multi else 1, ch.pick(by_tier(1, 3)))
    y = Y if multi else Y[:, 0]
    fault = ch.pick(12)
    sp_ = ch.flag()
    x = X
    names = ["y longer", "y shorter", "y empty", "y wrong dimension", "non-finite X", "non-finite y", "X 1-D", "X 3-D", "X without samples", "X without features", "text", "complex"]
    if fault == 0: y = np.concatenate([y, y[:1 + ch.pick(2)]])
    elif fault == 1:
        if n == 1: ch.skip()
        y = y[:n - 1 - ch.pick(min(2, n - 1))]
    elif fault == 2: y = y[:0]
    elif fault == 3:
        k = ch.pick(3)
        y = [y[:, 0] if multi else np.column_stack([y, y]), y[..., None] if multi else y[:, None, None], np.float64(3.0)][k]
    elif fault in (4, 5):
        v = ch.of([nan, inf, -inf])
        if fault == 4: x = X.copy(); x[ch.pick(n), ch.pick(p)] = v
        else:
            y = y.copy()
            if multi: y[ch.pick(n), ch.pick(2)] = v
            else: y[ch.pick(n)] = v
    elif fault == 6: x = X[:, 0]
    elif fault == 7: x = X[None]
    elif fault == 8: x, y = X[:0], y[:0]
    elif fault == 9: x = X[:, :0]
    elif fault == 10: x = X.astype(str).astype(object); x[0, 0] = "a"
    else: x = X.astype(complex); x[0, 0] = 1j
    if sp_:
        if fault in (6, 7, 8, 9, 10): ch.skip()
        x = sparse(x, "csc", x.dtype)
    if fault not in (4, 6, 7, 8, 9, 10, 11): x = sparse(X, ch.of(["csc", "csr"])) if sp_ else dense(X, ch.of(["C", "F", "list"]))
    est = make(kind, 0.25, {None: None, "l1_ratio": 0.5, "gamma": 64.0}[EXTRA[kind]])
    fitted = ch.flag()
    good = Y if multi else Y[:, 0]
    if fitted: must(est.fit, X, good)
    before = None if est.coef_ is None else est.coef_.copy()
    ch.note(lambda: f"{kind} {names[fault]} sparse={sp_} fitted before={fitted} X={x!r} y={y!r}")
    s, v = call(est.fit, x, y)
    ensure(s != "ok", lambda: f"{names[fault]}: accepted, coef_ {est.coef_}")
    ch.outcome(kind, fault, type(v).__name__)
    if fault in (0, 1, 4, 5, 6, 7, 8, 9): ensure(isinstance(v, (ValueError, TypeError)), lambda: f"{names[fault]}: {type(v).__name__}: {v}")
    ensure((before is None and est.coef_ is None) or (before is not None and np.array_equal(est.coef_, before)), "a refused fit changed the coefficients")
    must(est.fit, X, good)
    fresh = make(kind, 0.25, {None: None, "l1_ratio": 0.5, "gamma": 64.0}[EXTRA[kind]])
    must(fresh.fit, X, good)
    ensure(np.array_equal(fresh.coef_, est.coef_), "after a refused fit, a good fit differs from a fresh estimator's")


def body(ch):
    return (params, faults, large)[ch.pick(3)](ch)


main("P28", "exploration",
     "every assignment of one or two (thorough: three) arguments per estimator, at construction and through set_params, fitted on dense and sparse data: accepted exactly if every value is documented, a ValueError when only values (not types) are wrong; every data fault with and without a previous fit; distinct by (estimator, arguments, outcome); trivial = all-zero fit",
     "; ".join(f"{n}: {[v for v, _ in g]}" for n, g in GRID.items()) + "; twelve data faults; large integers " + str(LARGE),
     "pairs (quick) / triples (thorough) of departures from a valid configuration; designs (4,3) (1,1) (5,1) (2,4)",
     ["integers and booleans passed for floats, and NaN hyperparameters, are unspecified and not tried", "wrong types may raise any ordinary exception"], body)
