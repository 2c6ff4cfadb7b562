"""Python part of P13: the helper of the package, and the fits of the package around the threshold it reports."""
from explore import *
from common import *
from sparseglm.utils import compute_alpha_max
import itertools


def body(ch):
    small = ch.flag()
    dv = Dev(ch, by_tier(1, 3))
    t = ch.of(by_tier([1, 2], [1, 2, 3]))
    if small:
        n, p = ch.of([(2, 2), (1, 2), (2, 1), (3, 1)])
        X = np.array([ch.of(by_tier([0, 1, -1], [0, 1, -1, 2])) for _ in range(n * p)], float).reshape(n, p)
        k = ch.pick(by_tier(2, 4))
        Y = np.array([[((i * 3 + l * 5 + k * 7) % 5) - 2.0 for l in range(t)] for i in range(n)]) * (k != 1 if not THOROUGH else k != 3)
    else:
        n, p = ch.of([(4, 3), (2, 6), (9, 5), (20, 30)])
        X, Y = data(n, p, t, ch.pick(by_tier(3, 12)))
        sgn = ch.pick(3)   # make every correlation negative, or empty a column
        if sgn == 1: X = X * -np.where((X * Y[:, :1]).sum(axis=0) > 0, 1.0, -1.0)
        if sgn == 2: X[:, ch.pick(2)] = 0
    one = t == 1 and ch.flag()       # 1-D target
    y = Y[:, 0] if one else Y
    how = (dv if small else ch).of(["C", "F", "strided both", "reversed columns", "int"] + ["csc", "csr", "csc array"])
    yhow = ch.of(["C", "strided rows", "F"]) if how in ("C", "csc") else "C"
    x = X.astype(int) if how == "int" else sparse(X, how) if how in SPARSE else dense(X, how)
    yy = dense(y, yhow)
    ch.note(lambda: f"X={X.tolist()} as {how} Y={y.tolist()} as {yhow}")
    sx, sy = snapshot(x), snapshot(yy)
    a = float(must(compute_alpha_max, x, yy))
    want = alpha_max(X, Y)
    ensure(abs(a - want) <= 1e-12 * (1 + want), lambda: f"helper reports {a}, largest (group) correlation over n is {want}")
    ensure(snapshot(x) == sx and snapshot(yy) == sy, "the helper modified its inputs")
    ch.outcome(round(a, 9))
    if a == 0: ch.trivial()
    for kind in (["Lasso"] if t == 1 else []) + ["MultiTaskLasso"]:
        for f in (1.0 + 1e-9, 2.0, 1.0 - 1e-6, 0.5):
            if a == 0 and f < 1: continue
            e = make(kind, a * f, tol=1e-14)
            must(e.fit, sparse(X, "csc") if how in SPARSE else X, Y[:, 0] if kind == "Lasso" else Y)
            ensure(e.coef_.any() == (f < 1), lambda: f"{kind} at {f} x the reported threshold {a}: {e.coef_.tolist()}")


main("P13", "exploration", "Python helper against the formula in every container, and Python fits at 1+1e-9, 2, 1-1e-6 and .5 times the reported value; distinct by reported value; trivial = zero",
     "(thorough: all) departures of the container; all 2x2, 1x2, 2x1, 3x1 designs over 0 1 -1 2; integer patterns up to 20x30, all correlations negative, empty column; 8 containers; 1-3 tasks, 1-D and 2-D targets", "as the alphabet says", ["Python part"], body, merge=True)
