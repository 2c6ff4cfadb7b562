from explore import *
from common import *


def body(ch):
    kind = ch.of(KINDS)
    multi = kind in MULTI
    dv = Dev(ch, by_tier(1, 2))
    t = dv.of([2, 1, 3]) if multi else 1
    ex = {None: None, "l1_ratio": 0.5, "gamma": 64.0}[EXTRA[kind]]
    shapes = [(4, 3), (3, 1), (2, 5), (1, 1)][:by_tier(3, 4)]
    start = ch.pick(2)
    est = make(kind, 0.25 if start == 0 else 1e4, ex)
    coef = None   # model: recorded coefficients (p, t)
    log = ["alpha=0.25" if start == 0 else "alpha=1e4"]
    nz = False
    for _ in range(by_tier(4, 5)):
        op = ch.pick(4)
        ch.step()
        if op == 0:  # fit
            k = ch.pick(len(shapes))
            X, Y = data(*shapes[k], t, k)
            if t > 1:  # a task without signal
                if dv.pick(2): Y[:, 0] = 0
            sp_ = dv.pick(2) == 1
            must(est.fit, sparse(X, "csc") if sp_ else X, Y if multi else Y[:, 0])
            coef = np.asarray(est.coef_).T.reshape(X.shape[1], t).copy()
            v = violation(kind, X, Y, coef, est.alpha, ex)
            ensure(v < 1e-8, lambda: f"fit violates optimality by {v}")
            log.append(f"fit {shapes[k]}{' sparse' if sp_ else ''}")
        elif op == 1:  # predict
            m = dv.of([3, 1, 0])
            p = shapes[0][1] if coef is None else coef.shape[0]
            Z, _ = data(max(m, 1), p, 1, 3 + m)
            Z = Z[:m]
            how = dv.of(["C", "F", "strided rows", "csr", "csc", "int", "list", "coo", "float32"])
            if how == "list" and m == 0: ch.skip()
            z = sparse(Z, how) if how in SPARSE else Z.astype(int) if how == "int" else Z.astype(np.float32) if how == "float32" else dense(Z, how)
            snap = snapshot(z)
            s, r = call(est.predict, z)
            log.append(f"predict {m} rows as {how}")
            if coef is None:
                ensure(s == "raised", lambda: f"{log}: predict before any fit returns {r}")
            else:
                ensure(s == "ok", lambda: f"{log}: predict raises {type(r).__name__}: {r}")
                want = Z @ coef if multi else (Z @ coef)[:, 0]
                r = np.asarray(r)
                ensure(r.shape == want.shape, lambda: f"{log}: prediction of shape {r.shape}, expected {want.shape}")
                ensure(rel(r, want) < 1e-12, lambda: f"{log}: prediction {r.tolist()}, design times coefficients {want.tolist()}")
                ch.outcome_f(r)
                nz |= bool(want.any())
                ensure(np.array_equal(np.asarray(est.coef_).T.reshape(coef.shape), coef), "predict changed the coefficients")
            ensure(snapshot(z) == snap, "predict modified its input")
        elif op == 2:  # a refused fit leaves the predictions as they were
            X, Y = data(4, 3, t, 0)
            s, r = call(est.fit, X, (Y if multi else Y[:, 0])[:2])
            ensure(s == "raised", "inconsistent lengths accepted")
            log.append("refused fit")
        else:  # strength changed after the fit: no effect before the next fit
            a = ch.of([0.25, 1e4])
            est.set_params(alpha=a)
            log.append(f"alpha={a}")
        ch.state(kind, t, None if coef is None else coef.round(9).tolist(), est.alpha)
    ch.note(lambda: f"{kind} tasks={t}: {log}")
    ch.outcome(kind, t, log)
    if not nz: ch.trivial()


main("P29", "model_checking",
     "state = (estimator, recorded coefficients, strength); transitions = fit, predict, refused fit, set_params; every history up to the depth on the real classes, each predict compared with the dense product with the coefficients recorded at the last successful fit; trivial = no non-zero prediction",
     "six estimators; 1-3 tasks; four datasets dense and sparse; strengths giving non-zero and all-zero fits; prediction designs of 0, 1 and 3 rows as C, F, strided, csr, csc, coo, integer, float32 and list",
     "histories of 4 (quick) / 5 (thorough) operations; one (quick) / two departures from the base container, row count and task count", ["integer-valued data"], body)
