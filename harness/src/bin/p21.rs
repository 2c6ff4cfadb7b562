use harness::env::*;
use harness::prelude::*;

fn main() {
    let inf = f64::INFINITY;
    harness::explore::main(
        Spec { id: "P21", level: "model_checking",
            rule: "the solver runs against a loss and a penalty whose every answer (derivative, proximal point, score, loss and penalty value; pure in its arguments) is an enumerated choice; a monitor automaton keeps the set of coefficient vectors the contract allows and checks every call and the returned vector; part A: all answers of the alphabet, part B: all answer sequences with at most D departures from the defaults over longer runs; distinct by returned coefficients",
            alphabet: "derivatives -1 2 0, proximal answers the argument 0 1 -2, scores 1 0 2 inf, loss values 0 -1 1 NaN -inf inf, penalty values 0 -1; curvatures 0 1 2 4; integer designs dense and CSC; 1 or 2 tasks; the design or the curvatures in units of 2^-80..2^60",
            bounds: "A: 1-2 features, up to 2 outer iterations / 3 epochs; B: 3-4 features, up to 4 outer iterations or 13 epochs, D = 2 (quick) / 3 departures over configuration and answers together",
            assumptions: &["answers are functions of the arguments (up to 1e-9)", "scores are not NaN and the reported maximum is their maximum"] },
        |ch| {
            let small = !ch.flag();
            let multi = ch.flag();
            let t = if multi { 1 + ch.pick(2) } else { 1 };
            let stores = [Store::Dense(Layout::C), Store::Sparse(Csc::MixedZeros)];
            let (p, n, x, c, dev, opts);
            let far = [(1.0, 1.0), (2f64.powi(60), 2f64.powi(-80)), (2f64.powi(-60), 1.0), (2f64.powi(60), 1.0), (1.0, 2f64.powi(60)), (1.0, 2f64.powi(-60))];
            let base = Cfg { ws: 10, mi: 1, me: 1, tol: 0.5, k: 1, acc: true, verbose: false };
            if small {
                let store = *ch.of(&stores);
                p = 1 + ch.pick(2);
                n = 2;
                x = ch.of(&[vec![1.0, 2.0, -1.0, 1.0], vec![1.0, 1.0, 0.0, 0.0]]).clone();
                let x: &Vec<f64> = &x;
                let xx: Vec<f64> = if p == 1 { vec![x[0], x[2]] } else { x.clone() };
                let ls: Vec<f64> = (0..p).map(|_| *ch.of(&[1.0, 2.0, 0.0])).collect();
                let runs: &[(usize, usize, usize, bool)] = if p == 1 {
                    by_tier(&[(1, 1, 1, false), (2, 1, 1, true), (1, 2, 1, true), (1, 3, 2, true), (0, 3, 1, true), (2, 0, 1, true)][..], &[(1, 1, 1, false), (2, 1, 1, true), (1, 2, 1, true), (1, 3, 2, true), (0, 3, 1, true), (2, 0, 1, true), (2, 2, 1, true), (3, 1, 2, false), (1, 4, 1, true)][..])
                } else {
                    by_tier(&[(1, 1, 1, true), (1, 2, 1, true)][..], &[(1, 1, 1, true), (1, 2, 1, true), (2, 1, 1, false)][..])
                };
                let (mi, me, k, acc) = *ch.of(runs);
                c = Cfg { mi, me, k, acc, ws: *ch.of(&[2, 1][..p]), ..base };
                dev = Dev::new(usize::MAX);
                                opts = Opts { grads: if p == 1 || me == 1 { vec![-1.0, 2.0, 0.0] } else { vec![-1.0, 2.0] }, prox: if p == 1 { vec![ProxAns::Arg, ProxAns::Const(0.0), ProxAns::Lean(-2.0)] } else { vec![ProxAns::Arg, ProxAns::Const(0.0)] },
                    scores: if p == 1 { vec![1.0, 0.0, inf] } else { vec![1.0, 0.0] }, values: if p == 1 { vec![0.0, -1.0, f64::NAN] } else { vec![0.0, -1.0] }, pvalues: vec![0.0] };
                let u = if p == 1 || me == 1 { far[ch.pick(2)] } else { far[0] };
                return go(ch, n, p, t, xx, ls, c, dev, opts, multi, store, u);
            }
            let mut d = Dev::new(by_tier(2, 3));
            let store = *d.of(ch, &stores);
            p = 3 + d.pick(ch, 2);
            n = 3;
            x = (0..n * p).map(|k| [2.0, -1.0, 0.0, 1.0, 3.0, 0.0, -2.0, 1.0][(k * 5 + k / 3) % 8]).collect();
            let lip = { let kind = d.pick(ch, 4); (0..p).map(|j| match kind { 0 => 4.0, 1 => [1.0, 2.0, 4.0, 1.0][j], 2 => [2.0, 0.0, 1.0, 2.0][j], _ => [0.0, 1.0, 0.0, 0.0][j] }).collect::<Vec<f64>>() };
            let (mi, me) = *d.of(ch, &[(2, 4), (1, 13), (3, 3), (2, 11), (3, 1), (4, 2), (1, 10)]);
            let k = *d.of(ch, &[2, 1, 3, 5]);
            let acc = *d.of(ch, &[true, false]);
            c = Cfg { mi, me, k, acc, ws: *d.of(ch, &[10, 1, 2]), verbose: d.pick(ch, 2) == 1, tol: *d.of(ch, &[0.5, 0.0, 1.0]), ..base };
            let u = *d.of(ch, &far);
            // the departures left may go to any answer of the run
            dev = d;
            opts = Opts { grads: vec![-1.0, 2.0, 0.0], prox: vec![ProxAns::Arg, ProxAns::Const(0.0), ProxAns::Const(1.0), ProxAns::Lean(-2.0)], scores: vec![1.0, 0.0, 2.0, inf],
                values: vec![0.0, -1.0, 1.0, f64::NAN, -inf, inf], pvalues: vec![0.0, -1.0] };
            go(ch, n, p, t, x, lip, c, dev, opts, multi, store, u)
        },
    )
}

fn go(ch: &mut Ch, n: usize, p: usize, t: usize, x: Vec<f64>, lip: Vec<f64>, c: Cfg, dev: Dev, opts: Opts, multi: bool, store: Store, u: (f64, f64)) -> Res {
    let pr = Prob { n, p, t, x: x.clone(), y: vec![1.0; n * t] };
    ch.note(|| format!("{} tasks={t} multi-task={multi} {store:?} units={u:?} curvatures={lip:?} {c:?}", pr.show()));
    let mut env = Env::new(ch, dev, n, p, t, x, lip.clone(), opts);
    env.u = u;
    let (w, fault, ev, adopted) = run(env, &pr, &c, multi, store);
    ch.note(|| format!("returned {w:?}; {} calls logged", ev.len()));
    if let Some(f) = fault { bad!("{f}") }
    // between two calls for all scores: whole epochs over the working set, none only if the scores allow to stop
    let curved: Vec<usize> = (0..p).filter(|j| lip[*j] != 0.0).collect();
    let full = |e: &Ev| matches!(e, Ev::Scores { ws, .. } if ws.len() == p);
    if p >= 1 && c.ws < p || c.me < 10 || p < 2 {
        // stretches between two calls for all scores; every feature updated there is updated once per epoch
        for part in ev.split(|e| full(e)) {
            let ups: Vec<&Vec<usize>> = part.iter().filter_map(|e| match e { Ev::Prox { js } => Some(js), _ => None }).collect();
            if ups.iter().any(|js| js.len() != 1) { continue; }
            let mut cnt = vec![0usize; p];
            for js in &ups { cnt[js[0]] += 1; }
            let most = *cnt.iter().max().unwrap_or(&0);
            ensure!(cnt.iter().all(|k| *k == 0 || *k == most) && most <= c.me, "updates per feature {cnt:?} in one round of at most {} epochs", c.me);
        }
    }
    if c.ws >= p && !curved.is_empty() {
        // the inner test (the scores of the whole working set) looks like the outer one here: a round is any stretch
        for part in ev.split(|e| full(e)) {
            let ups = part.iter().filter(|e| matches!(e, Ev::Prox { .. })).count();
            ensure!(ups % curved.len() == 0, "{ups} updates of {} features with non-zero curvature: not every feature is updated in every epoch", curved.len());
        }
    }
    if c.me >= 1 && c.me <= 10 {
        let mut k = 0;
        while k < ev.len() {
            let Ev::Scores { s, .. } = &ev[k] else { k += 1; continue };
            let end = (k + 1..ev.len()).find(|i| full(&ev[*i])).unwrap_or(ev.len());
            let ups = ev[k + 1..end].iter().filter(|e| matches!(e, Ev::Prox { .. })).count();
            let max = s.iter().fold(0.0f64, |a, b| a.max(*b));
            let last = end == ev.len();
            if c.ws >= p && max > c.tol && !(last && ups == 0) {
                ensure!(ups == c.me * curved.len(), "{ups} updates of {p} features (curvatures {lip:?}) in {} epochs after scores {s:?}", c.me);
            }
            ensure!(ups % c.me == 0, "{ups} updates in {} epochs", c.me);
            k = end;
        }
        let rounds = ev.iter().filter(|e| full(e)).count();
        ensure!(c.ws < p || curved.is_empty() || rounds == 0 || c.mi != 1 || !matches!(&ev[0], Ev::Scores { s, .. } if s.iter().any(|v| *v > c.tol)) || ev.iter().any(|e| matches!(e, Ev::Prox { .. })), "no update at all");
    }
    ch.outcome_f(&w);
    ch.tally("extrapolations_adopted", adopted);
    ch.tally("coordinate_updates", ev.iter().filter(|e| matches!(e, Ev::Prox { .. })).count() as u64);
    if ev.is_empty() { ch.trivial() }
    Ok(())
}
