use harness::env::*;
use harness::prelude::*;
use ndarray::{Array1, Array2};
use sparseglm::solvers::{anderson_bcd, anderson_cd};

/// is `ws` a working set the rule allows for these scores and this support?
fn allowed(ws: &[usize], scores: &[f64], support: &[bool], start: usize) -> Result<(), String> {
    let p = scores.len();
    let nnz = support.iter().filter(|b| **b).count();
    let m = start.max((2 * nnz).min(p));
    if ws.len() != m { return Err(format!("size {} instead of {m}", ws.len())); }
    let mut inn = vec![false; p];
    for &j in ws { if j >= p || inn[j] { return Err("repeats or out of range".into()); } inn[j] = true; }
    if let Some(j) = (0..p).find(|j| support[*j] && !inn[*j]) { return Err(format!("feature {j} of the support is missing")); }
    let least = ws.iter().cloned().filter(|j| !support[*j]).min_by(|a, b| scores[*a].partial_cmp(&scores[*b]).unwrap());
    let most = (0..p).filter(|j| !inn[*j]).max_by(|a, b| scores[*a].partial_cmp(&scores[*b]).unwrap());
    if let (Some(a), Some(b)) = (least, most) { if scores[b] > scores[a] { return Err(format!("feature {b} with violation {} is left out for feature {a} with {}", scores[b], scores[a])); } }
    Ok(())
}

fn main() {
    harness::explore::main(
        Spec { id: "P22", level: "model_checking",
            rule: "selection: every score vector x support x start size on both public selection functions; in-solve: the solver against enumerated scores and proximal answers, inner checks out of reach, so that every call for scores of all features opens an outer iteration and distinct curvatures identify the updated features; distinct by selected features; trivial = everything selected",
            alphabet: "scores 0 .5 1 2 (incl. all ties), groups of close (to one ulp), tiny and huge scores, support flags, coefficients of either sign, with a zero in one task, cancelling over the tasks, or the smallest subnormal; start sizes 1..p+1",
            bounds: "selection: 1..5 (quick) / 6 features, plus 20..60 features with up to two departures, 300 with one, 5000 and 70001; in-solve: 2..3 (quick) / 4 features, up to 3 outer iterations of 1-2 epochs",
            assumptions: &["violations are finite: with infinite ones the support cannot be told apart from them by score", "zero-curvature features are selected silently: the updated features must extend to an allowed set by some of them"] },
        |ch| {
            let multi = ch.flag();
            if ch.flag() { return in_solve(ch, multi); }
            let big = ch.flag();
            let (p, scores, support, start, kind);
            // scores of plain sizes, and scores that are close to one another or of extreme size
            let close = !big && ch.flag();
            let al: [f64; 4] = if close { *ch.of(&[[1.0, 1.0 + f64::EPSILON, 1.0 + 1e-9, 1.0 - 1e-12], [0.0, 5e-324, 1e-300, 1e-17], [1e300, f64::MAX, 1e12, 1e12 + 1.0], [0.125, 0.125000001, 0.25, 0.2499999]]) } else { [0.0, 0.5, 1.0, 2.0] };
            if !big {
                p = if close { 1 + ch.pick(by_tier(3, 4)) } else { 1 + ch.pick(by_tier(5, 6)) };
                scores = (0..p).map(|_| *ch.of(&al)).collect::<Vec<f64>>();
                support = (0..p).map(|_| ch.flag()).collect::<Vec<bool>>();
                start = 1 + ch.pick(p);
                kind = ch.pick(if multi { 5 } else { 3 });
            } else {
                // long enough for the sort to leave its small-slice path
                p = *ch.of(&[20, 24, 33, 60, 300, 5000, 70001]);
                let mut d = Dev::new(if p <= 24 { by_tier(2, 3) } else if p <= 60 { 2 } else if p == 300 { 1 } else { 0 });
                let shape = ch.pick(7);
                scores = (0..p).map(|j| { let base = match shape { 0 => 1.0, 1 => j as f64, 2 => (p - j) as f64, 3 => (j % 3) as f64, 5 => 0.0, 6 => if j % (p / 7) == 3 { 1.0 + j as f64 } else { 0.0 }, _ => ((j * 7) % p) as f64 }; *d.of(ch, &[base, 0.5, 100.0]) }).collect();
                let sup = ch.pick(4);
                support = (0..p).map(|j| match sup { 0 => false, 1 => j == p - 1, 2 => j % 5 == 2, _ => j % 3 == 0 }).collect();
                start = *ch.of(&[1, 10, p]);
                kind = 0;
            }
            let val = |j: usize| match kind { 0 => 1.0, 1 => if j % 2 == 0 { -3.0 } else { 2.0 }, 2 => 5e-324, _ => -1.0 };
            let mut kkt = Array1::from(scores.clone());
            let (ws, size) = if multi {
                // kind 3: only the second task is non-zero; kind 4: the tasks cancel
                let w = Array2::from_shape_fn((p, 2), |(j, k)| if support[j] && (kind != 3 || k == 1) { if kind == 4 && k == 1 { -val(j) } else { val(j) } } else { 0.0 });
                real(|| anderson_bcd::construct_ws_from_kkt(&mut kkt, w.view(), start))
            } else {
                let w = Array1::from_shape_fn(p, |j| if support[j] { val(j) } else { 0.0 });
                real(|| anderson_cd::construct_ws_from_kkt(&mut kkt, w.view(), start))
            };
            let ws = ws.to_vec();
            let what = || if p > 100 { format!("{p} scores, support of {}", support.iter().filter(|b| **b).count()) } else { format!("scores {scores:?}, support {support:?}") };
            let shown = || format!("{:?}{}", &ws[..ws.len().min(60)], if ws.len() > 60 { "..." } else { "" });
            ch.note(|| format!("multi={multi} {} start={start} -> {} size {size}", what(), shown()));
            ch.step();
            ch.state(&(multi, scores.iter().map(|v| v.to_bits()).collect::<Vec<_>>(), support.clone(), start));
            ch.outcome(&(p, ws.clone()));
            if ws.len() == p { ch.trivial() }
            ensure!(size == ws.len(), "reported size {size} for {}", shown());
            if let Err(e) = allowed(&ws, &scores, &support, start) { bad!("working set {} for {}, start size {start}: {e}", shown(), what()); }
            Ok(())
        },
    )
}

fn in_solve(ch: &mut Ch, multi: bool) -> Res {
    let p = 2 + ch.pick(by_tier(2, 3));
    let n = p;
    let t = if multi { 2 } else { 1 };
    let zero = ch.pick(p + 1); // feature of zero curvature, if any
    let lip: Vec<f64> = (0..p).map(|j| if j == zero { 0.0 } else { (1u32 << j) as f64 }).collect();
    let x: Vec<f64> = (0..n * p).map(|k| if k / p == k % p { 1.0 } else { 0.0 }).collect();
    let ws = 1 + ch.pick(p + 1);
    let (mi, me) = *ch.of(if p == 2 { &[(3, 1), (2, 2), (3, 2)][..] } else if p == 3 { &[(2, 1), (2, 2)][..] } else { &[(2, 1)][..] });
    let c = Cfg { ws, mi, me, tol: 0.25, k: 5, acc: false, verbose: false };
    let zero_g = (mi, me) == (2, 2) && p == 2 && zero == p;
    let opts = Opts { grads: if zero_g { vec![-1.0, 0.0] } else { vec![-1.0] }, prox: vec![ProxAns::Lean(1.0), ProxAns::Const(0.0)], scores: if p == 4 || zero_g { vec![1.0, 2.0] } else { vec![1.0, 0.0, 2.0] }, values: vec![0.0], pvalues: vec![0.0] };
    let pr = Prob { n, p, t, x: x.clone(), y: vec![1.0; n * t] };
    let env = Env::new(ch, Dev::new(usize::MAX), n, p, t, x, lip.clone(), opts);
    let (w, fault, ev, _) = run(env, &pr, &c, multi, Store::Dense(Layout::C));
    if let Some(f) = fault { bad!("{f}") }
    ch.note(|| format!("multi={multi} curvatures {lip:?} {c:?} events {ev:?} -> {w:?}"));
    // split at the calls for scores
    let start = ws.min(p);
    let mut rounds: Vec<(Vec<f64>, Vec<f64>, Vec<usize>)> = vec![];
    for e in &ev {
        match e {
            Ev::Scores { w, ws, s } => {
                let mut by = vec![0.0; p];
                ensure!(ws.len() == p, "scores of {ws:?} only, before an outer iteration");
                for (i, j) in ws.iter().enumerate() { by[*j] = s[i]; }
                if let Some(last) = rounds.last() { if last.2.is_empty() && last.0 == *w { continue; } }
                rounds.push((w.clone(), by, vec![]));
            }
            Ev::Prox { js } => {
                ensure!(js.len() == 1, "ambiguous update {js:?}");
                ensure!(!rounds.is_empty(), "a feature is updated before any score was asked for");
                rounds.last_mut().unwrap().2.push(js[0]);
            }
        }
    }
    let total = rounds.len();
    for (r, (wr, scores, upd)) in rounds.iter().enumerate() {
        let support: Vec<bool> = (0..p).map(|j| wr[j * t..(j + 1) * t].iter().any(|v| *v != 0.0)).collect();
        let max = scores.iter().fold(0.0f64, |a, b| a.max(*b));
        if upd.is_empty() && (max <= c.tol || (r + 1 == total && r >= mi)) { continue; }
        ensure!(upd.len() % me == 0, "outer iteration {r}: {} updates in {me} epochs: {upd:?}", upd.len());
        let k = upd.len() / me;
        let set = &upd[..k];
        for q in 1..me { ensure!({ let mut a = set.to_vec(); let mut b = upd[q * k..(q + 1) * k].to_vec(); a.sort(); b.sort(); a == b }, "outer iteration {r}: epochs cycle over different features {upd:?}"); }
        let mut cand = set.to_vec();
        let mut v = allowed(&cand, scores, &support, start);
        if v.is_err() && zero < p { cand.push(zero); v = allowed(&cand, scores, &support, start); }
        if let Err(e) = v { bad!("outer iteration {r}: features {set:?} were cycled over for scores {scores:?}, support {support:?}, start size {start} (zero curvature: {zero}): {e}"); }
        ch.outcome(&(r, set.to_vec()));
    }
    ch.tally("outer_iterations", total as u64);
    Ok(())
}
