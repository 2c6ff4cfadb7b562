use harness::prelude::*;
use harness::{with_multi, with_single};
use sparseglm::datafits::multi_task::QuadraticMultiTask;
use sparseglm::datafits::single_task::Logistic;

fn main() {
    harness::explore::main(
        Spec { id: "P16", level: "exploration",
            rule: "every tiny or degenerate dataset x estimator or solver x settings: the fit returns (no panic, no hang), one finite coefficient per feature and task; datasets: all matrices of the smallest shapes, and decorated patterns of every small or lopsided shape (one sample, one feature, no feature, constant, zero, duplicated, huge- and tiny-scaled columns, zero or constant targets); trivial = all-zero result",
            alphabet: "entries 0 1 -2 .5, scales 1e-6..1e6 (and 1e-30 for whole columns), targets 0 1 -1 and constant; strengths 0 .3 1 2 of the critical one; tolerances 0 1e-6 10; depths 1 2 5 20; start sizes 1 2 10 10^6; 0..3 tasks' worth of shapes; f64 and f32; dense layouts and CSC kinds",
            bounds: "shapes up to 3x3 in full, up to 4x40 / 40x3 decorated, 2x70001 / 70001x2 / 130 tasks with defaults; budgets up to 30 x 60; departures 1-2 (quick) / 2-3 in the settings",
            assumptions: &["magnitudes whose squares and products stay representable", "logistic: labels in {-1,1}"] },
        |ch| {
            let space = ch.pick(4);
            let mut d = Dev::new(match space { 0 => by_tier(1, 2), 1 => by_tier(2, 3), 3 => by_tier(0, 1), _ => 1 });
            let pr = match space {
                0 => {
                    let (n, p, t) = *ch.of(by_tier(&[(1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 1), (1, 0, 1), (3, 0, 2), (1, 2, 2)][..], &[(1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 1), (2, 2, 2), (1, 3, 1), (3, 1, 1), (1, 0, 1), (3, 0, 2), (1, 2, 3)][..]));
                    let x: Vec<f64> = (0..n * p).map(|_| *ch.of(&[0.0, 1.0, -2.0, 0.5])).collect();
                    let y: Vec<f64> = (0..n * t).map(|i| if i < 3 { *ch.of(&[1.0, 0.0, -1.0]) } else { 1.0 }).collect();
                    Prob { n, p, t, x, y }
                }
                1 => pattern_case(ch, &mut d, by_tier(&[(1, 1), (1, 3), (2, 3), (4, 40), (40, 3), (3, 1), (1, 12)][..], &[(1, 1), (1, 3), (2, 2), (2, 3), (3, 3), (4, 40), (40, 3), (3, 1), (1, 12), (7, 7), (5, 0)][..]), &[1, 2, 3], 2, false).0,
                3 => {
                    let (n, p, t) = *ch.of(&[(2, 70001, 1), (70001, 2, 1), (3, 300, 3), (300, 3, 3), (4, 3, 130), (1, 5000, 1), (5000, 1, 2)]);
                    pattern(n, p, t, ch.pick(2), *ch.of(&[Deco::Plain, Deco::Sparse, Deco::ZeroCol]), false)
                }
                _ => {
                    // column kinds in every combination
                    let n = *ch.of(&[1, 2, 5]);
                    let p = *ch.of(by_tier(&[1, 2, 3][..], &[1, 2, 3, 4][..]));
                    let t = *ch.of(&[1, 2]);
                    let kinds: Vec<usize> = (0..p).map(|_| ch.pick(8)).collect();
                    let base = |i: usize, j: usize| [1.3, -0.7, 0.4, 2.0, -1.1, 0.9, 1.7][(i * 3 + j * 2) % 7];
                    let mut x = vec![0.0; n * p];
                    for i in 0..n { for j in 0..p { x[i * p + j] = match kinds[j] { 0 => base(i, j), 1 => 0.0, 2 => 1.0, 3 => 1e6 * base(i, j), 4 => 1e-6 * base(i, j), 5 => base(i, 0), 6 => if i == 0 { 1.0 } else { 0.0 }, _ => 1e-30 * base(i, j) }; } }
                    let yk = ch.pick(4);
                    let y = (0..n * t).map(|i| match yk { 0 => base(i, 5), 1 => 0.0, 2 => 1.0, _ => 1e4 * base(i, 3) }).collect();
                    Prob { n, p, t, x, y }
                }
            };
            let mode = ch.pick(if pr.t == 1 { 3 } else { 1 }); // 0 multi, 1 single, 2 logistic
            let fam = ch.pick(if mode == 0 { 3 } else if mode == 1 { 4 } else { 2 });
            let f32b = d.pick(ch, 2) == 1;
            let loss = if mode == 2 { Loss::Logistic } else { Loss::Quad };
            let mut pr = pr;
            if mode == 2 { for v in pr.y.iter_mut() { *v = if *v > 0.0 { 1.0 } else { -1.0 } } }
            if f32b && pr.x.iter().any(|v| *v != 0.0 && v.abs() < 1e-15) { ch.skip() }
            let pr = pr;
            let fr = *d.of(ch, &[0.3, 0.0, 1.0, 2.0]);
            let pen = match fam { 0 => Pen::L1(1.0), 1 => Pen::En(1.0, *d.of(ch, &[0.5, 0.0, 1.0])), 2 => Pen::Mcp(1.0, 3.0f64.max(1.5 * max_step(loss, &pr)).min(1e14)), _ => Pen::L05(1.0) };
            let pen = at_frac(loss, &pr, pen, fr);
            // outside the domain: the one-dimensional subproblems of MCP are not strongly convex and may be unbounded below in the step
            if let Pen::Mcp(_, g) = pen { if max_step(loss, &pr) >= g { ch.skip() } }
            let store = *d.of(ch, &[Store::Dense(Layout::C), Store::Sparse(Csc::Sorted), Store::Dense(Layout::Strided), Store::Sparse(Csc::AllStored), Store::Sparse(Csc::MixedZeros), Store::Dense(Layout::F)]);
            let (mi, me) = *d.of(ch, &[(5, 25), (30, 60), (1, 1), (0, 5), (3, 0)]);
            let c = Cfg { mi, me, tol: *d.of(ch, &[1e-6, 0.0, 10.0]), k: *d.of(ch, &[5, 1, 2, 20]), ws: *d.of(ch, &[10, 1, 2, 1_000_000]), acc: *d.of(ch, &[true, false]), verbose: d.pick(ch, 2) == 1 };
            let task = if mode == 0 { Task::Multi } else { Task::Single };
            let api = if mode == 2 || fam == 3 { Api::Solver } else { *d.of(ch, &[Api::Est, Api::Solver]) };
            ch.note(|| format!("{loss:?} {pen:?} {api:?} {task:?} {store:?} f32={f32b} {c:?} {}", pr.show()));
            let w = ok(if f32b { fit_f::<f32>(&pr, loss, &pen, &c, api, task, store, Layout::C) } else { fit(&pr, loss, &pen, &c, api, task, store) })?;
            ensure!(w.len() == pr.p * pr.t, "{} coefficients for {} features x {} tasks", w.len(), pr.p, pr.t);
            ensure!(w.iter().all(|v| v.is_finite()), "non-finite coefficients {w:?}");
            ch.outcome_f(&w);
            if w.iter().all(|v| *v == 0.0) { ch.trivial() }
            // the losses themselves on the same data
            if !f32b && d.left > 0 {
                let fits = vec![vec![0.0; pr.n * pr.t]];
                let v = if mode == 0 { with_multi!(&pr, store, Layout::C, f64, |ds| multi_numbers(&ds, &fits, pr.n, pr.t)) } else if mode == 2 { with_single!(&pr, store, Layout::C, f64, |ds| single_numbers(&ds, &mut Logistic::<f64>::new(), &fits)) } else { vec![] };
                ensure!(v.iter().all(|x| x.is_finite()), "non-finite loss numbers {v:?}");
                let _ = QuadraticMultiTask::<f64>::new();
            }
            Ok(())
        },
    )
}
