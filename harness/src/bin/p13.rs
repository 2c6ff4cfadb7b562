use harness::prelude::*;
use ndarray::{Array1, Array2};
use sparseglm::utils::helpers::{compute_alpha_max, compute_alpha_max_mtl, compute_alpha_max_sparse};

fn helpers<F: Fl>(pr: &Prob, xlay: Layout, ylay: Layout, k: Csc) -> Vec<f64> {
    let x = Buf2::<F>::new(&pr.x, pr.n, pr.p, xlay);
    let csc = CscBuf::<F>::new(pr, k);
    let y2 = Buf2::<F>::new(&pr.y, pr.n, pr.t, ylay);
    let mut o = vec![real(|| compute_alpha_max_mtl(x.view(), y2.view())).d()];
    if pr.t == 1 {
        let y = Buf1::<F>::new(&pr.y, ylay);
        o.push(real(|| compute_alpha_max(x.view(), y.view())).d());
        o.push(real(|| compute_alpha_max_sparse(&csc.view(), y.view())).d());
    }
    o
}

fn main() {
    harness::explore::main(
        Spec { id: "P13", level: "exploration",
            rule: "every (design, target, storage, layout): the three helpers against the largest group correlation divided by the number of samples; then Lasso / multi-task Lasso fits at strengths around the reported value: all zero at or above, some non-zero below; distinct by critical value and fit; trivial = critical value zero",
            alphabet: "designs {0,1,-1,2}, targets {-2,-1,0,1}; patterns incl. all-negative correlations and empty columns; data in units of 1, 2^-30, 2^30; ratios .2 .5 .9 .999 1-1e-6 1 1+1e-9 1.001 1.5 10",
            bounds: "all designs up to 3x2 (quick: entries {0,1,-1}), patterns up to 33x17 / 8x140; 2x70001, 70001x2, 130 tasks with the maximum at given places",
            assumptions: &["at the exact value a fit is judged with tolerance 1e-12 (group norms round)"] },
        |ch| {
            let small = ch.flag();
            let pr = if small {
                let (n, p) = *ch.of(&[(2, 2), (1, 3), (3, 1), (3, 2), (2, 3)]);
                let t = *ch.of(&[1, 2]);
                let x: Vec<f64> = (0..n * p).map(|_| *ch.of(by_tier(&[0.0, 1.0, -1.0][..], if n * p > 4 { &[0.0, 1.0, -2.0][..] } else { &[0.0, 1.0, -1.0, 2.0][..] }))).collect();
                let y: Vec<f64> = (0..n * t).map(|i| if i < 4 { *ch.of(by_tier(&[-1.0, 0.0, 2.0][..], &[-2.0, -1.0, 0.0, 1.0][..])) } else { 1.0 }).collect();
                Prob { n, p, t, x, y }
            } else if ch.flag() {
                // large: one column or row carries the maximum, anywhere
                let (n, p, t) = *ch.of(&[(2, 70001, 1), (70001, 2, 1), (3, 300, 2), (300, 3, 2), (4, 3, 130), (2, 2000, 1), (2000, 2, 1)]);
                let mut q = pattern(n, p, t, ch.pick(2), *ch.of(&[Deco::Sparse, Deco::Plain]), false);
                let at = *ch.of(&[0, 1, p / 2, p - 2, p - 1]) % p;
                if p > 10 { for i in 0..n { q.x[i * p + at] *= 50.0 } } else { let i = if at == 0 { 0 } else { n - 1 }; for k in 0..t { q.y[i * t + k] *= 1e4 } for j in 0..p { q.x[i * p + j] = 1.0 + j as f64 } }
                let want = crit(Loss::Quad, &q);
                let (xl, yl, k) = *ch.of(&[(Layout::C, Layout::C, Csc::Sorted), (Layout::F, Layout::Strided, Csc::Reversed)]);
                ch.note(|| format!("{xl:?} {yl:?} {k:?} maximum at {at} {}", q.show()));
                let h = helpers::<f64>(&q, xl, yl, k);
                for (i, v) in h.iter().enumerate() { ensure!(close(*v, want, 1e-11), "helper {} gives {v}, largest correlation over samples is {want}", ["multi-task", "dense", "sparse"][i]); }
                ch.outcome_f(&h);
                for r in [0.9999, 1.0 + 1e-9] {
                    for task in if t > 1 { vec![Task::Multi] } else { vec![Task::Single, Task::Multi] } { for store in [Store::Dense(xl), Store::Sparse(k)] {
                        let w = fit_u(ch, &q, Loss::Quad, &Pen::L1(h[0] * r), &Cfg { tol: 1e-9 * want, mi: 2, me: 20, ..Cfg::default() }, Api::Est, task, store, 1.0)?;
                        ensure!(w.iter().all(|v| *v == 0.0) == (r > 1.0), "strength {r} x critical gives {} ({task:?} {store:?})", if r > 1.0 { "a non-zero fit" } else { "an all-zero fit" });
                    } }
                }
                return Ok(());
            } else {
                let (n, p) = *ch.of(by_tier(&SHAPES_Q[..], &SHAPES_T[..11]));
                pattern(n, p, *ch.of(&[1, 2, 4]), ch.pick(by_tier(3, 6)), *ch.of(&DECOS), false)
            };
            let want = crit(Loss::Quad, &pr);
            let (xl, yl, k) = if small { *ch.of(&[(Layout::C, Layout::C, Csc::Sorted), (Layout::Strided, Layout::Reversed, Csc::MixedZeros)]) }
                else { (*ch.of(&LAYOUTS), *ch.of(&[Layout::C, Layout::Strided]), *ch.of(&CSCS)) };
            ch.note(|| format!("{xl:?} {yl:?} {k:?} {}", pr.show()));
            let h = helpers::<f64>(&pr, xl, yl, k);
            for (i, v) in h.iter().enumerate() { ensure!(close(*v, want, 1e-12), "helper {} gives {v}, largest correlation over samples is {want}", ["multi-task", "dense", "sparse"][i]); }
            for v in helpers::<f32>(&pr, xl, yl, k) { ensure!(close(v, want, 1e-5), "single precision helper gives {v}, largest correlation over samples is {want}"); }
            // other units: the value scales with design and target
            for u in &UNITS[1..] {
                let q = in_units(Loss::Quad, &pr, &Pen::L1(1.0), *u).pr;
                for (i, v) in helpers::<f64>(&q, xl, yl, k).iter().enumerate() { ensure!((v / (u * u) - want).abs() <= 1e-12 * want, "helper {} gives {v} with data in units of {u:e}, largest correlation over samples is {}", ["multi-task", "dense", "sparse"][i], want * u * u); }
            }
            ch.outcome_f(&h);
            if want == 0.0 { ch.trivial() }
            let _ = (Array1::<f64>::zeros(0), Array2::<f64>::zeros((0, 0)));
            if !small && (xl, yl) != (Layout::C, Layout::C) { return Ok(()) }
            // fits around the reported value
            for (q, r) in [0.2, 0.5, 0.9, 0.999, 1.0 - 1e-6, 1.0, 1.0 + 1e-9, 1.001, 1.5, 10.0].iter().enumerate() {
                let task = if pr.t > 1 { Task::Multi } else if q % 2 == 0 { Task::Single } else { Task::Multi };
                let tasks: Vec<Task> = if pr.t == 1 && !small { vec![Task::Single, Task::Multi] } else { vec![task] };
                for task in tasks { for store in [Store::Dense(xl), Store::Sparse(k)] {
                    let a = h[0] * r;
                    if a == 0.0 && *r < 1.0 { continue; }
                    let c = Cfg { tol: 1e-12, mi: 5, me: 50, ..Cfg::default() };
                    let unit = if q < 7 { UNITS[q % 3] } else { 1.0 };
                    let w = fit_u(ch, &pr, Loss::Quad, &Pen::L1(a), &c, Api::Est, task, store, unit)?;
                    let zero = w.iter().all(|v| *v == 0.0);
                    ensure!(w.len() == pr.p * pr.t && w.iter().all(|v| v.is_finite()), "bad coefficients {w:?}");
                    if *r >= 1.0 { ensure!(zero, "strength {r} x critical ({a}) gives a non-zero fit {w:?} ({task:?} {store:?})"); }
                    else { ensure!(!zero, "strength {r} x critical ({a}) gives an all-zero fit ({task:?} {store:?})"); }
                } }
            }
            Ok(())
        },
    )
}
