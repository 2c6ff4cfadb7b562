use harness::prelude::*;
use harness::{with_multi, with_single};
use ndarray::{Array1, Array2};
use sparseglm::datafits::single_task::{Logistic, Quadratic};
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L05, L1, MCP};
use sparseglm::utils::helpers::{compute_alpha_max, compute_alpha_max_mtl, compute_alpha_max_sparse, sigmoid, solve_lin_sys};

/// everything a penalty reports, in precision F
fn pen_numbers<F: Fl>(pen: &Pen, w: &[f64], g: &[f64], t: usize, steps: &[f64], multi: bool) -> Vec<f64> {
    let p = w.len() / t;
    let ws = Array1::from_iter((0..p).rev());
    let wm = Array2::from_shape_fn((p, t), |(i, k)| F::f(w[i * t + k]));
    let gm = Array2::from_shape_fn((p, t), |(i, k)| F::f(g[(p - 1 - i) * t + k]));
    let mut o: Vec<f64> = vec![];
    macro_rules! one { ($e:expr) => {{ let q = $e; let (w1, g1) = (wm.column(0).to_owned(), gm.column(0).to_owned());
        o.push(q.value(w1.view()).d());
        for s in steps { for v in w1.iter() { o.push(q.prox(*v, F::f(*s)).d()); } }
        let (s, m) = q.subdiff_distance(w1.view(), g1.view(), ws.view()); o.extend(s.iter().map(|v| v.d())); o.push(m.d()); }} }
    macro_rules! many { ($e:expr) => {{ let q = $e;
        o.push(q.value(wm.view()).d());
        for s in steps { for r in wm.rows() { o.extend(q.prox(r, F::f(*s)).iter().map(|v| v.d())); } }
        let (s, m) = q.subdiff_distance(wm.view(), gm.view(), ws.view()); o.extend(s.iter().map(|v| v.d())); o.push(m.d()); }} }
    real(|| match (*pen, multi) {
        (Pen::L1(a), false) => one!(L1::new(F::f(a))), (Pen::En(a, r), false) => one!(L1PlusL2::new(F::f(a), F::f(r))), (Pen::Mcp(a, g), false) => one!(MCP::new(F::f(a), F::f(g))), (Pen::L05(a), _) => one!(L05::new(F::f(a))),
        (Pen::L1(a), true) => many!(L21::new(F::f(a))), (Pen::En(a, r), true) => many!(BlockL1PlusL2::new(F::f(a), F::f(r))), (Pen::Mcp(a, g), true) => many!(BlockMCP::new(F::f(a), F::f(g))),
    });
    o
}
/// data that single precision represents exactly
fn round(pr: &Prob) -> Prob { let f = |v: &Vec<f64>| v.iter().map(|x| *x as f32 as f64).collect(); Prob { x: f(&pr.x), y: f(&pr.y), ..pr.clone() } }

fn main() {
    harness::explore::main(
        Spec { id: "P26", level: "exploration",
            rule: "part 1: every penalty output in single precision against double precision; part 2: every loss output and helper; part 3: every (estimator or generic solve, problem, storage, settings) in single precision: recomputed optimality violation within the tolerance at single-precision scale, objective and (unique solutions) coefficients as in double precision; distinct by the single-precision numbers; trivial = all-zero",
            alphabet: "dyadic penalty arguments away from the jumps; integer and pattern designs x decorations, data exactly representable; strengths .1 .5 .9 1.2; tolerances 1e-4 1e-3; stores; depths; start sizes",
            bounds: "patterns up to 20x20 (quick) / 33x17; departures 2 (quick) / 3",
            assumptions: &["single-precision slack: 2e-5 relative on outputs of one operation, 3e-5 times the problem's scale on violations and objectives"] },
        |ch| {
            let part = ch.pick(3);
            if part == 0 {
                let multi = ch.flag();
                let fam = ch.pick(if multi { 3 } else { 4 });
                let a = *ch.of(&[0.5, 0.0, 2.0]);
                let pen = match fam { 0 => Pen::L1(a), 1 => Pen::En(a, *ch.of(&[0.0, 0.25, 0.5, 1.0])), 2 => Pen::Mcp(a, *ch.of(&[1.5, 3.0, 8.0])), _ => Pen::L05(a) };
                let t = if multi { 1 + ch.pick(3) } else { 1 };
                let al = [0.0, 0.375, 0.9375, -2.125, 7.0, 0.0625, -40.0];
                let w: Vec<f64> = (0..2 * t).map(|i| if i < 4 { *ch.of(by_tier(&al[..5], &al[..])) } else { 0.5 }).collect();
                let g: Vec<f64> = (0..2 * t).map(|i| if i < 2 { *ch.of(&[0.0, 0.75, -1.25, 3.5]) } else { 1.0 }).collect();
                ch.note(|| format!("{pen:?} multi={multi} tasks={t} w={w:?} g={g:?}"));
                // the L0.5 operator jumps and MCP's slope blows up as the step nears gamma: keep off both by construction
                let steps = [0.25, 1.0, 1.25];
                if let Pen::L05(a) = pen { if w.iter().any(|v| steps.iter().any(|s| { let j = 1.5 * (a * s).powf(2.0 / 3.0); j > 0.0 && (v.abs() - j).abs() < 1e-3 })) { ch.skip() } }
                let (s, d) = (pen_numbers::<f32>(&pen, &w, &g, t, &steps, multi), pen_numbers::<f64>(&pen, &w, &g, t, &steps, multi));
                ch.outcome_f(&s);
                ensure!(all_close(&s, &d, 5e-5), "{pen:?} w={w:?} g={g:?}: single precision {s:?}, double {d:?}");
                return Ok(());
            }
            let dv = Dev::new(by_tier(2, 3));
            let lg = ch.flag();
            let loss = if lg { Loss::Logistic } else { Loss::Quad };
            let size = ch.pick(3);
            let small = size == 1;
            let mut dv = if size == 2 { Dev::new(by_tier(1, 2)) } else { dv };
            let pr = if size == 2 { let (n, p) = *ch.of(&[(200, 60), (700, 12)]); let q = int_pattern(n, p, if lg { 1 } else { *ch.of(&[1, 2]) }, ch.pick(by_tier(2, 5)), lg);
                let u = *dv.of(ch, &[1.0, 2f64.powi(-10)]); Prob { y: if lg { q.y.clone() } else { q.y.iter().map(|v| v * u).collect() }, x: q.x.iter().map(|v| v / 4.0).collect(), ..q } }
                else if small { let (n, p) = *ch.of(&[(3, 2), (2, 3), (1, 1), (4, 2)]); int_pattern(n, p, if lg { 1 } else { *ch.of(&[1, 2]) }, ch.pick(by_tier(6, 20)), lg) }
                else { pattern_case(ch, &mut dv, by_tier(&[(6, 4), (1, 4), (4, 12), (12, 5), (20, 20)][..], &[(6, 4), (1, 1), (1, 4), (5, 1), (4, 12), (12, 5), (20, 20), (33, 17)][..]), if lg { &[1] } else { &[1, 2, 3] }, 3, lg).0 };
            let pr = round(&if lg { overlap(&pr) } else { pr });
            let multi = pr.t > 1 || (!lg && dv.pick(ch, 2) == 1);
            let store = *dv.of(ch, &STORES4);
            let scale = mean_scale(&pr);
            if part == 1 {
                let fits = [vec![0.0; pr.n * pr.t], (0..pr.n * pr.t).map(|i| ((i * 7) % 5) as f64 - 2.0).collect::<Vec<f64>>(), (0..pr.n * pr.t).map(|i| ((i * 3) % 7) as f64 * 8.0 - 20.0).collect(), (0..pr.n * pr.t).map(|i| ((i * 3) % 7) as f64 * 80.0 - 200.0).collect()];
                fn nums<F: Fl>(pr: &Prob, lg: bool, multi: bool, store: Store, fits: &[Vec<f64>]) -> Vec<f64> {
                    let mut o = if multi { with_multi!(pr, store, Layout::C, F, |ds| multi_numbers(&ds, fits, pr.n, pr.t)) }
                        else if lg { with_single!(pr, store, Layout::C, F, |ds| single_numbers(&ds, &mut Logistic::<F>::new(), fits)) }
                        else { with_single!(pr, store, Layout::C, F, |ds| single_numbers(&ds, &mut Quadratic::<F>::new(), fits)) };
                    let x = Buf2::<F>::new(&pr.x, pr.n, pr.p, Layout::C);
                    let y2 = Buf2::<F>::new(&pr.y, pr.n, pr.t, Layout::C);
                    let csc = CscBuf::<F>::new(pr, Csc::Sorted);
                    real(|| {
                        o.push(compute_alpha_max_mtl(x.view(), y2.view()).d());
                        if pr.t == 1 { let y = y2.view().column(0).to_owned(); o.push(compute_alpha_max(x.view(), y.view()).d()); o.push(compute_alpha_max_sparse(&csc.view(), y.view()).d()); }
                        for f in &fits[1] { o.push(sigmoid(F::f(*f)).d()); }
                        let m = Array2::from_shape_fn((3, 3), |(i, j)| F::f([[4.0, 1.0, 0.5], [1.0, 0.0, 2.0], [0.5, 2.0, 1.0]][i][j]));
                        o.extend(solve_lin_sys(m.view(), Array1::<F>::ones(3).view()).unwrap().iter().map(|v| v.d()));
                    });
                    o
                }
                let (s, d) = (nums::<f32>(&pr, lg, multi, store, &fits), nums::<f64>(&pr, lg, multi, store, &fits));
                ch.note(|| format!("{loss:?} multi={multi} {store:?} {}", pr.show()));
                ch.outcome_f(&s);
                for (i, (a, b)) in s.iter().zip(&d).enumerate() { ensure!((a - b).abs() <= 2e-5 * (scale * 10.0 + b.abs()), "output {i}: single precision {a}, double {b}"); }
                ensure!(s.len() == d.len(), "different numbers of outputs");
                return Ok(());
            }
            let fam = ch.pick(if multi { 3 } else { 4 });
            let pen = match fam { 0 => Pen::L1(1.0), 1 => Pen::En(1.0, 0.5), 2 => Pen::Mcp(1.0, 1.5 * max_step(loss, &pr).max(1.0)), _ => Pen::L05(1.0) };
            let pen = at_frac(loss, &pr, pen, *dv.of(ch, &[0.1, 0.5, 0.9, 1.2]));
            let pen = match pen { Pen::L1(a) => Pen::L1(a as f32 as f64), Pen::En(a, r) => Pen::En(a as f32 as f64, r), Pen::Mcp(a, g) => Pen::Mcp(a as f32 as f64, g as f32 as f64), Pen::L05(a) => Pen::L05(a as f32 as f64) };
            let api = if lg || fam == 3 { Api::Solver } else { *dv.of(ch, &[Api::Est, Api::Solver]) };
            let task = if multi { Task::Multi } else { Task::Single };
            let c = cfg_dev(ch, &mut dv, pr.p, Cfg { mi: 60, me: 2000, tol: 1e-4, ..Cfg::default() }, &[1e-4, 1e-3]);
            let c = Cfg { tol: c.tol * scale.max(1.0), ..c };
            ch.note(|| format!("{loss:?} {pen:?} {api:?} {task:?} {store:?} {c:?} {}", pr.show()));
            let s = ok(fit_f::<f32>(&pr, loss, &pen, &c, api, task, store, Layout::C))?;
            ensure!(s.len() == pr.p * pr.t && s.iter().all(|v| v.is_finite()), "coefficients {s:?}");
            ch.outcome_f(&s);
            if s.iter().all(|v| *v == 0.0) { ch.trivial() }
            let mw = s.iter().fold(1.0f64, |m, v| m.max(v.abs()));
            let slack = 3e-5 * scale * mw * (pr.p as f64).sqrt();
            if fam == 3 { return Ok(()); }
            let (v, j) = kkt(loss, &pen, &pr, &s);
            ensure!(v <= c.tol * 1.001 + slack, "single-precision fit violates optimality by {v:e} at feature {j} (tolerance {:e}, slack {slack:e}): {s:?}", c.tol);
            if pen.convex() {
                let d = ok(fit(&pr, loss, &pen, &Cfg { tol: 1e-9, ..c }, api, task, store))?;
                let (os, od) = (objective(loss, &pen, &pr, &s), objective(loss, &pen, &pr, &d));
                // convexity: excess <= violation x distance
                let dist: f64 = s.iter().zip(&d).map(|(a, b)| (a - b).abs()).sum();
                ensure!(os <= od + (c.tol * 1.001 + slack) * dist + 1e-5 * (1.0 + od.abs()), "single-precision objective {os}, double {od}; {s:?} vs {d:?}");
            }
            Ok(())
        },
    )
}
