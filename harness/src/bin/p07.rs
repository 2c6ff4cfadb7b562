use harness::prelude::*;
use harness::{with_multi, with_single};
use ndarray::{Array1, Array2};
use sparseglm::datafits::single_task::{Logistic, Quadratic};
use sparseglm::datasets::DatasetBase;
use sparseglm::utils::helpers::{compute_alpha_max, compute_alpha_max_sparse};

/// one representation of a column: which zeros are stored, and in which order the rows come
fn column(ch: &mut Ch, pr: &Prob, j: usize) -> Vec<usize> {
    let mut rows = vec![];
    for i in 0..pr.n { if pr.xa(i, j) != 0.0 || ch.flag() { rows.push(i) } }
    let mut out = vec![];
    while !rows.is_empty() { let k = ch.pick(rows.len()); out.push(rows.remove(k)); }
    out
}

fn main() {
    harness::explore::main(
        Spec { id: "P07", level: "exploration",
            rule: "space 1: every small matrix in every compressed-column representation (each subset of zeros stored, each row order); space 2: pattern designs in seven representations with departures in the settings; each execution compares every loss output, the critical strength, truncated fits and converged fits of the sparse design with the dense one; distinct by those numbers; trivial = the matrix is zero",
            alphabet: "entries {0,1,-2} (quick) / {0,1,-1,2}; shapes 3x2, 2x2, 2x3, 1x2, 3x1, 4x1, 4x2, with 0 features; losses quadratic, multi-task quadratic, logistic; penalties L1, L1+L2, MCP, L0.5 and group versions",
            bounds: "matrices up to 4x2 in all representations; patterns up to 33x17 / 8x140",
            assumptions: &["no duplicate entries (not a valid compressed-column matrix for this crate)"] },
        |ch| {
            if ch.flag() {
                let (n, p) = *ch.of(by_tier(&[(3, 2), (2, 2), (2, 3), (1, 2), (3, 1), (4, 1)][..], &[(3, 2), (2, 2), (2, 3), (1, 2), (3, 1), (4, 1), (4, 2)][..]));
                let xs: &[f64] = if n * p <= 6 { by_tier(&[0.0, 1.0, -2.0], &[0.0, 1.0, -1.0, 2.0]) } else { &[0.0, 2.0] };
                let x: Vec<f64> = (0..n * p).map(|_| *ch.of(xs)).collect();
                let y: Vec<f64> = [1.0, -2.0, 3.0, 1.0][..n].to_vec();
                let pr = Prob { n, p, t: 1, x, y };
                let cols: Vec<Vec<usize>> = (0..p).map(|j| column(ch, &pr, j)).collect();
                let (mut data, mut indices, mut indptr) = (vec![], vec![], vec![0i32]);
                for (j, c) in cols.iter().enumerate() { for &i in c { data.push(pr.xa(i, j)); indices.push(i as i32); } indptr.push(data.len() as i32); }
                ch.note(|| format!("{} stored rows per column {cols:?}", pr.show()));
                if pr.x.iter().all(|v| *v == 0.0) { ch.trivial() }
                // the same columns as a window of a wider matrix
                let win = CscBuf::<f64>::from_parts([&[8.0, -9.0][..], &data[..], &[77.0][..]].concat(), [&[0, 0][..], &indices[..], &[0][..]].concat(), indptr.iter().map(|v| v + 2).collect(), 1);
                let csc = CscBuf::<f64>::from_parts(data, indices, indptr, 1);
                let fits = [vec![0.0; n], [1.0, -1.0, 2.0, 0.0][..n].to_vec(), [-3.0, 2.0, 0.0, 5.0][..n].to_vec()];
                let ya = Array1::from(pr.y.clone());
                let yl = ya.map(|v| v.signum());
                let xa = Array2::from_shape_vec((n, p), pr.x.clone()).unwrap();
                // losses
                let sp = single_numbers(&DatasetBase::from((csc.view(), ya.view())), &mut Quadratic::<f64>::new(), &fits);
                let de = single_numbers(&DatasetBase::from((xa.view(), ya.view())), &mut Quadratic::<f64>::new(), &fits);
                ensure!(sp == de, "quadratic loss: sparse {sp:?} dense {de:?}");
                let spl = single_numbers(&DatasetBase::from((csc.view(), yl.view())), &mut Logistic::<f64>::new(), &fits);
                let del = single_numbers(&DatasetBase::from((xa.view(), yl.view())), &mut Logistic::<f64>::new(), &fits);
                ensure!(all_close(&spl, &del, 1e-13), "logistic loss: sparse {spl:?} dense {del:?}");
                let y2 = Array2::from_shape_fn((n, 2), |(i, k)| if k == 0 { pr.y[i] } else { 2.0 - i as f64 });
                let fits2: Vec<Vec<f64>> = fits.iter().map(|f| f.iter().flat_map(|v| [*v, 1.0 - v]).collect()).collect();
                let spm = multi_numbers(&DatasetBase::from((csc.view(), y2.view())), &fits2, n, 2);
                let dem = multi_numbers(&DatasetBase::from((xa.view(), y2.view())), &fits2, n, 2);
                ensure!(spm == dem, "multi-task loss: sparse {spm:?} dense {dem:?}");
                let (a, b) = (real(|| compute_alpha_max_sparse(&csc.view(), ya.view())), real(|| compute_alpha_max(xa.view(), ya.view())));
                ensure!(a == b, "critical strength: sparse {a} dense {b}");
                let spw = single_numbers(&DatasetBase::from((win.view(), ya.view())), &mut Quadratic::<f64>::new(), &fits);
                let smw = multi_numbers(&DatasetBase::from((win.view(), y2.view())), &fits2, n, 2);
                let slw = single_numbers(&DatasetBase::from((win.view(), yl.view())), &mut Logistic::<f64>::new(), &fits);
                let aw = real(|| compute_alpha_max_sparse(&win.view(), ya.view()));
                ensure!(spw == de && smw == dem && all_close(&slw, &del, 1e-13) && aw == b, "a window of columns of a wider matrix: losses {spw:?} {smw:?} {slw:?}, critical strength {aw}; dense {de:?} {dem:?} {del:?}, {b}");
                ch.outcome_f(&sp);
                ch.outcome_f(&spm);
                // fits: truncated without acceleration, then converged with it
                let pr2 = Prob { t: 2, y: y2.iter().cloned().collect(), ..pr.clone() };
                let prl = Prob { y: yl.to_vec(), ..pr.clone() };
                for (mi, me, acc) in [(1, 1, false), (1, 4, false), (50, 500, true)] {
                    let c = Cfg { mi, me, acc, tol: 1e-10, ..Cfg::default() };
                    for pen in [Pen::L1(0.2), Pen::En(0.3, 0.5), Pen::Mcp(0.2, 5.0)] {
                        let s = solve_single(&DatasetBase::from((csc.view(), ya.view())), &mut Quadratic::<f64>::new(), &pen, &c);
                        let d = solve_single(&DatasetBase::from((xa.view(), ya.view())), &mut Quadratic::<f64>::new(), &pen, &c);
                        if acc { if pen.convex() { same_solution(&pr, Loss::Quad, &pen, &s, &d, c.tol, "sparse/dense fit")?; } } else { ensure!(all_close(&s, &d, 1e-11), "{pen:?} {c:?}: sparse fit {s:?} dense fit {d:?}"); }
                        let s = solve_multi(&DatasetBase::from((csc.view(), y2.view())), &mut sparseglm::datafits::multi_task::QuadraticMultiTask::<f64>::new(), &pen, &c);
                        let d = solve_multi(&DatasetBase::from((xa.view(), y2.view())), &mut sparseglm::datafits::multi_task::QuadraticMultiTask::<f64>::new(), &pen, &c);
                        if acc { if pen.convex() { same_solution(&pr2, Loss::Quad, &pen, &s, &d, c.tol, "sparse/dense multi-task fit")?; } } else { ensure!(all_close(&s, &d, 1e-11), "{pen:?} {c:?}: sparse multi-task fit {s:?} dense fit {d:?}"); }
                    }
                    if !acc && !near_tie(Loss::Logistic, &prl) {
                        let pen = Pen::L1(0.1);
                        let s = solve_single(&DatasetBase::from((csc.view(), yl.view())), &mut Logistic::<f64>::new(), &pen, &c);
                        let d = solve_single(&DatasetBase::from((xa.view(), yl.view())), &mut Logistic::<f64>::new(), &pen, &c);
                        ensure!(all_close(&s, &d, 1e-11), "logistic {c:?}: sparse fit {s:?} dense fit {d:?}");
                    }
                }
                Ok(())
            } else {
                let mut dev = Dev::new(by_tier(2, 3));
                let lg = ch.flag();
                let loss = if lg { Loss::Logistic } else { Loss::Quad };
                let (pr, _) = pattern_case(ch, &mut dev, by_tier(&[(6, 4), (1, 1), (1, 4), (5, 1), (4, 12), (12, 5), (20, 20)][..], &SHAPES_T[..11]), if lg { &[1] } else { &[1, 2, 3] }, by_tier(2, 4), lg);
                let store = Store::Sparse(*ch.of(&CSCS));
                let pk = ch.pick(if pr.t > 1 { 3 } else { 4 });
                let fr = *dev.of(ch, &[0.1, 0.5, 0.9, 1.2]);
                let pen = match pk { 0 => Pen::L1(1.0), 1 => Pen::En(1.0, 0.5), 2 => Pen::Mcp(1.0, 1.5 * max_step(loss, &pr).max(1.0)), _ => Pen::L05(1.0) };
                let pen = at_frac(loss, &pr, pen, fr);
                let task = if pr.t > 1 { Task::Multi } else { Task::Single };
                let api = if lg || pk == 3 { Api::Solver } else { *dev.of(ch, &[Api::Est, Api::Solver]) };
                let fits = [vec![0.0; pr.n * pr.t], (0..pr.n * pr.t).map(|i| ((i * 7) % 5) as f64 - 2.0).collect()];
                let dense = Store::Dense(Layout::C);
                let unit = *dev.of(ch, &UNITS);
                ch.note(|| format!("{loss:?} {pen:?} {api:?} {task:?} {store:?} {}", pr.show()));
                let nums = |st: Store| -> Vec<f64> {
                    if pr.t > 1 { with_multi!(&pr, st, Layout::C, f64, |ds| multi_numbers(&ds, &fits, pr.n, pr.t)) }
                    else if lg { with_single!(&pr, st, Layout::C, f64, |ds| single_numbers(&ds, &mut Logistic::<f64>::new(), &fits)) }
                    else { with_single!(&pr, st, Layout::C, f64, |ds| single_numbers(&ds, &mut Quadratic::<f64>::new(), &fits)) }
                };
                let (a, b) = (nums(store), nums(dense));
                ensure!(all_close(&a, &b, 1e-11), "loss outputs: sparse {a:?} dense {b:?}");
                let tie = near_tie(loss, &pr) && !matches!(store, Store::Sparse(Csc::Sorted));
                for (ws, mi, me) in [(pr.p, 1, 1), (pr.p, 1, 4), (pr.p, 1, 9)] {
                    let c = Cfg { ws, mi, me, acc: false, ..Cfg::default() };
                    let s = fit_u(ch, &pr, loss, &pen, &c, api, task, store, unit)?;
                    let d = fit_u(ch, &pr, loss, &pen, &c, api, task, dense, unit)?;
                    // near-ties of the non-convex operators may fall either way
                    if pk != 3 && !tie { ensure!(max_diff(&s, &d) <= 1e-8 * (1.0 + d.iter().fold(0.0f64, |m, v| m.max(v.abs()))), "{c:?}: sparse fit {s:?} dense fit {d:?}"); }
                    ch.outcome_f(&s);
                }
                if pk < 2 {
                    let c = cfg_dev(ch, &mut dev, pr.p, Cfg { tol: 1e-8, ..Cfg::default() }, &[1e-8, 1e-10]);
                    let s = fit_u(ch, &pr, loss, &pen, &c, api, task, store, unit)?;
                    let d = fit_u(ch, &pr, loss, &pen, &c, api, task, dense, unit)?;
                    same_solution(&pr, loss, &pen, &s, &d, c.tol, "sparse/dense fit")?;
                    ch.outcome_f(&s);
                    if s.iter().all(|v| *v == 0.0) { ch.trivial() }
                }
                Ok(())
            }
        },
    )
}
