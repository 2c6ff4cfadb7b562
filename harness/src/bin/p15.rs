use harness::prelude::*;
use harness::{with_multi, with_single};
use ndarray::{Array1, ArrayView1, ArrayView2};
use sparseglm::datafits::multi_task::QuadraticMultiTask;
use sparseglm::datafits::single_task::{Logistic, Quadratic};
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L05, L1, MCP};
use sparseglm::solvers::{BCDSolver, CDSolver};
use std::cell::Cell;

/// a real penalty that counts the coordinate updates asked of it
struct Rec<P> { p: P, n: Cell<u64> }
impl<P: Penalty<f64>> Penalty<f64> for Rec<P> {
    fn value(&self, w: ArrayView1<f64>) -> f64 { self.p.value(w) }
    fn prox(&self, v: f64, s: f64) -> f64 { self.n.set(self.n.get() + 1); self.p.prox(v, s) }
    fn subdiff_distance(&self, w: ArrayView1<f64>, g: ArrayView1<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) { self.p.subdiff_distance(w, g, ws) }
    fn optimality_violation(&self, w: ArrayView1<f64>, g: ArrayView1<f64>, ws: ArrayView1<usize>, l: ArrayView1<f64>) -> (Array1<f64>, f64) { self.p.optimality_violation(w, g, ws, l) }
}
impl<P: MultiTaskPenalty<f64>> MultiTaskPenalty<f64> for Rec<P> {
    fn value(&self, w: ArrayView2<f64>) -> f64 { self.p.value(w) }
    fn prox(&self, v: ArrayView1<f64>, s: f64) -> Array1<f64> { self.n.set(self.n.get() + 1); self.p.prox(v, s) }
    fn subdiff_distance(&self, w: ArrayView2<f64>, g: ArrayView2<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) { self.p.subdiff_distance(w, g, ws) }
}
/// coefficients and number of coordinate updates
fn counted(pr: &Prob, loss: Loss, pen: &Pen, c: &Cfg, task: Task, store: Store) -> (Vec<f64>, u64) {
    let s = solver::<f64>(c);
    macro_rules! one { ($p:expr) => {{
        let r = Rec { p: $p, n: Cell::new(0) };
        let w = with_single!(pr, store, Layout::C, f64, |ds| real(|| match loss { Loss::Quad => s.solve(&ds, &mut Quadratic::<f64>::new(), &r).unwrap(), Loss::Logistic => s.solve(&ds, &mut Logistic::<f64>::new(), &r).unwrap() })).to_vec();
        (w, r.n.get())
    }} }
    macro_rules! many { ($p:expr) => {{
        let r = Rec { p: $p, n: Cell::new(0) };
        let w: Vec<f64> = with_multi!(pr, store, Layout::C, f64, |ds| real(|| s.solve_multi_task(&ds, &mut QuadraticMultiTask::<f64>::new(), &r).unwrap())).iter().cloned().collect();
        (w, r.n.get())
    }} }
    match (task, *pen) {
        (Task::Single, Pen::L1(a)) => one!(L1::new(a)),
        (Task::Single, Pen::En(a, r)) => one!(L1PlusL2::new(a, r)),
        (Task::Single, Pen::Mcp(a, g)) => one!(MCP::new(a, g)),
        (Task::Single, Pen::L05(a)) => one!(L05::new(a)),
        (Task::Multi, Pen::L1(a)) => many!(L21::new(a)),
        (Task::Multi, Pen::En(a, r)) => many!(BlockL1PlusL2::new(a, r)),
        (Task::Multi, Pen::Mcp(a, g)) => many!(BlockMCP::new(a, g)),
        _ => unreachable!(),
    }
}

fn main() {
    harness::explore::main(
        Spec { id: "P15", level: "model_checking",
            rule: "every outer budget 0..M for each (problem, penalty, epoch budget, working-set size, tolerance, acceleration, storage): a state is the iterate returned under a budget, a transition one more outer iteration; updates are counted by the penalty; the violation is recomputed by the oracle; trivial = no update at all",
            alphabet: "pattern designs x decorations x 5 penalty families x 3 losses; strengths 0 .05 .3 .9 1 1.5 of the critical one; epochs 0 1 2 3 10 11 12 25; start sizes 1 2 10; tolerances 1e-9 1e-3 .1 0; data in units of 1, 2^-30, 2^30",
            bounds: "nearly collinear problems under budgets up to 140003 (quick) / 1200007 epochs or outer iterations; M = 6 (quick) / 12; deviation-bounded in (tasks, variant, storage, acceleration, depth, verbosity): 1 (quick) / 2",
            assumptions: &["violations within 1e-6 relative and 1e-11 absolute of the tolerance may be judged either way"] },
        |ch| {
            if ch.flag() { return long(ch); }
            let logistic = ch.flag();
            let multi = !logistic && ch.flag();
            let loss = if logistic { Loss::Logistic } else { Loss::Quad };
            let mut d = Dev::new(by_tier(1, 2));
            let shapes: &[(usize, usize)] = by_tier(&[(6, 4), (1, 1), (4, 12), (5, 1)][..], &[(6, 4), (1, 1), (1, 4), (4, 12), (12, 5), (5, 1), (20, 20)][..]);
            let (pr, deco) = pattern_case(ch, &mut d, shapes, if multi { &[2, 1, 3] } else { &[1] }, by_tier(2, 3), logistic);
            let pr = if logistic { overlap(&pr) } else { pr };
            let fam = ch.pick(if multi { 3 } else { 4 });
            let pen = match fam { 0 => Pen::L1(1.0), 1 => Pen::En(1.0, 0.5), 2 => Pen::Mcp(1.0, 3.0), _ => Pen::L05(1.0) };
            let frac = *ch.of(&[0.3, 0.05, 0.0, 0.9, 1.0, 1.5]);
            let pen = at_frac(loss, &pr, pen, frac);
            if let Pen::Mcp(..) = pen { if max_step(loss, &pr) >= 3.0 { ch.skip() } }
            let me = *ch.of(by_tier(&[1, 0, 2, 10, 12][..], &[1, 0, 2, 3, 10, 11, 12, 25][..]));
            let ws = *ch.of(&[1, 2, 100]);
            let tol = *d.of(ch, &[1e-9, 1e-3, 0.1, 0.0]);
            let base = Cfg { ws, mi: 0, me, tol, acc: *d.of(ch, &[true, false]), k: *d.of(ch, &[5, 1, 2]), verbose: d.pick(ch, 2) == 1 };
            let store = *d.of(ch, &STORES4);
            let unit = *d.of(ch, &UNITS);
            if unit != 1.0 && logistic && fam == 1 { ch.skip() }
            let u = in_units(loss, &pr, &pen, unit);
            if let Pen::Mcp(_, g) = u.pen { if g < 1.0 { ch.skip() } }
            let task = if multi { Task::Multi } else { Task::Single };
            let active = (0..pr.p).filter(|j| pr.col_sq(*j) > 0.0).count() as u64;
            ch.note(|| format!("{loss:?} {task:?} {pen:?} {deco:?} {store:?} {base:?} unit {unit:e} active={active} {}", pr.show()));
            let viol = |w: &[f64]| if let Pen::L05(_) = pen { fixed_point_gap(loss, &pen, &pr, w).0 } else { kkt(loss, &pen, &pr, w).0 };
            // upper estimate: to the farthest of the points that may pass for minimisers
            let viol_hi = |w: &[f64]| if let Pen::L05(_) = pen { fixed_point_gap_by(loss, &pen, &pr, w, true).0 } else { kkt(loss, &pen, &pr, w).0 };
            let slack = tol * 1e-6 + 1e-11 * mean_scale(&pr);
            let start = viol_hi(&vec![0.0; pr.p * pr.t]);
            let mut last: Option<(u64, f64)> = None;
            let mut hi = f64::INFINITY;
            for mi in 0..=by_tier(6, 12) {
                let c = Cfg { mi, ..base };
                let (mut w, k) = counted(&u.pr, loss, &u.pen, &Cfg { tol: c.tol * u.tol, ..c }, task, store);
                for v in w.iter_mut() { *v /= u.w }
                ch.step();
                ch.state(&w.iter().map(|v| v.to_bits()).collect::<Vec<_>>());
                ensure!(k <= (mi * me) as u64 * active, "{k} coordinate updates within {mi} outer iterations of {me} epochs over {active} features");
                if k == 0 { ensure!(w.iter().all(|v| *v == 0.0), "no update but coefficients {w:?}"); }
                let v = viol(&w);
                ensure!(v.is_finite() || fam == 3, "violation {v} at {w:?}");
                if start <= tol - slack { ensure!(k == 0, "the zero vector has violation {start:e} <= {tol:e} but {k} updates were made (budget {mi} x {me})"); }
                let full = (mi * me) as u64 * active;
                if ws >= pr.p && k < full { ensure!(v <= tol + slack, "stopped after {k} of {full} updates at violation {v:e} > {tol:e}; w = {w:?}"); }
                if let Some((k0, v0)) = last {
                    ensure!(k >= k0, "{k} updates with {mi} outer iterations, {k0} with one fewer");
                    if v0 > tol + slack && me > 0 && active > 0 { ensure!(k > k0, "violation {v0:e} > {tol:e} after {} outer iterations, yet one more makes no update", mi - 1); }
                    let h0 = hi; if h0 <= tol - slack { ensure!(k == k0, "violation {h0:e} <= {tol:e} after {} outer iterations, yet one more makes {} updates", mi - 1, k - k0); }
                    ensure!(k - k0 <= me as u64 * active, "one outer iteration of {me} epochs makes {} updates", k - k0);
                }
                if mi == 6 { ch.outcome_f(&w); if k == 0 { ch.trivial() } }
                last = Some((k, v));
                hi = viol_hi(&w);
            }
            Ok(())
        },
    )
}

/// runs of up to hundreds of thousands of epochs or outer iterations
fn long(ch: &mut Ch) -> Res {
    let logistic = ch.flag();
    let loss = if logistic { Loss::Logistic } else { Loss::Quad };
    let t = if logistic { 1 } else { *ch.of(&[1, 2]) };
    let pr = slow(ch, t, logistic);
    let pr = if logistic { overlap(&pr) } else { pr };
    let fam = ch.pick(if t > 1 { 3 } else { 4 });
    let pen = match fam { 0 => Pen::L1(1.0), 1 => Pen::En(1.0, 0.99999), 2 => Pen::Mcp(1.0, 2.0 * max_step(loss, &pr).max(1.0)), _ => Pen::L05(1.0) };
    let pen = at_frac(loss, &pr, pen, *ch.of(&[1e-4, 1e-6]));
    let task = if t > 1 { Task::Multi } else { Task::Single };
    let mut d = Dev::new(1);
    let base = Cfg { mi: 0, me: 0, ws: 10, acc: *d.of(ch, &[false, true]), k: *d.of(ch, &[5, 30]), tol: *d.of(ch, &[1e-9, 1e-6, 1e-4]), verbose: false };
    let store = *d.of(ch, &[Store::Dense(Layout::C), Store::Sparse(Csc::Reversed)]);
    let p = pr.p as u64;
    let inner = ch.flag();
    ch.note(|| format!("{loss:?} {task:?} {pen:?} {store:?} {base:?} growing {} {}", if inner { "epochs" } else { "outer iterations" }, pr.show()));
    let viol = |w: &[f64]| if let Pen::L05(_) = pen { fixed_point_gap(loss, &pen, &pr, w).0 } else { kkt(loss, &pen, &pr, w).0 };
    let slack = base.tol * 1e-6 + 1e-11 * mean_scale(&pr);
    let mut last: Option<(u64, f64, Vec<f64>)> = None;
    for b in [1usize, 10, 257, 1001, 10_007, 70_001, by_tier(140_003, 1_200_007)] {
        let (mi, me) = if inner { (1, b) } else { (b, 1) };
        let (w, k) = counted(&pr, loss, &pen, &Cfg { mi, me, ..base }, task, store);
        ch.step();
        ch.state(&w.iter().map(|v| v.to_bits()).collect::<Vec<_>>());
        let v = viol(&w);
        let full = b as u64 * p;
        ensure!(w.iter().all(|v| v.is_finite()), "budget {b}: coefficients {w:?}");
        ensure!(k <= full, "budget {b}: {k} coordinate updates of {p} features");
        ensure!(k == full || v <= base.tol + slack, "budget {b}: stopped after {k} of {full} updates at violation {v:e} > {:e}", base.tol);
        if let Some((k0, v0, w0)) = &last {
            ensure!(k >= *k0, "{k} updates under budget {b}, {k0} under a smaller one");
            if !inner && *v0 <= base.tol - slack { ensure!(k == *k0 && w == *w0, "budget {b}: violation {v0:e} <= {:e} reached after {k0} updates, yet {k} are made", base.tol); }
        }
        ch.tally(if k < full { "stopped_by_tolerance" } else { "stopped_by_budget" }, 1);
        if k > 70_000 * p { ch.tally("beyond_70000_epochs", 1) }
        last = Some((k, v, w));
    }
    ch.outcome_f(&last.unwrap().2);
    Ok(())
}
