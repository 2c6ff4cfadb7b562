use harness::prelude::*;
use ndarray::{Array1, Array2};
use sparseglm::datafits::multi_task::QuadraticMultiTask;
use sparseglm::datafits::single_task::Quadratic;
use sparseglm::datasets::DatasetBase;
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::estimators::*;
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::param_guard::ParamGuard;
use sparseglm::estimators::traits::Fit;

/// reference model: the last value set for each hyperparameter
#[derive(Clone, Copy, Debug, PartialEq)]
struct M { alpha: f64, gamma: Option<f64>, ratio: Option<f64>, tol: f64, k: usize, ws: usize, mi: usize, me: usize, acc: bool, verbose: bool }
impl M {
    /// every invalid hyperparameter with its value
    fn faults(&self) -> Vec<(&'static str, f64)> {
        let mut f = vec![];
        if self.alpha < 0.0 { f.push(("alpha", self.alpha)) }
        if let Some(g) = self.gamma { if g < 1.0 { f.push(("gamma", g)) } }
        if let Some(r) = self.ratio { if !(0.0..=1.0).contains(&r) { f.push(("l1 ratio", r)) } }
        if self.tol < 0.0 { f.push(("tolerance", self.tol)) }
        if self.k == 0 { f.push(("K", 0.0)) }
        if self.ws == 0 { f.push(("working set size", 0.0)) }
        f
    }
    fn key(&self) -> Vec<u64> { vec![self.alpha.to_bits(), self.gamma.unwrap_or(0.0).to_bits(), self.ratio.unwrap_or(0.0).to_bits(), self.tol.to_bits(), self.k as u64, self.ws as u64, self.mi as u64, self.me as u64, self.acc as u64, self.verbose as u64] }
}
#[derive(Clone, Copy, Debug)]
enum Op { Alpha(f64), Second(f64), Tol(f64), K(usize), Ws(usize), Mi(usize), Me(usize), Acc(bool), Verbose(bool), Clone }
fn named(e: &EstimatorError) -> (&'static str, f64) {
    match *e {
        EstimatorError::InvalidRegularization(v) => ("alpha", v as f64),
        EstimatorError::InvalidGamma(v) => ("gamma", v as f64),
        EstimatorError::InvalidTolerance(v) => ("tolerance", v as f64),
        EstimatorError::InvalidK(v) => ("K", v as f64),
        EstimatorError::InvalidWSSize(v) => ("working set size", v as f64),
        EstimatorError::InvalidL1Ratio(v) => ("l1 ratio", v as f64),
    }
}
type Seen = Result<M, (&'static str, f64)>;

struct Data { x: Array2<f64>, y: Array1<f64>, y2: Array2<f64>, csc: CscBuf<f64> }
struct Facts { by_ref: Seen, by_value: Seen, unwrap: Result<M, String>, fits: Vec<Result<Vec<f64>, (&'static str, f64)>>, checked_fit: Option<Vec<f64>>, direct: Option<Vec<Vec<f64>>> }

macro_rules! drive {
    ($name:ident, $params:expr, $est:ident, $second:ident, $g:expr, $r:expr, $ys:ident, $mkpen:expr, $multi:ident) => {
        fn $name(ops: &[Op], d: &Data) -> Facts {
            let mut b = $params;
            for op in ops {
                b = match *op {
                    Op::Alpha(v) => b.alpha(v), Op::Tol(v) => b.tolerance(v), Op::K(v) => b.K(v), Op::Ws(v) => b.ws_start_size(v),
                    Op::Mi(v) => b.max_iterations(v), Op::Me(v) => b.max_epochs(v), Op::Acc(v) => b.use_acceleration(v), Op::Verbose(v) => b.verbose(v),
                    Op::Second(v) => drive!(@second b, $second, v), Op::Clone => b.clone(),
                };
            }
            let seen = |p: &_| drive!(@seen p, $second, $g, $r, $est);
            let by_ref = b.check_ref().map(|p| seen(p)).map_err(|e| named(&e));
            let by_value = b.clone().check().map(|p| seen(&p)).map_err(|e| named(&e));
            let unwrap = real_catch(|| { let p = b.clone().check_unwrap(); seen(&p) });
            let dense = DatasetBase::from((d.x.view(), d.$ys.view()));
            let sparse = DatasetBase::from((d.csc.view(), d.$ys.view()));
            let fits = vec![b.fit(&dense).map(|e| e.coefficients().iter().cloned().collect::<Vec<f64>>()).map_err(|e| named(&e)),
                            b.fit(&sparse).map(|e| e.coefficients().iter().cloned().collect::<Vec<f64>>()).map_err(|e| named(&e))];
            let checked_fit = b.clone().check().ok().map(|p| p.fit(&dense).map(|e| e.coefficients().iter().cloned().collect::<Vec<f64>>()).unwrap_or_default());
            let direct = by_ref.as_ref().ok().map(|m| { let m: &M = m; let c = Cfg { ws: m.ws, mi: m.mi, me: m.me, tol: m.tol, k: m.k, acc: m.acc, verbose: m.verbose }; let pen = $mkpen(m); drive!(@direct $multi, dense, sparse, pen, c) });
            Facts { by_ref, by_value, unwrap, fits, checked_fit, direct }
        }
    };
    (@second $b:expr, none, $v:expr) => { { let _ = $v; $b } };
    (@second $b:expr, $s:ident, $v:expr) => { $b.$s($v) };
    (@seen $p:expr, none, $g:expr, $r:expr, $est:ident) => { drive!(@m $p, None, None, $est) };
    (@seen $p:expr, gamma, $g:expr, $r:expr, $est:ident) => { drive!(@m $p, Some($p.gamma()), None, $est) };
    (@seen $p:expr, l1_ratio, $g:expr, $r:expr, $est:ident) => { drive!(@m $p, None, Some($p.l1_ratio()), $est) };
    (@m $p:expr, $g:expr, $r:expr, $est:ident) => {{ let p: &$est<f64> = $p; let _ = &p; M { alpha: p.alpha(), gamma: $g, ratio: $r, tol: p.tolerance(), k: p.K(), ws: p.ws_start_size(), mi: p.max_iterations(), me: p.max_epochs(), acc: p.use_acceleration(), verbose: p.verbose() } }};
    (@direct single, $d:expr, $s:expr, $pen:expr, $c:expr) => { vec![solve_single(&$d, &mut Quadratic::<f64>::new(), &$pen, &$c), solve_single(&$s, &mut Quadratic::<f64>::new(), &$pen, &$c)] };
    (@direct multi, $d:expr, $s:expr, $pen:expr, $c:expr) => { vec![solve_multi(&$d, &mut QuadraticMultiTask::<f64>::new(), &$pen, &$c), solve_multi(&$s, &mut QuadraticMultiTask::<f64>::new(), &$pen, &$c)] };
}
drive!(d_lasso, Lasso::<f64>::params(), LassoValidParams, none, None, None, y, |m: &M| Pen::L1(m.alpha), single);
drive!(d_enet, ElasticNet::<f64>::params(), ElasticNetValidParams, l1_ratio, None, None, y, |m: &M| Pen::En(m.alpha, m.ratio.unwrap()), single);
drive!(d_mcp, MCPEstimator::<f64>::params(), MCPValidParams, gamma, None, None, y, |m: &M| Pen::Mcp(m.alpha, m.gamma.unwrap()), single);
drive!(d_mtl, MultiTaskLasso::<f64>::params(), MultiTaskLassoValidParams, none, None, None, y2, |m: &M| Pen::L1(m.alpha), multi);
drive!(d_mten, MultiTaskElasticNet::<f64>::params(), MultiTaskElasticNetValidParams, l1_ratio, None, None, y2, |m: &M| Pen::En(m.alpha, m.ratio.unwrap()), multi);
drive!(d_bmcp, BlockMCPEstimator::<f64>::params(), BlockMCPValidParams, gamma, None, None, y2, |m: &M| Pen::Mcp(m.alpha, m.gamma.unwrap()), multi);

/// the generic solver's own builder: fields, single- and multi-task runs against the solver functions called with the model's values
fn generic(ch: &mut Ch) -> Res {
    use sparseglm::penalties::{block_separable::L21, separable::L1};
    use sparseglm::solvers::{anderson_bcd::block_coordinate_descent, anderson_cd::coordinate_descent, BCDSolver, CDSolver, Solver};
    let all = [Op::Ws(1), Op::Ws(3), Op::Ws(40), Op::Mi(0), Op::Mi(1), Op::Mi(7), Op::Me(0), Op::Me(1), Op::Me(14), Op::Tol(1e-3), Op::Tol(0.0), Op::K(1), Op::K(2), Op::K(9), Op::Acc(false), Op::Acc(true), Op::Verbose(false), Op::Verbose(true), Op::Clone];
    let bare = ch.flag();
    let len = ch.pick(if bare { by_tier(3, 4) } else { by_tier(4, 5) });
    let mut ops: Vec<Op> = if bare { vec![] } else { vec![Op::Verbose(false), Op::Mi(4), Op::Me(30)] };
    for _ in 0..len { ops.push(*ch.of(&all)); }
    let (mut ws, mut mi, mut me, mut tol, mut k, mut acc, mut verbose) = (10, 50, 1000, 1e-8, 5, true, true);
    let mut s = if len < 2 && ch.flag() { Solver::<f64>::default() } else { Solver::<f64>::new() };
    for op in &ops {
        s = match *op {
            Op::Ws(v) => { ws = v; s.ws_start_size(v) } Op::Mi(v) => { mi = v; s.max_iterations(v) } Op::Me(v) => { me = v; s.max_epochs(v) } Op::Tol(v) => { tol = v; s.tolerance(v) }
            Op::K(v) => { k = v; s.K(v) } Op::Acc(v) => { acc = v; s.use_acceleration(v) } Op::Verbose(v) => { verbose = v; s.verbose(v) } Op::Clone => s.clone(), _ => s,
        };
        ch.step();
        ch.state(&(9, ws, mi, me, tol.to_bits(), k, acc, verbose));
    }
    ch.note(|| format!("generic solver, history {ops:?}"));
    let got = (s.ws_start_size, s.max_iterations, s.max_epochs, s.tolerance, s.K, s.use_acceleration, s.verbose);
    ensure!(got == (ws, mi, me, tol, k, acc, verbose), "solver holds {got:?}, history says {:?}", (ws, mi, me, tol, k, acc, verbose));
    if verbose { return Ok(()); }
    for (n, p) in [(9, 24), (6, 2)] {
        let pr = pattern(n, p, 2, 0, Deco::Plain, false);
        let x = Array2::from_shape_vec((n, p), pr.x.clone()).unwrap();
        let y2 = Array2::from_shape_vec((n, 2), pr.y.clone()).unwrap();
        let y: Array1<f64> = y2.column(0).to_owned();
        let a = 0.01 * crit(Loss::Quad, &pr);
        let (d1, d2) = (DatasetBase::from((x.view(), y.view())), DatasetBase::from((x.view(), y2.view())));
        let (u, v) = real(|| (s.solve(&d1, &mut Quadratic::<f64>::new(), &L1::new(a)).unwrap(), coordinate_descent(&d1, &mut Quadratic::<f64>::new(), &L1::new(a), ws, mi, me, tol, k, acc, verbose)));
        ensure!(u == v, "solve gives {u}, the solver function with the last values set {v}");
        ch.outcome_f(&u.to_vec());
        let (u, v) = real(|| (s.solve_multi_task(&d2, &mut QuadraticMultiTask::<f64>::new(), &L21::new(a)).unwrap(), block_coordinate_descent(&d2, &mut QuadraticMultiTask::<f64>::new(), &L21::new(a), ws, mi, me, tol, k, acc, verbose)));
        ensure!(u == v, "solve_multi_task gives {u}, the solver function with the last values set {v}");
    }
    Ok(())
}

fn main() {
    let alphas = [0.3, 0.0, 2.0, -1.0];
    let seconds = [vec![], vec![1.0, 5.0, 0.99, -2.0], vec![0.0, 1.0, 1.25, -0.25]];
    harness::explore::main(
        Spec { id: "P14", level: "model_checking",
            rule: "all setter histories up to the depth on each of the six builders and on the generic solver (incl. cloning half-way); a state is the model's last-write-wins record, a transition a setter call; after each history: check by reference, by value, by unwrap, getters, fits from the builder and from the checked parameters on a dense and a sparse dataset, against the model",
            alphabet: "alpha .3 0 2 -1; gamma 1 5 .99 -2; l1_ratio 0 1 1.25 -.25; tolerance 1e-3 0 -1e-3; K 1 2 0; ws 1 2 0; iterations 0 1 9 (solver: 7); epochs 0 1 14; acceleration; verbosity; clone",
            bounds: "histories of length 0..3 (quick) / 0..4 (thorough) after a prefix that shortens the runs; 0..1 / 0..2 from the bare defaults",
            assumptions: &["NaN hyperparameters are outside the documented ranges and not enumerated"] },
        |ch| {
            let which = ch.pick(7);
            if which == 6 { return generic(ch); }
            let second = [0usize, 2, 1, 0, 2, 1][which];
            let mut all: Vec<Op> = alphas.iter().map(|a| Op::Alpha(*a)).collect();
            all.extend(seconds[second].iter().map(|v| Op::Second(*v)));
            all.extend([Op::Tol(1e-3), Op::Tol(0.0), Op::Tol(-1e-3), Op::K(1), Op::K(2), Op::K(0), Op::Ws(1), Op::Ws(2), Op::Ws(0), Op::Mi(0), Op::Mi(1), Op::Mi(9), Op::Me(0), Op::Me(1), Op::Me(14), Op::Acc(false), Op::Acc(true), Op::Verbose(false), Op::Verbose(true), Op::Clone]);
            // from bare defaults (short histories), or after a prefix that keeps every run short
            let bare = ch.flag();
            let len = ch.pick(if bare { by_tier(2, 3) } else { by_tier(4, 5) });
            let mut ops: Vec<Op> = if bare { vec![] } else { vec![Op::Verbose(false), Op::Mi(6), Op::Me(25)] };
            for _ in 0..len { ops.push(*ch.of(&all)); }
            let mut m = M { alpha: 1.0, gamma: if second == 1 { Some(3.0) } else { None }, ratio: if second == 2 { Some(0.5) } else { None }, tol: 1e-6, k: 5, ws: 10, mi: 50, me: 1000, acc: true, verbose: true };
            for op in &ops {
                match *op {
                    Op::Alpha(v) => m.alpha = v, Op::Tol(v) => m.tol = v, Op::K(v) => m.k = v, Op::Ws(v) => m.ws = v, Op::Mi(v) => m.mi = v, Op::Me(v) => m.me = v, Op::Acc(v) => m.acc = v, Op::Verbose(v) => m.verbose = v,
                    Op::Second(v) => if second == 1 { m.gamma = Some(v) } else { m.ratio = Some(v) }, Op::Clone => {}
                }
                ch.step();
                ch.state(&(which, m.key()));
            }
            ch.note(|| format!("estimator {which} history {ops:?} model {m:?}"));
            let pr = Prob { n: 4, p: 3, t: 2, x: vec![1.0, 2.0, 0.0, -1.0, 1.0, 3.0, 0.0, 1.0, 1.0, 2.0, 0.0, -1.0], y: vec![3.0, 1.0, -1.0, 2.0, 2.0, 0.0, 4.0, -2.0] };
            let d = Data { x: Array2::from_shape_vec((4, 3), pr.x.clone()).unwrap(), y: Array1::from(vec![3.0, -1.0, 2.0, 4.0]), y2: Array2::from_shape_vec((4, 2), pr.y.clone()).unwrap(), csc: CscBuf::new(&pr, Csc::Sorted) };
            let f = real(|| [d_lasso, d_enet, d_mcp, d_mtl, d_mten, d_bmcp][which](&ops, &d));
            let faults = m.faults();
            let same = |s: &Seen, what: &str| -> Res {
                match s {
                    Ok(g) => { ensure!(faults.is_empty(), "{what} accepts {faults:?}"); ensure!(*g == m, "{what} exposes {g:?}, history says {m:?}"); }
                    Err(e) => ensure!(faults.iter().any(|x| x.0 == e.0 && (x.1 as f32) as f64 == e.1), "{what} reports {e:?}, invalid are {faults:?}"),
                }
                Ok(())
            };
            same(&f.by_ref, "check_ref")?;
            same(&f.by_value, "check")?;
            match &f.unwrap { Ok(g) => { ensure!(faults.is_empty(), "check_unwrap accepts {faults:?}"); ensure!(*g == m, "check_unwrap exposes {g:?}, history says {m:?}") } Err(_) => ensure!(!faults.is_empty(), "check_unwrap panics on valid settings") }
            ensure!(f.fits.len() == 2, "two fits");
            for (i, r) in f.fits.iter().enumerate() {
                match r {
                    Err(e) => { let e: &(&str, f64) = e; ensure!(faults.iter().any(|x| x.0 == e.0 && (x.1 as f32) as f64 == e.1), "fit {i} reports {e:?}, invalid are {faults:?}") }
                    Ok(w) => {
                        ensure!(faults.is_empty(), "fit {i} succeeds with invalid {faults:?}");
                        let want = &f.direct.as_ref().unwrap()[i];
                        ensure!(max_diff(w, want) <= 1e-9, "fit {i} gives {w:?}; the solver with the last values set gives {want:?}");
                        ch.outcome_f(w);
                    }
                }
            }
            if let Some(w) = &f.checked_fit { ensure!(max_diff(w, &f.direct.as_ref().unwrap()[0]) <= 1e-9, "fit from the checked parameters gives {w:?}"); }
            if !faults.is_empty() { ch.outcome(&format!("{:?}", f.by_ref)); ch.tally("rejected", 1); }
            Ok(())
        },
    )
}
