//! The environment of the solver as an adversary: a loss and a penalty whose every answer is an enumerated choice
//! (a pure function of the arguments, remembered), with a monitor automaton on every call the solver makes.
use crate::explore::Ch;
use crate::spaces::Dev;
use ndarray::{Array1, Array2, ArrayView1, ArrayView2};
use sparseglm::datafits::multi_task::MultiTaskDatafit;
use sparseglm::datafits::single_task::Datafit;
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix};
use sparseglm::penalties::block_separable::MultiTaskPenalty;
use sparseglm::penalties::separable::Penalty;
use std::cell::RefCell;

/// answers on offer; option 0 is the default
pub struct Opts { pub grads: Vec<f64>, pub prox: Vec<ProxAns>, pub scores: Vec<f64>, pub values: Vec<f64>, pub pvalues: Vec<f64> }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ProxAns { Arg, Const(f64), Lean(f64) }

#[derive(Clone, Debug)]
pub enum Ev { Scores { w: Vec<f64>, ws: Vec<usize>, s: Vec<f64> }, Prox { js: Vec<usize> } }

pub struct Env<'a> {
    pub ch: &'a mut Ch,
    pub dev: Dev,
    pub n: usize, pub p: usize, pub t: usize,
    pub x: Vec<f64>,
    pub lip: Vec<f64>,
    pub opts: Opts,
    /// units (powers of two) the solver sees: design times u.0, curvatures and derivatives times u.1
    pub u: (f64, f64),
    pub fault: Option<String>,
    pub events: Vec<Ev>,
    pub calls: u64,
    pub adopted: u64,
    init: bool,
    /// possible current coefficients
    h: Vec<Vec<f64>>,
    /// points whose penalty was asked for and that are not current
    cands: Vec<Vec<f64>>,
    /// fits whose loss was asked for and that do not belong to a current point
    pending: Vec<Vec<f64>>,
    grads: Vec<(Vec<f64>, usize, Vec<f64>)>,
    proxs: Vec<(Vec<f64>, f64, Vec<f64>)>,
    scores: Vec<(Vec<f64>, Vec<usize>, Vec<f64>)>,
    vals: Vec<(Vec<f64>, f64)>,
    pvals: Vec<(Vec<f64>, f64)>,
}

fn near(a: &[f64], b: &[f64], tol: f64) -> bool {
    if a.len() != b.len() { return false; }
    if a.iter().chain(b).any(|v| !v.is_finite()) { return a.iter().zip(b).all(|(x, y)| x == y || (x.is_nan() && y.is_nan())); }
    let s = a.iter().chain(b).fold(1.0f64, |m, v| m.max(v.abs()));
    a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol * s)
}

impl<'a> Env<'a> {
    pub fn new(ch: &'a mut Ch, dev: Dev, n: usize, p: usize, t: usize, x: Vec<f64>, lip: Vec<f64>, opts: Opts) -> Env<'a> {
        Env { ch, dev, n, p, t, x, lip, opts, u: (1.0, 1.0), fault: None, events: vec![], calls: 0, adopted: 0, init: false, h: vec![vec![0.0; p * t]], cands: vec![], pending: vec![],
              grads: vec![], proxs: vec![], scores: vec![], vals: vec![], pvals: vec![] }
    }
    fn fail(&mut self, m: String) { if self.fault.is_none() { self.fault = Some(m); } }
    fn choose(&mut self, n: usize) -> usize { if self.fault.is_some() || self.calls > 5000 { 0 } else { self.dev.pick(self.ch, n) } }
    fn called(&mut self, kind: u8) {
        self.calls += 1;
        if self.calls > 20000 { self.fail("the solver does not come to an end: 20000 calls".into()); }
        if !self.init { self.fail("the loss is used before it is initialised".into()); }
        self.ch.step();
        let hh: Vec<Vec<u64>> = self.h.iter().map(|w| w.iter().map(|v| v.to_bits()).collect()).collect();
        self.ch.state(&(kind, hh, self.cands.len()));
    }
    pub fn fit(&self, w: &[f64]) -> Vec<f64> {
        let mut f = vec![0.0; self.n * self.t];
        for i in 0..self.n { for j in 0..self.p { let x = self.x[i * self.p + j]; if x != 0.0 { for k in 0..self.t { f[i * self.t + k] += x * w[j * self.t + k]; } } } }
        f
    }
    /// rounding scale of a fit: sum of |x||w|
    fn fits(&self, w: &[f64], xw: &[f64]) -> bool {
        let f = self.fit(w);
        if xw.len() != f.len() { return false; }
        if w.iter().any(|v| !v.is_finite()) { return xw.iter().any(|v| !v.is_finite()) || near(&f, xw, 1e-9); }
        let s = 1.0 + w.iter().map(|v| v.abs()).sum::<f64>() * self.x.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        f.iter().zip(xw).all(|(a, b)| (a - b).abs() <= 1e-9 * s)
    }
    fn objective(&self, w: &[f64]) -> Option<f64> {
        let v = self.vals.iter().find(|(f, _)| self.fits(w, f))?.1;
        let p = self.pvals.iter().find(|(q, _)| near(q, w, 1e-12))?.1;
        Some(v + p)
    }
    /// is adopting c in place of h allowed by what was evaluated?
    fn adoptable(&self, c: &[f64], h: &[f64]) -> bool {
        match (self.objective(c), self.objective(h)) { (Some(a), Some(b)) => a < b, _ => false }
    }
    fn reachable(&self) -> (Vec<Vec<f64>>, usize) {
        let mut r = self.h.clone();
        let k = r.len();
        for c in &self.cands { if self.h.iter().any(|h| self.adoptable(c, h)) && !r.contains(c) { r.push(c.clone()); } }
        (r, k)
    }
    /// narrows the possible current points to those with property f
    fn narrow(&mut self, what: &str, f: impl Fn(&Env<'a>, &[f64]) -> bool, show: &[f64]) {
        for q in std::mem::take(&mut self.pending) {
            if !self.cands.iter().any(|c| self.fits(c, &q)) { self.fail(format!("the loss was evaluated at {q:?}, which is the model fit of no current or candidate point")); }
        }
        let (r, k) = self.reachable();
        let keep: Vec<(usize, Vec<f64>)> = r.into_iter().enumerate().filter(|(_, w)| f(self, w)).collect();
        if keep.is_empty() {
            let m = format!("{what} {show:?}: the current coefficients are {:?}, candidates seen {:?} (fits {:?}) and none accounts for it", self.h, self.cands, self.h.iter().map(|w| self.fit(w)).collect::<Vec<_>>());
            self.fail(m);
            return;
        }
        if keep.iter().all(|(i, _)| *i >= k) { self.adopted += 1; }
        self.h = keep.into_iter().map(|(_, w)| w).collect();
        self.cands.clear();
    }
    fn dir(&self, v: f64, lean: bool) -> Vec<f64> {
        match self.t { 1 => vec![v], _ if lean => (0..self.t).map(|k| if k == 0 { 0.0 } else { v }).collect(), _ => (0..self.t).map(|k| if k % 2 == 0 { v } else { -2.0 * v }).collect() }
    }
    fn initialize(&mut self) { self.init = true; }
    fn w_in(&self, w: impl IntoIterator<Item = f64>) -> Vec<f64> { w.into_iter().map(|v| v * self.u.0).collect() }
    fn g_in(&self, g: impl IntoIterator<Item = f64>) -> Vec<f64> { g.into_iter().map(|v| v * self.u.0 / self.u.1).collect() }
    fn g_out(&mut self, xw: Vec<f64>, j: usize) -> Vec<f64> { let (a, b) = self.u; self.gradient(xw, j).into_iter().map(|v| v / a * b).collect() }
    fn prox_out(&mut self, v: Vec<f64>, step: f64) -> Vec<f64> { let (a, b) = self.u; let v = self.w_in(v); self.prox(v, step * b).into_iter().map(|z| z / a).collect() }
    fn scores_out(&mut self, w: Vec<f64>, g: Vec<f64>, ws: Vec<usize>) -> Vec<f64> { let (w, g) = (self.w_in(w), self.g_in(g)); self.scores(w, g, ws) }
    fn pvalue_out(&mut self, w: Vec<f64>) -> f64 { let w = self.w_in(w); self.pvalue(w) }
    fn gradient(&mut self, xw: Vec<f64>, j: usize) -> Vec<f64> {
        self.called(0);
        if j >= self.p { self.fail(format!("partial derivative of feature {j} of {}", self.p)); return vec![0.0; self.t]; }
        if xw.len() != self.n * self.t { self.fail(format!("model fit of {} entries", xw.len())); return vec![0.0; self.t]; }
        self.narrow("a partial derivative was asked for at the model fit", |e, w| e.fits(w, &xw), &xw);
        if let Some((_, _, g)) = self.grads.iter().find(|(f, q, _)| *q == j && near(f, &xw, 1e-9)) { return g.clone(); }
        let m = if self.t > 1 && self.opts.grads.len() > 1 { 2 } else { 1 };
        let k = self.choose(self.opts.grads.len() * m);
        let g = self.dir(self.opts.grads[k / m], k % m == 1);
        self.grads.push((xw, j, g.clone()));
        g
    }
    fn value(&mut self, xw: Vec<f64>) -> f64 {
        self.called(1);
        if xw.len() != self.n * self.t { self.fail(format!("loss evaluated on {} entries", xw.len())); return 0.0; }
        if !self.h.iter().any(|w| self.fits(w, &xw)) { self.pending.push(xw.clone()); }
        if let Some((_, v)) = self.vals.iter().find(|(f, _)| near(f, &xw, 1e-9)) { return *v; }
        let v = if xw.iter().any(|v| !v.is_finite()) { f64::NAN } else { let k = self.choose(self.opts.values.len()); self.opts.values[k] };
        self.vals.push((xw, v));
        v
    }
    fn pvalue(&mut self, w: Vec<f64>) -> f64 {
        self.called(2);
        if w.len() != self.p * self.t { self.fail(format!("penalty evaluated on {} entries", w.len())); return 0.0; }
        if !self.h.iter().any(|h| near(h, &w, 1e-12)) && !self.cands.iter().any(|c| near(c, &w, 1e-12)) { self.cands.push(w.clone()); }
        if let Some((_, v)) = self.pvals.iter().find(|(f, _)| near(f, &w, 1e-12)) { return *v; }
        let v = if w.iter().any(|v| !v.is_finite()) { f64::NAN } else { let k = self.choose(self.opts.pvalues.len()); self.opts.pvalues[k] };
        self.pvals.push((w, v));
        v
    }
    fn prox(&mut self, arg: Vec<f64>, step: f64) -> Vec<f64> {
        self.called(3);
        if arg.len() != self.t { self.fail(format!("proximal point of {} entries", arg.len())); return arg; }
        let mut next: Vec<(usize, Vec<f64>)> = vec![];
        let (cur, _) = self.reachable();
        for h in &cur { for j in 0..self.p {
            let l = self.lip[j];
            if l == 0.0 || (step - 1.0 / l).abs() > 1e-12 * (1.0 / l) { continue; }
            if let Some((_, _, g)) = self.grads.iter().find(|(f, q, _)| *q == j && self.fits(h, f)) {
                let want: Vec<f64> = (0..self.t).map(|k| h[j * self.t + k] - g[k] / l).collect();
                if near(&want, &arg, 1e-9) { next.push((j, h.clone())); }
            }
        } }
        if next.is_empty() {
            let m = format!("the proximal operator was asked at {arg:?} with step {step}: no feature with non-zero curvature (curvatures {:?}) has that gradient step from the current coefficients {:?}; known derivatives {:?}", self.lip, self.h, self.grads.iter().filter(|(f, _, _)| self.h.iter().any(|h| self.fits(h, f))).map(|(_, j, g)| (j, g)).collect::<Vec<_>>());
            self.fail(m);
            return arg;
        }
        let known = self.proxs.iter().find(|(a, s, _)| near(a, &arg, 1e-9) && (s - step).abs() <= 1e-12 * step).map(|q| q.2.clone());
        let ans = match known { Some(a) => a, None => {
            let k = self.choose(self.opts.prox.len());
            let a = match self.opts.prox[k] { ProxAns::Arg => arg.clone(), ProxAns::Const(v) => self.dir(v, false), ProxAns::Lean(v) => self.dir(v, true) };
            self.proxs.push((arg, step, a.clone()));
            a
        } };
        self.events.push(Ev::Prox { js: { let mut v: Vec<usize> = next.iter().map(|q| q.0).collect(); v.sort(); v.dedup(); v } });
        let mut hs: Vec<Vec<f64>> = vec![];
        for (j, mut h) in next { h[j * self.t..(j + 1) * self.t].copy_from_slice(&ans); if !hs.contains(&h) { hs.push(h); } }
        self.h = hs;
        self.cands.clear();
        self.pending.clear();
        ans
    }
    fn scores(&mut self, w: Vec<f64>, grad: Vec<f64>, ws: Vec<usize>) -> Vec<f64> {
        self.called(4);
        if ws.iter().any(|j| *j >= self.p) || (0..ws.len()).any(|a| ws[..a].contains(&ws[a])) { self.fail(format!("scores asked for the features {ws:?} of {}", self.p)); return vec![0.0; ws.len()]; }
        if grad.len() != ws.len() * self.t || w.len() != self.p * self.t { self.fail(format!("scores asked with {} derivatives for {} features and {} coefficients", grad.len(), ws.len(), w.len())); return vec![0.0; ws.len()]; }
        self.narrow("scores were asked for the coefficients", |_, h| near(h, &w, 1e-12), &w);
        for (i, j) in ws.iter().enumerate() {
            let known = self.grads.iter().find(|(f, q, _)| q == j && self.fits(&w, f)).map(|q| q.2.clone());
            let got = grad[i * self.t..(i + 1) * self.t].to_vec();
            match known {
                Some(g) if near(&g, &got, 1e-12) => {}
                k => self.fail(format!("scores of features {ws:?} were asked with derivative {got:?} for feature {j}, the loss answered {k:?} at these coefficients")),
            }
        }
        if let Some((_, _, s)) = self.scores.iter().find(|(a, b, _)| *b == ws && near(a, &w, 1e-12)) { let s = s.clone(); self.events.push(Ev::Scores { w, ws, s: s.clone() }); return s; }
        let s: Vec<f64> = ws.iter().map(|_| { let k = self.choose(self.opts.scores.len()); self.opts.scores[k] }).collect();
        self.scores.push((w.clone(), ws.clone(), s.clone()));
        self.events.push(Ev::Scores { w, ws, s: s.clone() });
        s
    }
    /// the solver returned w
    pub fn finish(&mut self, w: &[f64]) {
        if w.len() != self.p * self.t { self.fail(format!("{} coefficients returned", w.len())); return; }
        if !self.init { self.fail("the loss was never initialised".into()); }
        let w = w.to_vec();
        self.narrow("the solver returned", |_, h| near(h, &w, 1e-12), &w);
    }
}

pub struct EnvDf<'b, 'a> { pub e: &'b RefCell<Env<'a>>, lip: Array1<f64> }
pub struct EnvPen<'b, 'a> { pub e: &'b RefCell<Env<'a>> }
impl<'b, 'a> EnvDf<'b, 'a> {
    pub fn new(e: &'b RefCell<Env<'a>>) -> Self { let p = e.borrow().p; EnvDf { e, lip: Array1::from_elem(p, f64::NAN) } }
    fn init(&mut self) { let mut e = self.e.borrow_mut(); e.initialize(); let u = e.u.1; self.lip = e.lip.iter().map(|l| l * u).collect(); }
}
impl<'b, 'a, DM: DesignMatrix<Elem = f64>, T: AsSingleTargets<Elem = f64>> Datafit<f64, DM, T> for EnvDf<'b, 'a> {
    fn initialize(&mut self, _: &DatasetBase<DM, T>) { self.init() }
    fn value(&self, _: &DatasetBase<DM, T>, xw: ArrayView1<f64>) -> f64 { self.e.borrow_mut().value(xw.to_vec()) }
    fn gradient_j(&self, _: &DatasetBase<DM, T>, xw: ArrayView1<f64>, j: usize) -> f64 { self.e.borrow_mut().g_out(xw.to_vec(), j)[0] }
    fn full_grad(&self, _: &DatasetBase<DM, T>, xw: ArrayView1<f64>) -> Array1<f64> { let p = self.e.borrow().p; (0..p).map(|j| self.e.borrow_mut().g_out(xw.to_vec(), j)[0]).collect() }
    fn step_size(&self) -> ArrayView1<'_, f64> { let mut e = self.e.borrow_mut(); if !e.init { e.fail("the curvatures are read before the loss is initialised".into()) } self.lip.view() }
}
impl<'b, 'a> Penalty<f64> for EnvPen<'b, 'a> {
    fn value(&self, w: ArrayView1<f64>) -> f64 { self.e.borrow_mut().pvalue_out(w.to_vec()) }
    fn prox(&self, v: f64, s: f64) -> f64 { self.e.borrow_mut().prox_out(vec![v], s)[0] }
    fn subdiff_distance(&self, w: ArrayView1<f64>, g: ArrayView1<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        let s = self.e.borrow_mut().scores_out(w.to_vec(), g.to_vec(), ws.to_vec());
        let m = s.iter().fold(0.0f64, |a, b| a.max(*b));
        (Array1::from(s), m)
    }
}
fn flat(a: ArrayView2<f64>) -> Vec<f64> { a.iter().cloned().collect() }
impl<'b, 'a, DM: DesignMatrix<Elem = f64>, T: AsMultiTargets<Elem = f64>> MultiTaskDatafit<f64, DM, T> for EnvDf<'b, 'a> {
    fn initialize(&mut self, _: &DatasetBase<DM, T>) { self.init() }
    fn value(&self, _: &DatasetBase<DM, T>, xw: ArrayView2<f64>) -> f64 { self.e.borrow_mut().value(flat(xw)) }
    fn gradient_j(&self, _: &DatasetBase<DM, T>, xw: ArrayView2<f64>, j: usize) -> Array1<f64> { Array1::from(self.e.borrow_mut().g_out(flat(xw), j)) }
    fn full_grad(&self, _: &DatasetBase<DM, T>, xw: ArrayView2<f64>) -> Array2<f64> {
        let (p, t) = { let e = self.e.borrow(); (e.p, e.t) };
        let v: Vec<f64> = (0..p).flat_map(|j| self.e.borrow_mut().g_out(flat(xw), j)).collect();
        Array2::from_shape_vec((p, t), v).unwrap()
    }
    fn step_size(&self) -> ArrayView1<'_, f64> { let mut e = self.e.borrow_mut(); if !e.init { e.fail("the curvatures are read before the loss is initialised".into()) } self.lip.view() }
}
impl<'b, 'a> MultiTaskPenalty<f64> for EnvPen<'b, 'a> {
    fn value(&self, w: ArrayView2<f64>) -> f64 { self.e.borrow_mut().pvalue_out(flat(w)) }
    fn prox(&self, v: ArrayView1<f64>, s: f64) -> Array1<f64> { Array1::from(self.e.borrow_mut().prox_out(v.to_vec(), s)) }
    fn subdiff_distance(&self, w: ArrayView2<f64>, g: ArrayView2<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        let s = self.e.borrow_mut().scores_out(flat(w), flat(g), ws.to_vec());
        let m = s.iter().fold(0.0f64, |a, b| a.max(*b));
        (Array1::from(s), m)
    }
}

/// Runs the solver against the environment; coefficients returned.
pub fn run(env: Env, pr: &crate::oracle::Prob, c: &crate::real::Cfg, multi: bool, store: crate::real::Store) -> (Vec<f64>, Option<String>, Vec<Ev>, u64) {
    use crate::real::{solver, Layout};
    use crate::{explore::real, with_multi, with_single};
    use sparseglm::solvers::{BCDSolver, CDSolver};
    let mut pr = pr.clone();
    for v in pr.x.iter_mut() { *v *= env.u.0 }
    let pr = &pr;
    let cell = RefCell::new(env);
    let w: Vec<f64> = {
        let mut df = EnvDf::new(&cell);
        let pen = EnvPen { e: &cell };
        let s = solver::<f64>(c);
        if multi { with_multi!(pr, store, Layout::C, f64, |ds| real(|| flat(s.solve_multi_task(&ds, &mut df, &pen).unwrap().view()))) }
        else { with_single!(pr, store, Layout::C, f64, |ds| real(|| s.solve(&ds, &mut df, &pen).unwrap().to_vec())) }
    };
    let mut e = cell.into_inner();
    let w = e.w_in(w);
    e.finish(&w);
    (w, e.fault, e.events, e.adopted)
}
