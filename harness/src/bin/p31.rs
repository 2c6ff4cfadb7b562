//! Fits that overlap in time: two or three solves on threads of their own under a controlled scheduler, and solves started inside a callback of another.
use harness::prelude::*;
#[path = "../yf.rs"]
mod yf;
use yf::{with_hook, Yf};
use ndarray::{Array1, Array2, ArrayView1, ArrayView2};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::csc_array::CSCArray;
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix, DesignMatrixType};
use sparseglm::estimators::estimators::*;
use sparseglm::estimators::traits::Fit;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L05, L1, MCP};
use sparseglm::solvers::{BCDSolver, CDSolver, Solver};
use std::cell::RefCell;
use std::sync::{Condvar, Mutex};

/// plugged-in design, loss and penalty that hand over to the crate's own after giving the scheduler a chance
struct YD<'a, D> { d: &'a D, y: &'a dyn Fn() }
struct YL<'a, L, DS> { l: L, ds: &'a DS, y: &'a dyn Fn() }
struct YP<'a, P> { p: &'a P, y: &'a dyn Fn() }
impl<'a, D: DesignMatrix<Elem = f64>> DesignMatrix for YD<'a, D> {
    type Elem = f64;
    fn n_features(&self) -> usize { self.d.n_features() }
    fn matrix_type(&self) -> DesignMatrixType { self.d.matrix_type() }
    fn compute_extrapolated_fit(&self, ws: ArrayView1<usize>, w: &Array1<f64>, n: usize) -> Array1<f64> { (self.y)(); let r = self.d.compute_extrapolated_fit(ws, w, n); (self.y)(); r }
    fn compute_extrapolated_fit_multi_task(&self, ws: ArrayView1<usize>, w: &Array2<f64>, n: usize, t: usize) -> Array2<f64> { (self.y)(); let r = self.d.compute_extrapolated_fit_multi_task(ws, w, n, t); (self.y)(); r }
    fn update_model_fit(&self, xw: &mut Array1<f64>, diff: f64, j: usize) { (self.y)(); self.d.update_model_fit(xw, diff, j) }
    fn update_model_fit_multi_task(&self, xw: &mut Array2<f64>, diff: ArrayView1<f64>, j: usize) { (self.y)(); self.d.update_model_fit_multi_task(xw, diff, j) }
}
impl<'a, D: DesignMatrix<Elem = f64>, T: AsSingleTargets<Elem = f64>, L: Datafit<f64, D, T>> Datafit<f64, YD<'a, D>, T> for YL<'a, L, DatasetBase<D, T>> {
    fn initialize(&mut self, _: &DatasetBase<YD<'a, D>, T>) { (self.y)(); self.l.initialize(self.ds); (self.y)() }
    fn value(&self, _: &DatasetBase<YD<'a, D>, T>, xw: ArrayView1<f64>) -> f64 { (self.y)(); self.l.value(self.ds, xw) }
    fn gradient_j(&self, _: &DatasetBase<YD<'a, D>, T>, xw: ArrayView1<f64>, j: usize) -> f64 { (self.y)(); self.l.gradient_j(self.ds, xw, j) }
    fn full_grad(&self, _: &DatasetBase<YD<'a, D>, T>, xw: ArrayView1<f64>) -> Array1<f64> { (self.y)(); self.l.full_grad(self.ds, xw) }
    fn step_size(&self) -> ArrayView1<'_, f64> { (self.y)(); self.l.step_size() }
}
impl<'a, D: DesignMatrix<Elem = f64>, T: AsMultiTargets<Elem = f64>, L: MultiTaskDatafit<f64, D, T>> MultiTaskDatafit<f64, YD<'a, D>, T> for YL<'a, L, DatasetBase<D, T>> {
    fn initialize(&mut self, _: &DatasetBase<YD<'a, D>, T>) { (self.y)(); self.l.initialize(self.ds); (self.y)() }
    fn value(&self, _: &DatasetBase<YD<'a, D>, T>, xw: ArrayView2<f64>) -> f64 { (self.y)(); self.l.value(self.ds, xw) }
    fn gradient_j(&self, _: &DatasetBase<YD<'a, D>, T>, xw: ArrayView2<f64>, j: usize) -> Array1<f64> { (self.y)(); self.l.gradient_j(self.ds, xw, j) }
    fn full_grad(&self, _: &DatasetBase<YD<'a, D>, T>, xw: ArrayView2<f64>) -> Array2<f64> { (self.y)(); self.l.full_grad(self.ds, xw) }
    fn step_size(&self) -> ArrayView1<'_, f64> { (self.y)(); self.l.step_size() }
}
impl<'a, P: Penalty<f64>> Penalty<f64> for YP<'a, P> {
    fn value(&self, w: ArrayView1<f64>) -> f64 { (self.y)(); self.p.value(w) }
    fn prox(&self, v: f64, s: f64) -> f64 { (self.y)(); self.p.prox(v, s) }
    fn subdiff_distance(&self, w: ArrayView1<f64>, g: ArrayView1<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) { (self.y)(); let r = self.p.subdiff_distance(w, g, ws); (self.y)(); r }
}
impl<'a, P: MultiTaskPenalty<f64>> MultiTaskPenalty<f64> for YP<'a, P> {
    fn value(&self, w: ArrayView2<f64>) -> f64 { (self.y)(); self.p.value(w) }
    fn prox(&self, v: ArrayView1<f64>, s: f64) -> Array1<f64> { (self.y)(); self.p.prox(v, s) }
    fn subdiff_distance(&self, w: ArrayView2<f64>, g: ArrayView2<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) { (self.y)(); let r = self.p.subdiff_distance(w, g, ws); (self.y)(); r }
}

type V2<'a> = ArrayView2<'a, f64>;
type V1<'a> = ArrayView1<'a, f64>;
/// one dataset in every form a fit may take it, shared by all fits on it
struct Forms<'a> { ds: DatasetBase<V2<'a>, V1<'a>>, dl: DatasetBase<V2<'a>, V1<'a>>, dm: DatasetBase<V2<'a>, V2<'a>>, ss: DatasetBase<CSCArray<'a, f64>, V1<'a>>, sl: DatasetBase<CSCArray<'a, f64>, V1<'a>>, sm: DatasetBase<CSCArray<'a, f64>, V2<'a>> }
struct Data { x: Array2<f64>, y: Array1<f64>, y2: Array2<f64>, lab: Array1<f64>, csc: CscBuf<f64> }
fn data(n: usize, p: usize, v: usize, deco: Deco) -> Data {
    let pr = pattern(n, p, 2, v, deco, false);
    let y2 = Array2::from_shape_vec((n, 2), pr.y.clone()).unwrap();
    let y = y2.column(0).to_owned();
    let lab = y.map(|v| if *v >= 0.0 { 1.0 } else { -1.0 });
    Data { x: Array2::from_shape_vec((n, p), pr.x.clone()).unwrap(), csc: CscBuf::new(&pr, Csc::Reversed), y, y2, lab }
}
impl Data {
    fn forms(&self) -> Forms<'_> {
        let (x, y, l, m) = (self.x.view(), self.y.view(), self.lab.view(), self.y2.view());
        Forms { ds: DatasetBase::from((x, y)), dl: DatasetBase::from((x, l)), dm: DatasetBase::from((x, m)), ss: DatasetBase::from((self.csc.view(), y)), sl: DatasetBase::from((self.csc.view(), l)), sm: DatasetBase::from((self.csc.view(), m)) }
    }
}
/// objects used by every fit at once
struct Pool { s: Solver<f64>, plain: Solver<f64>, long: Solver<f64>, wide: Solver<f64>, l1: L1<f64>, en: L1PlusL2<f64>, mcp: MCP<f64>, l05: L05<f64>, l21: L21<f64>, ben: BlockL1PlusL2<f64>, bm: BlockMCP<f64>, c: Cfg }
fn pool() -> Pool {
    let c = Cfg { ws: 1, mi: 2, me: 4, tol: 1e-9, k: 2, acc: true, verbose: false };
    Pool { s: solver(&c), plain: solver(&Cfg { acc: false, ws: 5, mi: 1, ..c }), long: solver(&Cfg { me: 12, k: 3, ws: 2, ..c }), wide: solver(&Cfg { acc: false, ws: 20, mi: 2, me: 2, ..c }), l1: L1::new(0.05), en: L1PlusL2::new(0.05, 0.4), mcp: MCP::new(0.05, 20.0), l05: L05::new(0.05), l21: L21::new(0.05), ben: BlockL1PlusL2::new(0.05, 0.4), bm: BlockMCP::new(0.05, 20.0), c }
}
/// fits share these by reference; only the holder of the baton runs
struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
impl<T> Shared<T> { fn get(&self) -> &T { &self.0 } }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { QuadL1, QuadEn, QuadMcp, QuadL05, LogiL1, QmtL21, QmtEn, QmtMcp, QuadPlain, QmtPlain, Lasso, Mtl, Mcp, Mten, QuadLong, QmtLong, QuadWide, QmtWide }
const KINDS: [Kind; 16] = [Kind::QuadL1, Kind::QmtL21, Kind::LogiL1, Kind::QuadMcp, Kind::QmtMcp, Kind::QuadEn, Kind::QmtEn, Kind::QuadL05, Kind::QuadPlain, Kind::QmtPlain, Kind::QuadLong, Kind::QmtLong, Kind::Lasso, Kind::Mtl, Kind::Mcp, Kind::Mten];
const KINDS_WIDE: [Kind; 2] = [Kind::QuadWide, Kind::QmtWide];
/// a fit: what, on which dataset, in CSC or dense storage
type Fit1 = (Kind, usize, bool);

fn fit(f: Fit1, po: &Pool, forms: &[Forms], y: &dyn Fn()) -> Vec<u64> {
    fn v1(a: &Array1<f64>) -> Vec<u64> { a.iter().map(|v| v.to_bits()).collect() }
    fn v2(a: &Array2<f64>) -> Vec<u64> { a.iter().map(|v| v.to_bits()).collect() }
    macro_rules! s { ($s:expr, $ds:expr, $l:expr, $p:expr) => {{ let w = DatasetBase::new(YD { d: $ds.design_matrix(), y }, $ds.targets().clone()); v1(&$s.solve(&w, &mut YL { l: $l, ds: &$ds, y }, &YP { p: &$p, y }).unwrap()) }} }
    macro_rules! m { ($s:expr, $ds:expr, $p:expr) => {{ let w = DatasetBase::new(YD { d: $ds.design_matrix(), y }, $ds.targets().clone()); v2(&$s.solve_multi_task(&w, &mut YL { l: QuadraticMultiTask::new(), ds: &$ds, y }, &YP { p: &$p, y }).unwrap()) }} }
    macro_rules! go { ($ds:expr, $dl:expr, $dm:expr) => { match f.0 {
        Kind::QuadL1 => s!(po.s, $ds, Quadratic::<f64>::new(), po.l1),
        Kind::QuadEn => s!(po.s, $ds, Quadratic::<f64>::new(), po.en),
        Kind::QuadMcp => s!(po.s, $ds, Quadratic::<f64>::new(), po.mcp),
        Kind::QuadL05 => s!(po.s, $ds, Quadratic::<f64>::new(), po.l05),
        Kind::LogiL1 => s!(po.s, $dl, Logistic::<f64>::new(), po.l1),
        Kind::QmtL21 => m!(po.s, $dm, po.l21),
        Kind::QmtEn => m!(po.s, $dm, po.ben),
        Kind::QmtMcp => m!(po.s, $dm, po.bm),
        Kind::QuadPlain => s!(po.plain, $ds, Quadratic::<f64>::new(), po.l1),
        Kind::QmtPlain => m!(po.plain, $dm, po.l21),
        Kind::QuadLong => s!(po.long, $ds, Quadratic::<f64>::new(), po.mcp),
        Kind::QmtLong => m!(po.long, $dm, po.ben),
        Kind::QuadWide => s!(po.wide, $ds, Quadratic::<f64>::new(), po.l1),
        Kind::QmtWide => m!(po.wide, $dm, po.l21),
        Kind::Lasso => v1(&lasso::<f64>(0.05, &po.c).fit(&$ds).unwrap().coefficients().to_owned()),
        Kind::Mcp => v1(&mcp::<f64>(0.05, 20.0, &po.c).fit(&$ds).unwrap().coefficients().to_owned()),
        Kind::Mtl => v2(&mtlasso::<f64>(0.05, &po.c).fit(&$dm).unwrap().coefficients().to_owned()),
        Kind::Mten => v2(&mtenet::<f64>(0.05, 0.4, &po.c).fit(&$dm).unwrap().coefficients().to_owned()),
    } } }
    let d = &forms[f.1];
    if f.2 { go!(d.ss, d.sl, d.sm) } else { go!(d.ds, d.dl, d.dm) }
}

/// the baton: one thread runs at a time, every point is one where it may be handed over. A thread that the code under test puts to sleep
/// (a lock held by another fit) loses the baton; from then on this execution makes no more choices.
struct St<'c> { ch: &'c mut Ch, dev: Dev, tower: u32, turn: usize, done: Vec<bool>, tid: Vec<i32>, at: Vec<u32>, steps: u64, stolen: bool, path: Vec<(usize, u32)> }
struct Sched<'c> { st: Mutex<St<'c>>, cv: Condvar }
extern "C" { fn gettid() -> i32; }
fn asleep(tid: i32) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    matches!(s.rsplit(')').next().and_then(|r| r.trim_start().chars().next()), Some('S') | Some('D'))
}
impl<'c> Sched<'c> {
    fn new(ch: &'c mut Ch, bound: usize, tower: u32, first: usize, n: usize) -> Sched<'c> {
        Sched { st: Mutex::new(St { ch, dev: Dev::new(bound), tower, turn: first, done: vec![false; n], tid: vec![0; n], at: vec![0; n], steps: 0, stolen: false, path: vec![] }), cv: Condvar::new() }
    }
    fn others(st: &St, id: usize) -> Vec<usize> { (0..st.done.len()).filter(|i| *i != id && !st.done[*i]).collect() }
    fn wait<'s>(&'s self, mut st: std::sync::MutexGuard<'s, St<'c>>, id: usize) -> std::sync::MutexGuard<'s, St<'c>> {
        let (mut seen, mut quiet) = (st.steps, 0);
        while st.turn != id {
            let (s, t) = self.cv.wait_timeout(st, std::time::Duration::from_millis(25)).unwrap();
            st = s;
            if !t.timed_out() || st.steps != seen { seen = st.steps; quiet = 0; continue; }
            if st.turn != id && !st.done[st.turn] && st.tid[st.turn] != 0 && asleep(st.tid[st.turn]) { quiet += 1 } else { quiet = 0 }
            if quiet >= 6 { st.turn = id; st.stolen = true; st.steps += 1; st.ch.forget_rest(); self.cv.notify_all(); }
        }
        st
    }
    fn hand<'s>(&'s self, mut st: std::sync::MutexGuard<'s, St<'c>>, id: usize, to: usize) {
        let at = st.at[id];
        st.path.push((id, at));
        st.turn = to;
        st.steps += 1;
        self.cv.notify_all();
        drop(self.wait(st, id));
    }
    fn point(&self, id: usize) {
        let mut st = self.st.lock().unwrap();
        if st.turn != id { st = self.wait(st, id); }
        st.at[id] += 1;
        st.steps += 1;
        st.ch.step();
        if st.stolen { return; }
        let o = Self::others(&st, id);
        if st.tower > 0 {
            // every fit is interrupted once, at the same callback, by the next one
            if st.at[id] == st.tower && id + 1 < st.done.len() && st.at[id + 1] == 0 { self.hand(st, id, id + 1); }
            return;
        }
        let s = &mut *st;
        let k = s.dev.pick(s.ch, 1 + o.len());
        if k > 0 { self.hand(st, id, o[k - 1]); }
    }
    fn start(&self, id: usize) { let mut st = self.st.lock().unwrap(); st.tid[id] = unsafe { gettid() }; drop(self.wait(st, id)); }
    fn finish(&self, id: usize) {
        let mut st = self.st.lock().unwrap();
        if st.turn != id { st = self.wait(st, id); }
        st.done[id] = true;
        st.steps += 1;
        let o = Self::others(&st, id);
        if !o.is_empty() { let s = &mut *st; let k = if o.len() == 1 || s.stolen { 0 } else if s.tower > 0 { o.len() - 1 } else { s.ch.pick(o.len()) }; s.turn = o[k]; }
        self.cv.notify_all();
    }
}
/// runs the fits on threads of their own under the scheduler: results and hand-overs
fn threads<R: Send>(ch: &mut Ch, bound: usize, tower: u32, first: usize, n: usize, f: &(dyn Fn(usize, &dyn Fn()) -> R + Sync)) -> (Vec<Result<R, String>>, Vec<(usize, u32)>) {
    let sched = Sched::new(ch, bound, tower, first, n);
    let res = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n).map(|id| { let sched = &sched; sc.spawn(move || {
            sched.start(id);
            let r = real_catch(|| f(id, &|| sched.point(id)));
            sched.finish(id);
            r
        }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    (res, sched.st.into_inner().unwrap().path)
}

fn main() {
    let raw = [data(4, 3, 0, Deco::Plain), data(3, 5, 1, Deco::ZeroCol), data(6, 2, 2, Deco::DupCol), data(6, 24, 0, Deco::Plain)];
    let forms: Vec<Forms> = raw.iter().map(|d| d.forms()).collect();
    let orig: Vec<Vec<u64>> = raw.iter().map(|d| d.x.iter().chain(d.y2.iter()).chain(d.csc.data.iter()).map(|v| v.to_bits()).collect()).collect();
    let po = Shared(pool());
    let forms = Shared(forms);
    let mut fits: Vec<Fit1> = vec![];
    for k in KINDS.iter().chain(&KINDS_WIDE).copied() { for d in 0..3 { for s in [false, true] { fits.push((k, d, s)); } } }
    for k in [Kind::QuadWide, Kind::QmtWide, Kind::Lasso, Kind::Mtl] { for s in [false, true] { fits.push((k, 3, s)); } }
    // each fit alone, on objects of its own
    let alone: std::collections::HashMap<String, Vec<u64>> = fits.iter().map(|f| (format!("{f:?}"), fit(*f, &pool(), &raw.iter().map(|d| d.forms()).collect::<Vec<_>>(), &|| ()))).collect();
    let want = |f: Fit1| &alone[&format!("{f:?}")];
    // small fits in a scalar type that lets the scheduler in at every operation
    let c = Cfg { ws: 2, mi: 1, me: 4, tol: 1e-9, k: 2, acc: true, verbose: false };
    let mut fine: Vec<(String, (Prob, Loss, Pen, Api, Task, Store), Vec<u64>)> = vec![];
    for (loss, pen, task, api, sparse) in [
        (Loss::Quad, Pen::L1(0.05), Task::Single, Api::Est, false), (Loss::Quad, Pen::L1(0.05), Task::Multi, Api::Est, true), (Loss::Quad, Pen::Mcp(0.05, 20.0), Task::Multi, Api::Solver, false),
        (Loss::Logistic, Pen::En(0.05, 0.4), Task::Single, Api::Solver, true), (Loss::Quad, Pen::L05(0.05), Task::Single, Api::Solver, true), (Loss::Quad, Pen::Mcp(0.05, 20.0), Task::Single, Api::Est, true),
        (Loss::Logistic, Pen::L1(0.05), Task::Single, Api::Solver, false), (Loss::Quad, Pen::En(0.05, 0.4), Task::Multi, Api::Est, false) ] {
        let mut pr = pattern(3, 2, if task == Task::Multi { 2 } else { 1 }, fine.len() % 3, Deco::Plain, false);
        if loss == Loss::Logistic { for v in pr.y.iter_mut() { *v = if *v >= 0.0 { 1.0 } else { -1.0 } } }
        fine.push((format!("{loss:?} {pen:?} {task:?} {api:?} sparse={sparse}"), (pr, loss, pen, api, task, if sparse { Store::Sparse(Csc::Reversed) } else { Store::Dense(Layout::ViewC) }), vec![]));
    }
    let one = |q: &(Prob, Loss, Pen, Api, Task, Store)| -> Vec<u64> { fit_f::<Yf>(&q.0, q.1, &q.2, &c, q.3, q.4, q.5, Layout::ViewC).unwrap().iter().map(|v| v.to_bits()).collect() };
    for f in fine.iter_mut() { f.2 = one(&f.1); }
    let fine = &fine;
    let fine_fit = |k: usize| one(&fine[k].1);
    let fl = |v: &Vec<u64>| v.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>();
    let (po, forms, raw, orig, want, fl) = (&po, &forms, &raw, &orig, &want, &fl);
    harness::explore::main(
        Spec { id: "P31", level: "model_checking",
            rule: "stateless exploration of schedules: every fit runs on a thread of its own (or inside a callback of another), every call the solver makes to the design matrix, the loss or the penalty is a point where the scheduler may hand over to another fit (or start one); all hand-overs up to the preemption bound are enumerated, exactly one thread runs at a time; each result is compared bit for bit with the same fit run alone on objects of its own, the data with the originals; a transition is a callback, a state the position of every fit at a hand-over",
            alphabet: "16 kinds of fit (quadratic, logistic and multi-task losses with every penalty, with and without acceleration, with and without epochs at which the stopping rule is tried; estimators as single steps) x 4 datasets (4x3, 3x5 with empty columns, 6x2 with duplicated columns, 6x24) x dense/CSC; solver, penalties and data shared by reference between the fits",
            bounds: "pairs of threads: every ordered pair of kinds with 1 preemption, pairs of 3 kinds with 2 on fixed (quick) / all data; short fits with 2 / 3; triples with 1 / (short fits) 2; nesting: one inner fit at every callback for all pairs, two (inside each other or in sequence) for the short fits; eight fits in flight at once, each interrupted at its k-th callback by the next, on threads and nested, k up to 40 / 150, also on 24 features; eight small fits in pairs with one hand-over at any arithmetic operation or comparison (two for the first two fits when thorough)",
            assumptions: &["hand-over only at calls to the plugged-in design, loss and penalty, and for the small fits at arithmetic operations and comparisons: what the crate does in between is taken as one step; sequentially consistent memory"] },
        |ch| {
            // two fits: the second on the same data, on other data in the same storage, in the other storage
            let pair = |ch: &mut Ch, ka: &[Kind], kb: &[Kind], off: usize| -> (Fit1, Fit1) {
                let (i, k2) = (ch.pick(ka.len()), *ch.of(kb));
                let (d, s) = if thorough() && off == 0 { (ch.pick(3), ch.flag()) } else { ((i + off) % 3, i % 2 == 1) };
                let a = (ka[i], d, s);
                (a, match ch.pick(3) { 0 => (k2, d, s), 1 => (k2, (d + 1) % 3, s), _ => (k2, (d + 2) % 3, !s) })
            };
            // many fits in flight at once: two kinds alternating, each interrupted at one callback
            let pick_tower = |ch: &mut Ch| -> (Fit1, Fit1, u32) {
                let w = ch.flag();
                let ks: &[Kind] = if w { &KINDS_WIDE } else { &KINDS[..12] };
                let d = if w { 3 } else { 0 };
                let (a, b) = (*ch.of(ks), *ch.of(ks));
                let (e, s) = *ch.of(&[(1, true), (2, false)]);
                ((a, d, false), (b, if w { 3 } else { e }, s), 1 + ch.pick(by_tier(40, 150)) as u32)
            };
            let mode = ch.pick(5);
            if mode == 4 {
                // every arithmetic operation is a point: a scalar type of our own under the generic code
                let deep = ch.flag();
                let ks: Vec<usize> = if deep { (0..by_tier(0, 2)).collect() } else { (0..fine.len()).collect() };
                if ks.is_empty() { ch.skip() }
                let two = [*ch.of(&ks), *ch.of(&ks)];
                let (res, path) = threads(ch, if deep { 2 } else { 1 }, 0, 0, 2, &|id, y| with_hook(y, || fine_fit(two[id])));
                ch.note(|| format!("fits {:?} at every arithmetic operation, handed over at (thread, operation) {path:?}", two.map(|k| &fine[k].0)));
                for (k, (id, at)) in path.iter().enumerate() { ch.state(&(two, k, id, at)); }
                ch.outcome(&(two, &path));
                for (i, r) in res.into_iter().enumerate() {
                    match r {
                        Ok(v) => if v != fine[two[i]].2 { bad!("thread {i} ({:?}) returned {:?}, alone {:?}", fine[two[i]].0, fl(&v), fl(&fine[two[i]].2)) },
                        Err(m) if m.contains("replay diverged") => panic!("{m}"),
                        Err(m) => bad!("thread {i} ({:?}) panicked: {m}", fine[two[i]].0),
                    }
                }
                return Ok(());
            }
            if mode == 0 || mode == 1 || (mode == 3 && !ch.flag()) {
                let mut tower = 0;
                let (fs, bound): (Vec<Fit1>, usize) = if mode == 3 {
                    let (a, b, pos) = pick_tower(ch);
                    tower = pos;
                    ((0..8).map(|i| if i % 2 == 0 { a } else { b }).collect(), 0)
                } else if mode == 0 {
                    let deep = ch.flag();
                    let ks: &[Kind] = if deep { &KINDS[..3] } else { &KINDS };
                    ({ let (a, b) = pair(ch, ks, ks, 0); vec![a, b] }, if deep { 2 } else { 1 })
                } else if ch.flag() {
                    // short fits: deeper
                    let ks = [Kind::QuadPlain, Kind::QmtPlain];
                    ({ let (a, b) = pair(ch, &ks, &ks, 1); vec![a, b] }, by_tier(2, 3))
                } else {
                    let ks = by_tier([Kind::QuadL1, Kind::QmtL21, Kind::LogiL1], [Kind::QuadPlain, Kind::QmtPlain, Kind::QuadL05]);
                    (vec![(*ch.of(&ks), 0, false), (*ch.of(&ks), 1, true), (*ch.of(&ks), 2, false)], by_tier(1, 2))
                };
                let first = if fs.len() != 3 { 0 } else { ch.pick(fs.len()) };
                let n = fs.len();
                let (res, path) = threads(ch, bound, tower, first, n, &|id, y| fit(fs[id], po.get(), forms.get(), y));
                ch.note(|| format!("threads {fs:?}, thread {first} first, handed over at (thread, callback) {path:?}"));
                for (k, (id, at)) in path.iter().enumerate() { ch.state(&(&format!("{fs:?}"), first, k, id, at)); }
                ch.outcome(&(first, &path, &format!("{fs:?}")));
                for (i, r) in res.into_iter().enumerate() {
                    match r {
                        Ok(v) => if v != *want(fs[i]) { bad!("thread {i} ({:?}) returned {:?}, alone {:?}", fs[i], fl(&v), fl(want(fs[i]))) },
                        Err(m) if m.contains("replay diverged") => panic!("{m}"),
                        Err(m) => bad!("thread {i} ({:?}) panicked: {m}", fs[i]),
                    }
                }
            } else {
                let tower = if mode == 3 { Some(pick_tower(ch)) } else { None };
                let deep = tower.is_none() && ch.flag();
                let short = [Kind::QuadPlain, Kind::QmtPlain];
                // the fit an interrupted one starts: the same one again, or another
                let (outer, other) = if let Some(t) = tower { (t.0, t.1) } else if deep { pair(ch, &short, &short, 1) } else { pair(ch, &KINDS[..12], &KINDS, 0) };
                let inner: Vec<Fit1> = if tower.is_some() { vec![other, outer] } else { vec![other] };
                let fault = RefCell::new(None);
                let path = RefCell::new(vec![]);
                let bound = if deep { 2 } else { 1 };
                let chc = RefCell::new((ch, Dev::new(bound)));
                struct Ctx<'x, 'c, 'f> { chc: &'x RefCell<(&'c mut Ch, Dev)>, path: &'x RefCell<Vec<(u32, u32)>>, fault: &'x RefCell<Option<String>>, tower: u32, inner: &'x [Fit1], po: &'x Pool, forms: &'x [Forms<'f>], want: &'x dyn Fn(Fit1) -> Vec<u64> }
                fn point(c: &Ctx, depth: u32, at: &std::cell::Cell<u32>) {
                    at.set(at.get() + 1);
                    let k = if c.tower > 0 { c.chc.borrow_mut().0.step(); if at.get() == c.tower && depth < 7 { 1 + depth as usize % 2 } else { 0 } } else { let mut q = c.chc.borrow_mut(); q.0.step(); let (ch, d) = &mut *q; d.pick(ch, 1 + c.inner.len()) };
                    if k == 0 { return; }
                    c.path.borrow_mut().push((depth, at.get()));
                    let f = c.inner[k - 1];
                    let at2 = std::cell::Cell::new(0);
                    let v = fit(f, c.po, c.forms, &|| point(c, depth + 1, &at2));
                    let w = (c.want)(f);
                    if v != w && c.fault.borrow().is_none() { *c.fault.borrow_mut() = Some(format!("the inner fit {f:?} returned {:?}, alone {:?}", v.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>(), w.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>())); }
                }
                let w2 = |f: Fit1| want(f).clone();
                let ctx = Ctx { chc: &chc, path: &path, fault: &fault, tower: tower.map_or(0, |t| t.2), inner: &inner, po: po.get(), forms: forms.get(), want: &w2 };
                let at = std::cell::Cell::new(0);
                let r = real_catch(|| fit(outer, po.get(), forms.get(), &|| point(&ctx, 0, &at)));
                let _ = ctx;
                let (ch, _) = chc.into_inner();
                let path = path.into_inner();
                ch.note(|| format!("{outer:?} with {inner:?} started inside it at (depth, callback) {path:?}"));
                for (k, q) in path.iter().enumerate() { ch.state(&(&format!("{outer:?}{inner:?}"), k, q)); }
                ch.outcome(&(&path, &format!("{outer:?}{inner:?}")));
                if let Some(m) = fault.into_inner() { bad!("{m}"); }
                match r {
                    Ok(v) => ensure!(v == *want(outer), "the outer fit {outer:?} returned {:?}, alone {:?}", fl(&v), fl(want(outer))),
                    Err(m) if m.contains("replay diverged") => panic!("{m}"),
                    Err(m) => bad!("a fit panicked: {m}"),
                }
            }
            let now: Vec<Vec<u64>> = raw.iter().map(|d| d.x.iter().chain(d.y2.iter()).chain(d.csc.data.iter()).map(|v| v.to_bits()).collect()).collect();
            ensure!(now == *orig, "the data were modified");
            Ok(())
        },
    )
}
