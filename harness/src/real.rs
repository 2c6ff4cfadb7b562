//! Dispatch to the code under test: problem x penalty x API x storage x precision.
use crate::explore::real;
use crate::oracle::{Loss, Pen, Prob};
use ndarray::{s, Array1, Array2, ArrayView1, ArrayView2, ShapeBuilder};
use sparseglm::datafits::multi_task::QuadraticMultiTask;
use sparseglm::datafits::single_task::{Logistic, Quadratic};
use sparseglm::datasets::{csc_array::CSCArray, AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix};
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::estimators::*;
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::traits::Fit;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, L21};
use sparseglm::penalties::separable::{L1PlusL2, L05, L1, MCP};
use sparseglm::solvers::{BCDSolver, CDSolver, Solver};
use sparseglm::Float;

pub trait Fl: Float + 'static {
    fn f(x: f64) -> Self;
    fn d(self) -> f64;
}
impl Fl for f64 { fn f(x: f64) -> f64 { x } fn d(self) -> f64 { self } }
impl Fl for f32 { fn f(x: f64) -> f32 { x as f32 } fn d(self) -> f64 { self as f64 } }

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg { pub ws: usize, pub mi: usize, pub me: usize, pub tol: f64, pub k: usize, pub acc: bool, pub verbose: bool }
impl Default for Cfg {
    fn default() -> Cfg { Cfg { ws: 10, mi: 500, me: 20000, tol: 1e-9, k: 5, acc: true, verbose: false } }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Api { Est, Solver }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Task { Single, Multi }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Layout { C, F, ViewC, ViewF, Strided, Reversed, Shared, ColStrided, FReversed }
pub const LAYOUTS: [Layout; 9] = [Layout::C, Layout::F, Layout::ViewC, Layout::ViewF, Layout::Strided, Layout::Reversed, Layout::Shared, Layout::ColStrided, Layout::FReversed];
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Csc { Sorted, Reversed, Rotated, AllStored, MixedZeros, StridedView, Window }
pub const CSCS: [Csc; 7] = [Csc::Sorted, Csc::Reversed, Csc::Rotated, Csc::AllStored, Csc::MixedZeros, Csc::StridedView, Csc::Window];
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Store { Dense(Layout), Sparse(Csc) }

pub struct CscBuf<F> { pub data: Vec<F>, pub indices: Vec<i32>, pub indptr: Vec<i32>, pub step: usize }
impl<F: Fl> CscBuf<F> {
    pub fn new(pr: &Prob, kind: Csc) -> CscBuf<F> {
        // a window of columns of a wider matrix: its entries are neither the first nor the last of the buffers
        let w = kind == Csc::Window && pr.n > 0;
        let (mut data, mut indices) = if w { (vec![F::f(77.0); 3], vec![0i32; 3]) } else { (vec![], vec![]) };
        let mut indptr = vec![data.len() as i32];
        for j in 0..pr.p {
            let mut rows: Vec<usize> = (0..pr.n).filter(|&i| pr.xa(i, j) != 0.0 || kind == Csc::AllStored || (kind == Csc::MixedZeros && (i + j) % 2 == 0)).collect();
            match kind {
                Csc::Reversed | Csc::MixedZeros => rows.reverse(),
                Csc::Rotated => if rows.len() > 1 { rows.rotate_left(1) },
                _ => {}
            }
            for i in rows { data.push(F::f(pr.xa(i, j))); indices.push(i as i32); }
            indptr.push(data.len() as i32);
        }
        if w { data.extend([F::f(-55.0); 2]); indices.extend([pr.n as i32 - 1, 0]); }
        Self::from_parts(data, indices, indptr, if kind == Csc::StridedView { 2 } else { 1 })
    }
    /// step 2: every entry is followed by a decoy in the buffer and the views skip it
    pub fn from_parts(data: Vec<F>, indices: Vec<i32>, indptr: Vec<i32>, step: usize) -> CscBuf<F> {
        if step == 1 { return CscBuf { data, indices, indptr, step }; }
        let d = data.into_iter().flat_map(|x| [x, F::nan()]).collect();
        let i = indices.into_iter().flat_map(|x| [x, i32::MAX]).collect();
        let p = indptr.into_iter().flat_map(|x| [x, i32::MAX]).collect();
        CscBuf { data: d, indices: i, indptr: p, step }
    }
    pub fn view(&self) -> CSCArray<'_, F> {
        let st = self.step as isize;
        let v = ArrayView1::from(&self.data[..]).slice_move(s![..;st]);
        let i = ArrayView1::from(&self.indices[..]).slice_move(s![..;st]);
        let p = ArrayView1::from(&self.indptr[..]).slice_move(s![..;st]);
        CSCArray::new(v, i, p)
    }
}

/// Same numbers, chosen memory layout. Owned buffer plus how to view it.
pub struct Buf2<F> { pub a: Array2<F>, pub layout: Layout, n: usize, p: usize }
impl<F: Fl> Buf2<F> {
    pub fn new(v: &[f64], n: usize, p: usize, layout: Layout) -> Buf2<F> {
        let at = |i: usize, j: usize| F::f(v[i * p + j]);
        let a = match layout {
            Layout::C | Layout::ViewC | Layout::Shared => Array2::from_shape_fn((n, p), |(i, j)| at(i, j)),
            Layout::F | Layout::ViewF => Array2::from_shape_fn((n, p).f(), |(i, j)| at(i, j)),
            Layout::Strided => Array2::from_shape_fn((2 * n, 3 * p), |(i, j)| if i % 2 == 0 && j % 3 == 0 { at(i / 2, j / 3) } else { F::nan() }),
            Layout::ColStrided => Array2::from_shape_fn((2 * n, 2 * p).f(), |(i, j)| if i % 2 == 0 && j % 2 == 0 { at(i / 2, j / 2) } else { F::nan() }),
            Layout::Reversed => Array2::from_shape_fn((n, p), |(i, j)| at(n - 1 - i, p - 1 - j)),
            Layout::FReversed => Array2::from_shape_fn((n, p).f(), |(i, j)| at(n - 1 - i, p - 1 - j)),
        };
        Buf2 { a, layout, n, p }
    }
    pub fn view(&self) -> ArrayView2<'_, F> {
        let v = match self.layout {
            Layout::Strided => self.a.slice(s![..;2, ..;3]),
            Layout::ColStrided => self.a.slice(s![..;2, ..;2]),
            Layout::Reversed | Layout::FReversed => self.a.slice(s![..;-1, ..;-1]),
            _ => self.a.view(),
        };
        assert_eq!(v.dim(), (self.n, self.p));
        v
    }
}
pub struct Buf1<F> { pub a: Array1<F>, pub layout: Layout }
impl<F: Fl> Buf1<F> {
    pub fn new(v: &[f64], layout: Layout) -> Buf1<F> {
        let n = v.len();
        let a = match layout {
            Layout::Strided | Layout::ColStrided => Array1::from_shape_fn(2 * n, |i| if i % 2 == 0 { F::f(v[i / 2]) } else { F::nan() }),
            Layout::Reversed => Array1::from_shape_fn(n, |i| F::f(v[n - 1 - i])),
            _ => Array1::from_shape_fn(n, |i| F::f(v[i])),
        };
        Buf1 { a, layout }
    }
    pub fn view(&self) -> ArrayView1<'_, F> {
        match self.layout {
            Layout::Strided | Layout::ColStrided => self.a.slice(s![..;2]),
            Layout::Reversed => self.a.slice(s![..;-1]),
            _ => self.a.view(),
        }
    }
}

pub type Out = Result<Vec<f64>, EstimatorError>;
fn v1<F: Fl>(a: ndarray::ArrayView1<F>) -> Vec<f64> { a.iter().map(|x| x.d()).collect() }
fn v2<F: Fl>(a: ndarray::ArrayView2<F>) -> Vec<f64> { a.iter().map(|x| x.d()).collect() }

macro_rules! set { ($p:expr, $c:expr, $F:ty) => { $p.max_iterations($c.mi).max_epochs($c.me).ws_start_size($c.ws).tolerance(<$F as Fl>::f($c.tol)).K($c.k).use_acceleration($c.acc).verbose($c.verbose) }; }

pub fn lasso<F: Fl>(a: f64, c: &Cfg) -> LassoParams<F> { set!(Lasso::params().alpha(F::f(a)), c, F) }
pub fn enet<F: Fl>(a: f64, r: f64, c: &Cfg) -> ElasticNetParams<F> { set!(ElasticNet::params().alpha(F::f(a)).l1_ratio(F::f(r)), c, F) }
pub fn mcp<F: Fl>(a: f64, g: f64, c: &Cfg) -> MCParams<F> { set!(MCPEstimator::params().alpha(F::f(a)).gamma(F::f(g)), c, F) }
pub fn mtlasso<F: Fl>(a: f64, c: &Cfg) -> MultiTaskLassoParams<F> { set!(MultiTaskLasso::params().alpha(F::f(a)), c, F) }
pub fn mtenet<F: Fl>(a: f64, r: f64, c: &Cfg) -> MultiTaskElasticNetParams<F> { set!(MultiTaskElasticNet::params().alpha(F::f(a)).l1_ratio(F::f(r)), c, F) }
pub fn blockmcp<F: Fl>(a: f64, g: f64, c: &Cfg) -> BlockMCParams<F> { set!(BlockMCPEstimator::params().alpha(F::f(a)).gamma(F::f(g)), c, F) }

/// Fits the estimator for (pen, quadratic loss).
pub fn est_single<F: Fl, DM: DesignMatrix<Elem = F>, T: AsSingleTargets<Elem = F>>(ds: &DatasetBase<DM, T>, pen: &Pen, c: &Cfg) -> Out
where
    LassoParams<F>: Fit<DM, T, EstimatorError, Object = Lasso<F>>,
    ElasticNetParams<F>: Fit<DM, T, EstimatorError, Object = ElasticNet<F>>,
    MCParams<F>: Fit<DM, T, EstimatorError, Object = MCPEstimator<F>>,
{
    real(|| Ok(match *pen {
        Pen::L1(a) => v1(lasso::<F>(a, c).fit(ds)?.coefficients()),
        Pen::En(a, r) => v1(enet::<F>(a, r, c).fit(ds)?.coefficients()),
        Pen::Mcp(a, g) => v1(mcp::<F>(a, g, c).fit(ds)?.coefficients()),
        Pen::L05(_) => unreachable!("no estimator"),
    }))
}
pub fn est_multi<F: Fl, DM: DesignMatrix<Elem = F>, T: AsMultiTargets<Elem = F>>(ds: &DatasetBase<DM, T>, pen: &Pen, c: &Cfg) -> Out
where
    MultiTaskLassoParams<F>: Fit<DM, T, EstimatorError, Object = MultiTaskLasso<F>>,
    MultiTaskElasticNetParams<F>: Fit<DM, T, EstimatorError, Object = MultiTaskElasticNet<F>>,
    BlockMCParams<F>: Fit<DM, T, EstimatorError, Object = BlockMCPEstimator<F>>,
{
    real(|| Ok(match *pen {
        Pen::L1(a) => v2(mtlasso::<F>(a, c).fit(ds)?.coefficients()),
        Pen::En(a, r) => v2(mtenet::<F>(a, r, c).fit(ds)?.coefficients()),
        Pen::Mcp(a, g) => v2(blockmcp::<F>(a, g, c).fit(ds)?.coefficients()),
        Pen::L05(_) => unreachable!("no estimator"),
    }))
}
pub fn solver<F: Fl>(c: &Cfg) -> Solver<F> {
    Solver::new().ws_start_size(c.ws).max_iterations(c.mi).max_epochs(c.me).tolerance(F::f(c.tol)).K(c.k).use_acceleration(c.acc).verbose(c.verbose)
}
pub fn solve_single<F: Fl, DM: DesignMatrix<Elem = F>, T: AsSingleTargets<Elem = F>, DF>(ds: &DatasetBase<DM, T>, df: &mut DF, pen: &Pen, c: &Cfg) -> Vec<f64>
where
    DF: sparseglm::datafits::single_task::Datafit<F, DM, T>,
{
    let s = solver::<F>(c);
    real(|| match *pen {
        Pen::L1(a) => v1(s.solve(ds, df, &L1::new(F::f(a))).unwrap().view()),
        Pen::En(a, r) => v1(s.solve(ds, df, &L1PlusL2::new(F::f(a), F::f(r))).unwrap().view()),
        Pen::Mcp(a, g) => v1(s.solve(ds, df, &MCP::new(F::f(a), F::f(g))).unwrap().view()),
        Pen::L05(a) => v1(s.solve(ds, df, &L05::new(F::f(a))).unwrap().view()),
    })
}
pub fn solve_multi<F: Fl, DM: DesignMatrix<Elem = F>, T: AsMultiTargets<Elem = F>, DF>(ds: &DatasetBase<DM, T>, df: &mut DF, pen: &Pen, c: &Cfg) -> Vec<f64>
where
    DF: sparseglm::datafits::multi_task::MultiTaskDatafit<F, DM, T>,
{
    let s = solver::<F>(c);
    real(|| match *pen {
        Pen::L1(a) => v2(s.solve_multi_task(ds, df, &L21::new(F::f(a))).unwrap().view()),
        Pen::En(a, r) => v2(s.solve_multi_task(ds, df, &BlockL1PlusL2::new(F::f(a), F::f(r))).unwrap().view()),
        Pen::Mcp(a, g) => v2(s.solve_multi_task(ds, df, &BlockMCP::new(F::f(a), F::f(g))).unwrap().view()),
        Pen::L05(_) => unreachable!("no block L0.5"),
    })
}

macro_rules! go_single {
    ($ds:expr, $pen:expr, $loss:expr, $c:expr, $api:expr, $F:ty) => {{
        let ds = $ds;
        match ($api, $loss) {
            (Api::Est, Loss::Quad) => est_single::<$F, _, _>(&ds, $pen, $c),
            (Api::Est, Loss::Logistic) => unreachable!("no estimator"),
            (Api::Solver, Loss::Quad) => Ok(solve_single::<$F, _, _, _>(&ds, &mut Quadratic::<$F>::new(), $pen, $c)),
            (Api::Solver, Loss::Logistic) => Ok(solve_single::<$F, _, _, _>(&ds, &mut Logistic::<$F>::new(), $pen, $c)),
        }
    }};
}
macro_rules! go_multi {
    ($ds:expr, $pen:expr, $c:expr, $api:expr, $F:ty) => {{
        let ds = $ds;
        match $api {
            Api::Est => est_multi::<$F, _, _>(&ds, $pen, $c),
            Api::Solver => Ok(solve_multi::<$F, _, _, _>(&ds, &mut QuadraticMultiTask::<$F>::new(), $pen, $c)),
        }
    }};
}

pub fn fit_f<F: Fl>(pr: &Prob, loss: Loss, pen: &Pen, c: &Cfg, api: Api, task: Task, store: Store, ylayout: Layout) -> Out {
    match (store, task) {
        (Store::Dense(l), Task::Single) => {
            assert_eq!(pr.t, 1);
            let x = Buf2::<F>::new(&pr.x, pr.n, pr.p, l);
            let y = Buf1::<F>::new(&pr.y, ylayout);
            match l {
                Layout::C | Layout::F => go_single!(DatasetBase::from((x.a, y.view().to_owned())), pen, loss, c, api, F),
                Layout::Shared => go_single!(DatasetBase::from((x.a.into_shared(), y.a.into_shared())), pen, loss, c, api, F),
                _ => go_single!(DatasetBase::from((x.view(), y.view())), pen, loss, c, api, F),
            }
        }
        (Store::Dense(l), Task::Multi) => {
            let x = Buf2::<F>::new(&pr.x, pr.n, pr.p, l);
            let y = Buf2::<F>::new(&pr.y, pr.n, pr.t, ylayout);
            match l {
                Layout::C | Layout::F => go_multi!(DatasetBase::from((x.a, y.view().to_owned())), pen, c, api, F),
                Layout::Shared => go_multi!(DatasetBase::from((x.a.into_shared(), y.view())), pen, c, api, F),
                _ => go_multi!(DatasetBase::from((x.view(), y.view())), pen, c, api, F),
            }
        }
        (Store::Sparse(k), Task::Single) => {
            assert_eq!(pr.t, 1);
            let x = CscBuf::<F>::new(pr, k);
            let y = Buf1::<F>::new(&pr.y, ylayout);
            go_single!(DatasetBase::from((x.view(), y.view())), pen, loss, c, api, F)
        }
        (Store::Sparse(k), Task::Multi) => {
            let x = CscBuf::<F>::new(pr, k);
            let y = Buf2::<F>::new(&pr.y, pr.n, pr.t, ylayout);
            go_multi!(DatasetBase::from((x.view(), y.view())), pen, c, api, F)
        }
    }
}
pub fn fit(pr: &Prob, loss: Loss, pen: &Pen, c: &Cfg, api: Api, task: Task, store: Store) -> Out {
    fit_f::<f64>(pr, loss, pen, c, api, task, store, Layout::C)
}
pub fn ok(o: Out) -> Result<Vec<f64>, crate::explore::Failure> {
    o.map_err(|e| crate::explore::Failure(format!("fit returned an error on valid settings: {e}")))
}

/// Runs `$body` with `$ds` bound to the dataset in the chosen storage (single-task targets).
#[macro_export]
macro_rules! with_single {
    ($pr:expr, $store:expr, $ylay:expr, $F:ty, |$ds:ident| $body:expr) => {{
        let pr_: &$crate::oracle::Prob = $pr;
        let y_ = $crate::real::Buf1::<$F>::new(&pr_.y, $ylay);
        match $store {
            $crate::real::Store::Dense(l_) => {
                let x_ = $crate::real::Buf2::<$F>::new(&pr_.x, pr_.n, pr_.p, l_);
                match l_ {
                    $crate::real::Layout::C | $crate::real::Layout::F => { let $ds = sparseglm::datasets::DatasetBase::from((x_.a, y_.view().to_owned())); $body }
                    _ => { let $ds = sparseglm::datasets::DatasetBase::from((x_.view(), y_.view())); $body }
                }
            }
            $crate::real::Store::Sparse(k_) => { let x_ = $crate::real::CscBuf::<$F>::new(pr_, k_); let $ds = sparseglm::datasets::DatasetBase::from((x_.view(), y_.view())); $body }
        }
    }};
}
#[macro_export]
macro_rules! with_multi {
    ($pr:expr, $store:expr, $ylay:expr, $F:ty, |$ds:ident| $body:expr) => {{
        let pr_: &$crate::oracle::Prob = $pr;
        let y_ = $crate::real::Buf2::<$F>::new(&pr_.y, pr_.n, pr_.t, $ylay);
        match $store {
            $crate::real::Store::Dense(l_) => {
                let x_ = $crate::real::Buf2::<$F>::new(&pr_.x, pr_.n, pr_.p, l_);
                match l_ {
                    $crate::real::Layout::C | $crate::real::Layout::F => { let $ds = sparseglm::datasets::DatasetBase::from((x_.a, y_.view().to_owned())); $body }
                    _ => { let $ds = sparseglm::datasets::DatasetBase::from((x_.view(), y_.view())); $body }
                }
            }
            $crate::real::Store::Sparse(k_) => { let x_ = $crate::real::CscBuf::<$F>::new(pr_, k_); let $ds = sparseglm::datasets::DatasetBase::from((x_.view(), y_.view())); $body }
        }
    }};
}

/// Everything a loss reports on a dataset, at several model fits: curvatures, then value / partial derivatives / full gradient per fit.
pub fn single_numbers<F: Fl, DM: DesignMatrix<Elem = F>, T: AsSingleTargets<Elem = F>, DF: sparseglm::datafits::single_task::Datafit<F, DM, T>>(ds: &DatasetBase<DM, T>, df: &mut DF, fits: &[Vec<f64>]) -> Vec<f64> {
    real(|| {
        df.initialize(ds);
        let p = ds.design_matrix().n_features();
        let mut o = v1(df.step_size());
        for f in fits {
            let xw = Array1::from_iter(f.iter().map(|v| F::f(*v)));
            o.push(df.value(ds, xw.view()).d());
            for j in 0..p { o.push(df.gradient_j(ds, xw.view(), j).d()); }
            o.extend(v1(df.full_grad(ds, xw.view()).view()));
        }
        o
    })
}
pub fn multi_numbers<F: Fl, DM: DesignMatrix<Elem = F>, T: AsMultiTargets<Elem = F>>(ds: &DatasetBase<DM, T>, fits: &[Vec<f64>], n: usize, t: usize) -> Vec<f64>
where
    QuadraticMultiTask<F>: sparseglm::datafits::multi_task::MultiTaskDatafit<F, DM, T>,
{
    use sparseglm::datafits::multi_task::MultiTaskDatafit;
    real(|| {
        let mut df = QuadraticMultiTask::<F>::new();
        df.initialize(ds);
        let p = ds.design_matrix().n_features();
        let mut o = v1(MultiTaskDatafit::<F, DM, T>::step_size(&df));
        o.extend(v2(df.XtY()));
        for f in fits {
            let xw = Array2::from_shape_fn((n, t), |(i, k)| F::f(f[i * t + k]));
            o.push(df.value(ds, xw.view()).d());
            for j in 0..p { o.extend(v1(df.gradient_j(ds, xw.view(), j).view())); }
            o.extend(v2(df.full_grad(ds, xw.view()).view()));
        }
        o
    })
}
/// The same numbers from the documented formulas.
pub fn expected_numbers(loss: Loss, pr: &Prob, fits: &[Vec<f64>], multi: bool) -> Vec<f64> {
    use crate::oracle::*;
    let mut o: Vec<f64> = (0..pr.p).map(|j| curvature(loss, pr, j)).collect();
    if multi { for j in 0..pr.p { for k in 0..pr.t { o.push((0..pr.n).map(|i| pr.xa(i, j) * pr.ya(i, k)).sum()); } } }
    for f in fits { o.push(loss_value(loss, pr, f)); let g = grad_at_fit(loss, pr, f); o.extend(&g); o.extend(&g); }
    o
}
