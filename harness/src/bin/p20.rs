use harness::prelude::*;
use ndarray::{Array1, Array2};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::DatasetBase;
use sparseglm::estimators::estimators::*;
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::param_guard::ParamGuard;
use sparseglm::estimators::traits::Fit;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, L21};
use sparseglm::penalties::separable::{L1PlusL2, L05, L1, MCP};
use sparseglm::solvers::{BCDSolver, CDSolver, Solver};

struct Data { x: Array2<f64>, y: Array1<f64>, y2: Array2<f64>, lab: Array1<f64>, csc: CscBuf<f64>, n: usize }
fn data(n: usize, p: usize, v: usize, deco: Deco) -> Data {
    let pr = pattern(n, p, 2, v, deco, false);
    from(n, p, pr)
}
/// the first dataset with everything but one part kept: another last column, other targets, other magnitudes in the same places, columns swapped
fn sibling(kind: usize) -> Data {
    if kind >= 4 {
        // integers, so that what is unchanged is unchanged to the last bit: other targets with the same correlations to two of the columns, or the same magnitudes; another design with the same column norms
        let mut x = [1.0, 0.0, 2.0, 0.0, 1.0, -1.0, 2.0, -1.0, 0.0, -1.0, 2.0, 1.0, 0.0, 1.0, 1.0];
        let mut y = [3.0, 1.0, -1.0, 2.0, 2.0, -3.0, 1.0, 1.0, -2.0, 4.0];
        for i in 0..5 { for k in 0..2 { let v = &mut y[i * 2 + k]; match kind { 5 => *v += [0.0, 2.0, 1.0, 2.0, 0.0][i], 6 => *v += [1.0, 2.0, 2.0, 0.0, 0.0][i], 7 => *v = -*v, _ => {} } } }
        if kind == 8 { for j in 0..3 { x[6 + j] *= -1.0 } }
        return from(5, 3, Prob { n: 5, p: 3, t: 2, x: x.to_vec(), y: y.to_vec() });
    }
    let mut pr = pattern(5, 3, 2, 0, Deco::Plain, false);
    for i in 0..5 { match kind {
        0 => pr.x[i * 3 + 2] = 1.7 - 0.9 * pr.x[i * 3 + 2],
        1 => for k in 0..2 { pr.y[i * 2 + k] = if k == 0 { -0.4 } else { 0.7 } * pr.y[i * 2 + k] + 0.3 },
        2 => { let v = pr.x[i * 3 + 1]; pr.x[i * 3 + 1] = pr.x[i * 3]; pr.x[i * 3] = v; }
        _ => if i == 4 { for j in 0..3 { pr.x[i * 3 + j] *= -1.5 } for k in 0..2 { pr.y[i * 2 + k] = 2.5 } },
    } }
    from(5, 3, pr)
}
fn from(n: usize, p: usize, pr: Prob) -> Data {
    let y2 = Array2::from_shape_vec((n, 2), pr.y.clone()).unwrap();
    let y = y2.column(0).to_owned();
    let lab = y.map(|v| if *v >= 0.0 { 1.0 } else { -1.0 });
    Data { x: Array2::from_shape_vec((n, p), pr.x.clone()).unwrap(), csc: CscBuf::new(&pr, Csc::Reversed), y, y2, lab, n }
}
/// the shared objects a history works on
#[derive(Clone)]
struct Pool { lasso: LassoParams<f64>, enet: ElasticNetParams<f64>, mcp: MCParams<f64>, mtl: MultiTaskLassoParams<f64>, mten: MultiTaskElasticNetParams<f64>, bmcp: BlockMCParams<f64>,
    solver: Solver<f64>, quad: Quadratic<f64>, logi: Logistic<f64>, qmt: QuadraticMultiTask<f64>, l1: L1<f64>, en: L1PlusL2<f64>, pm: MCP<f64>, l05: L05<f64>, l21: L21<f64>, ben: BlockL1PlusL2<f64>, bm: BlockMCP<f64> }
fn pool() -> Pool { pool_of(&Cfg { ws: 2, mi: 4, me: 25, tol: 1e-8, k: 3, acc: true, verbose: false }, 0.05, 0.4, 20.0) }
fn pool_of(c: &Cfg, a: f64, r: f64, g: f64) -> Pool {
    Pool { lasso: lasso(a, c), enet: enet(a, r, c), mcp: mcp(a, g, c), mtl: mtlasso(a, c), mten: mtenet(a, r, c), bmcp: blockmcp(a, g, c),
        solver: solver(c), quad: Quadratic::new(), logi: Logistic::new(), qmt: QuadraticMultiTask::new(), l1: L1::new(a), en: L1PlusL2::new(a, r), pm: MCP::new(a, g), l05: L05::new(a), l21: L21::new(a), ben: BlockL1PlusL2::new(a, r), bm: BlockMCP::new(a, g) }
}
/// clones of everything, for settings in wide ranges: equal to the original, and fitting like it
fn clones(ch: &mut Ch, ds: &[Data]) -> Res {
    let mut d = Dev::new(by_tier(2, 3));
    let c = Cfg { ws: *d.of(ch, &[2, 1, 12, 300, 70000]), mi: *d.of(ch, &[4, 0, 1, 60]), me: *d.of(ch, &[60, 0, 1, 7]), tol: *d.of(ch, &[1e-13, 0.0, 1e-300, 1e-3, 2.0]), k: *d.of(ch, &[3, 1, 2, 6, 12, 20, 50]), acc: d.pick(ch, 2) == 0, verbose: false };
    let a = *d.of(ch, &[0.05, 0.0, 1e-300, 1e-7, 0.7, 40.0]);
    let r = *d.of(ch, &[0.4, 0.0, 1.0, 1e-9, 0.999]);
    let g = *d.of(ch, &[20.0, 40.0, 1e9]);
    let k = *d.of(ch, &[0, 3, 5]);
    let op = OPS[ch.pick(OPS.len() - 1)];
    ch.note(|| format!("{op:?} of clones with {c:?} strength {a} ratio {r} gamma {g} on dataset {k}"));
    let mut p = pool_of(&c, a, r, g);
    let mut q = p.clone();
    let mut z = q.clone();
    macro_rules! eq { ($($f:ident),*) => { $( ensure!(p.$f == q.$f && q.$f == z.$f, "a clone of {} differs from it", stringify!($f)); )* } }
    eq!(lasso, enet, mcp, mtl, mten, bmcp, solver, quad, logi, qmt, l1, en, pm, l05, l21, ben, bm);
    let s = |x: &Solver<f64>| (x.ws_start_size, x.max_iterations, x.max_epochs, x.tolerance.to_bits(), x.K, x.use_acceleration, x.verbose);
    ensure!(s(&p.solver) == s(&z.solver), "the clone of a solver has the settings {:?} instead of {:?}", s(&z.solver), s(&p.solver));
    let d = &ds[k / 2];
    let (x, y, w) = (run(&mut p, op, d, k % 2 == 1), run(&mut q, op, d, k % 2 == 1), run(&mut z, op, d, k % 2 == 1));
    // and of used objects
    let v = run(&mut p.clone(), op, d, k % 2 == 1);
    let f = |v: &Vec<u64>| v.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>();
    ch.step();
    ch.outcome(&x);
    if x.iter().all(|v| *v == 0) { ch.trivial() }
    ensure!(x == y && x == w && x == v, "the original gives {:?}, its clone {:?}, a clone of the clone {:?}, a clone of the used original {:?}", f(&x), f(&y), f(&w), f(&v));
    Ok(())
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Lasso, Enet, Mcp, Mtl, Mten, Bmcp, LassoChecked, QuadL1, QuadEn, QuadMcp, QuadL05, LogiL1, LogiEn, QmtL21, QmtEn, QmtMcp, QuadNumbers, LogiNumbers, QmtNumbers, Clone }
const OPS: [Op; 20] = [Op::Lasso, Op::QuadL1, Op::LogiL1, Op::QmtL21, Op::Mtl, Op::Enet, Op::Mcp, Op::Mten, Op::Bmcp, Op::LassoChecked, Op::QuadEn, Op::QuadMcp, Op::QuadL05, Op::LogiEn, Op::QmtEn, Op::QmtMcp, Op::QuadNumbers, Op::LogiNumbers, Op::QmtNumbers, Op::Clone];

/// one operation on the pool; the bits of what it returned
fn run(p: &mut Pool, op: Op, d: &Data, sparse: bool) -> Vec<u64> {
    fn v1(a: &Array1<f64>) -> Vec<u64> { a.iter().map(|v| v.to_bits()).collect() }
    fn v2(a: &Array2<f64>) -> Vec<u64> { a.iter().map(|v| v.to_bits()).collect() }
    macro_rules! on { ($ds:expr, $dl:expr, $dm:expr) => {{
        let (ds, dl, dm) = (&$ds, &$dl, &$dm);
        let f = Array1::from_shape_fn(d.n, |i| (i % 3) as f64 - 0.5);
        let f2 = Array2::from_shape_fn((d.n, 2), |(i, k)| (i % 3) as f64 - 0.5 * k as f64);
        match op {
            Op::Lasso => v1(&p.lasso.fit(ds).unwrap().coefficients().to_owned()),
            Op::Enet => v1(&p.enet.fit(ds).unwrap().coefficients().to_owned()),
            Op::Mcp => v1(&p.mcp.fit(ds).unwrap().coefficients().to_owned()),
            Op::Mtl => v2(&p.mtl.fit(dm).unwrap().coefficients().to_owned()),
            Op::Mten => v2(&p.mten.fit(dm).unwrap().coefficients().to_owned()),
            Op::Bmcp => v2(&p.bmcp.fit(dm).unwrap().coefficients().to_owned()),
            Op::LassoChecked => { let _ = p.lasso.check_ref().map(|v| v.alpha()); v1(&p.lasso.clone().check().unwrap().fit(ds).unwrap().coefficients().to_owned()) }
            Op::QuadL1 => v1(&p.solver.solve(ds, &mut p.quad, &p.l1).unwrap()),
            Op::QuadEn => v1(&p.solver.solve(ds, &mut p.quad, &p.en).unwrap()),
            Op::QuadMcp => v1(&p.solver.solve(ds, &mut p.quad, &p.pm).unwrap()),
            Op::QuadL05 => v1(&p.solver.solve(ds, &mut p.quad, &p.l05).unwrap()),
            Op::LogiL1 => v1(&p.solver.solve(dl, &mut p.logi, &p.l1).unwrap()),
            Op::LogiEn => v1(&p.solver.solve(dl, &mut p.logi, &p.en).unwrap()),
            Op::QmtL21 => v2(&p.solver.solve_multi_task(dm, &mut p.qmt, &p.l21).unwrap()),
            Op::QmtEn => v2(&p.solver.solve_multi_task(dm, &mut p.qmt, &p.ben).unwrap()),
            Op::QmtMcp => v2(&p.solver.solve_multi_task(dm, &mut p.qmt, &p.bm).unwrap()),
            Op::QuadNumbers => { p.quad.initialize(ds); let mut o = vec![p.quad.value(ds, f.view()).to_bits()]; o.extend(v1(&p.quad.full_grad(ds, f.view()))); o.extend(lips(&p.quad, ds)); o }
            Op::LogiNumbers => { p.logi.initialize(dl); let mut o = vec![p.logi.value(dl, f.view()).to_bits()]; o.extend(v1(&p.logi.full_grad(dl, f.view()))); o }
            Op::QmtNumbers => { p.qmt.initialize(dm); let mut o = vec![p.qmt.value(dm, f2.view()).to_bits()]; o.extend(v2(&p.qmt.full_grad(dm, f2.view()))); o.extend(v2(&p.qmt.XtY().to_owned())); o }
            Op::Clone => { *p = p.clone(); vec![] }
        }
    }} }
    real(|| if sparse {
        on!(DatasetBase::from((d.csc.view(), d.y.view())), DatasetBase::from((d.csc.view(), d.lab.view())), DatasetBase::from((d.csc.view(), d.y2.view())))
    } else {
        on!(DatasetBase::from((d.x.view(), d.y.view())), DatasetBase::from((d.x.view(), d.lab.view())), DatasetBase::from((d.x.view(), d.y2.view())))
    })
}
fn lips<DM: sparseglm::datasets::DesignMatrix<Elem = f64>, T: sparseglm::datasets::AsSingleTargets<Elem = f64>>(q: &impl Datafit<f64, DM, T>, _: &DatasetBase<DM, T>) -> Vec<u64> { q.step_size().iter().map(|v| v.to_bits()).collect() }

fn main() {
    let ds = vec![data(5, 3, 0, Deco::Plain), data(3, 6, 1, Deco::ZeroCol), data(8, 2, 2, Deco::DupCol), sibling(0), sibling(1), sibling(2), sibling(3), sibling(4), sibling(5), sibling(6), sibling(7), sibling(8)];
    let nk = 2 * ds.len();
    // what each operation returns on fresh objects
    let fresh: Vec<Vec<Vec<u64>>> = OPS.iter().map(|op| (0..nk).map(|k| run(&mut pool(), *op, &ds[k / 2], k % 2 == 1)).collect()).collect();
    let orig: Vec<(Vec<u64>, Vec<u64>)> = ds.iter().map(|d| (d.x.iter().map(|v| v.to_bits()).collect(), d.csc.data.iter().map(|v| v.to_bits()).collect())).collect();
    harness::explore::main(
        Spec { id: "P20", level: "model_checking",
            rule: "all histories of operations on one pool of shared builders, solver, losses and penalties over a pool of datasets of different shapes, storages and targets; a state is the history's sequence of results, a transition an operation; each result is compared bit for bit with the same operation on fresh objects, cloning replaces the pool by its clone; finally the data are compared bit for bit with the originals; distinct by history results",
            alphabet: "20 operations (six estimators, checked parameters, seven generic solves sharing loss and solver objects, three direct uses of the losses, clone) x 12 datasets (5x3, 3x6 with empty columns, 8x2 with duplicated columns; four siblings of the first: another last column, other targets, two columns swapped, another last sample; an integer dataset and its siblings with the same correlations to two columns, the same target magnitudes, the same column norms) x dense/CSC",
            bounds: "every pair of operations alternating 24 (quick) / 150 times; histories of length 2 over everything, length 3 (quick) / 4 with the dataset of one step departing",
            assumptions: &["one fit after the other; fits that overlap in time are explored by P31"] },
        |ch| {
            if ch.flag() && ch.flag() { return clones(ch, &ds); }
            let mut p = pool();
            if ch.flag() {
                // two operations alternating many times on the same objects
                let (a, b) = (ch.pick(OPS.len() - 1), ch.pick(OPS.len() - 1));
                let (ka, kb) = (*ch.of(&[0, 3]), *ch.of(&[0, 5, 6]));
                let len = by_tier(24, 150);
                ch.note(|| format!("{:?} on dataset {} and {:?} on dataset {} alternating {len} times", OPS[a], ka / 2, OPS[b], kb / 2));
                for i in 0..len {
                    let (o, k) = if i % 2 == 0 { (a, ka) } else { (b, kb) };
                    let r = run(&mut p, OPS[o], &ds[k / 2], k % 2 == 1);
                    ch.step();
                    if r != fresh[o][k] {
                        let f = |v: &Vec<u64>| v.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>();
                        bad!("step {i}: {:?}, on fresh objects {:?}", f(&r), f(&fresh[o][k]));
                    }
                }
                ch.outcome(&(a, b, ka, kb));
                return Ok(());
            }
            let deep = ch.flag();
            let depth = if deep { by_tier(3, 4) } else { 2 };
            let mut d = Dev::new(if deep { 1 } else { usize::MAX });
            let mut note = vec![];
            let mut res: Vec<Vec<u64>> = vec![];
            for i in 0..depth {
                // the last steps of the longest histories share objects with earlier ones: clones and losses included
                let o = ch.pick(OPS.len());
                let op = OPS[o];
                let k = if op == Op::Clone { 0 } else if deep { let base = [0, 3, 4, 1, 6][i]; (base + d.pick(ch, nk)) % nk } else { ch.pick(nk) };
                note.push(format!("{op:?} on dataset {} {}", k / 2, if k % 2 == 1 { "sparse" } else { "dense" }));
                let r = run(&mut p, op, &ds[k / 2], k % 2 == 1);
                ch.step();
                let want = &fresh[o][k];
                if r != *want {
                    let f = |v: &Vec<u64>| v.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>();
                    bad!("after {note:?}: {:?}, on fresh objects {:?}", f(&r), f(want));
                }
                res.push(r);
                ch.state(&res);
            }
            ch.note(|| note.join("; "));
            ch.outcome(&res);
            let now: Vec<(Vec<u64>, Vec<u64>)> = ds.iter().map(|d| (d.x.iter().map(|v| v.to_bits()).collect(), d.csc.data.iter().map(|v| v.to_bits()).collect())).collect();
            ensure!(now == orig, "the data were modified by {note:?}");
            Ok(())
        },
    )
}
