use harness::prelude::*;
use harness::with_single;
use ndarray::{Array1, Array2, CowArray};
use sparseglm::datafits::multi_task::QuadraticMultiTask;
use sparseglm::datafits::single_task::{Logistic, Quadratic};
use sparseglm::datasets::DatasetBase;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Own { View, Owned, Shared, Cow, MutView, Targets }
const OWNS: [Own; 6] = [Own::View, Own::Owned, Own::Shared, Own::Cow, Own::MutView, Own::Targets];
fn bits(a: &[f64]) -> Vec<u64> { a.iter().map(|v| v.to_bits()).collect() }

/// fits with the design in layout/ownership (xl, own) and the targets in layout yl; also checks that the buffers are unchanged
fn run(pr: &Prob, loss: Loss, pen: &Pen, c: &Cfg, api: Api, xl: Layout, own: Own, yl: Layout, multi: bool) -> Result<Vec<f64>, Failure> {
    let mut x = Buf2::<f64>::new(&pr.x, pr.n, pr.p, xl);
    let before = bits(&x.a.iter().cloned().collect::<Vec<_>>());
    let (mut y1, y2) = (Buf1::<f64>::new(if multi { &[] } else { &pr.y }, yl), Buf2::<f64>::new(if multi { &pr.y } else { &[] }, if multi { pr.n } else { 0 }, if multi { pr.t } else { 0 }, yl));
    let yb = (bits(&y1.a.to_vec()), bits(&y2.a.iter().cloned().collect::<Vec<_>>()));
    macro_rules! f { ($x:expr, $y1:expr, $y2:expr) => {{
        if multi {
            let ds = DatasetBase::from(($x, $y2));
            match api { Api::Est => est_multi::<f64, _, _>(&ds, pen, c), Api::Solver => Ok(solve_multi(&ds, &mut QuadraticMultiTask::<f64>::new(), pen, c)) }
        } else {
            let ds = DatasetBase::new($x, $y1);
            match (api, loss) {
                (Api::Est, _) => est_single::<f64, _, _>(&ds, pen, c),
                (_, Loss::Quad) => Ok(solve_single(&ds, &mut Quadratic::<f64>::new(), pen, c)),
                _ => Ok(solve_single(&ds, &mut Logistic::<f64>::new(), pen, c)),
            }
        }
    }} }
    let w = match own {
        Own::View => ok(f!(x.view(), y1.view(), y2.view()))?,
        // an owned copy that keeps the strides of its layout (a reversed or strided owned array)
        Own::Owned => { let (xo, yo1, yo2) = (owned(&x), owned1(&y1), owned(&y2)); ok(f!(xo, yo1, yo2))? }
        Own::Shared => { let (xo, yo1, yo2) = (owned(&x).into_shared(), owned1(&y1).into_shared(), owned(&y2).into_shared()); ok(f!(xo, yo1, yo2))? }
        Own::Cow => ok(f!(CowArray::from(x.view()), CowArray::from(y1.view()), CowArray::from(y2.view())))?,
        Own::MutView => { let v = y1.view().to_owned(); let y2v = y2.view().to_owned(); let _ = &mut y1; let xv = mutview(&mut x); ok(f!(xv, v, y2v))? }
        // only the targets keep an unusual layout
        Own::Targets => { let xo = Buf2::<f64>::new(&pr.x, pr.n, pr.p, Layout::C); let (a, b) = (owned1(&y1), owned(&y2)); ok(f!(xo.a, a, b))? }
    };
    ensure!(bits(&x.a.iter().cloned().collect::<Vec<_>>()) == before, "the design was modified");
    ensure!((bits(&y1.a.to_vec()), bits(&y2.a.iter().cloned().collect::<Vec<_>>())) == yb, "the targets were modified");
    Ok(w)
}
fn owned(b: &Buf2<f64>) -> Array2<f64> {
    use ndarray::s;
    match b.layout {
        Layout::Strided => b.a.clone().slice_move(s![..;2, ..;3]),
        Layout::ColStrided => b.a.clone().slice_move(s![..;2, ..;2]),
        Layout::Reversed | Layout::FReversed => b.a.clone().slice_move(s![..;-1, ..;-1]),
        _ => b.a.clone(),
    }
}
fn owned1(b: &Buf1<f64>) -> Array1<f64> {
    use ndarray::s;
    match b.layout {
        Layout::Strided | Layout::ColStrided => b.a.clone().slice_move(s![..;2]),
        Layout::Reversed => b.a.clone().slice_move(s![..;-1]),
        _ => b.a.clone(),
    }
}
fn mutview(b: &mut Buf2<f64>) -> ndarray::ArrayViewMut2<'_, f64> {
    use ndarray::s;
    match b.layout {
        Layout::Strided => b.a.slice_mut(s![..;2, ..;3]),
        Layout::ColStrided => b.a.slice_mut(s![..;2, ..;2]),
        Layout::Reversed | Layout::FReversed => b.a.slice_mut(s![..;-1, ..;-1]),
        _ => b.a.view_mut(),
    }
}

/// what the losses report, with the model fit in layout fl
fn numbers1<DM: sparseglm::datasets::DesignMatrix<Elem = f64>, T: sparseglm::datasets::AsSingleTargets<Elem = f64>, DF: sparseglm::datafits::single_task::Datafit<f64, DM, T>>(ds: &DatasetBase<DM, T>, df: &mut DF, fits: &[Vec<f64>], fl: Layout) -> Vec<f64> {
    df.initialize(ds);
    let mut o = df.step_size().to_vec();
    for f in fits {
        let b = Buf1::<f64>::new(f, fl);
        o.push(df.value(ds, b.view()));
        for j in 0..ds.design_matrix().n_features() { o.push(df.gradient_j(ds, b.view(), j)) }
        o.extend(df.full_grad(ds, b.view()));
    }
    o
}
fn numbers2<DM: sparseglm::datasets::DesignMatrix<Elem = f64>, T: sparseglm::datasets::AsMultiTargets<Elem = f64>>(ds: &DatasetBase<DM, T>, fits: &[Vec<f64>], fl: Layout) -> Vec<f64>
where QuadraticMultiTask<f64>: sparseglm::datafits::multi_task::MultiTaskDatafit<f64, DM, T> {
    use sparseglm::datafits::multi_task::MultiTaskDatafit;
    let mut df = QuadraticMultiTask::<f64>::new();
    df.initialize(ds);
    let mut o = MultiTaskDatafit::<f64, DM, T>::step_size(&df).to_vec();
    o.extend(df.XtY());
    let (n, t) = (ds.targets().n_samples(), ds.targets().n_tasks());
    for f in fits {
        let b = Buf2::<f64>::new(f, n, t, fl);
        o.push(df.value(ds, b.view()));
        for j in 0..ds.design_matrix().n_features() { o.extend(df.gradient_j(ds, b.view(), j)) }
        o.extend(df.full_grad(ds, b.view()));
    }
    o
}

fn main() {
    const XL: [Layout; 8] = [Layout::C, Layout::F, Layout::ViewC, Layout::ViewF, Layout::Strided, Layout::Reversed, Layout::ColStrided, Layout::FReversed];
    harness::explore::main(
        Spec { id: "P08", level: "exploration",
            rule: "every (problem, penalty, loss, API) x design layout x ownership kind x target layout, compared with the row-major owned fit: coefficients of truncated runs, solution of converged runs; buffers compared bit for bit before and after (their padding is NaN); also compressed-column views with strides; distinct by coefficients; trivial = zero fit",
            alphabet: "layouts: row-major, column-major, both strided with NaN padding, both reversed on both axes, stride-zero (one row, column, number or target row standing for all); ownership: view, owned (also with negative or gapped strides), shared, copy-on-write, mutable view; integer and pattern designs",
            bounds: "designs up to 20x20 and 8x45, tasks 1..3",
            assumptions: &["layouts may change summation order: 1e-8 on short runs"] },
        |ch| {
            let lg = ch.flag();
            let loss = if lg { Loss::Logistic } else { Loss::Quad };
            let t = if lg { 1 } else { *ch.of(&[1, 2, 3]) };
            let (n, p) = *ch.of(by_tier(&[(4, 3), (1, 3), (5, 1), (1, 1), (3, 7), (20, 9)][..], &[(4, 3), (1, 3), (5, 1), (1, 1), (3, 7), (20, 9), (20, 20), (8, 45)][..]));
            let v = ch.pick(by_tier(2, 6));
            let pr = if v % 2 == 0 { int_pattern(n, p, t, v, lg) } else { pattern(n, p, t, v, DECOS[v % 8], lg) };
            let pk = ch.pick(3);
            let pen = match pk { 0 => Pen::L1(1.0), 1 => Pen::En(1.0, 0.5), _ => Pen::Mcp(1.0, 1.5 * max_step(loss, &pr).max(1.0)) };
            let pen = at_frac(loss, &pr, pen, *ch.of(&[0.3, 0.05]));
            let multi = t > 1 || (!lg && ch.flag());
            let api = if lg { Api::Solver } else { *ch.of(&[Api::Est, Api::Solver]) };
            let full = *ch.of(&[false, true]);
            let c = if full { Cfg { ws: *ch.of(&[10, 1]), tol: 1e-8, ..Cfg::default() } } else { Cfg { ws: p, mi: 1, me: *ch.of(&[1, 5]), acc: false, ..Cfg::default() } };
            if full && !pen.convex() { ch.skip() }
            let base = run(&pr, loss, &pen, &c, api, Layout::C, Own::Owned, Layout::C, multi)?;
            if base.iter().all(|v| *v == 0.0) { ch.trivial() }
            ch.outcome_f(&base);
            let tie = near_tie(loss, &pr);
            let judge = |w: &[f64], what: &str| -> Res {
                if full { return same_solution(&pr, loss, &pen, w, &base, c.tol, what); }
                let d = max_diff(w, &base);
                ensure!(tie || d <= 1e-8 * (1.0 + base.iter().fold(0.0f64, |m, v| m.max(v.abs()))), "{what}: {w:?} versus row-major {base:?}");
                Ok(())
            };
            for xl in XL { for own in OWNS { for yl in [Layout::C, Layout::F, Layout::Strided, Layout::Reversed] {
                let what = format!("{loss:?} {pen:?} {api:?} {c:?} multi={multi} design {xl:?} {own:?} targets {yl:?} {}", pr.show());
                let w = run(&pr, loss, &pen, &c, api, xl, own, yl, multi)?;
                judge(&w, &what)?;
                ch.tally("layout combinations", 1);
            } } }
            // the losses themselves, the model fit in every layout too
            if api == Api::Solver && !full && c.me == 1 {
                let fits = [vec![0.0; n * t], (0..n * t).map(|i| ((i * 7) % 5) as f64 - 2.0).collect::<Vec<f64>>()];
                let want = expected_numbers(loss, &pr, &fits, multi);
                let big = want.iter().fold(1.0f64, |m, v| m.max(v.abs()));
                let csc = CscBuf::<f64>::new(&pr, Csc::MixedZeros);
                let csv = CscBuf::<f64>::new(&pr, Csc::StridedView);
                for yl in XL { for fl in XL {
                    let (y1, y2) = (Buf1::<f64>::new(if multi { &[] } else { &pr.y }, yl), Buf2::<f64>::new(if multi { &pr.y } else { &[] }, if multi { n } else { 0 }, if multi { t } else { 0 }, yl));
                    let bufs: Vec<Buf2<f64>> = XL.iter().map(|xl| Buf2::<f64>::new(&pr.x, n, p, *xl)).collect();
                    macro_rules! g { ($x:expr) => { real(|| if multi { numbers2(&DatasetBase::from(($x, y2.view())), &fits, fl) } else if lg { numbers1(&DatasetBase::new($x, y1.view()), &mut Logistic::<f64>::new(), &fits, fl) } else { numbers1(&DatasetBase::new($x, y1.view()), &mut Quadratic::<f64>::new(), &fits, fl) }) } }
                    let mut got: Vec<(String, Vec<f64>)> = bufs.iter().zip(XL).map(|(b, xl)| (format!("design {xl:?}"), g!(b.view()))).collect();
                    got.push(("compressed columns".into(), g!(csc.view())));
                    got.push(("strided compressed columns".into(), g!(csv.view())));
                    for (what, o) in got {
                        ensure!(o.len() == want.len() && o.iter().zip(&want).all(|(a, b)| (a - b).abs() <= 1e-9 * big), "{loss:?} multi={multi} {what}, targets {yl:?}, fit {fl:?}: reported {o:?}, formulas give {want:?}; {}", pr.show());
                        ch.tally("loss layout combinations", 1);
                    }
                } }
            }
            // stride-zero views: one row, one column or one number standing for all
            if n > 1 && n * p <= 30 {
                for kind in 0..4 {
                    let mut q = pr.clone();
                    for i in 0..n { for j in 0..p { q.x[i * p + j] = match kind { 0 => pr.x[j], 1 => pr.x[i * p], 2 => 2.0, _ => pr.x[i * p + j] } } }
                    if kind == 3 { for k in 0..n * t { q.y[k] = q.y[k % t] } }
                    if let Pen::Mcp(_, g) = pen { if max_step(loss, &q) * 1.2 >= g { continue } }
                    let want = run(&q, loss, &pen, &c, api, Layout::C, Own::Owned, Layout::C, multi)?;
                    let (row, col, num) = (Array2::from_shape_fn((1, p), |(_, j)| q.x[j]), Array2::from_shape_fn((n, 1), |(i, _)| q.x[i * p]), Array2::from_elem((1, 1), q.x[0]));
                    let all = Array2::from_shape_vec((n, p), q.x.clone()).unwrap();
                    let xv = match kind { 0 => row.broadcast((n, p)).unwrap(), 1 => col.broadcast((n, p)).unwrap(), 2 => num.broadcast((n, p)).unwrap(), _ => all.view() };
                    let y = Array2::from_shape_vec((n, t), q.y.clone()).unwrap();
                    let one = Array2::from_shape_vec((1, t), q.y[..t].to_vec()).unwrap();
                    let y2 = if kind == 3 { one.broadcast((n, t)).unwrap() } else { y.view() };
                    let w = ok(if multi { let ds = DatasetBase::from((xv, y2)); match api { Api::Est => est_multi::<f64, _, _>(&ds, &pen, &c), Api::Solver => Ok(solve_multi(&ds, &mut QuadraticMultiTask::<f64>::new(), &pen, &c)) } }
                        else { let ds = DatasetBase::new(xv, y2.column(0)); match (api, loss) { (Api::Est, _) => est_single::<f64, _, _>(&ds, &pen, &c), (_, Loss::Quad) => Ok(solve_single(&ds, &mut Quadratic::<f64>::new(), &pen, &c)), _ => Ok(solve_single(&ds, &mut Logistic::<f64>::new(), &pen, &c)) } })?;
                    let what = format!("{loss:?} {pen:?} {api:?} {c:?} multi={multi} stride-zero kind {kind} {}", q.show());
                    // equal columns: non-unique solutions and ties; the objective decides
                    let (ow, ob) = (objective(loss, &pen, &q, &w), objective(loss, &pen, &q, &want));
                    ensure!((ow - ob).abs() <= 1e-8 * (1.0 + ob.abs()), "{what}: {w:?} (objective {ow}) versus row-major {want:?} (objective {ob})");
                    ch.tally("stride-zero views", 1);
                }
            }
            // compressed columns through strided views
            let task = if multi { Task::Multi } else { Task::Single };
            for yl in [Layout::C, Layout::Strided, Layout::Reversed] {
                let w = ok(fit_f::<f64>(&pr, loss, &pen, &c, api, task, Store::Sparse(Csc::StridedView), yl))?;
                judge(&w, &format!("{loss:?} {pen:?} {api:?} {c:?} {task:?} strided compressed columns, targets {yl:?} {}", pr.show()))?;
            }
            if !multi {
                // a dataset cloned or borrowed
                let w = with_single!(&pr, Store::Dense(Layout::C), Layout::C, f64, |ds| { let d2 = ds.clone(); if lg { solve_single(&d2, &mut Logistic::<f64>::new(), &pen, &c) } else { solve_single(&d2, &mut Quadratic::<f64>::new(), &pen, &c) } });
                judge(&w, "cloned dataset")?;
            }
            Ok(())
        },
    )
}
