use harness::prelude::*;
use ndarray::{s, Array1, Array2, ArrayView2, Axis, ShapeBuilder};
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix, DesignMatrixType};

#[derive(Clone, Copy, Debug)]
enum St { D(Layout), S(Csc) }
const STS: [St; 16] = [St::D(Layout::C), St::S(Csc::Sorted), St::D(Layout::F), St::S(Csc::MixedZeros), St::S(Csc::Reversed), St::S(Csc::Rotated), St::S(Csc::AllStored), St::S(Csc::StridedView), St::S(Csc::Window), St::D(Layout::ViewC), St::D(Layout::ViewF), St::D(Layout::Strided), St::D(Layout::Reversed), St::D(Layout::Shared), St::D(Layout::ColStrided), St::D(Layout::FReversed)];

/// what a design matrix reports and does: products on the given selections, then a history of updates
struct Job { sel: Vec<Vec<usize>>, w: Vec<f64>, hist: Vec<(usize, Vec<f64>)>, n: usize, t: usize }
#[derive(PartialEq, Debug, Clone)]
struct Seen { p: usize, sparse: bool, single: Vec<Vec<f64>>, multi: Vec<Vec<f64>>, fit1: Vec<Vec<f64>>, fitm: Vec<Vec<f64>> }
fn drive<F: Fl, D: DesignMatrix<Elem = F>>(x: &D, j: &Job, single: bool) -> Seen {
    let p = x.n_features();
    let w1 = Array1::from_iter((0..p).map(|q| F::f(j.w[q * j.t])));
    let wm = Array2::from_shape_fn((p, j.t), |(q, k)| F::f(j.w[q * j.t + k]));
    let flat = |a: &Array2<F>| a.iter().map(|v| v.d()).collect::<Vec<_>>();
    let mut s = Seen { p, sparse: x.matrix_type() == DesignMatrixType::Sparse, single: vec![], multi: vec![], fit1: vec![], fitm: vec![] };
    for sel in &j.sel {
        let ws = Array1::from(sel.clone());
        if single { s.single.push(x.compute_extrapolated_fit(ws.view(), &w1, j.n).iter().map(|v| v.d()).collect()); }
        let m = x.compute_extrapolated_fit_multi_task(ws.view(), &wm, j.n, j.t);
        assert_eq!(m.dim(), (j.n, j.t));
        s.multi.push(flat(&m));
    }
    let mut f1 = Array1::<F>::zeros(j.n);
    let mut fm = Array2::<F>::zeros((j.n, j.t));
    for (f, d) in &j.hist {
        if single { x.update_model_fit(&mut f1, F::f(d[0]), *f); s.fit1.push(f1.iter().map(|v| v.d()).collect()); }
        let dv = Array1::from_iter(d.iter().map(|v| F::f(*v)));
        x.update_model_fit_multi_task(&mut fm, dv.view(), *f);
        s.fitm.push(flat(&fm));
    }
    s
}
fn all<F: Fl>(pr: &Prob, st: St, j: &Job) -> Seen {
    match st {
        St::D(l) => {
            let b = Buf2::<F>::new(&pr.x, pr.n, pr.p, l);
            match l { Layout::C | Layout::F => real(|| drive(&b.a, j, true)), Layout::Shared => { let sh = b.a.into_shared(); real(|| drive(&sh, j, true)) } _ => { let v = b.view(); real(|| drive(&v, j, true)) } }
        }
        St::S(k) => { let b = CscBuf::<F>::new(pr, k); let v = b.view(); real(|| drive(&v, j, true)) }
    }
}
fn target<T: AsMultiTargets<Elem = f64>>(t: &T) -> (usize, usize, Array2<f64>) { (t.n_samples(), t.n_tasks(), t.as_multi_tasks().to_owned()) }

/// a user's target type that may have several columns
struct Mine(Array2<f64>);
impl AsMultiTargets for Mine {
    type Elem = f64;
    fn n_samples(&self) -> usize { self.0.nrows() }
    fn n_tasks(&self) -> usize { self.0.ncols() }
    fn as_multi_tasks(&self) -> ArrayView2<'_, f64> { self.0.view() }
}
impl AsSingleTargets for Mine {}

fn main() {
    harness::explore::main(
        Spec { id: "P25", level: "model_checking",
            rule: "every (matrix, storage, history of single-feature updates): after each update the model fit equals, in exact integers, the design times the accumulated coefficients, single- and multi-task, and the product restricted to every selection (each subset in each order) equals the matrix product; a state is (fit), a transition an update; shapes, storage kind and targets as reported; distinct by fits; trivial = zero matrix",
            alphabet: "entries 0 1 -2 (thorough: 3), increments 1 -3 (and their task patterns, with zero components), also with design, coefficients and increments scaled by 2^60 and 2^-60 and with increments of unlike sizes in one history, 7 CSC kinds and 9 dense layouts, f64 and f32, 1-3 tasks, direct and through references",
            bounds: "all matrices up to 2x2, 3x2 (quick: two entry values), patterns up to 5x6 and with 0 features; 70001x2, 2x70001, 300x300 and 2x2 with up to 300 tasks in all storages; histories of length 0..3 (quick) / 4 over all features",
            assumptions: &["integers small enough to be exact"] },
        |ch| {
            let small = ch.flag();
            let f32b = ch.flag();
            let huge = !small && ch.flag();
            let pr = if huge {
                // past the ranges of narrow index types and of blocked loops
                let (n, p) = *ch.of(by_tier(&[(70001, 2), (2, 70001), (300, 300), (2, 2)][..], &[(70001, 2), (2, 70001), (300, 300), (2, 2), (140000, 1), (1, 140000), (1100, 700)][..]));
                let mut q = int_pattern(n, p, 1, 1, false);
                if ch.flag() { for (k, v) in q.x.iter_mut().enumerate() { if k % 5 > 1 { *v = 0.0 } } }
                q
            } else if small {
                let (n, p) = *ch.of(&[(2, 2), (1, 2), (2, 1), (3, 2)]);
                let al: &[f64] = if n == 3 { by_tier(&[0.0, 2.0], &[0.0, 1.0, -2.0]) } else { by_tier(&[0.0, 1.0, -2.0], &[0.0, 1.0, -2.0, 3.0]) };
                let x = (0..n * p).map(|_| *ch.of(al)).collect();
                Prob { n, p, t: 1, x, y: vec![] }
            } else {
                let (n, p) = *ch.of(&[(3, 3), (5, 4), (1, 6), (4, 0), (2, 5)]);
                let mut q = int_pattern(n, p, 1, ch.pick(3), false);
                let z = ch.pick(3);
                for i in 0..n { for j in 0..p { if (z == 1 && j % 2 == 0) || (z == 2 && i == n - 1) { q.x[i * p + j] = 0.0; } } }
                q
            };
            let st = *ch.of(&STS);
            let t = if huge { *ch.of(if pr.n * pr.p == 4 { &[9, 33, 130, 300] } else { &[1, 3] }) } else { 1 + ch.pick(if small { 2 } else { 3 }) };
            // histories
            let depth = if pr.p == 0 || huge { 0 } else { ch.pick(if small { by_tier(4, 5) } else { 3 }) };
            let hist: Vec<(usize, Vec<f64>)> = (0..if huge { 6.min(2 * pr.p) } else { depth }).map(|i| { if huge { let j = [pr.p - 1, 0, pr.p / 2, pr.p.min(256) - 1, pr.p.min(65537) - 1, pr.p - 1][i]; return (j, (0..t).map(|k| [1.0, -3.0, 2.0, 0.0][(i + k) % 4]).collect()); } let j = ch.pick(pr.p); let d = *ch.of(&[1.0, -3.0]); (j, (0..t).map(|k| if k == 0 { d } else if (i + k) % 2 == 0 { 0.0 } else { 2.0 * d }).collect()) }).collect();
            // selections: every ordered subset (three or fewer features), some otherwise
            let mut sel: Vec<Vec<usize>> = vec![vec![]];
            if pr.p <= 3 { let mut k = 0; while k < sel.len() { for j in 0..pr.p { if !sel[k].contains(&j) { let mut v = sel[k].clone(); v.push(j); sel.push(v); } } k += 1; } }
            else { sel.extend([(0..pr.p).collect::<Vec<_>>(), (0..pr.p).rev().collect(), vec![pr.p - 1, 0], vec![1], vec![2, 0, 3]]); }
            if huge { sel.retain(|s| s.len() != 3 || s.contains(&(pr.p - 1))) }
            // powers of two are exact: design, coefficients and increments far from 1, and increments of unlike sizes
            let sc = if huge || pr.p == 0 || depth > 2 { 0 } else { ch.pick(7) };
            let (xs, wsc) = [(0, 0), (60, -60), (0, -60), (-60, 0), (-60, 60), (0, 60), (0, 0)][sc];
            let (xs, wsc) = (2f64.powi(xs), 2f64.powi(wsc));
            let hs = |i: usize| if sc == 6 && i % 2 == 1 { 2f64.powi(if f32b { -12 } else { -40 }) } else { wsc };
            let hist: Vec<(usize, Vec<f64>)> = hist.into_iter().enumerate().map(|(i, (j, d))| (j, d.into_iter().map(|v| v * hs(i)).collect())).collect();
            let pr = Prob { x: pr.x.iter().map(|v| v * xs).collect(), ..pr };
            let w: Vec<f64> = (0..pr.p * t).map(|q| [2.0, -1.0, 3.0, 0.0, -4.0][q % 5] * wsc).collect();
            let job = Job { sel, w, hist, n: pr.n, t };
            ch.note(|| format!("{st:?} f32={f32b} tasks={t} updates={:?} {}", job.hist, pr.show()));
            if pr.x.iter().all(|v| *v == 0.0) { ch.trivial() }
            if job.hist.len() <= 1 && !huge {
                // the same through a reference to the matrix
                let r = |x: Seen| (x.p, x.sparse, x.single, x.multi, x.fit1, x.fitm);
                let same = match st {
                    St::D(l) => { let b = Buf2::<f64>::new(&pr.x, pr.n, pr.p, l); let v = b.view(); real(|| r(drive(&&v, &job, false)) == r(drive(&v, &job, false))) }
                    St::S(k) => { let b = CscBuf::<f64>::new(&pr, k); let v = b.view(); real(|| r(drive(&&v, &job, false)) == r(drive(&v, &job, false))) }
                };
                ensure!(same, "a reference to the matrix gives other answers than the matrix");
            }
            let seen = if f32b { all::<f32>(&pr, st, &job) } else { all::<f64>(&pr, st, &job) };
            ensure!(seen.p == pr.p, "{} features reported for {}", seen.p, pr.p);
            ensure!(seen.sparse == matches!(st, St::S(_)), "storage kind reported wrongly");
            let prt = Prob { t, ..pr.clone() };
            for (i, s) in job.sel.iter().enumerate() {
                let mut inn = vec![false; pr.p];
                for j in s { inn[*j] = true }
                let wm: Vec<f64> = (0..pr.p * t).map(|q| if inn[q / t] { job.w[q] } else { 0.0 }).collect();
                let w1: Vec<f64> = (0..pr.p).map(|q| wm[q * t]).collect();
                ensure!(seen.single[i] == pr.fit(&w1), "product over {s:?}: {:?}, matrix product {:?}", seen.single[i], pr.fit(&w1));
                ensure!(seen.multi[i] == prt.fit(&wm), "multi-task product over {s:?}: {:?}, matrix product {:?}", seen.multi[i], prt.fit(&wm));
            }
            let mut acc = vec![0.0; pr.p * t];
            for (i, (j, d)) in job.hist.iter().enumerate() {
                for k in 0..t { acc[j * t + k] += d[k]; }
                let w1: Vec<f64> = (0..pr.p).map(|q| acc[q * t]).collect();
                ch.step();
                ch.state(&(pr.n, seen.fitm[i].iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
                ensure!(seen.fit1[i] == pr.fit(&w1), "after the updates {:?} the fit is {:?}, design times coefficients {:?}", &job.hist[..=i], seen.fit1[i], pr.fit(&w1));
                ensure!(seen.fitm[i] == prt.fit(&acc), "after the updates {:?} the multi-task fit is {:?}, design times coefficients {:?}", &job.hist[..=i], seen.fitm[i], prt.fit(&acc));
            }
            for f in seen.fitm.iter().chain(&seen.multi) { ch.outcome_f(f); }
            if depth == 0 && !f32b && !huge {
                // targets
                let y = Array2::from_shape_fn((pr.n, t), |(i, k)| (i * 10 + k) as f64);
                let yf = Array2::from_shape_fn((pr.n, t).f(), |(i, k)| (i * 10 + k) as f64);
                let y1 = y.column(0).to_owned();
                let big = Array2::from_shape_fn((2 * pr.n, t), |(i, k)| if i % 2 == 0 { (i / 2 * 10 + k) as f64 } else { f64::NAN });
                let ysl: ArrayView2<f64> = big.slice(s![..;2, ..]);
                let want = (pr.n, t, y.clone());
                let one = (pr.n, 1, y1.clone().insert_axis(Axis(1)));
                let r = real(|| vec![target(&y), target(&yf), target(&y.view()), target(&ysl), target(&y.to_shared())]);
                for q in r { ensure!(q == want, "target seen as {q:?} instead of {want:?}"); }
                let yrev = Array1::from_iter(y1.iter().rev().cloned());
                let r = real(|| vec![target(&y1), target(&y1.view()), target(&yrev.slice(s![..;-1]))]);
                for q in r { ensure!(q == one, "1-D target seen as {q:?} instead of {one:?}"); }
                ensure!(real(|| y1.try_single_target().ok().map(|v| v.to_owned())) == Some(y1.clone()), "1-D target refused or changed");
                let mine = Mine(y.clone());
                ensure!(real(|| target(&mine)) == want && real(|| target(&&mine)) == want && real(|| target(&&y1)) == one, "a user's targets or a reference to targets seen as something else");
                match (t, real(|| mine.try_single_target().map(|v| v.to_owned()).map_err(|e| e.to_string()))) {
                    (1, Ok(v)) => ensure!(v == y1, "one target column given as {v:?}"),
                    (1, Err(e)) => bad!("one target column refused: {e}"),
                    (_, Ok(v)) => bad!("{t} target columns cast to the vector {v:?}"),
                    (_, Err(_)) => {}
                }
                let csc = CscBuf::<f64>::new(&pr, Csc::Sorted);
                let x = Array2::from_shape_vec((pr.n, pr.p), pr.x.clone()).unwrap();
                let (a, b, c) = real(|| { let d1 = DatasetBase::new(csc.view(), y.view()); let d2 = DatasetBase::from((x.view(), y1.view())); let d3 = DatasetBase::from((csc.view(), y1.clone())); ((d1.design_matrix().n_features(), target(d1.targets())), (d2.design_matrix().to_owned(), target(d2.targets())), (d3.design_matrix().n_features(), target(d3.targets()))) });
                ensure!(a == (pr.p, want) && b == (x.clone(), one.clone()) && c == (pr.p, one), "dataset accessors: {a:?} {b:?} {c:?}");
            }
            Ok(())
        },
    )
}
