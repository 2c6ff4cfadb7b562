use harness::prelude::*;
use ndarray::{Array1, Array2, ArrayView1, ArrayView2};
use sparseglm::datafits::multi_task::MultiTaskDatafit;
use sparseglm::datafits::single_task::Datafit;
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix};
use sparseglm::penalties::block_separable::MultiTaskPenalty;
use sparseglm::penalties::separable::Penalty;
use sparseglm::solvers::{anderson_bcd, anderson_cd};
use sparseglm::utils::helpers::solve_lin_sys;
use std::cell::RefCell;

/// objective answers, enumerated, pure in the argument (up to 1e-8 relative)
struct Ans<'a> { ch: &'a mut Ch, dev: Dev, u: f64, memo: [Vec<(Vec<f64>, f64)>; 2], opts: [&'static [f64]; 2] }
impl<'a> Ans<'a> {
    fn get(&mut self, which: usize, arg: Vec<f64>) -> f64 {
        let near = |a: &[f64]| { let s = a.iter().chain(&arg).fold(1.0f64, |m, v| m.max(v.abs())); a.len() == arg.len() && a.iter().zip(&arg).all(|(x, y)| (x - y).abs() <= 1e-8 * s) };
        if let Some((_, v)) = self.memo[which].iter().find(|(a, _)| near(a)) { return *v; }
        if arg.iter().any(|v| !v.is_finite()) { return f64::NAN; }
        let o = self.opts[which];
        let v = o[self.dev.pick(self.ch, o.len())];
        self.memo[which].push((arg, v));
        v
    }
}
struct Df<'b, 'a>(&'b RefCell<Ans<'a>>, Array1<f64>);
struct Pn<'b, 'a>(&'b RefCell<Ans<'a>>);
impl<DM: DesignMatrix<Elem = f64>, T: AsSingleTargets<Elem = f64>> Datafit<f64, DM, T> for Df<'_, '_> {
    fn initialize(&mut self, _: &DatasetBase<DM, T>) {}
    fn value(&self, _: &DatasetBase<DM, T>, f: ArrayView1<f64>) -> f64 { self.0.borrow_mut().get(0, f.to_vec()) }
    fn gradient_j(&self, _: &DatasetBase<DM, T>, _: ArrayView1<f64>, _: usize) -> f64 { 0.0 }
    fn full_grad(&self, _: &DatasetBase<DM, T>, _: ArrayView1<f64>) -> Array1<f64> { Array1::zeros(self.1.len()) }
    fn step_size(&self) -> ArrayView1<'_, f64> { self.1.view() }
}
impl<DM: DesignMatrix<Elem = f64>, T: AsMultiTargets<Elem = f64>> MultiTaskDatafit<f64, DM, T> for Df<'_, '_> {
    fn initialize(&mut self, _: &DatasetBase<DM, T>) {}
    fn value(&self, _: &DatasetBase<DM, T>, f: ArrayView2<f64>) -> f64 { self.0.borrow_mut().get(0, f.iter().cloned().collect()) }
    fn gradient_j(&self, ds: &DatasetBase<DM, T>, _: ArrayView2<f64>, _: usize) -> Array1<f64> { Array1::zeros(ds.targets.n_tasks()) }
    fn full_grad(&self, ds: &DatasetBase<DM, T>, _: ArrayView2<f64>) -> Array2<f64> { Array2::zeros((self.1.len(), ds.targets.n_tasks())) }
    fn step_size(&self) -> ArrayView1<'_, f64> { self.1.view() }
}
impl Penalty<f64> for Pn<'_, '_> {
    fn value(&self, w: ArrayView1<f64>) -> f64 { let u = self.0.borrow().u; self.0.borrow_mut().get(1, w.iter().map(|v| v / u).collect()) }
    fn prox(&self, v: f64, _: f64) -> f64 { v }
    fn subdiff_distance(&self, _: ArrayView1<f64>, _: ArrayView1<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) { (Array1::zeros(ws.len()), 0.0) }
}
impl MultiTaskPenalty<f64> for Pn<'_, '_> {
    fn value(&self, w: ArrayView2<f64>) -> f64 { let u = self.0.borrow().u; self.0.borrow_mut().get(1, w.iter().map(|v| v / u).collect()) }
    fn prox(&self, v: ArrayView1<f64>, _: f64) -> Array1<f64> { v.to_owned() }
    fn subdiff_distance(&self, _: ArrayView2<f64>, _: ArrayView2<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) { (Array1::zeros(ws.len()), 0.0) }
}

/// exact determinant of an integer matrix (Leibniz expansion by minors)
fn det(a: &[Vec<i128>]) -> i128 {
    if a.is_empty() { return 1; }
    let mut d = 0;
    for c in 0..a.len() {
        if a[0][c] == 0 { continue; }
        let m: Vec<Vec<i128>> = a[1..].iter().map(|r| r.iter().enumerate().filter(|(i, _)| *i != c).map(|(_, v)| *v).collect()).collect();
        d += if c % 2 == 0 { a[0][c] } else { -a[0][c] } * det(&m);
    }
    d
}

fn main() {
    harness::explore::main(
        Spec { id: "P23", level: "model_checking",
            rule: "every history of iterates fed to the public extrapolation steps (both modules), one or two periods, with every answer of the objective on every distinct argument; after each call: off-period bit-identical, otherwise either bit-identical or the Anderson combination (exact oracle), zero outside the working set, fit equal to design times coefficients, objective strictly smaller; a regular system with a strictly smaller finite objective must be adopted, a refused system changes nothing; distinct by final coefficients; trivial = nothing adopted",
            alphabet: "iterate entries -1 0 1 2 (part A: all; part B: departures from a converging pattern with entries up to 40, also drifting by 20, 200 or 900 per iterate), working sets: every ordered selection for up to 3 features; loss answers 0 1 -1 NaN inf -inf, penalty answers 0 2 -3; dense and CSC designs; 1-2 tasks; iterates in units of 1, 2^-30, 2^30",
            bounds: "A: depth 1-2, up to 2 entries per iterate, objective answers all; B: depth 1-5 up to 4 features, departures 2 (quick) / 3 over iterates and answers, two periods",
            assumptions: &["objective answers are functions of the argument up to 1e-8", "coefficients outside the working set are zero, as in the solver"] },
        |ch| {
            let multi = ch.flag();
            let small = !ch.flag();
            let store = *ch.of(&[Store::Dense(Layout::C), Store::Sparse(Csc::Sorted)]);
            let t = if multi { 1 + ch.pick(2) } else { 1 };
            let wss: [&[usize]; 9] = [&[0], &[1], &[0, 1], &[1, 0], &[2, 0], &[1, 2, 0], &[2, 1, 0], &[3, 1, 0, 2], &[1, 4, 0]];
            let (p, k, ws, periods, mut dev);
            if small {
                let set = ch.pick(if t == 1 { by_tier(5, 7) } else { 2 });
                ws = wss[set].to_vec();
                p = if set == 1 || set == 4 { 3 } else { 2.max(ws.len()) };
                k = 1 + ch.pick(if ws.len() * t == 1 || thorough() { 2 } else { 2 });
                periods = if ws.len() * t == 1 && k == 1 { 2 } else { 1 };
                dev = Dev::new(usize::MAX);
            } else {
                dev = Dev::new(by_tier(2, 3));
                let set = *dev.of(ch, &[5, 2, 4, 7, 8]);
                ws = wss[set].to_vec();
                p = 5;
                k = *dev.of(ch, &[2, 1, 3, 4, 5]);
                periods = 2;
            }
            // iterates in units of u, the design in the inverse units
            let u = if small { if k == 1 { *ch.of(&[1.0, 2f64.powi(-30)]) } else { 1.0 } } else { *dev.of(ch, &[1.0, 2f64.powi(-30), 2f64.powi(30)]) };
            let verbose = dev.left < usize::MAX && dev.pick(ch, 2) == 1;
            let n = 3;
            let x: Vec<f64> = (0..n * p).map(|q| [2.0, -1.0, 0.0, 1.0, 3.0, 0.0, -2.0][(q * 3 + q / p) % 7]).collect();
            let pr = Prob { n, p, t, x, y: vec![1.0; n * t] };
            let d = ws.len() * t;
            // iterates over the working set
            let al: &[i64] = if small { if d <= 1 { &[0, 1, -1, 2] } else if thorough() && d * (k + 1) <= 6 { &[0, 1, -1, 2] } else { &[0, 1, 2] } } else { &[] };
            let mut iter: Vec<Vec<i64>> = vec![];
            // slow iterates move by nearly the same large step each time: the weights of the combination are large
            let slow = if small || k > 3 { 0 } else { *dev.of(ch, &[0, 20, 200, 900]) };
            for e in 0..periods * (k + 1) {
                let row: Vec<i64> = (0..d).map(|q| if small { *ch.of(al) } else {
                    let base = [40, 20, 10, 5, 3, 2, 1, 1, 0, 0, 0, 0][e] * (1 + q as i64 % 3) + (e as i64 * (q as i64 + 1) * (q as i64 + 2)) % 5 + q as i64 + slow * e as i64 * [1, -1, 2][q % 3];
                    [base, 0, -base - 1][dev.pick(ch, 3)]
                }).collect();
                iter.push(row);
            }
            let note = format!("multi={multi} tasks={t} {store:?} K={k} ws={ws:?} unit={u:e} iterates={iter:?}");
            let sc = Prob { x: pr.x.iter().map(|v| v / u).collect(), ..pr.clone() };
            let ans = RefCell::new(Ans { ch, dev, u, memo: [vec![], vec![]], opts: if small { [&[0.0, -1.0, 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY], if thorough() { &[0.0, 2.0] } else { &[0.0] }] } else { [&[0.0, -1.0, 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY], &[0.0, 2.0, -3.0]] } });
            let df = Df(&ans, Array1::ones(p));
            let pn = Pn(&ans);
            let mut adopted = 0u64;
            let mut last1 = Array2::<f64>::zeros((k + 1, d));
            let mut u1 = Array2::<f64>::zeros((k, d));
            let mut rows: Vec<Vec<f64>> = vec![];
            let mut fin = vec![];
            for (epoch, it) in iter.iter().enumerate() {
                if epoch % (k + 1) == 0 { rows.clear(); }
                let mut w = vec![0.0; p * t];
                for (i, j) in ws.iter().enumerate() { for q in 0..t { w[j * t + q] = it[i * t + q] as f64; } }
                rows.push(w.clone());
                let f = pr.fit(&w);
                let wsa = Array1::from(ws.clone());
                // the call
                let (w2, f2): (Vec<f64>, Vec<f64>) = if multi {
                    let mut wm = Array2::from_shape_vec((p, t), w.clone()).unwrap() * u;
                    let mut xm = Array2::from_shape_vec((n, t), f.clone()).unwrap();
                    harness::with_multi!(&sc, store, Layout::C, f64, |ds| real(|| anderson_bcd::anderson_accel(&ds, &mut wm, &mut xm, &df, &pn, wsa.view(), &mut last1, &mut u1, epoch, k, verbose)));
                    (wm.iter().map(|v| v / u).collect(), xm.iter().cloned().collect())
                } else {
                    let mut wm = Array1::from(w.clone()) * u;
                    let mut xm = Array1::from(f.clone());
                    harness::with_single!(&sc, store, Layout::C, f64, |ds| real(|| anderson_cd::anderson_accel(&ds, &df, &pn, &mut last1, &mut u1, &mut wm, &mut xm, wsa.view(), epoch, k, verbose)));
                    (wm.iter().map(|v| v / u).collect(), xm.to_vec())
                };
                { let mut a = ans.borrow_mut(); a.ch.step(); a.ch.state(&(k, epoch, w2.iter().map(|v| v.to_bits()).collect::<Vec<_>>(), rows.len())); }
                let unchanged = w2.iter().zip(&w).all(|(a, b)| a.to_bits() == b.to_bits()) && f2.iter().zip(&f).all(|(a, b)| a.to_bits() == b.to_bits());
                fin.extend(w2.iter().cloned());
                if epoch % (k + 1) != k {
                    ensure!(unchanged, "{note}: epoch {epoch} is off the period of {} but the coefficients became {w2:?}, the fit {f2:?}", k + 1);
                    continue;
                }
                // exact Gram matrix of the differences
                let base = epoch - k;
                let diff: Vec<Vec<i128>> = (0..k).map(|r| (0..d).map(|q| (iter[base + r + 1][q] - iter[base + r][q]) as i128).collect()).collect();
                let gram: Vec<Vec<i128>> = (0..k).map(|a| (0..k).map(|b| (0..d).map(|q| diff[a][q] * diff[b][q]).sum()).collect()).collect();
                let dt = det(&gram);
                let gf = Array2::from_shape_fn((k, k), |(a, b)| gram[a][b] as f64);
                if !unchanged {
                    adopted += 1;
                    for j in 0..p { if !ws.contains(&j) { ensure!(w2[j * t..(j + 1) * t].iter().all(|v| *v == 0.0), "{note}: coefficient {j} outside the working set became {:?}", &w2[j * t..(j + 1) * t]); } }
                    let s = 1.0 + w2.iter().fold(0.0f64, |m, v| m.max(v.abs())) * 10.0;
                    ensure!(w2.iter().all(|v| v.is_finite()) && max_diff(&pr.fit(&w2), &f2) <= 1e-9 * s, "{note}: after extrapolating to {w2:?} the fit is {f2:?} instead of {:?}", pr.fit(&w2));
                    let (oa, ob) = { let mut a = ans.borrow_mut(); (a.get(0, f2.clone()) + a.get(1, w2.clone()), a.get(0, f.clone()) + a.get(1, w.clone())) };
                    ensure!(oa < ob, "{note}: extrapolated point {w2:?} adopted at objective {oa}, the current one has {ob}");
                }
                if dt != 0 {
                    // c = C^-1 1 / (1' C^-1 1) through Cramer, exactly up to the last division
                    let z: Vec<i128> = (0..k).map(|c| { let m: Vec<Vec<i128>> = gram.iter().map(|r| { let mut r = r.clone(); r[c] = 1; r }).collect(); det(&m) }).collect();
                    let sum: i128 = z.iter().sum();
                    if sum == 0 { bad!("oracle: weights sum to zero for a positive definite matrix"); }
                    let comb = |shift: usize| -> Vec<f64> { (0..p * t).map(|q| (0..k).map(|r| z[r] * rows[r + shift][q] as i128).sum::<i128>() as f64 / sum as f64).collect() };
                    // conditioning of the small system decides the rounding
                    let cond = gram.iter().flatten().map(|v| v.abs()).max().unwrap_or(1) as f64;
                    let rel = 1e-10 * cond.powi(k as i32) / (dt.abs() as f64) + 1e-9;
                    if rel < 1e-4 {
                        let (a, b) = (comb(0), comb(1));
                        let scale = 1.0 + rows.iter().flatten().chain(&a).fold(0.0f64, |m, v| m.max(v.abs()));
                        if !unchanged { ensure!(max_diff(&w2, &a) <= rel * scale || max_diff(&w2, &b) <= rel * scale, "{note}: extrapolated to {w2:?}; the Anderson combination is {a:?}"); }
                        else if 1e-14 * cond.powi(k as i32) / (dt.abs() as f64) < 5e-9 {
                            let mut q = ans.borrow_mut();
                            let cur = q.get(0, f.clone()) + q.get(1, w.clone());
                            let (oa, ob) = { let mut go = |c: &[f64]| { let fc = pr.fit(c); q.get(0, fc) + q.get(1, c.to_vec()) }; (go(&a), go(&b)) };
                            ensure!(!(oa.is_finite() && cur.is_finite() && oa < cur && ob.is_finite() && ob < cur), "{note}: the extrapolated point {a:?} has objective {oa} < {cur} but was not adopted (w = {w:?})");
                        }
                    }
                } else if solve_lin_sys(gf.view(), Array1::ones(k).view()).is_err() {
                    ensure!(unchanged, "{note}: the extrapolation system is singular, yet the coefficients became {w2:?}");
                }
            }
            let ch = &mut ans.into_inner().ch;
            ch.note(|| note.clone());
            ch.outcome_f(&fin);
            ch.tally("adopted", adopted);
            if adopted == 0 { ch.trivial() }
            Ok(())
        },
    )
}
