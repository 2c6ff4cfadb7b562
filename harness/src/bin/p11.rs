use harness::prelude::*;
use ndarray::{Array1, Array2};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L05, L1, MCP};
use sparseglm::solvers::{anderson_bcd, anderson_cd};

type S = (Vec<f64>, f64);
fn out<F: Fl>(r: (Array1<F>, F)) -> S { (r.0.iter().map(|x| x.d()).collect(), r.1.d()) }
macro_rules! pens { ($pen:expr, $F:ty, |$p:ident| $b:expr) => { match *$pen {
    Pen::L1(a) => { let $p = L1::new(<$F as Fl>::f(a)); $b }
    Pen::En(a, r) => { let $p = L1PlusL2::new(<$F as Fl>::f(a), <$F as Fl>::f(r)); $b }
    Pen::Mcp(a, g) => { let $p = MCP::new(<$F as Fl>::f(a), <$F as Fl>::f(g)); $b }
    Pen::L05(a) => { let $p = L05::new(<$F as Fl>::f(a)); $b }
} } }
macro_rules! bpens { ($pen:expr, $F:ty, |$p:ident| $b:expr) => { match *$pen {
    Pen::L1(a) => { let $p = L21::new(<$F as Fl>::f(a)); $b }
    Pen::En(a, r) => { let $p = BlockL1PlusL2::new(<$F as Fl>::f(a), <$F as Fl>::f(r)); $b }
    Pen::Mcp(a, g) => { let $p = BlockMCP::new(<$F as Fl>::f(a), <$F as Fl>::f(g)); $b }
    Pen::L05(_) => unreachable!(),
} } }
/// score of the solver for a single-task penalty (lipschitz as given)
fn single<F: Fl>(pen: &Pen, w: &[f64], g: &[f64], ws: &[usize], lip: &[f64], lay: Layout) -> S {
    let (w, g, l) = (Buf1::<F>::new(w, lay), Buf1::<F>::new(g, lay), Buf1::<F>::new(lip, lay));
    let ws = Array1::from(ws.to_vec());
    out(real(|| pens!(pen, F, |p| p.optimality_violation(w.view(), g.view(), ws.view(), l.view()))))
}
fn single_sub<F: Fl>(pen: &Pen, w: &[f64], g: &[f64], ws: &[usize], lay: Layout) -> S {
    let (w, g) = (Buf1::<F>::new(w, lay), Buf1::<F>::new(g, lay));
    let ws = Array1::from(ws.to_vec());
    out(real(|| pens!(pen, F, |p| p.subdiff_distance(w.view(), g.view(), ws.view()))))
}
fn block<F: Fl>(pen: &Pen, w: &[f64], g: &[f64], ws: &[usize], p: usize, t: usize, lay: Layout) -> S {
    let (w, g) = (Buf2::<F>::new(w, p, t, lay), Buf2::<F>::new(g, ws.len(), t, lay));
    let ws = Array1::from(ws.to_vec());
    out(real(|| bpens!(pen, F, |q| q.subdiff_distance(w.view(), g.view(), ws.view()))))
}
fn want(pen: &Pen, w: &[f64], g: &[f64], lip: f64) -> Vec<f64> {
    if let Pen::L05(_) = pen {
        if lip == 0.0 { return vec![0.0] }
        let v = w[0] - g[0] / lip;
        let (best, c) = pen.prox_best(v.abs(), 1.0 / lip);
        let val = |z: f64| 0.5 * (z - v.abs()).powi(2) + pen.phi(z) / lip;
        return c.iter().filter(|z| val(**z) <= best + 1e-9).map(|z| (w[0] - v.signum() * z).abs()).collect();
    }
    vec![pen.dist(w, g)]
}
fn judge(pen: &Pen, got: &S, wants: &[Vec<f64>], tol: f64, what: &str) -> Res {
    ensure!(got.0.len() == wants.len(), "{what} {pen:?}: {} scores for {} selected features", got.0.len(), wants.len());
    for (k, (s, w)) in got.0.iter().zip(wants).enumerate() {
        ensure!(w.iter().any(|x| close(*s, *x, tol)), "{what} {pen:?}: score {k} is {s}, distance is {w:?}");
    }
    let m = got.0.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    ensure!(got.1 == m, "{what} {pen:?}: reported maximum {} of scores {:?}", got.1, got.0);
    Ok(())
}
fn selection(ch: &mut Ch, p: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..p).collect();
    let k = 1 + ch.pick(p);
    (0..k).map(|_| { let i = ch.pick(left.len()); left.remove(i) }).collect()
}

fn main() {
    harness::explore::main(
        Spec { id: "P11", level: "exploration",
            rule: "every (penalty, hyperparameters, coefficients, gradient, ordered selection of features, layout, precision), directly on the penalty and through the solver's violation functions on small designs; distinct by scores; trivial = all coefficients zero",
            alphabet: "coefficients 0, +-.5, +-1, the MCP breakpoint, 5; gradients that cancel the penalty exactly and others; every ordered selection of 1..3 features; rows of 1..3 tasks",
            bounds: "patterned vectors of 9..1100 features and up to 130 tasks; 3 features (2 for three tasks); selections of every size and order",
            assumptions: &["L0.5 is scored by its fixed-point violation, for which the subdifferential is uninformative at zero"] },
        |ch| {
            match ch.pick(4) {
                3 => {
                    // many features, many tasks, long selections
                    let f32b = ch.flag();
                    let a = *ch.of(&[0.5, 1.0]);
                    let t = *ch.of(&[0, 1, 4, 30, 130]); // 0: the single-task penalties
                    let pen = match ch.pick(if t > 0 { 3 } else { 4 }) { 0 => Pen::L1(a), 1 => Pen::En(a, 0.25), 2 => Pen::Mcp(a, 2.0), _ => Pen::L05(a) };
                    let p = *ch.of(&[9, 70, 300, 1100]);
                    let q = t.max(1);
                    let z = ch.pick(3);
                    let row = |m: f64, i: usize| -> Vec<f64> { (0..q).map(|k| match z { 0 => m / (q as f64).sqrt() * if k % 2 == 0 { 1.0 } else { -1.0 }, 1 => if k + 1 == q { m } else { 0.0 }, _ => if k == i % q { -m } else { 0.0 } }).collect() };
                    let w: Vec<f64> = (0..p).flat_map(|j| row([0.0, 0.5, 0.0, 1.75, -0.25, 5.0, 0.0][j % 7], j)).collect();
                    let ws: Vec<usize> = match ch.pick(4) { 0 => (0..p).collect(), 1 => (0..p).rev().collect(), 2 => (0..p).filter(|j| j % 3 == 1).collect(), _ => (0..p).map(|j| (j * 4 + 1) % p).take(p / 4).collect() };
                    let top = ch.pick(3);
                    let gr: Vec<f64> = ws.iter().enumerate().flat_map(|(k, &j)| row(if k == [0, ws.len() / 2, ws.len() - 1][top] { 40.0 } else { [0.75, -1.25, 0.1, 0.0, 2.0][(j + k) % 5] }, j + 1)).collect();
                    let lip: Vec<f64> = (0..p).map(|j| [2.0, 0.5, 0.0, 1.0][j % 4]).collect();
                    let lay = *ch.of(&[Layout::C, Layout::Strided]);
                    ch.note(|| format!("{pen:?} f32={f32b} {lay:?} {p} features, tasks {t} (0: single), directions {z}, selection {:?}.., largest gradient at {top}", &ws[..4.min(ws.len())]));
                    let got = if t == 0 { if f32b { single::<f32>(&pen, &w, &gr, &ws, &lip, lay) } else { single::<f64>(&pen, &w, &gr, &ws, &lip, lay) } } else if f32b { block::<f32>(&pen, &w, &gr, &ws, p, t, lay) } else { block::<f64>(&pen, &w, &gr, &ws, p, t, lay) };
                    let wants: Vec<Vec<f64>> = ws.iter().enumerate().map(|(k, &j)| if t == 0 { want(&pen, &w[j..j + 1], &gr[k..k + 1], lip[j]) } else { vec![pen.dist(&w[j * t..(j + 1) * t], &gr[k * t..(k + 1) * t])] }).collect();
                    ch.outcome_f(&got.0);
                    judge(&pen, &got, &wants, if f32b { 1e-3 } else { 1e-9 }, "violation")
                }
                0 => {
                    let f32b = ch.flag();
                    let a = *ch.of(by_tier(&[0.0, 0.5, 1.0][..], &[0.0, 0.3, 0.5, 1.0, 2.5][..]));
                    let pen = match ch.pick(4) { 0 => Pen::L1(a), 1 => Pen::En(a, *ch.of(&[0.0, 0.25, 1.0])), 2 => Pen::Mcp(a, *ch.of(&[1.0, 2.0, f64::INFINITY])), _ => Pen::L05(a) };
                    if let Pen::Mcp(a, g) = pen { if a == 0.0 && g.is_infinite() { ch.skip() } }
                    let lay = *ch.of(&[Layout::C, Layout::Strided]);
                    let tiny = 2f64.powi(-60);
                    let mut ws_ = vec![0.0, 0.5, -1.0, 5.0, -tiny];
                    if let Pen::Mcp(a, g) = pen { if g.is_finite() { ws_.push(-a * g); } }
                    let p = *ch.of(&[3, 1]);
                    let w: Vec<f64> = (0..p).map(|_| *ch.of(&ws_)).collect();
                    let ws = selection(ch, p);
                    let gr: Vec<f64> = ws.iter().map(|&j| match ch.pick(by_tier(3, 4)) { 0 => 0.75, 1 => if w[j] == 0.0 { -pen.radius().min(9.0) } else { -w[j].signum() * pen.dphi(w[j].abs()) }, 2 => -1.25, _ => 0.0 }).collect();
                    let lip: Vec<f64> = [2.0, 0.0, 0.5][..p].to_vec();
                    ch.note(|| format!("{pen:?} f32={f32b} {lay:?} w={w:?} selection={ws:?} gradient={gr:?}"));
                    if w.iter().all(|x| *x == 0.0) { ch.trivial() }
                    let got = if f32b { single::<f32>(&pen, &w, &gr, &ws, &lip, lay) } else { single::<f64>(&pen, &w, &gr, &ws, &lip, lay) };
                    let wants: Vec<Vec<f64>> = ws.iter().zip(&gr).map(|(&j, g)| want(&pen, &[w[j]], &[*g], lip[j])).collect();
                    ch.outcome_f(&got.0);
                    judge(&pen, &got, &wants, if f32b { 1e-4 } else { 1e-12 }, "violation")?;
                    if !matches!(pen, Pen::L05(_)) {
                        let got = if f32b { single_sub::<f32>(&pen, &w, &gr, &ws, lay) } else { single_sub::<f64>(&pen, &w, &gr, &ws, lay) };
                        judge(&pen, &got, &wants, if f32b { 1e-4 } else { 1e-12 }, "subdifferential distance")?;
                    }
                    Ok(())
                }
                1 => {
                    let f32b = ch.flag();
                    let a = *ch.of(&[0.0, 0.5, 1.0]);
                    let pen = match ch.pick(3) { 0 => Pen::L1(a), 1 => Pen::En(a, *ch.of(&[0.0, 0.25, 1.0])), _ => Pen::Mcp(a, *ch.of(&[1.0, 2.0, f64::INFINITY])) };
                    if let Pen::Mcp(a, g) = pen { if a == 0.0 && g.is_infinite() { ch.skip() } }
                    let lay = *ch.of(&[Layout::C, Layout::Strided, Layout::F]);
                    let t = 1 + ch.pick(3);
                    let p = if t == 3 { 2 } else { by_tier(2, 3) };
                    let dirs: &[&[f64]] = match t { 1 => &[&[1.0], &[-1.0]], 2 => &[&[0.6, -0.8], &[0.0, 1.0]], _ => &[&[2.0 / 3.0, -1.0 / 3.0, 2.0 / 3.0], &[0.0, 0.0, -1.0]] };
                    let mut mags = vec![0.0, 0.5, 5.0, 2f64.powi(-60)];
                    if let Pen::Mcp(a, g) = pen { if g.is_finite() { mags.push(a * g); } }
                    let mut w = vec![];
                    for _ in 0..p { let m = *ch.of(&mags); let d = if m == 0.0 { dirs[0] } else { *ch.of(dirs) }; w.extend(d.iter().map(|x| x * m)); }
                    let ws = selection(ch, p);
                    let mut gr: Vec<f64> = vec![];
                    for &j in &ws {
                        let wj = &w[j * t..(j + 1) * t];
                        let u = norm(wj);
                        match ch.pick(4) {
                            0 => gr.extend(dirs[1].iter().map(|x| x * 0.75)),
                            1 => if u == 0.0 { gr.extend(dirs[0].iter().map(|x| x * pen.radius())) } else { gr.extend(wj.iter().map(|x| -x / u * pen.dphi(u))) },
                            2 => gr.extend((0..t).map(|k| [1.25, -2.0, 0.5][k])),
                            _ => gr.extend(vec![0.0; t]),
                        }
                    }
                    ch.note(|| format!("{pen:?} f32={f32b} {lay:?} tasks={t} W={w:?} selection={ws:?} gradient={gr:?}"));
                    if w.iter().all(|x| *x == 0.0) { ch.trivial() }
                    let got = if f32b { block::<f32>(&pen, &w, &gr, &ws, p, t, lay) } else { block::<f64>(&pen, &w, &gr, &ws, p, t, lay) };
                    let wants: Vec<Vec<f64>> = ws.iter().enumerate().map(|(k, &j)| vec![pen.dist(&w[j * t..(j + 1) * t], &gr[k * t..(k + 1) * t])]).collect();
                    ch.outcome_f(&got.0);
                    // at the breakpoint itself either branch gives the same distance; the square root of a rounded zero is not zero
                    judge(&pen, &got, &wants, if f32b { 2e-4 } else { 1e-9 }, "block subdifferential distance")
                }
                _ => {
                    // through the solver on small designs: the gradient is the loss's own
                    let lg = ch.flag();
                    let t = if lg { 1 } else { 1 + ch.pick(2) };
                    let variant = ch.pick(by_tier(3, 8));
                    let pr = int_pattern(*ch.of(&[2, 4]), 3, t, variant, lg);
                    let a = *ch.of(&[0.25, 1.0]);
                    let multi = t > 1 || (!lg && ch.flag());
                    let pen = match ch.pick(if multi { 3 } else { 4 }) { 0 => Pen::L1(a), 1 => Pen::En(a, 0.5), 2 => Pen::Mcp(a, 3.0), _ => Pen::L05(a) };
                    let w: Vec<f64> = (0..3 * t).map(|k| if k % 2 == 1 && t == 2 { w_tail(k) } else { *ch.of(&[0.0, 0.5, -3.0]) }).collect();
                    let w: Vec<f64> = if t == 2 { w.chunks(2).flat_map(|r| if r[0] == 0.0 { vec![0.0, 0.0] } else { r.to_vec() }).collect() } else { w };
                    let ws = selection(ch, 3);
                    let store = *ch.of(&[Store::Dense(Layout::C), Store::Sparse(Csc::Sorted)]);
                    ch.note(|| format!("solver violation {pen:?} {store:?} w={w:?} selection={ws:?} {}", pr.show()));
                    let loss = if lg { Loss::Logistic } else { Loss::Quad };
                    let f = pr.fit(&w);
                    let g = grad_at_fit(loss, &pr, &f);
                    let wsa = Array1::from(ws.clone());
                    let got = if multi {
                        let wa = Array2::from_shape_vec((3, t), w.clone()).unwrap();
                        let fa = Array2::from_shape_vec((pr.n, t), f.clone()).unwrap();
                        harness::with_multi!(&pr, store, Layout::C, f64, |ds| {
                            let mut df = QuadraticMultiTask::<f64>::new();
                            df.initialize(&ds);
                            out(real(|| bpens!(&pen, f64, |q| anderson_bcd::opt_cond_violation(&ds, wa.view(), fa.view(), wsa.view(), &df, &q))))
                        })
                    } else {
                        let wa = Array1::from(w.clone());
                        let fa = Array1::from(f.clone());
                        harness::with_single!(&pr, store, Layout::C, f64, |ds| if lg {
                            let mut df = Logistic::<f64>::new();
                            df.initialize(&ds);
                            out(real(|| pens!(&pen, f64, |q| anderson_cd::opt_cond_violation(&ds, wa.view(), fa.view(), wsa.view(), &df, &q))))
                        } else {
                            let mut df = Quadratic::<f64>::new();
                            df.initialize(&ds);
                            out(real(|| pens!(&pen, f64, |q| anderson_cd::opt_cond_violation(&ds, wa.view(), fa.view(), wsa.view(), &df, &q))))
                        })
                    };
                    ch.outcome_f(&got.0);
                    let wants: Vec<Vec<f64>> = ws.iter().map(|&j| want_any(&pen, &w[j * t..(j + 1) * t], &g[j * t..(j + 1) * t], curvature(loss, &pr, j))).collect();
                    judge(&pen, &got, &wants, 1e-9, "solver violation")
                }
            }
        },
    )
}
fn w_tail(k: usize) -> f64 { [0.0, 1.5, 0.0, -0.5, 0.0, 2.0][k] }
fn want_any(pen: &Pen, w: &[f64], g: &[f64], lip: f64) -> Vec<f64> { if w.len() == 1 { want(pen, w, g, lip) } else { vec![pen.dist(w, g)] } }
