//! Enumerated problem spaces. Everything is built from explicit choices; nothing is random.
use crate::explore::{by_tier, Ch};
use crate::oracle::{Loss, Pen, Prob, grad, norm};

/// all matrices n x p over an alphabet
pub fn tiny(ch: &mut Ch, shapes: &[(usize, usize, usize)], xs: &[f64], ys: &[f64]) -> Prob {
    let (n, p, t) = *ch.of(shapes);
    let x = (0..n * p).map(|_| *ch.of(xs)).collect();
    let mut y: Vec<f64> = (0..n * t).map(|_| *ch.of(ys)).collect();
    // a null first task among others
    if t > 1 && !ys.contains(&0.0) && y.chunks(t).all(|r| r[0] == ys[0]) && ch.flag() { for r in y.chunks_mut(t) { r[0] = 0.0 } }
    Prob { n, p, t, x, y }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Deco { Plain, Sparse, ZeroCol, DupCol, NegDupCol, Scaled, Ill, OneSign }
pub const DECOS: [Deco; 8] = [Deco::Plain, Deco::Sparse, Deco::ZeroCol, Deco::DupCol, Deco::NegDupCol, Deco::Scaled, Deco::Ill, Deco::OneSign];

fn mixint(a: u64) -> u64 { // splitmix64 finaliser: a fixed arithmetic pattern, not a source of choices
    let mut z = a.wrapping_add(0x9E3779B97F4A7C15).wrapping_mul(0xBF58476D1CE4E5B9);
    z ^= z >> 27; z = z.wrapping_mul(0x94D049BB133111EB); z ^= z >> 31; z
}

/// pattern design: entry (i,j) is a fixed arithmetic function of (i, j, variant)
pub fn pattern(n: usize, p: usize, t: usize, variant: usize, deco: Deco, logistic: bool) -> Prob {
    let e = |i: usize, j: usize, v: usize| -> f64 { ((mixint((i * 1009 + j * 9176 + v * 77003) as u64) % 2001) as f64 - 1000.0) / 500.0 };
    let mut x = vec![0.0; n * p];
    for i in 0..n { for j in 0..p {
        let mut v = e(i, j, variant);
        match deco {
            Deco::Sparse => if mixint((i * 31 + j * 17 + variant) as u64) % 4 != 0 { v = 0.0 },
            Deco::ZeroCol => if j % 3 == 1 { v = 0.0 },
            Deco::DupCol => if j % 2 == 1 { v = e(i, j - 1, variant) },
            Deco::NegDupCol => if j % 2 == 1 { v = -2.0 * e(i, j - 1, variant) },
            Deco::Scaled => v *= [1.0, 10.0, 0.1][j % 3],
            Deco::Ill => v = e(i, 0, variant) + 0.3 * v,
            Deco::OneSign => v = v.abs(),
            Deco::Plain => {}
        }
        x[i * p + j] = v;
    } }
    let mut y = vec![0.0; n * t];
    for k in 0..t { for i in 0..n {
        // planted signal on a few features plus a pattern
        let mut s = 0.4 * e(i, 5000 + k, variant);
        for (q, j) in [0usize, 2, 7, 11, 63].iter().enumerate() { if *j < p { s += x[i * p + j] * [1.5, -1.0, 0.7, 2.0, -1.2][(q + k) % 5]; } }
        if deco == Deco::OneSign { s = -s.abs(); }
        if t > 1 && variant == 1 && k == 0 { s = 0.0 } // a null first task
        y[i * t + k] = if logistic { if s >= 0.0 { 1.0 } else { -1.0 } } else { s };
    } }
    Prob { n, p, t, x, y }
}

/// critical strength of the L1 family at w = 0 (largest group correlation / n), independent of the crate
pub fn crit(loss: Loss, pr: &Prob) -> f64 {
    let g = grad(loss, pr, &vec![0.0; pr.p * pr.t]);
    g.chunks(pr.t.max(1)).map(norm).fold(0.0, f64::max)
}

/// scaled penalty: strength = frac * critical (or frac itself if the critical strength is zero)
pub fn at_frac(loss: Loss, pr: &Prob, pen: Pen, frac: f64) -> Pen {
    let c = crit(loss, pr);
    pen.with_alpha(if c > 0.0 { frac * c } else { frac })
}
pub fn mean_scale(pr: &Prob) -> f64 {
    let mx = pr.x.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    let my = pr.y.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    1.0 + mx * mx + mx * my
}

/// Deviation-bounded choices: every combination with at most `left` departures from the defaults (option 0), each once.
pub struct Dev { pub left: usize }
impl Dev {
    pub fn new(left: usize) -> Dev { Dev { left } }
    pub fn pick(&mut self, ch: &mut Ch, n: usize) -> usize {
        if self.left == 0 || n == 1 { return 0; }
        let k = ch.pick(n);
        if k > 0 { self.left -= 1; }
        k
    }
    pub fn of<'a, T>(&mut self, ch: &mut Ch, xs: &'a [T]) -> &'a T { &xs[self.pick(ch, xs.len())] }
}

/// solver settings: default first, then departures
pub fn cfg_dev(ch: &mut Ch, dev: &mut Dev, p: usize, base: crate::real::Cfg, tols: &[f64]) -> crate::real::Cfg {
    let mut c = base;
    let wss = [c.ws, 1, 2, 3, 5, p.max(1), p + 5, 17];
    c.ws = *dev.of(ch, &wss);
    let ks = [c.k, 1, 2, 3, 4, 6, 7, 8, 10, 15];
    c.k = *dev.of(ch, &ks);
    c.acc = *dev.of(ch, &[true, false]);
    c.tol = *dev.of(ch, tols);
    c.verbose = *dev.of(ch, &[false, true]);
    c
}
pub const SHAPES_Q: [(usize, usize); 9] = [(6, 4), (1, 1), (1, 4), (5, 1), (4, 12), (12, 5), (20, 20), (10, 45), (8, 140)];
pub const SHAPES_T: [(usize, usize); 14] = [(6, 4), (1, 1), (1, 4), (5, 1), (2, 2), (4, 12), (12, 5), (20, 20), (10, 45), (33, 17), (64, 30), (8, 140), (3, 300), (150, 70)];

/// shape x decoration fully, variant and tasks by deviation
pub fn pattern_case(ch: &mut Ch, dev: &mut Dev, shapes: &[(usize, usize)], tasks: &[usize], variants: usize, logistic: bool) -> (Prob, Deco) {
    let (n, p) = *ch.of(shapes);
    let deco = *ch.of(&DECOS);
    let t = *dev.of(ch, tasks);
    let v = dev.pick(ch, variants);
    (pattern(n, p, t, v, deco, logistic), deco)
}
/// largest 1/curvature over non-empty columns
pub fn max_step(loss: Loss, pr: &Prob) -> f64 {
    (0..pr.p).map(|j| crate::oracle::curvature(loss, pr, j)).filter(|l| *l > 0.0).map(|l| 1.0 / l).fold(0.0, f64::max)
}
pub const STORES4: [crate::real::Store; 4] = [crate::real::Store::Dense(crate::real::Layout::C), crate::real::Store::Sparse(crate::real::Csc::Sorted), crate::real::Store::Dense(crate::real::Layout::F), crate::real::Store::Sparse(crate::real::Csc::MixedZeros)];

/// The same problem in other units (powers of two: the run is the same bit for bit up to the exponent): quadratic: design and targets times u, coefficients unchanged; logistic: design times u, coefficients divided.
pub struct Units { pub pr: Prob, pub pen: Pen, pub tol: f64, pub w: f64 }
pub const UNITS: [f64; 3] = [1.0, 1.0 / 1073741824.0, 1073741824.0];
pub fn in_units(loss: Loss, pr: &Prob, pen: &Pen, u: f64) -> Units {
    let mut q = pr.clone();
    for v in q.x.iter_mut() { *v *= u }
    let (g, w) = match loss { Loss::Quad => { for v in q.y.iter_mut() { *v *= u } (u * u, 1.0) } Loss::Logistic => (u, 1.0 / u) };
    let (pen, tol) = match *pen {
        Pen::L1(a) => (Pen::L1(a * g), g),
        Pen::Mcp(a, m) => (Pen::Mcp(a * g, m / (u * u)), g),
        Pen::L05(a) => (Pen::L05(if loss == Loss::Quad { a * g } else { a * u.sqrt() }), w),
        Pen::En(a, r) => { assert!(loss == Loss::Quad || u == 1.0); (Pen::En(a * g, r), g) }
    };
    Units { pr: q, pen, tol, w }
}

/// `fit` in other units, coefficients brought back; a penalty that does not exist in those units is not part of the space
#[allow(clippy::too_many_arguments)]
pub fn fit_u(ch: &mut Ch, pr: &Prob, loss: Loss, pen: &Pen, c: &crate::real::Cfg, api: crate::real::Api, task: crate::real::Task, store: crate::real::Store, unit: f64) -> Result<Vec<f64>, crate::explore::Failure> {
    use crate::real::*;
    if unit == 1.0 { return ok(fit(pr, loss, pen, c, api, task, store)); }
    if loss == Loss::Logistic && matches!(pen, Pen::En(..)) { ch.skip() }
    let u = in_units(loss, pr, pen, unit);
    if let Pen::Mcp(_, g) = u.pen { if g < 1.0 { ch.skip() } }
    let mut w = ok(fit(&u.pr, loss, &u.pen, &Cfg { tol: c.tol * u.tol, ..*c }, api, task, store))?;
    for v in w.iter_mut() { *v /= u.w }
    Ok(w)
}

/// fits and compares the recomputed optimality violation with the tolerance
pub fn check_kkt(ch: &mut Ch, pr: &Prob, loss: Loss, pen: &Pen, c: &crate::real::Cfg, api: crate::real::Api, task: crate::real::Task, store: crate::real::Store, unit: f64) -> crate::explore::Res {
    use crate::{ensure, oracle::*};
    ch.note(|| format!("{loss:?} {pen:?} {api:?} {task:?} {store:?} {c:?} unit {unit:e} {}", pr.show()));
    let w = fit_u(ch, pr, loss, pen, c, api, task, store, unit)?;
    ensure!(w.len() == pr.p * pr.t, "{} coefficients for {} features x {} tasks", w.len(), pr.p, pr.t);
    ensure!(w.iter().all(|v| v.is_finite()), "non-finite coefficients {w:?}");
    ch.outcome_f(&w);
    if w.iter().all(|&v| v == 0.0) { ch.trivial() }
    let (v, j) = if let Pen::L05(_) = pen { fixed_point_gap(loss, pen, pr, &w) } else { kkt(loss, pen, pr, &w) };
    ensure!(v <= c.tol * (1.0 + 1e-6) + 1e-11 * mean_scale(pr), "optimality violation {v:e} at feature {j} exceeds tolerance {:e}; w = {w:?}", c.tol);
    Ok(())
}

/// every sample three times with its label and once with the opposite one: the logistic loss is then coercive
pub fn overlap(pr: &Prob) -> Prob {
    let mut q = Prob { n: 4 * pr.n, p: pr.p, t: 1, x: vec![], y: vec![] };
    for i in 0..pr.n { for k in 0..4 { q.x.extend_from_slice(&pr.x[i * pr.p..(i + 1) * pr.p]); q.y.push(if k == 3 { -pr.y[i] } else { pr.y[i] }); } }
    q
}

/// Two fits of one problem obtained in different ways: same objective, same coefficients when the solution is unique.
pub fn same_solution(pr: &Prob, loss: Loss, pen: &Pen, a: &[f64], b: &[f64], tol: f64, what: &str) -> crate::explore::Res {
    use crate::{ensure, oracle::*};
    ensure!(a.len() == b.len(), "{what}: {} versus {} coefficients", a.len(), b.len());
    ensure!(a.iter().chain(b).all(|v| v.is_finite()), "{what}: non-finite coefficients {a:?} / {b:?}");
    let (oa, ob) = (objective(loss, pen, pr, a), objective(loss, pen, pr, b));
    ensure!((oa - ob).abs() <= 1e-8f64.max(100.0 * tol) * (1.0 + oa.abs()), "{what}: objectives {oa} and {ob} differ; {a:?} vs {b:?}");
    let mu = if let Pen::En(al, r) = pen { al * (1.0 - r) } else { 0.0 };
    let strong = mu > 1e-4;
    if strong || (loss == Loss::Quad && pen.convex() && full_column_rank(pr)) {
        let t = if strong { 1e-7f64.max(50.0 * tol * (pr.p as f64).sqrt() / mu) } else { 1e-5f64.max(1e4 * tol) };
        let s = 1.0 + b.iter().fold(0.0f64, |x, y| x.max(y.abs()));
        ensure!(max_diff(a, b) <= t * s, "{what}: coefficients differ by {:e}: {a:?} vs {b:?}", max_diff(a, b));
    }
    Ok(())
}
/// Rows spread apart so that column rank is full whenever it can be; integer entries.
pub fn int_pattern(n: usize, p: usize, t: usize, variant: usize, logistic: bool) -> Prob {
    let e = |i: usize, j: usize| -> f64 { (mixint((i * 811 + j * 3571 + variant * 9973) as u64) % 7) as f64 - 3.0 };
    let x = (0..n * p).map(|k| e(k / p.max(1), k % p.max(1))).collect();
    let y = (0..n * t).map(|k| { let v = e(k / t + 500, k % t + 90); if logistic { if v >= 0.0 { 1.0 } else { -1.0 } } else { v } }).collect();
    Prob { n, p, t, x, y }
}

/// Two features whose violation at zero differs by rounding only: the order in which they are cycled is then not determined.
pub fn near_tie(loss: Loss, pr: &Prob) -> bool {
    let g = grad(loss, pr, &vec![0.0; pr.p * pr.t]);
    let mut v: Vec<f64> = g.chunks(pr.t.max(1)).map(norm).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.windows(2).any(|a| (a[1] - a[0]).abs() < 1e-9)
}

/// Two features with the same score at zero, the null scores included: two routines may cycle them in different orders.
pub fn near_tie_scores(loss: Loss, pr: &Prob, pen: &Pen) -> bool {
    let g = grad(loss, pr, &vec![0.0; pr.p * pr.t]);
    let mut v: Vec<f64> = (0..pr.p).filter(|j| pr.col_sq(*j) > 0.0).map(|j| (norm(&g[j * pr.t..(j + 1) * pr.t]) - pen.radius()).max(0.0)).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.windows(2).any(|a| (a[1] - a[0]).abs() < 1e-9)
}

/// Nearly collinear columns: from hundreds of thousands of epochs (or outer iterations of one epoch) down to a few hundred until a plain run has converged.
pub fn slow(ch: &mut Ch, t: usize, logistic: bool) -> Prob {
    let e = *ch.of(by_tier(&[0.03, 0.1][..], &[0.03, 0.1, 0.01][..]));
    let p = 2 + ch.pick(2);
    let (n, base) = (6usize, [1.0, 0.8, 1.2, -0.9, 1.1, -1.0]);
    let off = [[1.0, -1.0, 0.5, 1.0, -0.3, 0.6], [-0.7, 0.2, 1.0, 0.4, 0.9, -1.1]];
    let x = (0..n * p).map(|k| { let (i, j) = (k / p, k % p); if j == 0 { base[i] } else { base[i] + e * off[j - 1][i] } }).collect();
    let y = (0..n * t).map(|q| { let (i, k) = (q / t, q % t); let v = base[i] * (1.0 + k as f64) + off[k % 2][i] * 0.3; if logistic { if i == 2 || v < 0.0 { -1.0 } else { 1.0 } } else { v } }).collect();
    Prob { n, p, t, x, y }
}
/// Columns of very different size, all of them needed: a small problem whose columns are multiplied by powers of two. Second: the smallest multiplier, in which strength and tolerance have to be given for the smallest column to matter.
pub fn lopsided(ch: &mut Ch, t: usize, logistic: bool) -> (Prob, f64) {
    let (n, p) = *ch.of(&[(8, 2), (12, 3), (30, 4)]);
    let s: f64 = *ch.of(&[1.0 / 16384.0, 1.0 / 1048576.0, 1.0 / 64.0]);
    let side = ch.pick(3);
    let which = ch.pick(p);
    let mut pr = pattern(n, p, t, 0, Deco::Plain, logistic);
    // one small column, all but one small, or a ladder
    let m: Vec<f64> = (0..p).map(|j| match side { 0 => if j == which { s } else { 1.0 }, 1 => if j == which { 1.0 } else { s }, _ => s.powf(((j + which) % p) as f64 / (p - 1) as f64).log2().round().exp2() }).collect();
    for i in 0..n { for j in 0..p { pr.x[i * p + j] *= m[j] } }
    (pr, s)
}
/// budgets under which a slow problem still converges: few long outer iterations, or many short ones
pub const LONG: [(usize, usize); 3] = [(500, 3_000_000), (3_000_000, 1), (1_000_000, 7)];
