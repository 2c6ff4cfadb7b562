//! Independent definitions of the documented objectives, on dense row-major f64 data.

#[derive(Clone, Debug, PartialEq)]
pub struct Prob {
    pub n: usize,
    pub p: usize,
    pub t: usize,
    pub x: Vec<f64>,
    pub y: Vec<f64>,
}
impl Prob {
    pub fn xa(&self, i: usize, j: usize) -> f64 { self.x[i * self.p + j] }
    pub fn ya(&self, i: usize, k: usize) -> f64 { self.y[i * self.t + k] }
    pub fn show(&self) -> String {
        if self.n * self.p > 60 { return format!("n={} p={} t={} (pattern)", self.n, self.p, self.t); }
        format!("n={} p={} t={} X={:?} Y={:?}", self.n, self.p, self.t, self.x, self.y)
    }
    /// X w, row-major n x t
    pub fn fit(&self, w: &[f64]) -> Vec<f64> {
        let mut f = vec![0.0; self.n * self.t];
        for i in 0..self.n { for j in 0..self.p { let x = self.xa(i, j); if x != 0.0 { for k in 0..self.t { f[i * self.t + k] += x * w[j * self.t + k]; } } } }
        f
    }
    pub fn col_sq(&self, j: usize) -> f64 { (0..self.n).map(|i| self.xa(i, j).powi(2)).sum() }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Loss { Quad, Logistic }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pen { L1(f64), En(f64, f64), Mcp(f64, f64), L05(f64) }

impl Pen {
    pub fn alpha(&self) -> f64 { match *self { Pen::L1(a) | Pen::En(a, _) | Pen::Mcp(a, _) | Pen::L05(a) => a } }
    pub fn with_alpha(&self, a: f64) -> Pen { match *self { Pen::L1(_) => Pen::L1(a), Pen::En(_, r) => Pen::En(a, r), Pen::Mcp(_, g) => Pen::Mcp(a, g), Pen::L05(_) => Pen::L05(a) } }
    /// slope at zero of the convex families and MCP (half-power: infinite)
    pub fn l1_part(&self) -> f64 { match *self { Pen::L1(a) | Pen::Mcp(a, _) => a, Pen::En(a, r) => a * r, Pen::L05(_) => f64::INFINITY } }
    pub fn convex(&self) -> bool { matches!(self, Pen::L1(_) | Pen::En(..)) }
    /// phi(u), u = |w_j| or ||W_j|| >= 0
    pub fn phi(&self, u: f64) -> f64 {
        match *self {
            Pen::L1(a) => a * u,
            Pen::En(a, r) => a * (r * u + (1.0 - r) * u * u / 2.0),
            Pen::Mcp(a, g) => if u <= a * g { a * u - if g.is_infinite() { 0.0 } else { u * u / (2.0 * g) } } else { a * a * g / 2.0 },
            Pen::L05(a) => a * u.sqrt(),
        }
    }
    /// phi'(u) for u > 0
    pub fn dphi(&self, u: f64) -> f64 {
        match *self {
            Pen::L1(a) => a,
            Pen::En(a, r) => a * r + a * (1.0 - r) * u,
            Pen::Mcp(a, g) => if u < a * g { a - u / g } else { 0.0 },
            Pen::L05(a) => a / (2.0 * u.sqrt()),
        }
    }
    /// radius of the subdifferential at zero
    pub fn radius(&self) -> f64 {
        match *self { Pen::L1(a) => a, Pen::En(a, r) => a * r, Pen::Mcp(a, _) => a, Pen::L05(_) => f64::INFINITY }
    }
    /// distance of -g to the subdifferential at w (row of length T)
    pub fn dist(&self, w: &[f64], g: &[f64]) -> f64 {
        let u = norm(w);
        if w.iter().all(|&x| x == 0.0) { return (norm(g) - self.radius()).max(0.0); }
        let d = self.dphi(u);
        w.iter().zip(g).map(|(wi, gi)| (gi + d * wi / u).powi(2)).sum::<f64>().sqrt()
    }
    pub fn value(&self, w: &[f64], t: usize) -> f64 { w.chunks(t.max(1)).map(|r| self.phi(norm(r))).sum() }
    /// global minimum value over z >= 0 of (z - v)^2/2 + s*phi(z), and its minimiser(s), by cases
    pub fn prox_best(&self, v: f64, s: f64) -> (f64, Vec<f64>) {
        // candidates: 0, stationary points in every region, region ends
        let mut c = vec![0.0];
        match *self {
            Pen::L1(a) => c.push(v - s * a),
            Pen::En(a, r) => c.push((v - s * a * r) / (1.0 + s * a * (1.0 - r))),
            Pen::Mcp(a, g) => { c.push(v); c.push(a * g); if s != g { c.push((v - s * a) / (1.0 - s / g)); } }
            Pen::L05(a) => {
                // z - v + s a / (2 sqrt z) = 0: largest root by bisection on [z_c, v], z_c = (s a/4)^(2/3) the curvature change
                let f = |z: f64| z - v + s * a / (2.0 * z.sqrt());
                let zc = (s * a / 4.0f64).powf(2.0 / 3.0);
                if s * a == 0.0 { c.push(v) } else if v > zc && f(zc) < 0.0 {
                    let (mut lo, mut hi) = (zc, v);
                    for _ in 0..200 { let m = 0.5 * (lo + hi); if f(m) < 0.0 { lo = m } else { hi = m } }
                    c.push(0.5 * (lo + hi));
                }
            }
        }
        c.retain(|z| *z >= 0.0 && z.is_finite());
        let val = |z: f64| 0.5 * (z - v) * (z - v) + s * self.phi(z);
        let best = c.iter().map(|&z| val(z)).fold(f64::INFINITY, f64::min);
        (best, c)
    }
}

pub fn norm(w: &[f64]) -> f64 { if w.len() == 1 { w[0].abs() } else { w.iter().map(|x| x * x).sum::<f64>().sqrt() } }

pub fn loss_value(loss: Loss, pr: &Prob, f: &[f64]) -> f64 {
    match loss {
        Loss::Quad => f.iter().zip(&pr.y).map(|(a, b)| (a - b) * (a - b)).sum::<f64>() / (2.0 * pr.n as f64),
        Loss::Logistic => f.iter().zip(&pr.y).map(|(a, b)| { let m = -a * b; if m > 0.0 { m + (-m).exp().ln_1p() } else { m.exp().ln_1p() } }).sum::<f64>() / pr.n as f64,
    }
}
/// gradient, row-major p x t
pub fn grad(loss: Loss, pr: &Prob, w: &[f64]) -> Vec<f64> {
    let f = pr.fit(w);
    grad_at_fit(loss, pr, &f)
}
pub fn grad_at_fit(loss: Loss, pr: &Prob, f: &[f64]) -> Vec<f64> {
    let r: Vec<f64> = match loss {
        Loss::Quad => f.iter().zip(&pr.y).map(|(a, b)| (a - b) / pr.n as f64).collect(),
        Loss::Logistic => f.iter().zip(&pr.y).map(|(a, b)| -b / (1.0 + (a * b).exp()) / pr.n as f64).collect(),
    };
    let mut g = vec![0.0; pr.p * pr.t];
    for i in 0..pr.n { for j in 0..pr.p { let x = pr.xa(i, j); if x != 0.0 { for k in 0..pr.t { g[j * pr.t + k] += x * r[i * pr.t + k]; } } } }
    g
}
pub fn curvature(loss: Loss, pr: &Prob, j: usize) -> f64 {
    match loss { Loss::Quad => pr.col_sq(j) / pr.n as f64, Loss::Logistic => pr.col_sq(j) / (4 * pr.n) as f64 }
}
pub fn objective(loss: Loss, pen: &Pen, pr: &Prob, w: &[f64]) -> f64 {
    loss_value(loss, pr, &pr.fit(w)) + pen.value(w, pr.t)
}
/// worst violation over all features (MCP: only those with 1/L < gamma), and the feature
pub fn kkt(loss: Loss, pen: &Pen, pr: &Prob, w: &[f64]) -> (f64, usize) {
    let g = grad(loss, pr, w);
    let mut worst = (0.0, 0);
    for j in 0..pr.p {
        let (wj, gj) = (&w[j * pr.t..(j + 1) * pr.t], &g[j * pr.t..(j + 1) * pr.t]);
        if let Pen::Mcp(_, gamma) = pen { let l = curvature(loss, pr, j); if l == 0.0 || 1.0 / l >= *gamma { if l > 0.0 { continue; } } }
        let d = pen.dist(wj, gj);
        if !(d <= worst.0) { worst = (d, j); }
    }
    worst
}
/// fixed-point violation |w_j - prox(w_j - g_j/L_j)| for L0.5 (single task), 0 if any global minimiser of the prox problem is within eps
pub fn fixed_point_gap(loss: Loss, pen: &Pen, pr: &Prob, w: &[f64]) -> (f64, usize) { fixed_point_gap_by(loss, pen, pr, w, false) }
/// the same to the farthest of the (near-)minimisers when `far`
pub fn fixed_point_gap_by(loss: Loss, pen: &Pen, pr: &Prob, w: &[f64], far: bool) -> (f64, usize) {
    let g = grad(loss, pr, w);
    let mut worst = (0.0, 0);
    for j in 0..pr.p {
        let l = curvature(loss, pr, j);
        if l == 0.0 { if w[j] != 0.0 { return (f64::INFINITY, j); } continue; }
        let v = w[j] - g[j] / l;
        if !v.is_finite() { return (f64::INFINITY, j); }
        let s = 1.0 / l;
        let (best, cands) = pen.prox_best(v.abs(), s);
        let val = |z: f64| 0.5 * (z - v.abs()).powi(2) + s * pen.phi(z);
        let near = cands.iter().filter(|z| val(**z) <= best + 1e-11 * v * v).map(|z| (w[j] - v.signum() * z).abs());
        let d = if far { near.fold(0.0, f64::max) } else { near.fold(f64::INFINITY, f64::min) };
        if !(d <= worst.0) { worst = (d, j); }
    }
    worst
}
pub fn close(a: f64, b: f64, tol: f64) -> bool { a == b || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs())) }
pub fn all_close(a: &[f64], b: &[f64], tol: f64) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, tol)) }
pub fn max_diff(a: &[f64], b: &[f64]) -> f64 { if a.len() != b.len() { return f64::INFINITY; } a.iter().zip(b).map(|(x, y)| { let d = (x - y).abs(); if d.is_nan() { f64::INFINITY } else { d } }).fold(0.0, f64::max) }

/// Solves A x = b (dense, small) with full pivoting; None if numerically singular.
pub fn solve(a: &[f64], b: &[f64], n: usize) -> Option<Vec<f64>> {
    let mut m: Vec<Vec<f64>> = (0..n).map(|i| { let mut r = a[i * n..(i + 1) * n].to_vec(); r.push(b[i]); r }).collect();
    let mut perm: Vec<usize> = (0..n).collect();
    let scale = a.iter().fold(0.0f64, |s, x| s.max(x.abs()));
    for k in 0..n {
        let (mut bi, mut bj) = (k, k);
        for i in k..n { for j in k..n { if m[i][j].abs() > m[bi][bj].abs() { bi = i; bj = j; } } }
        if m[bi][bj].abs() <= 1e-12 * scale || scale == 0.0 { return None; }
        m.swap(k, bi);
        for r in m.iter_mut() { r.swap(k, bj); }
        perm.swap(k, bj);
        for i in 0..n { if i != k { let f = m[i][k] / m[k][k]; for j in k..=n { let d = f * m[k][j]; m[i][j] -= d; } } }
    }
    let mut x = vec![0.0; n];
    for k in 0..n { x[perm[k]] = m[k][n] / m[k][k]; }
    Some(x)
}
/// exact-ish rank of X's columns via Gram matrix: full column rank?
pub fn full_column_rank(pr: &Prob) -> bool {
    if pr.p > pr.n { return false; }
    let mut g = vec![0.0; pr.p * pr.p];
    for a in 0..pr.p { for b in 0..pr.p { g[a * pr.p + b] = (0..pr.n).map(|i| pr.xa(i, a) * pr.xa(i, b)).sum(); } }
    solve(&g, &vec![0.0; pr.p], pr.p).is_some()
}
