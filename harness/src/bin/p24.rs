use harness::prelude::*;
use ndarray::{s, Array1, Array2, ShapeBuilder};
use sparseglm::utils::helpers::{argsort_by, solve_lin_sys};
use std::cmp::Ordering;

fn det(a: &[Vec<i128>]) -> i128 {
    if a.is_empty() { return 1; }
    let mut d = 0;
    for c in 0..a.len() {
        if a[0][c] == 0 { continue; }
        let m: Vec<Vec<i128>> = a[1..].iter().map(|r| r.iter().enumerate().filter(|(i, _)| *i != c).map(|(_, v)| *v).collect()).collect();
        d += if c % 2 == 0 { a[0][c] } else { -a[0][c] } * det(&m);
    }
    d
}
/// singular in a way any elimination sees exactly: a null row or column, or two rows or columns equal up to sign or a factor of two
fn plainly_singular(a: &[Vec<i128>]) -> bool {
    let n = a.len();
    let rows: Vec<Vec<i128>> = a.to_vec();
    let cols: Vec<Vec<i128>> = (0..n).map(|j| (0..n).map(|i| a[i][j]).collect()).collect();
    for v in [&rows, &cols] {
        if v.iter().any(|r| r.iter().all(|x| *x == 0)) { return true; }
    }
    for i in 0..n { for j in 0..i { for f in [1, -1, 2, -2] { if (0..n).all(|k| rows[i][k] * f == rows[j][k]) || (0..n).all(|k| rows[j][k] * f == rows[i][k]) { return true; } } } }
    false
}

fn main() {
    harness::explore::main(
        Spec { id: "P24", level: "exploration",
            rule: "solver: every integer system of the alphabet, solution against Cramer's rule in exact integers (relative to its conditioning), refusal of plainly singular systems, no non-finite answer ever for a singular one; sort: every array and comparison, result is a permutation and ordered; distinct by answer; trivial = singular system or constant array",
            alphabet: "matrix entries -1 0 1 2 (size 4: 0 1; sizes 1-2 also -2 3 5 and row or column scales 1e-8 1e8 1e-3 1e-18, whole systems scaled by 2^-60 2^-500 2^300), right-hand sides all ones, a unit vector, 2 -1 3 ..; memory layouts row- and column-major, strided; f64 and f32; sort arrays over 0 1 2 and -0 .5 inf, ascending, descending, by magnitude, constant comparison, long patterned arrays with ties",
            bounds: "structured integer systems of size 5..20 and 30 64 130 (residual); all systems up to 3x3 over 4 entries, 4x4 over 2 (thorough: 3) with rows in order; all arrays up to length 5 (quick) / 7; 17-70001 patterned entries",
            assumptions: &["a singular system whose elimination rounds (not plainly singular, or scaled by a power of ten) may be answered, with finite numbers"] },
        |ch| {
            if ch.flag() { return sorts(ch); }
            if ch.flag() { return large(ch); }
            let n = 1 + ch.pick(4);
            let al: &[i128] = match n { 1 | 2 => &[0, 1, -1, 2, 3, -2, 5], 3 => by_tier(&[0, 1, -1, 2], &[0, 1, -1, 2, 3][..if n == 3 { 5 } else { 4 }]), _ => by_tier(&[0, 1], &[0, 1, -1]) };
            let sym = n == 4 && thorough();
            let mut a = vec![vec![0i128; n]; n];
            for i in 0..n { for j in 0..n { if sym && j < i { a[i][j] = a[j][i]; } else { a[i][j] = *ch.of(al); } } }
            let b: Vec<i128> = match ch.pick(3) { 0 => vec![1; n], 1 => (0..n).map(|i| (i == n - 1) as i128).collect(), _ => [2, -1, 3, 1][..n].to_vec() };
            let f32b = n <= 2 && ch.flag();
            let scale = if n <= 2 { ch.pick(9) } else if n == 3 { [0, 5][ch.pick(2)] } else { 0 };
            // the whole system, by an exact factor
            let whole = match scale { 5 => 2f64.powi(-60), 6 => 2f64.powi(-500), 7 => 2f64.powi(300), _ => 1.0 };
            let (rs, cs) = match scale { 0 => (1.0, 1.0), 1 => (1e-8, 1.0), 2 => (1e8, 1.0), 3 => (1.0, 1e-3), 4 => (1.0, 1e-8), 8 => (1e-18, 1.0), _ => (1.0, 1.0) };
            let lay = if n <= 2 { ch.pick(3) } else { 0 };
            if f32b && scale != 0 { ch.skip() }
            // first row, last column scaled
            let e = |i: usize, j: usize| a[i][j] as f64 * if i == 0 { rs } else { 1.0 } * if j == n - 1 { cs } else { 1.0 } * whole;
            let bf: Vec<f64> = (0..n).map(|i| b[i] as f64 * if i == 0 { rs } else { 1.0 } * whole).collect();
            ch.note(|| format!("A={a:?} b={b:?} first row x{rs} last column x{cs} everything x{whole} f32={f32b} layout {lay}"));
            fn call<F: Fl>(n: usize, e: &dyn Fn(usize, usize) -> f64, b: &[f64], lay: usize) -> Result<Vec<f64>, String> {
                let m = match lay { 0 => Array2::from_shape_fn((n, n), |(i, j)| F::f(e(i, j))), 1 => Array2::from_shape_fn((n, n).f(), |(i, j)| F::f(e(i, j))), _ => Array2::from_shape_fn((2 * n, 2 * n), |(i, j)| if i % 2 == 0 && j % 2 == 0 { F::f(e(i / 2, j / 2)) } else { F::nan() }) };
                let v = if lay == 2 { m.slice(s![..;2, ..;2]) } else { m.view() };
                let r = Array1::from_iter(b.iter().map(|x| F::f(*x)));
                real(|| solve_lin_sys(v, r.view())).map(|x| x.iter().map(|q| q.d()).collect()).map_err(|e| e.to_string())
            }
            let got = if f32b { call::<f32>(n, &e, &bf, lay) } else { call::<f64>(n, &e, &bf, lay) };
            let dt = det(&a);
            if dt == 0 {
                ch.trivial();
                if let Ok(x) = &got {
                    ensure!(!(rs == 1.0 && cs == 1.0 && plainly_singular(&a)), "singular matrix {a:?} is answered with {x:?}");
                    ensure!(x.iter().all(|v| v.is_finite()), "singular matrix {a:?} is answered with {x:?}");
                }
                return Ok(());
            }
            let want: Vec<f64> = (0..n).map(|c| { let m: Vec<Vec<i128>> = (0..n).map(|i| { let mut r = a[i].clone(); r[c] = b[i]; r }).collect(); det(&m) as f64 / dt as f64 / if c == n - 1 { cs } else { 1.0 } }).collect();
            let x = match got { Ok(x) => x, Err(m) => bad!("regular matrix {a:?} (first row x{rs}, last column x{cs}) refused: {m}") };
            ch.outcome_f(&x);
            // componentwise, in the units of each unknown; conditioning of the integer matrix bounds the rounding
            let s = 1.0 + want.iter().enumerate().map(|(c, v)| (v * if c == n - 1 { cs } else { 1.0 }).abs()).fold(0.0, f64::max);
            let tol = if f32b { 1e-4 } else { 1e-11 };
            for c in 0..n { let u = if c == n - 1 { cs } else { 1.0 }; ensure!(((x[c] - want[c]) * u).abs() <= tol * s * 10.0, "A={a:?} b={b:?} (first row x{rs}, last column x{cs}): solution {x:?}, exact {want:?}"); }
            Ok(())
        },
    )
}

fn sorts(ch: &mut Ch) -> Res {
    let long = ch.flag();
    let v: Vec<f64> = if !long {
        let n = ch.pick(by_tier(6, 8));
        (0..n).map(|_| *ch.of(if n <= 5 { &[0.0, 1.0, 2.0, -0.5, f64::INFINITY][..] } else { &[0.0, 1.0, 2.0][..] })).collect()
    } else {
        let n = *ch.of(&[17, 21, 33, 64, 200, 3000, 70001]);
        let m = *ch.of(&[1, 2, 3, 7, 1000]);
        let k = *ch.of(&[1, 5, 7, 11, 13]);
        let at = ch.pick(4);
        (0..n).map(|i| { let b = ((i * k) % n % m) as f64; match at { 0 => b, 1 => -b, 2 => if i == n / 2 { f64::INFINITY } else { b }, _ => if i < n / 2 { b } else { b - 1000.0 } } }).collect()
    };
    let cmp = ch.pick(4);
    let f: fn(&f64, &f64) -> Ordering = match cmp { 0 => |a, b| a.partial_cmp(b).unwrap(), 1 => |a, b| b.partial_cmp(a).unwrap(), 2 => |a, b| a.abs().partial_cmp(&b.abs()).unwrap(), _ => |_, _| Ordering::Equal };
    let strided = ch.flag();
    ch.note(|| format!("sort {:?} ({} entries) comparison {cmp} strided={strided}", &v[..v.len().min(200)], v.len()));
    let arr = if strided { Array1::from_iter(v.iter().flat_map(|x| [*x, f64::NAN])) } else { Array1::from(v.clone()) };
    let idx = real(|| if strided { argsort_by(&arr.slice(s![..;2]), f) } else { argsort_by(&arr, f) });
    let mut seen = idx.clone();
    seen.sort();
    let show = |v: &dyn Fn(usize) -> String| (0..idx.len().min(200)).map(|i| v(i)).collect::<Vec<_>>().join(" ");
    ensure!(seen.iter().cloned().eq(0..v.len()), "sorting {} gives {}, not a permutation", show(&|i| v[i].to_string()), show(&|i| idx[i].to_string()));
    ensure!(idx.windows(2).all(|w| f(&v[w[0]], &v[w[1]]) != Ordering::Greater), "sorting {} (comparison {cmp}) gives {}, not ordered", show(&|i| v[i].to_string()), show(&|i| idx[i].to_string()));
    ch.outcome(&idx);
    if cmp == 3 || v.windows(2).all(|w| w[0] == w[1]) { ch.trivial() }
    Ok(())
}

/// determinant in exact integers by fraction-free elimination
fn bareiss(a: &[Vec<i128>]) -> i128 {
    let n = a.len();
    let mut m = a.to_vec();
    let (mut sign, mut prev) = (1, 1);
    for k in 0..n.saturating_sub(1) {
        if m[k][k] == 0 { match (k + 1..n).find(|i| m[*i][k] != 0) { Some(i) => { m.swap(k, i); sign = -sign; } None => return 0 } }
        for i in k + 1..n { for j in k + 1..n { m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev; } }
        prev = m[k][k];
    }
    sign * m[n - 1][n - 1]
}
/// systems of the sizes deep extrapolation produces, and larger: permutations, triangles, bands, Gram matrices, dense patterns
fn large(ch: &mut Ch) -> Res {
    let n = match ch.pick(19) { q @ 0..=15 => 5 + q, q => [30, 64, 130][q - 16] };
    // the largest ones: regular by construction
    let kind = if n > 20 { [0, 1, 4][ch.pick(3)] } else { ch.pick(9) };
    let v = ch.pick(by_tier(5, 12));
    let pat = |i: usize, j: usize, m: usize| ((i * i * 31 + j * j * 17 + i * j * 7 + (i + 2) * (j + 3) * (v + 1) * 13 + 5 * v) % m) as i128;
    let a: Vec<Vec<i128>> = (0..n).map(|i| (0..n).map(|j| match kind {
        0 => ((i + v + 1) % n == j) as i128,
        1 => (n - 1 - i == j) as i128 * (2 + (v % 2) as i128),
        2 => if j < i { 0 } else if i == j { 1 + (i % 3) as i128 } else { pat(i, j, 3) - 1 },
        3 => if j > i { 0 } else if i == j { -1 - (i % 2) as i128 } else { pat(i, j, 3) - 1 },
        4 => if i == j { 4 } else if i.abs_diff(j) == 1 + v % 3 { -1 } else { 0 },
        5 => pat(i, j, 3) - 1,
        6 => if i == j { 0 } else { pat(i, j, 2) },
        7 => (0..n + 2).map(|k| (pat(k, i, 5) - 2) * (pat(k, j, 5) - 2)).sum(),
        _ => if i == j { (i == v) as i128 } else if i + 1 == j || j + 1 == i { 1 } else { 0 },
    }).collect()).collect();
    if kind == 7 && n > 9 || kind == 5 && n > 14 { ch.skip() }
    let b: Vec<i128> = (0..n).map(|i| match v % 3 { 0 => 1, 1 => (i == 0) as i128, _ => i as i128 - 3 }).collect();
    let f32b = ch.flag();
    let whole = if f32b { 1.0 } else { *ch.of(&[1.0, 8.673617379884035e-19, 1152921504606846976.0]) };
    ch.note(|| format!("n={n} kind {kind} variant {v} f32={f32b} everything x{whole:e}: A={a:?} b={b:?}"));
    fn call<F: Fl>(n: usize, a: &[Vec<i128>], b: &[i128], whole: f64) -> Result<Vec<f64>, String> {
        let m = Array2::from_shape_fn((n, n), |(i, j)| F::f(a[i][j] as f64 * whole));
        let r = Array1::from_iter(b.iter().map(|x| F::f(*x as f64 * whole)));
        real(|| solve_lin_sys(m.view(), r.view())).map(|x| x.iter().map(|q| q.d()).collect()).map_err(|e| e.to_string())
    }
    let got = if f32b { call::<f32>(n, &a, &b, whole) } else { call::<f64>(n, &a, &b, whole) };
    // integers stay below 2^127: the minors of these matrices do, by Hadamard's bound
    let dt = if n > 20 { 1 } else { bareiss(&a) };
    if dt == 0 {
        ch.trivial();
        if let Ok(x) = &got { ensure!(x.iter().all(|v| v.is_finite()), "singular matrix is answered with {x:?}"); }
        return Ok(());
    }
    let x = match got { Ok(x) => x, Err(m) => bad!("regular matrix (determinant {dt}) refused: {m}") };
    ch.outcome_f(&x);
    ensure!(x.len() == n && x.iter().all(|v| v.is_finite()), "solution {x:?}");
    let tol = if f32b { 1e-4 } else { 1e-11 };
    for i in 0..n {
        let r: f64 = (0..n).map(|j| a[i][j] as f64 * x[j]).sum::<f64>() - b[i] as f64;
        let s: f64 = a.iter().flatten().map(|v| v.abs() as f64).fold(0.0, f64::max) * x.iter().map(|v| v.abs()).sum::<f64>() + 1.0;
        ensure!(r.abs() <= tol * s, "equation {i} is missed by {r:e}: solution {x:?}");
    }
    Ok(())
}
