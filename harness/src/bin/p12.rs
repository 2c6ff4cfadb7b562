use harness::prelude::*;
use harness::{with_multi, with_single};
use sparseglm::datafits::single_task::{Logistic, Quadratic};

fn numbers<F: Fl>(pr: &Prob, kind: usize, store: Store, ylay: Layout, fits: &[Vec<f64>]) -> Vec<f64>
where F: 'static {
    macro_rules! go { ($F:ty) => { match kind {
        0 => with_single!(pr, store, ylay, $F, |ds| single_numbers(&ds, &mut Quadratic::<$F>::new(), fits)),
        1 => with_single!(pr, store, ylay, $F, |ds| single_numbers(&ds, &mut Logistic::<$F>::new(), fits)),
        _ => with_multi!(pr, store, ylay, $F, |ds| multi_numbers(&ds, fits, pr.n, pr.t)),
    } } }
    if std::mem::size_of::<F>() == 4 { go!(f32) } else { go!(f64) }
}

fn main() {
    harness::explore::main(
        Spec { id: "P12", level: "exploration",
            rule: "every (loss, small design, target, coefficient vector, storage, precision): reported curvatures, value, partial derivatives, full gradient and correlations against the documented formulas, and the derivatives against exact or central differences of the reported value, the curvature against its second differences; distinct by the numbers; trivial = zero design",
            alphabet: "designs {0,1,-1,2}, targets {-1,1} (logistic) or {-1,0,2}, coefficients {-1,0,.5,3} (logistic also -60 and 1000: margins beyond the range of exp); data in units of 1, 2^-30, 2^30; storages: three dense layouts, three sparse forms; pattern designs up to 12x5, 9x17, 300x2, 2x280, 70001x2 and 3x1100 (formulas only) (thorough 64x30), up to 130 tasks",
            bounds: "all designs 2x2, 3x1, 1x3, 1x2 (thorough 3x2, 2x3); tasks 1..3",
            assumptions: &["logistic differences to 1e-6"] },
        |ch| {
            let kind = ch.pick(3);
            let loss = if kind == 1 { Loss::Logistic } else { Loss::Quad };
            let f32b = ch.flag();
            let stores = [Store::Dense(Layout::C), Store::Sparse(Csc::Sorted), Store::Dense(Layout::F), Store::Dense(Layout::Strided), Store::Sparse(Csc::MixedZeros), Store::Sparse(Csc::StridedView), Store::Sparse(Csc::Window)];
            let small = ch.flag();
            let mut big = false;
            let pr = if small {
                let (n, p) = *ch.of(by_tier(&[(2, 2), (1, 3), (3, 1), (1, 1)][..], &[(2, 2), (1, 3), (3, 1), (3, 2), (2, 3)][..]));
                let t = if kind == 2 { *ch.of(&[2, 1, 3]) } else { 1 };
                let x: Vec<f64> = (0..n * p).map(|_| *ch.of(if n * p > 4 { &[0.0, 1.0, -2.0] } else { &[0.0, 1.0, -1.0, 2.0] })).collect();
                let y: Vec<f64> = (0..n * t).map(|i| if i < 3 { *ch.of(if kind == 1 { &[1.0, -1.0] } else { &[-1.0, 2.0, 0.0] }) } else { [1.0, -3.0, 0.5][i % 3] }).collect();
                Prob { n, p, t, x, y }
            } else {
                let (n, p) = *ch.of(by_tier(&[(6, 4), (1, 1), (5, 1), (12, 5), (9, 17), (300, 2), (2, 280), (70001, 2), (3, 1100)][..], &[(6, 4), (1, 1), (5, 1), (2, 2), (12, 5), (9, 17), (300, 2), (2, 280), (33, 17), (64, 30), (70001, 2), (3, 1100), (2, 70001), (140001, 1)][..]));
                let t = if kind != 2 { 1 } else if p <= 4 && n <= 6 { *ch.of(&[1, 2, 5, 9, 33, 130]) } else if p < 100 { *ch.of(&[1, 2, 5]) } else { *ch.of(&[1, 2]) };
                big = n * p * t > 330;
                pattern(n, p, t, if big { 0 } else { ch.pick(by_tier(2, 5)) }, *ch.of(if big { &DECOS[..3] } else { &DECOS }), kind == 1)
            };
            let w: Vec<f64> = if small && pr.p * pr.t <= 3 { (0..pr.p * pr.t).map(|_| *ch.of(if kind == 1 { &[0.0, 0.5, -1.0, 3.0, 1000.0, -60.0][..] } else { &[0.0, 0.5, -1.0, 3.0] })).collect() }
                else { let k = if big { 1 + ch.pick(2) } else { ch.pick(4) }; (0..pr.p * pr.t).map(|i| [0.0, 0.5, -1.0, 0.25][(i * k + k) % 4] * if small { 2.0 } else { 0.5f64.min(8.0 / pr.p as f64) }).collect() };
            let store = *ch.of(&stores);
            let ylay = *ch.of(&[Layout::C, Layout::Strided]);
            ch.note(|| format!("{loss:?} f32={f32b} {store:?} targets {ylay:?} w={w:?} {}", pr.show()));
            if pr.x.iter().all(|v| *v == 0.0) { ch.trivial() }
            let f0 = pr.fit(&w);
            let got = if f32b { numbers::<f32>(&pr, kind, store, ylay, &[f0.clone()]) } else { numbers::<f64>(&pr, kind, store, ylay, &[f0.clone()]) };
            let exp = expected_numbers(loss, &pr, &[f0.clone()], kind == 2);
            let scale = 1.0 + exp.iter().fold(0.0f64, |a, b| a.max(b.abs()));
            // sequential sums: rounding grows with the number of terms
            let tol = scale * if f32b { 1e-5 + 1e-8 * pr.n as f64 } else { 1e-12 + 1e-16 * pr.n as f64 };
            ensure!(got.len() == exp.len(), "{} numbers for {}", got.len(), exp.len());
            ch.outcome_f(&got);
            let m = pr.p * pr.t;
            let base = pr.p + if kind == 2 { m } else { 0 };
            let name = |i: usize| if i < pr.p { format!("curvature {i}") } else if i < base { format!("correlation {}", i - pr.p) } else if i == base { "value".into() } else if i <= base + m { format!("partial derivative {}", i - base - 1) } else { format!("full gradient entry {}", i - base - 1 - m) };
            for i in 0..got.len() { ensure!((got[i] - exp[i]).abs() <= tol, "{} is {}, documented formula gives {}", name(i), got[i], exp[i]); }
            if f32b { return Ok(()); }
            let huge = pr.n * pr.p > 3000;
            // in other units every number is the same up to its exponent
            for u in &UNITS[1..] {
                let q = in_units(loss, &pr, &Pen::L1(1.0), *u);
                let f: Vec<f64> = if kind == 1 { f0.clone() } else { f0.iter().map(|v| v * u).collect() };
                let z = numbers::<f64>(&q.pr, kind, store, ylay, &[f]);
                for i in 0..got.len() {
                    let k = if kind != 1 || i < pr.p { u * u } else if i == base { 1.0 } else { *u };
                    ensure!((z[i] / k - exp[i]).abs() <= tol, "{} is {} with data in units of {u:e} (factor {k:e}), documented formula gives {}", name(i), z[i], exp[i]);
                }
            }
            if huge { return Ok(()); }
            // derivatives and curvature against the reported value itself
            let h = if kind == 1 { 1e-3 } else { 0.5 };
            let mut fits = vec![f0.clone()];
            for c in 0..m { let (j, k) = (c / pr.t, c % pr.t); for s in [h, -h] { let mut f = f0.clone(); for i in 0..pr.n { f[i * pr.t + k] += s * pr.xa(i, j); } fits.push(f); } }
            let g = numbers::<f64>(&pr, kind, store, ylay, &fits);
            let val = |q: usize| g[base + q * (1 + 2 * m)];
            for c in 0..m {
                let (v0, up, dn) = (val(0), val(1 + 2 * c), val(2 + 2 * c));
                let d = (up - dn) / (2.0 * h);
                let lim = if kind == 1 { 1e-6 * scale.powi(2) } else { 1e-11 * scale };
                ensure!((d - got[base + 1 + c]).abs() <= lim, "partial derivative {c} is {}, the reported value changes at rate {d}", got[base + 1 + c]);
                let s2 = (up - 2.0 * v0 + dn) / (h * h);
                let l = got[c / pr.t];
                if kind == 1 { ensure!(s2 <= l * (1.0 + 1e-6) + 1e-8 + 1e-15 * v0.abs() / (h * h), "curvature {l} of feature {c} is below the second difference {s2} of the value"); }
                else { ensure!((s2 - l).abs() <= 1e-9 * scale, "curvature {l} of feature {c} differs from the second difference {s2} of the value"); }
            }
            Ok(())
        },
    )
}
