use harness::prelude::*;
use ndarray::Array2;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L05, L1, MCP};

fn single<F: Fl>(pen: &Pen, w: &[f64], lay: Layout) -> f64 {
    let b = Buf1::<F>::new(w, lay);
    real(|| match *pen {
        Pen::L1(a) => L1::new(F::f(a)).value(b.view()),
        Pen::En(a, r) => L1PlusL2::new(F::f(a), F::f(r)).value(b.view()),
        Pen::Mcp(a, g) => MCP::new(F::f(a), F::f(g)).value(b.view()),
        Pen::L05(a) => L05::new(F::f(a)).value(b.view()),
    }).d()
}
fn block<F: Fl>(pen: &Pen, w: &[f64], p: usize, t: usize, lay: Layout) -> f64 {
    let b = Buf2::<F>::new(w, p, t, lay);
    real(|| match *pen {
        Pen::L1(a) => L21::new(F::f(a)).value(b.view()),
        Pen::En(a, r) => BlockL1PlusL2::new(F::f(a), F::f(r)).value(b.view()),
        Pen::Mcp(a, g) => BlockMCP::new(F::f(a), F::f(g)).value(b.view()),
        Pen::L05(_) => unreachable!(),
    }).d()
}

fn main() {
    harness::explore::main(
        Spec { id: "P10", level: "exploration",
            rule: "every (penalty, hyperparameters, coefficient vector or matrix over an alphabet that contains every breakpoint, memory layout, precision); value compared with the documented formula, at zero exactly zero, beyond the flat point exactly flat; distinct by value; trivial = zero coefficients",
            alphabet: "magnitudes 0, .25, 1, the MCP breakpoint and its neighbours, 7, signs; rows in directions of 1, 2, 3 tasks incl. rotations",
            bounds: "vectors of length 0..3 (quick) / 0..4, matrices of 0..2 / 0..3 rows; patterned vectors up to 5000, matrices up to 300x130",
            assumptions: &["1e-12 relative rounding (1e-5 in single precision)"] },
        |ch| {
            let f32b = ch.flag();
            let multi = ch.flag();
            let fam = ch.pick(if multi { 3 } else { 4 });
            let a = *ch.of(by_tier(&[0.0, 0.5, 2.0][..], &[0.0, 0.1, 0.5, 1.0, 2.0, 30.0][..]));
            let pen = match fam { 0 => Pen::L1(a), 1 => Pen::En(a, *ch.of(&[0.0, 0.25, 0.5, 1.0])), 2 => Pen::Mcp(a, *ch.of(&[1.0, 1.5, 3.0, f64::INFINITY])), _ => Pen::L05(a) };
            if let Pen::Mcp(a, g) = pen { if a == 0.0 && g.is_infinite() { ch.skip() } }
            let mut mags = vec![0.0, 0.25, 1.0, 7.0];
            if thorough() { mags.push(1e-9) }
            if let Pen::Mcp(a, g) = pen { if g.is_finite() { mags.extend([a * g, a * g * 0.99, a * g * 1.01, a * g * 4.0]); } }
            let mut tol = if f32b { 3e-5 } else { 1e-12 };
            let lay = *ch.of(&[Layout::C, Layout::Strided, Layout::Reversed, Layout::F]);
            let (w, v, t) = if multi {
                let long = ch.flag();
                if long && f32b { tol = 1e-3 }
                let t = if long { *ch.of(&[1, 4, 30, 130]) } else { 1 + ch.pick(3) };
                let p = if long { *ch.of(&[2, 9, 300]) } else { ch.pick(by_tier(3, 4)) };
                let dirs: &[&[f64]] = match t { 1 => &[&[1.0], &[-1.0]], 2 => &[&[1.0, 0.0], &[0.0, -1.0], &[0.6, 0.8], &[-0.8, 0.6]], _ => &[&[0.0, 0.0, 1.0], &[2.0 / 3.0, -1.0 / 3.0, 2.0 / 3.0], &[-0.48, 0.6, 0.64]] };
                let mut w = vec![];
                let (a0, z) = if long { (ch.pick(4), ch.pick(3)) } else { (0, 0) };
                for i in 0..p {
                    if long {
                        // rows of the given norm, all entries equal up to sign, or only the last non-zero
                        let m = mags[(a0 + i * 2) % mags.len()] * [1.0, 0.5, 0.125][i / 7 % 3];
                        w.extend((0..t).map(|k| match z { 0 => m / (t as f64).sqrt() * if k % 2 == 0 { 1.0 } else { -1.0 }, 1 => if k + 1 == t { m } else { 0.0 }, _ => if k == i % t { -m } else { 0.0 } }));
                        continue;
                    }
                    let m = *ch.of(&mags); let d = if m == 0.0 { dirs[0] } else { *ch.of(dirs) }; w.extend(d.iter().map(|x| x * m));
                }
                let v = if f32b { block::<f32>(&pen, &w, p, t, lay) } else { block::<f64>(&pen, &w, p, t, lay) };
                // rotating every row changes nothing
                if t == 2 && !f32b {
                    let r: Vec<f64> = Array2::from_shape_vec((p, 2), w.clone()).unwrap().rows().into_iter().flat_map(|x| [0.6 * x[0] - 0.8 * x[1], 0.8 * x[0] + 0.6 * x[1]]).collect();
                    let vr = block::<f64>(&pen, &r, p, t, lay);
                    ensure!(close(vr, v, 1e-12), "{pen:?}: value {v} becomes {vr} after rotating the rows of {w:?}");
                }
                (w, v, t)
            } else {
                let long = ch.flag();
                if long && f32b { tol = 1e-3 }
                let p = if long { *ch.of(&[9, 300, 5000]) } else { ch.pick(by_tier(4, 5)) };
                let (a0, st) = if long { (ch.pick(4), 1 + ch.pick(3)) } else { (0, 0) };
                let w: Vec<f64> = (0..p).map(|i| { if long { let m = mags[(a0 + i * st) % mags.len()] * [1.0, 0.5, 0.125][i / 7 % 3]; return if i % 3 == 1 { -m } else { m } } let m = *ch.of(&mags); if m != 0.0 && ch.flag() { -m } else { m } }).collect();
                let v = if f32b { single::<f32>(&pen, &w, lay) } else { single::<f64>(&pen, &w, lay) };
                let mut r = w.clone();
                r.reverse();
                for x in r.iter_mut() { *x = -*x }
                let vr = if f32b { single::<f32>(&pen, &r, lay) } else { single::<f64>(&pen, &r, lay) };
                ensure!(close(vr, v, tol), "{pen:?}: value {v} becomes {vr} after permuting and flipping {w:?}");
                (w, v, 1)
            };
            ch.note(|| format!("{pen:?} f32={f32b} tasks={t} {lay:?} w={:?} ({} entries) value={v}", &w[..w.len().min(60)], w.len()));
            ch.outcome_f(&[v]);
            if w.iter().all(|x| *x == 0.0) { ch.trivial(); ensure!(v == 0.0, "{pen:?}: value {v} at zero"); }
            let want = pen.value(&w, t);
            ensure!(close(v, want, tol), "{pen:?}: value {v} at {w:?}, documented formula gives {want}");
            // the same vector in other units: tiny and large coefficients, relative accuracy
            if !f32b { for e in [-60, -20, 20] {
                let u = 2f64.powi(e);
                let q: Vec<f64> = w.iter().map(|x| x * u).collect();
                let pn = if let Pen::Mcp(a, g) = pen { Pen::Mcp(a * u, g) } else { pen };
                let v = if multi { block::<f64>(&pn, &q, w.len() / t, t, lay) } else { single::<f64>(&pn, &q, lay) };
                let want = pn.value(&q, t);
                ensure!((v - want).abs() <= 1e-11 * want.abs(), "{pn:?}: value {v} at {q:?}, documented formula gives {want}");
            } }
            Ok(())
        },
    )
}
