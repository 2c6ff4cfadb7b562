use harness::prelude::*;
use ndarray::{arr1, Array1};
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L05, L1, MCP};
use sparseglm::utils::prox_funcs::{block_soft_thresholding, prox_05, soft_thresholding};

fn scalar<F: Fl>(pen: &Pen, v: f64, s: f64) -> f64 {
    let (v, s) = (F::f(v), F::f(s));
    real(|| match *pen {
        Pen::L1(a) => L1::new(F::f(a)).prox(v, s),
        Pen::En(a, r) => L1PlusL2::new(F::f(a), F::f(r)).prox(v, s),
        Pen::Mcp(a, g) => MCP::new(F::f(a), F::f(g)).prox(v, s),
        Pen::L05(a) => L05::new(F::f(a)).prox(v, s),
    }).d()
}
fn block<F: Fl>(pen: &Pen, v: &[f64], s: f64, strided: bool) -> Vec<f64> {
    let b = Buf1::<F>::new(v, if strided { Layout::Strided } else { Layout::C });
    let s = F::f(s);
    let r: Array1<F> = real(|| match *pen {
        Pen::L1(a) => L21::new(F::f(a)).prox(b.view(), s),
        Pen::En(a, r) => BlockL1PlusL2::new(F::f(a), F::f(r)).prox(b.view(), s),
        Pen::Mcp(a, g) => BlockMCP::new(F::f(a), F::f(g)).prox(b.view(), s),
        Pen::L05(_) => unreachable!(),
    });
    r.iter().map(|x| x.d()).collect()
}

fn main() {
    let alphas: &[f64] = by_tier(&[0.0, 1e-9, 0.25, 1.0, 2.5, 40.0], &[0.0, 1e-9, 1e-6, 0.1, 0.25, 0.5, 1.0, 1.7, 2.5, 40.0, 1e4]);
    let steps: &[f64] = by_tier(&[0.125, 0.7, 1.0, 2.0, 30.0], &[1e-4, 0.125, 0.3, 0.7, 1.0, 1.9, 2.0, 5.0, 30.0, 1e4]);
    let ratios: &[f64] = &[0.0, 0.3, 0.5, 1.0];
    let gammas: &[f64] = &[1.0, 1.5, 2.0, 3.0, 25.0, 1e6, f64::INFINITY];
    // points are relative to the thresholds of the operator, plus absolute ones
    let rel: &[f64] = by_tier(&[0.0, 0.3, 0.999, 1.0 - 1e-4, 1.0 - 1e-6, 1.0, 1.0 + 1e-6, 1.0 + 1e-4, 1.001, 1.2, 1.6, 2.0, 4.0, 50.0], &[0.0, 1e-9, 0.1, 0.3, 0.6, 0.9, 0.999, 1.0 - 1e-9, 1.0, 1.0 + 1e-9, 1.001, 1.05, 1.2, 1.4, 1.6, 1.9, 2.0, 2.1, 3.0, 4.0, 7.0, 50.0, 1e4]);
    let abs: &[f64] = by_tier(&[0.0, 1e-8, 0.25, 1.0, 3.0, 100.0], &[0.0, 1e-12, 1e-4, 0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 5.0, 10.0, 100.0, 1e6]);
    let dirs: Vec<Vec<f64>> = {
        let mut d: Vec<Vec<f64>> = vec![vec![1.0], vec![-1.0], vec![1.0, 0.0], vec![0.0, -1.0], vec![0.6, 0.8], vec![-0.6, 0.8], vec![0.6, -0.8], vec![-0.8, -0.6],
            vec![2.0 / 3.0, -2.0 / 3.0, 1.0 / 3.0], vec![0.0, 0.0, 1.0], vec![0.5, 0.5, -0.5, 0.5], vec![0.0, 0.6, 0.0, -0.8, 0.0]];
        d.push((0..9).map(|i| if i % 2 == 0 { 1.0 / 3.0 } else { -1.0 / 3.0 }).collect());
        d.push((0..16).map(|i| if i % 3 == 0 { -0.25 } else { 0.25 }).collect());
        d.push((0..25).map(|i| if i % 2 == 0 { 0.2 } else { -0.2 }).collect());
        d.push((0..144).map(|i| if i % 5 < 2 { 1.0 / 12.0 } else { -1.0 / 12.0 }).collect());
        d.push((0..4096).map(|i| if i == 4095 { -0.6 } else if i == 0 { 0.8 } else { 0.0 }).collect());
        d
    };
    main_check(alphas, steps, ratios, gammas, rel, abs, dirs)
}
fn main_check(alphas: &'static [f64], steps: &'static [f64], ratios: &'static [f64], gammas: &'static [f64], rel: &'static [f64], abs: &'static [f64], dirs: Vec<Vec<f64>>) {
    harness::explore::main(
        Spec { id: "P09", level: "exploration",
            rule: "every (penalty family, hyperparameters, step, magnitude relative to each threshold or absolute, direction incl. group sizes 1..4096, precision); distinct = distinct (operator output) values; an execution is trivial if the input is the zero vector",
            alphabet: "strengths, steps, mixing ratios, gammas incl. infinity, magnitudes on/around every threshold, directions; in units of 1, 2^-80 and 2^80",
            bounds: "grids as listed in src/bin/p09.rs for the tier",
            assumptions: &["MCP operators are specified only for steps below gamma (outside, the one-dimensional problem is not strongly convex)", "objective compared to the closed-form candidates within 1e-9 relative"] },
        move |ch| {
            let f32b = ch.flag();
            let multi = ch.flag();
            let fam = ch.pick(if multi { 3 } else { 4 });
            // the same in far away units
            let e = if f32b { 0 } else { *ch.of(&[0, -80, 80]) };
            let u = 2f64.powi(e);
            let a = *ch.of(alphas) * if fam == 3 { 2f64.powi(e / 2 * 3) } else { u };
            let pen = match fam { 0 => Pen::L1(a), 1 => Pen::En(a, *ch.of(ratios)), 2 => Pen::Mcp(a, *ch.of(gammas)), _ => Pen::L05(a) };
            let s = *ch.of(steps);
            if let Pen::Mcp(_, g) = pen { if s >= 0.999 * g { ch.skip() } if g.is_infinite() && a == 0.0 { ch.skip() } }
            // thresholds of the operator
            let thr: Vec<f64> = match pen {
                Pen::L1(a) => vec![s * a],
                Pen::En(a, r) => vec![s * a * r],
                Pen::Mcp(a, g) => if g.is_infinite() { vec![s * a] } else { vec![s * a, a * g] },
                Pen::L05(a) => vec![1.5 * (s * a).powf(2.0 / 3.0)],
            };
            let which = ch.pick(thr.len() + 1);
            let mag = if which < thr.len() { thr[which] * *ch.of(rel) } else { *ch.of(abs) * u };
            let k = if multi { ch.pick(dirs.len()) } else { ch.pick(2) };
            let v: Vec<f64> = dirs[k].iter().map(|d| d * mag).collect();
            ch.note(|| format!("{pen:?} multi={multi} f32={f32b} step={s} v={v:?}"));
            if f32b && (mag > 1e5 || mag != 0.0 && mag < 1e-5 || a > 1e3 || s > 1e3 || s < 1e-3) { ch.skip() }
            let (tol, eps) = if f32b { (2e-5, 4e-6) } else { (1e-9, 1e-12) };
            let out: Vec<f64> = if multi { let st = ch.flag(); if f32b { block::<f32>(&pen, &v, s, st) } else { block::<f64>(&pen, &v, s, st) } }
                else { vec![if f32b { scalar::<f32>(&pen, v[0], s) } else { scalar::<f64>(&pen, v[0], s) }] };
            if mag == 0.0 { ch.trivial() }
            ch.outcome_f(&out);
            ensure!(out.len() == v.len(), "output has {} entries, input {}", out.len(), v.len());
            ensure!(out.iter().all(|z| z.is_finite()), "not finite: prox({v:?}, {s}) = {out:?}");
            let nv = norm(&v);
            let z = norm(&out);
            // same ray, no longer than the input
            ensure!(z <= nv * (1.0 + 1e-6 * if f32b { 10.0 } else { 1e-3 }) + 1e-300, "prox grows its input: |{out:?}| > |{v:?}|");
            if nv > 0.0 { for (o, i) in out.iter().zip(&v) { ensure!((o - i / nv * z).abs() <= tol * nv + 1e-300, "prox({v:?}) = {out:?} leaves the input's ray"); } }
            let val = |z: f64| 0.5 * (z - nv).powi(2) + s * pen.phi(z);
            let (best, cands) = pen.prox_best(nv, s);
            let scale = best.abs() + 0.5 * nv * nv;
            ensure!(val(z) <= best + tol.min(1e-9f64.max(if f32b { 1.0 } else { 0.0 })) * scale, "prox({v:?}, step {s}) = {out:?} has objective {} above the minimum {best}", val(z));
            // the minimiser itself when it is unique by a margin
            let near: Vec<f64> = cands.iter().cloned().filter(|c| val(*c) <= best + 1e-6 * scale).collect();
            if !f32b && near.iter().all(|c| (c - near[0]).abs() <= 1e-9 * nv) { let cond = match pen { Pen::Mcp(_, g) => 1.0 / (1.0 - s / g), _ => 1.0 }; ensure!(near.iter().any(|c| (z - c).abs() <= 1e-12 * cond * nv), "prox({v:?}, step {s}) = {out:?}, exact minimiser has norm {}", near[0]); }
            // clearly inside the zero region: exactly zero
            if nv < thr[0] * (1.0 - 1e3 * eps) && !f32b { ensure!(z == 0.0, "input below the threshold must give exactly zero, got {out:?}"); }
            // the free functions
            if !f32b {
                match pen {
                    Pen::L1(a) => if multi {
                        let r = real(|| block_soft_thresholding(arr1(&v).view(), s * a));
                        ensure!(max_diff(&r.to_vec(), &out) <= 1e-12 * nv, "block_soft_thresholding differs from prox: {r} vs {out:?}");
                    } else {
                        let r = real(|| soft_thresholding(v[0], s * a));
                        ensure!((r - out[0]).abs() <= 1e-12 * nv, "soft_thresholding differs from prox: {r} vs {out:?}");
                    },
                    Pen::L05(a) => {
                        let r = real(|| prox_05(v[0], s * a));
                        ensure!((r - out[0]).abs() <= 1e-12 * nv, "prox_05 differs from prox: {r} vs {out:?}");
                    }
                    _ => {}
                }
            }
            Ok(())
        },
    )
}
