use harness::prelude::*;

#[derive(Clone, Debug)]
enum Sym { Feat(Vec<usize>), Sign(Vec<bool>), Samp(Vec<usize>), Dup(usize), Task(Vec<usize>, Vec<bool>), Scale(f64), Units(i32, i32) }

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut out = vec![];
    for p in perms(n - 1) { for i in 0..n { let mut q = p.clone(); q.insert(i, n - 1); out.push(q); } }
    out.sort();
    out
}
/// all permutations of few things; for many: reversal, rotation, a stride, a swap
fn some_perms(n: usize, full: usize) -> Vec<Vec<usize>> {
    if n <= full { return perms(n); }
    let id: Vec<usize> = (0..n).collect();
    let mut rot = id.clone(); rot.rotate_left(1);
    let mut sw = id.clone(); sw.swap(0, n - 1);
    let st: Vec<usize> = (0..n).step_by(2).chain((1..n).step_by(2)).collect();
    vec![id.iter().rev().cloned().collect(), rot, sw, st]
}
fn apply(pr: &Prob, pen: &Pen, s: &Sym) -> (Prob, Pen) {
    let mut q = pr.clone();
    let mut pn = *pen;
    match s {
        Sym::Feat(f) => for i in 0..pr.n { for j in 0..pr.p { q.x[i * pr.p + j] = pr.xa(i, f[j]); } },
        Sym::Sign(b) => for i in 0..pr.n { for j in 0..pr.p { if b[j] { q.x[i * pr.p + j] = -pr.xa(i, j); } } },
        Sym::Samp(f) => for i in 0..pr.n { for j in 0..pr.p { q.x[i * pr.p + j] = pr.xa(f[i], j); } for k in 0..pr.t { q.y[i * pr.t + k] = pr.ya(f[i], k); } },
        Sym::Dup(m) => { q.n = pr.n * m; q.x = pr.x.repeat(*m); q.y = pr.y.repeat(*m); }
        Sym::Task(f, b) => for i in 0..pr.n { for k in 0..pr.t { q.y[i * pr.t + k] = if b[k] { -pr.ya(i, f[k]) } else { pr.ya(i, f[k]) }; } },
        Sym::Units(a, b) => {
            let (u, v) = (2f64.powi(*a), 2f64.powi(*b));
            for x in q.x.iter_mut() { *x *= u }
            if *b != 0 || *a == 0 { for y in q.y.iter_mut() { *y *= v } }
            pn = match *pen { Pen::L1(s) => Pen::L1(s * u * v), Pen::Mcp(s, g) => Pen::Mcp(s * u * v, g / (u * u)), Pen::L05(s) => Pen::L05(s * 2f64.powi((3 * b + a) / 2)), Pen::En(s, r) => Pen::En(s * u * v, r) };
        }
        Sym::Scale(c) => {
            for v in q.y.iter_mut() { *v *= c; }
            pn = match *pen { Pen::L1(a) => Pen::L1(a * c), Pen::Mcp(a, g) => Pen::Mcp(a * c, g), Pen::L05(a) => Pen::L05(a * c.powf(1.5)), Pen::En(a, r) => { let b = c * a * r + a * (1.0 - r); if b == 0.0 { Pen::En(a, r) } else { Pen::En(b, (c * a * r / b).min(1.0)) } } };
        }
    }
    (q, pn)
}
fn image(pr: &Prob, w: &[f64], s: &Sym) -> Vec<f64> {
    let t = pr.t;
    (0..pr.p * t).map(|q| { let (j, k) = (q / t, q % t); match s {
        Sym::Feat(f) => w[f[j] * t + k],
        Sym::Sign(b) => if b[j] { -w[q] } else { w[q] },
        Sym::Task(f, b) => { let v = w[j * t + f[k]]; if b[k] { -v } else { v } }
        Sym::Scale(c) => w[q] * c,
        Sym::Units(a, b) => w[q] * 2f64.powi(b - a),
        _ => w[q],
    } }).collect()
}

/// powers of two: every product, sum, quotient and root of the run is the same up to the exponent, so the runs must agree up to the operators' own rounding, extrapolation included
#[allow(clippy::too_many_arguments)]
fn in_other_units(ch: &mut Ch, pr: &Prob, pen: &Pen, q: &Prob, pn: &Pen, loss: Loss, a: i32, b: i32, api: Api, task: Task, store: Store, d: &mut Dev, sym: &Sym) -> Res {
    ch.note(|| format!("{loss:?} {pen:?} {api:?} {task:?} {store:?} {sym:?} {}", pr.show()));
    let l05 = matches!(pen, Pen::L05(_));
    for (mi, me, tol) in [(1, 1, 1e-12), (2, 13, 1e-12), (50, 1000, 1e-6)] {
        let c = Cfg { mi, me, ws: *d.of(ch, &[100, 2]), k: *d.of(ch, &[5, 2]), acc: *d.of(ch, &[true, false]), tol, ..Cfg::default() };
        let f = if l05 { 2f64.powi(b - a) } else { 2f64.powi(a + b) };
        let w = ok(fit(pr, loss, pen, &c, api, task, store))?;
        let z = ok(fit(q, loss, pn, &Cfg { tol: c.tol * f, ..c }, api, task, store))?;
        let want = image(pr, &w, sym);
        ch.outcome_f(&w);
        ch.step();
        ch.state(&(w.iter().map(|v| v.to_bits()).collect::<Vec<_>>(), a, b));
        // L0.5 jumps and takes transcendental functions of scaled arguments: only short runs
        if l05 && mi > 1 { break; }
        let m = want.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        ensure!(max_diff(&z, &want) <= 1e-9 * m, "{c:?} {sym:?}: fit of the rescaled problem {z:?}, rescaled fit {want:?}");
    }
    Ok(())
}

fn main() {
    harness::explore::main(
        Spec { id: "P19", level: "exploration",
            rule: "every (problem, penalty, storage, group element): the fit of the transformed problem against the transformed fit; truncated runs (one outer iteration, 1-9 epochs) compare coefficients, converged runs compare objectives always and coefficients where the solution is unique; distinct by transformed coefficients; trivial = all-zero fit",
            alphabet: "all feature permutations and sign patterns (up to 4 features; reversal, rotation, stride, swap beyond), all sample permutations (up to 4; four beyond), duplication x2 x3, task permutations x sign patterns, scalings .5 2 3 100, other units of design and target (2^-30..2^30, runs agree bit for bit up to exponents, extrapolation included); quadratic, multi-task, logistic; L1, L1+L2, MCP, L0.5 and group versions",
            bounds: "integer designs up to 3x3, patterns up to 12x5 / 4x12 / 20x20; departures 1 (quick) / 2",
            assumptions: &["truncated fits away from exact ties of the scores", "scaling: the strengths are scaled so that the whole objective scales (L1: linearly)"] },
        |ch| {
            let logistic = ch.flag();
            let loss = if logistic { Loss::Logistic } else { Loss::Quad };
            let small = ch.flag();
            let mut d = Dev::new(by_tier(1, 2));
            let pr = if small {
                let v = ch.pick(by_tier(6, 20));
                let (n, p) = *ch.of(&[(3, 2), (3, 3), (2, 3), (4, 1)]);
                int_pattern(n, p, if logistic { 1 } else { *ch.of(&[1, 2, 3]) }, v, logistic)
            } else { pattern_case(ch, &mut d, by_tier(&[(6, 4), (4, 12), (12, 5)][..], &[(6, 4), (1, 4), (5, 1), (4, 12), (12, 5), (20, 20)][..]), if logistic { &[1] } else { &[1, 2, 3] }, by_tier(2, 3), logistic).0 };
            let pr = if logistic { overlap(&pr) } else { pr };
            let fam = ch.pick(if pr.t > 1 { 3 } else { 4 });
            let pen = match fam { 0 => Pen::L1(1.0), 1 => Pen::En(1.0, 0.5), 2 => Pen::Mcp(1.0, 1.5 * max_step(loss, &pr).max(1.0)), _ => Pen::L05(1.0) };
            let pen = at_frac(loss, &pr, pen, *d.of(ch, &[0.2, 0.02, 0.7]));
            let kind = ch.pick(if logistic { 5 } else if pr.t > 1 { 7 } else { 6 });
            // the last one: other units of design and target
            let kind = if kind == if logistic { 4 } else if pr.t > 1 { 6 } else { 5 } { 9 } else { kind };
            let sym = match kind {
                0 => Sym::Feat(ch.of(&some_perms(pr.p, 4)).clone()),
                1 => Sym::Sign(if pr.p <= 5 { let m = ch.pick(1 << pr.p); (0..pr.p).map(|j| m >> j & 1 == 1).collect() } else { let m = ch.pick(4); (0..pr.p).map(|j| [true, j == 0, j % 2 == 0, j >= pr.p / 2][m]).collect() }),
                2 => Sym::Samp(ch.of(&some_perms(pr.n, 4)).clone()),
                3 => Sym::Dup(2 + ch.pick(2)),
                9 => if logistic { Sym::Units(*ch.of(&[-30, 30, 4]), 0) } else { let (a, b) = *ch.of(&[(-30, -30), (30, 30), (-30, 30), (20, -20), (-25, 3), (2, 0)]); Sym::Units(a, b) },
                4 => Sym::Scale(*ch.of(&[2.0, 0.5, 3.0, 100.0])),
                _ => { let f = ch.of(&perms(pr.t)).clone(); let m = ch.pick(1 << pr.t); Sym::Task(f, (0..pr.t).map(|j| m >> j & 1 == 1).collect()) }
            };
            let multi = pr.t > 1 || (!logistic && fam < 3 && d.pick(ch, 2) == 1);
            let task = if multi { Task::Multi } else { Task::Single };
            let store = *d.of(ch, &STORES4);
            let api = if logistic || fam == 3 { Api::Solver } else { *d.of(ch, &[Api::Est, Api::Solver]) };
            let (q, pn) = apply(&pr, &pen, &sym);
            if let Sym::Units(a, b) = sym {
                // the two parts of the elastic net scale alike only when design and target do
                if matches!(pen, Pen::En(..)) && (logistic || a != b) { ch.skip() }
                if matches!(pen, Pen::Mcp(..)) && a > 0 { ch.skip() }
                return in_other_units(ch, &pr, &pen, &q, &pn, loss, a, b, api, task, store, &mut d, &sym);
            }
            ch.note(|| format!("{loss:?} {pen:?} {api:?} {task:?} {store:?} {sym:?} {}", pr.show()));
            let c0 = if let Sym::Scale(c) = sym { c } else { 1.0 };
            let g0 = grad(loss, &pr, &vec![0.0; pr.p * pr.t]);
            if pr.p > 0 && g0.iter().all(|v| *v == 0.0) { ch.trivial() }
            // two features within the strength share the score zero: their order is their position, which a feature permutation changes
            let within = g0.chunks(pr.t.max(1)).filter(|g| g.iter().map(|v| v * v).sum::<f64>().sqrt() <= pen.l1_part() * (1.0 + 1e-9)).count();
            let tie = near_tie(loss, &pr) || (matches!(sym, Sym::Feat(_)) && within > 1);
            for me in [1, 3, 9] {
                let c = Cfg { mi: 1, me, ws: *d.of(ch, &[100, 2]), acc: false, tol: 1e-12, ..Cfg::default() };
                let a = ok(fit(&pr, loss, &pen, &c, api, task, store))?;
                let b = ok(fit(&q, loss, &pn, &Cfg { tol: c.tol * c0, ..c }, api, task, store))?;
                let want = image(&pr, &a, &sym);
                ch.outcome_f(&b);
                // the L0.5 operator jumps: rounding may decide
                if !tie && (fam != 3 || matches!(sym, Sym::Sign(_))) { ensure!(max_diff(&b, &want) <= 1e-8 * (1e-3 + want.iter().fold(0.0f64, |m, v| m.max(v.abs()))), "{c:?} {sym:?}: fit of the transformed problem {b:?}, transformed fit {want:?}"); }
            }
            if pen.convex() {
                let c = cfg_dev(ch, &mut d, pr.p, Cfg { mi: 100, tol: 1e-10, ..Cfg::default() }, &[1e-10]);
                let a = ok(fit(&pr, loss, &pen, &c, api, task, store))?;
                let b = ok(fit(&q, loss, &pn, &Cfg { tol: c.tol * c0, ..c }, api, task, store))?;
                same_solution(&q, loss, &pn, &b, &image(&pr, &a, &sym), c.tol * c0, &format!("{sym:?}"))?;
                if a.iter().all(|v| *v == 0.0) { ch.trivial() }
                ch.outcome_f(&b);
            }
            Ok(())
        },
    )
}
