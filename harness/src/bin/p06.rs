use harness::prelude::*;

fn main() {
    harness::explore::main(
        Spec { id: "P06", level: "exploration",
            rule: "for each problem a reference fit (full working set, no acceleration), then every pair of working-set size and depth, with acceleration on/off, verbosity and budgets, each judged against the reference: coefficients where the solution is unique (full column rank or a positive quadratic term), objective always; non-trivial = reference has a non-zero coefficient; distinct by reference coefficients and settings",
            alphabet: "integer and pattern designs; ws in {1,2,3,4,7,10,p-1,p,p+5,1000}, K in 1..12, 20, 40, acceleration, verbose, iterations 1 (full working set)/500/2000, epochs up to 200000; data in units of 1, 2^-30, 2^30",
            bounds: "full product of working-set size x K x acceleration for every problem",
            assumptions: &["convex penalties (non-convex problems have several stationary points)", "coefficient tolerance: conditioning of the Gram matrix times solver tolerance 1e-10"] },
        |ch| {
            let small = ch.flag();
            let mut dev = Dev::new(by_tier(1, 2));
            let pr = if small { tiny(ch, by_tier(&[(2, 2, 1), (2, 2, 2)][..], &[(2, 2, 1), (2, 2, 2), (3, 2, 1), (2, 3, 1)][..]), &[0.0, 1.0, -1.0], &[-1.0, 2.0]) } else {
                pattern_case(ch, &mut dev, by_tier(&[(6, 4), (12, 5), (4, 12), (30, 20)][..], &[(6, 4), (12, 5), (1, 4), (4, 12), (30, 20), (10, 45)][..]), &[1, 2, 3], by_tier(2, 4), false).0
            };
            let lg = !small && pr.t == 1 && dev.pick(ch, 2) == 1;
            let loss = if lg { Loss::Logistic } else { Loss::Quad };
            let mut pr = pr;
            if lg { for v in pr.y.iter_mut() { *v = if *v >= 0.0 { 1.0 } else { -1.0 } } }
            let pen = *ch.of(&[Pen::L1(1.0), Pen::En(1.0, 0.5)]);
            let fr = *ch.of(&[0.1, 0.5]);
            let pen = at_frac(loss, &pr, pen, fr);
            let task = if pr.t > 1 { Task::Multi } else { Task::Single };
            let store = if ch.flag() { Store::Sparse(Csc::Sorted) } else { Store::Dense(Layout::C) };
            let p = pr.p;
            let tol = 1e-10;
            let refc = Cfg { ws: p, acc: false, tol, mi: 2000, ..Cfg::default() };
            let wr = ok(fit(&pr, loss, &pen, &refc, Api::Solver, task, store))?;
            let (v, _) = kkt(loss, &pen, &pr, &wr);
            ensure!(v <= tol * 1.01 + 1e-11 * mean_scale(&pr), "reference fit violates optimality by {v}");
            let unique = matches!(pen, Pen::En(..)) || (!lg && full_column_rank(&pr));
            let or = objective(loss, &pen, &pr, &wr);
            if wr.iter().all(|x| *x == 0.0) { ch.trivial() }
            let mu = if let Pen::En(a, r) = pen { a * (1.0 - r) } else { 0.0 };
            let wtol = if mu > 0.0 { 1e-8f64.max(50.0 * tol * (p as f64).sqrt() / mu) } else { 1e-6 };
            let verbose = dev.pick(ch, 2) == 1;
            // a single outer iteration is enough when the working set holds every feature
            let mi = *dev.of(ch, &[500, 2000, 1]);
            let me = if mi == 1 { 200000 } else { *dev.of(ch, &[20000, 100000]) };
            let unit = *dev.of(ch, &UNITS);
            let mut wss = vec![1, 2, 3, 4, 7, 10, p.saturating_sub(1).max(1), p, p + 5, 1000];
            wss.sort();
            wss.dedup();
            if !thorough() && small { wss = vec![1, 2, p + 5]; }
            if mi == 1 { wss.retain(|&w| w >= p) }
            let kmax = if small { 6 } else { 12 };
            let ks: Vec<(bool, usize)> = (1..=kmax).map(|k| (true, k)).chain([(true, 20), (true, 40), (false, 5), (false, 1)]).collect();
            for &ws in &wss { for &(acc, k) in &ks {
                let c = Cfg { ws, mi, me, tol, k, acc, verbose };
                ch.note(|| format!("{loss:?} {pen:?} {task:?} {store:?} {c:?} unit {unit:e} {}", pr.show()));
                let w = fit_u(ch, &pr, loss, &pen, &c, Api::Solver, task, store, unit)?;
                ch.tally("settings compared", 1);
                if verbose {
                    let q = fit_u(ch, &pr, loss, &pen, &Cfg { verbose: false, ..c }, Api::Solver, task, store, unit)?;
                    ensure!(q.iter().zip(&w).all(|(a, b)| a.to_bits() == b.to_bits()), "printing progress changes the result under {c:?}: {w:?}, quiet {q:?}");
                }
                ch.outcome_f(&w);
                let o = objective(loss, &pen, &pr, &w);
                ensure!((o - or).abs() <= 1e-8 * (1.0 + or), "objective {o} differs from {or} under {c:?}; w = {w:?} vs {wr:?}");
                if unique {
                    let d = max_diff(&w, &wr);
                    let s = 1.0 + wr.iter().fold(0.0f64, |a, b| a.max(b.abs()));
                    ensure!(d <= wtol * s, "coefficients differ by {d:e} under {c:?}: {w:?} vs {wr:?}");
                }
            } }
            Ok(())
        },
    )
}
