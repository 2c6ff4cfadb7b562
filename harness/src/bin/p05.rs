use harness::prelude::*;

fn main() {
    harness::explore::main(
        Spec { id: "P05", level: "model_checking",
            rule: "each execution is one solver run on one problem, observed at every truncation of its budget: all epoch counts of one outer iteration, then all outer-iteration counts for several inner budgets; a state is an iterate (its coefficients), a transition is one more unit of budget; invariant: the recomputed objective never increases and never exceeds that of the zero vector",
            alphabet: "integer and pattern designs, penalties L1, L1+L2, MCP, L0.5 and group versions, quadratic and logistic losses, depths K 1..10, working-set sizes, storages, APIs; data in units of 1, 2^-30, 2^30",
            bounds: "nearly collinear problems under growing budgets up to 70002 (quick) / 1000003; epochs 0..20 (quick) / 0..60 (thorough) of the first outer iteration; 0..4 (quick) / 0..9 outer iterations of 1, 3 or 12 epochs",
            assumptions: &["the coordinate step is a (majorised) minimisation: curvature x gamma > 1 for MCP"] },
        |ch| {
            if ch.flag() {
                // long runs
                let lg = ch.flag();
                let loss = if lg { Loss::Logistic } else { Loss::Quad };
                let t = if lg { 1 } else { *ch.of(&[1, 2]) };
                let pr = slow(ch, t, lg);
                let pr = if lg { overlap(&pr) } else { pr };
                let fam = ch.pick(if t > 1 { 3 } else { 4 });
                let pen = match fam { 0 => Pen::L1(1.0), 1 => Pen::En(1.0, 0.99999), 2 => Pen::Mcp(1.0, 1.1 * max_step(loss, &pr).max(1.0)), _ => Pen::L05(1.0) };
                let pen = at_frac(loss, &pr, pen, *ch.of(&[1e-4, 1e-2]));
                let task = if t > 1 { Task::Multi } else { Task::Single };
                let mut d = Dev::new(by_tier(1, 2));
                let base = Cfg { mi: 0, me: 0, ws: *d.of(ch, &[10, 2, 1]), acc: *d.of(ch, &[true, false]), k: *d.of(ch, &[5, 2, 30]), tol: 1e-13, verbose: false };
                let store = *d.of(ch, &[Store::Dense(Layout::C), Store::Sparse(Csc::Reversed)]);
                let me1 = *ch.of(&[0, 1, 7]);
                ch.note(|| format!("long run {loss:?} {pen:?} {task:?} {store:?} {base:?} outer iterations of {me1} epochs (0: one outer iteration) {}", pr.show()));
                let mut prev = objective(loss, &pen, &pr, &vec![0.0; pr.p * t]);
                let slack = 1e-11 * (1.0 + prev);
                for b in [1, 30, 100, 257, 1001, 1002, 3000, 10_007, 30_000, 70_001, by_tier(70_002, 1_000_003)] {
                    if !thorough() && b > 5000 && (d.left == 0 || me1 == 7) { break; }
                    let (mi, me) = if me1 == 0 { (1, b) } else { (b, me1) };
                    let w = ok(fit(&pr, loss, &pen, &Cfg { mi, me, ..base }, Api::Solver, task, store))?;
                    let o = objective(loss, &pen, &pr, &w);
                    ensure!(o <= prev + slack, "objective rises from {prev} to {o} at iterations={mi} epochs={me}; w = {w:?}");
                    prev = o;
                    ch.step();
                    ch.state(&w.iter().map(|v| v.to_bits()).collect::<Vec<_>>());
                    ch.outcome_f(&w);
                }
                return Ok(());
            }
            let lossk = ch.pick(2);
            let loss = [Loss::Quad, Loss::Logistic][lossk];
            let lg = lossk == 1;
            let small = ch.flag();
            let mut dev = Dev::new(if small { 1 } else { by_tier(2, 3) });
            let pr = if small {
                let ys: &[f64] = if lg { &[1.0, -1.0] } else { &[-1.0, 2.0] };
                if lg { tiny(ch, &[(2, 2, 1), (1, 2, 1)], by_tier(&[1.0, -1.0, 2.0][..], &[0.0, 1.0, -1.0, 2.0][..]), ys) } else { tiny(ch, by_tier(&[(2, 2, 1), (1, 2, 2)][..], &[(2, 2, 1), (2, 2, 2), (1, 2, 2)][..]), &[0.0, 1.0, -1.0], ys) }
            } else {
                pattern_case(ch, &mut dev, by_tier(&[(6, 4), (1, 4), (4, 12), (12, 5)][..], &[(6, 4), (1, 1), (1, 4), (4, 12), (12, 5), (20, 20), (10, 45)][..]), if lg { &[1] } else { &[1, 2, 4] }, by_tier(2, 4), lg).0
            };
            let pk = ch.pick(if pr.t > 1 { 3 } else { 4 });
            let fr = *dev.of(ch, &[0.1, 0.01, 0.4, 0.9]);
            let f = if pk == 2 { *dev.of(ch, &[1.3, 1.02, 4.0]) } else { 1.0 };
            let pen = match pk { 0 => Pen::L1(1.0), 1 => Pen::En(1.0, *dev.of(ch, &[0.5, 0.0])), 2 => Pen::Mcp(1.0, f * max_step(loss, &pr).max(1.0)), _ => Pen::L05(1.0) };
            let pen = at_frac(loss, &pr, pen, fr);
            let multi = pr.t > 1 || (!lg && pk < 3 && dev.pick(ch, 2) == 1);
            let task = if multi { Task::Multi } else { Task::Single };
            let api = if lg || pk == 3 { Api::Solver } else { *dev.of(ch, &[Api::Solver, Api::Est]) };
            let store = *dev.of(ch, &STORES4);
            let unit = *dev.of(ch, &UNITS);
            let base = Cfg { tol: 1e-12, ws: pr.p, ..Cfg::default() };
            let k = *ch.of(by_tier(&[5, 2], &[5, 2, 3]));
            let base = cfg_dev(ch, &mut dev, pr.p, Cfg { k, ..base }, &[1e-12]);
            ch.note(|| format!("{loss:?} {pen:?} {api:?} {task:?} {store:?} {base:?} unit {unit:e} {}", pr.show()));
            let zero = vec![0.0; pr.p * pr.t];
            let o0 = objective(loss, &pen, &pr, &zero);
            let slack = 1e-11 * (1.0 + o0);
            let emax = by_tier(20, 60);
            let mut axes: Vec<Vec<(usize, usize)>> = vec![(0..=emax).map(|e| (1, e)).collect()];
            for e in [1, 3, 12] { axes.push((0..=by_tier(4, 9)).map(|m| (m, e)).collect()); }
            for axis in axes {
                let mut prev = o0;
                for (mi, me) in axis {
                    let w = fit_u(ch, &pr, loss, &pen, &Cfg { mi, me, ..base }, api, task, store, unit)?;
                    ensure!(w.len() == zero.len() && w.iter().all(|v| v.is_finite()), "iterations={mi} epochs={me}: bad coefficients {w:?}");
                    let o = objective(loss, &pen, &pr, &w);
                    ensure!(o <= prev + slack, "objective rises from {prev} to {o} at iterations={mi} epochs={me}; w = {w:?}");
                    ensure!(mi * me > 0 || w == zero, "zero budget must return the zero vector, got {w:?}");
                    prev = o;
                    ch.step();
                    ch.state(&w.iter().map(|v| v.to_bits()).collect::<Vec<_>>());
                    ch.outcome_f(&w);
                }
            }
            Ok(())
        },
    )
}
