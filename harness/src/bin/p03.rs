use harness::prelude::*;

fn main() {
    harness::explore::main(
        Spec { id: "P03", level: "exploration",
            rule: "every (design, labels, penalty, strength, settings, storage) of a small integer space and of a pattern space with at most D settings departing from the default; non-trivial = some coefficient non-zero",
            alphabet: "design entries {-1,0,1,2}, labels +-1; pattern designs up to 20x20 / 8x140; penalties L1, L1+L2, MCP (gamma above the largest inverse curvature); strengths .05..1.5 of critical; data in units of 1, 2^-30, 2^30",
            bounds: "columns 2^-6..2^-20 times smaller than others; nearly collinear problems of 10^4..10^6 epochs; D=2 quick, 3 thorough",
            assumptions: &["positive strength, and overlapping classes for MCP (no minimiser exists otherwise)", "ample budgets"] },
        |ch| {
            if ch.flag() {
                // long runs
                let pr = overlap(&slow(ch, 1, true));
                let pen = *ch.of(&[Pen::L1(1.0), Pen::En(1.0, 0.9999), Pen::Mcp(1.0, 1.5 * max_step(Loss::Logistic, &pr).max(1.0))]);
                let pen = at_frac(Loss::Logistic, &pr, pen, *ch.of(&[1e-2, 1e-4]));
                let (mi, me) = *ch.of(&LONG);
                let mut dev = Dev::new(by_tier(1, 2));
                let c = Cfg { mi, me, ws: *dev.of(ch, &[10, 2, 1]), acc: *dev.of(ch, &[false, true]), k: *dev.of(ch, &[5, 1, 30]), tol: *dev.of(ch, &[1e-7, 1e-5]), verbose: false };
                let store = *dev.of(ch, &STORES4);
                return check_kkt(ch, &pr, Loss::Logistic, &pen, &c, Api::Solver, Task::Single, store, 1.0);
            }
            if ch.flag() {
                // columns of very different size
                let (pr, sm) = lopsided(ch, 1, true);
                let pr = overlap(&pr);
                let pen = *ch.of(&[Pen::L1(1.0), Pen::En(1.0, 0.5), Pen::Mcp(1.0, 1.5 * max_step(Loss::Logistic, &pr).max(1.0))]);
                let pen = pen.with_alpha(sm * *ch.of(&[0.02, 0.1]));
                let mut dev = Dev::new(by_tier(1, 2));
                let store = *dev.of(ch, &STORES4);
                let c = Cfg { tol: sm * *dev.of(ch, &[1e-6, 1e-4]), ws: *dev.of(ch, &[10, 1, 2]), acc: *dev.of(ch, &[true, false]), k: *dev.of(ch, &[5, 2]), ..Cfg::default() };
                return check_kkt(ch, &pr, Loss::Logistic, &pen, &c, Api::Solver, Task::Single, store, 1.0);
            }
            let small = ch.flag();
            let (mut pr, fr, pk, c, store, unit);
            if small {
                pr = match ch.pick(by_tier(2, 4)) {
                    0 => tiny(ch, &[(2, 2, 1), (1, 2, 1)], &[0.0, 1.0, -1.0, 2.0], &[1.0, -1.0]),
                    1 => tiny(ch, &[(2, 3, 1), (3, 2, 1)], &[0.0, 1.0, -1.0], &[1.0, -1.0]),
                    2 => tiny(ch, &[(3, 2, 1)], &[0.0, 1.0, -1.0, 2.0], &[1.0, -1.0]),
                    _ => tiny(ch, &[(4, 2, 1)], &[0.0, 1.0, -1.0], &[1.0, -1.0]),
                };
                fr = *ch.of(&[0.3, 0.1, 0.9]);
                pk = ch.pick(4);
                store = *ch.of(&[Store::Dense(Layout::C), Store::Sparse(Csc::Reversed)]);
                let base = Cfg { tol: 1e-7, ..Cfg::default() };
                unit = 1.0;
                c = *ch.of(&[base, Cfg { ws: 1, ..base }, Cfg { acc: false, ..base }]);
            } else {
                let mut dev = Dev::new(by_tier(2, 3));
                let (q, _) = pattern_case(ch, &mut dev, by_tier(&[(6, 4), (1, 1), (1, 4), (5, 1), (12, 5), (20, 20), (8, 40)][..], &[(6, 4), (1, 1), (1, 4), (5, 1), (12, 5), (20, 20), (10, 45), (60, 12), (8, 140)][..]), &[1], by_tier(3, 5), true);
                pr = q;
                fr = *dev.of(ch, &[0.2, 0.05, 0.5, 0.9, 0.99, 1.0, 1.5]);
                pk = ch.pick(4);
                store = *dev.of(ch, &STORES4);
                unit = *dev.of(ch, &UNITS);
                c = cfg_dev(ch, &mut dev, pr.p, Cfg { tol: 1e-7, ..Cfg::default() }, &[1e-7, 1e-3, 1e-5, 1e-9]);
            }
            if pk == 3 { pr = overlap(&pr) }
            let pen = match pk { 0 => Pen::L1(1.0), 1 => Pen::En(1.0, 0.5), 2 => Pen::En(1.0, 0.0), _ => Pen::Mcp(1.0, if fr < 0.3 { 1.2 } else { 4.0 } * max_step(Loss::Logistic, &pr).max(1.0)) };
            // the two parts of the elastic net scale differently: one mixing ratio cannot hold both exactly
            if unit != 1.0 && (pk == 1 || pk == 2) { ch.skip() }
            let pen = at_frac(Loss::Logistic, &pr, pen, fr);
            check_kkt(ch, &pr, Loss::Logistic, &pen, &c, Api::Solver, Task::Single, store, unit)
        },
    )
}
