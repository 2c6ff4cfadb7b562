use harness::prelude::*;

fn main() {
    harness::explore::main(
        Spec { id: "P04", level: "exploration",
            rule: "every (loss, design, target, strength, settings, storage) of a small integer space and of a pattern space with at most D settings departing from the default; non-trivial = some coefficient non-zero",
            alphabet: "as P01/P03 with the L0.5 penalty, quadratic and logistic losses; data in units of 1, 2^-30, 2^30; columns scaled by 2^-6..2^-20 against each other",
            bounds: "D=2 quick, 3 thorough",
            assumptions: &["ample budgets", "at an exact tie between zero and non-zero minimisers of a coordinate problem both count as fixed points"] },
        |ch| {
            if ch.flag() {
                // columns of very different size; the gap is measured in the (larger) units of the coefficients
                let loss = *ch.of(&[Loss::Quad, Loss::Logistic]);
                let lg = loss == Loss::Logistic;
                let (pr, sm) = lopsided(ch, 1, lg);
                let pr = if lg { overlap(&pr) } else { pr };
                let mut dev = Dev::new(by_tier(1, 2));
                let pen = at_frac(loss, &pr, Pen::L05(1.0), *ch.of(&[0.2, 0.8 * sm, 0.1 * sm]));
                let store = *dev.of(ch, &STORES4);
                let c = Cfg { tol: *dev.of(ch, &[1e-6, 1e-3]), ws: *dev.of(ch, &[10, 1, 2]), acc: *dev.of(ch, &[true, false]), k: *dev.of(ch, &[5, 2]), ..Cfg::default() };
                return check_kkt(ch, &pr, loss, &pen, &c, Api::Solver, Task::Single, store, 1.0);
            }
            let small = ch.flag();
            let loss = *ch.of(&[Loss::Quad, Loss::Logistic]);
            let lg = loss == Loss::Logistic;
            let (pr, fr, c, store, unit);
            if small {
                let ys: &[f64] = if lg { &[1.0, -1.0] } else { &[-1.0, 0.0, 2.0] };
                pr = match ch.pick(by_tier(2, 3)) {
                    0 => tiny(ch, &[(2, 2, 1), (1, 2, 1)], &[0.0, 1.0, -1.0, 2.0], ys),
                    1 => tiny(ch, &[(2, 3, 1)], &[0.0, 1.0, -1.0], ys),
                    _ => tiny(ch, &[(3, 2, 1)], &[0.0, 1.0, -1.0, 2.0], ys),
                };
                fr = *ch.of(&[0.3, 0.05, 0.8]);
                store = *ch.of(&[Store::Dense(Layout::C), Store::Sparse(Csc::Reversed)]);
                let base = Cfg { tol: 1e-7, ..Cfg::default() };
                unit = 1.0;
                c = *ch.of(&[base, Cfg { ws: 1, ..base }, Cfg { acc: false, ..base }]);
            } else {
                let mut dev = Dev::new(by_tier(2, 3));
                let (q, _) = pattern_case(ch, &mut dev, &[(6, 4), (1, 1), (1, 4), (5, 1), (12, 5), (20, 20), (8, 40)], &[1], by_tier(3, 5), lg);
                pr = q;
                // far from the threshold only where the problem itself stays well conditioned
                fr = *dev.of(ch, if !lg && pr.n > pr.p { &[0.2, 0.05, 0.5, 0.9, 1.5, 3.0, 1e-3, 1e-5] } else { &[0.2, 0.05, 0.5, 0.9, 1.5, 3.0] });
                store = *dev.of(ch, &STORES4);
                unit = *dev.of(ch, &UNITS);
                c = cfg_dev(ch, &mut dev, pr.p, Cfg { tol: 1e-7, ..Cfg::default() }, &[1e-7, 1e-3, 1e-5, 1e-9]);
            }
            let pen = at_frac(loss, &pr, Pen::L05(1.0), fr);
            check_kkt(ch, &pr, loss, &pen, &c, Api::Solver, Task::Single, store, unit)
        },
    )
}
