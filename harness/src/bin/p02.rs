use harness::prelude::*;

fn main() {
    harness::explore::main(
        Spec { id: "P02", level: "exploration",
            rule: "every (design, target, strength, gamma, settings, API, storage, tasks) of a small integer space and of a pattern space with at most D settings departing from the default; non-trivial = some coefficient non-zero; tallies count coefficients ending in each region of the penalty",
            alphabet: "as P01; gamma = max(1, f x largest inverse curvature) for f in {1.05,1.5,3,10,1000}, and infinity; data in units of 1, 2^-30, 2^30",
            bounds: "columns 2^-6..2^-20 times smaller than others; nearly collinear problems of 10^4..10^6 epochs; D=2 quick, 3 thorough",
            assumptions: &["every feature's one-dimensional subproblem is strongly convex (curvature x gamma > 1); elsewhere the operator is not a minimiser and no guarantee is documented", "ample budgets"] },
        |ch| {
            if ch.flag() {
                // long runs
                let t = *ch.of(&[1, 2]);
                let pr = slow(ch, t, false);
                let g = *ch.of(&[1.5, 1.05, 1000.0]) * max_step(Loss::Quad, &pr).max(1.0);
                let pen = at_frac(Loss::Quad, &pr, Pen::Mcp(1.0, g), *ch.of(&[1e-2, 1e-4]));
                let task = if t > 1 { Task::Multi } else { *ch.of(&[Task::Single, Task::Multi]) };
                let (mi, me) = *ch.of(&LONG);
                let mut dev = Dev::new(by_tier(1, 2));
                let c = Cfg { mi, me, ws: *dev.of(ch, &[10, 2, 1]), acc: *dev.of(ch, &[false, true]), k: *dev.of(ch, &[5, 1, 30]), tol: *dev.of(ch, &[1e-8, 1e-5]), verbose: false };
                let store = *dev.of(ch, &STORES4);
                return check_kkt(ch, &pr, Loss::Quad, &pen, &c, Api::Est, task, store, 1.0);
            }
            if ch.flag() {
                // columns of very different size
                let t = *ch.of(&[1, 2]);
                let (pr, sm) = lopsided(ch, t, false);
                let g = *ch.of(&[1.5, 1000.0]) * max_step(Loss::Quad, &pr).max(1.0);
                let pen = Pen::Mcp(sm * *ch.of(&[0.05, 0.3]), g);
                let task = if t > 1 { Task::Multi } else { *ch.of(&[Task::Single, Task::Multi]) };
                let mut dev = Dev::new(by_tier(1, 2));
                let store = *dev.of(ch, &STORES4);
                let api = *dev.of(ch, &[Api::Est, Api::Solver]);
                let c = Cfg { tol: sm * *dev.of(ch, &[1e-6, 1e-4]), ws: *dev.of(ch, &[10, 1, 2]), acc: *dev.of(ch, &[true, false]), k: *dev.of(ch, &[5, 2]), ..Cfg::default() };
                return check_kkt(ch, &pr, Loss::Quad, &pen, &c, api, task, store, 1.0);
            }
            let small = ch.flag();
            let (pr, fr, f, c, api, task, store, unit);
            if small {
                pr = match ch.pick(by_tier(3, 5)) {
                    0 => tiny(ch, &[(2, 2, 1)], &[0.0, 1.0, -1.0, 2.0], &[-1.0, 0.0, 2.0]),
                    1 => tiny(ch, &[(2, 2, 2), (1, 1, 3)], &[0.0, 1.0, -2.0], &[-1.0, 2.0]),
                    2 => tiny(ch, &[(2, 3, 1), (1, 2, 2), (3, 1, 1)], &[0.0, 1.0, -1.0], &[-1.0, 2.0]),
                    3 => tiny(ch, &[(3, 3, 1)], &[0.0, 1.0, -1.0], &[-1.0, 2.0]),
                    _ => tiny(ch, &[(3, 2, 2)], &[0.0, 1.0, -1.0], &[-1.0, 2.0]),
                };
                fr = *ch.of(&[0.1, 0.4, 0.9, 0.0]);
                f = *ch.of(&[1.5, 1.05, 4.0]);
                task = if pr.t > 1 { Task::Multi } else { *ch.of(&[Task::Single, Task::Multi]) };
                store = *ch.of(&[Store::Dense(Layout::C), Store::Sparse(Csc::Sorted)]);
                api = Api::Est;
                let base = Cfg { tol: 1e-8, ..Cfg::default() };
                unit = 1.0;
                c = *ch.of(&[base, Cfg { ws: 1, ..base }, Cfg { acc: false, ..base }, Cfg { k: 1, ..base }, Cfg { k: 2, ws: 2, tol: 1e-3, ..base }][..by_tier(3, 5)]);
            } else {
                let mut dev = Dev::new(by_tier(2, 3));
                let (q, deco) = pattern_case(ch, &mut dev, by_tier(&SHAPES_Q[..], &SHAPES_T[..]), &[1, 2, 3, 5], by_tier(3, 5), false);
                pr = q;
                fr = *dev.of(ch, &[0.1, 0.02, 0.3, 0.6, 0.9, 0.99, 1.0, 1.5, 0.0]);
                f = *dev.of(ch, &[1.5, 1.05, 3.0, 10.0, 1000.0, f64::INFINITY]);
                if fr < 0.02 && (deco == Deco::Ill || pr.n <= pr.p) { ch.skip() }
                task = if pr.t > 1 { Task::Multi } else { *dev.of(ch, &[Task::Single, Task::Multi]) };
                store = *dev.of(ch, &STORES4);
                api = *dev.of(ch, &[Api::Est, Api::Solver]);
                unit = *dev.of(ch, &UNITS);
                c = cfg_dev(ch, &mut dev, pr.p, Cfg { tol: 1e-8, ..Cfg::default() }, &[1e-8, 1e-3, 1e-6, 1e-10]);
            }
            let g = (f * max_step(Loss::Quad, &pr)).max(1.0);
            if g.is_infinite() && fr == 0.0 || g.is_nan() { ch.skip() }
            let pen = at_frac(Loss::Quad, &pr, Pen::Mcp(1.0, g), fr);
            check_kkt(ch, &pr, Loss::Quad, &pen, &c, api, task, store, unit)
        },
    )
}
