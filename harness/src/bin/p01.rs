use harness::prelude::*;

fn main() {
    harness::explore::main(
        Spec { id: "P01", level: "exploration",
            rule: "every (design, target, penalty, strength, settings, API, storage) of two spaces: all small integer designs, and pattern designs with at most D settings departing from the default; non-trivial = some coefficient is non-zero; distinct by fitted coefficients",
            alphabet: "design entries {-1,0,1,2}, targets {-1,0,2}; pattern designs up to 150x70 / 3x300 with sparse, duplicated, opposite, empty, ill-scaled, collinear columns; strengths 0..1.5 of critical; mixing 0,.3,.5,.9,1; tasks 1,2,3,5; tolerances 1e-3..1e-10; data in units of 1, 2^-30, 2^30",
            bounds: "see src/bin/p01.rs; nearly collinear problems of 10^4..10^6 epochs; columns 2^-6..2^-20 times smaller than others; sizes 3x600 2x1100 1200x3 70001x2 (thorough: to 66000 features); D=2 quick, 3 thorough",
            assumptions: &["ample budgets: 500 outer iterations x 20000 epochs"] },
        |ch| {
            match ch.pick(5) {
                0 => {
                    // small integer designs
                    let pr = match ch.pick(by_tier(4, 6)) {
                        0 => tiny(ch, &[(2, 2, 1)], &[0.0, 1.0, -1.0, 2.0], &[-1.0, 0.0, 2.0]),
                        1 => tiny(ch, &[(2, 2, 2)], &[0.0, 1.0, -1.0], &[-1.0, 2.0]),
                        2 => tiny(ch, &[(2, 3, 1), (1, 3, 1), (1, 2, 2)], &[0.0, 1.0, -1.0], &[-1.0, 2.0]),
                        3 => tiny(ch, &[(3, 2, 1), (3, 1, 2), (1, 1, 3)], &[0.0, 1.0, -1.0], &[-1.0, 2.0]),
                        4 => tiny(ch, &[(3, 3, 1)], &[0.0, 1.0, -1.0], &[-1.0, 2.0]),
                        _ => tiny(ch, &[(3, 2, 2)], &[0.0, 1.0, -1.0], &[-1.0, 2.0]),
                    };
                    let pen = *ch.of(&[Pen::L1(1.0), Pen::En(1.0, 0.5), Pen::En(1.0, 0.0)]);
                    let a = *ch.of(&[0.0, 0.1, 0.4, 1.0]);
                    let pen = pen.with_alpha(a);
                    let task = if pr.t > 1 { Task::Multi } else { *ch.of(&[Task::Single, Task::Multi]) };
                    let store = *ch.of(&[Store::Dense(Layout::C), Store::Sparse(Csc::Sorted)]);
                    let base = Cfg { tol: 1e-8, ..Cfg::default() };
                    let c = *ch.of(&[base, Cfg { ws: 1, ..base }, Cfg { k: 1, ..base }, Cfg { acc: false, ..base }, Cfg { k: 2, ws: 2, tol: 1e-3, ..base }][..by_tier(3, 5)]);
                    check_kkt(ch, &pr, Loss::Quad, &pen, &c, Api::Est, task, store, 1.0)
                }
                1 => {
                    let (n, p) = *ch.of(by_tier(&SHAPES_Q[..], &SHAPES_T[..]));
                    let deco = *ch.of(&DECOS);
                    let mut dev = Dev::new(by_tier(2, 3));
                    let t = *dev.of(ch, &[1, 2, 3, 5]);
                    let variant = dev.pick(ch, by_tier(3, 5));
                    let pr = pattern(n, p, t, variant, deco, false);
                    let pen = *ch.of(&[Pen::L1(1.0), Pen::En(1.0, 0.5), Pen::En(1.0, 0.0), Pen::En(1.0, 1.0), Pen::En(1.0, 0.9)]);
                    let fr = *dev.of(ch, &[0.1, 0.02, 0.5, 0.9, 0.99, 1.0, 1.5, 0.0]);
                    let slow = fr < 0.02 || (pen == Pen::En(1.0, 0.0) && fr < 0.1);
                    if !thorough() && p > 100 && pen == Pen::En(1.0, 0.0) { ch.skip() }
                    if slow && (deco == Deco::Ill || n < p || n == 20) { ch.skip() }
                    let pen = at_frac(Loss::Quad, &pr, pen, fr);
                    let task = if t > 1 { Task::Multi } else { *dev.of(ch, &[Task::Single, Task::Multi]) };
                    let store = *dev.of(ch, &[Store::Dense(Layout::C), Store::Sparse(Csc::Sorted), Store::Dense(Layout::F), Store::Sparse(Csc::Reversed)]);
                    let api = *dev.of(ch, &[Api::Est, Api::Solver]);
                    let unit = *dev.of(ch, &UNITS);
                    let c = cfg_dev(ch, &mut dev, p, Cfg { tol: 1e-8, ..Cfg::default() }, &[1e-8, 1e-3, 1e-6, 1e-10]);
                    check_kkt(ch, &pr, Loss::Quad, &pen, &c, api, task, store, unit)
                }
                4 => {
                    // columns of very different size
                    let t = *ch.of(&[1, 2]);
                    let (pr, sm) = lopsided(ch, t, false);
                    let task = if t > 1 { Task::Multi } else { *ch.of(&[Task::Single, Task::Multi]) };
                    let mut dev = Dev::new(by_tier(1, 2));
                    let pen = *ch.of(&[Pen::L1(1.0), Pen::En(1.0, 0.5), Pen::En(1.0, 1.0)]);
                    let pen = pen.with_alpha(sm * *ch.of(&[0.05, 0.0, 0.3]));
                    if let Pen::En(a, _) = pen { if a == 0.0 { ch.skip() } }
                    let store = *dev.of(ch, &[Store::Dense(Layout::C), Store::Sparse(Csc::Sorted)]);
                    let api = *dev.of(ch, &[Api::Est, Api::Solver]);
                    let c = Cfg { tol: sm * *dev.of(ch, &[1e-6, 1e-4]), ws: *dev.of(ch, &[10, 1, 2]), acc: *dev.of(ch, &[true, false]), k: *dev.of(ch, &[5, 2]), ..Cfg::default() };
                    check_kkt(ch, &pr, Loss::Quad, &pen, &c, api, task, store, 1.0)
                }
                3 => {
                    // sizes past blocked loops and narrow index types
                    let (n, p) = *ch.of(by_tier(&[(3, 600), (2, 1100), (1200, 3), (70001, 2)][..], &[(3, 600), (2, 1100), (1200, 3), (70001, 2), (5, 5000), (2, 66000), (140001, 2)][..]));
                    let deco = *ch.of(&[Deco::Plain, Deco::Sparse, Deco::Scaled]);
                    let mut dev = Dev::new(by_tier(1, 2));
                    let t = *ch.of(&[1, 2]);
                    let pr = pattern(n, p, t, dev.pick(ch, 3), deco, false);
                    let pen = at_frac(Loss::Quad, &pr, *ch.of(&[Pen::L1(1.0), Pen::En(1.0, 0.5)]), *ch.of(&[0.3, 0.9]));
                    let task = if t > 1 { Task::Multi } else { *dev.of(ch, &[Task::Single, Task::Multi]) };
                    let store = *dev.of(ch, &[Store::Dense(Layout::C), Store::Sparse(Csc::Sorted), Store::Dense(Layout::F)]);
                    let c = Cfg { tol: 1e-7, ws: *dev.of(ch, &[10, 1, 5000]), acc: *dev.of(ch, &[true, false]), ..Cfg::default() };
                    check_kkt(ch, &pr, Loss::Quad, &pen, &c, Api::Est, task, store, 1.0)
                }
                _ => {
                    // long runs
                    let t = *ch.of(&[1, 2]);
                    let pr = slow(ch, t, false);
                    let task = if t > 1 { Task::Multi } else { *ch.of(&[Task::Single, Task::Multi]) };
                    let pen = *ch.of(&[Pen::L1(1.0), Pen::En(1.0, 0.99999)]);
                    let pen = at_frac(Loss::Quad, &pr, pen, *ch.of(&[1e-4, 0.0, 1e-6]));
                    let (mi, me) = *ch.of(&LONG);
                    let mut dev = Dev::new(by_tier(1, 2));
                    let c = Cfg { mi, me, ws: *dev.of(ch, &[10, 2, 1]), acc: *dev.of(ch, &[false, true]), k: *dev.of(ch, &[5, 1, 30]), tol: *dev.of(ch, &[1e-8, 1e-5]), verbose: false };
                    let api = *ch.of(by_tier(&[Api::Est][..], &[Api::Est, Api::Solver][..]));
                    let store = *ch.of(by_tier(&[Store::Dense(Layout::C)][..], &[Store::Dense(Layout::C), Store::Sparse(Csc::Reversed)][..]));
                    if api == Api::Solver && pr.p == 2 { ch.skip() }
                    check_kkt(ch, &pr, Loss::Quad, &pen, &c, api, task, store, 1.0)
                }
            }
        },
    )
}
