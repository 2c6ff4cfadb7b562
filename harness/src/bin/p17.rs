use harness::prelude::*;

/// a fit whose output is what matters: run in a process of its own
fn probe(a: &[String]) -> ! {
    let v: Vec<usize> = a.iter().map(|s| s.parse().unwrap()).collect();
    let (pr, _) = (int_pattern(6, 4, 1 + v[1], 0, false), ());
    let pen = at_frac(Loss::Quad, &pr, [Pen::L1(1.0), Pen::En(1.0, 0.5), Pen::Mcp(1.0, 100.0)][v[0]].clone(), 0.1);
    let c = Cfg { ws: 2, mi: 3, me: 25, tol: 1e-12, k: 3, acc: v[3] == 1, verbose: v[4] == 1 };
    let store = if v[2] == 1 { Store::Sparse(Csc::Sorted) } else { Store::Dense(Layout::C) };
    let r = fit(&pr, Loss::Quad, &pen, &c, if v[5] == 1 { Api::Est } else { Api::Solver }, if v[1] == 1 { Task::Multi } else { Task::Single }, store);
    std::process::exit(if r.is_ok() { 0 } else { 3 })
}
/// the verbosity reaches the solver too: as many lines come out of the estimator as of the solver
fn verbosity(ch: &mut Ch) -> Res {
    let v: Vec<usize> = [3, 2, 2, 2, 2].iter().map(|n| ch.pick(*n)).collect();
    let lines = |est: usize| -> Result<usize, String> {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let o = std::process::Command::new(exe).arg("--probe").args(v.iter().chain(&[est]).map(|n| n.to_string())).stdin(std::process::Stdio::null()).output().map_err(|e| e.to_string())?;
        if !o.status.success() { return Err(format!("the fit ended with {}: {}", o.status, String::from_utf8_lossy(&o.stderr))); }
        Ok(o.stdout.iter().filter(|b| **b == b'\n').count())
    };
    let (a, b) = match (lines(1), lines(0)) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => bad!("{e}") };
    ch.note(|| format!("penalty {}, multi={}, sparse={}, acceleration={}, verbose={}: {a} lines from the estimator, {b} from the solver", v[0], v[1], v[2], v[3], v[4]));
    ch.outcome(&(a, b));
    if b == 0 { ch.trivial() }
    ensure!(a == b, "the estimator writes {a} lines, the solver with the same settings {b}");
    Ok(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 2 && args[1] == "--probe" { probe(&args[2..]) }
    harness::explore::main(
        Spec { id: "P17", level: "exploration",
            rule: "every (estimator, problem, storage, settings): coefficients of the estimator against those of the generic solver with the corresponding loss, penalty and settings, also under budgets that stop it early; every single setting and every pair of settings departs from its default; distinct by coefficients; trivial = all-zero result",
            alphabet: "six estimators; pattern designs x decorations; budgets 0 1 2 3 outer x 0 1 2 5 11 30 epochs; depths 1 2 3 5 8; start sizes 1 2 3 10 50; tolerances 1e-9 1e-2 0 .3; acceleration, verbosity; ratios 0 .3 .9 1; gammas 1.5 3 10 inf; dense layouts, CSC kinds, 1-D targets for the multi-task estimators; f64 and f32",
            bounds: "every estimator with verbosity on and off in a process of its own, lines counted; nearly collinear problems under budgets up to 70001; departures 3 (quick) / 4",
            assumptions: &["same arithmetic in both paths: equality up to 1e-12 relative"] },
        |ch| {
            if ch.flag() && ch.flag() { return verbosity(ch); }
            if ch.flag() {
                // budgets beyond the ranges of narrow types, on problems that use them up
                let t = *ch.of(&[1, 2]);
                let pr = slow(ch, t, false);
                let pen = *ch.of(&[Pen::L1(1.0), Pen::En(1.0, 0.99999), Pen::Mcp(1.0, 1.5 * max_step(Loss::Quad, &pr).max(1.0))]);
                let pen = at_frac(Loss::Quad, &pr, pen, *ch.of(&[1e-4, 1e-2]));
                let (mi, me) = *ch.of(by_tier(&[(1, 70_001), (70_001, 1), (300, 300), (1, 1001), (1001, 1)][..], &[(1, 70_001), (70_001, 1), (300, 300), (1, 1001), (1001, 1), (1, 10_001), (10_001, 1)][..]));
                let mut d = Dev::new(if mi * me > 60_000 { by_tier(0, 1) } else { 1 });
                let c = Cfg { mi, me, ws: *d.of(ch, &[10, 2, 1, 70_000]), acc: *ch.of(&[false, true]), k: *d.of(ch, &[5, 30, 150]), tol: *d.of(ch, &[1e-14, 1e-9]), verbose: false };
                let store = *d.of(ch, &[Store::Dense(Layout::C), Store::Sparse(Csc::Reversed)]);
                let task = if t > 1 { Task::Multi } else { Task::Single };
                ch.note(|| format!("long {pen:?} {task:?} {store:?} {c:?} {}", pr.show()));
                let (a, b) = (ok(fit(&pr, Loss::Quad, &pen, &c, Api::Est, task, store))?, ok(fit(&pr, Loss::Quad, &pen, &c, Api::Solver, task, store))?);
                ch.outcome_f(&a);
                ensure!(all_close(&a, &b, 1e-12), "estimator {a:?}, solver {b:?}");
                return Ok(());
            }
            let mut d = Dev::new(by_tier(3, 4));
            let multi = ch.flag();
            let (pr, deco) = pattern_case(ch, &mut d, by_tier(&[(6, 4), (4, 12)][..], &[(6, 4), (4, 12), (1, 1), (12, 5)][..]), if multi { &[2, 1, 3] } else { &[1] }, 2, false);
            let fam = ch.pick(3);
            let pen = match fam { 0 => Pen::L1(1.0), 1 => Pen::En(1.0, *d.of(ch, &[0.3, 0.0, 0.9, 1.0])), _ => Pen::Mcp(1.0, *d.of(ch, &[3.0, 1.5, 10.0, f64::INFINITY])) };
            let pen = at_frac(Loss::Quad, &pr, pen, *d.of(ch, &[0.1, 0.0, 0.6, 1.1]));
            if let Pen::Mcp(_, g) = pen { if max_step(Loss::Quad, &pr) >= g { ch.skip() } if pen.alpha() == 0.0 && g.is_infinite() { ch.skip() } }
            let c = Cfg { mi: *d.of(ch, &[2, 0, 1, 3, 50]), me: *d.of(ch, &[12, 0, 1, 2, 5, 30]), ws: *d.of(ch, &[2, 1, 3, 10, 50]), k: *d.of(ch, &[3, 1, 2, 5, 8]), tol: *d.of(ch, &[1e-9, 1e-2, 0.0, 0.3]), acc: *d.of(ch, &[true, false]), verbose: d.pick(ch, 2) == 1 };
            let store = *d.of(ch, &[Store::Dense(Layout::C), Store::Sparse(Csc::Sorted), Store::Dense(Layout::F), Store::Dense(Layout::Strided), Store::Dense(Layout::Shared), Store::Sparse(Csc::Reversed)]);
            let task = if multi { Task::Multi } else { Task::Single };
            let f32b = d.pick(ch, 2) == 1;
            ch.note(|| format!("{pen:?} {task:?} {deco:?} {store:?} f32={f32b} {c:?} {}", pr.show()));
            let go = |api| if f32b { fit_f::<f32>(&pr, Loss::Quad, &pen, &c, api, task, store, Layout::C) } else { fit(&pr, Loss::Quad, &pen, &c, api, task, store) };
            let (a, b) = (ok(go(Api::Est))?, ok(go(Api::Solver))?);
            ch.outcome_f(&a);
            if b.iter().all(|v| *v == 0.0) { ch.trivial() }
            let tol = if f32b { 1e-5 } else { 1e-12 };
            ensure!(all_close(&a, &b, tol), "estimator {a:?}, solver {b:?}");
            Ok(())
        },
    )
}
