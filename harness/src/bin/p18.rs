use harness::prelude::*;
use harness::{with_multi, with_single};
use ndarray::{Array1, Array2};
use sparseglm::datafits::single_task::Quadratic;
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase};
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L1, MCP};

/// value, proximal points and scores of a one-task group penalty and of its single-task counterpart
fn penalties(pen: &Pen, w: &[f64], g: &[f64], ws: &[usize], steps: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let (wa, ga, wsa) = (Array1::from(w.to_vec()), Array1::from(g.to_vec()), Array1::from(ws.to_vec()));
    let wm = wa.clone().into_shape((w.len(), 1)).unwrap();
    let gm = ga.clone().into_shape((g.len(), 1)).unwrap();
    macro_rules! both { ($s:expr, $m:expr) => {{
        let (s, m) = ($s, $m);
        let mut a = vec![s.value(wa.view())];
        let mut b = vec![m.value(wm.view())];
        for st in steps { for v in w.iter().chain(g) { a.push(s.prox(*v, *st)); b.extend(m.prox(Array1::from(vec![*v]).view(), *st)); } }
        let (x, mx) = s.subdiff_distance(wa.view(), ga.view(), wsa.view());
        a.extend(x); a.push(mx);
        let (x, mx) = m.subdiff_distance(wm.view(), gm.view(), wsa.view());
        b.extend(x); b.push(mx);
        (a, b)
    }} }
    real(|| match *pen { Pen::L1(a) => both!(L1::new(a), L21::new(a)), Pen::En(a, r) => both!(L1PlusL2::new(a, r), BlockL1PlusL2::new(a, r)), Pen::Mcp(a, g) => both!(MCP::new(a, g), BlockMCP::new(a, g)), _ => unreachable!() })
}

fn main() {
    harness::explore::main(
        Spec { id: "P18", level: "exploration",
            rule: "part 1: group penalties on one task against their single-task counterparts for every coefficient / gradient vector of the alphabet; part 2: losses, truncated fits (one outer iteration, any epochs) and converged fits of one-task problems against single-task ones, for matrix and 1-D targets, dense and sparse; part 3: equal target columns give equal coefficient columns; distinct by coefficients; trivial = all-zero result",
            alphabet: "entries 0 .3 1 -2 7 and the MCP flat point; integer designs {0,1,-2}, pattern designs x decorations; strengths .1 .5 .9; epochs 1 2 5 9 30; storages",
            bounds: "penalties: vectors of 2 (quick) / 3 entries; all integer designs up to 3x2; patterns up to 10x45; departures 1-2 (quick) / 1-3",
            assumptions: &["truncated fits are compared without acceleration and away from ties of the scores, null ones included (ties may be ordered either way)", "non-convex converged fits are not compared (several stationary points)"] },
        |ch| {
            let part = ch.pick(3);
            if part == 0 {
                let p = by_tier(2, 3);
                let fam = ch.pick(3);
                let a = *ch.of(&[0.5, 0.0, 2.0]);
                let pen = match fam { 0 => Pen::L1(a), 1 => Pen::En(a, *ch.of(&[0.5, 0.0, 1.0, 0.2])), _ => Pen::Mcp(a, *ch.of(&[3.0, 1.5, 10.0])) };
                let flat = if let Pen::Mcp(a, g) = pen { a * g } else { 1.5 };
                let ws_al = [0.0, 0.3, 1.0, -2.0, 7.0, flat];
                let w: Vec<f64> = (0..p).map(|_| *ch.of(&ws_al)).collect();
                let g: Vec<f64> = (0..p).map(|_| *ch.of(&[0.0, 0.5, -0.5, 3.0, -1.0])).collect();
                let ws: Vec<usize> = ch.of(&[vec![0, 1], vec![1, 0], vec![1], vec![0]]).clone();
                let gw: Vec<f64> = ws.iter().map(|j| g[*j]).collect();
                ch.note(|| format!("{pen:?} w={w:?} grad={gw:?} ws={ws:?}"));
                let (x, y) = penalties(&pen, &w, &gw, &ws, &[0.2, 1.0, 1.4]);
                ch.outcome_f(&y);
                ensure!(all_close(&x, &y, 1e-12), "{pen:?} at {w:?}, gradient {gw:?} of {ws:?}: value, proximal points and scores {x:?} on one task {y:?}");
                return Ok(());
            }
            let small = ch.flag();
            let mut d = Dev::new(if small { by_tier(1, 2) } else { by_tier(2, 3) });
            let t = if part == 2 { 2 + d.pick(ch, 2) } else { 1 };
            let pr = if small { let q = tiny(ch, by_tier(&[(2, 2, 1), (1, 2, 1), (3, 1, 1)][..], &[(2, 2, 1), (1, 2, 1), (3, 1, 1), (3, 2, 1), (2, 3, 1)][..]), &[0.0, 1.0, -2.0], &[-1.0, 2.0]); q } else {
                pattern_case(ch, &mut d, by_tier(&[(6, 4), (1, 4), (4, 12), (12, 5)][..], &[(6, 4), (1, 1), (1, 4), (4, 12), (12, 5), (20, 20), (10, 45)][..]), &[1], 3, false).0
            };
            if small && pr.n * pr.p > 4 { d.left = d.left.min(1) }
            let fam = ch.pick(3);
            let pen = match fam { 0 => Pen::L1(1.0), 1 => Pen::En(1.0, *d.of(ch, &[0.5, 0.0, 1.0])), _ => Pen::Mcp(1.0, 1.5 * max_step(Loss::Quad, &pr).max(1.0)) };
            let pen = at_frac(Loss::Quad, &pr, pen, *d.of(ch, &[0.1, 0.5, 0.9]));
            let store = *d.of(ch, &STORES4);
            let api = *d.of(ch, &[Api::Est, Api::Solver]);
            let ylay = *d.of(ch, &[Layout::C, Layout::F, Layout::Strided]);
            ch.note(|| format!("{pen:?} {api:?} {store:?} {ylay:?} tasks={t} {}", pr.show()));
            if part == 2 {
                // every task has the same target
                let prt = Prob { t, y: pr.y.iter().flat_map(|v| vec![*v; t]).collect(), ..pr.clone() };
                let c = cfg_dev(ch, &mut d, pr.p, Cfg { mi: 20, me: 300, ..Cfg::default() }, &[1e-9, 1e-4]);
                let w = ok(fit_f::<f64>(&prt, Loss::Quad, &pen, &c, api, Task::Multi, store, ylay))?;
                ch.outcome_f(&w);
                if w.iter().all(|v| *v == 0.0) { ch.trivial() }
                for r in w.chunks(t) { for v in r { ensure!(close(*v, r[0], 1e-9), "{c:?}: equal targets but coefficient row {r:?}"); } }
                return Ok(());
            }
            // losses
            let fits = [vec![0.0; pr.n], (0..pr.n).map(|i| ((i * 7) % 5) as f64 - 2.0).collect()];
            let s = with_single!(&pr, store, Layout::C, f64, |ds| single_numbers(&ds, &mut Quadratic::<f64>::new(), &fits));
            let m = with_multi!(&pr, store, ylay, f64, |ds| multi_numbers(&ds, &fits, pr.n, 1));
            let m: Vec<f64> = m[..pr.p].iter().chain(&m[2 * pr.p..]).cloned().collect();
            ensure!(all_close(&s, &m, 1e-12), "loss outputs: single {s:?} one task {m:?}");
            // a one-dimensional target is one task
            let y1 = Array1::from(pr.y.clone());
            let (nt, ns, col) = real(|| (y1.n_tasks(), y1.n_samples(), y1.as_multi_tasks().to_owned()));
            ensure!(nt == 1 && ns == pr.n && col == Array2::from_shape_vec((pr.n, 1), pr.y.clone()).unwrap(), "1-D target seen as {ns} samples x {nt} tasks {col:?}");
            ensure!(real(|| y1.try_single_target().map(|v| v.to_owned())).ok() == Some(y1.clone()), "1-D target not returned as such");
            let one_d = |c: &Cfg| -> Result<Vec<f64>, Failure> {
                let x = Array2::from_shape_vec((pr.n, pr.p), pr.x.clone()).unwrap();
                let csc = CscBuf::<f64>::new(&pr, Csc::Sorted);
                match store { Store::Dense(_) => ok(est_multi::<f64, _, _>(&DatasetBase::from((x.view(), y1.view())), &pen, c)), _ => ok(est_multi::<f64, _, _>(&DatasetBase::from((csc.view(), y1.view())), &pen, c)) }
            };
            let unit = *d.of(ch, &UNITS);
            let tie = near_tie_scores(Loss::Quad, &pr, &pen);
            for me in [1, 2, 5, 9, 30] {
                let c = Cfg { mi: 1, me, ws: *d.of(ch, &[100, 2]), acc: false, ..Cfg::default() };
                let a = if unit != 1.0 { fit_u(ch, &pr, Loss::Quad, &pen, &c, api, Task::Single, store, unit)? } else { ok(fit_f::<f64>(&pr, Loss::Quad, &pen, &c, api, Task::Single, store, Layout::C))? };
                let b = if unit != 1.0 { fit_u(ch, &pr, Loss::Quad, &pen, &c, api, Task::Multi, store, unit)? } else { ok(fit_f::<f64>(&pr, Loss::Quad, &pen, &c, api, Task::Multi, store, ylay))? };
                ch.outcome_f(&a);
                if !tie { ensure!(all_close(&a, &b, 1e-9), "{c:?}: single-task fit {a:?}, one-task fit {b:?}"); }
                let e = one_d(&c)?;
                if store == Store::Dense(Layout::C) || store == Store::Sparse(Csc::Sorted) { if !tie { ensure!(all_close(&e, &b, 1e-11), "{c:?}: fit on a 1-D target {e:?}, on a one-column target {b:?}"); } }
            }
            let c = cfg_dev(ch, &mut d, pr.p, Cfg { mi: 100, ..Cfg::default() }, &[1e-9, 1e-7]);
            let a = if unit != 1.0 { fit_u(ch, &pr, Loss::Quad, &pen, &c, api, Task::Single, store, unit)? } else { ok(fit_f::<f64>(&pr, Loss::Quad, &pen, &c, api, Task::Single, store, Layout::C))? };
            let b = if unit != 1.0 { fit_u(ch, &pr, Loss::Quad, &pen, &c, api, Task::Multi, store, unit)? } else { ok(fit_f::<f64>(&pr, Loss::Quad, &pen, &c, api, Task::Multi, store, ylay))? };
            if pen.convex() { same_solution(&pr, Loss::Quad, &pen, &a, &b, c.tol, "single-task / one-task fit")?; same_solution(&pr, Loss::Quad, &pen, &one_d(&c)?, &b, c.tol, "1-D / one-column target")?; }
            if a.iter().all(|v| *v == 0.0) { ch.trivial() }
            Ok(())
        },
    )
}
