//! Longer runs: many concrete local results with a few symbolic ones among them.
#![allow(static_mut_refs)]
use crate::common::*;
#[cfg(feature = "full")]
use crate::memfs::fs;
use crate::rt::*;
use globalsearch::observers::Observer;
use globalsearch::oqnlp::OQNLP;

static mut SEEN: Vec<(usize, usize)> = Vec::new();

/// cfg: bits 0-2 batch (sequential, 2, 5, 9, 12, 20, unset, 1); bits 3-4 iterations (12, 20, 24, 40); bits 5-6 tolerance (0, 0.5 absolute, 0.25 relative, default);
/// bit 7 NaN and infinite objectives; bit 8 observer; bit 9 killed and resumed; bit 10 exclusion; bit 11 target; bit 12 nine dimensions; bit 13 results improve slowly
pub fn h_long(cfg: u64) {
    let batch = [1, 2, 5, 9, 12, 20, 0, 1][(cfg & 7) as usize];
    let par = cfg & 7 != 0;
    let n = [12, 20, 24, 40][((cfg >> 3) & 3) as usize];
    let (at, rt) = [(0.0, 0.0), (0.5, 0.0), (0.0, 0.25), (1e-8, 1e-6)][((cfg >> 5) & 3) as usize];
    let kinds = if cfg & 128 != 0 { 7 } else { 0 };
    let observer = cfg & 256 != 0;
    let kill = cfg & 512 != 0;
    let excl = cfg & 1024 != 0;
    let dims = if cfg & 4096 != 0 { 9 } else { 1 };
    let slow = cfg & 8192 != 0;
    let d = 1.5;
    w().bounds = vec![(-4.0, 4.0); dims];
    let top = 4194304.0;
    w().bounds[dims - 1] = if excl { (-top, top) } else { (-200.0, 200.0) };
    // results lie far from the candidates
    flat_objective(-1000.0);
    let target = if cfg & 2048 != 0 { Some(num("target", -12, -1, 4)) } else { None };
    // with exclusion about the first ten results are within the bounds
    let outside = if excl { top - 42.0 } else { 1000.0 };
    local_any(move |i| {
        let mut x = vec![0.25; dims];
        let spot = |k: usize| outside + 4.0 * k as f64;
        let mut f = if slow { -(i as f64) / 8.0 } else { 0.0 };
        x[dims - 1] = spot(i);
        if kill { if i == 1 || i == n / 2 { f = num(&tagn("f", i), -8, 8, 4); x[dims - 1] = spot(if choice(&tagn("place", i), 2) == 0 { i } else { 0 }); } }
        else if i == 1 || i == n / 2 || i == n - 1 {
            f = ext_num(&tagn("f", i), -8, 8, 4, kinds);
            let at = [i, 0, if i > 5 { i - 4 } else { 0 }][choice(&tagn("place", i), if i == 1 { 2 } else { 3 })];
            x[dims - 1] = spot(at) + num(&tagn("x", i), -4, 4, 2);
        }
        (f, x)
    });
    let mk = || {
        let mut p = params(n, n, d);
        p.seed = 3;
        let o = OQNLP::new(P, p).unwrap().with_tolerance(at, rt).set_exclude_out_of_bounds(excl);
        let o = match target { Some(v) => o.target_objective(v), None => o };
        #[cfg(feature = "full")]
        let o = { let o = o.parallel(par); if par && batch > 0 { o.batch_iterations(batch) } else { o } };
        let _ = par;
        o
    };
    let mut o = mk();
    if observer {
        o = o.add_observer(Observer::new().with_stage1_tracking().with_stage2_tracking().with_callback(|o| if let Some(s) = o.stage2() { unsafe { SEEN.push((s.current_iteration(), s.local_solver_calls())) } }).with_callback_frequency(7));
    }
    let r = o.run();
    let calls = t().calls.clone();
    log("ncalls", calls.len() as u64);
    // the solution set as specified
    let tol = |a: f64, b: f64| -> f64 { let m = if a.abs() > b.abs() { a.abs() } else { b.abs() }; if rt * m > at { rt * m } else { at } };
    let mut members: Vec<(f64, f64)> = vec![];
    let mut improved = 0;
    let mut reach = None;
    for (i, c) in calls.iter().enumerate() {
        let x = c.x[dims - 1];
        if excl && !fork((x >= -top) & (x <= top)) { cover("excluded"); continue; }
        let mut changed = true;
        if members.is_empty() { members.push((c.f, x)); }
        else {
            let b = members[0].0;
            let fin = fork(c.f.is_finite() & b.is_finite());
            let better = if fin { c.f < b - tol(c.f, b) } else { (c.f < b) | (b.is_nan() & !c.f.is_nan()) };
            let same = if fin { (c.f - b).abs() <= tol(c.f, b) } else { c.f == b };
            if fork(better) { cover("new best"); members = vec![(c.f, x)]; }
            else if fork(same) {
                let mut dup = false;
                for m in &members { let dx = x - m.1; dup |= dx * dx < d * d; }
                if fork(dup) { cover("duplicate"); changed = false; } else { cover("as good"); members.push((c.f, x)); }
            } else { changed = false; }
        }
        if changed && i > 0 { improved += 1; }
        if let Some(tg) = target { let mut any = false; for m in &members { any |= m.0 <= tg; } if fork(any) { reach = Some(i); cover("target reached"); break; } }
    }
    let b = if !par || !cfg!(feature = "full") { 1 } else if batch > 0 { batch } else { (n / (w().threads * 2)).clamp(2, 8) };
    match reach {
        None => check(calls.len() == n + 1 || excl, "a candidate passing both filters gets no local search"),
        Some(i) => check(calls.len() <= if i == 0 { 1 } else { (1 + (i - 1) / b * b + b).min(n + 1) } && calls.len() > i, "local searches go on after the target objective was reached"),
    }
    match &r {
        Ok(s) => {
            let got: Vec<(f64, f64)> = s.solutions().map(|l| (l.objective, l.point[dims - 1])).collect();
            check(got.len() == members.len(), "the solution set does not have the solutions found");
            for (a, b) in got.iter().zip(&members) { check(((a.0 == b.0) | (a.0.is_nan() & b.0.is_nan())) & (a.1 == b.1), "the solution set does not hold the solutions found"); }
        }
        Err(_) => check(members.is_empty(), "the run fails although solutions were found"),
    }
    if observer {
        let obs = o.observer().unwrap();
        let s = obs.stage2();
        if let (Some(s), Ok(set)) = (s, &r) {
            let done = reach.unwrap_or(calls.len() - 1);
            check(s.local_solver_calls() == done, "stage 2 reports another number of local searches than were made");
            check(s.improved_local_calls() == improved, "stage 2 reports another number of improving local searches");
            check(s.solution_set_size() == set.len(), "stage 2 reports another size of the solution set");
            let best = set.best_solution().unwrap().objective;
            check((s.best_objective() == best) | (best.is_nan() & s.best_objective().is_nan()), "stage 2 reports another best objective than returned");
            if reach.is_none() && !excl {
                let its: Vec<usize> = unsafe { SEEN.iter().map(|s| s.0).collect() };
                let want: Vec<usize> = (0..n).filter(|i| i % 7 == 0).collect();
                check(its == want, "a stage-2 callback is missing, repeated or not a multiple of the frequency");
            }
        }
    }
    #[cfg(feature = "full")]
    if kill {
        use crate::h_det::{outcome, same_points, same_results};
        let u = outcome(r);
        let keep_all = n == 20;
        let cc = globalsearch::types::CheckpointConfig { checkpoint_dir: "/memfs/c".into(), checkpoint_name: "s".into(), save_frequency: 5, keep_all, auto_resume: true };
        let at = w().local_calls + [2, 7, n / 2 + 2, n - 1][choice("kill", 4)];
        let mut f = w().local.take().unwrap();
        w().local = Some(Box::new(move |c| { if w().local_calls >= at { fs().crashed = true; } f(c) }));
        let go = || { let mut o = mk().with_checkpointing(cc.clone()).unwrap(); let r = o.run(); outcome(r) };
        let _ = go();
        if fs().crashed { cover("killed"); }
        let mut f = w().local.take().unwrap();
        w().local = Some(Box::new(move |c| { f(c); fs().crashed = false; }));
        fs().reboot();
        let v = go();
        if v.calls.len() < u.calls.len() { cover("resumed"); }
        same_results(&v, &u, "a run resumed after a crash ends differently from an uninterrupted run");
        let pu: Vec<Vec<f64>> = u.calls.iter().map(|c| c.0.clone()).collect();
        let pv: Vec<Vec<f64>> = v.calls.iter().map(|c| c.0.clone()).collect();
        check(pv.len() <= pu.len(), "a resumed run searches more than an uninterrupted one");
        if pv.len() <= pu.len() { same_points(&pv, &pu[pu.len() - pv.len()..], true, "a resumed run repeats, skips or reorders local searches"); }
    }
    let _ = kill;
}
