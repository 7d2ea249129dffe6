//! Stopping, gating and determinism of a whole `OQNLP::run`.
use crate::common::*;
use crate::memfs::fs;
use crate::rt::*;
use globalsearch::oqnlp::OQNLP;
use ndarray::Array2;

/// Early stop at the target objective.
/// cfg: bits 0-1 batch mode; bit 2 exclusion; bits 3-4 objective kinds; bits 5-6 iterations-2; bit 7 tolerance 0.5
pub fn h_target(cfg: u64) {
    let batch = (cfg & 3) as usize;
    let excl = cfg & 4 != 0;
    let kinds = ((cfg >> 3) & 3) as u32;
    let iters = 2 + ((cfg >> 5) & 3) as usize;
    w().bounds = vec![(-4.0, 4.0)];
    flat_objective(-1000.0);
    // never equal to a reference point, so with a zero distance factor nothing is filtered
    local_any(move |i| (ext_num(&tagn("f", i), -8, 8, 4, kinds), vec![num(&tagn("x", i), -12, 12, 2) + 0.25]));
    let target = num("target", -8, 8, 4);
    let mut p = params(iters, 5, 0.0);
    p.wait_cycle = 1;
    let o = OQNLP::new(P, p).unwrap().with_tolerance(if cfg & 128 != 0 { 0.5 } else { 0.0 }, 0.0).set_exclude_out_of_bounds(excl).target_objective(target);
    let mut o = batched(o, batch);
    let r = o.run();
    let calls = &t().calls;
    let n = calls.len();
    log("ncalls", n as u64);
    let per = batch_len(batch);
    let admissible = |c: &LocalCall| !excl || (c.x[0] >= -4.0 && c.x[0] <= 4.0);
    let mut reached = false;
    for (i, c) in calls.iter().enumerate() {
        if fork((c.f <= target) & admissible(c)) {
            reached = true;
            cover(if i == 0 { "reached in stage 1" } else { "reached in stage 2" });
            let last = if i == 0 { 1 } else { (1 + iters).min(1 + ((i - 1) / per + 1) * per) };
            check(n <= last, "local searches go on after the target objective was reached");
            match &r {
                Ok(s) => check(s.best_solution().map_or(false, |b| b.objective <= target), "the target was reached but the returned best does not reach it"),
                Err(_) => check(false, "the target was reached but the run fails"),
            }
            break;
        }
    }
    if !reached {
        cover("not reached");
        check(n == 1 + iters, "the run stops early although the target was not reached");
    }
}
/// Time limit of stage 2, on a virtual clock that only local searches advance.
/// cfg: bits 0-1 batch mode; bits 5-6 iterations-2; bit 7: target set but never reached; bit 8: ten times slower; bit 9: every result excluded as out of bounds
pub fn h_time(cfg: u64) {
    let batch = (cfg & 3) as usize;
    let iters = 2 + ((cfg >> 5) & 3) as usize;
    let slow = if cfg & 256 != 0 { 10 } else { 1 };
    let excl = cfg & 512 != 0;
    w().bounds = vec![(-4.0, 4.0)];
    flat_objective(-1000.0);
    w().local = Some(Box::new(move |c| {
        let i = t().calls.len();
        fs().now += 500_000_000 * slow * choice(&tagn("dt", i), 3) as u64;
        c.x = vec![i as f64 / 8.0 + 0.03125 + if excl { 8.0 } else { 0.0 }];
        c.f = -(i as f64);
        t().calls.push(LocalCall { x0: c.xinit.to_vec(), x: c.x.clone(), f: c.f, bounds: vec![], ncons: 0, maxeval: 0, at_obj: fs().now as usize });
    }));
    let limit = num("limit", 0, 12, 4) * slow as f64;
    let mut o = OQNLP::new(P, params(iters, 5, 0.0)).unwrap().max_time(limit).set_exclude_out_of_bounds(excl);
    if cfg & 128 != 0 { o = o.target_objective(-100.0); }
    let mut o = batched(o, batch);
    let r = o.run();
    check(r.is_ok() != excl, "a run stopped by the time limit returns the solutions found so far");
    let calls = &t().calls;
    let n = calls.len();
    log("ncalls", n as u64);
    let per = batch_len(batch);
    let t0 = calls[0].at_obj as u64;
    // stage 2 handles the iterations in batches; the limit is looked at before each
    let mut expect = 1;
    while expect < 1 + iters {
        let el = (calls[(expect - 1).min(n - 1)].at_obj as u64 - t0) as f64 / 1e9;
        if fork(el > limit) { cover("stopped by the limit"); break; }
        expect = (expect + per).min(1 + iters);
        check(n >= expect, "the run stops before its time limit");
    }
    check(n <= expect, "a local search starts after the time limit was exceeded");
    if n == 1 + iters { cover("limit not reached"); }
    if !excl { check(r.unwrap().best_solution().unwrap().objective == -((n - 1) as f64), "the best solution found before the limit is returned"); }
}
/// When is a local search started? Fresh run; every reference point is visited once.
/// cfg: bits 0-1 customs-1; bit 2: distances matter; bit 3: objectives matter; bit 4: NaN objectives; bits 5-6 batch mode
pub fn h_gate(cfg: u64) {
    let ncust = 1 + (cfg & 3) as usize;
    let (dist, obj) = (cfg & 4 != 0, cfg & 8 != 0);
    let kinds = ((cfg >> 4) & 1) as u32;
    let batch = ((cfg >> 5) & 3) as usize;
    let pop = 3 + ncust;
    let d = 1.5;
    w().bounds = vec![(-4.0, 4.0)];
    memo_objective(move |i, _| if i >= pop { 1.0e6 } else if obj { ext_num(&tagn("o", i), -8, 8, 2, kinds) } else { -1000.0 });
    local_any(move |i| (if obj { num(&tagn("f", i), -8, 8, 2) } else { -1000.0 - i as f64 }, vec![if dist { num(&tagn("x", i), -8, 8, 2) } else { 40.0 + 4.0 * i as f64 }]));
    let cust = [1.25, -2.125, 2.75];
    let o = OQNLP::new(P, params(pop, pop, d)).unwrap().with_tolerance(0.0, 0.0)
        .with_points(Array2::from_shape_fn((ncust, 1), |(i, _)| cust[i])).unwrap();
    let mut o = batched(o, batch);
    let _ = o.run();
    let calls = &t().calls;
    let value = |x: &[f64]| t().evals.iter().find(|e| e.0[0] == x[0]).unwrap().1;
    let per = batch_len(batch);
    // the first search starts at the best reference point
    let refs: Vec<(Vec<f64>, f64)> = t().evals[..pop].to_vec();
    let v0 = value(&calls[0].x0);
    for r in &refs { check(!(r.1 < v0) && (r.1.is_nan() | !v0.is_nan()), "the first local search does not start at the best reference point"); }
    // replay of the thresholds in force before each search of stage 2
    let mut best = calls[0].f;
    let mut thr = calls[0].f;
    let mut thrs = vec![thr];
    let near = |x: &[f64], c: &LocalCall| { let dx = x[0] - c.x[0]; dx * dx <= d * d };
    for i in 1..calls.len() {
        let c = &calls[i];
        let v = value(&c.x0);
        cover("search in stage 2");
        if per == 1 {
            check(v <= thr, "a local search starts at a point that does not pass the merit filter");
            for j in 0..i { check(!near(&c.x0, &calls[j]), "a local search starts within the distance factor of a solution already found"); }
            thr = v;
            if c.f < best { best = c.f; thr = c.f; }
            thrs.push(thr);
        } else {
            // within a batch the searches do not see each other's results
            check(!near(&c.x0, &calls[0]), "a local search starts within the distance factor of a solution already found");
        }
        for j in 1..i { check(calls[j].x0 != c.x0, "a reference point is searched from twice"); }
        check(refs.iter().any(|r| r.0 == c.x0), "a local search starts at a point outside the reference set");
    }
    if per == 1 {
        for r in &refs {
            if calls[1..].iter().any(|c| c.x0 == r.0) { continue; }
            // skipped: some state the run went through must have rejected it
            let mut rejected = false;
            for k in 0..thrs.len() { rejected |= !(r.1 <= thrs[k]); }
            for c in calls.iter() { rejected |= near(&r.0, c); }
            cover("point filtered out");
            check(rejected, "no local search is started from a reference point that passes both filters");
        }
    }
}
/// Stage 2 against its specification (filters, threshold, solution set), entered from a checkpoint.
/// cfg: bits 0-1 iterations-1; bits 2-3 wait_cycle-1; bits 4-5 unchanged cycles; bit 6: distances matter; bit 7 exclusion;
/// bits 8-9 batch mode; bit 10 41 solutions in the distance filter, the first one symbolic; bits 11-12 tolerance (0, 0.5 absolute, 0.25 relative, default);
/// bit 13 no solution yet; bit 14 NaN objectives of candidates; bit 15 target; bit 18 the known solution a distance factor from a candidate up to 2^-30
#[cfg(feature = "full")]
pub fn h_state(cfg: u64) {
    use globalsearch::checkpoint::CheckpointManager;
    use globalsearch::types::*;
    use ndarray::{array, Array1};
    let iters = 1 + (cfg & 3) as usize;
    let wait = 1 + ((cfg >> 2) & 3) as usize;
    let unchanged = ((cfg >> 4) & 3) as usize;
    let dist = cfg & 64 != 0;
    let excl = cfg & 128 != 0;
    let batch = ((cfg >> 8) & 3) as usize;
    let many = cfg & 1024 != 0;
    let (at, rt) = [(0.0, 0.0), (0.5, 0.0), (0.0, 0.25), (1e-8, 1e-6)][((cfg >> 11) & 3) as usize];
    let none = cfg & (1 << 13) != 0;
    let kinds = ((cfg >> 14) & 1) as u32;
    let target = if cfg & (1 << 15) != 0 { Some(num("target", -16, 16, 4)) } else { None };
    let d = 1.5;
    w().bounds = vec![(-4.0, 4.0)];
    memo_objective(move |i, _| ext_num(&tagn("o", i), -16, 16, 4, kinds));
    local_any(move |i| (num(&tagn("f", i), -16, 16, 4), vec![if dist || excl { num(&tagn("x", i), -12, 12, 2) } else { 40.0 + 4.0 * i as f64 }]));
    let mut p = params(iters, iters.max(4), d);
    p.wait_cycle = wait;
    p.threshold_factor = 0.5;
    let thr0 = num("thr", -16, 16, 4);
    let best0 = num("best", -16, 16, 4);
    let x0 = if cfg & (1 << 18) != 0 { [-0.5, 2.0][choice("side", 2)] + num("xs", -4, 4, 1 << 30) } else if dist { num("xs", -8, 8, 2) } else { 30.0 };
    let cc = CheckpointConfig { checkpoint_dir: "/memfs/c".into(), checkpoint_name: "s".into(), save_frequency: 1000, keep_all: false, auto_resume: true };
    let pts = [-2.0, 3.5, 0.0, 2.0];
    let mut found = vec![x0];
    if many { found.extend((0..40).map(|i| 50.0 + 5.0 * i as f64)); }
    let mut members: Vec<(f64, f64)> = if none { vec![] } else { vec![(best0, 20.0)] };
    let cp = OQNLPCheckpoint {
        params: p.clone(), current_iteration: 0, merit_threshold: thr0,
        solution_set: if none { None } else { Some(SolutionSet { solutions: Array1::from(vec![LocalSolution { point: array![20.0], objective: best0 }]) }) },
        reference_set: pts.iter().map(|x| array![*x]).collect(), unchanged_cycles: unchanged, elapsed_time: 0.0,
        distance_filter_solutions: found.iter().map(|x| LocalSolution { point: array![*x], objective: best0 }).collect(),
        current_seed: 0, target_objective: target, exclude_out_of_bounds: excl, batch_iterations: if batch == 0 { None } else { Some(batch + 1) }, enable_parallel: batch > 0,
        abs_tol: at, rel_tol: rt, timestamp: String::new(),
    };
    let inside = |x: f64| (x >= -4.0) & (x <= 4.0);
    // the old best counts for the target only when it is admissible: not at 20 with exclusion
    CheckpointManager::new(cc.clone()).unwrap().save_checkpoint(&cp, 0).unwrap();
    let mut o = OQNLP::new(P, p).unwrap().with_checkpointing(cc).unwrap();
    let r = o.run();
    let (mut thr, mut unch) = (thr0, unchanged);
    let mut k = 0;
    let calls = &t().calls;
    let tol = |a: f64, b: f64| -> f64 { let m = if a.abs() > b.abs() { a.abs() } else { b.abs() }; if rt * m > at { rt * m } else { at } };
    let reached = |m: &Vec<(f64, f64)>| -> bool { let Some(tg) = target else { return false }; let mut r = false; for (i, v) in m.iter().enumerate() { let mut best = true; for (j, u) in m.iter().enumerate() { best &= if j < i { v.0 < u.0 } else { v.0 <= u.0 }; } r |= best & (v.0 <= tg) & (!excl | inside(v.1)); } fork(r) };
    let per = batch_len(batch);
    let mut stop = reached(&members);
    if stop { cover("target reached before"); }
    let mut i = 0;
    while i < iters && !stop {
        let end = (i + per).min(iters);
        // decided on the state at the start of the batch
        let mut search = vec![];
        for j in i..end {
            let v = t().obj.t.iter().find(|e| e.0[0] == pts[j].to_bits());
            check(v.is_some(), "an iteration does not look at its reference point");
            let v = v.unwrap().1;
            let mut pass = v <= thr;
            for f in &found { let dx = pts[j] - f; pass &= dx * dx > d * d; }
            if fork(pass) { cover("passes"); search.push((j, v)); }
            else {
                cover("rejected");
                check(!calls.iter().any(|c| c.x0[0] == pts[j]), "a candidate rejected by a filter gets a local search");
            }
        }
        for _ in 0..(end - i - search.len()) {
            unch += 1;
            if unch >= wait { cover("threshold raised"); thr = thr + 0.5 * (1.0 + thr.abs()); unch = 0; }
        }
        for (n, (j, v)) in search.iter().enumerate() {
            check(calls.iter().filter(|c| c.x0[0] == pts[*j]).count() == 1, "a candidate passing both filters gets no local search");
            let c = calls.iter().find(|c| c.x0[0] == pts[*j]).unwrap();
            k += 1;
            thr = *v;
            found.push(c.x[0]);
            if excl && !fork(inside(c.x[0])) { cover("excluded"); }
            else if members.is_empty() { members.push((c.f, c.x[0])); thr = c.f; }
            else {
                let first = members[0].0;
                let tl = tol(c.f, first);
                if fork(c.f < first - tl) { cover("new best"); members = vec![(c.f, c.x[0])]; thr = c.f; }
                else if fork((c.f - first).abs() <= tl) {
                    let mut dup = false;
                    for m in &members { let dx = c.x[0] - m.1; dup |= dx * dx < d * d; }
                    if fork(dup) { cover("duplicate"); } else { cover("as good"); members.push((c.f, c.x[0])); }
                }
            }
            if reached(&members) { cover("target reached"); stop = true; k += if batch > 0 { search.len() - n - 1 } else { 0 }; break; }
        }
        i = end;
    }
    check(if stop && batch > 0 { calls.len() <= k } else { k == calls.len() }, "more local searches than candidates");
    match r {
        Ok(s) => {
            let got: Vec<(f64, f64)> = s.solutions().map(|l| (l.objective, l.point[0])).collect();
            check(got.len() == members.len(), "the solution set does not have the solutions found");
            for (a, b) in got.iter().zip(&members) { check((a.0 == b.0) & (a.1 == b.1), "the solution set does not hold the solutions found"); }
        }
        Err(_) => { cover("none"); check(members.is_empty(), "the resumed run fails although solutions were found"); }
    }
}
/// From an arbitrary mid-run state, a run killed in any iteration and resumed ends like one that was not killed.
/// cfg: as h_state (bits 4-5 unchanged cycles, bits 2-3 wait_cycle-1); bit 16 second kill; bit 10 41 solutions in the distance filter; bit 17 keep_all; bit 18 two more iterations
#[cfg(feature = "full")]
pub fn h_kill(cfg: u64) {
    use crate::h_det::{outcome, same_points, same_results};
    use globalsearch::checkpoint::CheckpointManager;
    use globalsearch::types::*;
    use ndarray::{array, Array1};
    let iters = 1 + (cfg & 3) as usize + if cfg & (1 << 18) != 0 { 2 } else { 0 };
    let wait = 1 + ((cfg >> 2) & 3) as usize;
    let unchanged = ((cfg >> 4) & 3) as usize;
    let dist = cfg & 64 != 0;
    let excl = cfg & 128 != 0;
    let batch = ((cfg >> 8) & 3) as usize;
    let (at, rt) = [(0.0, 0.0), (0.5, 0.0), (0.0, 0.25), (1e-8, 1e-6)][((cfg >> 11) & 3) as usize];
    let none = cfg & (1 << 13) != 0;
    let target = if cfg & (1 << 15) != 0 { Some(num("target", -8, 8, 4)) } else { None };
    let d = 1.5;
    w().bounds = vec![(-4.0, 4.0)];
    memo_objective(move |i, _| num(&tagn("o", i), -16, 16, 4));
    local_any(move |i| (if i < 2 { num(&tagn("f", i), -16, 16, 4) } else { -5.0 - i as f64 }, vec![if dist || excl { num(&tagn("x", i), -12, 12, 2) } else { 40.0 + 4.0 * i as f64 }]));
    let mut p = params(iters, iters.max(4), d);
    p.wait_cycle = wait;
    p.threshold_factor = 0.5;
    let best0 = num("best", -16, 16, 4);
    let cc = CheckpointConfig { checkpoint_dir: "/memfs/c".into(), checkpoint_name: "s".into(), save_frequency: 1, keep_all: cfg & (1 << 17) != 0, auto_resume: true };
    let mut found = vec![if dist { num("xs", -8, 8, 2) } else { 30.0 }];
    if cfg & 1024 != 0 { found.extend((0..40).map(|i| 50.0 + 5.0 * i as f64)); }
    let cp = OQNLPCheckpoint {
        params: p.clone(), current_iteration: 0, merit_threshold: num("thr", -16, 16, 4),
        solution_set: if none { None } else { Some(SolutionSet { solutions: Array1::from(vec![LocalSolution { point: array![20.0], objective: best0 }]) }) },
        reference_set: [-2.0, 3.5, 0.0, 2.0, -3.5, 1.0][..iters.max(4)].iter().map(|x| array![*x]).collect(), unchanged_cycles: unchanged, elapsed_time: 0.0,
        distance_filter_solutions: found.iter().map(|x| LocalSolution { point: array![*x], objective: best0 }).collect(),
        current_seed: 0, target_objective: target, exclude_out_of_bounds: excl, batch_iterations: if batch == 0 { None } else { Some(batch + 1) }, enable_parallel: batch > 0,
        abs_tol: at, rel_tol: rt, timestamp: String::new(),
    };
    let m = CheckpointManager::new(cc.clone()).unwrap();
    m.save_checkpoint(&cp, 0).unwrap();
    let start = fs().files.clone();
    let go = || { let mut o = OQNLP::new(P, p.clone()).unwrap().with_checkpointing(cc.clone()).unwrap(); let r = o.run(); outcome(r) };
    let u = go();
    fs().files = start;
    static mut LEFT: i64 = -1;
    let mut f = w().obj.take().unwrap();
    w().obj = Some(Box::new(move |x| unsafe { if LEFT == 0 { fs().crashed = true; } LEFT -= 1; f(x) }));
    for round in 0..if cfg & (1 << 16) != 0 { 2 } else { 1 } {
        unsafe { LEFT = choice(&tagn("kill", round), iters as i64) as i64; }
        let _ = go();
        if fs().crashed { cover("killed"); } else { cover("not killed"); }
        unsafe { LEFT = -1; }
        fs().reboot();
    }
    match m.load_latest_checkpoint() { Ok(c) => if c.current_iteration > 0 { cover("progress") }, Err(_) => check(false, "the checkpoint is lost") }
    let b = go();
    same_results(&b, &u, "a run resumed after a crash ends differently from an uninterrupted run");
    let pu: Vec<Vec<f64>> = u.calls.iter().map(|c| c.0.clone()).collect();
    let pb: Vec<Vec<f64>> = b.calls.iter().map(|c| c.0.clone()).collect();
    check(pb.len() <= pu.len(), "a resumed run searches more than an uninterrupted one");
    if pb.len() <= pu.len() { same_points(&pb, &pu[pu.len() - pb.len()..], true, "a resumed run repeats, skips or reorders local searches"); }
    let c = go();
    same_results(&c, &u, "running again after completion changes the result");
    check(c.calls.is_empty(), "running again after completion repeats local searches");
}
#[cfg(not(feature = "full"))]
pub fn h_kill(_cfg: u64) {}
#[cfg(not(feature = "full"))]
pub fn h_state(_cfg: u64) {}
