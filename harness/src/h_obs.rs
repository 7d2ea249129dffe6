//! What an observer reports, and when its callback runs.
#![allow(static_mut_refs)]
use crate::common::*;
use crate::memfs::fs;
use crate::rt::*;
use globalsearch::observers::{Observer, ObserverMode};
use globalsearch::oqnlp::OQNLP;
use globalsearch::types::SolutionSet;

/// what one callback saw
#[derive(Clone)]
struct Seen { s1: Option<String>, stage2: bool, iter: usize, calls: usize, improved: usize, fe1: usize, fe2: usize, size: usize, refs: usize, best: f64, obj_calls: usize, local_calls: usize, done: bool }
static mut LOG: Vec<Seen> = Vec::new();
fn seen() -> &'static mut Vec<Seen> { unsafe { &mut LOG } }
fn beq(a: f64, b: f64) -> bool { (a == b) | (a.is_nan() & b.is_nan()) }

/// the solution set a run should hold: zero tolerances, results equal or far apart
struct Model { d: f64, best: Option<f64>, set: Vec<Vec<f64>>, improved: usize, best_at: Vec<f64> }
impl Model {
    fn add(&mut self, x: &[f64], f: f64, inside: bool) -> bool {
        if !inside { return false; }
        let r = match self.best {
            None => { self.set = vec![x.to_vec()]; true }
            Some(b) if fork((f < b) | (b.is_nan() & !f.is_nan())) => { self.set = vec![x.to_vec()]; true }
            Some(b) if fork(f == b) => { let d = self.d; let new = !self.set.iter().any(|y| (y[0] - x[0]).abs() < d); if new { self.set.push(x.to_vec()); } return new; }
            _ => return false,
        };
        self.best = Some(f);
        self.best_at = x.to_vec();
        r
    }
}

/// cfg: bits 0-1 batch mode; bits 2-3 observer mode (both, stage 1, stage 2, none tracked); bits 4-5 NaN, +inf objectives;
/// bit 6 target; bits 7-8 iterations-2; bit 9 exclusion; bit 10 far-away results (distance filter rejects candidates);
/// bit 11 no timing; bit 12 repeated solutions; bit 13 arbitrary objective (the same at every point);
/// bit 14 only the observed stage is tracked; bit 15 population 9, one trial evaluation may fail; bit 16 large callback frequencies
pub fn h_obs(cfg: u64) {
    let batch = (cfg & 3) as usize;
    let mode = (cfg >> 2) & 3;
    let kinds = ((cfg >> 4) & 3) as u32;
    let iters = 2 + ((cfg >> 7) & 3) as usize;
    let excl = cfg & 512 != 0;
    let far = cfg & 1024 != 0;
    let rep = cfg & 4096 != 0;
    let pop = if cfg & 32768 != 0 { 9 } else { 5 };
    w().bounds = vec![(-4.0, 4.0); if pop == 9 { 3 } else { 1 }];
    let base = if cfg & 8192 != 0 { num("base", -8, 8, 4) } else { -1000.0 };
    if cfg & 32768 != 0 {
        let bad = pop + choice("failing", 8);
        w().obj = Some(Box::new(move |x| {
            if w().obj_calls == bad + 1 && w().local_calls == 0 { cover("evaluation fails"); return Err(globalsearch::types::EvaluationError::ObjectiveFunctionEvaluationFailed { reason: String::new() }); }
            t().evals.push((x.to_vec(), base));
            Ok(base)
        }));
    } else { flat_objective(base); }
    w().local = Some(Box::new(move |c| {
        let i = t().calls.len();
        let n = choice(&tagn("evals", i), if i < 2 { 2 } else { 1 }) + i % 2;
        for k in 0..n { let mut y = c.xinit.to_vec(); y[0] += k as f64; (c.func)(&y); }
        fs().now += 250_000_000 * (i as u64 + 1);
        let k = if rep && i > 0 && choice(&tagn("repeat", i), 2) == 1 { 2 } else if far { choice(&tagn("far", i), 2) } else { 0 };
        c.x = c.xinit.to_vec();
        match k { 0 => c.x[0] += 0.015625, 1 => c.x[0] += 3.125, _ => c.x = t().calls[i - 1].x.clone() }
        c.f = ext_num(&tagn("f", i), -8, 8, 4, kinds);
        t().calls.push(LocalCall { x0: c.xinit.to_vec(), x: c.x.clone(), f: c.f, bounds: vec![], ncons: 0, maxeval: n, at_obj: fs().now as usize });
    }));
    let began = fs().now;
    let freq = if cfg & 65536 != 0 { [101, 1000, usize::MAX][choice("frequency", 3)] } else { choice("frequency", 4) };
    let mut obs = Observer::new();
    if cfg & 16384 != 0 {
        if mode == 1 { obs = obs.with_stage1_tracking(); }
        if mode == 2 { obs = obs.with_stage2_tracking(); }
    } else if mode != 3 { obs = obs.with_stage1_tracking().with_stage2_tracking().with_mode(match mode { 0 => ObserverMode::Both, 1 => ObserverMode::Stage1Only, _ => ObserverMode::Stage2Only }); }
    if cfg & 2048 == 0 { obs = obs.with_timing(); }
    obs = obs.with_callback(|o| {
        let s1 = o.stage1();
        let f1 = o.stage1_final();
        let s2 = o.stage2();
        seen().push(Seen {
            s1: s1.map(|s| s.current_substage().to_string()), stage2: s2.is_some(), iter: s2.map_or(0, |s| s.current_iteration()),
            calls: s2.map_or(0, |s| s.local_solver_calls()), improved: s2.map_or(0, |s| s.improved_local_calls()),
            fe1: f1.map_or(0, |s| s.function_evaluations()), fe2: s2.map_or(0, |s| s.function_evaluations()),
            size: s2.map_or(0, |s| s.solution_set_size()), refs: f1.map_or(0, |s| s.reference_set_size()),
            best: s2.map_or(f1.map_or(0.0, |s| s.best_objective()), |s| s.best_objective()), obj_calls: w().obj_calls, local_calls: w().local_calls, done: o.stage1().is_none(),
        });
    }).with_callback_frequency(freq);
    let o = OQNLP::new(P, params(iters, pop, if far { 0.75 } else { 0.0 })).unwrap().with_tolerance(0.0, 0.0).set_exclude_out_of_bounds(excl).add_observer(obs);
    let target = if cfg & 64 != 0 { Some(num("target", -8, 8, 4)) } else { None };
    let o = match target { Some(v) => o.target_objective(v), None => o };
    let mut o = batched(o, batch);
    let r = o.run();
    let ended = fs().now;
    fs().now += 5_000_000_000;
    log("ncalls", t().calls.len() as u64);
    log("callbacks", seen().len() as u64);
    let calls = t().calls.clone();
    let obs = o.observer().unwrap();
    // reference model of the solution set
    let mut m = Model { d: if far { 0.75 } else { 0.0 }, best: None, set: vec![], improved: 0, best_at: vec![] };
    let inside = |c: &LocalCall| !excl || (c.x[0] >= -4.0 && c.x[0] <= 4.0);
    let mut stop = calls.len();
    let mut at = vec![];
    for (i, c) in calls.iter().enumerate() {
        let a = m.add(&c.x, c.f, inside(c));
        if a && i > 0 { m.improved += 1; }
        at.push((m.set.len(), m.best));
        if let Some(v) = target { if stop == calls.len() && fork(inside(c) & (c.f <= v)) { stop = i + 1; cover("target reached"); break; } }
    }
    let hit = target.is_some() && stop <= calls.len() && inside(&calls[stop - 1]) && fork(calls[stop - 1].f <= target.unwrap());
    let processed = stop.min(calls.len());
    let stage2_ran = !(hit && stop == 1);
    let (t1, t2) = (mode == 0 || mode == 1, mode == 0 || mode == 2);

    // ---- stage 1
    let first: Vec<&Seen> = seen().iter().filter(|s| !s.stage2 && !s.done).collect();
    if t1 {
        let want = ["initialization_complete", "diversification_complete", "intensification_complete", "scatter_search_complete", "local_optimization_complete", "stage1_complete"];
        check(first.len() == want.len(), "a stage-1 callback is missing or repeated");
        for (s, n) in first.iter().zip(want) { check(s.s1.as_deref() == Some(n), "the stage-1 callbacks report another order of substages"); }
        for s in first.iter().skip(1) {
            check(s.fe1 == s.obj_calls, "stage 1 reports another number of function evaluations than were made");
            check(s.refs == pop, "stage 1 reports another size of the reference set");
        }
        let f = obs.stage1_final().unwrap();
        check(f.function_evaluations() == first.last().map_or(0, |s| s.obj_calls), "stage 1 reports another number of function evaluations than were made");
        let better = fork(calls[0].f < base);
        check(beq(f.best_objective(), if better { calls[0].f } else { base }), "stage 1 does not report the best objective it found");
        check(matches!(f.best_point(), Some(p) if if better { p.to_vec() == calls[0].x } else { t().evals.iter().any(|e| e.0 == p.to_vec()) }), "stage 1 does not report the best point");
        check(f.reference_set_size() == pop && f.current_substage() == "stage1_complete", "the final stage-1 state is wrong");
        check(f.total_time() == Some(0.25), "the time of stage 1 goes on after its end");
        cover("stage 1");
    } else if mode == 2 && cfg & 16384 != 0 {
        check(obs.stage1_final().is_none(), "stage 1 is recorded although only stage 2 is tracked");
    } else if mode == 2 {
        let f = obs.stage1_final().unwrap();
        check(f.function_evaluations() == 0 && f.reference_set_size() == 0 && f.total_time().is_none(), "stage 1 is recorded although only stage 2 is observed");
    }
    check(obs.stage1().is_none(), "stage 1 still looks active after its end");

    // ---- stage 2
    let second: Vec<&Seen> = seen().iter().filter(|s| s.stage2).collect();
    let step = freq.max(1);
    if mode == 3 { check(obs.stage2().is_none() && obs.stage1_final().is_none(), "an untracked stage is recorded"); }
    if !stage2_ran {
        check(second.is_empty() && obs.stage2().is_none(), "stage 2 looks started although it never was");
    } else if mode == 1 {
        match obs.stage2() {
            Some(s) => check(s.local_solver_calls() == 0 && s.function_evaluations() == 0 && s.solution_set_size() == 0 && s.best_objective().is_nan() && s.total_time().is_none(), "stage 2 is recorded although only stage 1 is observed"),
            None => check(cfg & 16384 != 0, "stage 2 is never visible"),
        }
        if !hit { check(seen().iter().filter(|s| s.done).count() == iters.div_ceil(step), "a stage-2 callback is missing or repeated"); }
    } else if t2 {
        let s = obs.stage2().unwrap();
        let set: SolutionSet = match &r { Ok(s) => s.clone(), Err(_) => { check(m.best.is_none(), "the run fails although solutions were found"); check(s.solution_set_size() == 0, "stage 2 reports solutions although there are none"); cover("no solution"); return; } };
        check(s.local_solver_calls() == processed - 1, "stage 2 reports another number of local searches than were made");
        check(s.improved_local_calls() == m.improved, "stage 2 reports another number of improving local searches");
        if m.improved > 0 { cover("improved"); }
        if m.improved < processed - 1 { cover("not improved"); }
        let evals: usize = calls[1..processed].iter().map(|c| c.maxeval).sum();
        check(s.function_evaluations() == evals, "stage 2 reports another number of function evaluations than were made");
        check(s.solution_set_size() == set.len() && set.len() == m.set.len(), "stage 2 reports another size of the solution set");
        let best = set.best_solution().unwrap();
        check(beq(s.best_objective(), best.objective), "stage 2 reports another best objective than returned");
        check(matches!(s.best_point(), Some(p) if set.solutions().any(|q| q.point == *p && beq(q.objective, best.objective))), "stage 2 reports a best point that is not a best solution");
        check(s.total_time() == Some((ended - calls[0].at_obj as u64) as f64 / 1e9), "the time of stage 2 goes on after its end");
        // callbacks
        let mut its: Vec<usize> = second.iter().map(|s| s.iter).collect();
        if batch == 0 { for k in its.windows(2) { check(k[0] < k[1], "the stage-2 callbacks do not follow the iterations"); } }
        its.sort();
        if !hit {
            let want: Vec<usize> = (0..iters).filter(|i| i % step == 0).collect();
            check(its == want, "a stage-2 callback is missing, repeated or not a multiple of the frequency");
            cover("callbacks");
            if processed - 1 < iters { cover("candidate rejected"); }
        } else {
            for k in its.windows(2) { check(k[0] != k[1], "a stage-2 callback is repeated"); }
            for k in &its { check(k % step == 0, "a stage-2 callback is not a multiple of the frequency"); }
            if batch == 0 { let last = s.current_iteration(); let n = (0..last).filter(|i| i % step == 0).count(); check(its.len() == n || (last % step == 0 && its.len() == n + 1), "a stage-2 callback is missing or repeated"); }
        }
        let (mut pc, mut pi, mut pf) = (0, 0, 0);
        for k in &second {
            check(k.calls >= pc && k.improved >= pi && k.fe2 >= pf, "a stage-2 counter decreases");
            check(k.improved <= k.calls, "more improving local searches than local searches");
            check(k.calls < k.local_calls || k.calls == 0, "stage 2 reports local searches that were not made");
            check(k.size == at[k.calls].0 && at[k.calls].1.map_or(k.best.is_nan(), |b| beq(b, k.best)), "a callback sees another solution set or best objective than the run holds");
            if batch == 0 { check(k.calls + 1 == k.local_calls, "a callback reports another number of local searches than were made"); }
            (pc, pi, pf) = (k.calls, k.improved, k.fe2);
        }
    }
    match obs.elapsed_time() { Some(v) => check(cfg & 2048 == 0 && v == (fs().now - began) as f64 / 1e9, "the elapsed time is wrong"), None => check(cfg & 2048 != 0, "the elapsed time is missing") }
}

/// a resumed run reports what it did itself. cfg: bits 0-1 batch mode; bits 2-3 iterations done; bit 4 far-away results; bits 5-6 NaN, +inf
#[cfg(feature = "full")]
pub fn h_obsresume(cfg: u64) {
    use globalsearch::types::CheckpointConfig;
    let batch = (cfg & 3) as usize;
    let bl = batch_len(batch);
    let done = bl * (1 + ((cfg >> 2) & 3) as usize);
    let iters = done + 3;
    let far = cfg & 16 != 0;
    let kinds = ((cfg >> 5) & 3) as u32;
    w().bounds = vec![(-4.0, 4.0)];
    flat_objective(-1000.0);
    let mine = |c: &mut cobyla::Call| {
        let i = t().calls.len();
        for k in 0..i % 3 { (c.func)(&[c.xinit[0] + k as f64]); }
        c.x = vec![c.xinit[0] + 0.015625];
        c.f = 0.0;
        t().calls.push(LocalCall { x0: c.xinit.to_vec(), x: c.x.clone(), f: c.f, bounds: vec![], ncons: 0, maxeval: i % 3, at_obj: 0 });
    };
    w().local = Some(Box::new(mine));
    let k = CheckpointConfig { checkpoint_dir: "/memfs/c".into(), checkpoint_name: "s".into(), save_frequency: 1000, keep_all: false, auto_resume: true };
    let d = if far { 0.75 } else { 0.0 };
    let mk = |n: usize| batched(OQNLP::new(P, params(n, 8, d)).unwrap().with_tolerance(0.0, 0.0), batch).with_checkpointing(k.clone()).unwrap();
    let a = mk(done).run().unwrap();
    let n0 = t().calls.len();
    let before = w().obj_calls;
    w().local = Some(Box::new(move |c| {
        let i = t().calls.len();
        mine(c);
        if far && choice(&tagn("far", i), 2) == 1 { c.x = vec![c.xinit[0] + 3.125]; }
        c.f = ext_num(&tagn("f", i), -8, 8, 4, kinds);
        let l = t().calls.last_mut().unwrap();
        l.x = c.x.clone();
        l.f = c.f;
    }));
    let freq = choice("frequency", 4);
    let obs = Observer::new().with_stage1_tracking().with_stage2_tracking().with_callback(|o| {
        let s = o.stage2().expect("a resumed run has no first stage");
        seen().push(Seen { s1: None, stage2: true, iter: s.current_iteration(), calls: s.local_solver_calls(), improved: s.improved_local_calls(), fe1: 0, fe2: s.function_evaluations(), size: s.solution_set_size(), refs: 0, best: s.best_objective(), obj_calls: w().obj_calls, local_calls: w().local_calls, done: true });
    }).with_callback_frequency(freq);
    let mut o = mk(iters).add_observer(obs);
    check(matches!(o.resume_with_modified_params(params(iters, 8, d)), Ok(true)), "the run is not resumed");
    let r = o.run().unwrap();
    cover("resumed");
    let o = o.observer().unwrap();
    let s = o.stage2().unwrap();
    check(o.stage1_final().map_or(true, |s| s.function_evaluations() == 0), "a resumed run reports evaluations of a first stage it did not run");
    check(s.function_evaluations() == w().obj_calls - before, "a resumed run reports another number of function evaluations than it made");
    check(s.local_solver_calls() == t().calls.len() - n0, "a resumed run reports another number of local searches than it made");
    if t().calls.len() - n0 < 3 { cover("candidate rejected"); }
    let mut m = Model { d, best: Some(a.best_solution().unwrap().objective), set: a.solutions().map(|q| q.point.to_vec()).collect(), improved: 0, best_at: vec![] };
    let mut at = vec![(m.set.len(), m.best)];
    for c in &t().calls[n0..] { if m.add(&c.x, c.f, true) { m.improved += 1; } at.push((m.set.len(), m.best)); }
    for k in seen().iter() {
        check(k.size == at[k.calls].0 && at[k.calls].1.map_or(k.best.is_nan(), |b| beq(b, k.best)), "a callback of a resumed run sees another solution set or best objective than the run holds");
        if k.calls == 0 { cover("callback before the first search"); }
    }
    check(s.improved_local_calls() == m.improved, "a resumed run reports another number of improving local searches");
    check(s.solution_set_size() == r.len() && r.len() == m.set.len(), "a resumed run reports another size of the solution set");
    check(beq(s.best_objective(), r.best_solution().unwrap().objective), "a resumed run reports another best objective than returned");
    let mut its: Vec<usize> = seen().iter().map(|s| s.iter).collect();
    its.sort();
    let want: Vec<usize> = (done..iters).filter(|i| i % freq.max(1) == 0).collect();
    check(its == want, "a resumed run misses or repeats a callback");
}
