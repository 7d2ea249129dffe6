//! Checkpoints: round trip, latest, cleanup, crash safety, resume.
#![cfg(feature = "full")]
use crate::common::*;
use crate::h_local::{any_config, ulong};
use crate::h_det::{build, outcome, same_points, same_results, Conf, Outcome};
use crate::memfs::fs;
use crate::rt::*;
use globalsearch::checkpoint::*;
use globalsearch::local_solver::builders::*;
use globalsearch::oqnlp::OQNLP;
use globalsearch::types::*;
use ndarray::{array, Array1};

// ------------------------------------------------------------- flattening
fn ls(m: &LineSearchMethod, out: &mut Vec<u64>) {
    let mut f = |x: &f64| out.push(x.to_bits());
    match m {
        LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => { f(&1.0); f(c1); f(c2); f(width_tolerance); f(&(bounds.len() as f64)); for b in bounds { f(b); } }
        LineSearchMethod::HagerZhang { delta, sigma, epsilon, theta, gamma, eta, bounds } => { f(&2.0); for v in [delta, sigma, epsilon, theta, gamma, eta] { f(v); } f(&(bounds.len() as f64)); for b in bounds { f(b); } }
    }
}
pub fn flat_config(c: &LocalSolverConfig) -> Vec<u64> {
    let mut o = vec![];
    match c {
        LocalSolverConfig::LBFGS { max_iter, tolerance_grad, tolerance_cost, history_size, l1_coefficient, line_search_params } => { o.extend([0, *max_iter, tolerance_grad.to_bits(), tolerance_cost.to_bits(), *history_size as u64, l1_coefficient.is_some() as u64, l1_coefficient.unwrap_or(0.0).to_bits()]); ls(&line_search_params.method, &mut o); }
        LocalSolverConfig::NelderMead { simplex_delta, sd_tolerance, max_iter, alpha, gamma, rho, sigma } => o.extend([1, simplex_delta.to_bits(), sd_tolerance.to_bits(), *max_iter, alpha.to_bits(), gamma.to_bits(), rho.to_bits(), sigma.to_bits()]),
        LocalSolverConfig::SteepestDescent { max_iter, line_search_params } => { o.extend([2, *max_iter]); ls(&line_search_params.method, &mut o); }
        LocalSolverConfig::TrustRegion { trust_region_radius_method, max_iter, radius, max_radius, eta } => o.extend([3, matches!(trust_region_radius_method, TrustRegionRadiusMethod::Cauchy) as u64, *max_iter, radius.to_bits(), max_radius.to_bits(), eta.to_bits()]),
        LocalSolverConfig::NewtonCG { max_iter, curvature_threshold, tolerance, line_search_params } => { o.extend([4, *max_iter, curvature_threshold.to_bits(), tolerance.to_bits()]); ls(&line_search_params.method, &mut o); }
        LocalSolverConfig::COBYLA { max_iter, initial_step_size, ftol_rel, ftol_abs, xtol_rel, xtol_abs } => { o.extend([5, *max_iter, initial_step_size.to_bits(), ftol_rel.to_bits(), ftol_abs.to_bits(), xtol_rel.to_bits(), xtol_abs.len() as u64]); for v in xtol_abs { o.push(v.to_bits()); } }
    }
    o
}
fn flat_pt(p: &Array1<f64>, o: &mut Vec<u64>) { o.push(p.len() as u64); for v in p { o.push(v.to_bits()); } }
fn flat_sol(s: &LocalSolution, o: &mut Vec<u64>) { o.push(s.objective.to_bits()); flat_pt(&s.point, o); }
pub fn ty(t: &LocalSolverType) -> u64 { match t { LocalSolverType::LBFGS => 0, LocalSolverType::NelderMead => 1, LocalSolverType::SteepestDescent => 2, LocalSolverType::TrustRegion => 3, LocalSolverType::NewtonCG => 4, LocalSolverType::COBYLA => 5 } }
pub fn flat(c: &OQNLPCheckpoint) -> Vec<u64> {
    let p = &c.params;
    let mut o = vec![p.iterations as u64, p.population_size as u64, p.wait_cycle as u64, p.threshold_factor.to_bits(), p.distance_factor.to_bits(), p.seed, ty(&p.local_solver_type)];
    o.extend(flat_config(&p.local_solver_config));
    o.extend([c.current_iteration as u64, c.merit_threshold.to_bits(), c.unchanged_cycles as u64, c.elapsed_time.to_bits(), c.current_seed, c.target_objective.is_some() as u64, c.target_objective.unwrap_or(0.0).to_bits(), c.exclude_out_of_bounds as u64, c.batch_iterations.is_some() as u64, c.batch_iterations.unwrap_or(0) as u64, c.enable_parallel as u64, c.abs_tol.to_bits(), c.rel_tol.to_bits()]);
    match &c.solution_set { None => o.push(u64::MAX), Some(s) => { o.push(s.len() as u64); for s in s.solutions() { flat_sol(s, &mut o); } } }
    o.push(c.reference_set.len() as u64);
    for r in &c.reference_set { flat_pt(r, &mut o); }
    o.push(c.distance_filter_solutions.len() as u64);
    for s in &c.distance_filter_solutions { flat_sol(s, &mut o); }
    o.push(c.timestamp.len() as u64);
    for b in c.timestamp.bytes() { o.push(b as u64); }
    o
}
fn any_checkpoint(which: u64, shape: u64) -> OQNLPCheckpoint {
    let f = |s: &str| any_f64(s);
    let (t, c) = any_config(which);
    OQNLPCheckpoint {
        params: OQNLPParams { iterations: ulong("it") as usize, population_size: ulong("pop") as usize, wait_cycle: ulong("wc") as usize, threshold_factor: f("tf"), distance_factor: f("df"), seed: ulong("seed"), local_solver_type: t, local_solver_config: c },
        current_iteration: ulong("ci") as usize, merit_threshold: f("mt"),
        solution_set: if shape & 1 == 0 { Some(SolutionSet { solutions: Array1::from(vec![LocalSolution { point: array![f("s0"), f("s1")], objective: f("so") }, LocalSolution { point: array![f("t0"), f("t1")], objective: f("to") }]) }) } else { None },
        reference_set: if shape & 2 == 0 { vec![array![f("r0"), f("r1")], array![f("q0"), f("q1")]] } else { vec![] },
        unchanged_cycles: ulong("uc") as usize, elapsed_time: f("et"),
        distance_filter_solutions: if shape & 4 == 0 { vec![LocalSolution { point: array![f("d0"), f("d1")], objective: f("do") }] } else { vec![] },
        current_seed: ulong("cs"), target_objective: if shape & 1 == 0 { Some(f("tgt")) } else { None }, exclude_out_of_bounds: shape & 2 != 0,
        batch_iterations: if shape & 4 == 0 { Some(ulong("bi") as usize) } else { None }, enable_parallel: shape & 1 != 0,
        abs_tol: f("at"), rel_tol: f("rt"), timestamp: "2024-01-01T00:00:00Z".to_string(),
    }
}
fn conf(keep: bool, freq: usize) -> CheckpointConfig { CheckpointConfig { checkpoint_dir: "/memfs/c".into(), checkpoint_name: "s".into(), save_frequency: freq, keep_all: keep, auto_resume: true } }
fn eq(a: &[u64], b: &[u64]) -> bool { let mut r = a.len() == b.len(); for (x, y) in a.iter().zip(b) { r &= x == y; } r }

/// every value of a checkpoint survives saving and loading. cfg: bits 0-3 solver; bits 4-6 shape; bit 7 keep_all
pub fn h_roundtrip(cfg: u64) {
    let c = any_checkpoint(cfg & 15, (cfg >> 4) & 7);
    let keep = cfg & 128 != 0;
    let m = CheckpointManager::new(conf(keep, 1)).unwrap();
    check(!m.checkpoint_exists(), "a checkpoint exists before one was saved");
    check(matches!(m.load_latest_checkpoint(), Err(CheckpointError::CheckpointNotFound { .. })), "loading a missing checkpoint is not reported as such");
    let p = match m.save_checkpoint(&c, 7) { Ok(p) => p, Err(_) => { check(false, "saving a checkpoint fails"); return; } };
    check(m.checkpoint_exists(), "a saved checkpoint does not exist");
    let a = flat(&c);
    match m.load_latest_checkpoint() { Ok(d) => check(eq(&a, &flat(&d)), "a loaded checkpoint differs from the one saved"), Err(_) => check(false, "a saved checkpoint cannot be loaded") }
    match read_checkpoint_file(&p) { Ok(d) => check(eq(&a, &flat(&d)), "a checkpoint read from its path differs from the one saved"), Err(_) => check(false, "a saved checkpoint cannot be read from the path returned") }
    match m.load_checkpoint_from_path(&p) { Ok(d) => check(eq(&a, &flat(&d)), "a checkpoint loaded from its path differs from the one saved"), Err(_) => check(false, "a saved checkpoint cannot be loaded from the path returned") }
    cover("round trip");
}
fn small(tag: u64) -> OQNLPCheckpoint {
    OQNLPCheckpoint {
        params: params(4, 5, 1.0), current_iteration: tag as usize, merit_threshold: tag as f64,
        solution_set: Some(SolutionSet { solutions: Array1::from(vec![LocalSolution { point: array![tag as f64], objective: 2.0 }]) }),
        reference_set: vec![array![tag as f64]; 1 + (tag % 3) as usize], unchanged_cycles: 0, elapsed_time: 0.0, distance_filter_solutions: vec![],
        current_seed: tag, target_objective: None, exclude_out_of_bounds: false, batch_iterations: None, enable_parallel: false, abs_tol: 0.0, rel_tol: 0.0, timestamp: "t".repeat((tag % 5) as usize),
    }
}
/// which checkpoint is the latest, and what cleanup keeps. cfg: bits 0-1 saves-1; bit 2 keep_all; bit 3 foreign files; bit 4 cleanup; bit 5 other name
pub fn h_latest(cfg: u64) {
    let n = 1 + (cfg & 3) as usize;
    let keep = cfg & 4 != 0;
    let its = [0usize, 1, 9, 10, 100000, 999999, 1000000];
    let mut c = conf(keep, 1);
    if cfg & 32 != 0 { c.checkpoint_name = "run_1".into(); }
    let m = CheckpointManager::new(c.clone()).unwrap();
    if cfg & 8 != 0 {
        for f in ["zzz_000777.bin", "s_.bin", "s_abc.bin", "s_000009.txt", "t_000500.bin", "xs_000600.bin", "s_x_000700.bin"] { std::fs::write(format!("/memfs/c/{}", f), b"x").unwrap(); }
    }
    let foreign = fs().names();
    fs().order = if cfg & 8 != 0 || n > 2 { choice("listing", 2) as u8 } else { 2 };
    let mut saved: Vec<usize> = vec![];
    for i in 0..n {
        let it = its[choice(&tagn("it", i), 7)];
        if m.save_checkpoint(&small(it as u64), it).is_err() { check(false, "saving fails"); return; }
        saved.push(it);
    }
    let mut distinct = saved.clone();
    distinct.sort();
    distinct.dedup();
    let want = if keep { *distinct.last().unwrap() } else { *saved.last().unwrap() };
    match m.load_latest_checkpoint() { Ok(d) => check(d.current_iteration == want, "the checkpoint loaded is not the latest one"), Err(_) => check(false, "the latest checkpoint cannot be loaded") }
    let files = fs().names().len() - foreign.len();
    check(files == if keep { distinct.len() } else { 1 }, "the number of checkpoint files is wrong");
    if cfg & 16 != 0 {
        let k = choice("keep", 4);
        check(m.cleanup_old_checkpoints(k).is_ok(), "cleanup fails");
        let left: Vec<String> = fs().names();
        for f in &foreign { check(left.contains(f), "cleanup deletes a file that is not one of its checkpoints"); }
        let kept = if !keep { 1 } else if k == 0 { distinct.len() } else { k.min(distinct.len()) };
        check(left.len() - foreign.len() == kept, "cleanup keeps the wrong number of checkpoints");
        if keep { for it in distinct.iter().rev().take(kept) { check(left.iter().any(|f| f.ends_with(&format!("/{}_{:06}.bin", c.checkpoint_name, it))), "cleanup deletes a recent checkpoint and keeps an older one"); } }
        match m.load_latest_checkpoint() { Ok(d) => check(d.current_iteration == want, "the latest checkpoint is lost by cleanup"), Err(_) => check(false, "the latest checkpoint cannot be loaded after cleanup") }
    }
    cover("latest");
}
/// a crash or an I/O error at any step of a save. cfg: bit 0 keep_all; bit 1 no previous checkpoint; bit 2 I/O error instead of a crash; bit 3 same iteration saved again; bit 4 the new checkpoint is smaller
pub fn h_crash(cfg: u64) {
    let keep = cfg & 1 != 0;
    let fault = cfg & 4 != 0;
    let m = CheckpointManager::new(conf(keep, 1)).unwrap();
    let (a, b) = if cfg & 16 != 0 { (small(5), small(6)) } else { (small(6), small(7)) };
    let ib = if cfg & 8 != 0 { 6 } else { 7 };
    if cfg & 2 == 0 { m.save_checkpoint(&a, 6).unwrap(); }
    let at = fs().ops + int("step", 0, 12);
    if fault { fs().fault_at = at } else { fs().crash_at = at; fs().torn = [0, 1, 9, 100, 200, 100000][choice("torn", 6)]; }
    let r = m.save_checkpoint(&b, ib);
    let hit = if fault { fs().faulted } else { fs().crashed };
    if hit { cover("hit"); } else { cover("completed"); check(r.is_ok(), "saving fails"); }
    fs().reboot();
    let m = CheckpointManager::new(conf(keep, 1)).unwrap();
    let fa = flat(&a);
    let fb = flat(&b);
    match m.load_latest_checkpoint() {
        Ok(d) => {
            let d = flat(&d);
            if r.is_ok() && !(hit && !fault) { check(eq(&d, &fb), "a save that reported success is lost"); }
            else { check(eq(&d, &fb) || (cfg & 2 == 0 && eq(&d, &fa)), "after an interrupted save neither the old nor the new checkpoint is loaded"); }
            if eq(&d, &fb) { cover("new"); } else { cover("old"); }
        }
        Err(_) => { cover("none"); check(cfg & 2 != 0, "an interrupted save destroys the previous checkpoint"); check(!m.checkpoint_exists(), "a checkpoint that cannot be loaded is reported as existing"); check(hit, "a completed save cannot be loaded"); }
    }
    // the next save works
    check(m.save_checkpoint(&small(8), 8).is_ok(), "no checkpoint can be saved after an interrupted save");
    match m.load_latest_checkpoint() { Ok(d) => check(eq(&flat(&d), &flat(&small(8))), "the checkpoint saved after an interrupted one is not loaded"), Err(_) => check(false, "the checkpoint saved after an interrupted one cannot be loaded") }
}
/// a truncated checkpoint file is reported, not misread. cfg unused
pub fn h_trunc(_cfg: u64) {
    let m = CheckpointManager::new(conf(false, 1)).unwrap();
    let p = m.save_checkpoint(&small(6), 6).unwrap();
    let name = p.to_str().unwrap().to_string();
    let len = fs().find(&name).unwrap().len();
    let k = choice("length", len as i64);
    fs().find(&name).unwrap().truncate(k);
    match m.load_latest_checkpoint() { Ok(_) => check(false, "a truncated checkpoint is loaded"), Err(CheckpointError::SerializationError { .. }) => cover("reported"), Err(_) => check(false, "a truncated checkpoint is reported as another error") }
    let mut o = OQNLP::new(P, params(4, 5, 1.0)).unwrap().with_checkpointing(conf(false, 1)).unwrap();
    w().bounds = vec![(-4.0, 4.0)];
    check(o.run().is_err(), "a run resumes from a truncated checkpoint");
}
// ------------------------------------------------------------- resuming a run
pub fn world(nobj: usize, nf: usize, nx: usize) {
    w().bounds = vec![(-4.0, 4.0)];
    memo_objective(move |i, _| if i < nobj { num(&tagn("o", i), -4, 4, 1) } else { -3.0 + (i * 5 % 7) as f64 });
    local_any(move |i| (if i < nf { num(&tagn("f", i), -8, 8, 2) } else { 4.0 - i as f64 }, vec![if i < nx { num(&tagn("x", i), -6, 6, 1) + 0.25 } else { 10.0 + i as f64 * 3.0 }]));
}
/// every candidate passes the merit filter: the order and the distance filter alone decide
pub fn world_flat(nf: usize, nx: usize) {
    w().bounds = vec![(-4.0, 4.0)];
    memo_objective(|_, _| -1000.0);
    local_any(move |i| (if i < nf { num(&tagn("f", i), -2, 2, 4) } else { 0.0 }, vec![if i < nx { num(&tagn("x", i), -4, 4, 1) + 0.25 } else { 10.0 + i as f64 * 3.0 }]));
}
fn runs(c: &Conf, ck: Option<CheckpointConfig>) -> Outcome {
    let mut o = build(c);
    if let Some(k) = ck {
        match o.with_checkpointing(k) {
            Ok(x) => o = x,
            Err(_) => { check(fs().crashed, "checkpointing cannot be set up"); return Outcome { ok: false, err: "setup".into(), sols: vec![], calls: vec![], evals: vec![] }; }
        }
    }
    let r = o.run();
    outcome(r)
}
/// cfg: bits 0-1 batch mode; bit 2 keep_all; bits 3-4 frequency-1; bit 5 target; bit 6 exclusion; bit 7 crash in a local search instead of a file operation; bit 8 two crashes; bits 9-10 iterations-3; bit 11 fewer symbols; bit 13 more symbols; bit 12 distance factor matters; bit 14 all candidates pass the merit filter; bits 16.. seed
pub fn h_resume(cfg: u64) {
    let batch = (cfg & 3) as usize;
    let dist = cfg & 4096 != 0;
    world(if cfg & 2048 != 0 { 0 } else if cfg & 8192 != 0 { 2 } else { 1 }, 2, if dist { 1 } else { 0 });
    if cfg & 16384 != 0 { world_flat(if dist { 1 } else { 3 }, if dist { 2 } else { 0 }); }
    let mut c = Conf { par: batch > 0, batch: if batch > 0 { batch + 1 } else { 0 }, iters: 3 + ((cfg >> 9) & 3) as usize, pop: 6, d: if dist { 1.5 } else { 0.0 }, excl: cfg & 64 != 0, seed: cfg >> 16, ..Conf::default() };
    if cfg & 32 != 0 { c.target = Some(num("target", -6, 6, 2)); }
    let k = conf(cfg & 4 != 0, 1 + ((cfg >> 3) & 3) as usize);
    let u = runs(&c, None);
    log("ncalls", u.calls.len() as u64);
    let mut done: Vec<Vec<f64>> = vec![];
    for round in 0..if cfg & 256 != 0 { 2 } else { 1 } {
        if cfg & 128 != 0 {
            // the process dies inside local search number k of this run
            let at = choice(&tagn("call", round), u.calls.len() as i64 + 1);
            let mut f = w().local.take().unwrap();
            w().local = Some(Box::new(move |cc| { if t().calls.len() == at { fs().crashed = true; } f(cc) }));
        } else { fs().torn = if choice(&tagn("torn", round), 2) == 0 { 40 } else { 100000 }; fs().crash_at = fs().ops + int(&tagn("step", round), 0, 30); }
        let a = runs(&c, Some(k.clone()));
        if !fs().crashed { cover("no crash"); fs().reboot(); same_results(&a, &u, "saving checkpoints changes the result"); }
        else { cover("crash"); }
        // what survives of the interrupted run is decided by the file system alone
        for (x, _) in &a.calls { done.push(x.clone()); }
        fs().reboot();
    }
    { let f = w().local.take().unwrap(); let mut f = f; w().local = Some(Box::new(move |cc| { f(cc); fs().crashed = false; })); }
    let m = CheckpointManager::new(k.clone()).unwrap();
    let from = match m.load_latest_checkpoint() { Ok(cp) => { cover("resumed"); Some(cp.current_iteration) } Err(_) => { cover("fresh start"); None } };
    let b = runs(&c, Some(k.clone()));
    same_results(&b, &u, "a run resumed after a crash ends differently from an uninterrupted run");
    // the searches after the resume are the last ones of the uninterrupted run
    let pu: Vec<Vec<f64>> = u.calls.iter().map(|c| c.0.clone()).collect();
    let pb: Vec<Vec<f64>> = b.calls.iter().map(|c| c.0.clone()).collect();
    check(pb.len() <= pu.len(), "a resumed run searches more than an uninterrupted one");
    if pb.len() <= pu.len() { same_points(&pb, &pu[pu.len() - pb.len()..], true, "a resumed run repeats, skips or reorders local searches"); }
    if from.is_some() { check(pb.len() < pu.len() || pu.is_empty(), "a resumed run repeats its first stage"); }
    // a third run has nothing left to do
    let d = runs(&c, Some(k));
    same_results(&d, &u, "running again after completion changes the result");
    // (a target reached in stage 1 ends the run before there is anything to checkpoint)
    check(d.calls.is_empty() || u.calls.len() == 1, "running again after completion repeats local searches");
}
/// Extending a finished run: cfg: bits 0-1 batch mode; bits 2-3 more iterations; bit 4 distance; bit 5 path variant; bit 6 auto_resume off; bit 7 fewer iterations; bits 16.. seed
pub fn h_extend(cfg: u64) {
    let batch = (cfg & 3) as usize;
    let dist = cfg & 16 != 0;
    let fewer = cfg & 128 != 0;
    world(2, 2, if dist { 1 } else { 0 });
    let bl = batch_len(batch);
    let c = Conf { par: batch > 0, batch: if batch > 0 { batch + 1 } else { 0 }, iters: 2 * bl, pop: 8, d: if dist { 1.5 } else { 0.0 }, seed: cfg >> 16, ..Conf::default() };
    let more = Conf { iters: if fewer { bl } else { 2 * bl + 1 + ((cfg >> 2) & 3) as usize }, ..c.clone() };
    let mut k = conf(false, 1000);
    let u = runs(&more, None);
    let a = runs(&c, Some(k.clone()));
    if cfg & 64 != 0 { k.auto_resume = false; }
    let mut o = build(&more).with_checkpointing(k.clone()).unwrap();
    let mut p = params(more.iters, 8, c.d);
    p.seed = c.seed;
    p.wait_cycle = 2;
    if cfg & 32 != 0 { check(o.resume_from_checkpoint_with_params(std::path::Path::new("/memfs/c/s.bin"), p).is_ok(), "resuming from a path with more iterations fails"); }
    else { check(matches!(o.resume_with_modified_params(p), Ok(true)), "resuming with more iterations fails"); }
    let r = o.run();
    let b = outcome(r);
    cover("extended");
    if fewer {
        same_results(&b, &a, "a finished run resumed with fewer iterations ends differently");
        check(b.calls.is_empty(), "a finished run resumed with fewer iterations searches again");
        return;
    }
    same_results(&b, &u, "a run extended to more iterations ends differently from one that had them from the start");
    let pu: Vec<Vec<f64>> = u.calls.iter().map(|c| c.0.clone()).collect();
    let mut pb: Vec<Vec<f64>> = a.calls.iter().map(|c| c.0.clone()).collect();
    pb.extend(b.calls.iter().map(|c| c.0.clone()));
    same_points(&pb, &pu, true, "an extended run repeats, skips or reorders local searches");
}
/// Changed parameters take effect on resume and found solutions are kept.
/// cfg: bits 0-2 what; bit 3 batch 2; bit 4 path variant
pub fn h_modify(cfg: u64) {
    let what = cfg & 7;
    world(1, 2, 0);
    if what == 2 || what == 3 { memo_objective(|_, _| -1000.0); }
    let seqc = Conf { par: cfg & 8 != 0, batch: if cfg & 8 != 0 { 2 } else { 0 }, iters: 2, pop: 5, d: 0.0, ..Conf::default() };
    let a = runs(&seqc, Some(conf(false, 1000)));
    check(a.ok, "the first run fails");
    let before = CheckpointManager::new(conf(false, 1)).unwrap().load_latest_checkpoint().unwrap();
    let mut p = params(5, 5, 0.0);
    p.wait_cycle = 2;
    match what {
        1 => p.population_size = 9,
        2 => { p.local_solver_config = COBYLABuilder::default().max_iter(17).initial_step_size(0.75).build(); }
        3 => p.distance_factor = 50.0,
        4 => { p.wait_cycle = 1; p.threshold_factor = 4.0; }
        5 => { p.population_size = 9; p.iterations = 8; w().ncon = 1; w().con = Some(Box::new(|_, x| x[0] + 2.0)); }
        6 => p.population_size = 4,
        _ => {}
    }
    let mut o = build(&seqc).with_checkpointing(conf(false, 1000)).unwrap();
    let r = if cfg & 16 != 0 { o.resume_from_checkpoint_with_params(std::path::Path::new("/memfs/c/s.bin"), p.clone()).map(|_| true) } else { o.resume_with_modified_params(p.clone()) };
    check(matches!(r, Ok(true)), "resuming with changed parameters fails");
    static mut SEEN: Vec<(usize, f64)> = Vec::new();
    #[allow(static_mut_refs)]
    let seen = || unsafe { &mut SEEN };
    let mut f = w().local.take().unwrap();
    w().local = Some(Box::new(move |c| { seen().push((c.maxeval, c.rhobeg[0])); f(c) }));
    let r = o.run();
    let best = r.as_ref().map(|s| s.best_solution().unwrap().objective).unwrap_or(f64::NAN);
    let b = outcome(r);
    check(b.ok, "the resumed run fails");
    let olds: Vec<f64> = a.calls.iter().map(|c| c.1).collect();
    for v in olds { check(!(v < best - 0.25), "a solution found before the resume is lost"); }
    let after = CheckpointManager::new(conf(false, 1)).unwrap().load_latest_checkpoint().unwrap();
    check(after.params.population_size == p.population_size && after.params.distance_factor == p.distance_factor && after.params.wait_cycle == p.wait_cycle && after.params.threshold_factor == p.threshold_factor && after.params.iterations == p.iterations, "the changed parameters are not recorded");
    check(after.current_iteration == p.iterations, "the resumed run does not run its iterations");
    let old: Vec<Vec<f64>> = before.reference_set.iter().map(|r| r.to_vec()).collect();
    let new: Vec<Vec<f64>> = after.reference_set.iter().map(|r| r.to_vec()).collect();
    check(new.len() >= old.len(), "reference points are lost");
    if new.len() >= old.len() { same_points(&new[..old.len()], &old, true, "reference points change on resume"); }
    if cfg & 16 == 0 { check(new.len() == p.population_size.max(old.len()), "the reference set does not grow to the new population size"); }
    for x in &new[old.len()..] { check(x[0] >= -4.0 && x[0] <= 4.0, "a new reference point is out of bounds"); if what == 5 { check(x[0] >= -2.0, "a new reference point violates a constraint"); } }
    for (x, _) in &b.calls { check(new[2..].contains(x) , "a resumed run searches a point again"); }
    match what {
        2 => for s in seen().iter() { cover("searched"); check(s.0 == 17 && s.1 == 0.75, "the changed local solver settings are not used"); },
        3 => { if a.calls.len() == 3 { cover("searched"); } check(b.calls.is_empty(), "the changed distance factor is not used"); }
        _ => cover("searched"),
    }
}
/// without auto_resume a run ignores checkpoints; with a missing checkpoint nothing is resumed. cfg bit 0
pub fn h_noresume(cfg: u64) {
    world(1, 2, 0);
    let c = Conf { iters: 3, pop: 5, ..Conf::default() };
    let mut k = conf(cfg & 1 != 0, 1);
    let u = runs(&c, None);
    let a = runs(&c, Some(k.clone()));
    same_results(&a, &u, "saving checkpoints changes the result");
    k.auto_resume = false;
    let b = runs(&c, Some(k.clone()));
    same_results(&b, &u, "a run that must not resume is changed by a checkpoint");
    check(b.calls.len() == u.calls.len() && b.evals.len() == u.evals.len(), "a run that must not resume does");
    k.checkpoint_name = "other".into();
    let mut o = build(&c).with_checkpointing(k.clone()).unwrap();
    check(matches!(o.resume_with_modified_params(params(3, 5, 0.0)), Ok(false)), "resuming without a checkpoint is not reported");
    check(matches!(o.try_resume_from_checkpoint(), Ok(false)), "resuming without a checkpoint is not reported");
    k.auto_resume = true;
    let d = runs(&c, Some(k));
    check(d.calls.len() == u.calls.len(), "a run resumes from a checkpoint of another name");
    same_results(&d, &u, "a run is changed by a checkpoint of another name");
    cover("ignored");
}
