//! Determinism: two runs of the same problem must not differ.
use crate::common::*;
use crate::memfs::fs;
use crate::rt::*;
use globalsearch::observers::Observer;
use globalsearch::oqnlp::OQNLP;
use globalsearch::scatter_search::ScatterSearch;
use globalsearch::types::*;

#[derive(Clone, Default)]
pub struct Conf { pub par: bool, pub batch: usize, pub iters: usize, pub pop: usize, pub d: f64, pub observer: bool, pub verbose: bool, pub ckpt: bool, pub excl: bool, pub seed: u64, pub target: Option<f64> }
#[derive(Clone, PartialEq)]
pub struct Outcome { pub ok: bool, pub err: String, pub sols: Vec<(Vec<f64>, f64)>, pub calls: Vec<(Vec<f64>, f64)>, pub evals: Vec<Vec<f64>> }

pub fn build(c: &Conf) -> OQNLP<P> {
    let mut p = params(c.iters, c.pop, c.d);
    p.seed = c.seed;
    p.wait_cycle = 2;
    let mut o = OQNLP::new(P, p).unwrap().with_tolerance(0.25, 0.0).set_exclude_out_of_bounds(c.excl);
    #[cfg(feature = "full")]
    {
        o = o.parallel(c.par);
        if c.batch > 0 { o = o.batch_iterations(c.batch); }
        if c.ckpt { o = o.with_checkpointing(CheckpointConfig { checkpoint_dir: "/memfs/d".into(), checkpoint_name: "n".into(), save_frequency: 2, keep_all: false, auto_resume: false }).unwrap(); }
    }
    if let Some(t) = c.target { o = o.target_objective(t); }
    if c.observer { o = o.add_observer(Observer::new().with_stage1_tracking().with_stage2_tracking().with_timing().with_callback(|_| {})); }
    if c.verbose { o = o.verbose(); }
    o
}
pub fn outcome(r: Result<SolutionSet, globalsearch::oqnlp::OQNLPError>) -> Outcome {
    let (ok, err, sols) = match r {
        Ok(s) => (true, String::new(), s.solutions().map(|s| (s.point.to_vec(), s.objective)).collect()),
        Err(e) => (false, match e { globalsearch::oqnlp::OQNLPError::NoFeasibleSolution { .. } => "none", _ => "other" }.to_string(), vec![]),
    };
    let calls = t().calls.iter().map(|c| (c.x0.clone(), c.f)).collect();
    let evals = t().evals.iter().map(|e| e.0.clone()).collect();
    t().calls.clear();
    t().evals.clear();
    Outcome { ok, err, sols, calls, evals }
}
fn bits(v: &[f64]) -> Vec<u64> { v.iter().map(|x| x.to_bits()).collect() }
/// points are concrete, objectives may be symbolic
pub fn same_results(a: &Outcome, b: &Outcome, msg: &str) {
    check(a.ok == b.ok && a.err == b.err, msg);
    check(a.sols.len() == b.sols.len(), msg);
    if a.sols.len() != b.sols.len() { return; }
    for (x, y) in a.sols.iter().zip(&b.sols) {
        check(x.1.to_bits() == y.1.to_bits(), msg);
        for (u, v) in x.0.iter().zip(&y.0) { check(u.to_bits() == v.to_bits(), msg); }
    }
}
/// the same points, in the same order or as a multiset
pub fn same_points(a: &[Vec<f64>], b: &[Vec<f64>], ordered: bool, msg: &str) {
    let mut x: Vec<Vec<u64>> = a.iter().map(|p| bits(p)).collect();
    let mut y: Vec<Vec<u64>> = b.iter().map(|p| bits(p)).collect();
    if !ordered { x.sort(); y.sort(); }
    check(x == y, msg);
}
fn world(two: bool, kinds: u32, nsym: usize) {
    w().bounds = if two { vec![(-4.0, 4.0), (1.0, 2.5)] } else { vec![(-4.0, 4.0)] };
    let n = w().bounds.len();
    memo_objective(move |i, _| if i < nsym { ext_num(&tagn("o", i), -4, 4, 1, kinds) } else { 3.0 + (i % 7) as f64 });
    local_any(move |i| {
        let f = if i < 2 { num(&tagn("f", i), -8, 8, 2) } else { -5.0 - i as f64 };
        let x = if i < 1 { num(&tagn("x", i), -6, 6, 1) + 0.25 } else { i as f64 * 3.0 };
        (f, if n == 1 { vec![x] } else { vec![x, 2.0] })
    });
}
/// cfg: bits 0-3 what differs; bits 4-5 batch size-1; bits 6-7 iterations-3; bit 8 two dimensions; bit 9 NaN objectives; bit 10 population 20; bit 11 all candidates pass the merit filter; bits 12.. seed
pub fn h_det(cfg: u64) {
    let what = cfg & 15;
    let batch = 1 + ((cfg >> 4) & 3) as usize;
    let big = cfg & 1024 != 0;
    world(cfg & 256 != 0, ((cfg >> 9) & 1) as u32, if big { 1 } else { 2 });
    if cfg & 2048 != 0 {
        w().bounds = vec![(-4.0, 4.0)];
        memo_objective(|_, _| -1000.0);
        // near-ties: the order in which a batch's results are applied matters
        local_any(move |i| (if i < 4 { num(&tagn("f", i), -2, 2, 4) * 0.75 } else { 0.0 }, vec![10.0 + i as f64 * 3.0]));
    }
    let base = Conf { par: true, batch, iters: 3 + ((cfg >> 6) & 3) as usize, pop: if big { 20 } else { 6 }, d: 1.5, seed: cfg >> 12, ..Conf::default() };
    let seq = Conf { par: false, batch: 0, ..base.clone() };
    let (ca, cb) = match what {
        0 => (seq.clone(), seq.clone()),
        1 => (seq.clone(), Conf { batch: 1, ..base.clone() }),
        5 => (base.clone(), Conf { observer: true, ..base.clone() }),
        6 => (base.clone(), Conf { verbose: true, ..base.clone() }),
        7 => (base.clone(), Conf { ckpt: true, ..base.clone() }),
        8 => (seq.clone(), Conf { observer: true, ..seq.clone() }),
        _ => (base.clone(), base.clone()),
    };
    w().threads = 4;
    let a = { let mut o = build(&ca); let r = o.run(); outcome(r) };
    match what {
        2 => w().sched = 1,
        3 => choose_op(),
        4 => { w().threads = 1; w().split = 1; }
        // the clock may show anything
        9 => { fs().now += 86_400_000_000_000 * 400; }
        _ => {}
    }
    let b = { let mut o = build(&cb); let r = o.run(); outcome(r) };
    log("nsols", a.sols.len() as u64);
    log("ncalls", a.calls.len() as u64);
    if a.calls.len() >= 3 { cover("three searches"); }
    if a.sols.len() >= 2 { cover("two solutions"); }
    let m = match what { 0 | 9 => "two identical runs differ", 1 => "sequential and parallel runs differ", 2 | 3 => "the result depends on the thread schedule", 4 => "the result depends on the number of threads", 5 | 8 => "attaching an observer changes the run", 6 => "verbose output changes the run", _ => "saving checkpoints changes the run" };
    same_results(&a, &b, m);
    let ordered = !(what == 2 || what == 3);
    let pts = |o: &Outcome| o.calls.iter().map(|c| c.0.clone()).collect::<Vec<_>>();
    same_points(&pts(&a), &pts(&b), ordered, m);
    same_points(&a.evals, &b.evals, ordered, m);
}
/// the reference set does not depend on schedule or parallelism. cfg: bits 0-3 what; bit 4 population 24; bit 5 two dims; bit 6 constraint; bit 7 constraint no seed point satisfies; bit 8 a custom point at or near a sample; bit 9 population 104, 100 custom points, constraint; bits 12.. seed
pub fn h_detref(cfg: u64) {
    let what = cfg & 15;
    let many = cfg & 512 != 0;
    let pop = if many { 104 } else if cfg & 16 != 0 { 24 } else { 5 };
    w().bounds = if cfg & 32 != 0 { vec![(-4.0, 4.0), (1.0, 2.5)] } else { vec![(-4.0, 4.0)] };
    memo_objective(move |i, _| if i < if pop > 10 { 1 } else { 3 } { num(&tagn("o", i), -4, 4, 1) } else { (i * 7 % 11) as f64 - 3.0 });
    if cfg & 64 != 0 { w().ncon = 1; w().con = Some(Box::new(|_, x| x[0] + 3.5)); }
    if cfg & 128 != 0 { w().ncon = 1; w().con = Some(Box::new(|_, x| if x[0].abs() < 3.5 && x[0] != 0.0 { 1.0 } else { -1.0 })); }
    let n = w().bounds.len();
    let mut cust: Vec<ndarray::Array1<f64>> = vec![];
    if cfg & 256 != 0 {
        let mut p = params(4, pop, 1.0);
        p.seed = cfg >> 12;
        let v = ScatterSearch::new(P, p).unwrap().generate_stratified_samples(pop).unwrap();
        let mut c = v[choice("near sample", 4)].clone();
        c[n - 1] += [0.0, 0.015625, -0.015625][choice("offset", 3)];
        cust.push(c);
    }
    if many { w().ncon = 1; w().con = Some(Box::new(|_, x| if (x[0] * 16.0).rem_euclid(2.0) < 1.0 { 1.0 } else { -1.0 })); cust = (0..100).map(|i| ndarray::Array1::from(vec![-3.9 + i as f64 * 0.078; n])).collect(); }
    let run = |par: bool| {
        let mut p = params(4, pop, 1.0);
        p.seed = cfg >> 12;
        let mut ss = ScatterSearch::new(P, p).unwrap();
        if !cust.is_empty() { ss = ss.with_custom_points(cust.clone()); }
        #[cfg(feature = "full")]
        let ss = ss.parallel(par);
        let _ = par;
        ss.run().unwrap()
    };
    let a = run(what != 1);
    match what { 2 => w().sched = 1, 3 => choose_op(), 4 => { w().threads = 1; w().split = 1; } _ => {} }
    let b = run(true);
    check(a.0.len() == b.0.len(), "the reference set depends on the schedule");
    for (x, y) in a.0.iter().zip(&b.0) {
        check(bits(&x.0.to_vec()) == bits(&y.0.to_vec()), "the reference set depends on the schedule");
        check(x.1.to_bits() == y.1.to_bits(), "an objective depends on the schedule");
    }
    check(bits(&a.1.to_vec()) == bits(&b.1.to_vec()), "the best candidate depends on the schedule");
    cover("compared");
}
