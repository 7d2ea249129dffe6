use crate::rt::*;
use globalsearch::local_solver::builders::*;
use globalsearch::oqnlp::OQNLP;
use globalsearch::types::*;
fn params() -> OQNLPParams {
    OQNLPParams { iterations: 4, population_size: 5, seed: 1, wait_cycle: 2, local_solver_type: LocalSolverType::COBYLA, local_solver_config: COBYLABuilder::default().build(), ..OQNLPParams::default() }
}
fn world() {
    w().bounds = vec![(-3.0, 3.0), (-2.0, 2.0)];
    w().obj = Some(Box::new(|x| Ok((x[0] - 0.7).powi(2) + (x[1] - 0.3) * (x[1] - 0.3))));
    w().local = Some(Box::new(|c| { c.x = c.xinit.iter().map(|v| v * 0.5).collect(); c.f = (c.func)(&c.x); }));
}
pub fn h_smoke(_cfg: u64) {
    world();
    let mut o = OQNLP::new(P, params()).unwrap();
    #[cfg(feature = "full")]
    { o = o.parallel(_cfg & 1 == 1); }
    let s = o.run().unwrap();
    for x in s.solutions.iter() { logf("obj", x.objective); logf("x0", x.point[0]); }
    log("calls", w().obj_calls as u64);
}
#[cfg(feature = "full")]
pub fn h_ckpt(_cfg: u64) {
    use globalsearch::types::CheckpointConfig;
    world();
    let mut o = OQNLP::new(P, params()).unwrap().with_checkpointing(CheckpointConfig { checkpoint_dir: "/memfs/a/b".into(), save_frequency: 1, ..Default::default() }).unwrap();
    let s = o.run().unwrap();
    for x in s.solutions.iter() { logf("obj", x.objective); logf("x0", x.point[0]); }
    for f in crate::memfs::fs().names() { log(&f, 0); }
    let mut o = OQNLP::new(P, params()).unwrap().with_checkpointing(CheckpointConfig { checkpoint_dir: "/memfs/a/b".into(), save_frequency: 1, ..Default::default() }).unwrap();
    let s = o.run().unwrap();
    for x in s.solutions.iter() { logf("obj", x.objective); logf("x0", x.point[0]); }
    log("calls", w().obj_calls as u64);
}
#[cfg(not(feature = "full"))]
pub fn h_ckpt(_cfg: u64) {}
