//! Shared pieces of the harnesses.
#![allow(static_mut_refs)]
use crate::rt::*;
use globalsearch::local_solver::builders::*;
use globalsearch::oqnlp::OQNLP;
use globalsearch::types::*;

#[derive(Clone)]
pub struct LocalCall { pub x0: Vec<f64>, pub x: Vec<f64>, pub f: f64, pub bounds: Vec<(f64, f64)>, pub ncons: usize, pub maxeval: usize, pub at_obj: usize }
pub struct Trace { pub calls: Vec<LocalCall>, pub evals: Vec<(Vec<f64>, f64)>, pub obj: Memo<f64>, pub loc: Memo<(f64, Vec<f64>)> }
static mut T: Trace = Trace { calls: Vec::new(), evals: Vec::new(), obj: Memo::new(), loc: Memo::new() };
pub fn t() -> &'static mut Trace { unsafe { &mut T } }

pub fn params(iters: usize, pop: usize, d: f64) -> OQNLPParams {
    OQNLPParams { iterations: iters, population_size: pop, seed: 0, wait_cycle: 100, threshold_factor: 0.25, distance_factor: d, local_solver_type: LocalSolverType::COBYLA, local_solver_config: COBYLABuilder::default().build(), ..OQNLPParams::default() }
}
/// every point has the same objective value
pub fn flat_objective(v: f64) {
    w().obj = Some(Box::new(move |x| { t().evals.push((x.to_vec(), v)); Ok(v) }));
}
/// objective fixed per point on its first evaluation
pub fn memo_objective(mk: impl Fn(usize, &[f64]) -> f64 + 'static) {
    w().obj = Some(Box::new(move |x| {
        let v = t().obj.get(x, |i| mk(i, x));
        t().evals.push((x.to_vec(), v));
        Ok(v)
    }));
}
/// local solver: a function of the start point, otherwise arbitrary
pub fn local_any(mk: impl Fn(usize) -> (f64, Vec<f64>) + 'static) {
    w().local = Some(Box::new(move |c| {
        let (f, x) = t().loc.get(c.xinit, |i| mk(i));
        c.x = x.clone();
        c.f = f;
        let at_obj = t().evals.len();
        t().calls.push(LocalCall { x0: c.xinit.to_vec(), x, f, bounds: c.bounds.to_vec(), ncons: c.ncons, maxeval: c.maxeval, at_obj });
    }));
}
pub fn batched(o: OQNLP<P>, batch: usize) -> OQNLP<P> {
    #[cfg(feature = "full")]
    { if batch == 0 { o.parallel(false) } else { o.parallel(true).batch_iterations(batch + 1) } }
    #[cfg(not(feature = "full"))]
    { let _ = batch; o }
}
/// iterations handled together in stage 2
pub fn batch_len(batch: usize) -> usize { if cfg!(feature = "full") && batch > 0 { batch + 1 } else { 1 } }
