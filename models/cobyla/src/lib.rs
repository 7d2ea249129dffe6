//! Environment model of the `cobyla` crate 0.8 (see DESIGN.md, "Models").
//!
//! `minimize` hands everything it received to the harness, which plays the
//! local solver: it may evaluate the objective and the constraints anywhere and
//! then returns a nondeterministic outcome.
#[derive(Debug, Clone, Copy)]
pub enum FailStatus { Failure, InvalidArgs, OutOfMemory, RoundoffLimited, ForcedStop, UnexpectedError }
#[derive(Debug, Clone, Copy)]
pub enum SuccessStatus { Success, StopValReached, FtolReached, XtolReached, MaxEvalReached, MaxTimeReached }
type FailOutcome = (FailStatus, Vec<f64>, f64);
type SuccessOutcome = (SuccessStatus, Vec<f64>, f64);
#[derive(Debug, Clone, Default)]
pub struct StopTols { pub ftol_rel: f64, pub ftol_abs: f64, pub xtol_rel: f64, pub xtol_abs: Vec<f64> }
pub enum RhoBeg { All(f64), Set(Vec<f64>) }
pub trait Func<U>: Fn(&[f64], &mut U) -> f64 {}
impl<T, U> Func<U> for T where T: Fn(&[f64], &mut U) -> f64 {}

pub struct Call<'a> {
    pub xinit: &'a [f64],
    pub bounds: &'a [(f64, f64)],
    pub ncons: usize,
    pub maxeval: usize,
    pub rhobeg: Vec<f64>,
    pub tols: StopTols,
    pub func: &'a mut dyn FnMut(&[f64]) -> f64,
    pub con: &'a mut dyn FnMut(usize, &[f64]) -> f64,
    // result
    pub x: Vec<f64>,
    pub f: f64,
    /// 0: success, otherwise failure
    pub status: i32,
}
extern "Rust" { fn __cobyla_hook(c: &mut Call); }

pub fn minimize<F: Func<U>, G: Func<U>, U: Clone>(
    func: F, xinit: &[f64], bounds: &[(f64, f64)], cons: &[G], args: U, maxeval: usize,
    rhobeg: RhoBeg, stop_tol: Option<StopTols>,
) -> Result<SuccessOutcome, FailOutcome> {
    if bounds.len() != xinit.len() { panic!("Minimize Error: Bounds and x should have same size!"); }
    let rhobeg = match rhobeg {
        RhoBeg::All(v) => vec![v; xinit.len()],
        RhoBeg::Set(v) => { if v.len() != xinit.len() { panic!("Minimize Error: rhobeg should have x dim size"); } v }
    };
    let tols = stop_tol.unwrap_or_default();
    if !tols.xtol_abs.is_empty() && tols.xtol_abs.len() != xinit.len() { panic!("Minimize Error: xtol_abs should have x dim size"); }
    let mut a = args.clone();
    let mut b = args;
    let mut f = |x: &[f64]| func(x, &mut a);
    let mut c = |i: usize, x: &[f64]| cons[i](x, &mut b);
    let mut call = Call { xinit, bounds, ncons: cons.len(), maxeval, rhobeg, tols, func: &mut f, con: &mut c, x: xinit.to_vec(), f: f64::INFINITY, status: 0 };
    unsafe { __cobyla_hook(&mut call) };
    let Call { x, f, status, .. } = call;
    match status {
        0 => Ok((SuccessStatus::Success, x, f)),
        1 => Err((FailStatus::Failure, x, f)),
        _ => Err((FailStatus::RoundoffLimited, x, f)),
    }
}
