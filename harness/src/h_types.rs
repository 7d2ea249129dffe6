//! Parameter validation and the small public types.
use crate::common::*;
use crate::rt::*;
use globalsearch::filters::FiltersErrors;
use globalsearch::oqnlp::{OQNLPError, OQNLP};
use globalsearch::types::*;
use ndarray::{array, Array1};

fn ulong(t: &str) -> u64 { any_f64(t).to_bits() }
/// exactly the documented parameters are accepted
pub fn h_validate(_cfg: u64) {
    w().bounds = vec![(-4.0, 4.0)];
    let (pop, it, wc) = (ulong("population") as usize, ulong("iterations") as usize, ulong("wait cycle") as usize);
    let (tf, df) = (any_f64("threshold factor"), any_f64("distance factor"));
    let mut p = params(0, 0, df);
    p.population_size = pop;
    p.iterations = it;
    p.wait_cycle = wc;
    p.threshold_factor = tf;
    p.seed = ulong("seed");
    match OQNLP::new(P, p) {
        Ok(_) => { cover("accepted"); check((pop > 3) & (it <= pop) & (tf > 0.0) & (df >= 0.0), "invalid parameters are accepted"); }
        Err(OQNLPError::InvalidPopulationSize(n)) => { cover("population"); check((pop <= 3) & (n == pop), "a valid population size is rejected"); }
        Err(OQNLPError::InvalidIterations(a, b)) => { cover("iterations"); check((it > pop) & (a == it) & (b == pop), "a valid number of iterations is rejected"); }
        Err(OQNLPError::InvalidThresholdFactor(v)) => { cover("threshold"); check(!(tf > 0.0) & (v.to_bits() == tf.to_bits()), "a valid threshold factor is rejected"); }
        Err(OQNLPError::DistanceFilterError(FiltersErrors::NegativeDistanceFactor { value })) => { cover("distance"); check(!(df >= 0.0) & (value.to_bits() == df.to_bits()), "a valid distance factor is rejected"); }
        Err(_) => check(false, "parameters are rejected with an unrelated error"),
    }
}
/// accepted parameters never make a run panic or fail. cfg: bits 0-1 population-4; bit 2 arbitrary objective; bits 3-4 NaN, +inf local results; bit 5 time limit; bit 6 target; bits 7-9 any distance factor, wait cycle, threshold factor
pub fn h_extreme(cfg: u64) {
    let pop = 4 + (cfg & 3) as usize;
    let kinds = ((cfg >> 3) & 3) as u32;
    w().bounds = vec![(-4.0, 4.0), (0.0, 0.5)];
    flat_objective(if cfg & 4 != 0 { ext_num("objective", -8, 8, 4, 7) } else { 0.0 });
    local_any(move |i| (ext_num(&tagn("f", i), -4, 4, 4, kinds), vec![i as f64 / 4.0, 0.25]));
    let (tf, df) = (if cfg & 512 != 0 { any_f64("threshold factor") } else { [5e-324, 0.25, f64::INFINITY][choice("threshold factor", 3)] }, if cfg & 128 != 0 { any_f64("distance factor") } else { 0.0 });
    assume((tf > 0.0) & (df >= 0.0));
    let mut p = params([0, 1, pop][choice("iterations", 3)], pop, df);
    p.wait_cycle = if cfg & 256 != 0 { ulong("wait cycle") as usize } else { 1 };
    p.threshold_factor = tf;
    p.seed = if cfg & 1 != 0 { u64::MAX } else { 0 };
    let iters = p.iterations;
    let mut o = OQNLP::new(P, p).unwrap();
    #[cfg(feature = "full")]
    { o = match choice("batch", 6) { 0 => o.parallel(false), 1 => o.batch_iterations(0), 2 => o.batch_iterations(1), 3 => o.batch_iterations(2), 4 => o.batch_iterations(usize::MAX), _ => o }; }
    if cfg & 32 != 0 { o = o.max_time([0.0, -1.0, f64::NAN, f64::INFINITY][choice("limit", 4)]); }
    if cfg & 64 != 0 { o = o.target_objective([f64::NAN, f64::INFINITY, f64::NEG_INFINITY][choice("target", 3)]); }
    let r = o.run();
    check(matches!(&r, Ok(s) if s.len() > 0), "a run with valid parameters fails");
    check(w().local_calls <= 1 + iters, "more local searches than iterations");
    cover("run");
}
/// a solution set of arbitrary solutions. cfg: bits 0-1 number of solutions
pub fn h_solutions(cfg: u64) {
    let (n, big) = if cfg >= 4 { (20, true) } else { ((cfg & 3) as usize, false) };
    // the long set has two arbitrary objectives, the last one among them
    let k = if big { choice("where", 3) * 9 } else { 0 };
    let v: Vec<(f64, f64)> = (0..n).map(|i| if big && i != k && i + 1 != n { (i as f64, (i * 7 % 10) as f64) } else { (any_f64(&tagn("x", i)), any_f64(&tagn("f", i))) }).collect();
    let s = SolutionSet { solutions: Array1::from(v.iter().map(|a| LocalSolution { point: array![a.0], objective: a.1 }).collect::<Vec<_>>()) };
    check(s.len() == n && s.is_empty() == (n == 0), "the number of solutions is wrong");
    for (i, a) in s.solutions().enumerate() {
        check(a.point[0].to_bits() == v[i].0.to_bits() && a.objective.to_bits() == v[i].1.to_bits() && s[i].objective.to_bits() == v[i].1.to_bits() && a.fun().to_bits() == v[i].1.to_bits() && a.x()[0].to_bits() == v[i].0.to_bits(), "a solution is changed or reordered");
    }
    match s.best_solution() {
        None => { check(n == 0, "there is no best solution"); cover("empty"); }
        Some(b) => {
            cover("best");
            let b = b.objective;
            let mut found = false;
            for a in &v { found |= a.1.to_bits() == b.to_bits(); check(!((a.1 < b) | (b.is_nan() & !a.1.is_nan())), "the best solution is not the best"); }
            check(found, "the best solution is not in the set");
        }
    }
}
/// solver names. cfg: length; +64 any ASCII text of that length, otherwise any capitalisation of the names of that length
pub fn h_names(cfg: u64) {
    let n = (cfg & 63) as usize;
    let mut names: Vec<(&str, u8)> = vec![("cobyla", 5)];
    if cfg!(feature = "argmin") { names.extend([("lbfgs", 0), ("nelder-mead", 1), ("neldermead", 1), ("steepestdescent", 2), ("trustregion", 3), ("newton-cg", 4), ("newtoncg", 4)]); }
    let names: Vec<(&str, u8)> = names.into_iter().filter(|a| a.0.len() == n).collect();
    let text: Vec<u8> = if cfg & 64 != 0 { (0..n).map(|i| int(&tagn("c", i), 0, 127) as u8).collect() }
        else { let k = names[choice("name", names.len() as i64)].0.as_bytes(); (0..n).map(|i| if k[i].is_ascii_lowercase() { k[i] - 32 * boolean(&tagn("upper", i)) as u8 } else { k[i] }).collect() };
    let r = LocalSolverType::from_string(unsafe { std::str::from_utf8_unchecked(&text) });
    let mut want = 255;
    for (k, t) in &names { let mut e = true; for i in 0..n { let c = text[i]; e &= (c | (32 * c.is_ascii_uppercase() as u8)) == k.as_bytes()[i]; } if fork(e) { want = *t; } }
    match r {
        Ok(t) => { cover("known"); check(ty(&t) == want, "a solver name selects another solver"); }
        Err(_) => { cover("unknown"); check(want == 255, "a solver name is not recognised"); }
    }
}
#[cfg(feature = "argmin")]
fn ty(t: &LocalSolverType) -> u8 { match t { LocalSolverType::LBFGS => 0, LocalSolverType::NelderMead => 1, LocalSolverType::SteepestDescent => 2, LocalSolverType::TrustRegion => 3, LocalSolverType::NewtonCG => 4, LocalSolverType::COBYLA => 5 } }
#[cfg(not(feature = "argmin"))]
fn ty(_: &LocalSolverType) -> u8 { 5 }
