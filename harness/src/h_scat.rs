//! Stage 1: the scatter-search reference set; custom points; constraints; errors; determinism.
use crate::common::*;
use crate::rt::*;
use globalsearch::oqnlp::{OQNLPError, OQNLP};
use globalsearch::scatter_search::{ScatterSearch, ScatterSearchError};
use globalsearch::types::EvaluationError;
use ndarray::{Array1, Array2};

fn par<'a>(s: ScatterSearch<'a, P>, on: bool) -> ScatterSearch<'a, P> {
    #[cfg(feature = "full")]
    { s.parallel(on) }
    #[cfg(not(feature = "full"))]
    { let _ = on; s }
}
fn same(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits()) }
fn less(a: f64, b: f64) -> bool { (a < b) | (b.is_nan() & !a.is_nan()) }
fn in_bounds(x: &[f64]) -> bool { let mut r = x.len() == w().bounds.len(); for (v, b) in x.iter().zip(&w().bounds) { r &= (*v >= b.0) & (*v <= b.1); } r }

/// what every reference set must satisfy, given the evaluations recorded so far
fn judge(set: &[(Array1<f64>, f64)], best: &Array1<f64>, pop: usize, from: usize) {
    check(set.len() == pop, "the reference set does not have the population size");
    let ev = &t().evals[from..];
    let value = |x: &[f64]| ev.iter().find(|e| same(&e.0, x)).map(|e| e.1);
    let mut vals = vec![];
    for (p, o) in set {
        let p = p.to_vec();
        check(in_bounds(&p), "a reference point lies outside the variable bounds");
        match value(&p) { Some(v) => check(v.to_bits() == o.to_bits(), "a reference point carries an objective value that is not its own"), None => check(false, "a reference point was never evaluated") }
        vals.push((p, *o));
    }
    for e in ev { check(in_bounds(&e.0), "the objective is evaluated outside the variable bounds"); }
    match value(&best.to_vec()) {
        Some(b) => {
            check(vals.iter().any(|v| same(&v.0, &best.to_vec())), "the best candidate is not in the reference set");
            for e in ev { check(!less(e.1, b), "the best candidate is worse than a point already evaluated"); }
        }
        None => check(false, "the best candidate was never evaluated"),
    }
    for e in ev {
        if vals.iter().any(|v| same(&v.0, &e.0)) { continue; }
        cover("evaluated point dropped");
        for v in &vals { check(!less(e.1, v.1), "the reference set keeps a point worse than one that was evaluated and dropped"); }
    }
}
/// cfg: bits 0-1 population-4; bits 2-3 symbolic trial points; bit 4 parallel; bits 5-6 kinds; bits 7-8 custom points; bit 9 two dims; bit 10 population 16, 25, 40 or 64 (bits 0-1), symbolic objectives of three points (16) or one; bit 11 three dims; bits 12.. seed
pub fn h_scatter(cfg: u64) {
    let big = cfg & 1024 != 0;
    let pop = if big { [16, 25, 40, 64][(cfg & 3) as usize] } else { 4 + (cfg & 3) as usize };
    let ntr = ((cfg >> 2) & 3) as usize;
    let on = cfg & 16 != 0;
    let kinds = ((cfg >> 5) & 3) as u32;
    let ncust = ((cfg >> 7) & 3) as usize;
    let seed = cfg >> 12;
    w().bounds = if cfg & 2048 != 0 { vec![(-4.0, 4.0), (1.0, 2.5), (-0.5, -0.25)] } else if cfg & 512 != 0 { vec![(-4.0, 4.0), (1.0, 2.5)] } else { vec![(-4.0, 4.0)] };
    let n = w().bounds.len();
    memo_objective(move |i, _| if big { if i == pop + 2 || (pop == 16 && i == 5) || (pop == 16 && i == pop + 9) { num(&tagn("o", i), -8, 8, 2) } else { ((i * 37 + 11) % 64) as f64 / 4.0 - 8.0 } } else if i < pop + ntr { ext_num(&tagn("o", i), -8, 8, 2, kinds) } else { 1000.0 + i as f64 });
    let mut p = params(pop, pop, 1.0);
    p.seed = seed;
    let mut ss = par(ScatterSearch::new(P, p).unwrap(), on);
    let cust: Vec<Array1<f64>> = (0..ncust).map(|i| Array1::from([1.25 - i as f64 * 2.0, 1.5, -0.375][..n].to_vec())).collect();
    if ncust > 0 { ss = ss.with_custom_points(cust.clone()); }
    match ss.run() {
        Ok((set, best)) => {
            judge(&set, &best, pop, 0);
            let seeds: Vec<Vec<f64>> = vec![w().bounds.iter().map(|b| b.0).collect(), w().bounds.iter().map(|b| b.1).collect(), w().bounds.iter().map(|b| (b.0 + b.1) / 2.0).collect()];
            for s in seeds.iter().chain(cust.iter().map(|c| c.to_vec()).collect::<Vec<_>>().iter()) {
                check(t().evals.iter().any(|e| same(&e.0, s)), "a seed or custom point is left out of the initial reference set");
            }
            if set.iter().any(|s| t().evals[..pop].iter().all(|e| !same(&e.0, &s.0.to_vec()))) { cover("trial point enters"); }
            for (p, o) in &set { log("o", o.to_bits()); log("x", p[0].to_bits()); }
        }
        Err(_) => check(false, "scatter search fails although every evaluation succeeds"),
    }
}
/// points produced from two arbitrary points stay within the bounds.
/// cfg: bit 0: any doubles within the bounds, otherwise a grid; bits 1-2 dimensions-1 (the last symbolic); bits 4..: seed
pub fn h_combine(cfg: u64) {
    let n = 1 + ((cfg >> 1) & 3) as usize;
    w().bounds = (0..n).map(|i| if i + 1 == n { (-4.0, 4.0) } else { (1.0, 1.0 + (i + 1) as f64) }).collect();
    let (a, b) = if cfg & 1 != 0 {
        let (a, b) = (any_f64("a"), any_f64("b"));
        assume(a >= -4.0 && a <= 4.0); assume(b >= -4.0 && b <= 4.0);
        (a, b)
    } else { (num("a", -8, 8, 2), num("b", -8, 8, 2)) };
    let ss = ScatterSearch::new(P, params(4, 4, 1.0)).unwrap();
    let full = |v: f64| { let mut x: Vec<f64> = w().bounds.iter().map(|b| b.1).collect(); x[n - 1] = v; Array1::from(x) };
    let pts = ss.combine_points(&full(a), &full(b), cfg >> 4);
    check(!pts.is_empty(), "combining two points gives no trial point");
    for p in &pts { check(in_bounds(&p.to_vec()), "a trial point lies outside the variable bounds"); }
    cover("combined");
}
/// samples stay within symbolic bounds
/// cfg: bit 0 parallel; bits 4..: seed
pub fn h_sample(cfg: u64) {
    let lo = num("lo", -8, 8, 2);
    let hi = num("hi", -8, 8, 2);
    assume(lo < hi);
    w().bounds = vec![(lo, hi)];
    let mut p = params(4, 4, 1.0);
    p.seed = cfg >> 4;
    let ss = par(ScatterSearch::new(P, p).unwrap(), cfg & 1 != 0);
    match ss.generate_stratified_samples(2) {
        Ok(v) => { check(v.len() == 2, "the number of samples is not the number asked for"); for x in &v { check((x[0] >= lo) & (x[0] <= hi), "a sample lies outside the variable bounds"); } cover("sampled"); }
        Err(_) => check(false, "sampling fails"),
    }
}
/// bounds validation: every pair of doubles. cfg bit 0: with run
/// the seed points (both bounds and their midpoint) lie inside the bounds. cfg 0: any doubles, constrained problem; 1: extreme bounds, unconstrained
pub fn h_mid(cfg: u64) {
    if cfg & 1 == 0 {
        let (lo, hi) = (any_f64("lo"), any_f64("hi"));
        assume(lo < hi);
        assume((hi - lo).is_finite());
        w().bounds = vec![(lo, hi)];
        w().ncon = 1;
        static mut N: usize = 0;
        w().con = Some(Box::new(move |_, x| {
            check((x[0] >= lo) & (x[0] <= hi), "a constraint is evaluated outside the variable bounds");
            unsafe { N += 1; if N == 3 { cover("seeds"); assume(false); } }
            -1.0
        }));
        let _ = par(ScatterSearch::new(P, params(4, 4, 1.0)).unwrap(), false).run();
        return;
    }
    let all = [(1e308, 1.5e308), (-1.7e308, -1.2e308), (f64::MAX / 2.0, f64::MAX), (5e-324, 1e-323), (1e-323, 1.5e-323), (-5e-324, 5e-324), (1.0, 1.0000000000000002), (-8e307, 8e307), (0.0, 1e-300)];
    let (lo, hi) = all[choice("bounds", all.len() as i64)];
    w().bounds = vec![(lo, hi)];
    w().obj = Some(Box::new(move |x| { check(x[0] >= lo && x[0] <= hi, "the objective is evaluated outside the variable bounds"); Ok(1.0) }));
    let r = par(ScatterSearch::new(P, params(4, 4, 1.0)).unwrap(), false).run();
    check(r.is_ok(), "the scatter search fails for valid bounds");
    cover("extreme");
}
pub fn h_bounds(cfg: u64) {
    let n = [2, 1, 4, 9][(cfg & 3) as usize];
    let k = choice("dimension", n as i64);
    let lo = any_f64("lo");
    let hi = any_f64("hi");
    w().bounds = vec![(-1.0, 1.0); n];
    w().bounds[k] = (lo, hi);
    match ScatterSearch::new(P, params(4, 4, 1.0)) {
        Ok(_) => { cover("valid"); check(lo < hi, "bounds with lower >= upper or NaN are accepted"); check((hi - lo).is_finite(), "bounds that cannot be sampled are accepted"); }
        Err(ScatterSearchError::InvalidBounds { dimension, lower, upper }) => {
            cover("invalid");
            check(!(lo < hi) || !(hi - lo).is_finite(), "valid bounds are rejected");
            check(dimension == k && lower.to_bits() == lo.to_bits() && upper.to_bits() == hi.to_bits(), "the error does not name the invalid bounds");
        }
        Err(_) => check(false, "invalid bounds are reported as another error"),
    }
}
/// custom points: any doubles, checked against the bounds. cfg bits 0-1: 0 one point, 1 second of two, 2 wrong dimension
pub fn h_points(cfg: u64) {
    w().bounds = vec![(-4.0, 4.0), (0.5, 2.0)];
    flat_objective(0.0);
    let (a, b) = (any_f64("a"), any_f64("b"));
    let inside = (a >= -4.0) & (a <= 4.0) & (b >= 0.5) & (b <= 2.0);
    let (pts, idx) = match cfg & 3 {
        0 => (Array2::from_shape_vec((1, 2), vec![a, b]).unwrap(), 0),
        1 => (Array2::from_shape_vec((2, 2), vec![0.0, 1.0, a, b]).unwrap(), 1),
        _ => (Array2::from_shape_vec((1, 3), vec![0.0, 1.0, a]).unwrap(), 0),
    };
    match OQNLP::new(P, params(4, 5, 1.0)).unwrap().with_points(pts) {
        Ok(_) => { cover("accepted"); check(inside && cfg & 3 < 2, "a custom point outside the bounds or of the wrong dimension is accepted"); }
        Err(OQNLPError::CustomPointOutOfBounds { index }) => { cover("out of bounds"); check(!inside, "a custom point within the bounds is rejected"); check(index == idx, "the error names the wrong custom point"); }
        Err(OQNLPError::InvalidCustomPointsDimension { point_index, expected, got }) => { cover("dimension"); check(cfg & 3 == 2 && point_index == 0 && expected == 2 && got == 3, "the dimension error is wrong"); }
        Err(_) => check(false, "a wrong custom point is reported as another error"),
    }
}
/// custom points take part in the search: the first search starts from the best of seeds and custom points
/// cfg: bits 0-1 number-1; bits 2-3 batch; bits 4-5 positions: a grid, close to the midpoint, close to the lower bound, close to each other; bit 6: more points than the population holds
pub fn h_custom(cfg: u64) {
    let nc = 1 + (cfg & 3) as usize;
    let over = cfg & 64 != 0;
    let pop = if over { 4 } else { 3 + nc };
    let first = 3 + nc;
    w().bounds = vec![(-4.0, 4.0)];
    let cs: Vec<f64> = (0..nc).map(|i| match cfg >> 4 & 3 { 0 => num(&tagn("c", i), -32, 32, 8), 1 => num(&tagn("c", i), -8, 8, 1 << 20), 2 => -4.0 + num(&tagn("c", i), 0, 16, 1 << 20), _ => 1.0 + num(&tagn("c", i), -8, 8, 1 << 20) }).collect();
    // points are symbolic here: the objective is a function of the evaluation index, remembered by position
    w().obj = Some(Box::new(move |x| { let i = t().evals.len(); let v = if i < first { num(&tagn("o", i), -8, 8, 2) } else { 1.0e6 }; t().evals.push((x.to_vec(), v)); Ok(v) }));
    w().local = Some(Box::new(|c| { c.f = -1000.0; c.x = vec![100.0]; t().calls.push(LocalCall { x0: c.xinit.to_vec(), x: c.x.clone(), f: c.f, bounds: c.bounds.to_vec(), ncons: c.ncons, maxeval: c.maxeval, at_obj: 0 }); }));
    let o = OQNLP::new(P, params(pop, pop, 0.0)).unwrap().with_points(Array2::from_shape_vec((nc, 1), cs.clone()).unwrap()).unwrap().target_objective(-500.0);
    let mut o = batched(o, ((cfg >> 2) & 3) as usize);
    let _ = o.run();
    let ev = &t().evals;
    for c in &cs {
        let mut hit = false;
        for e in &ev[..first] { hit |= e.0[0] == *c; }
        check(hit, "a custom point is not evaluated as part of the initial reference set");
    }
    let x0 = t().calls[0].x0[0];
    let mut ok = false;
    for i in 0..first { let mut best = true; for j in 0..first { best &= !(ev[j].1 < ev[i].1); } ok |= best & (ev[i].0[0] == x0); }
    check(ok, "the first local search does not start from the best of the seed and custom points");
    cover("custom");
}
/// Constraints: symbolic feasibility of the first points, the rest by a symbolic pattern.
/// cfg: bits 0-1 number of symbolic points -1 ; bit 2 two constraints; bit 3 NaN; bit 4 parallel; bit 5 custom point; bit 6 any double as constraint value; bit 7: 100 custom points; bits 8-9 more patterns
pub fn h_constraints(cfg: u64) {
    let nsym = 1 + (cfg & 3) as usize;
    let ncon = if cfg & 4 != 0 { 2 } else { 1 };
    let nan = ((cfg >> 3) & 1) as u32;
    let on = cfg & 16 != 0;
    let any = cfg & 64 != 0;
    let many = cfg & 128 != 0;
    let pop = if many { 104 } else { 4 };
    w().bounds = vec![(-4.0, 4.0)];
    w().ncon = ncon;
    static mut FEAS: Memo<Vec<f64>> = Memo::new();
    #[allow(static_mut_refs)]
    fn feas() -> &'static mut Memo<Vec<f64>> { unsafe { &mut FEAS } }
    // 0 all feasible, 1 none, 2 one constraint violated by each, 3 every third feasible, 4.. a given number feasible
    let rest = match (cfg >> 8) & 3 { 0 => choice("rest", 2), 1 => 2 + choice("rest", 2), _ => 4 + choice("feasible samples", 6) };
    let gval = move |x: &[f64]| -> Vec<f64> {
        feas().get(x, |i| (0..ncon).map(|j| {
            let sym = if many { i == 1 || i == 4 || i == 102 } else { i < nsym };
            let good = match rest { 0 => true, 1 => false, 2 => j != i % ncon, 3 => i % 3 == 0 || j != i / 2 % ncon, n => (i >= 9 && i < 9 + n - 4) || (i >= 3 && j != i % ncon) };
            if sym { if any { any_f64(&format!("g{}_{}", i, j)) } else { ext_num(&format!("g{}_{}", i, j), -1, 1, 1, nan) } } else if good { (i % 2) as f64 } else { [-1.0, -f64::MIN_POSITIVE, f64::NAN][if nan != 0 { i % 3 } else { i % 2 }] }
        }).collect())
    };
    w().con = Some(Box::new(move |i, x| gval(x)[i]));
    memo_objective(|i, _| i as f64);
    local_any(|i| (-1.0 - i as f64, vec![0.5]));
    let ok = |x: &[f64]| { let v = feas().get(x, |_| vec![f64::NAN]); let mut r = true; for g in &v { r &= *g >= 0.0; } r };
    let cust: Vec<f64> = if many { (0..100).map(|i| -3.75 + i as f64 / 16.0).collect() } else if cfg & 32 != 0 { vec![1.25] } else { vec![] };
    let mut o = OQNLP::new(P, params(4, pop, 0.0)).unwrap();
    if !cust.is_empty() { o = o.with_points(Array2::from_shape_vec((cust.len(), 1), cust.clone()).unwrap()).unwrap(); }
    let mut o = batched(o, if on { 1 } else { 0 });
    match o.run() {
        Ok(_) => {
            cover("feasible");
            check(t().evals.len() >= pop, "fewer feasible points than the population size go unreported");
            for e in &t().evals { check(ok(&e.0), "scatter search evaluates the objective at a point that violates a constraint"); }
            for c in &t().calls {
                check(ok(&c.x0), "a local search starts at a point that violates a constraint");
                check(c.ncons == ncon, "the local solver is not given every constraint");
            }
            for s in [-4.0, 4.0, 0.0].iter().chain(&cust) {
                let want = feas().t.iter().find(|f| f.0[0] == f64::to_bits(*s)).map(|f| f.1.clone());
                check(want.is_some(), "a seed or custom point is never checked against the constraints");
                let mut w = true; for g in want.unwrap() { w &= g >= 0.0; }
                if fork(w) { cover("seed kept"); check(t().evals.iter().any(|e| e.0[0] == *s), "a feasible seed or custom point is left out of the reference set"); } else { cover("seed dropped"); }
            }
        }
        Err(OQNLPError::ScatterSearchRunError(ScatterSearchError::NoFeasibleCandidates { .. })) => {
            cover("infeasible");
            let (mut n, mut samples) = (0, 0);
            for (i, f) in feas().t.iter().enumerate() {
                let mut g = true; for v in &f.1 { g &= *v >= 0.0; }
                if fork(g) { n += 1; if i >= 3 + cust.len() { samples += 1; } }
            }
            check(samples == 0 || n < pop, "no feasible point is reported although enough feasible points were sampled");
            check(rest != 0, "no feasible point is reported although feasible points can be sampled");
        }
        Err(_) => check(false, "an infeasible problem is reported as another error"),
    }
}
/// Evaluation failures. cfg: bits 0-1 batch; bits 2-4: 0 objective fails at evaluation k, 1 local search k fails, 2 objective fails inside local search
pub fn h_error(cfg: u64) {
    let batch = (cfg & 3) as usize;
    let kind = (cfg >> 2) & 7;
    let iters = if cfg & 32 != 0 { 5 } else { 3 };
    let pop = 2 * (iters / 2) + 2;
    w().bounds = vec![(-4.0, 4.0)];
    let k = choice("k", if kind == 1 { iters as i64 + 1 } else { 10 });
    w().obj = Some(Box::new(move |x| { let i = t().evals.len(); t().evals.push((x.to_vec(), -10.0)); if kind == 0 && i == k { Err(EvaluationError::DivisionByZero) } else { Ok(if i < pop { -10.0 } else { -9.0 }) } }));
    w().local = Some(Box::new(move |c| {
        let i = t().calls.len();
        c.x = vec![10.0 + i as f64];
        c.f = num(&tagn("f", i), -4, 4, 1);
        if kind == 1 && i == k { c.status = 1 + choice("status", 2) as i32; }
        t().calls.push(LocalCall { x0: c.xinit.to_vec(), x: c.x.clone(), f: c.f, bounds: vec![], ncons: 0, maxeval: 0, at_obj: 0 });
    }));
    let o = OQNLP::new(P, params(iters, pop, 0.0)).unwrap();
    let mut o = batched(o, batch);
    let r = o.run();
    match kind {
        0 => {
            let hit = t().evals.len() > k;
            match &r {
                Err(OQNLPError::ScatterSearchRunError(ScatterSearchError::EvaluationError { source, .. })) => { cover("evaluation error"); check(hit && k < pop, "an evaluation error is reported although none happened in the reference set"); check(matches!(source, EvaluationError::DivisionByZero), "the evaluation error reported is not the one that happened"); check(t().calls.is_empty(), "a local search runs after an evaluation error"); }
                Ok(s) => { cover("success"); check(!hit || k >= pop, "an evaluation error of a reference point is swallowed"); check(!s.is_empty(), "no solution"); }
                Err(_) => check(false, "an evaluation error is reported as another error"),
            }
        }
        _ => {
            let hit = t().calls.len() > k;
            check(hit, "the run stops before the failing local search");
            match &r {
                Err(OQNLPError::LocalSolverError(_)) => { cover("local solver error"); }
                Ok(_) => check(false, "a failed local search is swallowed"),
                Err(_) => check(false, "a failed local search is reported as another error"),
            }
            check(t().calls.len() <= k + batch_len(batch), "local searches go on after one failed");
        }
    }
}
