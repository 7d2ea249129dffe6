//! Solution-set semantics of a whole `OQNLP::run` with an arbitrary local solver.
use crate::common::*;
use crate::rt::*;
use globalsearch::oqnlp::OQNLP;

/// cfg: bits 0-1 batch mode (0 sequential, 1 batches of 2, 2 batches of 3);
/// bit 2: exclude out-of-bounds; bits 3-4: objective kinds (1 NaN, 2 +inf);
/// bits 5-6: number of local searches; bit 7: relative tolerance; bits 8-9: dimensions-1
/// (the last coordinate is symbolic); bit 10: NaN coordinates; bit 11: every coordinate symbolic; bit 12: bounds just inside the grid; bit 13: objectives 1 + k/2^40, tolerance 0 (with bit 7: 4/2^40); bit 14: -inf; bit 15: objectives up to 1.6e308, tolerance 0 (with bit 7: relative 0.25); bit 16: points a distance factor apart up to 2^-30
pub fn h_set(cfg: u64) {
    let batch = (cfg & 3) as usize;
    let excl = cfg & 4 != 0;
    let kinds = ((cfg >> 3) & 3) as u32 | if cfg & 16384 != 0 { 4 } else { 0 };
    let iters = 2 + ((cfg >> 5) & 3) as usize;
    let rel = cfg & 128 != 0;
    let n = 1 + ((cfg >> 8) & 3) as usize;
    let nan = ((cfg >> 10) & 1) as u32;
    let all = cfg & 2048 != 0;
    let tiny = cfg & 8192 != 0;
    let huge = cfg & 32768 != 0;
    let fine = cfg & 65536 != 0;
    w().bounds = vec![(-8.0, 8.0); n];
    w().bounds[n - 1] = if cfg & 4096 != 0 { (-4.0 + 1e-12, 4.0 - 1e-12) } else { (-4.0, 4.0) };
    flat_objective(-1000.0);
    let d = 1.0;
    local_any(move |i| {
        let f = if tiny { 1.0 + num(&tagn("f", i), -16, 16, 1 << 40) } else if huge { num(&tagn("f", i), -16, 16, 1) * 1e307 } else { ext_num(&tagn("f", i), -16, 16, 8, kinds) };
        let mut x: Vec<f64> = (0..n).map(|j| if all && j + 1 < n { num(&format!("y{}_{}", i, j), -9, 9, 1) } else { i as f64 * 0.25 }).collect();
        x[n - 1] = if fine { i as f64 - 1.0 + num(&tagn("x", i), -2, 2, 1 << 30) } else if nan != 0 { ext_num(&tagn("x", i), -12, 12, 2, 1) } else { num(&tagn("x", i), -12, 12, 2) };
        (f, x)
    });
    let (at, rt) = if tiny { if rel { (4.0 / (1u64 << 40) as f64, 0.0) } else { (0.0, 0.0) } } else if rel { (0.0, 0.25) } else if huge || fine { (0.0, 0.0) } else { (0.5, 0.0) };
    let p = params(iters, iters.max(4), d);
    let mut o = OQNLP::new(P, p).unwrap().with_tolerance(at, rt).set_exclude_out_of_bounds(excl);
    o = batched(o, batch);
    let r = o.run();
    let calls = &t().calls;
    log("ncalls", calls.len() as u64);
    if calls.len() >= 3 { cover("three local searches"); }
    if calls.len() >= iters { cover("all"); }
    let inside = |x: &[f64]| { let mut r = true; for (v, b) in x.iter().zip(&w().bounds) { r &= *v >= b.0 && *v <= b.1; } r };
    let admissible = |c: &LocalCall| !excl || inside(&c.x);
    let same = |a: &[f64], b: &[f64]| { let mut r = a.len() == b.len(); for (u, v) in a.iter().zip(b) { r &= u.to_bits() == v.to_bits(); } r };
    let near = |a: &[f64], b: &[f64]| { let mut s = 0.0; for (u, v) in a.iter().zip(b) { s += (u - v) * (u - v); } s < d * d };
    match r {
        Ok(s) => {
            check(!s.is_empty(), "a returned solution set is never empty");
            let sols: Vec<(f64, Vec<f64>)> = s.solutions().map(|m| (m.objective, m.point.to_vec())).collect();
            log("n", sols.len() as u64);
            for m in &sols { logf("obj", m.0); for v in &m.1 { logf("x", *v); } }
            let best = s.best_solution().unwrap().objective;
            if sols.len() >= 2 { cover("two solutions kept"); }
            let tol = |a: f64, b: f64| -> f64 { let m = if a.abs() > b.abs() { a.abs() } else { b.abs() }; if rt * m > at { rt * m } else { at } };
            // membership: every member is a local-search result
            for m in &sols {
                let mut hit = false;
                for c in calls.iter() { if admissible(c) { hit |= (c.f.to_bits() == m.0.to_bits()) & same(&c.x, &m.1); } }
                check(hit, "a returned solution is not a result of any local search");
            }
            // optimality
            for c in calls.iter() {
                if !fork(admissible(c)) { continue; }
                if fork(c.f.is_nan()) { continue; }
                check(!best.is_nan(), "a NaN solution hides a number found by a local search");
                if fork(c.f < best) {
                    check(best.is_finite(), "an infinite solution hides a better one found by a local search");
                    check(c.f >= best - tol(c.f, best), "a local search found a better solution than the best returned");
                }
            }
            // coherence: all members are within tolerance of the first
            let a = sols[0].0;
            for b in &sols { check((a.to_bits() == b.0.to_bits()) | ((a - b.0).abs() <= tol(a, b.0)), "returned solutions do not share one objective value within the tolerance"); }
            // distinctness
            for i in 0..sols.len() { for j in 0..i { check(!near(&sols[i].1, &sols[j].1), "two returned solutions are closer than the distance factor"); } }
            // completeness: with well-separated objectives no best-valued result is lost
            if kinds == 0 {
                let mut apart = true;
                for c in calls.iter() { apart &= !admissible(c) | (c.f == best) | (c.f > best + 1.0 && !(huge && rel)); }
                if fork(apart) {
                    cover("separated");
                    for c in calls.iter() {
                        let mut kept = false;
                        for m in &sols { kept |= same(&c.x, &m.1) | near(&c.x, &m.1); }
                        check(!admissible(c) | (c.f != best) | kept, "a solution as good as the best and distinct from the others is lost");
                    }
                }
            }
            if excl { cover("exclusion"); for m in &sols { check(inside(&m.1), "an out-of-bounds solution is returned although they are excluded"); } }
        }
        Err(_) => {
            cover("no solution");
            for c in calls.iter() { check(!admissible(c), "run fails although a local search found an admissible solution"); }
        }
    }
}
