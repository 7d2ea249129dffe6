//! What reaches the third-party local optimisers, and what comes back.
use crate::common::*;
use crate::rt::*;
use globalsearch::local_solver::builders::*;
use globalsearch::local_solver::runner::{LocalSolver, LocalSolverError};
use globalsearch::oqnlp::OQNLP;
use globalsearch::problem::Problem as _;
use globalsearch::types::*;
use ndarray::{array, Array1};

pub fn ulong(t: &str) -> u64 { any_f64(t).to_bits() }
/// the settings as given by the user: solver, settings (the names are the model's), iteration limit, simplex size
#[derive(Clone)]
pub struct Spec { pub solver: &'static str, pub settings: Vec<(&'static str, Vec<f64>)>, pub iters: u64, pub delta: f64, pub cob: Vec<f64>, pub xa: Vec<f64> }
/// with: 0 the builder's setters, 1 its constructor
fn ls_spec(hz: bool, with: u64, out: &mut Vec<(&'static str, Vec<f64>)>) -> LineSearchParams {
    let f = |s: &str| any_f64(s);
    if hz {
        let (d, s, e, t, g, h) = (f("delta"), f("sigma"), f("epsilon"), f("theta"), f("gamma"), f("eta"));
        let b = vec![f("lb"), f("ub")];
        out.extend([("hagerzhang", vec![]), ("delta_sigma", vec![d, s]), ("epsilon", vec![e]), ("theta", vec![t]), ("gamma", vec![g]), ("eta", vec![h]), ("bounds", b.clone())]);
        if with == 0 { LineSearchParams::hagerzhang().delta(d).sigma(s).epsilon(e).theta(t).gamma(g).eta(h).bounds(Array1::from(b)).build() } else { HagerZhangBuilder::new(d, s, e, t, g, h, Array1::from(b)).build() }
    } else {
        let (c1, c2, wt) = (f("c1"), f("c2"), f("wt"));
        let b = vec![f("lb"), f("ub")];
        out.extend([("morethuente", vec![]), ("c", vec![c1, c2]), ("bounds", b.clone()), ("width_tolerance", vec![wt])]);
        if with == 0 { LineSearchParams::morethuente().c1(c1).c2(c2).width_tolerance(wt).bounds(Array1::from(b)).build() } else { MoreThuenteBuilder::new(c1, c2, wt, Array1::from(b)).build() }
    }
}
/// every solver type with arbitrary settings. which: 0-9
pub fn spec(which: u64, with: u64) -> (LocalSolverType, LocalSolverConfig, Spec) {
    let f = |s: &str| any_f64(s);
    let mi = ulong("mi");
    let mut st = vec![];
    let mut sp = Spec { solver: "", settings: vec![], iters: mi, delta: 0.0, cob: vec![], xa: vec![] };
    let (t, c) = match which {
        0 | 1 => {
            sp.solver = "lbfgs";
            let (tg, tc, hs) = (f("tg"), f("tc"), ulong("hs") as usize);
            let l1 = if which == 0 { Some(f("l1")) } else { None };
            let ls = ls_spec(which == 0, with, &mut st);
            st.extend([("history", vec![f64::from_bits(hs as u64)]), ("tolerance_grad", vec![tg]), ("tolerance_cost", vec![tc])]);
            if let Some(l) = l1 { st.push(("l1", vec![l])); }
            (LocalSolverType::LBFGS, if with == 0 { LocalSolverConfig::lbfgs().max_iter(mi).tolerance_grad(tg).tolerance_cost(tc).history_size(hs).l1_coefficient(l1).line_search_params(ls).build() } else { LBFGSBuilder::new(mi, tg, tc, hs, l1, ls).build() })
        }
        2 => {
            sp.solver = "neldermead";
            let (d, sd, al, ga, rho, si) = (f("sd"), f("st"), f("al"), f("ga"), f("rho"), f("si"));
            sp.delta = d;
            st.extend([("sd_tolerance", vec![sd]), ("alpha", vec![al]), ("gamma", vec![ga]), ("rho", vec![rho]), ("sigma", vec![si])]);
            (LocalSolverType::NelderMead, if with == 0 { LocalSolverConfig::neldermead().simplex_delta(d).sd_tolerance(sd).max_iter(mi).alpha(al).gamma(ga).rho(rho).sigma(si).build() } else { NelderMeadBuilder::new(d, sd, mi, al, ga, rho, si).build() })
        }
        3 | 4 => {
            sp.solver = "steepestdescent";
            let ls = ls_spec(which == 3, with, &mut st);
            (LocalSolverType::SteepestDescent, if with == 0 { LocalSolverConfig::steepestdescent().max_iter(mi).line_search_params(ls).build() } else { SteepestDescentBuilder::new(mi, ls).build() })
        }
        5 | 6 => {
            sp.solver = "trustregion";
            let (r, mr, eta) = (f("r"), f("mr"), f("eta"));
            let m = if which == 5 { TrustRegionRadiusMethod::Cauchy } else { TrustRegionRadiusMethod::Steihaug };
            st.extend([(if which == 5 { "cauchy" } else { "steihaug" }, vec![]), ("radius", vec![r]), ("max_radius", vec![mr]), ("eta", vec![eta])]);
            (LocalSolverType::TrustRegion, if with == 0 { LocalSolverConfig::trustregion().method(m).max_iter(mi).radius(r).max_radius(mr).eta(eta).build() } else { TrustRegionBuilder::new(m, mi, r, mr, eta).build() })
        }
        7 | 8 => {
            sp.solver = "newtoncg";
            let (ct, tol) = (f("ct"), f("tol"));
            let ls = ls_spec(which == 7, with, &mut st);
            st.extend([("curvature_threshold", vec![ct]), ("tolerance", vec![tol])]);
            (LocalSolverType::NewtonCG, if with == 0 { LocalSolverConfig::newton_cg().max_iter(mi).curvature_threshold(ct).tolerance(tol).line_search_params(ls).build() } else { NewtonCGBuilder::new(mi, ct, tol, ls).build() })
        }
        _ => {
            sp.solver = "cobyla";
            sp.cob = ["is", "fr", "fa", "xr"].iter().map(|s| f(s)).collect();
            sp.xa = vec![f("xa0"), f("xa1")];
            let b = if with == 0 { LocalSolverConfig::cobyla().max_iter(mi).initial_step_size(sp.cob[0]) } else { COBYLABuilder::new(mi, sp.cob[0]) };
            (LocalSolverType::COBYLA, b.ftol_rel(sp.cob[1]).ftol_abs(sp.cob[2]).xtol_rel(sp.cob[3]).xtol_abs(sp.xa.clone()).build())
        }
    };
    sp.settings = st;
    (t, c, sp)
}
pub fn any_config(which: u64) -> (LocalSolverType, LocalSolverConfig) { let (t, c, _) = spec(which, 0); (t, c) }

fn beq(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() }
fn veq(a: &[f64], b: &[f64]) -> bool { let mut r = a.len() == b.len(); for (x, y) in a.iter().zip(b) { r &= beq(*x, *y); } r }

// ---------------------------------------------------------------- argmin stage
pub type ArgFn = Box<dyn FnMut(&mut argmin::Call)>;
static mut HOOK: Option<ArgFn> = None;
static mut REJECT: (usize, usize) = (usize::MAX, 0);
#[allow(static_mut_refs)]
fn hook() -> &'static mut Option<ArgFn> { unsafe { &mut HOOK } }
#[allow(static_mut_refs)]
fn reject() -> &'static mut (usize, usize) { unsafe { &mut REJECT } }
#[no_mangle]
pub fn __argmin_hook(c: &mut argmin::Call) {
    w().local_calls += 1;
    let mut f = hook().take().expect("no argmin hook");
    f(c);
    *hook() = Some(f);
}
#[no_mangle]
pub fn __argmin_accept(_s: &'static str) -> bool { let r = reject(); r.1 += 1; r.1 - 1 != r.0 }

fn check_call(c: &argmin::Call, x0: &[f64], sp: &Spec) {
    let (solver, want, iters, delta) = (sp.solver, &sp.settings, sp.iters, sp.delta);
    check(c.solver == solver, "another solver runs than the one configured");
    check(c.max_iters == iters, "the solver is given another iteration limit than configured");
    check(c.settings.len() == want.len(), "a solver setting is missing or set twice");
    for (n, v) in want {
        let got: Vec<&Vec<f64>> = c.settings.iter().filter(|s| s.0 == *n).map(|s| &s.1).collect();
        check(got.len() == 1, "a solver setting is missing or set twice");
        if got.len() == 1 { check(veq(got[0], v), "a solver setting differs from the configuration"); }
    }
    if solver == "neldermead" {
        check(c.simplex.len() == x0.len() + 1, "the initial simplex has the wrong number of points");
        if c.simplex.len() == x0.len() + 1 {
            check(veq(&c.simplex[0], x0), "the initial simplex does not contain the start point");
            for i in 0..x0.len() { let mut p = x0.to_vec(); p[i] += delta; check(veq(&c.simplex[i + 1], &p), "the initial simplex is not the one configured"); }
        }
    } else { check(matches!(&c.param, Some(p) if veq(p, x0)), "the solver does not start at the start point"); }
}
fn kind(e: &LocalSolverError) -> &'static str {
    match e {
        LocalSolverError::InvalidLBFGSConfig { .. } => "lbfgs",
        LocalSolverError::InvalidNelderMeadConfig { .. } => "neldermead",
        LocalSolverError::InvalidSteepestDescentConfig { .. } => "steepestdescent",
        LocalSolverError::InvalidTrustRegionConfig { .. } => "trustregion",
        LocalSolverError::InvalidNewtonCG { .. } => "newtoncg",
        LocalSolverError::InvalidCOBYLAConfig { .. } => "cobyla",
        LocalSolverError::RunFailed { .. } => "run",
        LocalSolverError::NoSolution { .. } => "none",
    }
}
static mut SEEN: Vec<Vec<f64>> = Vec::new();
#[allow(static_mut_refs)]
fn seen() -> &'static mut Vec<Vec<f64>> { unsafe { &mut SEEN } }
fn fails(what: &str) -> bool { fork(boolean(what)) }

/// a problem that answers with symbolic values or fails, and records the points
fn symbolic_problem(n: usize) -> bool {
    w().bounds = vec![(-4.0, 4.0), (1.0, 2.5)][..n].to_vec();
    let v = any_f64("cost");
    let bad = fails("cost fails");
    w().obj = Some(Box::new(move |x| { seen().push(x.to_vec()); if bad { Err(EvaluationError::InvalidInput { reason: "boom".into() }) } else { Ok(v) } }));
    bad
}
/// cfg: bits 0-3 solver; bit 4 tracking; bit 5 two dimensions; bit 6 rejected settings; bit 7 by the builder's constructor; bit 8 a copy of the settings
pub fn h_argmin(cfg: u64) {
    let n = if cfg & 32 != 0 { 2 } else { 1 };
    let track = cfg & 16 != 0;
    let (t, c, sp) = spec(cfg & 15, (cfg >> 7) & 1);
    let c = if cfg & 256 != 0 { c.clone() } else { c };
    let name = sp.solver;
    let bad = symbolic_problem(n);
    let g: Vec<f64> = (0..n).map(|i| any_f64(&tagn("g", i))).collect();
    let h: Vec<f64> = (0..n * n).map(|i| any_f64(&tagn("h", i))).collect();
    let (gb, hb) = if cfg & 64 == 0 { (fails("gradient fails"), fails("hessian fails")) } else { (false, false) };
    { let g = g.clone(); w().grad = Some(Box::new(move |x| { seen().push(x.to_vec()); if gb { Err(EvaluationError::GradientNotImplemented) } else { Ok(g.clone()) } })); }
    { let h = h.clone(); w().hess = Some(Box::new(move |x| { seen().push(x.to_vec()); if hb { Err(EvaluationError::HessianNotImplemented) } else { Ok(h.clone()) } })); }
    let x0: Vec<f64> = (0..n).map(|i| any_f64(&tagn("x0", i))).collect();
    let q: Vec<f64> = (0..n).map(|i| any_f64(&tagn("q", i))).collect();
    let best: Vec<f64> = (0..n).map(|i| any_f64(&tagn("best", i))).collect();
    let bestf = any_f64("best cost");
    let how = choice("outcome", 3);
    let nm = name == "neldermead";
    let evals = choice("evaluations", if nm { n as i64 + 3 } else { 3 });
    if cfg & 64 != 0 { reject().0 = choice("rejected", 12); }
    {
        let (sp, x0, q, best) = (sp.clone(), x0.clone(), q.clone(), best.clone());
        *hook() = Some(Box::new(move |call| {
            check_call(call, &x0, &sp);
            for i in 0..evals {
                let before = seen().len();
                let r = (call.cost)(&q);
                let late = nm && bad && i > 0;
                let points = seen().split_off(before);
                check(points.iter().all(|p| veq(p, &q)) && (points.len() == 1 || late && points.is_empty()), "the objective is not evaluated where the solver asks");
                // Nelder-Mead panics if an evaluation of its initial simplex fails, so it must not see that
                if nm && bad && i <= n { check(r.is_ok(), "a failing objective makes Nelder-Mead panic"); continue; }
                let want = w().obj.as_mut().map(|f| f(&q));
                seen().pop();
                match (r, want) { (Ok(a), Some(Ok(b))) => check(beq(a, b), "the solver gets another objective value"), (Err(m), Some(Err(_))) => check(m.contains("boom"), "the objective's error is lost"), _ => check(false, "an objective error is hidden from the solver") }
            }
            if let Some(f) = &mut call.gradient { match f(&q) { Ok(v) => check(!gb && veq(&v, &g), "the solver gets another gradient"), Err(_) => check(gb, "the gradient fails") } check(veq(seen().last().unwrap(), &q), "the gradient is not evaluated where the solver asks"); }
            if let Some(f) = &mut call.hessian { match f(&q) { Ok(v) => check(!hb && veq(&v, &h), "the solver gets another Hessian"), Err(_) => check(hb, "the Hessian fails") } check(veq(seen().last().unwrap(), &q), "the Hessian is not evaluated where the solver asks"); }
            call.best_cost = bestf;
            match how { 0 => call.best_param = Some(best.clone()), 1 => {} _ => call.error = Some("kaput".into()) }
        }));
    }
    let s = LocalSolver::new(P, t, c);
    let r = s.solve_with_tracking(Array1::from(x0), track);
    let rejected = reject().1 > reject().0;
    if rejected {
        cover("rejected");
        check(w().local_calls == 0, "a solver runs with a rejected setting");
        match r { Ok(_) => check(false, "a rejected setting is ignored"), Err(e) => { check(kind(&e) == name, "a rejected setting is reported as another solver's"); check(e.to_string().contains("rejected"), "the reason for the rejection is lost"); } }
        return;
    }
    check(w().local_calls == 1, "the solver does not run exactly once");
    if nm && bad && evals > 0 {
        cover("initial simplex fails");
        match r { Ok(_) => check(false, "a failed search returns a solution"), Err(e) => { check(kind(&e) == "run", "a failing solver is reported as another error"); check(how == 2 || e.to_string().contains("boom"), "the objective's error is lost"); } }
        return;
    }
    match (how, r) {
        (0, Ok((s, k))) => { cover("solved"); check(veq(&s.point.to_vec(), &best), "the solution differs from the solver's best point"); check(beq(s.objective, bestf), "the objective differs from the solver's best cost"); check(k == if track { evals as u64 } else { 0 }, "the number of evaluations is wrong"); }
        (1, Err(e)) => { cover("no solution"); check(kind(&e) == "none", "a solver without a solution is reported as another error"); }
        (2, Err(e)) => { cover("failed"); check(kind(&e) == "run", "a failing solver is reported as another error"); check(e.to_string().contains("kaput"), "the solver's error is lost"); }
        (0, Err(_)) => check(false, "a solution is lost"),
        _ => check(false, "a failed search returns a solution"),
    }
}
/// every solver type with every configuration. cfg unused
pub fn h_mismatch(_cfg: u64) {
    let types = [LocalSolverType::LBFGS, LocalSolverType::NelderMead, LocalSolverType::SteepestDescent, LocalSolverType::TrustRegion, LocalSolverType::NewtonCG, LocalSolverType::COBYLA];
    let names = ["lbfgs", "neldermead", "steepestdescent", "trustregion", "newtoncg", "cobyla"];
    let i = choice("type", 6);
    let which = choice("config", 10) as u64;
    w().bounds = vec![(-4.0, 4.0), (1.0, 2.5)];
    let (_, c, sp) = spec(which, 0);
    let name = sp.solver;
    *hook() = Some(Box::new(move |c| { check(c.solver == names[i], "another solver runs"); c.best_param = Some(vec![1.0, 2.0]); c.best_cost = 0.0; }));
    w().local = Some(Box::new(move |_| check(names[i] == "cobyla", "another solver runs")));
    let r = LocalSolver::new(P, types[i].clone(), c).solve(array![0.0, 2.0]);
    if names[i] == name { cover("match"); check(r.is_ok(), "a matching configuration is rejected"); check(w().local_calls == 1, "no solver runs"); }
    else { cover("mismatch"); check(w().local_calls == 0, "a solver runs with another solver's configuration"); match r { Ok(_) => check(false, "a solver runs with another solver's configuration"), Err(e) => check(kind(&e) == names[i], "a mismatched configuration is reported as another error") } }
}
/// COBYLA. cfg: bit 0 two dimensions; bits 1-2 constraints; bit 3 tracking; bits 4-5 xtol_abs: none, right, too long, too short; bit 6 wrong dimension of the start point
pub fn h_cobyla(cfg: u64) {
    let n = 1 + (cfg & 1) as usize;
    let ncon = ((cfg >> 1) & 3) as usize;
    let track = cfg & 8 != 0;
    symbolic_problem(n);
    let (lo, hi) = (any_f64("lower"), any_f64("upper"));
    w().bounds[n - 1] = (lo, hi);
    w().ncon = ncon;
    let cv: Vec<f64> = (0..3).map(|i| any_f64(&tagn("con", i))).collect();
    { let cv = cv.clone(); w().con = Some(Box::new(move |i, x| { seen().push(x.to_vec()); cv[i] })); }
    let mi = ulong("mi");
    let o: Vec<f64> = ["is", "fr", "fa", "xr"].iter().map(|s| any_f64(s)).collect();
    let xa: Vec<f64> = (0..match (cfg >> 4) & 3 { 0 => 0, 1 => n, 2 => n + 1, _ => n - 1 }).map(|i| any_f64(&tagn("xa", i))).collect();
    let c = COBYLABuilder::default().max_iter(mi).initial_step_size(o[0]).ftol_rel(o[1]).ftol_abs(o[2]).xtol_rel(o[3]).xtol_abs(xa.clone()).build();
    let wrong = cfg & 64 != 0;
    let x0: Vec<f64> = (0..n + wrong as usize).map(|i| any_f64(&tagn("x0", i))).collect();
    let q: Vec<f64> = (0..n).map(|i| any_f64(&tagn("q", i))).collect();
    let best: Vec<f64> = (0..n).map(|i| any_f64(&tagn("best", i))).collect();
    let bestf = any_f64("best cost");
    let how = choice("outcome", 3) as i32;
    let evals = choice("evaluations", 3);
    {
        let (x0, best, xa) = (x0.clone(), best.clone(), xa.clone());
        w().local = Some(Box::new(move |c| {
            check(veq(c.xinit, &x0), "COBYLA does not start at the start point");
            check(c.bounds.len() == w().bounds.len(), "COBYLA is not given the variable bounds");
            for (a, b) in c.bounds.iter().zip(&w().bounds) { check(beq(a.0, b.0) && beq(a.1, b.1), "COBYLA is not given the variable bounds"); }
            check(c.maxeval as u64 == mi, "COBYLA is given another evaluation limit than configured");
            for r in &c.rhobeg { check(beq(*r, o[0]), "COBYLA is given another step size than configured"); }
            check(beq(c.tols.ftol_rel, o[1]) && beq(c.tols.ftol_abs, o[2]) && beq(c.tols.xtol_rel, o[3]) && veq(&c.tols.xtol_abs, &xa), "COBYLA is given other tolerances than configured");
            check(c.ncons == ncon, "COBYLA is not given every constraint");
            for i in 0..c.ncons { let v = (c.con)(i, &q); check(beq(v, cv[i]), "COBYLA gets another constraint value"); check(veq(seen().last().unwrap(), &q), "a constraint is not evaluated where COBYLA asks"); }
            for _ in 0..evals {
                let before = seen().len();
                let r = (c.func)(&q);
                check(seen().len() == before + 1 && veq(seen().last().unwrap(), &q), "the objective is not evaluated where COBYLA asks");
                let want = w().obj.as_mut().map(|f| f(&q));
                seen().pop();
                match want { Some(Ok(b)) => check(beq(r, b), "COBYLA gets another objective value"), _ => check(r == f64::INFINITY, "a failing evaluation looks like a value to COBYLA") }
            }
            c.x = best.clone();
            c.f = bestf;
            c.status = how;
        }));
    }
    let r = LocalSolver::new(P, LocalSolverType::COBYLA, c).solve_with_tracking(Array1::from(x0), track);
    if wrong || (!xa.is_empty() && xa.len() != n) {
        cover("rejected");
        check(w().local_calls == 0, "COBYLA runs with settings of the wrong dimension");
        match r { Ok(_) => check(false, "settings of the wrong dimension are ignored"), Err(e) => check(kind(&e) == "cobyla", "settings of the wrong dimension are reported as another error") }
        return;
    }
    check(w().local_calls == 1, "COBYLA does not run exactly once");
    match (how, r) {
        (0, Ok((s, k))) => { cover("solved"); check(veq(&s.point.to_vec(), &best) && beq(s.objective, bestf), "the solution differs from COBYLA's"); check(k == if track { evals as u64 } else { 0 }, "the number of evaluations is wrong"); }
        (_, Err(e)) => { cover("failed"); check(how != 0 && kind(&e) == "run", "COBYLA's result is lost"); }
        _ => check(false, "a failed search returns a solution"),
    }
}
/// the configured solver is the one a whole run uses. cfg: bits 0-3 solver; bits 4-5 batch mode; bit 6 by the builder's constructor
pub fn h_solver(cfg: u64) {
    let (t, c, sp) = spec(cfg & 15, (cfg >> 6) & 1);
    w().bounds = vec![(-4.0, 4.0), (1.0, 2.5)];
    flat_objective(-1000.0);
    let mut p = params(3, 5, 0.5);
    p.local_solver_type = t;
    p.local_solver_config = c;
    static mut N: usize = 0;
    let c2 = sp.clone();
    *hook() = Some(Box::new(move |call| {
        let x0 = if call.solver == "neldermead" { call.simplex[0].clone() } else { call.param.clone().unwrap() };
        check_call(call, &x0, &c2);
        check(P.objective(&Array1::from(x0.clone())).is_ok(), "");
        unsafe { N += 1; call.best_param = Some(vec![N as f64 * 10.0, 0.0]); }
        call.best_cost = 1.0;
    }));
    w().local = Some(Box::new(move |call| {
        check(sp.solver == "cobyla", "another solver runs than the one configured");
        if sp.solver == "cobyla" { check(call.maxeval as u64 == sp.iters && beq(call.rhobeg[0], sp.cob[0]) && beq(call.tols.ftol_rel, sp.cob[1]) && beq(call.tols.ftol_abs, sp.cob[2]) && beq(call.tols.xtol_rel, sp.cob[3]) && veq(&call.tols.xtol_abs, &sp.xa), "a local search uses other settings than configured"); }
        unsafe { N += 1; call.x = vec![N as f64 * 10.0, 0.0]; }
        call.f = 1.0;
    }));
    let r = batched(OQNLP::new(P, p).unwrap(), ((cfg >> 4) & 3) as usize).run();
    check(r.is_ok(), "the run fails");
    check(w().local_calls == 4, "the configured solver is not used for every local search");
    cover("run");
}
