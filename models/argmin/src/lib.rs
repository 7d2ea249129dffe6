//! Environment model of the `argmin` crate 0.11 (see DESIGN.md, "Models").
//!
//! Solvers record every setting they are given; `Executor::run` hands all of it to the harness,
//! which plays the solver: it may evaluate cost, gradient and Hessian anywhere and returns an
//! arbitrary outcome. Each setter may be rejected by the harness, as argmin does for values it
//! considers invalid.
use ndarray::{Array1, Array2};

pub struct Call<'a> {
    pub solver: &'static str,
    /// (setting, values) in the order they were made, the line search's first
    pub settings: Vec<(&'static str, Vec<f64>)>,
    pub simplex: Vec<Vec<f64>>,
    pub param: Option<Vec<f64>>,
    pub max_iters: u64,
    pub cost: &'a mut dyn FnMut(&[f64]) -> Result<f64, String>,
    pub gradient: Option<&'a mut dyn FnMut(&[f64]) -> Result<Vec<f64>, String>>,
    pub hessian: Option<&'a mut dyn FnMut(&[f64]) -> Result<Vec<f64>, String>>,
    // result
    pub best_param: Option<Vec<f64>>,
    pub best_cost: f64,
    pub error: Option<String>,
}
extern "Rust" {
    fn __argmin_hook(c: &mut Call);
    /// whether a setting is accepted
    fn __argmin_accept(setting: &'static str) -> bool;
}
type Settings = Vec<(&'static str, Vec<f64>)>;
fn set(s: &mut Settings, name: &'static str, v: Vec<f64>) -> Result<(), core::Error> {
    if !unsafe { __argmin_accept(name) } { return Err(core::Error::msg(format!("rejected {}", name))); }
    s.push((name, v));
    Ok(())
}

pub mod core {
    use super::*;
    pub struct Error(String);
    impl Error { pub fn msg<M: std::fmt::Display>(m: M) -> Self { Error(m.to_string()) } }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
    impl std::fmt::Debug for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
    pub trait CostFunction { type Param; type Output; fn cost(&self, param: &Self::Param) -> Result<Self::Output, Error>; }
    pub trait Gradient { type Param; type Gradient; fn gradient(&self, param: &Self::Param) -> Result<Self::Gradient, Error>; }
    pub trait Hessian { type Param; type Hessian; fn hessian(&self, param: &Self::Param) -> Result<Self::Hessian, Error>; }
    pub struct IterState { pub param: Option<Array1<f64>>, pub best_param: Option<Array1<f64>>, pub cost: f64, pub best_cost: f64, pub max_iters: u64 }
    impl IterState {
        pub fn param(mut self, p: Array1<f64>) -> Self { self.param = Some(p); self }
        pub fn max_iters(mut self, n: u64) -> Self { self.max_iters = n; self }
        pub fn get_best_param(&self) -> Option<&Array1<f64>> { self.best_param.as_ref() }
        pub fn get_best_cost(&self) -> f64 { self.best_cost }
        pub fn get_param(&self) -> Option<&Array1<f64>> { self.param.as_ref() }
        pub fn get_cost(&self) -> f64 { self.cost }
    }
    pub struct OptimizationResult { pub state: IterState }
    impl OptimizationResult { pub fn state(&self) -> &IterState { &self.state } }
    /// what a solver was told, and which derivatives it uses
    pub struct Spec { pub solver: &'static str, pub settings: Settings, pub simplex: Vec<Array1<f64>> }
    pub trait Solver<O> {
        fn spec(self) -> Spec;
        fn gradient(_o: &O, _x: &Array1<f64>) -> Option<Result<Array1<f64>, Error>> { None }
        fn hessian(_o: &O, _x: &Array1<f64>) -> Option<Result<Array2<f64>, Error>> { None }
        const ORDER: u8;
    }
    pub struct Executor<O, S> { problem: O, solver: S, state: IterState }
    impl<O, S> Executor<O, S> where O: CostFunction<Param = Array1<f64>, Output = f64>, S: Solver<O> {
        pub fn new(problem: O, solver: S) -> Self { Executor { problem, solver, state: IterState { param: None, best_param: None, cost: f64::INFINITY, best_cost: f64::INFINITY, max_iters: u64::MAX } } }
        pub fn configure<F: FnOnce(IterState) -> IterState>(mut self, f: F) -> Self { self.state = f(self.state); self }
        pub fn timer(self, _t: bool) -> Self { self }
        pub fn run(self) -> Result<OptimizationResult, Error> {
            let Executor { problem, solver, mut state } = self;
            let Spec { solver, settings, simplex } = solver.spec();
            let pt = |x: &[f64]| Array1::from_vec(x.to_vec());
            let mut cost = |x: &[f64]| problem.cost(&pt(x)).map_err(|e| e.to_string());
            let mut grad = |x: &[f64]| S::gradient(&problem, &pt(x)).unwrap().map(|g| g.to_vec()).map_err(|e| e.to_string());
            let mut hess = |x: &[f64]| S::hessian(&problem, &pt(x)).unwrap().map(|h| h.iter().cloned().collect()).map_err(|e| e.to_string());
            let mut c = Call {
                solver, settings, simplex: simplex.iter().map(|p| p.to_vec()).collect(), param: state.param.as_ref().map(|p| p.to_vec()), max_iters: state.max_iters, cost: &mut cost,
                gradient: if S::ORDER >= 1 { Some(&mut grad) } else { None }, hessian: if S::ORDER >= 2 { Some(&mut hess) } else { None },
                best_param: None, best_cost: f64::INFINITY, error: None,
            };
            unsafe { __argmin_hook(&mut c) };
            let Call { best_param, best_cost, error, .. } = c;
            if let Some(e) = error { return Err(Error::msg(e)); }
            // argmin's current and best parameters may differ: only the best ones count
            state.best_param = best_param.map(Array1::from_vec);
            state.best_cost = best_cost;
            state.param = state.best_param.as_ref().map(|p| p + 17.0);
            state.cost = best_cost + 17.0;
            Ok(OptimizationResult { state })
        }
    }
}

pub mod solver {
    use super::*;
    use crate::core::{CostFunction, Error, Gradient, Hessian, Solver, Spec};
    pub trait Search { fn settings(self) -> Settings; }
    macro_rules! order { ($t:ident < $l:ident >, 1, $n:expr) => {
        impl<$l: Search, O: CostFunction + Gradient<Param = Array1<f64>, Gradient = Array1<f64>>> Solver<O> for $t<$l> {
            const ORDER: u8 = 1;
            fn spec(self) -> Spec { let mut s = self.search.settings(); s.extend(self.s); Spec { solver: $n, settings: s, simplex: vec![] } }
            fn gradient(o: &O, x: &Array1<f64>) -> Option<Result<Array1<f64>, Error>> { Some(o.gradient(x)) }
        }
    }; ($t:ident < $l:ident >, 2, $n:expr) => {
        impl<$l: Search, O: CostFunction + Gradient<Param = Array1<f64>, Gradient = Array1<f64>> + Hessian<Param = Array1<f64>, Hessian = Array2<f64>>> Solver<O> for $t<$l> {
            const ORDER: u8 = 2;
            fn spec(self) -> Spec { let mut s = self.search.settings(); s.extend(self.s); Spec { solver: $n, settings: s, simplex: vec![] } }
            fn gradient(o: &O, x: &Array1<f64>) -> Option<Result<Array1<f64>, Error>> { Some(o.gradient(x)) }
            fn hessian(o: &O, x: &Array1<f64>) -> Option<Result<Array2<f64>, Error>> { Some(o.hessian(x)) }
        }
    } }
    pub mod linesearch {
        use super::*;
        #[derive(Clone)] pub struct MoreThuenteLineSearch { s: Settings }
        #[derive(Clone)] pub struct HagerZhangLineSearch { s: Settings }
        impl MoreThuenteLineSearch {
            pub fn new() -> Self { Self { s: vec![("morethuente", vec![])] } }
            pub fn with_c(mut self, a: f64, b: f64) -> Result<Self, Error> { set(&mut self.s, "c", vec![a, b])?; Ok(self) }
            pub fn with_bounds(mut self, a: f64, b: f64) -> Result<Self, Error> { set(&mut self.s, "bounds", vec![a, b])?; Ok(self) }
            pub fn with_width_tolerance(mut self, a: f64) -> Result<Self, Error> { set(&mut self.s, "width_tolerance", vec![a])?; Ok(self) }
        }
        impl HagerZhangLineSearch {
            pub fn new() -> Self { Self { s: vec![("hagerzhang", vec![])] } }
            pub fn with_delta_sigma(mut self, a: f64, b: f64) -> Result<Self, Error> { set(&mut self.s, "delta_sigma", vec![a, b])?; Ok(self) }
            pub fn with_bounds(mut self, a: f64, b: f64) -> Result<Self, Error> { set(&mut self.s, "bounds", vec![a, b])?; Ok(self) }
            pub fn with_epsilon(mut self, a: f64) -> Result<Self, Error> { set(&mut self.s, "epsilon", vec![a])?; Ok(self) }
            pub fn with_theta(mut self, a: f64) -> Result<Self, Error> { set(&mut self.s, "theta", vec![a])?; Ok(self) }
            pub fn with_gamma(mut self, a: f64) -> Result<Self, Error> { set(&mut self.s, "gamma", vec![a])?; Ok(self) }
            pub fn with_eta(mut self, a: f64) -> Result<Self, Error> { set(&mut self.s, "eta", vec![a])?; Ok(self) }
        }
        impl Search for MoreThuenteLineSearch { fn settings(self) -> Settings { self.s } }
        impl Search for HagerZhangLineSearch { fn settings(self) -> Settings { self.s } }
    }
    pub mod gradientdescent {
        use super::*;
        pub struct SteepestDescent<L> { search: L, s: Settings }
        impl<L> SteepestDescent<L> { pub fn new(search: L) -> Self { Self { search, s: vec![] } } }
        order!(SteepestDescent<L>, 1, "steepestdescent");
    }
    pub mod quasinewton {
        use super::*;
        pub struct LBFGS<L> { search: L, s: Settings }
        impl<L> LBFGS<L> {
            pub fn new(search: L, m: usize) -> Self { Self { search, s: vec![("history", vec![f64::from_bits(m as u64)])] } }
            pub fn with_tolerance_grad(mut self, a: f64) -> Result<Self, Error> { set(&mut self.s, "tolerance_grad", vec![a])?; Ok(self) }
            pub fn with_tolerance_cost(mut self, a: f64) -> Result<Self, Error> { set(&mut self.s, "tolerance_cost", vec![a])?; Ok(self) }
            pub fn with_l1_regularization(mut self, a: f64) -> Result<Self, Error> { set(&mut self.s, "l1", vec![a])?; Ok(self) }
        }
        order!(LBFGS<L>, 1, "lbfgs");
    }
    pub mod newton {
        use super::*;
        pub struct NewtonCG<L> { search: L, s: Settings }
        impl<L> NewtonCG<L> {
            pub fn new(search: L) -> Self { Self { search, s: vec![] } }
            pub fn with_curvature_threshold(mut self, a: f64) -> Self { self.s.push(("curvature_threshold", vec![a])); self }
            pub fn with_tolerance(mut self, a: f64) -> Result<Self, Error> { set(&mut self.s, "tolerance", vec![a])?; Ok(self) }
        }
        order!(NewtonCG<L>, 2, "newtoncg");
    }
    pub mod neldermead {
        use super::*;
        pub struct NelderMead { simplex: Vec<Array1<f64>>, s: Settings }
        impl NelderMead {
            pub fn new(simplex: Vec<Array1<f64>>) -> Self { Self { simplex, s: vec![] } }
            pub fn with_sd_tolerance(mut self, a: f64) -> Result<Self, Error> { set(&mut self.s, "sd_tolerance", vec![a])?; Ok(self) }
            pub fn with_alpha(mut self, a: f64) -> Result<Self, Error> { set(&mut self.s, "alpha", vec![a])?; Ok(self) }
            pub fn with_gamma(mut self, a: f64) -> Result<Self, Error> { set(&mut self.s, "gamma", vec![a])?; Ok(self) }
            pub fn with_rho(mut self, a: f64) -> Result<Self, Error> { set(&mut self.s, "rho", vec![a])?; Ok(self) }
            pub fn with_sigma(mut self, a: f64) -> Result<Self, Error> { set(&mut self.s, "sigma", vec![a])?; Ok(self) }
        }
        impl<O: CostFunction> Solver<O> for NelderMead { const ORDER: u8 = 0; fn spec(self) -> Spec { Spec { solver: "neldermead", settings: self.s, simplex: self.simplex } } }
    }
    pub mod trustregion {
        use super::*;
        pub struct CauchyPoint;
        pub struct Steihaug;
        impl CauchyPoint { pub fn new() -> Self { CauchyPoint } }
        impl Steihaug { pub fn new() -> Self { Steihaug } }
        impl Search for CauchyPoint { fn settings(self) -> Settings { vec![("cauchy", vec![])] } }
        impl Search for Steihaug { fn settings(self) -> Settings { vec![("steihaug", vec![])] } }
        pub struct TrustRegion<L> { search: L, s: Settings }
        impl<L> TrustRegion<L> {
            pub fn new(search: L) -> Self { Self { search, s: vec![] } }
            pub fn with_radius(mut self, a: f64) -> Result<Self, Error> { set(&mut self.s, "radius", vec![a])?; Ok(self) }
            pub fn with_max_radius(mut self, a: f64) -> Result<Self, Error> { set(&mut self.s, "max_radius", vec![a])?; Ok(self) }
            pub fn with_eta(mut self, a: f64) -> Result<Self, Error> { set(&mut self.s, "eta", vec![a])?; Ok(self) }
        }
        order!(TrustRegion<L>, 2, "trustregion");
    }
}
