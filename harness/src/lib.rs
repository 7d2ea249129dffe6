pub mod rt;
pub mod memfs;
mod common;
mod h_smoke;
mod h_set;
mod h_run;
mod h_scat;
mod h_det;
mod h_obs;
mod h_long;
mod h_types;
#[cfg(feature = "argmin")]
mod h_local;
#[cfg(feature = "full")]
mod h_ck;
macro_rules! entries {
    ($call:ident; $($m:ident :: $n:ident),* $(,)?) => {
        $( #[no_mangle] pub extern "C" fn $n(cfg: u64) { $m::$n(cfg) } )*
        pub fn $call(name: &str, cfg: u64) -> bool {
            $( if name == stringify!($n) { $m::$n(cfg); return true; } )*
            false
        }
    };
}
entries! { call0; h_smoke::h_smoke, h_smoke::h_ckpt, h_set::h_set, h_run::h_target, h_run::h_time, h_run::h_gate, h_run::h_state, h_run::h_kill,
  h_scat::h_scatter, h_scat::h_combine, h_scat::h_sample, h_scat::h_bounds, h_scat::h_mid, h_scat::h_points, h_scat::h_custom, h_scat::h_constraints, h_scat::h_error,
  h_det::h_det, h_det::h_detref, h_obs::h_obs, h_long::h_long,
  h_types::h_validate, h_types::h_extreme, h_types::h_solutions, h_types::h_names }

#[cfg(feature = "full")]
entries! { call1; h_ck::h_roundtrip, h_ck::h_latest, h_ck::h_crash, h_ck::h_trunc, h_ck::h_resume, h_ck::h_extend, h_ck::h_modify, h_ck::h_noresume, h_obs::h_obsresume }
#[cfg(not(feature = "full"))]
fn call1(_: &str, _: u64) -> bool { false }
#[cfg(feature = "argmin")]
entries! { call2; h_local::h_argmin, h_local::h_mismatch, h_local::h_cobyla, h_local::h_solver }
#[cfg(not(feature = "argmin"))]
fn call2(_: &str, _: u64) -> bool { false }
pub fn call(name: &str, cfg: u64) -> bool { call0(name, cfg) || call1(name, cfg) || call2(name, cfg) }
