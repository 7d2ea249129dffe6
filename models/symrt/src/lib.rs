//! Native counterpart of the engine's `__sym_*` intrinsics: nondeterministic
//! values are read back from a recorded counterexample or sample path.
use std::sync::Mutex;
pub struct St { vals: Vec<(String, char, u64)>, pos: usize, allow: bool }
static ST: Mutex<St> = Mutex::new(St { vals: Vec::new(), pos: 0, allow: false });
pub fn load(path: &str) {
    let s = std::fs::read_to_string(path).expect("values file");
    let mut st = ST.lock().unwrap();
    for l in s.lines() {
        let mut it = l.splitn(3, ' ');
        let (Some(k), Some(b), Some(t)) = (it.next(), it.next(), it.next()) else { continue };
        st.vals.push((t.to_string(), k.chars().next().unwrap(), b.parse().unwrap()));
    }
    drop(st);
    std::panic::set_hook(Box::new(|i| {
        let allowed = ST.try_lock().map(|s| s.allow).unwrap_or(false);
        if allowed { println!("ALLOWED-PANIC"); finish(0) }
        println!("FAILED panic: {}", i.to_string().replace('\n', " "));
        finish(1)
    }));
}
pub fn finish(code: i32) -> ! { use std::io::Write; let _ = std::io::stdout().flush(); std::process::exit(code) }
unsafe fn s<'a>(p: *const u8, n: usize) -> &'a str { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }
fn next(tag: &str, kind: char) -> u64 {
    let mut st = ST.lock().unwrap();
    if st.pos >= st.vals.len() { println!("MISMATCH no value left for {}", tag); finish(4) }
    let (t, k, b) = st.vals[st.pos].clone();
    if t != tag || k != kind { println!("MISMATCH wanted {} {} have {} {}", kind, tag, k, t); finish(4) }
    st.pos += 1;
    b
}
#[no_mangle] pub unsafe extern "C" fn __sym_int(p: *const u8, n: usize, _lo: i64, _hi: i64) -> i64 { next(s(p, n), 'i') as i64 }
#[no_mangle] pub unsafe extern "C" fn __sym_f64(p: *const u8, n: usize) -> f64 { f64::from_bits(next(s(p, n), 'f')) }
#[no_mangle] pub unsafe extern "C" fn __sym_bool(p: *const u8, n: usize) -> u8 { next(s(p, n), 'b') as u8 }
#[no_mangle] pub unsafe extern "C" fn __sym_assume(b: bool) { if !b { println!("ASSUME-FALSE"); finish(5) } }
#[no_mangle] pub unsafe extern "C" fn __sym_assert(b: bool, p: *const u8, n: usize) { if !b { println!("FAILED {}", s(p, n)); finish(1) } }
#[no_mangle] pub unsafe extern "C" fn __sym_cover(p: *const u8, n: usize) { println!("COVER {}", s(p, n)); }
#[no_mangle] pub unsafe extern "C" fn __sym_log(p: *const u8, n: usize, v: u64) { println!("LOG {} {}", v, s(p, n)); }
#[no_mangle] pub unsafe extern "C" fn __sym_allow_panic(b: bool) { ST.lock().unwrap().allow = b; }
#[no_mangle] pub unsafe extern "C" fn __sym_fork(b: bool) -> bool { b }
#[no_mangle] pub unsafe extern "C" fn __sym_concrete(v: u64) -> u64 { v }
#[no_mangle] pub unsafe extern "C" fn __sym_native() -> bool { true }
