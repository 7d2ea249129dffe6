mod exec;
mod expr;
mod ir;
mod solver;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } }
    o + "\""
}

fn main() {
    // the interpreter itself may recurse on deep expressions
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut files = vec![];
    let mut entry = String::new();
    let mut arg = 0u64;
    let mut out = String::new();
    let mut time = 300u64;
    let mut max_paths = u64::MAX;
    let mut max_viol = 1usize;
    let mut samples = 3usize;
    let mut solver_ms = 30000u64;
    let mut selfcheck = 0u64;
    let mut trace = false;
    let mut seed = 1u64;
    let mut dump = None;
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut nx = || { i += 1; args[i].clone() };
        match a {
            "--entry" => entry = nx(),
            "--arg" => arg = nx().parse().unwrap(),
            "--out" => out = nx(),
            "--time" => time = nx().parse().unwrap(),
            "--max-paths" => max_paths = nx().parse().unwrap(),
            "--max-violations" => max_viol = nx().parse().unwrap(),
            "--samples" => samples = nx().parse().unwrap(),
            "--solver-ms" => solver_ms = nx().parse().unwrap(),
            "--crosscheck" => selfcheck = nx().parse().unwrap(),
            "--seed" => seed = nx().parse().unwrap(),
            "--dump" => dump = Some(nx()),
            "--trace" => trace = true,
            f => files.push(f.to_string()),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let prog = ir::Program::load(&files);
    let load = t0.elapsed().as_secs_f64();
    let mut e = exec::Engine::new(prog);
    e.deadline = Instant::now() + Duration::from_secs(time);
    e.max_paths = max_paths;
    e.max_viol = max_viol;
    e.nsamples = samples;
    e.solver.timeout_ms = solver_ms;
    e.solver.selfcheck = selfcheck;
    e.solver.dump = dump;
    e.trace = trace;
    e.rng ^= seed;
    if let Err(m) = e.run(&entry, arg) { eprintln!("engine: {}", m); return 3; }
    let r = &e.rep;
    let s = &e.solver.stats;
    let names: Vec<String> = e.used_funcs.iter().map(|&i| e.funcs[i].name.clone()).collect();
    let vals = |v: &Vec<(String, u8, u128)>| format!("[{}]", v.iter().map(|(t, k, x)| {
        let shown = match k { b'f' => format!("{:e}", f64::from_bits(*x as u64)), _ => format!("{}", *x as u64 as i64) };
        format!("{{\"tag\":{},\"kind\":{},\"bits\":{},\"shown\":{}}}", js(t), js(&(*k as char).to_string()), js(&format!("{}", *x as u64)), js(&shown))
    }).collect::<Vec<_>>().join(","));
    let logs = |v: &Vec<(String, u128)>| format!("[{}]", v.iter().map(|(t, x)| format!("[{},{}]", js(t), js(&format!("{}", *x as u64)))).collect::<Vec<_>>().join(","));
    let viol = r.violations.iter().map(|(m, v, l)| format!("{{\"msg\":{},\"values\":{},\"log\":{}}}", js(m), vals(v), logs(l))).collect::<Vec<_>>().join(",");
    let samp = r.samples.iter().map(|(v, l)| format!("{{\"values\":{},\"log\":{}}}", vals(v), logs(l))).collect::<Vec<_>>().join(",");
    let unsup = r.unsupported.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    let cov = r.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    let errs = e.solver.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(",");
    let mut forks: Vec<_> = r.forks_at.iter().collect();
    forks.sort_by_key(|x| std::cmp::Reverse(*x.1));
    let complete = r.budget == 0 && r.unsupported.is_empty() && r.branch_unknown == 0 && r.assert_unknown == 0 && e.pool.taint == 0 && e.solver.errors.is_empty();
    let json = format!("{{\"entry\":{},\"arg\":{},\"complete\":{},\"paths\":{},\"completed\":{},\"assume_pruned\":{},\"allowed_panics\":{},\"budget_cut\":{},\"branch_unknown\":{},\"assert_unknown\":{},\"negzero_taint\":{},\"asserts\":{},\"asserts_concrete\":{},\"asserts_symbolic\":{},\"steps\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"fp_queries\":{},\"cache_hits\":{},\"model_hits\":{},\"fallbacks\":{},\"crosschecked\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"load_s\":{:.2},\"wall_s\":{:.2},\"exprs\":{},\"variables\":{},\"unsupported\":{{{}}},\"covers\":{{{}}},\"errors\":[{}],\"violations\":[{}],\"samples\":[{}],\"functions\":[{}]}}",
        js(&entry), arg, complete, r.paths, r.completed, r.assume_pruned, r.panics_allowed, r.budget, r.branch_unknown, r.assert_unknown, e.pool.taint, r.asserts_checked, r.asserts_concrete, r.asserts_symbolic, r.steps, s.queries, s.sat, s.unsat, s.unknown, s.fp_queries, s.cache, s.model_hits, s.fallback, e.solver.selfchecked, s.secs, s.max_secs, load, t0.elapsed().as_secs_f64(), e.pool.nodes.len(), e.pool.vars.len(), unsup, cov, errs, viol, samp, names.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    if out.is_empty() {
        let k = json.find("\"functions\"").unwrap_or(json.len());
        println!("{}", &json[..k.min(6000)]);
    } else { std::fs::write(&out, &json).unwrap(); }
    if trace { for (k, v) in forks.iter().take(25) { eprintln!("{:6} {}", v, k); } }
    if !r.violations.is_empty() { 1 } else { 0 }
}
