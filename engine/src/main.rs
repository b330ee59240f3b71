mod exec;
mod expr;
mod ir;
mod solver;
use std::time::{Duration, Instant};

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", c as u32 & 0xffff)), c => o.push(c) } }
    o.push('"');
    o
}
fn nums(v: &[u64]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }

fn main() {
    // deep recursion in expression walks
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}

fn real() -> i32 {
    let mut ll = String::new();
    let mut entry = String::new();
    let mut params: Vec<u64> = vec![];
    let mut out = String::new();
    let mut timeout = 600u64;
    let mut max_instrs = 4_000_000u64;
    let mut wit = 500u64;
    let mut solver_ms = 20_000u32;
    let mut max_viol = 8usize;
    let mut verbose = false;
    let mut concrete = None;
    let mut dump = 0u64;
    let mut max_paths = u64::MAX;
    let args: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ll" => ll = v,
            "--fn" => entry = v,
            "--params" => params = v.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--out" => out = v,
            "--timeout" => timeout = v.parse().unwrap(),
            "--max-instrs" => max_instrs = v.parse().unwrap(),
            "--witness-every" => wit = v.parse().unwrap(),
            "--solver-ms" => solver_ms = v.parse().unwrap(),
            "--max-violations" => max_viol = v.parse().unwrap(),
            "--max-paths" => max_paths = v.parse().unwrap(),
            "--dump-every" => dump = v.parse().unwrap(),
            "--concrete" => concrete = Some((0..v.len() / 2).map(|j| u8::from_str_radix(&v[2 * j..2 * j + 2], 16).unwrap()).collect::<Vec<u8>>()),
            "-v" => { verbose = true; i += 1; continue; }
            o => { eprintln!("unknown argument {}", o); return 3; }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let m = match ir::Module::load(&ll) { Ok(m) => m, Err(e) => { eprintln!("load: {}", e); return 3; } };
    let load = t0.elapsed().as_secs_f64();
    let cfg = exec::Cfg { params: params.clone(), max_path_instrs: max_instrs, deadline: Instant::now() + Duration::from_secs(timeout), max_violations: max_viol, max_paths, witness_every: wit, verbose, concrete };
    let mut e = exec::Eng::new(m, cfg, solver_ms);
    e.solver.dump_every = dump;
    let r = e.run(&entry);
    let wall = t0.elapsed().as_secs_f64();
    let status = match &r { Ok(()) => "done", Err(s) if s.starts_with("budget") => "budget", Err(_) => "error" };
    let mut j = String::new();
    j.push_str(&format!("{{\"entry\":{},\"params\":{},\"status\":{},\"error\":{},", js(&entry), nums(&params), js(status), js(r.as_ref().err().map(|s| s.as_str()).unwrap_or(""))));
    j.push_str(&format!("\"paths\":{},\"pruned\":{},\"forks\":{},\"instructions\":{},\"max_path_instructions\":{},\"max_call_depth\":{},\"symbolic_bytes\":{},\"asserts\":{},\"asserts_symbolic\":{},", e.paths, e.pruned, e.forks, e.instrs, e.max_instrs, e.max_depth, e.max_vars, e.asserts, e.asserts_symbolic));
    let s = &e.solver;
    j.push_str(&format!("\"solver\":{{\"version\":{},\"queries\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"seconds\":{:.3},\"max_seconds\":{:.3},\"asserts_proved\":{}}},", js(&solver::Solver::version()), s.queries, s.cached, s.sat, s.unsat, s.unknown, s.time, s.max_time, s.asserts_discharged));
    j.push_str(&format!("\"wall\":{:.3},\"load\":{:.3},\"nodes\":{},", wall, load, expr::cx().nodes.len()));
    j.push_str("\"covers\":{");
    j.push_str(&e.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    j.push_str("},\"redirected\":{");
    j.push_str(&e.redirected.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    j.push_str("},\"functions\":[");
    j.push_str(&e.executed.iter().map(|f| js(&e.m.fns[*f as usize].name)).collect::<Vec<_>>().join(","));
    j.push_str("],\"violations\":[");
    j.push_str(&e.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"input\":{},\"trace\":[{}]}}", js(&v.kind), js(&v.msg), js(&hex(&v.model)), v.trace.iter().map(|t| js(t)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    j.push_str("],\"witnesses\":[");
    j.push_str(&e.witnesses.iter().map(|w| format!("{{\"input\":{},\"outs\":{},\"covers\":{},\"instrs\":{}}}", js(&hex(&w.model)), nums(&w.outs), nums(&w.covers), w.instrs)).collect::<Vec<_>>().join(","));
    j.push_str("],\"smt\":[");
    j.push_str(&s.dumped.iter().map(|(t, b)| format!("{{\"sat\":{},\"text\":{}}}", b, js(t))).collect::<Vec<_>>().join(","));
    j.push_str("]}\n");
    if out.is_empty() { println!("{}", j); } else { std::fs::write(&out, &j).unwrap(); }
    if verbose || out.is_empty() { eprintln!("{}: {} paths, {} pruned, {} instrs, {} queries {:.2}s solver, {:.2}s wall; {}", entry, e.paths, e.pruned, e.instrs, s.queries, s.time, wall, r.as_ref().err().cloned().unwrap_or_default()); }
    if r.is_err() { 2 } else { 0 }
}
