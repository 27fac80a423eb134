//! symex: bounded symbolic execution of a whole Rust program from its LLVM IR, deciding harness assertions with Z3.
//! usage: symex IR.ll ENTRY OUTDIR [--param k=v]... [--known ID]... [--only CHECK-PREFIX]... [--workers N] [--samples N] [--budget N] [--deadline S]
mod env;
mod exec;
mod expr;
mod ir;
mod mem;
mod par;
mod state;
mod z3;
mod lia;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;

fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o }
fn hex(b: &[u8]) -> String { let mut s = String::new(); for x in b { let _ = write!(s, "{:02x}", x); } s }
fn ins_json(v: &[(String, u64)]) -> String { format!("[{}]", v.iter().map(|(n, x)| format!("[\"{}\",{}]", esc(n), x)).collect::<Vec<_>>().join(",")) }
fn obs_json(v: &[(String, Vec<u8>)]) -> String { format!("[{}]", v.iter().map(|(n, x)| format!("[\"{}\",\"{}\"]", esc(n), hex(x))).collect::<Vec<_>>().join(",")) }

pub fn viol_json(v: &Violation) -> String { format!("{{\"id\":\"{}\",\"what\":\"{}\",\"inputs\":{},\"observed\":{}}}", esc(&v.id), esc(&v.what), ins_json(&v.inputs), obs_json(&v.observed)) }

/// One worker's results as a JSON object on one line (merged by the root).
fn dump(x: &Exec) -> String {
    let s = &x.stats;
    let mut o = String::new();
    let _ = write!(o, "{{\"paths\":{},\"done\":{},\"assumed\":{},\"panics_ok\":{},\"insts\":{},\"forks\":{},\"sym_branches\":{},\"concretizations\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_time\":{:.4},\"solver_max\":{:.4},\"solver_cached\":{},\"solver_at_once\":{},\"cvc5\":{},\"checks\":{},\"trivially\":{},\"discharged\":{},\"max_branches\":{},\"max_insts\":{}", s.paths, s.done, s.assumed, s.panics_ok, s.insts, s.forks, s.sym_branches, s.concretizations, s.queries, s.sat, s.unsat, s.solver_time, s.solver_max, x.solver.cached, x.solver.quick, x.solver.cvc5, s.checks, s.trivially, s.discharged, s.max_branches, s.max_insts);
    let _ = write!(o, ",\"reach\":{{{}}}", s.reach.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"check_ids\":{{{}}}", s.check_ids.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","));
    let mut fs: BTreeSet<String> = BTreeSet::new();
    for (i, t) in x.touched.iter().enumerate() { if *t { fs.insert(ir::demangle(x.m.funcs[i].name)); } }
    let total = fs.len();
    let own: Vec<String> = fs.into_iter().filter(|f| f.contains("midi2spc") || f.contains("ghakuf")).collect();
    let _ = write!(o, ",\"functions_total\":{},\"functions\":[{}]", total, own.iter().map(|f| format!("\"{}\"", esc(f))).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"violations\":[{}]", x.violations.iter().map(viol_json).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"samples\":[{}]}}", x.samples.iter().map(|v| format!("{{\"end\":\"{}\",\"marks\":[{}],\"inputs\":{},\"observed\":{}}}", v.end, v.marks.iter().map(|m| format!("\"{}\"", esc(m))).collect::<Vec<_>>().join(","), ins_json(&v.inputs), obs_json(&v.observed))).collect::<Vec<_>>().join(","));
    o
}
fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 { eprintln!("usage: symex IR ENTRY OUTDIR [options]"); std::process::exit(2); }
    let mut params = HashMap::new(); let mut known = vec![]; let mut only: Vec<String> = vec![]; let mut workers = 8i64; let mut samples = 10; let mut budget = 400_000_000u64; let mut deadline = 800.0; let mut rlimit = 400_000_000u32;
    let mut i = 4;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--param" => { let (k, x) = v.split_once('=').unwrap(); params.insert(k.to_string(), x.parse().unwrap()); }
            "--known" => known.push(v), "--only" => only.push(v), "--workers" => workers = v.parse().unwrap(), "--samples" => samples = v.parse().unwrap(), "--budget" => budget = v.parse().unwrap(), "--deadline" => deadline = v.parse().unwrap(), "--rlimit" => rlimit = v.parse().unwrap(),
            o => { eprintln!("unknown option {}", o); std::process::exit(2); }
        }
        i += 2;
    }
    let out = a[3].clone();
    std::fs::create_dir_all(&out).unwrap();
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&a[1]);
    let par = par::Par::new(workers, deadline);
    let cfg = Config { out: out.clone(), budget, rlimit, known, only, params, samples, verbose: std::env::var("SYMEX_TRACE").is_ok(), deadline };
    let mut x = Exec::new(m, cfg, par);
    let st = x.initial(&a[2]);
    x.stack.push(st);
    x.run();
    std::fs::write(format!("{}/part-{}.json", out, std::process::id()), dump(&x)).unwrap();
    if !x.par.root { x.par.leave(); }
    let ok = x.par.wait_all();
    std::fs::write(format!("{}/root.json", out), format!("{{\"wall\":{:.3},\"z3\":\"{}\",\"ok\":{}}}", t0.elapsed().as_secs_f64(), esc(&z3::version()), ok)).unwrap();
    let _ = BTreeMap::<u8, u8>::new();
    std::process::exit(if ok { 0 } else { 74 });
}
fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let _ = h.join();
    std::process::exit(75);
}
