mod exec; mod expr; mod ir; mod libc; mod solver;
use exec::*;
use std::collections::*;
use std::rc::Rc;

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

fn main() {
    // deep expression recursion needs stack
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let r = h.join().unwrap_or(3);
    std::process::exit(r);
}
fn real_main() -> i32 {
    let mut a: HashMap<String, String> = HashMap::new(); let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() { let v = it.next().unwrap_or_default(); a.insert(k, v); }
    let g = |k: &str, d: &str| a.get(k).cloned().unwrap_or(d.to_string());
    let t0 = std::time::Instant::now();
    let text: &'static str = Box::leak(std::fs::read_to_string(g("--ir", "")).expect("read IR").into_boxed_str());
    let m = Rc::new(ir::Module::load(text));
    let load = t0.elapsed().as_secs_f64();
    let nf = m.funcs.len(); let ng = m.globals.len();
    let mut e = Eng { m: m.clone(), cx: expr::Ctx::new(), so: solver::Solver::new(&g("--solver", "z3-new -in"), g("--query-ms", "120000").parse().unwrap()), work: vec![], ginit: vec![None; ng], exts: vec![None; nf], panics: vec![None; nf], vars: HashMap::new(), var_expr: vec![], viols: vec![], viol_keys: HashSet::new(), covers: BTreeSet::new(), executed: HashSet::new(), blocks_seen: HashSet::new(), paths: 0, infeasible: 0, bounded: BTreeMap::new(), forks: 0, steps: 0, asserts: 0, asserts_trivial: 0, concretized: 0, problems: BTreeMap::new(), t0, max_secs: g("--max-secs", "600").parse().unwrap(), max_steps_path: g("--max-steps", "400000000").parse().unwrap(), max_viol: g("--max-viol", "20").parse().unwrap(), allow_panic: false, trace: a.contains_key("--trace"), fork_sites: HashMap::new(), timed_out: false, wits: vec![], max_wits: g("--witnesses", "12").parse().unwrap(), fix: g("--fix", "").split(',').filter_map(|x| x.split_once('=').map(|(a, b)| (a.to_string(), b.parse().unwrap()))).collect(), rng: g("--seed", "1").parse().unwrap() };
    e.so.deadline = Some(t0 + std::time::Duration::from_secs_f64(e.max_secs));
    let entry = g("--entry", "");
    e.run(&entry);
    if e.timed_out { e.problems.insert(format!("time limit with {} states left", e.work.len() + 1), 1); }
    else if !e.work.is_empty() && e.viols.len() < e.max_viol { e.problems.insert("unexplored states".into(), e.work.len() as u64); }
    let mut o = String::new();
    o.push_str(&format!("{{\"entry\":{},\"paths\":{},\"infeasible\":{},\"forks\":{},\"instructions\":{},\"asserts\":{},\"asserts_by_rewriting\":{},\"concretized\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"symbolic_bytes\":{},\"expr_nodes\":{},\"load_s\":{:.3},\"wall_s\":{:.3},",
        js(&entry), e.paths, e.infeasible, e.forks, e.steps, e.asserts, e.asserts_trivial, e.concretized, e.so.queries, e.so.sat, e.so.unsat, e.so.unknown, e.so.cache_hits, e.so.model_hits, e.so.time, e.so.max_time, e.cx.nvars, e.cx.nodes.len(), load, t0.elapsed().as_secs_f64()));
    o.push_str("\"covers\":["); o.push_str(&e.covers.iter().map(|c| js(c)).collect::<Vec<_>>().join(",")); o.push_str("],");
    o.push_str("\"bounded\":{"); o.push_str(&e.bounded.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")); o.push_str("},");
    o.push_str("\"problems\":{"); o.push_str(&e.problems.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")); o.push_str("},");
    let filt = g("--crates", "5mopaq,5storm,9storm_cli"); let crates: Vec<&str> = filt.split(',').collect();
    let mut fns: Vec<String> = e.executed.iter().map(|i| m.funcs[*i].name.to_string()).filter(|n| crates.iter().any(|c| n.contains(c))).map(|n| exec::demangle(&n)).collect(); fns.sort(); fns.dedup();
    o.push_str(&format!("\"functions_total\":{},\"blocks\":{},", e.executed.len(), e.blocks_seen.len()));
    o.push_str("\"functions\":["); o.push_str(&fns.iter().map(|c| js(c)).collect::<Vec<_>>().join(",")); o.push_str("],");
    let hexes = |syms: &Vec<(String, u32, u32)>, model: &Vec<u8>| syms.iter().map(|(n, f, l)| { let hex: String = (0..*l).map(|i| format!("{:02x}", model.get((*f + i) as usize).copied().unwrap_or(0))).collect(); format!("[{},{}]", js(n), js(&hex)) }).collect::<Vec<String>>().join(",");
    o.push_str("\"witnesses\":["); o.push_str(&e.wits.iter().map(|(s, m)| format!("[{}]", hexes(s, m))).collect::<Vec<_>>().join(",")); o.push_str("],");
    o.push_str("\"violations\":[");
    let vs: Vec<String> = e.viols.iter().map(|v| {
        let syms: Vec<String> = v.syms.iter().map(|(n, f, l)| { let hex: String = (0..*l).map(|i| format!("{:02x}", v.model.get((*f + i) as usize).copied().unwrap_or(0))).collect(); format!("[{},{}]", js(n), js(&hex)) }).collect();
        format!("{{\"kind\":{},\"msg\":{},\"inputs\":[{}],\"stack\":[{}]}}", js(&v.kind), js(&v.msg), syms.join(","), v.stack.iter().take(12).map(|s| js(&exec::demangle(s))).collect::<Vec<_>>().join(",")) }).collect();
    o.push_str(&vs.join(",")); o.push_str("]}\n");
    let out = g("--out", ""); if out.is_empty() { print!("{o}"); } else { std::fs::write(out, &o).unwrap(); }
    if e.trace { let mut v: Vec<_> = e.fork_sites.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); for (k, n) in v.iter().take(25) { let (f, r) = k.split_once(':').unwrap(); eprintln!("{n} {} {r}", exec::demangle(f)); } }
    if !e.viols.is_empty() { 1 } else if !e.problems.is_empty() { 2 } else { 0 }
}
