//! SMT back end: an external solver process spoken to over SMT-LIB pipes,
//! with constraint-independence slicing, a query cache and a model cache.
use crate::expr::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

pub enum Res { Sat(Rc<Vec<u8>>), Unsat, Unknown }

pub struct Solver {
    child: Child,
    out: BufReader<std::process::ChildStdout>,
    cmd: String,
    models: Vec<Rc<Vec<u8>>>,
    cache: HashMap<Vec<E>, Option<Rc<Vec<u8>>>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub by_subst: u64,
    pub time: f64,
    pub max_time: f64,
    pub timeout_ms: u64,
    pub deadline: Option<Instant>,
    pub dump: Option<String>,
}

fn spawn(cmd: &str) -> (Child, BufReader<std::process::ChildStdout>) {
    let mut it = cmd.split_whitespace();
    let mut c = Command::new(it.next().unwrap()).args(it).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start the SMT solver");
    let o = BufReader::new(c.stdout.take().unwrap());
    (c, o)
}

impl Solver {
    pub fn new(cmd: &str, timeout_ms: u64) -> Self {
        let (child, out) = spawn(cmd);
        Solver { child, out, cmd: cmd.to_string(), models: vec![], cache: HashMap::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, cache_hits: 0, model_hits: 0, by_subst: 0, time: 0.0, max_time: 0.0, timeout_ms, deadline: None, dump: std::env::var("SX_DUMP").ok() }
    }
    /// constraints of `pc` that (transitively) share variables with `q`
    pub fn slice(cx: &mut Ctx, pc: &[E], q: &[E]) -> Vec<E> {
        let mut vs: std::collections::HashSet<u32> = Default::default();
        for &e in q { vs.extend(cx.vars(e).iter()); }
        let sets: Vec<Rc<Vec<u32>>> = pc.iter().map(|&e| cx.vars(e)).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() { if !used[i] && sets[i].iter().any(|v| vs.contains(v)) { used[i] = true; ch = true; vs.extend(sets[i].iter()); } }
            if !ch { break; }
        }
        (0..pc.len()).filter(|&i| used[i]).map(|i| pc[i]).collect()
    }
    /// Is pc /\ q satisfiable (pc itself is assumed satisfiable)?
    pub fn check(&mut self, cx: &mut Ctx, pc: &[E], q: &[E]) -> Res {
        if q.iter().any(|&e| e == 0) { return Res::Unsat; }
        let q: Vec<E> = q.iter().copied().filter(|&e| e != 1).collect();
        let mut cs = if q.is_empty() { vec![] } else { Self::slice(cx, pc, &q) };
        cs.extend(&q); cs.sort(); cs.dedup();
        self.check_raw(cx, cs)
    }
    pub fn check_all(&mut self, cx: &mut Ctx, pc: &[E], q: &[E]) -> Res {
        let mut cs: Vec<E> = pc.iter().chain(q.iter()).copied().filter(|&e| e != 1).collect();
        if cs.contains(&0) { return Res::Unsat; }
        cs.sort(); cs.dedup();
        self.check_raw(cx, cs)
    }
    fn check_raw(&mut self, cx: &mut Ctx, cs: Vec<E>) -> Res {
        if cs.is_empty() { return Res::Sat(Rc::new(vec![])); }
        if let Some(r) = self.cache.get(&cs) { self.cache_hits += 1; return match r { Some(m) => Res::Sat(m.clone()), None => Res::Unsat }; }
        for i in (0..self.models.len()).rev() {
            let m = self.models[i].clone();
            cx.eval_begin();
            if cs.iter().all(|&e| cx.eval(e, &m) == 1) {
                self.model_hits += 1;
                self.cache.insert(cs, Some(m.clone()));
                return Res::Sat(m);
            }
        }
        // values fixed by the constraints are put into the others first
        let mut all: Vec<E> = vec![]; for &e in &cs { cx.conjuncts(e, &mut all); } all.sort(); all.dedup();
        let mut known: HashMap<u32, u128> = HashMap::new();
        loop {
            let mut grew = false;
            for &e in &all { if let Some((v, k)) = cx.var_is(e) { match known.get(&v) { None => { known.insert(v, k); grew = true; } Some(x) if *x != k => { self.by_subst += 1; self.cache.insert(cs, None); return Res::Unsat; } _ => {} } } }
            if !grew { break; }
            let mut memo = HashMap::new(); let mut next = vec![];
            for &e in &all { let r = if cx.var_is(e).is_some() { e } else { cx.subst(e, &known, &mut memo) }; cx.conjuncts(r, &mut next); }
            next.sort(); next.dedup(); next.retain(|&e| e != 1);
            if next.contains(&0) { self.by_subst += 1; self.cache.insert(cs, None); return Res::Unsat; }
            all = next;
        }
        let key = cs; let cs = if known.is_empty() { key.clone() } else { all };
        if cs != key { if let Some(r) = self.cache.get(&cs) { self.cache_hits += 1; let r = r.clone(); self.cache.insert(key, r.clone()); return match r { Some(m) => Res::Sat(m), None => Res::Unsat }; } }
        let t = Instant::now();
        let mut s = String::new();
        s.push_str("(reset)\n(set-option :print-success false)\n(set-option :produce-models true)\n");
        s.push_str(&format!("(set-option :timeout {})\n(set-logic QF_BV)\n", self.deadline.map_or(self.timeout_ms, |d| self.timeout_ms.min(d.saturating_duration_since(Instant::now()).as_millis() as u64 + 1000))));
        let vars = cx.smt(&cs, &mut s);
        for &e in &cs { s.push_str(&format!("(assert n{e})\n")); }
        s.push_str("(check-sat)\n");
        if let Some(d) = &self.dump { let _ = std::fs::write(format!("{d}/q{}.smt2", self.queries), &s); }
        self.queries += 1;
        let r = self.talk(&s, &vars, cx);
        let el = t.elapsed().as_secs_f64(); self.time += el; if el > self.max_time { self.max_time = el; }
        if self.dump.is_some() && el > 0.5 { eprintln!("slow query {} {:.2}s", self.queries - 1, el); }
        match &r {
            Res::Sat(m) => {
                self.sat += 1;
                // the model must satisfy the query under our own evaluator
                cx.eval_begin();
                for &e in &cs { if cx.eval(e, m) != 1 { eprintln!("sx: solver model does not satisfy n{e}: {:?}", cx.n(e)); std::process::exit(4); } }
                self.models.push(m.clone()); if self.models.len() > 48 { self.models.remove(0); }
                self.cache.insert(cs, Some(m.clone())); self.cache.insert(key, Some(m.clone()));
            }
            Res::Unsat => { self.unsat += 1; self.cache.insert(cs, None); self.cache.insert(key, None); }
            Res::Unknown => self.unknown += 1,
        }
        r
    }
    fn line(&mut self) -> String { let mut l = String::new(); if self.out.read_line(&mut l).unwrap_or(0) == 0 { return "eof".into(); } l.trim().to_string() }
    fn talk(&mut self, s: &str, vars: &[u32], _cx: &Ctx) -> Res {
        if self.child.stdin.as_mut().unwrap().write_all(s.as_bytes()).is_err() { self.restart(); return Res::Unknown; }
        let _ = self.child.stdin.as_mut().unwrap().flush();
        let l = self.line();
        match l.as_str() {
            "sat" => {
                let mut m = vec![0u8; vars.iter().map(|v| *v as usize + 1).max().unwrap_or(0)];
                if !vars.is_empty() {
                    let mut g = String::from("(get-value (");
                    for v in vars { g.push_str(&format!("v{v} ")); }
                    g.push_str("))\n(echo \"done\")\n");
                    self.child.stdin.as_mut().unwrap().write_all(g.as_bytes()).unwrap(); self.child.stdin.as_mut().unwrap().flush().unwrap();
                    let mut txt = String::new();
                    loop { let l = self.line(); if l.contains("done") { break; } if l == "eof" { self.restart(); return Res::Unknown; } txt.push_str(&l); txt.push(' '); }
                    let toks: Vec<&str> = txt.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|t| !t.is_empty()).collect();
                    let mut i = 0;
                    while i + 1 < toks.len() {
                        if let Some(v) = toks[i].strip_prefix('v').and_then(|x| x.parse::<usize>().ok()) {
                            let x = toks[i + 1];
                            let val = if let Some(h) = x.strip_prefix("#x") { u8::from_str_radix(h, 16).unwrap() } else if let Some(b) = x.strip_prefix("#b") { u8::from_str_radix(b, 2).unwrap() } else { 0 };
                            if v < m.len() { m[v] = val; }
                            i += 2;
                        } else { i += 1; }
                    }
                }
                Res::Sat(Rc::new(m))
            }
            "unsat" => Res::Unsat,
            "unknown" | "timeout" => Res::Unknown,
            x => { eprintln!("sx: solver said {x:?}"); self.restart(); Res::Unknown }
        }
    }
    fn restart(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); let (c, o) = spawn(&self.cmd.clone()); self.child = c; self.out = o; }
}
impl Drop for Solver { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
