//! Parser for the textual LLVM IR rustc emits (opaque pointers, panic=abort).
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u16), Ptr, F32, F64, Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Vect(u64, Rc<Ty>), Other }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; b.next_power_of_two().min(16) }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vect(n, t) => (n * t.size()).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, _) => { let (o, e) = self.layout(f.len()); let _ = o; e }
            Ty::Vect(n, t) => n * t.size(),
            _ => 0,
        }
    }
    /// offset of field i (i == len gives total size in .1)
    pub fn layout(&self, i: usize) -> (u64, u64) {
        if let Ty::Struct(f, p) = self {
            let mut o = 0; let mut r = 0;
            for (k, t) in f.iter().enumerate() { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } if k == i { r = o; } o += t.size(); }
            let a = self.align(); (r, (o + a - 1) / a * a)
        } else { panic!() }
    }
    pub fn width(&self) -> u16 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 } }
}

#[derive(Clone, Debug)]
pub enum Val { I(u64), W(u128), S(u32), A(Rc<Vec<Val>>), F(f64) }

#[derive(Clone, Debug)]
pub enum Opnd { R(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Bit, UiToFp, SiToFp, FpToUi, FpToSi, FpTrunc, FpExt }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Umax, Umin, Max, Min, Nand }

#[derive(Clone, Debug)]
pub enum Callee { Fn(usize), Ptr(Opnd), Asm(Rc<String>) }

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca { d: u32, size: u64, n: Opnd },
    Load { d: u32, ty: Ty, p: Opnd },
    Store { ty: Ty, v: Opnd, p: Opnd },
    Gep { d: u32, base: Opnd, off: u64, idx: Vec<(Opnd, u64, u16)> },
    Bin { d: u32, op: Bin, w: u16, a: Opnd, b: Opnd, f32: bool },
    Icmp { d: u32, p: Pred, w: u16, a: Opnd, b: Opnd },
    Fcmp { d: u32, p: String, a: Opnd, b: Opnd },
    Fneg { d: u32, a: Opnd },
    Cast { d: u32, k: Cast, from: Ty, to: Ty, a: Opnd },
    Select { d: u32, ty: Ty, c: Opnd, a: Opnd, b: Opnd },
    Br { t: u32 },
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { w: u16, v: Opnd, def: u32, cases: Rc<Vec<(u128, u32)>> },
    Ret { v: Option<Opnd> },
    Call { d: Option<u32>, f: Callee, args: Vec<(Ty, Opnd)>, ret: Ty },
    Extract { d: u32, a: Opnd, idx: Vec<u32> },
    Insert { d: u32, ty: Ty, a: Opnd, v: Opnd, idx: Vec<u32> },
    Rmw { d: u32, op: Rmw, ty: Ty, p: Opnd, v: Opnd },
    CmpXchg { d: u32, ty: Ty, p: Opnd, c: Opnd, n: Opnd },
    Unreachable,
    Nop,
    Unsupported(String),
}

pub struct Phi { pub d: u32, pub inc: Vec<(u32, Opnd)> }
pub struct Block { pub phis: Vec<Phi>, pub ins: Vec<Ins>, pub name: String }
pub struct Func { pub name: Rc<str>, pub id: usize, pub params: Vec<u32>, pub nregs: u32, pub blocks: Vec<Block>, pub vararg: bool }

pub struct FuncDecl { pub name: Rc<str>, pub body: Option<(usize, usize)>, pub parsed: RefCell<Option<Rc<Func>>> }
pub struct Global { pub name: String, pub text: (usize, usize), pub is_const: bool, pub external: bool, pub alias: bool }

pub enum Sym { G(usize), F(usize) }
pub struct Module {
    pub text: &'static str,
    pub globals: Vec<Global>,
    pub funcs: Vec<FuncDecl>,
    pub syms: HashMap<String, Sym>,
    pub types: HashMap<String, (usize, usize)>,
}

pub const OBJ_SHIFT: u32 = 40;
pub const FUNC_BASE: u64 = 1 << 62;

pub struct P<'a> { pub s: &'a [u8], pub i: usize, pub m: &'a Module }

fn is_word(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> P<'a> {
    pub fn new(m: &'a Module, s: &'a str) -> Self { P { s: s.as_bytes(), i: 0, m } }
    pub fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() { self.i += 1; } }
    pub fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    pub fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    pub fn expect(&mut self, c: u8) { if !self.eat(c) { self.fail(&format!("expected {:?}", c as char)); } }
    pub fn fail(&self, m: &str) -> ! { let e = (self.i + 80).min(self.s.len()); let b = self.i.saturating_sub(80); panic!("IR parse: {m} at ...{:?}<HERE>{:?}", String::from_utf8_lossy(&self.s[b..self.i]), String::from_utf8_lossy(&self.s[self.i..e])) }
    pub fn word(&mut self) -> &'a str {
        self.ws(); let b = self.i; while self.i < self.s.len() && is_word(self.s[self.i]) { self.i += 1; }
        unsafe { std::str::from_utf8_unchecked(&self.s[b..self.i]) }
    }
    pub fn peek_word(&mut self) -> &'a str { let i = self.i; let w = self.word(); self.i = i; w }
    pub fn eatw(&mut self, w: &str) -> bool { let i = self.i; if self.word() == w { true } else { self.i = i; false } }
    /// name after % or @
    pub fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1; let b = self.i; while self.s[self.i] != b'"' { self.i += 1; }
            let r = String::from_utf8_lossy(&self.s[b..self.i]).to_string(); self.i += 1; r
        } else { let b = self.i; while self.i < self.s.len() && is_word(self.s[self.i]) { self.i += 1; } String::from_utf8_lossy(&self.s[b..self.i]).to_string() }
    }
    pub fn skip_group(&mut self) { // at '('
        let mut d = 0;
        loop { match self.s[self.i] { b'(' | b'[' | b'{' => d += 1, b')' | b']' | b'}' => { d -= 1; if d == 0 { self.i += 1; return; } } b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } } _ => {} } self.i += 1; }
    }
    pub fn try_ty(&mut self) -> Option<Ty> {
        let save = self.i;
        let c = self.peek();
        match c {
            b'[' => { self.i += 1; let n: u64 = self.word().parse().ok()?; if self.word() != "x" { self.fail("x"); } let t = self.ty(); self.expect(b']'); Some(Ty::Arr(n, Rc::new(t))) }
            b'{' => { self.i += 1; let mut f = vec![]; if !self.eat(b'}') { loop { f.push(self.ty()); if self.eat(b'}') { break; } self.expect(b','); } } Some(Ty::Struct(Rc::new(f), false)) }
            b'<' => { self.i += 1;
                if self.peek() == b'{' { self.i += 1; let mut f = vec![]; if !self.eat(b'}') { loop { f.push(self.ty()); if self.eat(b'}') { break; } self.expect(b','); } } self.expect(b'>'); Some(Ty::Struct(Rc::new(f), true)) }
                else { let n: u64 = self.word().parse().ok()?; self.word(); let t = self.ty(); self.expect(b'>'); Some(Ty::Vect(n, Rc::new(t))) } }
            b'%' => { self.i += 1; let n = self.name();
                if let Some(&(a, b)) = self.m.types.get(&n) { let t: &'static str = &self.m.text[a..b]; let mut p = P::new(self.m, t); if p.peek_word() == "opaque" { return Some(Ty::Other); } p.try_ty() } else { self.i = save; None } }
            _ => {
                let w = self.word();
                let r = match w { "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::F32, "double" => Ty::F64, "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" => Ty::Other,
                    _ => { if w.len() > 1 && w.as_bytes()[0] == b'i' { if let Ok(n) = w[1..].parse::<u16>() { Ty::Int(n) } else { self.i = save; return None; } } else { self.i = save; return None; } } };
                if matches!(r, Ty::Ptr) && self.peek_word() == "addrspace" { self.word(); self.ws(); self.skip_group(); }
                Some(r)
            }
        }
    }
    pub fn ty(&mut self) -> Ty { match self.try_ty() { Some(t) => t, None => self.fail("type") } }
    pub fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; if self.peek() == b'=' { self.i += 1; } continue; }
            if c == b'#' { self.i += 1; self.word(); continue; }
            if !c.is_ascii_alphabetic() { return; }
            let save = self.i;
            let w = self.word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "c" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "add" | "sub" | "mul" | "trunc" | "xor" | "splat" | "asm" | "shl" | "icmp" | "select" | "none" | "addrspacecast" => { self.i = save; return; }
                "align" => { if self.peek() == b'(' { self.skip_group(); } else { self.word(); } }
                _ => { if self.i < self.s.len() && self.s[self.i] == b'(' { self.skip_group(); } }
            }
        }
    }
    pub fn sym_addr(&self, n: &str) -> u64 {
        match self.m.syms.get(n) { Some(Sym::G(i)) => (*i as u64 + 1) << OBJ_SHIFT, Some(Sym::F(i)) => FUNC_BASE + (*i as u64) * 16, None => self.fail(&format!("unknown symbol @{n}")) }
    }
    pub fn konst(&mut self, ty: &Ty) -> Val {
        let c = self.peek();
        if c == b'@' { self.i += 1; let n = self.name(); return Val::I(self.sym_addr(&n)); }
        if c == b'c' && self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' {
            self.i += 2; let mut v = vec![];
            loop { let b = self.s[self.i]; if b == b'"' { self.i += 1; break; }
                if b == b'\\' && self.s[self.i + 1] == b'\\' { v.push(Val::I(92)); self.i += 2; }
                else if b == b'\\' { let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap(); v.push(Val::I(u64::from_str_radix(h, 16).unwrap())); self.i += 3; } else { v.push(Val::I(b as u64)); self.i += 1; } }
            return Val::A(Rc::new(v));
        }
        match c {
            b'[' => { self.i += 1; let mut v = vec![]; if !self.eat(b']') { loop { let t = self.ty(); v.push(self.konst(&t)); if self.eat(b']') { break; } self.expect(b','); } } return Val::A(Rc::new(v)); }
            b'{' => { self.i += 1; let mut v = vec![]; if !self.eat(b'}') { loop { let t = self.ty(); v.push(self.konst(&t)); if self.eat(b'}') { break; } self.expect(b','); } } return Val::A(Rc::new(v)); }
            b'<' => { self.i += 1; let br = self.eat(b'{'); let mut v = vec![]; let end = if br { b'}' } else { b'>' }; if !self.eat(end) { loop { let t = self.ty(); v.push(self.konst(&t)); if self.eat(end) { break; } self.expect(b','); } } if br { self.expect(b'>'); } return Val::A(Rc::new(v)); }
            _ => {}
        }
        let w = self.word();
        match w {
            "true" => Val::I(1), "false" => Val::I(0), "null" | "none" => Val::I(0),
            "undef" | "poison" | "zeroinitializer" => zero(ty),
            "getelementptr" => {
                loop { let pw = self.peek_word(); if pw.is_empty() { break; } self.word(); if self.i < self.s.len() && self.s[self.i] == b'(' && pw == "inrange" { self.skip_group(); } }
                self.expect(b'('); let st = self.ty(); self.expect(b','); let bt = self.ty(); let mut a = cint(&self.konst(&bt)) as u64; let mut cur = st; let mut first = true;
                while self.eat(b',') { let t = self.ty(); let k = self.konst(&t); let k = crate::expr::sext(cint(&k), t.width()) as i64;
                    if first { a = a.wrapping_add((k as u64).wrapping_mul(cur.size())); first = false; } else { let (o, n) = step(&cur, k); a = a.wrapping_add(o); cur = n; } }
                self.expect(b')'); Val::I(a)
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" => { while self.peek() != b'(' { self.word(); } self.expect(b'('); let t = self.ty(); let v = self.konst(&t); if self.word() != "to" { self.fail("to"); } let t2 = self.ty(); self.expect(b')');
                match v { Val::I(x) => if t2.width() < 64 && t2.width() > 0 { Val::I(x & ((1u64 << t2.width()) - 1)) } else { Val::I(x) }, v => v } }
            "add" | "sub" | "mul" | "xor" | "shl" => { while self.peek() != b'(' { self.word(); } self.expect(b'('); let t = self.ty(); let a = cint(&self.konst(&t)); self.expect(b','); let t2 = self.ty(); let b = cint(&self.konst(&t2)); self.expect(b')');
                let r = match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), "xor" => a ^ b, _ => a << b }; mkint(r, t.width()) }
            "splat" => { self.expect(b'('); let t = self.ty(); let v = self.konst(&t); self.expect(b')'); if let Ty::Vect(n, _) = ty { Val::A(Rc::new(vec![v; *n as usize])) } else { v } }
            _ => {
                if matches!(ty, Ty::F64 | Ty::F32) {
                    if let Some(h) = w.strip_prefix("0x") { return Val::F(f64::from_bits(u64::from_str_radix(h, 16).unwrap())); }
                    let mut t = w.to_string(); if self.i < self.s.len() && self.s[self.i] == b'+' { self.i += 1; t.push('+'); t.push_str(self.word()); }
                    return Val::F(t.parse().unwrap_or_else(|_| self.fail("float")));
                }
                if let Some(n) = w.strip_prefix('-') { if let Ok(v) = n.parse::<u128>() { return mkint(v.wrapping_neg(), ty.width()); } }
                if let Ok(v) = w.parse::<u128>() { return mkint(v, ty.width()); }
                self.fail(&format!("constant {w:?} of {ty:?}"))
            }
        }
    }
}
pub fn mkint(v: u128, w: u16) -> Val { let v = v & crate::expr::mask(w); if w > 64 { Val::W(v) } else { Val::I(v as u64) } }
pub fn cint(v: &Val) -> u128 { match v { Val::I(x) => *x as u128, Val::W(x) => *x, _ => panic!("not an int constant") } }
pub fn zero(ty: &Ty) -> Val {
    match ty {
        Ty::Arr(n, t) => Val::A(Rc::new(vec![zero(t); *n as usize])),
        Ty::Vect(n, t) => Val::A(Rc::new(vec![zero(t); *n as usize])),
        Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(zero).collect())),
        Ty::Int(w) if *w > 64 => Val::W(0),
        Ty::F32 | Ty::F64 => Val::F(0.0),
        _ => Val::I(0),
    }
}
pub fn step(t: &Ty, k: i64) -> (u64, Ty) {
    match t {
        Ty::Arr(_, e) | Ty::Vect(_, e) => ((k as u64).wrapping_mul(e.size()), (**e).clone()),
        Ty::Struct(f, _) => (t.layout(k as usize).0, f[k as usize].clone()),
        _ => panic!("gep into scalar"),
    }
}

impl Module {
    pub fn load(text: &'static str) -> Module {
        let mut m = Module { text, globals: vec![], funcs: vec![], syms: HashMap::new(), types: HashMap::new() };
        let b = text.as_bytes(); let mut i = 0;
        while i < b.len() {
            let e = text[i..].find('\n').map(|x| i + x).unwrap_or(b.len());
            let line = &text[i..e];
            if line.starts_with('@') {
                let (name, off) = if line.as_bytes()[1] == b'"' { let q = line[2..].find('"').unwrap(); (line[2..2 + q].to_string(), q + 3) } else { let q = line.find(" =").unwrap(); (line[1..q].to_string(), q) };
                let rest = &line[off..];
                // find "constant" or "global" keyword
                let kc = rest.find(" constant "); let kg = rest.find(" global "); let ka = rest.find(" alias ");
                let (pos, is_const, alias) = match (kc, kg, ka) { (Some(c), Some(g), _) if c < g => (c + 10, true, false), (_, Some(g), _) => (g + 8, false, false), (Some(c), None, _) => (c + 10, true, false), (None, None, Some(a)) => (a + 7, true, true), _ => { i = e + 1; continue; } };
                let external = rest[..pos].contains("external");
                let idx = m.globals.len();
                m.globals.push(Global { name: name.clone(), text: (i + off + pos, e), is_const, external, alias });
                m.syms.insert(name, Sym::G(idx));
            } else if line.starts_with("define ") || line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let name = if line.as_bytes()[at + 1] == b'"' { let q = line[at + 2..].find('"').unwrap(); line[at + 2..at + 2 + q].to_string() } else { let q = line[at..].find('(').unwrap(); line[at + 1..at + q].to_string() };
                let idx = m.funcs.len();
                if line.starts_with("define ") {
                    let mut j = e + 1;
                    loop { let ee = text[j..].find('\n').map(|x| j + x).unwrap_or(b.len()); if text.as_bytes()[j] == b'}' { break; } j = ee + 1; }
                    m.funcs.push(FuncDecl { name: name.as_str().into(), body: Some((i, j)), parsed: RefCell::new(None) });
                    m.syms.insert(name, Sym::F(idx));
                    i = j + 1; continue;
                } else {
                    if !matches!(m.syms.get(&name), Some(Sym::F(_))) {
                        m.funcs.push(FuncDecl { name: name.as_str().into(), body: None, parsed: RefCell::new(None) });
                        m.syms.insert(name, Sym::F(idx));
                    }
                }
            } else if line.starts_with('%') {
                if let Some(q) = line.find(" = type ") { m.types.insert(line[1..q].trim_matches('"').to_string(), (i + q + 8, e)); }
            }
            i = e + 1;
        }
        // aliases resolve to their target symbol
        for gi in 0..m.globals.len() {
            if m.globals[gi].alias {
                let t = &text[m.globals[gi].text.0..m.globals[gi].text.1];
                if let Some(at) = t.find('@') { let n: String = t[at + 1..].chars().take_while(|c| is_word(*c as u8)).collect();
                    let s = match m.syms.get(&n) { Some(Sym::G(i)) => Sym::G(*i), Some(Sym::F(i)) => Sym::F(*i), None => continue };
                    m.syms.insert(m.globals[gi].name.clone(), s); }
            }
        }
        m
    }
    pub fn func(&self, id: usize) -> Option<Rc<Func>> {
        let d = &self.funcs[id];
        if let Some(f) = d.parsed.borrow().as_ref() { return Some(f.clone()); }
        let (a, b) = d.body?;
        let f = Rc::new(self.parse_func(id, &self.text[a..b]));
        *d.parsed.borrow_mut() = Some(f.clone());
        Some(f)
    }
    fn parse_func(&self, id: usize, text: &'static str) -> Func {
        let nl = text.find('\n').unwrap();
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut params = vec![]; let mut vararg = false;
        {
            let head = &text[..nl]; let mut p = P::new(self, head);
            p.i = head.find('@').unwrap() + 1; p.name(); p.expect(b'(');
            if !p.eat(b')') { loop {
                if p.peek() == b'.' { p.i += 3; vararg = true; if p.eat(b')') { break; } }
                p.ty(); p.skip_attrs(); if p.eat(b'%') { let n = p.name(); let k = regs.len() as u32; regs.insert(n, k); params.push(k); } else { let k = regs.len() as u32; regs.insert(format!("$anon{k}"), k); params.push(k); }
                if p.eat(b')') { break; } p.expect(b',');
            } }
        }
        // split into blocks
        let mut bnames: HashMap<String, u32> = HashMap::new(); let mut btexts: Vec<(String, Vec<&'static str>)> = vec![];
        let mut pos = nl + 1; let mut lines: Vec<&'static str> = vec![];
        while pos < text.len() {
            let e = text[pos..].find('\n').map(|x| pos + x).unwrap_or(text.len());
            let l = &text[pos..e];
            if l.trim_end().ends_with('[') && l.contains(" switch ") { // multi-line switch
                let q = text[pos..].find("\n  ]").map(|x| pos + x + 4).unwrap();
                let ee = text[q..].find('\n').map(|x| q + x).unwrap_or(text.len());
                lines.push(&text[pos..ee]); pos = ee + 1; continue;
            }
            lines.push(l); pos = e + 1;
        }
        for l in lines {
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with('#') { continue; }
            if !l.starts_with(' ') {
                let q = if l.starts_with('"') { l[1..].find('"').unwrap() + 2 } else { l.find(':').unwrap() };
                let n = l[..q].trim_matches('"').to_string();
                bnames.insert(n.clone(), btexts.len() as u32); btexts.push((n, vec![])); continue;
            }
            if btexts.is_empty() { let n = format!("{}", params.len()); bnames.insert(n.clone(), 0); btexts.push((n, vec![])); }
            btexts.last_mut().unwrap().1.push(l);
        }
        let mut fp = FP { regs, bnames };
        let mut blocks = vec![];
        for (name, ls) in btexts {
            let mut b = Block { phis: vec![], ins: vec![], name };
            for l in ls { fp.line(self, l, &mut b); }
            blocks.push(b);
        }
        Func { name: self.funcs[id].name.clone(), id, params, nregs: fp.regs.len() as u32, blocks, vararg }
    }
}

struct FP { regs: HashMap<String, u32>, bnames: HashMap<String, u32> }
impl FP {
    fn reg(&mut self, n: String) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n).or_insert(k) }
    fn op(&mut self, p: &mut P, ty: &Ty) -> Opnd { if p.peek() == b'%' { p.i += 1; let n = p.name(); Opnd::R(self.reg(n)) } else { Opnd::K(p.konst(ty)) } }
    fn label(&mut self, p: &mut P) -> u32 { p.word(); p.ws(); p.expect(b'%'); let n = p.name(); match self.bnames.get(&n) { Some(b) => *b, None => p.fail(&format!("label {n}")) } }
    fn blk(&mut self, p: &mut P) -> u32 { p.expect(b'%'); let n = p.name(); match self.bnames.get(&n) { Some(b) => *b, None => p.fail(&format!("block {n}")) } }
    fn line(&mut self, m: &Module, l: &'static str, b: &mut Block) {
        let mut p = P::new(m, l);
        let mut d: Option<u32> = None;
        if p.peek() == b'%' { p.i += 1; let n = p.name(); d = Some(self.reg(n)); p.expect(b'='); }
        let mut w = p.word();
        while matches!(w, "tail" | "musttail" | "notail") { w = p.word(); }
        let flags = |p: &mut P| { while matches!(p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "inbounds" | "nusw" | "volatile" | "weak" | "atomic") { p.word(); } };
        let ins = match w {
            "phi" => {
                flags(&mut p); let ty = p.ty(); let mut inc = vec![];
                loop { p.expect(b'['); let v = self.op(&mut p, &ty); p.expect(b','); let bl = self.blk(&mut p); p.expect(b']'); inc.push((bl, v)); if !p.eat(b',') { break; } if p.peek() != b'[' { break; } }
                b.phis.push(Phi { d: d.unwrap(), inc }); return;
            }
            "alloca" => { p.eatw("inalloca"); let ty = p.ty(); let mut n = Opnd::K(Val::I(1));
                if p.eat(b',') { if p.peek_word() != "align" && p.peek() != b'!' { let t = p.ty(); n = self.op(&mut p, &t); } }
                Ins::Alloca { d: d.unwrap(), size: ty.size(), n } }
            "load" => { flags(&mut p); let ty = p.ty(); p.expect(b','); let pt = p.ty(); let q = self.op(&mut p, &pt); Ins::Load { d: d.unwrap(), ty, p: q } }
            "store" => { flags(&mut p); let ty = p.ty(); let v = self.op(&mut p, &ty); p.expect(b','); let pt = p.ty(); let q = self.op(&mut p, &pt); Ins::Store { ty, v, p: q } }
            "getelementptr" => {
                loop { flags(&mut p); if p.peek_word() == "inrange" { p.word(); p.ws(); p.skip_group(); } else { break; } }
                let st = p.ty(); p.expect(b','); let bt = p.ty(); let base = self.op(&mut p, &bt);
                let mut off = 0u64; let mut idx = vec![]; let mut cur = st; let mut first = true;
                while p.eat(b',') { if p.peek() == b'!' { break; } let t = p.ty(); let o = self.op(&mut p, &t);
                    match o {
                        Opnd::K(v) => { let k = crate::expr::sext(cint(&v), t.width()) as i64; if first { off = off.wrapping_add((k as u64).wrapping_mul(cur.size())); } else { let (x, n) = step(&cur, k); off = off.wrapping_add(x); cur = n; } }
                        r => { let sc = if first { cur.size() } else { let (_, n) = step(&cur, 0); let s = n.size(); cur = n; s }; idx.push((r, sc, t.width())); }
                    }
                    first = false; }
                Ins::Gep { d: d.unwrap(), base, off, idx }
            }
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                flags(&mut p); let ty = p.ty();
                if matches!(ty, Ty::Vect(..)) { b.ins.push(Ins::Unsupported(l.to_string())); return; }
                let a = self.op(&mut p, &ty); p.expect(b','); let c = self.op(&mut p, &ty);
                let op = match w { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "urem" => Bin::URem, "sdiv" => Bin::SDiv, "srem" => Bin::SRem, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, "fadd" => Bin::FAdd, "fsub" => Bin::FSub, "fmul" => Bin::FMul, "fdiv" => Bin::FDiv, _ => Bin::FRem };
                Ins::Bin { d: d.unwrap(), op, w: ty.width(), a, b: c, f32: ty == Ty::F32 }
            }
            "fneg" => { flags(&mut p); let ty = p.ty(); let a = self.op(&mut p, &ty); Ins::Fneg { d: d.unwrap(), a } }
            "icmp" => { flags(&mut p); let pw = p.word(); let ty = p.ty();
                if matches!(ty, Ty::Vect(..)) { b.ins.push(Ins::Unsupported(l.to_string())); return; }
                let a = self.op(&mut p, &ty); p.expect(b','); let c = self.op(&mut p, &ty);
                let pr = match pw { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => p.fail("pred") };
                Ins::Icmp { d: d.unwrap(), p: pr, w: ty.width(), a, b: c } }
            "fcmp" => { flags(&mut p); let pw = p.word().to_string(); let ty = p.ty(); let a = self.op(&mut p, &ty); p.expect(b','); let c = self.op(&mut p, &ty); Ins::Fcmp { d: d.unwrap(), p: pw, a, b: c } }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fptrunc" | "fpext" | "ptrtoaddr" => {
                flags(&mut p); let from = p.ty(); let a = self.op(&mut p, &from); p.word(); let to = p.ty();
                let k = match w { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "fptrunc" => Cast::FpTrunc, "fpext" => Cast::FpExt,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => if from.width() > to.width() { Cast::Trunc } else if from.width() < to.width() { Cast::ZExt } else { Cast::Bit }, _ => Cast::Bit };
                Ins::Cast { d: d.unwrap(), k, from, to, a }
            }
            "select" => { flags(&mut p); let ct = p.ty(); let c = self.op(&mut p, &ct); p.expect(b','); let ty = p.ty(); let a = self.op(&mut p, &ty); p.expect(b','); let t2 = p.ty(); let e = self.op(&mut p, &t2); Ins::Select { d: d.unwrap(), ty, c, a, b: e } }
            "freeze" => { let ty = p.ty(); let a = self.op(&mut p, &ty); Ins::Cast { d: d.unwrap(), k: Cast::Bit, from: ty.clone(), to: ty, a } }
            "br" => { if p.peek_word() == "label" { let t = self.label(&mut p); Ins::Br { t } } else { let ty = p.ty(); let c = self.op(&mut p, &ty); p.expect(b','); let t = self.label(&mut p); p.expect(b','); let f = self.label(&mut p); Ins::CondBr { c, t, f } } }
            "switch" => { let ty = p.ty(); let v = self.op(&mut p, &ty); p.expect(b','); let def = self.label(&mut p); p.expect(b'['); let mut cases = vec![];
                while !p.eat(b']') { let t = p.ty(); let k = cint(&p.konst(&t)); p.expect(b','); let lb = self.label(&mut p); cases.push((k, lb)); }
                Ins::Switch { w: ty.width(), v, def, cases: Rc::new(cases) } }
            "ret" => { let ty = p.ty(); if ty == Ty::Void { Ins::Ret { v: None } } else { Ins::Ret { v: Some(self.op(&mut p, &ty)) } } }
            "unreachable" => Ins::Unreachable,
            "fence" => Ins::Nop,
            "extractvalue" => { let ty = p.ty(); let a = self.op(&mut p, &ty); let mut idx = vec![]; while p.eat(b',') { if p.peek() == b'!' { break; } idx.push(p.word().parse().unwrap()); } Ins::Extract { d: d.unwrap(), a, idx } }
            "insertvalue" => { let ty = p.ty(); let a = self.op(&mut p, &ty); p.expect(b','); let t2 = p.ty(); let v = self.op(&mut p, &t2); let mut idx = vec![]; while p.eat(b',') { if p.peek() == b'!' { break; } idx.push(p.word().parse().unwrap()); } Ins::Insert { d: d.unwrap(), ty, a, v, idx } }
            "atomicrmw" => { flags(&mut p); let o = p.word(); let op = match o { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "umax" => Rmw::Umax, "umin" => Rmw::Umin, "max" => Rmw::Max, "min" => Rmw::Min, "nand" => Rmw::Nand, _ => p.fail("rmw") };
                let pt = p.ty(); let q = self.op(&mut p, &pt); p.expect(b','); let ty = p.ty(); let v = self.op(&mut p, &ty); Ins::Rmw { d: d.unwrap(), op, ty, p: q, v } }
            "cmpxchg" => { flags(&mut p); let pt = p.ty(); let q = self.op(&mut p, &pt); p.expect(b','); let ty = p.ty(); let c = self.op(&mut p, &ty); p.expect(b','); let t2 = p.ty(); let n = self.op(&mut p, &t2); Ins::CmpXchg { d: d.unwrap(), ty, p: q, c, n } }
            "call" => {
                flags(&mut p);
                // cc + return attributes
                let ret;
                loop { if let Some(t) = p.try_ty() { ret = t; break; }
                    let c = p.peek(); if c == b'"' { p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } p.i += 1; p.eat(b'='); continue; }
                    let pw = p.word(); if pw.is_empty() { p.fail("call"); } if pw == "align" || pw == "cc" { if p.peek() != b'(' { p.word(); } else { p.skip_group(); } } else if p.i < p.s.len() && p.s[p.i] == b'(' { p.skip_group(); } }
                if p.peek() == b'(' { p.skip_group(); }
                let f = if p.peek() == b'@' { p.i += 1; let n = p.name(); match m.syms.get(&n) { Some(Sym::F(i)) => Callee::Fn(*i), Some(Sym::G(i)) => Callee::Ptr(Opnd::K(Val::I((*i as u64 + 1) << OBJ_SHIFT))), None => p.fail(&format!("callee {n}")) } }
                    else if p.peek_word() == "asm" { p.word(); while p.peek() != b'"' { p.word(); } p.i += 1; let b0 = p.i; while p.s[p.i] != b'"' { p.i += 1; } let s = String::from_utf8_lossy(&p.s[b0..p.i]).to_string(); p.i += 1; p.expect(b','); p.expect(b'"'); while p.s[p.i] != b'"' { p.i += 1; } p.i += 1; Callee::Asm(Rc::new(s)) }
                    else { Callee::Ptr(self.op(&mut p, &Ty::Ptr)) };
                p.expect(b'('); let mut args = vec![];
                if !p.eat(b')') { loop {
                    let ty = p.ty();
                    if ty == Ty::Other { // metadata argument
                        let mut dpt = 0; loop { let c = p.s[p.i]; if c == b'(' { dpt += 1; } if c == b')' { if dpt == 0 { break; } dpt -= 1; } if c == b',' && dpt == 0 { break; } p.i += 1; }
                        args.push((ty, Opnd::K(Val::I(0))));
                    } else { p.skip_attrs(); let o = self.op(&mut p, &ty); args.push((ty, o)); }
                    if p.eat(b')') { break; } p.expect(b','); } }
                if let Callee::Fn(i) = &f { let n = &*m.funcs[*i].name;
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.assume") || n.starts_with("llvm.invariant") { return; } }
                Ins::Call { d, f, args, ret }
            }
            _ => Ins::Unsupported(l.to_string()),
        };
        b.ins.push(ins);
    }
}
