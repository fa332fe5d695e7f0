//! Path-forking symbolic interpreter over the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj { pub size: u64, pub data: Vec<u8>, pub sym: BTreeMap<u64, E>, pub ro: bool }
impl Obj {
    pub fn zeroed(size: u64) -> Obj { Obj { size, data: if size <= 65536 { vec![0; size as usize] } else { vec![] }, sym: BTreeMap::new(), ro: false } }
    #[inline] pub fn byte(&self, o: u64) -> u8 { self.data.get(o as usize).copied().unwrap_or(0) }
    pub fn has_sym(&self, o: u64, n: u64) -> bool { !self.sym.is_empty() && self.sym.range(o..o + n).next().is_some() }
    pub fn ensure(&mut self, e: u64) { if (self.data.len() as u64) < e { self.data.resize(e as usize, 0); } }
    pub fn clear_sym(&mut self, o: u64, n: u64) { if !self.sym.is_empty() { let ks: Vec<u64> = self.sym.range(o..o + n).map(|x| *x.0).collect(); for k in ks { self.sym.remove(&k); } } }
    pub fn copy_in(&mut self, o: u64, src: &Obj, so: u64, n: u64) {
        if n == 0 { return; }
        self.ensure(o + n);
        let have = (src.data.len() as u64).saturating_sub(so).min(n);
        self.data[o as usize..(o + have) as usize].copy_from_slice(&src.data[so as usize..(so + have) as usize]);
        for b in &mut self.data[(o + have) as usize..(o + n) as usize] { *b = 0; }
        self.clear_sym(o, n);
        if !src.sym.is_empty() { for (k, e) in src.sym.range(so..so + n) { self.sym.insert(o + (k - so), *e); } }
    }
}

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub regs: Vec<Val>, pub blk: u32, pub ip: u32, pub allocas: Vec<u32>, pub ret: Option<u32> }

#[derive(Clone)]
pub struct Fd { pub ino: usize, pub pos: Val, pub append: bool, pub write: bool }
#[derive(Clone)]
pub enum Node2 { File(usize), Dir }
#[derive(Clone, Default)]
pub struct Fs { pub inodes: Vec<Rc<Obj>>, pub names: BTreeMap<Vec<u8>, Node2>, pub fds: Vec<Option<Fd>>, pub log: Vec<String> }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub pc: Vec<E>,
    pub known: HashMap<E, u128>,
    pub fs: Fs,
    pub syms: Vec<(String, u32, u32)>,
    pub occ: HashMap<String, u32>,
    pub covers: Vec<String>,
    pub steps: u64,
    pub depth: u32,
    pub opts: BTreeMap<String, u64>,
    pub stops: u64,
}

pub enum Stop { Done, Infeasible, Panic(String), Mem(String), Unsupported(String), Deadlock(String), Bound(String), Unknown(String) }

pub struct Violation { pub kind: String, pub msg: String, pub model: Rc<Vec<u8>>, pub syms: Vec<(String, u32, u32)>, pub stack: Vec<String> }

pub type Ext = fn(&mut Eng, &mut State, &[Val], &[(Ty, Opnd)], &Ty) -> Result<Option<Val>, Stop>;

pub struct Eng {
    pub m: Rc<Module>,
    pub cx: Ctx,
    pub so: Solver,
    pub work: Vec<State>,
    pub ginit: Vec<Option<Rc<Obj>>>,
    pub exts: Vec<Option<Option<Ext>>>,
    pub panics: Vec<Option<bool>>,
    pub vars: HashMap<(String, u32, u32), u32>,
    pub var_expr: Vec<E>,
    pub viols: Vec<Violation>,
    pub viol_keys: HashSet<String>,
    pub covers: BTreeSet<String>,
    pub executed: HashSet<usize>,
    pub blocks_seen: HashSet<(usize, u32)>,
    pub paths: u64, pub infeasible: u64, pub bounded: BTreeMap<String, u64>, pub forks: u64, pub steps: u64, pub asserts: u64, pub asserts_trivial: u64, pub concretized: u64,
    pub problems: BTreeMap<String, u64>,
    pub t0: Instant,
    pub max_secs: f64,
    pub max_steps_path: u64,
    pub max_viol: usize,
    pub allow_panic: bool,
    pub trace: bool,
    pub fork_sites: HashMap<String, u64>,
    pub timed_out: bool,
    pub wits: Vec<(Vec<(String, u32, u32)>, Rc<Vec<u8>>)>,
    pub max_wits: usize,
    pub fix: HashMap<String, u8>,
    pub rng: u64,
}

pub fn sx(v: u64, w: u16) -> i64 { if w >= 64 { v as i64 } else { let s = 64 - w as u32; ((v << s) as i64) >> s } }
#[inline] fn m64(w: u16) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }

impl Eng {
    pub fn ex(&mut self, v: &Val, w: u16) -> E { match v { Val::I(x) => self.cx.konst(w, *x as u128), Val::W(x) => self.cx.konst(w, *x), Val::S(e) => *e, Val::F(f) => self.cx.konst(w, if w == 32 { (*f as f32).to_bits() as u128 } else { f.to_bits() as u128 }), Val::A(_) => panic!("aggregate as int") } }
    pub fn vl(&self, e: E) -> Val { match self.cx.cv(e) { Some(k) => mkint(k, self.cx.w(e)), None => Val::S(e) } }

    // ---------- memory -------------------------------------------------
    pub fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        let id = if let Some(i) = st.free.pop() { i } else { st.mem.push(None); (st.mem.len() - 1) as u32 };
        st.mem[id as usize] = Some(Rc::new(Obj::zeroed(size)));
        (id as u64) << OBJ_SHIFT
    }
    pub fn free_obj(&mut self, st: &mut State, id: u32) { st.mem[id as usize] = None; st.free.push(id); }
    fn ginit(&mut self, id: usize) -> Rc<Obj> {
        if let Some(o) = &self.ginit[id - 1] { return o.clone(); }
        let m = self.m.clone(); let g = &m.globals[id - 1];
        let mut p = P::new(&m, &m.text[g.text.0..g.text.1]);
        let ty = p.ty(); let mut o = Obj { size: ty.size(), data: vec![0; ty.size() as usize], sym: BTreeMap::new(), ro: g.is_const };
        if !g.external { let v = p.konst(&ty); fill(&mut o.data, 0, &ty, &v); }
        let r = Rc::new(o); self.ginit[id - 1] = Some(r.clone()); r
    }
    pub fn obj(&mut self, st: &mut State, id: u64) -> Result<Rc<Obj>, Stop> {
        let i = id as usize;
        if i == 0 || i >= st.mem.len() { return Err(Stop::Mem(format!("access to invalid object {i:#x}"))); }
        if let Some(o) = &st.mem[i] { return Ok(o.clone()); }
        if i <= self.ginit.len() { let o = self.ginit(i); st.mem[i] = Some(o.clone()); return Ok(o); }
        Err(Stop::Mem("use of freed object".into()))
    }
    pub fn obj_mut<'a>(&mut self, st: &'a mut State, id: u64) -> Result<&'a mut Obj, Stop> {
        self.obj(st, id)?;
        let o = st.mem[id as usize].as_mut().unwrap();
        if o.ro { return Err(Stop::Mem("write to constant".into())); }
        Ok(Rc::make_mut(o))
    }
    pub fn chk(&self, o: &Obj, off: u64, n: u64) -> Result<(), Stop> { if off.checked_add(n).map_or(true, |e| e > o.size) { Err(Stop::Mem(format!("out of bounds access offset {off} len {n} object size {}", o.size))) } else { Ok(()) } }

    fn load_off(&mut self, o: &Obj, off: u64, w: u16) -> Val {
        let n = ((w as u64) + 7) / 8;
        if !o.has_sym(off, n) {
            if n <= 8 { let mut b = [0u8; 8]; for i in 0..n { b[i as usize] = o.byte(off + i); } return Val::I(u64::from_le_bytes(b) & m64(w)); }
            let mut b = [0u8; 16]; for i in 0..n.min(16) { b[i as usize] = o.byte(off + i); }
            return Val::W(u128::from_le_bytes(b) & mask(w));
        }
        let mut e: Option<E> = None;
        for i in 0..n { let be = match o.sym.get(&(off + i)) { Some(x) => *x, None => self.cx.konst(8, o.byte(off + i) as u128) };
            e = Some(match e { None => be, Some(l) => self.cx.concat(be, l) }); }
        let mut e = e.unwrap();
        if self.cx.w(e) > w { e = self.cx.extract(e, w - 1, 0); }
        self.vl(e)
    }
    fn store_off(&mut self, o: &mut Obj, off: u64, w: u16, v: &Val) {
        let n = ((w as u64) + 7) / 8;
        o.ensure(off + n);
        match v {
            Val::S(e) => {
                let e = if (w as u64) < n * 8 { self.cx.zext(*e, (n * 8) as u16) } else { *e };
                for i in 0..n { let b = self.cx.extract(e, (i * 8 + 7) as u16, (i * 8) as u16);
                    if let Some(k) = self.cx.cv(b) { o.data[(off + i) as usize] = k as u8; o.sym.remove(&(off + i)); } else { o.sym.insert(off + i, b); } }
            }
            v => { let x = match v { Val::I(x) => *x as u128, Val::W(x) => *x, Val::F(f) => if w == 32 { (*f as f32).to_bits() as u128 } else { f.to_bits() as u128 }, _ => unreachable!() };
                for i in 0..n { o.data[(off + i) as usize] = (x >> (8 * i)) as u8; } o.clear_sym(off, n); }
        }
    }
    /// resolve a pointer value to (object id, offset value)
    fn resolve(&mut self, st: &mut State, p: &Val, n: u64) -> Result<(u64, Val), Stop> {
        match p {
            Val::I(a) => Ok((a >> OBJ_SHIFT, Val::I(a & ((1 << OBJ_SHIFT) - 1)))),
            Val::S(e) => {
                let e = *e;
                if let Some(k) = st.known.get(&e) { let a = *k as u64; return Ok((a >> OBJ_SHIFT, Val::I(a & ((1 << OBJ_SHIFT) - 1)))); }
                let (lo, hi) = self.cx.range(e);
                let mut id = (lo >> OBJ_SHIFT) as u64;
                if id as u128 != hi >> OBJ_SHIFT || id == 0 {
                    let v = self.model_value(st, e)?; id = (v as u64) >> OBJ_SHIFT;
                }
                let o = self.obj(st, id)?;
                if o.size < n { return Err(Stop::Mem("access larger than object".into())); }
                let base = self.cx.konst(64, (id as u128) << OBJ_SHIFT);
                let off = self.cx.sub(e, base);
                let lim = self.cx.konst(64, (o.size - n) as u128);
                let inb = self.cx.ule(off, lim);
                if !self.decide(st, inb)? {
                    // may be another object or a true out-of-bounds access
                    let v = self.model_value(st, e)?; let id2 = (v as u64) >> OBJ_SHIFT;
                    if id2 == id || id2 == 0 || id2 as usize >= st.mem.len() { return Err(Stop::Mem("symbolic pointer out of bounds".into())); }
                    let o2 = self.obj(st, id2)?;
                    let base2 = self.cx.konst(64, (id2 as u128) << OBJ_SHIFT); let off2 = self.cx.sub(e, base2);
                    if o2.size < n { return Err(Stop::Mem("access larger than object".into())); }
                    let lim2 = self.cx.konst(64, (o2.size - n) as u128); let inb2 = self.cx.ule(off2, lim2);
                    if !self.decide(st, inb2)? { return Err(Stop::Mem("symbolic pointer out of bounds".into())); }
                    return Ok((id2, Val::S(off2)));
                }
                Ok((id, self.vl(off)))
            }
            _ => Err(Stop::Mem("bad pointer value".into())),
        }
    }
    fn off_candidates(&mut self, o: &Obj, off: E, n: u64) -> (u64, u64, u32) {
        let (lo, hi) = self.cx.range(off); let tz = self.cx.kz(off).trailing_ones().min(6);
        let hi = (hi.min((o.size - n) as u128) as u64) >> tz; let lo = (lo as u64 + ((1 << tz) - 1)) >> tz;
        (lo, hi, tz)
    }
    pub fn load(&mut self, st: &mut State, ty: &Ty, p: &Val) -> Result<Val, Stop> {
        match ty {
            Ty::Struct(f, _) => { let mut v = vec![]; for (i, t) in f.iter().enumerate() { let q = self.padd(p, ty.layout(i).0); v.push(self.load(st, t, &q)?); } return Ok(Val::A(Rc::new(v))); }
            Ty::Arr(k, t) => { let mut v = vec![]; for i in 0..*k { let q = self.padd(p, i * t.size()); v.push(self.load(st, t, &q)?); } return Ok(Val::A(Rc::new(v))); }
            Ty::Vect(..) | Ty::Other | Ty::Void => return Err(Stop::Unsupported(format!("load {ty:?}"))),
            _ => {}
        }
        let w = ty.width(); let n = ((w as u64) + 7) / 8;
        let (id, off) = self.resolve(st, p, n)?;
        let o = self.obj(st, id)?;
        let r = match off {
            Val::I(off) => { self.chk(&o, off, n)?; self.load_off(&o, off, w) }
            Val::S(off) => {
                let (lo, hi, tz) = self.off_candidates(&o, off, n);
                let span = hi.saturating_sub(lo) + 1;
                if !o.has_sym(lo << tz, ((hi - lo) << tz) + n) && span <= 1 << 17 {
                    let mut t = Vec::with_capacity(hi as usize + 1);
                    for i in 0..=hi { let v = if i < lo { 0 } else { match self.load_off(&o, i << tz, w) { Val::I(x) => x as u128, Val::W(x) => x, _ => unreachable!() } }; t.push(v); }
                    // compress: index is off>>tz
                    let k = self.cx.konst(64, tz as u128); let idx = self.cx.lshr(off, k);
                    let e = self.cx.lut(t, idx, w); self.vl(e)
                } else if span <= 1024 {
                    let mut acc: Option<E> = None;
                    for i in (lo..=hi).rev() { let v = self.load_off(&o, i << tz, w); let ve = self.ex(&v, w);
                        acc = Some(match acc { None => ve, Some(a) => { let k = self.cx.konst(64, (i << tz) as u128); let c = self.cx.eq(off, k); self.cx.ite(c, ve, a) } }); }
                    let e = acc.unwrap(); self.vl(e)
                } else { let k = self.concretize(st, off, "load offset")?; self.chk(&o, k as u64, n)?; self.load_off(&o, k as u64, w) }
            }
            _ => unreachable!(),
        };
        Ok(match ty { Ty::F64 => match r { Val::I(x) => Val::F(f64::from_bits(x)), v => v }, Ty::F32 => match r { Val::I(x) => Val::F(f32::from_bits(x as u32) as f64), v => v }, _ => r })
    }
    pub fn padd(&mut self, p: &Val, k: u64) -> Val { if k == 0 { return p.clone(); } match p { Val::I(a) => Val::I(a.wrapping_add(k)), v => { let e = self.ex(v, 64); let kc = self.cx.konst(64, k as u128); let s = self.cx.add(e, kc); self.vl(s) } } }
    pub fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, p: &Val) -> Result<(), Stop> {
        match (ty, v) {
            (Ty::Struct(f, _), Val::A(vs)) => { for (i, t) in f.iter().enumerate() { let q = self.padd(p, ty.layout(i).0); self.store(st, t, &vs[i], &q)?; } return Ok(()); }
            (Ty::Arr(_, t), Val::A(vs)) => { for i in 0..vs.len() { let q = self.padd(p, i as u64 * t.size()); self.store(st, t, &vs[i], &q)?; } return Ok(()); }
            (Ty::Vect(..), _) => return Err(Stop::Unsupported(format!("store {ty:?}"))),
            _ => {}
        }
        let w = ty.width(); let n = ((w as u64) + 7) / 8;
        let (id, off) = self.resolve(st, p, n)?;
        match off {
            Val::I(off) => { let o = self.obj(st, id)?; self.chk(&o, off, n)?; drop(o);
                let v = v.clone(); let mut taken = st.mem[id as usize].take().unwrap();
                if taken.ro { st.mem[id as usize] = Some(taken); return Err(Stop::Mem("write to constant".into())); }
                self.store_off(Rc::make_mut(&mut taken), off, w, &v); st.mem[id as usize] = Some(taken); }
            Val::S(off) => {
                let o = self.obj(st, id)?;
                let (lo, hi, tz) = self.off_candidates(&o, off, n);
                if hi - lo + 1 > 600 { let k = self.concretize(st, off, "store offset")? as u64; let q = Val::I((id << OBJ_SHIFT) + k); return self.store(st, ty, v, &q); }
                let mut no = (*o).clone(); drop(o);
                if no.ro { return Err(Stop::Mem("write to constant".into())); }
                let ve = self.ex(v, w);
                for i in lo..=hi { let a = i << tz; let k = self.cx.konst(64, a as u128); let c = self.cx.eq(off, k); if c == 0 { continue; }
                    let old = self.load_off(&no, a, w); let oe = self.ex(&old, w); let nv = self.cx.ite(c, ve, oe); let nv = self.vl(nv); self.store_off(&mut no, a, w, &nv); }
                st.mem[id as usize] = Some(Rc::new(no));
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    pub fn caddr(&mut self, st: &mut State, p: &Val, what: &str) -> Result<u64, Stop> { match p { Val::I(a) => Ok(*a), Val::S(e) => Ok(self.concretize(st, *e, what)? as u64), _ => Err(Stop::Mem("bad pointer".into())) } }
    pub fn cnum(&mut self, st: &mut State, v: &Val, what: &str) -> Result<u64, Stop> { self.caddr(st, v, what) }
    pub fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Result<(), Stop> {
        if n == 0 { return Ok(()); }
        let so = self.obj(st, s >> OBJ_SHIFT)?; let soff = s & ((1 << OBJ_SHIFT) - 1); self.chk(&so, soff, n)?;
        let dobj = self.obj(st, d >> OBJ_SHIFT)?; let doff = d & ((1 << OBJ_SHIFT) - 1); self.chk(&dobj, doff, n)?; drop(dobj);
        self.obj_mut(st, d >> OBJ_SHIFT)?.copy_in(doff, &so, soff, n);
        Ok(())
    }
    pub fn bytes(&mut self, st: &mut State, p: u64, n: u64) -> Result<Vec<Val>, Stop> {
        if n == 0 { return Ok(vec![]); }
        let o = self.obj(st, p >> OBJ_SHIFT)?; let off = p & ((1 << OBJ_SHIFT) - 1); self.chk(&o, off, n)?;
        Ok((0..n).map(|i| match o.sym.get(&(off + i)) { Some(e) => Val::S(*e), None => Val::I(o.byte(off + i) as u64) }).collect())
    }
    /// concrete bytes (concretizing symbolic ones)
    pub fn cbytes(&mut self, st: &mut State, p: u64, n: u64, what: &str) -> Result<Vec<u8>, Stop> {
        let v = self.bytes(st, p, n)?; let mut r = vec![];
        for x in v { r.push(match x { Val::I(b) => b as u8, Val::S(e) => self.concretize(st, e, what)? as u8, _ => 0 }); }
        Ok(r)
    }
    pub fn cstr(&mut self, st: &mut State, p: u64) -> Result<Vec<u8>, Stop> {
        let mut r = vec![]; let mut q = p;
        loop { let b = self.cbytes(st, q, 1, "C string")?[0]; if b == 0 { return Ok(r); } r.push(b); q += 1; if r.len() > 4096 { return Err(Stop::Unsupported("long C string".into())); } }
    }
    pub fn put(&mut self, st: &mut State, p: u64, data: &[u8]) -> Result<(), Stop> {
        if data.is_empty() { return Ok(()); }
        let o = self.obj(st, p >> OBJ_SHIFT)?; let off = p & ((1 << OBJ_SHIFT) - 1); self.chk(&o, off, data.len() as u64)?; drop(o);
        let o = self.obj_mut(st, p >> OBJ_SHIFT)?; o.ensure(off + data.len() as u64); o.data[off as usize..off as usize + data.len()].copy_from_slice(data); o.clear_sym(off, data.len() as u64);
        Ok(())
    }
    // ---------- path conditions ---------------------------------------
    pub fn assume(&mut self, st: &mut State, c: E) {
        if c == 1 { return; }
        if st.known.insert(c, 1) == Some(1) { return; }
        let nc = self.cx.not(c); st.known.insert(nc, 0);
        let n = self.cx.n(c);
        if n.op == Op::And { st.pc.push(c); self.note(st, n.a); self.note(st, n.b); return; }
        self.note(st, c);
        st.pc.push(c);
    }
    fn note(&mut self, st: &mut State, c: E) {
        let n = self.cx.n(c);
        st.known.insert(c, 1); let nc = self.cx.not(c); st.known.insert(nc, 0);
        if n.op == Op::And && n.w == 1 { self.note(st, n.a); self.note(st, n.b); }
        if n.op == Op::Eq { if let Some(k) = self.cx.cv(n.b) { st.known.insert(n.a, k); } }
    }
    fn q(&mut self, st: &State, c: E) -> Result<bool, Stop> {
        if self.t0.elapsed().as_secs_f64() > self.max_secs { self.timed_out = true; return Err(Stop::Unknown("time limit in a query".into())); }
        match self.so.check(&mut self.cx, &st.pc, &[c]) { Res::Sat(_) => Ok(true), Res::Unsat => Ok(false), Res::Unknown => Err(Stop::Unknown("solver gave no answer on a branch".into())) }
    }
    pub fn decide(&mut self, st: &mut State, c: E) -> Result<bool, Stop> {
        if c == 1 { return Ok(true); } if c == 0 { return Ok(false); }
        if let Some(k) = st.known.get(&c) { return Ok(*k == 1); }
        let t = self.q(st, c)?;
        if !t { st.known.insert(c, 0); return Ok(false); }
        let nc = self.cx.not(c);
        let f = self.q(st, nc)?;
        if !f { st.known.insert(c, 1); return Ok(true); }
        self.forks += 1; self.site(st);
        let mut o = st.clone(); o.depth += 1; self.assume(&mut o, nc); self.work.push(o);
        st.depth += 1; self.assume(st, c);
        Ok(true)
    }
    fn site(&mut self, st: &State) { if self.trace { let f = st.frames.last().unwrap(); let k = format!("{}:{}#{}", f.f.name, f.f.blocks[f.blk as usize].name, f.ip); *self.fork_sites.entry(k).or_insert(0) += 1; } }
    fn model_value(&mut self, st: &State, e: E) -> Result<u128, Stop> {
        // a model of the constraints touching e
        let tt = self.cx.vars(e).clone(); let _ = tt;
        let cs = Solver::slice(&mut self.cx, &st.pc, &[e]);
        let m = match self.so.check_all(&mut self.cx, &cs, &[]) { Res::Sat(m) => m, Res::Unsat => return Err(Stop::Infeasible), Res::Unknown => return Err(Stop::Unknown("solver gave no answer".into())) };
        self.cx.eval_begin(); Ok(self.cx.eval(e, &m))
    }
    pub fn concretize(&mut self, st: &mut State, e: E, _what: &str) -> Result<u128, Stop> {
        if let Some(k) = self.cx.cv(e) { return Ok(k); }
        if let Some(k) = st.known.get(&e) { return Ok(*k); }
        let v = self.model_value(st, e)?;
        let kc = self.cx.konst(self.cx.w(e), v); let eq = self.cx.eq(e, kc); let ne = self.cx.not(eq);
        if st.known.get(&eq) != Some(&1) && self.q(st, ne)? {
            self.forks += 1; self.concretized += 1; self.site(st);
            let mut o = st.clone(); o.depth += 1; self.assume(&mut o, ne); self.work.push(o);
            st.depth += 1; self.assume(st, eq);
        }
        st.known.insert(e, v);
        Ok(v)
    }
    pub fn violation(&mut self, st: &State, kind: &str, msg: String, extra: &[E]) -> Result<(), Stop> {
        let key = format!("{kind}:{msg}");
        if self.viol_keys.contains(&key) { return Ok(()); }
        let m = match self.so.check_all(&mut self.cx, &st.pc, extra) { Res::Sat(m) => m, Res::Unsat => return Ok(()), Res::Unknown => return Err(Stop::Unknown("no model for a violation".into())) };
        self.viol_keys.insert(key);
        let stack = st.frames.iter().rev().map(|f| f.f.name.to_string()).collect();
        self.viols.push(Violation { kind: kind.into(), msg, model: m, syms: st.syms.clone(), stack });
        Ok(())
    }

    // ---------- interpreter -------------------------------------------
    #[inline] fn op(&self, st: &State, o: &Opnd) -> Val { match o { Opnd::R(r) => st.frames[st.frames.len() - 1].regs[*r as usize].clone(), Opnd::K(v) => v.clone() } }
    fn set(&self, st: &mut State, d: u32, v: Val) { let n = st.frames.len() - 1; st.frames[n].regs[d as usize] = v; }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap(); let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 { let ph = &b.phis[0]; let o = &ph.inc.iter().find(|x| x.0 == from).expect("phi").1; let v = match o { Opnd::R(r) => fr.regs[*r as usize].clone(), Opnd::K(v) => v.clone() }; fr.regs[ph.d as usize] = v; }
            else { let mut vs = Vec::with_capacity(b.phis.len());
                for ph in &b.phis { let o = &ph.inc.iter().find(|x| x.0 == from).expect("phi").1; vs.push(match o { Opnd::R(r) => fr.regs[*r as usize].clone(), Opnd::K(v) => v.clone() }); }
                for (ph, v) in b.phis.iter().zip(vs) { fr.regs[ph.d as usize] = v; } }
        }
        fr.blk = to; fr.ip = 0;
        self.blocks_seen.insert((f.id, to));
    }
    pub fn enter(&mut self, st: &mut State, f: Rc<Func>, args: Vec<Val>, ret: Option<u32>) -> Result<(), Stop> {
        if st.frames.len() > 2000 { return Err(Stop::Bound("call depth".into())); }
        self.executed.insert(f.id); self.blocks_seen.insert((f.id, 0));
        let mut regs = vec![Val::I(0); f.nregs as usize];
        for (p, a) in f.params.iter().zip(args) { regs[*p as usize] = a; }
        st.frames.push(Frame { f, regs, blk: 0, ip: 0, allocas: vec![], ret });
        Ok(())
    }
    pub fn bin(&mut self, op: Bin, w: u16, a: &Val, b: &Val) -> Result<Val, Stop> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y); let m = m64(w);
            let r = match op {
                Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y),
                Bin::UDiv => { if y == 0 { return Err(Stop::Panic("division by zero (UB)".into())); } x / y } Bin::URem => { if y == 0 { return Err(Stop::Panic("division by zero (UB)".into())); } x % y }
                Bin::SDiv => { if y == 0 { return Err(Stop::Panic("division by zero (UB)".into())); } sx(x, w).wrapping_div(sx(y, w)) as u64 } Bin::SRem => { if y == 0 { return Err(Stop::Panic("division by zero (UB)".into())); } sx(x, w).wrapping_rem(sx(y, w)) as u64 }
                Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
                Bin::Shl => if y >= w as u64 { 0 } else { x << y }, Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                Bin::AShr => (sx(x, w) >> y.min(63)) as u64,
                _ => return Err(Stop::Unsupported("float op on ints".into())),
            };
            return Ok(Val::I(r & m));
        }
        if let (Val::F(x), Val::F(y)) = (a, b) { return Ok(Val::F(match op { Bin::FAdd => x + y, Bin::FSub => x - y, Bin::FMul => x * y, Bin::FDiv => x / y, Bin::FRem => x % y, _ => return Err(Stop::Unsupported("int op on floats".into())) })); }
        if matches!(op, Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem) { return Err(Stop::Unsupported("symbolic floating point".into())); }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match op { Bin::Add => self.cx.add(x, y), Bin::Sub => self.cx.sub(x, y), Bin::Mul => self.cx.mul(x, y), Bin::UDiv => self.cx.udiv(x, y), Bin::URem => self.cx.urem(x, y), Bin::SDiv => self.cx.sdiv(x, y), Bin::SRem => self.cx.srem(x, y),
            Bin::And => self.cx.and(x, y), Bin::Or => self.cx.or(x, y), Bin::Xor => self.cx.xor(x, y), Bin::Shl => self.cx.shl(x, y), Bin::LShr => self.cx.lshr(x, y), Bin::AShr => self.cx.ashr(x, y), _ => unreachable!() };
        Ok(self.vl(e))
    }
    pub fn icmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (sa, sb) = (sx(*x, w), sx(*y, w));
            return Val::I(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => sa < sb, Pred::Sle => sa <= sb, Pred::Sgt => sa > sb, Pred::Sge => sa >= sb } as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match p { Pred::Eq => self.cx.eq(x, y), Pred::Ne => self.cx.ne(x, y), Pred::Ult => self.cx.ult(x, y), Pred::Ule => self.cx.ule(x, y), Pred::Ugt => self.cx.ult(y, x), Pred::Uge => self.cx.ule(y, x), Pred::Slt => self.cx.slt(x, y), Pred::Sle => self.cx.sle(x, y), Pred::Sgt => self.cx.slt(y, x), Pred::Sge => self.cx.sle(y, x) };
        self.vl(e)
    }
    pub fn cond(&mut self, st: &mut State, v: &Val) -> Result<bool, Stop> { match v { Val::I(x) => Ok(*x & 1 == 1), Val::S(e) => self.decide(st, *e), _ => Err(Stop::Unsupported("condition".into())) } }

    fn step(&mut self, st: &mut State) -> Result<(), Stop> {
        let fi = st.frames.len() - 1;
        let f = st.frames[fi].f.clone();
        let (blk, ip) = (st.frames[fi].blk, st.frames[fi].ip);
        let ins = &f.blocks[blk as usize].ins[ip as usize];
        st.steps += 1; self.steps += 1;
        match ins {
            Ins::Load { d, ty, p } => { let pv = self.op(st, p); let v = self.load(st, ty, &pv)?; self.set(st, *d, v); }
            Ins::Store { ty, v, p } => { let (vv, pv) = (self.op(st, v), self.op(st, p)); self.store(st, ty, &vv, &pv)?; }
            Ins::Gep { d, base, off, idx } => {
                let b = self.op(st, base);
                let mut conc = matches!(b, Val::I(_)); let mut vals: Vec<(Val, u64, u16)> = vec![];
                for (o, s, w) in idx { let v = self.op(st, o); if !matches!(v, Val::I(_)) { conc = false; } vals.push((v, *s, *w)); }
                let r = if conc { let mut a = if let Val::I(a) = b { a } else { unreachable!() }; a = a.wrapping_add(*off);
                    for (v, s, w) in &vals { if let Val::I(x) = v { a = a.wrapping_add((sx(*x, *w) as u64).wrapping_mul(*s)); } } Val::I(a) }
                else { let mut e = self.ex(&b, 64); let k = self.cx.konst(64, *off as u128); e = self.cx.add(e, k);
                    for (v, s, w) in &vals { let mut x = self.ex(v, *w); if *w < 64 { x = self.cx.sext(x, 64); } let sc = self.cx.konst(64, *s as u128); let t = self.cx.mul(x, sc); e = self.cx.add(e, t); } self.vl(e) };
                self.set(st, *d, r);
            }
            Ins::Bin { d, op, w, a, b, f32 } => { let (x, y) = (self.op(st, a), self.op(st, b));
                if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) { if let Val::S(ye) = y { let z = self.cx.konst(*w, 0); let ez = self.cx.eq(ye, z); if self.decide(st, ez)? { return Err(Stop::Panic("division by zero (UB)".into())); } } }
                let mut r = self.bin(*op, *w, &x, &y)?; if *f32 { if let Val::F(v) = r { r = Val::F(v as f32 as f64); } } self.set(st, *d, r); }
            Ins::Icmp { d, p, w, a, b } => { let (x, y) = (self.op(st, a), self.op(st, b)); let r = self.icmp(*p, *w, &x, &y); self.set(st, *d, r); }
            Ins::Cast { d, k, from, to, a } => {
                let v = self.op(st, a);
                let r = match k {
                    Cast::Bit => match (from, to, &v) { (Ty::F64, Ty::Int(_), Val::F(f)) => Val::I(f.to_bits()), (Ty::F32, Ty::Int(_), Val::F(f)) => Val::I((*f as f32).to_bits() as u64), (Ty::Int(_), Ty::F64, Val::I(x)) => Val::F(f64::from_bits(*x)), (Ty::Int(_), Ty::F32, Val::I(x)) => Val::F(f32::from_bits(*x as u32) as f64), _ => v },
                    Cast::Trunc => match v { Val::I(x) => Val::I(x & m64(to.width())), Val::W(x) => mkint(x, to.width()), Val::S(e) => { let r = self.cx.extract(e, to.width() - 1, 0); self.vl(r) } _ => return Err(Stop::Unsupported("trunc".into())) },
                    Cast::ZExt => match v { Val::I(x) => if to.width() > 64 { Val::W(x as u128) } else { Val::I(x) }, Val::W(x) => Val::W(x), Val::S(e) => { let r = self.cx.zext(e, to.width()); self.vl(r) } _ => return Err(Stop::Unsupported("zext".into())) },
                    Cast::SExt => match v { Val::I(x) => { let s = sx(x, from.width()); if to.width() > 64 { Val::W(s as i128 as u128 & mask(to.width())) } else { Val::I(s as u64 & m64(to.width())) } } Val::W(x) => Val::W(sext(x, from.width()) as u128 & mask(to.width())), Val::S(e) => { let r = self.cx.sext(e, to.width()); self.vl(r) } _ => return Err(Stop::Unsupported("sext".into())) },
                    Cast::UiToFp | Cast::SiToFp => { let x = match v { Val::I(x) => x, Val::S(e) => self.concretize(st, e, "int to float")? as u64, _ => return Err(Stop::Unsupported("tofp".into())) }; let f = if *k == Cast::UiToFp { x as f64 } else { sx(x, from.width()) as f64 }; Val::F(if *to == Ty::F32 { if *k == Cast::UiToFp { x as f32 as f64 } else { sx(x, from.width()) as f32 as f64 } } else { f }) }
                    Cast::FpToUi => match v { Val::F(f) => Val::I(f as u64 & m64(to.width())), _ => return Err(Stop::Unsupported("fptoui".into())) },
                    Cast::FpToSi => match v { Val::F(f) => Val::I(f as i64 as u64 & m64(to.width())), _ => return Err(Stop::Unsupported("fptosi".into())) },
                    Cast::FpTrunc => match v { Val::F(f) => Val::F(f as f32 as f64), _ => return Err(Stop::Unsupported("fptrunc".into())) },
                    Cast::FpExt => v,
                };
                self.set(st, *d, r);
            }
            Ins::Select { d, ty, c, a, b } => {
                let cv = self.op(st, c);
                let r = match cv {
                    Val::I(x) => if x & 1 == 1 { self.op(st, a) } else { self.op(st, b) },
                    Val::S(e) => { let (x, y) = (self.op(st, a), self.op(st, b));
                        match ty { Ty::Int(w) => { let (xe, ye) = (self.ex(&x, *w), self.ex(&y, *w)); let r = self.cx.ite(e, xe, ye); self.vl(r) }
                            _ => if self.decide(st, e)? { x } else { y } } }
                    _ => return Err(Stop::Unsupported("vector select".into())),
                };
                self.set(st, *d, r);
            }
            Ins::Br { t } => { self.jump(st, *t); return Ok(()); }
            Ins::CondBr { c, t, f: fb } => { let cv = self.op(st, c); let to = if self.cond(st, &cv)? { *t } else { *fb }; self.jump(st, to); return Ok(()); }
            Ins::Switch { w, v, def, cases } => {
                let x = self.op(st, v);
                let mut to = *def;
                match x {
                    Val::I(k) => { for (c, b) in cases.iter() { if *c == k as u128 { to = *b; break; } } }
                    Val::W(k) => { for (c, b) in cases.iter() { if *c == k { to = *b; break; } } }
                    Val::S(e) => {
                        if let Some(k) = st.known.get(&e).copied() { for (c, b) in cases.iter() { if *c == k { to = *b; break; } } }
                        else {
                            // group the cases by destination: one fork per successor block
                            let mut groups: Vec<(u32, E)> = vec![];
                            for (c, b) in cases.iter() { let kc = self.cx.konst(*w, *c); let q = self.cx.eq(e, kc); if q == 0 { continue; }
                                if let Some(g) = groups.iter_mut().find(|g| g.0 == *b) { g.1 = self.cx.or(g.1, q); } else { groups.push((*b, q)); } }
                            for (b, q) in groups { if b == *def { continue; } if self.decide(st, q)? { to = b; break; } }
                        }
                    }
                    _ => return Err(Stop::Unsupported("switch".into())),
                }
                self.jump(st, to); return Ok(());
            }
            Ins::Ret { v } => {
                let rv = v.as_ref().map(|o| self.op(st, o));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas { self.free_obj(st, a); }
                if st.frames.is_empty() { return Err(Stop::Done); }
                if let (Some(d), Some(v)) = (fr.ret, rv) { self.set(st, d, v); }
                st.frames.last_mut().unwrap().ip += 1;
                return Ok(());
            }
            Ins::Alloca { d, size, n } => { let nv = self.op(st, n); let k = self.cnum(st, &nv, "alloca")?; let a = self.alloc(st, size * k); st.frames[fi].allocas.push((a >> OBJ_SHIFT) as u32); self.set(st, *d, Val::I(a)); }
            Ins::Extract { d, a, idx } => { let mut v = self.op(st, a); for i in idx { v = match &v { Val::A(x) => x[*i as usize].clone(), _ => return Err(Stop::Unsupported("extractvalue".into())) }; } self.set(st, *d, v); }
            Ins::Insert { d, ty, a, v, idx } => { let av = match a { Opnd::K(Val::A(x)) => Val::A(x.clone()), o => self.op(st, o) }; let av = if let Val::A(_) = av { av } else { zero(ty) }; let nv = self.op(st, v); let r = insert(&av, idx, nv); self.set(st, *d, r); }
            Ins::Rmw { d, op, ty, p, v } => {
                let (pv, vv) = (self.op(st, p), self.op(st, v)); let old = self.load(st, ty, &pv)?; let w = ty.width();
                let nv = match op { Rmw::Xchg => vv, Rmw::Add => self.bin(Bin::Add, w, &old, &vv)?, Rmw::Sub => self.bin(Bin::Sub, w, &old, &vv)?, Rmw::And => self.bin(Bin::And, w, &old, &vv)?, Rmw::Or => self.bin(Bin::Or, w, &old, &vv)?, Rmw::Xor => self.bin(Bin::Xor, w, &old, &vv)?,
                    Rmw::Umax | Rmw::Umin | Rmw::Max | Rmw::Min => { let pr = match op { Rmw::Umax => Pred::Ugt, Rmw::Umin => Pred::Ult, Rmw::Max => Pred::Sgt, _ => Pred::Slt }; let c = self.icmp(pr, w, &old, &vv); if self.cond(st, &c)? { old.clone() } else { vv } }
                    Rmw::Nand => return Err(Stop::Unsupported("nand".into())) };
                self.store(st, ty, &nv, &pv)?; self.set(st, *d, old);
            }
            Ins::CmpXchg { d, ty, p, c, n } => {
                let (pv, cv, nv) = (self.op(st, p), self.op(st, c), self.op(st, n)); let old = self.load(st, ty, &pv)?;
                let e = self.icmp(Pred::Eq, ty.width(), &old, &cv); let ok = self.cond(st, &e)?;
                if ok { self.store(st, ty, &nv, &pv)?; }
                self.set(st, *d, Val::A(Rc::new(vec![old, Val::I(ok as u64)])));
            }
            Ins::Call { d, f: cal, args, ret } => {
                let target = match cal {
                    Callee::Fn(i) => *i,
                    Callee::Ptr(o) => { let v = self.op(st, o); let a = self.caddr(st, &v, "function pointer")?; if a < FUNC_BASE || (a - FUNC_BASE) % 16 != 0 || ((a - FUNC_BASE) / 16) as usize >= self.m.funcs.len() { return Err(Stop::Mem("call through a bad function pointer".into())); } ((a - FUNC_BASE) / 16) as usize }
                    Callee::Asm(s) => {
                        let vals: Vec<Val> = args.iter().map(|(_, o)| self.op(st, o)).collect();
                        let r = if s.contains("ecall") { crate::libc::ecall(self, st, &vals)? } else { Val::I(0) };
                        if let Some(d) = d { self.set(st, *d, r); }
                        st.frames[fi].ip += 1; return Ok(());
                    }
                };
                let vals: Vec<Val> = args.iter().map(|(_, o)| self.op(st, o)).collect();
                let m = self.m.clone();
                // modelled functions take precedence over bodies
                if self.exts[target].is_none() { let e = crate::libc::lookup(&m.funcs[target].name, m.funcs[target].body.is_some()); self.exts[target] = Some(e); }
                if let Some(Some(x)) = self.exts[target] {
                    let r = x(self, st, &vals, args, ret)?;
                    if st.frames.len() == fi + 1 { if let (Some(d), Some(r)) = (d, r) { self.set(st, *d, r); } st.frames[fi].ip += 1; }
                    return Ok(());
                }
                if self.panics[target].is_none() { self.panics[target] = Some(crate::libc::is_panic(&m.funcs[target].name)); }
                if self.panics[target] == Some(true) { let loc = self.panic_loc(st, &vals); return Err(Stop::Panic(format!("{} at {}", short(&m.funcs[target].name), loc))); }
                match m.func(target) {
                    Some(fun) => { self.enter(st, fun, vals, *d)?; return Ok(()); }
                    None => return Err(Stop::Unsupported(format!("external function {}", m.funcs[target].name))),
                }
            }
            Ins::Fcmp { d, p, a, b } => { let (x, y) = (self.op(st, a), self.op(st, b)); if let (Val::F(x), Val::F(y)) = (x, y) { let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() { "oeq" => x == y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "one" => !un && x != y, "ord" => !un, "uno" => un, "ueq" => un || x == y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "une" => un || x != y, _ => false }; self.set(st, *d, Val::I(r as u64)); } else { return Err(Stop::Unsupported("symbolic fcmp".into())); } }
            Ins::Fneg { d, a } => { if let Val::F(x) = self.op(st, a) { self.set(st, *d, Val::F(-x)); } else { return Err(Stop::Unsupported("symbolic fneg".into())); } }
            Ins::Nop => {}
            Ins::Unreachable => return Err(Stop::Panic("reached unreachable".into())),
            Ins::Unsupported(s) => return Err(Stop::Unsupported(s.trim().to_string())),
        }
        st.frames[fi].ip += 1;
        Ok(())
    }
    fn panic_loc(&mut self, st: &mut State, vals: &[Val]) -> String {
        // &core::panic::Location { file: (ptr,len), line: u32, col: u32 } is the last pointer argument
        for v in vals.iter().rev() { if let Val::I(a) = v { if *a >> OBJ_SHIFT == 0 { continue; }
            if let Ok(o) = self.obj(st, a >> OBJ_SHIFT) { let off = a & ((1 << OBJ_SHIFT) - 1);
                if o.ro && o.size >= off + 24 { let fp = self.load_off(&o, off, 64); let fl = self.load_off(&o, off + 8, 64); let ln = self.load_off(&o, off + 16, 32);
                    if let (Val::I(fp), Val::I(fl), Val::I(ln)) = (fp, fl, ln) { if fl < 400 && fp >> OBJ_SHIFT != 0 { if let Ok(b) = self.cbytes(st, fp, fl, "loc") { if let Ok(s) = String::from_utf8(b) { if s.ends_with(".rs") { return format!("{s}:{ln}"); } } } } } } } } }
        // otherwise the innermost frame
        st.frames.last().map(|f| short(&f.f.name)).unwrap_or_default()
    }
    pub fn run(&mut self, entry: &str) {
        let m = self.m.clone();
        let id = match m.syms.get(entry) { Some(Sym::F(i)) => *i, _ => { self.problems.insert(format!("entry {entry} not found"), 1); return; } };
        let mut st = State { frames: vec![], mem: vec![None; self.m.globals.len() + 1], free: vec![], pc: vec![], known: HashMap::new(), fs: Fs::default(), syms: vec![], occ: HashMap::new(), covers: vec![], steps: 0, depth: 0, opts: BTreeMap::new(), stops: 0 };
        for d in ["/", "/sx", "/tmp"] { st.fs.names.insert(d.as_bytes().to_vec(), Node2::Dir); }
        st.fs.fds = vec![None, None, None];
        let f = m.func(id).unwrap();
        let _ = self.enter(&mut st, f, vec![], None);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            loop {
                if st.steps & 0xfff == 0 && self.t0.elapsed().as_secs_f64() > self.max_secs { self.timed_out = true; }
                if self.timed_out { return; }
                if st.steps > self.max_steps_path { *self.problems.entry("path step limit".into()).or_insert(0) += 1; break; }
                match self.step(&mut st) {
                    Ok(()) => {}
                    Err(Stop::Done) => { self.paths += 1; for c in &st.covers { self.covers.insert(c.clone()); } self.witness(&st); break; }
                    Err(Stop::Infeasible) => { self.infeasible += 1; break; }
                    Err(Stop::Bound(b)) => { *self.bounded.entry(b).or_insert(0) += 1; break; }
                    Err(Stop::Unknown(b)) => { *self.problems.entry(b).or_insert(0) += 1; break; }
                    Err(Stop::Unsupported(b)) => { let w = self.whereami(&st); *self.problems.entry(format!("unsupported: {b} [{w}]")).or_insert(0) += 1; break; }
                    Err(Stop::Panic(b)) => { self.paths += 1; if let Err(Stop::Unknown(u)) = self.violation(&st, "panic", b, &[]) { *self.problems.entry(u).or_insert(0) += 1; } break; }
                    Err(Stop::Mem(b)) => { self.paths += 1; let w = self.whereami(&st); if let Err(Stop::Unknown(u)) = self.violation(&st, "memory", format!("{b} [{w}]"), &[]) { *self.problems.entry(u).or_insert(0) += 1; } break; }
                    Err(Stop::Deadlock(b)) => { self.paths += 1; if let Err(Stop::Unknown(u)) = self.violation(&st, "deadlock", b, &[]) { *self.problems.entry(u).or_insert(0) += 1; } break; }
                }
            }
            if self.viols.len() >= self.max_viol { return; }
        }
    }
    /// keeps a sample of completed paths as concrete inputs, to be re-run natively
    fn witness(&mut self, st: &State) {
        if self.max_wits == 0 || !self.viols.is_empty() { return; }
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let slot = if self.wits.len() < self.max_wits { self.wits.len() } else { (self.rng >> 33) as usize % self.paths as usize };
        if slot >= self.max_wits { return; }
        if let Res::Sat(m) = self.so.check_all(&mut self.cx, &st.pc, &[]) {
            // unconstrained inputs get arbitrary values
            let mut used: HashSet<u32> = HashSet::new(); for &c in &st.pc { used.extend(self.cx.vars(c).iter()); }
            let mut m: Vec<u8> = (*m).clone(); m.resize(self.cx.nvars as usize, 0);
            for (_, f, l) in &st.syms { for v in *f..*f + *l { if !used.contains(&v) { self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); m[v as usize] = (self.rng >> 40) as u8; } } }
            let w = (st.syms.clone(), Rc::new(m)); if slot < self.wits.len() { self.wits[slot] = w; } else { self.wits.push(w); } }
    }
    pub fn whereami(&self, st: &State) -> String { st.frames.iter().rev().take(4).map(|f| short(&f.f.name)).collect::<Vec<_>>().join(" < ") }
}
pub fn short(n: &str) -> String { demangle(n) }
/// a readable approximation of a v0-mangled Rust path: its identifiers, in order
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes(); let mut i = 2; let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut l = 0usize; let j0 = i; while i < b.len() && b[i].is_ascii_digit() { l = l * 10 + (b[i] - b'0') as usize; i += 1; }
            if i < b.len() && b[i] == b'_' { i += 1; }
            if i + l <= b.len() && l > 0 && b[i..i + l].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') { out.push(n[i..i + l].to_string()); i += l; } else { i = j0 + 1; }
        } else if b[i] == b's' || b[i] == b'B' { // disambiguator / backref: skip base-62 up to '_'
            let j = i + 1; let mut k = j; while k < b.len() && b[k].is_ascii_alphanumeric() { k += 1; }
            if k < b.len() && b[k] == b'_' && k - j <= 12 { i = k + 1; } else { i += 1; }
        } else { i += 1; }
    }
    out.join("::")
}
fn insert(a: &Val, idx: &[u32], v: Val) -> Val { if idx.is_empty() { return v; } if let Val::A(x) = a { let mut y = (**x).clone(); y[idx[0] as usize] = insert(&x[idx[0] as usize], &idx[1..], v); Val::A(Rc::new(y)) } else { panic!("insertvalue") } }
pub fn fill(d: &mut [u8], off: usize, ty: &Ty, v: &Val) {
    match (ty, v) {
        (Ty::Arr(_, t), Val::A(vs)) | (Ty::Vect(_, t), Val::A(vs)) => { let s = t.size() as usize; if let Ty::Int(8) = **t { for (i, x) in vs.iter().enumerate() { if let Val::I(b) = x { d[off + i] = *b as u8; } } } else { for (i, x) in vs.iter().enumerate() { fill(d, off + i * s, t, x); } } }
        (Ty::Struct(f, _), Val::A(vs)) => { for (i, x) in vs.iter().enumerate() { fill(d, off + ty.layout(i).0 as usize, &f[i], x); } }
        (t, Val::I(x)) => { let n = ((t.width() as usize) + 7) / 8; for i in 0..n { d[off + i] = (x >> (8 * i)) as u8; } }
        (t, Val::W(x)) => { let n = ((t.width() as usize) + 7) / 8; for i in 0..n { d[off + i] = (x >> (8 * i)) as u8; } }
        (Ty::F64, Val::F(f)) => d[off..off + 8].copy_from_slice(&f.to_le_bytes()),
        (Ty::F32, Val::F(f)) => d[off..off + 4].copy_from_slice(&(*f as f32).to_le_bytes()),
        _ => {}
    }
}
