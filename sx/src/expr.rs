//! Hash-consed bit-vector expression DAG with a word-level simplifier,
//! an evaluator and an SMT-LIB printer.  1-bit nodes are printed as Bool.
use std::collections::HashMap;
use std::fmt::Write;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Add, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt, Lut,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub k: u128 }

#[derive(Clone, Copy)]
struct Info { lo: u128, hi: u128, kz: u128, tc: u32, sv: u32 }

#[derive(Clone, Copy)]
struct Info0 { lo: u128, hi: u128, kz: u128 }
const MAXT: u32 = 600;

pub struct Ctx {
    pub nodes: Vec<Node>,
    info: Vec<Info>,
    map: HashMap<Node, E>,
    pub tables: Vec<std::rc::Rc<Vec<u128>>>,
    table_map: HashMap<std::rc::Rc<Vec<u128>>, u32>,
    varsets: HashMap<E, std::rc::Rc<Vec<u32>>>,
    pub nvars: u32,
    pub var_names: Vec<String>,
    ev_val: Vec<u128>,
    ev_stamp: Vec<u32>,
    ev_epoch: u32,
}

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s }
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx { nodes: vec![], info: vec![], map: HashMap::new(), tables: vec![], table_map: HashMap::new(),
            varsets: HashMap::new(), nvars: 0, var_names: vec![], ev_val: vec![], ev_stamp: vec![], ev_epoch: 0 };
        c.konst(1, 0); c.konst(1, 1);
        c
    }
    pub fn fls(&self) -> E { 0 }
    pub fn tru(&self) -> E { 1 }
    #[inline] pub fn w(&self, e: E) -> u16 { self.nodes[e as usize].w }
    #[inline] pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    #[inline] pub fn cv(&self, e: E) -> Option<u128> { let n = &self.nodes[e as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    pub fn range(&self, e: E) -> (u128, u128) { let i = &self.info[e as usize]; (i.lo, i.hi) }
    pub fn kz(&self, e: E) -> u128 { self.info[e as usize].kz }

    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let i = self.calc(&n);
        if n.op != Op::Const && i.lo == i.hi { return self.konst(n.w, i.lo); }
        let e = self.nodes.len() as E;
        self.nodes.push(n); self.info.push(i); self.map.insert(n, e);
        e
    }
    fn calc(&self, n: &Node) -> Info {
        let r = self.calc0(n);
        // number of terms a full linear / xor expansion would have
        let t = |e: E| self.info[e as usize].tc;
        let tc = match n.op {
            Op::Const => 0,
            Op::Add | Op::Xor => { let one = |x: E, me: Op| { let o = self.n(x).op; if o == me || o == Op::Const || (me == Op::Add && (o == Op::Mul || o == Op::Concat)) { t(x) } else { 1 } }; one(n.a, n.op).saturating_add(one(n.b, n.op)) }
            Op::Mul if self.cv(n.b).is_some() => t(n.a),
            Op::Concat if self.cv(n.b) == Some(0) => { let h = self.n(n.a); if h.op == Op::Extract && h.k == 0 && self.w(h.a) == n.w { t(h.a) } else { 1 } }
            _ => 1,
        };
        // the one variable this depends on (id + 1), 0 for none, MAX for several
        let sv = if n.op == Op::Var { n.k as u32 + 1 } else { let (c, k) = Self::children(n); let mut s = 0; for &y in &c[..k] { let t = self.info[y as usize].sv; if t != 0 { if s == 0 { s = t } else if s != t { s = u32::MAX } } } s };
        Info { lo: r.0, hi: r.1, kz: r.2, tc, sv }
    }
    fn calc0(&self, n: &Node) -> (u128, u128, u128) { let i = self.calc1(n); (i.lo, i.hi, i.kz) }
    fn calc1(&self, n: &Node) -> Info0 {
        #[allow(non_camel_case_types)] type Info = Info0;
        let m = mask(n.w);
        let ia = |e: E| { let i = self.info[e as usize]; Info0 { lo: i.lo, hi: i.hi, kz: i.kz } };
        let full = Info { lo: 0, hi: m, kz: 0 };
        let mut r = match n.op {
            Op::Const => Info { lo: n.k, hi: n.k, kz: !n.k & m },
            Op::Var => full,
            Op::Add => { let (a, b) = (ia(n.a), ia(n.b));
                let tz = (a.kz.trailing_ones()).min(b.kz.trailing_ones());
                let kz = if tz >= 128 { m } else { ((1u128 << tz) - 1) & m };
                match (a.hi.checked_add(b.hi), a.lo.checked_add(b.lo)) {
                    (Some(h), Some(l)) if h <= m => Info { lo: l, hi: h, kz },
                    (Some(h), Some(l)) if l > m && n.w < 127 && h - l <= m && (l >> n.w) == (h >> n.w) => Info { lo: l & m, hi: h & m, kz },
                    _ => Info { lo: 0, hi: m, kz } } }
            Op::Mul => { let (a, b) = (ia(n.a), ia(n.b));
                let tz = (a.kz.trailing_ones() + b.kz.trailing_ones()).min(n.w as u32);
                let kz = if tz >= 128 { m } else { ((1u128 << tz) - 1) & m };
                match a.hi.checked_mul(b.hi) { Some(h) if h <= m => Info { lo: a.lo * b.lo, hi: h, kz }, _ => Info { lo: 0, hi: m, kz } } }
            Op::UDiv => { let (a, b) = (ia(n.a), ia(n.b)); if b.lo > 0 { Info { lo: a.lo / b.hi, hi: a.hi / b.lo, kz: 0 } } else { full } }
            Op::URem => { let (a, b) = (ia(n.a), ia(n.b)); if b.lo > 0 { Info { lo: 0, hi: a.hi.min(b.hi - 1), kz: 0 } } else { full } }
            Op::And => { let (a, b) = (ia(n.a), ia(n.b)); Info { lo: 0, hi: a.hi.min(b.hi), kz: a.kz | b.kz } }
            Op::Or => { let (a, b) = (ia(n.a), ia(n.b)); Info { lo: a.lo.max(b.lo), hi: m, kz: a.kz & b.kz } }
            Op::Xor => { let (a, b) = (ia(n.a), ia(n.b)); Info { lo: 0, hi: m, kz: a.kz & b.kz } }
            Op::Ite => { let (a, b) = (ia(n.b), ia(n.c)); Info { lo: a.lo.min(b.lo), hi: a.hi.max(b.hi), kz: a.kz & b.kz } }
            Op::Concat => { let (a, b) = (ia(n.a), ia(n.b)); let bw = self.w(n.b);
                Info { lo: (a.lo << bw) | b.lo, hi: (a.hi << bw) | b.hi, kz: (a.kz << bw) | b.kz } }
            Op::Extract => { let a = ia(n.a); let lo = n.k as u32;
                let kz = (a.kz >> lo) & m;
                if lo == 0 && a.hi <= m { Info { lo: a.lo, hi: a.hi, kz } }
                else if (a.hi >> lo) <= m { Info { lo: a.lo >> lo, hi: a.hi >> lo, kz } }
                else { Info { lo: 0, hi: m, kz } } }
            Op::ZExt => { let a = ia(n.a); Info { lo: a.lo, hi: a.hi, kz: a.kz | (m & !mask(self.w(n.a))) } }
            Op::LShr => { let (a, b) = (ia(n.a), ia(n.b)); Info { lo: 0, hi: if b.lo >= 128 { 0 } else { a.hi >> b.lo }, kz: 0 } }
            Op::Lut => { let t = &self.tables[n.k as usize]; let (l, h) = self.range(n.a);
                let h = (h as usize).min(t.len().saturating_sub(1)); let l = (l as usize).min(h);
                let over = self.range(n.a).1 as usize >= t.len();
                let (mut lo, mut hi, mut kz) = (u128::MAX, 0, m);
                for v in &t[l..=h] { lo = lo.min(*v); hi = hi.max(*v); kz &= !*v; }
                if over { lo = 0; }
                Info { lo, hi, kz: kz & m } }
            _ => full,
        };
        // kz-derived upper bound, and leading zeros from hi
        r.hi = r.hi.min(m & !r.kz);
        let lz = r.hi.leading_zeros();
        let top = if lz == 0 { 0 } else if lz >= 128 { u128::MAX } else { !((1u128 << (128 - lz)) - 1) };
        r.kz |= top & m;
        if r.lo > r.hi { r.lo = 0; }
        r
    }
    pub fn konst(&mut self, w: u16, k: u128) -> E {
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var8(&mut self, name: &str) -> E {
        let id = self.nvars; self.nvars += 1; self.var_names.push(name.to_string());
        self.intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: id as u128 })
    }
    fn raw(&mut self, op: Op, w: u16, a: E, b: E) -> E { self.intern(Node { op, w, a, b, c: 0, k: 0 }) }

    // ---- linear sums -------------------------------------------------
    fn linear(&mut self, e: E, coef: u128, out: &mut Vec<(E, u128)>, k: &mut u128, budget: &mut i32) {
        let n = self.n(e); let m = mask(n.w);
        match n.op {
            Op::Const => { *k = k.wrapping_add(n.k.wrapping_mul(coef)) & m; }
            Op::Add if self.info[e as usize].tc <= MAXT => { self.linear(n.a, coef, out, k, budget); self.linear(n.b, coef, out, k, budget); }
            Op::Mul if self.cv(n.b).is_some() && self.info[e as usize].tc <= MAXT => { let c = self.cv(n.b).unwrap(); self.linear(n.a, coef.wrapping_mul(c) & m, out, k, budget); }
            Op::Concat if self.cv(n.b).map_or(false, |v| v != 0) => { *k = k.wrapping_add(self.cv(n.b).unwrap().wrapping_mul(coef)) & m; let z = self.konst(self.w(n.b), 0); let x = self.concat(n.a, z); self.linear(x, coef, out, k, budget); }
            Op::Concat if self.cv(n.b) == Some(0) && self.info[e as usize].tc <= MAXT => {
                let s = self.w(n.b); let h = self.n(n.a);
                let c = coef.wrapping_mul(1u128 << s) & m;
                if h.op == Op::Extract && h.k == 0 && self.w(h.a) == n.w { self.linear(h.a, c, out, k, budget); }
                else if h.op == Op::Concat && self.n(h.a).op == Op::Extract && { let x = self.n(h.a); x.k as u16 + x.w + s <= self.w(x.a) } {
                    // bits shifted out do not matter: take the wider word this is the low part of
                    let x = self.n(h.a); let top = self.extract(x.a, x.k as u16 + x.w + s - 1, x.k as u16); let t = self.concat(top, h.b);
                    if self.n(t).op == Op::Add { out.push((t, c)); } else { self.linear(t, c, out, k, budget); }
                }
                else { let z = self.zext(n.a, n.w); if self.n(z).op == Op::Add { out.push((z, c)); } else { self.linear(z, c, out, k, budget); } }
            }
            Op::Concat | Op::ZExt if { let c = if n.op == Op::ZExt { n.a } else { e }; self.n(c).op == Op::Concat && self.kz(c) & 1 == 1 } => {
                let c = if n.op == Op::ZExt { n.a } else { e };
                let s = (self.kz(c).trailing_ones() as u16).min(self.w(c) - 1);
                let x = self.extract(c, self.w(c) - 1, s); let z = self.zext(x, n.w); let c = coef.wrapping_mul(1u128 << s) & m;
                if matches!(self.n(z).op, Op::Add | Op::Concat | Op::ZExt) { out.push((z, c)); } else { self.linear(z, c, out, k, budget); }
            }
            _ => out.push((e, coef & m)),
        }
    }
    fn sum(&mut self, parts: &[(E, u128)], w: u16) -> E {
        let m = mask(w); let mut out = vec![]; let mut k = 0u128; let mut budget = 20;
        for &(e, c) in parts { self.linear(e, c & m, &mut out, &mut k, &mut budget); }
        out.sort();
        let mut l: Vec<(E, u128)> = vec![];
        for (e, c) in out { if let Some(x) = l.last_mut() { if x.0 == e { x.1 = x.1.wrapping_add(c) & m; continue; } } l.push((e, c)); }
        l.retain(|x| x.1 != 0);
        // pos terms first for readability/canonicity
        let mut acc: Option<E> = None;
        let several = l.len() > 1 || (k != 0 && l.len() == 1);
        for (e, c) in l {
            let mut t = self.mulc(e, c, w);
            if let Some(a) = acc { if let Some(r) = self.disjoint_merge(a, t) { acc = Some(r); continue; } }
            // a shift that drops bits stays a multiple of its word, so that later sums see the word
            if several && c != 1 && c.is_power_of_two() && self.cv(e).is_none() && self.range(e).1 > mask(w) >> c.trailing_zeros() { let kc = self.konst(w, c); t = self.raw(Op::Mul, w, e, kc); }
            acc = Some(match acc { None => t, Some(a) => self.raw(Op::Add, w, a, t) });
        }
        match acc { None => self.konst(w, k), Some(a) => if k == 0 { a } else { let kc = self.konst(w, k);
            if let Some(r) = self.disjoint_merge(a, kc) { return r; }
            if self.n(a).op == Op::Const { return self.konst(w, self.n(a).k.wrapping_add(k)); }
            self.raw(Op::Add, w, a, kc) } }
    }
    fn mulc(&mut self, e: E, c: u128, w: u16) -> E {
        if c == 1 { return e; }
        if let Some(v) = self.cv(e) { return self.konst(w, v.wrapping_mul(c)); }
        if c.is_power_of_two() { return self.shlc(e, c.trailing_zeros() as u16); }
        let kc = self.konst(w, c); self.raw(Op::Mul, w, e, kc)
    }
    fn shlc(&mut self, e: E, s: u16) -> E {
        let w = self.w(e);
        if s == 0 { return e; } if s >= w { return self.konst(w, 0); }
        if self.n(e).op == Op::Add && w > 1 && self.info[e as usize].tc <= MAXT { return self.sum(&[(e, 1u128 << s)], w); }
        let h = self.extract(e, w - 1 - s, 0); let z = self.konst(s, 0); self.concat(h, z)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.konst(self.w(a), x.wrapping_add(y)); }
        if self.cv(b) == Some(0) { return a; } if self.cv(a) == Some(0) { return b; }
        let w = self.w(a);
        if w == 1 { return self.xor(a, b); }
        self.sum(&[(a, 1), (b, 1)], w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.konst(self.w(a), x.wrapping_sub(y)); }
        if self.cv(b) == Some(0) { return a; }
        let w = self.w(a);
        if w == 1 { return self.xor(a, b); }
        self.sum(&[(a, 1), (b, mask(w))], w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.konst(w, x.wrapping_mul(y)); }
        if w == 1 { return self.and(a, b); }
        if let Some(y) = self.cv(b) { return self.sum(&[(a, y)], w); }
        if let Some(x) = self.cv(a) { return self.sum(&[(b, x)], w); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::Mul, w, a, b)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) { if y != 0 {
            if let Some(x) = self.cv(a) { return self.konst(w, x / y); }
            if y.is_power_of_two() { return self.lshrc(a, y.trailing_zeros() as u16); }
        } }
        let (bl, _) = self.range(b); let (_, ah) = self.range(a);
        if bl > 0 && ah < bl { return self.konst(w, 0); }
        self.raw(Op::UDiv, w, a, b)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) { if y != 0 {
            if let Some(x) = self.cv(a) { return self.konst(w, x % y); }
            if y == 1 { return self.konst(w, 0); }
            if y.is_power_of_two() { let k = y.trailing_zeros() as u16; let l = self.extract(a, k - 1, 0); return self.zext(l, w); }
        } }
        let (bl, _) = self.range(b); let (_, ah) = self.range(a);
        if bl > 0 && ah < bl { return a; }
        // a multiple of the divisor added without overflow drops out
        if let Some(y) = self.cv(b) { if y != 0 && self.n(a).op == Op::Add {
            let (mut out, mut k, mut budget) = (vec![], 0u128, 20); self.linear(a, 1, &mut out, &mut k, &mut budget);
            if k >= y { let d = k - k % y; let dc = self.konst(w, d); let t = self.sub(a, dc); if self.range(t).1.checked_add(d).is_some_and(|h| h <= mask(w)) { return self.urem(t, b); } }
        } }
        self.raw(Op::URem, w, a, b)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { if y != 0 { return self.konst(w, sext(x, w).wrapping_div(sext(y, w)) as u128); } }
        let h = mask(w) >> 1;
        if self.range(a).1 <= h && self.range(b).1 <= h { return self.udiv(a, b); }
        self.raw(Op::SDiv, w, a, b)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { if y != 0 { return self.konst(w, sext(x, w).wrapping_rem(sext(y, w)) as u128); } }
        let h = mask(w) >> 1;
        if self.range(a).1 <= h && self.range(b).1 <= h { return self.urem(a, b); }
        self.raw(Op::SRem, w, a, b)
    }
    fn pieces(&self, e: E, out: &mut Vec<E>, zero: &mut Vec<u16>) {
        // pushes pieces high..low; a zero piece is encoded as E::MAX with its width in `zero` order
        let n = self.n(e);
        match n.op {
            Op::Concat => { self.pieces(n.a, out, zero); self.pieces(n.b, out, zero); }
            Op::ZExt => { out.push(E::MAX); zero.push(n.w - self.w(n.a)); self.pieces(n.a, out, zero); }
            Op::Const if n.k == 0 => { out.push(E::MAX); zero.push(n.w); }
            _ => out.push(e),
        }
    }
    fn piece_list(&mut self, e: E) -> Vec<(Option<E>, u16)> {
        let (mut o, mut z) = (vec![], vec![]); self.pieces(e, &mut o, &mut z);
        let mut zi = 0; let mut r = vec![];
        for p in o {
            if p == E::MAX { zi += 1; r.push((None, z[zi - 1])); continue; }
            let n = self.n(p);
            // a constant xored onto a concatenation belongs to its pieces
            if n.op == Op::Xor && matches!(self.n(n.a).op, Op::Concat | Op::ZExt) { if let Some(k) = self.cv(n.b) {
                let mut at = n.w;
                for (q, qw) in self.piece_list(n.a) {
                    at -= qw; let kk = (k >> at) & mask(qw);
                    let x = match q { None if kk == 0 => None, None => Some(self.konst(qw, kk)), Some(q) => { let c = self.konst(qw, kk); Some(self.xor(q, c)) } };
                    r.push((x, qw));
                }
                continue;
            } }
            r.push((Some(p), n.w));
        }
        r
    }
    /// a | b where the possibly-nonzero bits do not overlap, as a concatenation.
    fn disjoint_merge(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if (self.kz(a) | self.kz(b)) & mask(w) != mask(w) { return None; }
        let (pa, pb) = (self.piece_list(a), self.piece_list(b));
        if pa.len() == 1 && pb.len() == 1 { return None; }
        // cut positions from high
        let mut cuts: Vec<u16> = vec![0, w];
        for l in [&pa, &pb] { let mut p = 0; for x in l.iter() { p += x.1; cuts.push(p); } }
        cuts.sort(); cuts.dedup();
        let mut res: Option<E> = None;
        for i in 0..cuts.len() - 1 {
            let (s, t) = (cuts[i], cuts[i + 1]);
            let (xa, xb) = (self.piece_at(&pa, s, t), self.piece_at(&pb, s, t));
            let za = xa.is_none() || self.cv(xa.unwrap()) == Some(0);
            let zb = xb.is_none() || self.cv(xb.unwrap()) == Some(0);
            let seg = if za && zb { self.konst(t - s, 0) } else if zb { xa.unwrap() } else if za { xb.unwrap() } else { return None };
            res = Some(match res { None => seg, Some(r) => self.concat(r, seg) });
        }
        res
    }
    fn piece_at(&mut self, l: &[(Option<E>, u16)], s: u16, t: u16) -> Option<E> {
        let mut p = 0;
        for x in l { if s >= p && t <= p + x.1 { return match x.0 { None => None, Some(e) => { let w = x.1; Some(self.extract(e, w - 1 - (s - p), w - (t - p))) } }; } p += x.1; }
        None
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a); let m = mask(w);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.konst(w, x & y); }
        if a == b { return a; }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else if self.cv(b).is_none() && b < a { (b, a) } else { (a, b) };
        if w == 1 {
            if self.not_of(a) == Some(b) || self.not_of(b) == Some(a) { return 0; }
        }
        if let Some(k) = self.cv(b) {
            if k == 0 { return b; }
            if k == m { return a; }
            if (!k & m) & !self.kz(a) == 0 { return a; }
            // contiguous masks become concatenations
            let lo = k.trailing_zeros() as u16; let top = k >> lo;
            if (top & (top + 1)) == 0 {
                let len = (128 - top.leading_zeros()) as u16;
                let x = self.extract(a, lo + len - 1, lo);
                let x = if lo > 0 { let z = self.konst(lo, 0); self.concat(x, z) } else { x };
                return self.zext(x, w);
            }
            let n = self.n(a);
            if n.op == Op::And { if let Some(k2) = self.cv(n.b) { let kk = self.konst(w, k & k2); return self.and(n.a, kk); } }
        }
        self.raw(Op::And, w, a, b)
    }
    fn not_of(&self, e: E) -> Option<E> { let n = self.n(e); if n.op == Op::Xor && self.cv(n.b) == Some(mask(n.w)) { Some(n.a) } else { None } }
    pub fn not(&mut self, a: E) -> E { let w = self.w(a); let m = self.konst(w, mask(w)); self.xor(a, m) }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a); let m = mask(w);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.konst(w, x | y); }
        if a == b { return a; }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else if self.cv(b).is_none() && b < a { (b, a) } else { (a, b) };
        if w == 1 && (self.not_of(a) == Some(b) || self.not_of(b) == Some(a)) { return 1; }
        if let Some(k) = self.cv(b) { if k == 0 { return a; } if k == m { return b; } }
        if let Some(r) = self.disjoint_merge(a, b) { return r; }
        self.raw(Op::Or, w, a, b)
    }
    fn xor_terms(&self, e: E, out: &mut Vec<E>, k: &mut u128, budget: &mut i32) {
        let n = self.n(e);
        match n.op {
            Op::Const => *k ^= n.k,
            Op::Xor if self.info[e as usize].tc <= MAXT => { self.xor_terms(n.a, out, k, budget); self.xor_terms(n.b, out, k, budget); }
            _ => out.push(e),
        }
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.konst(w, x ^ y); }
        if a == b { return self.konst(w, 0); }
        let (mut t, mut k, mut bud) = (vec![], 0u128, 24);
        self.xor_terms(a, &mut t, &mut k, &mut bud); self.xor_terms(b, &mut t, &mut k, &mut bud);
        t.sort();
        let mut l: Vec<E> = vec![];
        for e in t { if l.last() == Some(&e) { l.pop(); } else { l.push(e); } }
        if l.is_empty() { return self.konst(w, k); }
        if w == 1 && l.len() == 1 && k == 1 {
            // push negation through comparisons
            let n = self.n(l[0]);
            match n.op { Op::Ult => return self.ule(n.b, n.a), Op::Ule => return self.ult(n.b, n.a),
                Op::Slt => return self.sle(n.b, n.a), Op::Sle => return self.slt(n.b, n.a), _ => {} }
        }
        let mut acc = l[0];
        for e in &l[1..] { acc = if let Some(r) = self.disjoint_merge(acc, *e) { r } else { self.raw(Op::Xor, w, acc, *e) }; }
        if k != 0 {
            if let Some(v) = self.cv(acc) { return self.konst(w, v ^ k); }
            // xor with constant over a concat: split where it touches only some pieces
            if self.n(acc).op == Op::Concat {
                // constant pieces of a concatenation take their share of the constant
                let mut ps = vec![]; self.flat(acc, &mut ps); let mut at = w; let mut hit = false; let mut k2 = k;
                let mut qs = vec![];
                for &p in &ps { at -= self.w(p); if let Some(v) = self.cv(p) { let pw = self.w(p); let kk = (k >> at) & mask(pw); if kk != 0 { hit = true; k2 &= !(kk << at); qs.push(self.konst(pw, v ^ kk)); continue; } } qs.push(p); }
                if hit {
                    let mut r = *qs.last().unwrap(); for &q in qs[..qs.len() - 1].iter().rev() { r = self.concat(q, r); }
                    let kc = self.konst(w, k2); return self.xor(r, kc);
                }
            }
            let kc = self.konst(w, k);
            if let Some(r) = self.disjoint_merge(acc, kc) { return r; }
            acc = self.raw(Op::Xor, w, acc, kc);
        }
        acc
    }
    fn flat(&self, e: E, out: &mut Vec<E>) { let n = self.n(e); if n.op == Op::Concat { self.flat(n.a, out); self.flat(n.b, out); } else { out.push(e); } }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) { return if s >= w as u128 { self.konst(w, 0) } else { self.shlc(a, s as u16) }; }
        if self.cv(a) == Some(0) { return a; }
        self.raw(Op::Shl, w, a, b)
    }
    fn lshrc(&mut self, a: E, s: u16) -> E {
        let w = self.w(a); if s == 0 { return a; } if s >= w { return self.konst(w, 0); }
        let x = self.extract(a, w - 1, s); self.zext(x, w)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) { return if s >= w as u128 { self.konst(w, 0) } else { self.lshrc(a, s as u16) }; }
        if self.cv(a) == Some(0) { return a; }
        self.raw(Op::LShr, w, a, b)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) { let s = s.min(w as u128 - 1) as u16; if s == 0 { return a; }
            let x = self.extract(a, w - 1, s); return self.sext(x, w); }
        if self.kz(a) >> (w - 1) & 1 == 1 { return self.lshr(a, b); }
        self.raw(Op::AShr, w, a, b)
    }
    pub fn extract(&mut self, e: E, hi: u16, lo: u16) -> E {
        let n = self.n(e); let w = hi - lo + 1;
        if w == n.w { return e; }
        match n.op {
            Op::Const => return self.konst(w, n.k >> lo),
            Op::Concat => { let bw = self.w(n.b);
                if hi < bw { return self.extract(n.b, hi, lo); }
                if lo >= bw { return self.extract(n.a, hi - bw, lo - bw); }
                let h = self.extract(n.a, hi - bw, 0); let l = self.extract(n.b, bw - 1, lo); return self.concat(h, l); }
            Op::ZExt => { let aw = self.w(n.a);
                if hi < aw { return self.extract(n.a, hi, lo); }
                if lo >= aw { return self.konst(w, 0); }
                let x = self.extract(n.a, aw - 1, lo); return self.zext(x, w); }
            Op::SExt => { let aw = self.w(n.a);
                if hi < aw { return self.extract(n.a, hi, lo); }
                if lo == 0 { return self.sext(n.a, w); } }
            Op::Extract => { let l2 = n.k as u16; return self.extract(n.a, hi + l2, lo + l2); }
            Op::Ite => { if self.cv(n.b).is_some() || self.cv(n.c).is_some() { let x = self.extract(n.b, hi, lo); let y = self.extract(n.c, hi, lo); return self.ite(n.a, x, y); } }
            Op::And | Op::Or | Op::Xor if self.cv(n.b).is_some() => { let x = self.extract(n.a, hi, lo); let y = self.extract(n.b, hi, lo);
                return match n.op { Op::And => self.and(x, y), Op::Or => self.or(x, y), _ => self.xor(x, y) }; }
            Op::Add if lo == 0 && n.w <= 64 && self.range(e).1 > mask(w) && (self.n(n.a).op == Op::ZExt || self.n(n.b).op == Op::ZExt || (self.cv(n.b).is_some() && self.n(n.a).op != Op::Add)) => {
                let x = self.extract(n.a, hi, 0); let y = self.extract(n.b, hi, 0); return self.add(x, y); }
            Op::Mul if self.cv(n.b).map_or(false, |c| c.is_power_of_two()) => { let s = self.cv(n.b).unwrap().trailing_zeros() as u16;
                if lo >= s { return self.extract(n.a, hi - s, lo - s); }
                if hi < s { return self.konst(w, 0); }
                let x = self.extract(n.a, hi - s, 0); let z = self.konst(s - lo, 0); return self.concat(x, z); }
            Op::Lut if w < n.w => {
                // narrow tables
                let t: Vec<u128> = self.tables[n.k as usize].iter().map(|v| (v >> lo) & mask(w)).collect();
                if t.len() <= 4096 { return self.lut(t, n.a, w); }
            }
            _ => {}
        }
        if (self.kz(e) >> lo) & mask(w) == mask(w) { return self.konst(w, 0); }
        self.intern(Node { op: Op::Extract, w, a: e, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b)); let w = na.w + nb.w;
        if na.op == Op::Const && nb.op == Op::Const { return self.konst(w, (na.k << nb.w) | nb.k); }
        if na.op == Op::Const && na.k == 0 { return self.zext(b, w); }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
            return self.extract(na.a, (na.k as u16) + na.w - 1, nb.k as u16);
        }
        if na.op == Op::Extract && na.k > 0 && self.n(na.a).op == Op::Add {
            // a low part that was rewritten when it was extracted is put back together
            let first = if nb.op == Op::Concat { nb.a } else { b };
            let fw = self.w(first);
            if fw as u128 <= na.k && self.cv(first).is_none() && self.extract(na.a, na.k as u16 - 1, na.k as u16 - fw) == first {
                let m = self.extract(na.a, (na.k as u16) + na.w - 1, na.k as u16 - fw);
                return if nb.op == Op::Concat { self.concat(m, nb.b) } else { m };
            }
        }
        // constants xored onto the pieces move outside, so that the pieces can join
        if na.op != Op::Const && na.op != Op::ZExt {
            let xa = if na.op == Op::Xor { self.cv(na.b) } else { None }; let xb = if nb.op == Op::Xor { self.cv(nb.b) } else { None };
            if (xa.is_some() || xb.is_some()) && na.w > 1 && nb.w > 1 {
                let (pa, pb) = (if xa.is_some() { na.a } else { a }, if xb.is_some() { nb.a } else { b });
                let k = self.konst(w, (xa.unwrap_or(0) << nb.w) | xb.unwrap_or(0)); let c = self.concat(pa, pb);
                return self.xor(c, k);
            }
        }
        // right-assoc normal form: Concat(x, Concat(y, z)) ; merge adjacent
        if na.op == Op::Concat { let r = self.concat(na.b, b); return self.concat(na.a, r); }
        if na.op == Op::ZExt { let r = self.concat(na.a, b); return self.zext(r, w); }
        if nb.op == Op::Concat {
            let nx = self.n(nb.a);
            if na.op == Op::Extract && nx.op == Op::Extract && na.a == nx.a && na.k == nx.k + nx.w as u128 {
                let m = self.extract(na.a, (na.k as u16) + na.w - 1, nx.k as u16); return self.concat(m, nb.b);
            }
            if na.op == Op::Const && nx.op == Op::Const { let m = self.konst(na.w + nx.w, (na.k << nx.w) | nx.k); return self.concat(m, nb.b); }
        }
        if nb.op == Op::ZExt { // concat(a, zext b) = concat(a, 0, b)
            let zw = nb.w - self.w(nb.a);
            if na.op == Op::Const { let m = self.konst(na.w + zw, na.k << zw); return self.concat(m, nb.a); }
            let z = self.konst(zw, 0);
            let r = self.intern(Node { op: Op::Concat, w: nb.w, a: z, b: nb.a, c: 0, k: 0 });
            return self.intern(Node { op: Op::Concat, w, a, b: r, c: 0, k: 0 });
        }
        self.intern(Node { op: Op::Concat, w, a, b, c: 0, k: 0 })
    }
    pub fn zext(&mut self, e: E, w: u16) -> E {
        let n = self.n(e); if n.w == w { return e; }
        if n.op == Op::Const { return self.konst(w, n.k); }
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        if n.op == Op::Concat && self.cv(n.a) == Some(0) { return self.zext(n.b, w); }
        if n.op == Op::Extract && n.k == 0 && self.range(n.a).1 <= mask(n.w) {
            let aw = self.w(n.a);
            if aw == w { return n.a; } if aw < w { return self.zext(n.a, w); }
        }
        self.intern(Node { op: Op::ZExt, w, a: e, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, e: E, w: u16) -> E {
        let n = self.n(e); if n.w == w { return e; }
        if n.op == Op::Const { return self.konst(w, sext(n.k, n.w) as u128); }
        if (self.kz(e) >> (n.w - 1)) & 1 == 1 { return self.zext(e, w); }
        if n.op == Op::SExt { return self.sext(n.a, w); }
        self.intern(Node { op: Op::SExt, w, a: e, b: 0, c: 0, k: 0 })
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return 1; }
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && b < a) { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return (x == y) as E; }
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 < rb.0 || rb.1 < ra.0 { return 0; }
        if w == 1 { if let Some(k) = self.cv(b) { return if k == 1 { a } else { self.not(a) }; } let x = self.xor(a, b); return self.not(x); }
        if let Some(k) = self.cv(b) {
            if k & self.kz(a) != 0 { return 0; }
            let n = self.n(a);
            match n.op {
                Op::ZExt => { let kk = self.konst(self.w(n.a), k); return self.eq(n.a, kk); }
                Op::SExt => { let aw = self.w(n.a); let kk = self.konst(aw, k);
                    if sext(k & mask(aw), aw) as u128 & mask(w) == k { return self.eq(n.a, kk); } else { return 0; } }
                Op::Concat => { let bw = self.w(n.b); let kh = self.konst(n.w - bw, k >> bw); let kl = self.konst(bw, k);
                    let x = self.eq(n.a, kh); if x == 0 { return 0; } let y = self.eq(n.b, kl); return self.and(x, y); }
                Op::Xor if self.cv(n.b).is_some() => { let kk = self.konst(w, k ^ self.cv(n.b).unwrap()); return self.eq(n.a, kk); }
                Op::Add if self.cv(n.b).is_some() => { let kk = self.konst(w, k.wrapping_sub(self.cv(n.b).unwrap())); return self.eq(n.a, kk); }
                Op::Ite => {
                    let (x, y) = (self.cv(n.b), self.cv(n.c));
                    if x.is_some() || y.is_some() { let p = self.eq(n.b, b); let q = self.eq(n.c, b); return self.ite(n.a, p, q); }
                }
                Op::Lut => {
                    let t = self.tables[n.k as usize].clone(); let (l, h) = self.range(n.a);
                    let mut hits = vec![];
                    for i in l..=h.min(t.len() as u128 - 1) { if t[i as usize] == k { hits.push(i); if hits.len() > 3 { break; } } }
                    if h < t.len() as u128 {
                        if hits.is_empty() { return 0; }
                        if hits.len() == 1 { let kk = self.konst(self.w(n.a), hits[0]); return self.eq(n.a, kk); }
                    }
                }
                _ => {}
            }
        } else {
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let (wa, wb) = (self.w(na.a), self.w(nb.a)); let mw = wa.max(wb);
                let x = self.zext(na.a, mw); let y = self.zext(nb.a, mw); return self.eq(x, y);
            }
            if na.op == Op::Concat || nb.op == Op::Concat {
                let (pa, pb) = (self.piece_list(a), self.piece_list(b));
                let mut cuts: Vec<u16> = vec![0, w];
                for l in [&pa, &pb] { let mut p = 0; for x in l.iter() { p += x.1; cuts.push(p); } }
                cuts.sort(); cuts.dedup();
                let mut res = 1;
                for i in 0..cuts.len() - 1 {
                    let (s, t) = (cuts[i], cuts[i + 1]);
                    let z = self.konst(t - s, 0);
                    let xa = self.piece_at(&pa, s, t).unwrap_or(z); let xb = self.piece_at(&pb, s, t).unwrap_or(z);
                    let q = self.eq(xa, xb); res = self.and(res, q); if res == 0 { return 0; }
                }
                return res;
            }
        }
        self.raw(Op::Eq, 1, a, b)
    }
    pub fn ne(&mut self, a: E, b: E) -> E { let x = self.eq(a, b); self.not(x) }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return 0; }
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 < rb.0 { return 1; } if ra.0 >= rb.1 { return 0; }
        let (na, nb) = (self.n(a), self.n(b)); let w = na.w;
        if w == 1 { let x = self.not(a); return self.and(x, b); }
        if na.op == Op::ZExt && (nb.op == Op::Const || nb.op == Op::ZExt) {
            let mw = if nb.op == Op::Const { self.w(na.a) } else { self.w(na.a).max(self.w(nb.a)) };
            if mw < w { let x = self.extract(a, mw - 1, 0); let y = self.extract(b, mw - 1, 0); return self.ult(x, y); }
        }
        if nb.op == Op::ZExt && na.op == Op::Const { let mw = self.w(nb.a); let x = self.extract(a, mw - 1, 0); return self.ult(x, nb.a); }
        if nb.op == Op::Const && nb.k == 1 { let z = self.konst(w, 0); return self.eq(a, z); }
        if na.op == Op::Const && na.k == 0 { let z = self.konst(w, 0); return self.ne(b, z); }
        if let Some(r) = self.cmp_linear(a, b, true) { return r; }
        self.raw(Op::Ult, 1, a, b)
    }
    /// a < b (or a <= b) when the difference of the two sums cannot wrap
    fn cmp_linear(&mut self, a: E, b: E, strict: bool) -> Option<E> {
        let w = self.w(a);
        if w <= 8 || w > 64 || (self.n(a).op != Op::Add && self.n(b).op != Op::Add) { return None; }
        let m = mask(w);
        let d = self.sub(a, b); let (dl, dh) = self.range(d);
        if dh + self.range(b).1 <= m && (strict || dl > 0) { return Some(0); } // a = b + d >= b
        let d = self.sub(b, a); let (dl, dh) = self.range(d);
        if dh + self.range(a).1 <= m && (!strict || dl > 0) { return Some(1); } // b = a + d >= a
        None
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b { return 1; }
        let w = self.w(a);
        // a <= k  ==  a < k+1 ; k <= b == k-1 < b
        if let Some(k) = self.cv(b) { if k == mask(w) { return 1; } let kk = self.konst(w, k + 1); return self.ult(a, kk); }
        if let Some(k) = self.cv(a) { if k == 0 { return 1; } let kk = self.konst(w, k - 1); return self.ult(kk, b); }
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 <= rb.0 { return 1; } if ra.0 > rb.1 { return 0; }
        let (na, nb) = (self.n(a), self.n(b));
        if w == 1 { let x = self.not(a); return self.or(x, b); }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let mw = self.w(na.a).max(self.w(nb.a));
            if mw < w { let x = self.extract(a, mw - 1, 0); let y = self.extract(b, mw - 1, 0); return self.ule(x, y); }
        }
        if let Some(r) = self.cmp_linear(a, b, false) { return r; }
        self.raw(Op::Ule, 1, a, b)
    }
    fn nonneg(&self, a: E) -> bool { self.range(a).1 <= mask(self.w(a)) >> 1 }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return 0; }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return (sext(x, w) < sext(y, w)) as E; }
        if self.nonneg(a) && self.nonneg(b) { return self.ult(a, b); }
        if self.cv(b) == Some(0) { let s = self.extract(a, w - 1, w - 1); return s; }
        if self.cv(a) == Some(mask(w)) { let s = self.extract(b, w - 1, w - 1); return self.not(s); }
        self.raw(Op::Slt, 1, a, b)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        if a == b { return 1; }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return (sext(x, w) <= sext(y, w)) as E; }
        if self.nonneg(a) && self.nonneg(b) { return self.ule(a, b); }
        if let Some(k) = self.cv(b) { if k != mask(w) >> 1 { let kk = self.konst(w, k.wrapping_add(1)); return self.slt(a, kk); } return 1; }
        self.raw(Op::Sle, 1, a, b)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == 1 { return a; } if c == 0 { return b; } if a == b { return a; }
        let w = self.w(a);
        if let Some(nc) = self.not_of(c) { return self.ite(nc, b, a); }
        if w == 1 {
            if a == 1 && b == 0 { return c; }
            if a == 0 && b == 1 { return self.not(c); }
            if a == 1 { return self.or(c, b); } if b == 0 { return self.and(c, a); }
            if a == 0 { let n = self.not(c); return self.and(n, b); }
            if b == 1 { let n = self.not(c); return self.or(n, a); }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if nb.op == Op::Ite && nb.b == a { let cc = self.or(c, nb.a); return self.ite(cc, a, nb.c); }
        if na.op == Op::ZExt && nb.op == Op::Const && nb.k <= mask(self.w(na.a)) { let aw = self.w(na.a); let kb = self.konst(aw, nb.k); let x = self.ite(c, na.a, kb); return self.zext(x, w); }
        if nb.op == Op::ZExt && na.op == Op::Const && na.k <= mask(self.w(nb.a)) { let aw = self.w(nb.a); let ka = self.konst(aw, na.k); let x = self.ite(c, ka, nb.a); return self.zext(x, w); }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let x = self.ite(c, na.a, nb.a); return self.zext(x, w); }
        if w > 1 && (na.op == Op::Lut || nb.op == Op::Lut) {
            let (x, y, z) = (self.sv(c), self.sv(a), self.sv(b)); let v = x.max(y).max(z);
            if v != 0 && v != u32::MAX && [x, y, z].iter().all(|t| *t == 0 || *t == v) {
                let e = self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 });
                return self.tabulate(e);
            }
        }
        self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    fn sv(&self, e: E) -> u32 { self.info[e as usize].sv }
    /// a function of one byte as a table over that byte
    fn tabulate(&mut self, e: E) -> E {
        let id = self.sv(e); if id == 0 || id == u32::MAX { return e; }
        let id = id as usize - 1; let mut m = vec![0u8; id + 1]; let mut t = Vec::with_capacity(256);
        for v in 0..256 { m[id] = v as u8; self.eval_begin(); t.push(self.eval(e, &m)); }
        let var = self.intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: id as u128 });
        let w = self.w(e); self.lut(t, var, w)
    }
    pub fn lut(&mut self, table: Vec<u128>, idx: E, w: u16) -> E {
        if let Some(i) = self.cv(idx) { let v = table.get(i as usize).copied().unwrap_or(0); return self.konst(w, v); }
        let (l, h) = self.range(idx);
        if h < table.len() as u128 {
            let f = table[l as usize];
            if table[l as usize..=h as usize].iter().all(|v| *v == f) { return self.konst(w, f); }
            // identity table?
            if table[l as usize..=h as usize].iter().enumerate().all(|(i, v)| *v == l + i as u128) {
                let iw = self.w(idx);
                return if iw == w { idx } else if iw < w { self.zext(idx, w) } else { self.extract(idx, w - 1, 0) };
            }
        }
        // strip zero extension from the index
        let n = self.n(idx); let idx = if n.op == Op::ZExt { n.a } else { idx };
        let n = self.n(idx);
        if n.op != Op::Var && self.sv(idx) != u32::MAX && h < table.len() as u128 {
            // a table over a function of one byte is a table over the byte
            let id = self.sv(idx) as usize - 1; let mut m = vec![0u8; id + 1]; let mut t = Vec::with_capacity(256);
            for v in 0..256 { m[id] = v as u8; self.eval_begin(); let i = self.eval(idx, &m) as usize; t.push(table[i]); }
            let var = self.intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: id as u128 });
            return self.lut(t, var, w);
        }
        if n.op == Op::Ite && table.len() <= 2048 && [n.b, n.c].iter().all(|&x| self.sv(x) != u32::MAX) {
            let x = self.lut(table.clone(), n.b, w); let y = self.lut(table, n.c, w); return self.ite(n.a, x, y);
        }
        if n.op == Op::Var && table.len() >= 256 {
            let table: Vec<u128> = table[..256].to_vec();
            let hi = table.iter().copied().max().unwrap(); let bits = (128 - hi.leading_zeros()).max(1) as u16;
            if bits < w { let x = self.lut(table, idx, bits); return self.zext(x, w); }
            let rc = std::rc::Rc::new(table);
            let id = if let Some(&i) = self.table_map.get(&rc) { i } else { let i = self.tables.len() as u32; self.tables.push(rc.clone()); self.table_map.insert(rc, i); i };
            return self.intern(Node { op: Op::Lut, w, a: idx, b: 0, c: 0, k: id as u128 });
        }
        let rc = std::rc::Rc::new(table);
        let id = if let Some(&i) = self.table_map.get(&rc) { i } else { let i = self.tables.len() as u32; self.tables.push(rc.clone()); self.table_map.insert(rc, i); i };
        self.intern(Node { op: Op::Lut, w, a: idx, b: 0, c: 0, k: id as u128 })
    }

    // ---- traversal ----------------------------------------------------
    fn children(n: &Node) -> ([E; 3], usize) {
        match n.op {
            Op::Const | Op::Var => ([0; 3], 0),
            Op::Extract | Op::ZExt | Op::SExt | Op::Lut => ([n.a, 0, 0], 1),
            Op::Ite => ([n.a, n.b, n.c], 3),
            _ => ([n.a, n.b, 0], 2),
        }
    }
    pub fn reach(&self, roots: &[E]) -> Vec<E> {
        let mut seen = std::collections::HashSet::new(); let mut st: Vec<E> = roots.to_vec();
        while let Some(e) = st.pop() { if seen.insert(e) { let (c, n) = Self::children(&self.nodes[e as usize]); st.extend(&c[..n]); } }
        let mut v: Vec<E> = seen.into_iter().collect(); v.sort(); v
    }
    pub fn vars(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&e) { return v.clone(); }
        let mut v: Vec<u32> = self.reach(&[e]).into_iter().filter(|&x| self.n(x).op == Op::Var).map(|x| self.n(x).k as u32).collect();
        v.sort(); let r = std::rc::Rc::new(v); self.varsets.insert(e, r.clone()); r
    }
    /// rebuilds e with the given variables replaced by constants
    pub fn subst(&mut self, e: E, m: &HashMap<u32, u128>, memo: &mut HashMap<E, E>) -> E {
        if !self.vars(e).iter().any(|v| m.contains_key(v)) { return e; }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if memo.contains_key(&x) { st.pop(); continue; }
            let n = self.n(x); let (c, k) = Self::children(&n);
            let mut ready = true;
            for &y in &c[..k] { if !memo.contains_key(&y) { st.push(y); ready = false; } }
            if !ready { continue; }
            let g = |i: E| memo[&i];
            let r = if n.op == Op::Var { match m.get(&(n.k as u32)) { Some(v) => self.konst(8, *v), None => x } }
                else if k == 0 || c[..k].iter().all(|y| memo[y] == *y) { x } else { match n.op {
                Op::Add => self.add(g(n.a), g(n.b)), Op::Mul => self.mul(g(n.a), g(n.b)), Op::UDiv => self.udiv(g(n.a), g(n.b)), Op::URem => self.urem(g(n.a), g(n.b)),
                Op::SDiv => self.sdiv(g(n.a), g(n.b)), Op::SRem => self.srem(g(n.a), g(n.b)), Op::And => self.and(g(n.a), g(n.b)), Op::Or => self.or(g(n.a), g(n.b)),
                Op::Xor => self.xor(g(n.a), g(n.b)), Op::Shl => self.shl(g(n.a), g(n.b)), Op::LShr => self.lshr(g(n.a), g(n.b)), Op::AShr => self.ashr(g(n.a), g(n.b)),
                Op::Eq => self.eq(g(n.a), g(n.b)), Op::Ult => self.ult(g(n.a), g(n.b)), Op::Ule => self.ule(g(n.a), g(n.b)), Op::Slt => self.slt(g(n.a), g(n.b)), Op::Sle => self.sle(g(n.a), g(n.b)),
                Op::Ite => self.ite(g(n.a), g(n.b), g(n.c)), Op::Concat => self.concat(g(n.a), g(n.b)), Op::Extract => self.extract(g(n.a), n.k as u16 + n.w - 1, n.k as u16),
                Op::ZExt => self.zext(g(n.a), n.w), Op::SExt => self.sext(g(n.a), n.w), Op::Lut => { let t = (*self.tables[n.k as usize]).clone(); self.lut(t, g(n.a), n.w) }
                Op::Const | Op::Var => x } };
            memo.insert(x, r); st.pop();
        }
        memo[&e]
    }
    /// (variable, value) when e says that a variable has one value
    pub fn var_is(&self, e: E) -> Option<(u32, u128)> {
        let n = self.n(e); if n.op != Op::Eq { return None; }
        let (a, b) = (self.n(n.a), self.n(n.b));
        if a.op == Op::Var && b.op == Op::Const { Some((a.k as u32, b.k)) } else { None }
    }
    pub fn conjuncts(&self, e: E, out: &mut Vec<E>) {
        let n = self.n(e);
        if n.op == Op::And && n.w == 1 { self.conjuncts(n.a, out); self.conjuncts(n.b, out); } else { out.push(e); }
    }
    pub fn eval_begin(&mut self) { self.ev_epoch += 1; self.ev_val.resize(self.nodes.len(), 0); self.ev_stamp.resize(self.nodes.len(), 0); }
    /// evaluate under a model (values per var id, missing = 0). eval_begin starts a new model.
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.ev_val.resize(self.nodes.len(), 0); self.ev_stamp.resize(self.nodes.len(), 0);
        let ep = self.ev_epoch;
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.ev_stamp[x as usize] == ep { st.pop(); continue; }
            let n = self.nodes[x as usize]; let (c, k) = Self::children(&n);
            let mut ready = true;
            for &y in &c[..k] { if self.ev_stamp[y as usize] != ep { st.push(y); ready = false; } }
            if !ready { continue; }
            let v = |y: E| self.ev_val[y as usize];
            let m = mask(n.w);
            let aw = if k > 0 { self.nodes[n.a as usize].w } else { 0 };
            let r = match n.op {
                Op::Const => n.k, Op::Var => model.get(n.k as usize).copied().unwrap_or(0) as u128,
                Op::Add => v(n.a).wrapping_add(v(n.b)), Op::Mul => v(n.a).wrapping_mul(v(n.b)),
                Op::UDiv => if v(n.b) == 0 { m } else { v(n.a) / v(n.b) },
                Op::URem => if v(n.b) == 0 { v(n.a) } else { v(n.a) % v(n.b) },
                Op::SDiv => { let (x, y) = (sext(v(n.a), n.w), sext(v(n.b), n.w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
                Op::SRem => { let (x, y) = (sext(v(n.a), n.w), sext(v(n.b), n.w)); if y == 0 { x as u128 } else { x.wrapping_rem(y) as u128 } }
                Op::And => v(n.a) & v(n.b), Op::Or => v(n.a) | v(n.b), Op::Xor => v(n.a) ^ v(n.b),
                Op::Shl => if v(n.b) >= n.w as u128 { 0 } else { v(n.a) << v(n.b) },
                Op::LShr => if v(n.b) >= n.w as u128 { 0 } else { v(n.a) >> v(n.b) },
                Op::AShr => { let s = v(n.b).min(n.w as u128 - 1); (sext(v(n.a), n.w) >> s) as u128 }
                Op::Eq => (v(n.a) == v(n.b)) as u128, Op::Ult => (v(n.a) < v(n.b)) as u128, Op::Ule => (v(n.a) <= v(n.b)) as u128,
                Op::Slt => (sext(v(n.a), aw) < sext(v(n.b), aw)) as u128, Op::Sle => (sext(v(n.a), aw) <= sext(v(n.b), aw)) as u128,
                Op::Ite => if v(n.a) == 1 { v(n.b) } else { v(n.c) },
                Op::Concat => (v(n.a) << self.nodes[n.b as usize].w) | v(n.b),
                Op::Extract => v(n.a) >> n.k, Op::ZExt => v(n.a), Op::SExt => sext(v(n.a), aw) as u128,
                Op::Lut => self.tables[n.k as usize].get(v(n.a) as usize).copied().unwrap_or(0),
            } & m;
            self.ev_val[x as usize] = r; self.ev_stamp[x as usize] = ep; st.pop();
        }
        self.ev_val[e as usize]
    }
    // ---- SMT-LIB -----------------------------------------------------
    fn lut_tree(&self, out: &mut String, t: &[u128], w: u16, bit: i32, base: usize) {
        if bit < 0 || base >= t.len() { let v = t.get(base).copied().unwrap_or(0); self.smt_const(out, w, v); return; }
        let hi = base + (1usize << bit);
        // collapse constant halves
        let end = (base + (2usize << bit)).min(t.len());
        if base < end { let f = t[base]; if end == base + (2usize << bit) && t[base..end].iter().all(|v| *v == f) { self.smt_const(out, w, f); return; } }
        write!(out, "(ite (= ((_ extract {bit} {bit}) i) #b1) ").unwrap();
        self.lut_tree(out, t, w, bit - 1, hi); out.push(' '); self.lut_tree(out, t, w, bit - 1, base); out.push(')');
    }
    fn smt_const(&self, out: &mut String, w: u16, v: u128) {
        if w == 1 { out.push_str(if v == 1 { "true" } else { "false" }); } else { write!(out, "(_ bv{v} {w})").unwrap(); }
    }
    fn r(&self, out: &mut String, e: E) {
        let n = &self.nodes[e as usize];
        match n.op { Op::Const => self.smt_const(out, n.w, n.k), Op::Var => write!(out, "v{}", n.k).unwrap(), _ => write!(out, "n{e}").unwrap() }
    }
    fn bv(&self, out: &mut String, e: E) { if self.w(e) == 1 { out.push_str("(ite "); self.r(out, e); out.push_str(" #b1 #b0)"); } else { self.r(out, e); } }
    pub fn smt(&self, roots: &[E], out: &mut String) -> Vec<u32> {
        let nodes = self.reach(roots); let mut vars = vec![]; let mut luts = std::collections::BTreeSet::new();
        for &e in &nodes { let n = &self.nodes[e as usize]; if n.op == Op::Lut { luts.insert((n.k as u32, self.w(n.a), n.w)); } }
        for (t, iw, w) in luts {
            write!(out, "(define-fun t{t}_{iw}_{w} ((i (_ BitVec {iw}))) {} ", if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {w})") }).unwrap();
            let tb = self.tables[t as usize].clone();
            let need = (usize::BITS - (tb.len().max(2) - 1).leading_zeros()) as u16;
            let top = need.min(iw);
            // indices beyond the table read 0 (never reachable: bounds are checked before)
            self.lut_tree(out, &tb, w, top as i32 - 1, 0); out.push_str(")\n");
        }
        for &e in &nodes {
            let n = self.nodes[e as usize];
            match n.op {
                Op::Const => continue,
                Op::Var => { vars.push(n.k as u32); write!(out, "(declare-const v{} (_ BitVec 8))\n", n.k).unwrap(); continue; }
                _ => {}
            }
            write!(out, "(define-fun n{e} () ").unwrap();
            if n.w == 1 { out.push_str("Bool "); } else { write!(out, "(_ BitVec {}) ", n.w).unwrap(); }
            let bin = |s: &Self, out: &mut String, f: &str| { write!(out, "({f} ").unwrap(); s.bv(out, n.a); out.push(' '); s.bv(out, n.b); out.push(')'); };
            let b1 = n.w == 1;
            match n.op {
                Op::Add => bin(self, out, "bvadd"), Op::Mul => bin(self, out, "bvmul"),
                Op::UDiv => bin(self, out, "bvudiv"), Op::URem => bin(self, out, "bvurem"), Op::SDiv => bin(self, out, "bvsdiv"), Op::SRem => bin(self, out, "bvsrem"),
                Op::And | Op::Or | Op::Xor if b1 => { out.push_str(match n.op { Op::And => "(and ", Op::Or => "(or ", _ => "(xor " }); self.r(out, n.a); out.push(' '); self.r(out, n.b); out.push(')'); }
                Op::And => bin(self, out, "bvand"), Op::Or => bin(self, out, "bvor"), Op::Xor => bin(self, out, "bvxor"),
                Op::Shl => bin(self, out, "bvshl"), Op::LShr => bin(self, out, "bvlshr"), Op::AShr => bin(self, out, "bvashr"),
                Op::Eq => bin(self, out, "="), Op::Ult => bin(self, out, "bvult"), Op::Ule => bin(self, out, "bvule"), Op::Slt => bin(self, out, "bvslt"), Op::Sle => bin(self, out, "bvsle"),
                Op::Ite => { out.push_str("(ite "); self.r(out, n.a); out.push(' '); self.r(out, n.b); out.push(' '); self.r(out, n.c); out.push(')'); }
                Op::Concat => bin(self, out, "concat"),
                Op::Extract => { if b1 { out.push_str("(= "); } write!(out, "((_ extract {} {}) ", n.k + n.w as u128 - 1, n.k).unwrap(); self.bv(out, n.a); out.push(')'); if b1 { out.push_str(" #b1)"); } }
                Op::ZExt => { write!(out, "((_ zero_extend {}) ", n.w - self.w(n.a)).unwrap(); self.bv(out, n.a); out.push(')'); }
                Op::SExt => { write!(out, "((_ sign_extend {}) ", n.w - self.w(n.a)).unwrap(); self.bv(out, n.a); out.push(')'); }
                Op::Lut => { write!(out, "(t{}_{}_{} ", n.k, self.w(n.a), n.w).unwrap(); self.bv(out, n.a); out.push(')'); }
                Op::Const | Op::Var => {}
            }
            out.push_str(")\n");
        }
        vars
    }
}
