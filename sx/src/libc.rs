//! Models: LLVM intrinsics, the C library / system calls std needs (with an
//! in-memory file system), and the sx_* harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

type R = Result<Option<Val>, Stop>;
const OFFM: u64 = (1 << OBJ_SHIFT) - 1;

pub fn is_panic(n: &str) -> bool { n.contains("4core9panicking") || n.contains("9panicking9rust_panic") || n.ends_with("rust_begin_unwind") }

pub fn lookup(n: &str, has_body: bool) -> Option<Ext> {
    if let Some(x) = n.strip_prefix("llvm.") { return intrinsic(x); }
    if let Some(x) = n.strip_prefix("sx_") { if !has_body { return Some(match x {
        "sym" => h_sym, "assume" => h_assume, "assert" => h_assert, "cover" => h_cover, "is_symbolic" => h_is_sym, "opt" => h_opt, "range" => h_range, "pick" => h_pick, "stop" => h_stop, "fslog" => h_fslog, "unique" => h_unique,
        _ => return None }); } }
    // allocation shims always go to the object allocator
    if n.contains("12___rust_alloc") && !n.contains("no_alloc_shim") && false { return None; }
    if n.contains("no_alloc_shim_is_unstable") { return Some(nop); }
    if has_body { return None; }
    Some(match n {
        "malloc" => x_malloc, "calloc" => x_calloc, "realloc" => x_realloc, "free" => x_free, "posix_memalign" => x_memalign, "aligned_alloc" => x_aligned,
        "memcmp" => x_memcmp, "bcmp" => x_bcmp, "memcpy" | "memmove" => x_memcpy, "memset" => x_memset, "strlen" => x_strlen, "memchr" => x_memchr, "memrchr" => x_memrchr,
        "__errno_location" => x_errno,
        "open64" | "open" => x_open, "openat" | "openat64" => x_openat, "close" => x_close, "read" => x_read, "write" => x_write, "writev" => x_writev, "lseek64" | "lseek" => x_lseek, "pread64" => x_pread, "pwrite64" => x_pwrite,
        "fstat64" => x_fstat, "stat64" | "lstat64" => x_stat, "statx" => x_statx, "unlink" => x_unlink, "rename" => x_rename, "mkdir" => x_mkdir, "linkat" => x_linkat, "link" => x_link, "realpath" => x_realpath, "getcwd" => x_getcwd, "ftruncate64" => x_ftruncate,
        "fsync" | "fdatasync" | "fcntl" | "fchmod" | "chmod" | "sigaction" | "sigaltstack" | "signal" | "pthread_setspecific" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "munmap" | "mprotect" | "posix_fadvise64" | "sched_yield" | "poll" | "rmdir" | "pthread_attr_init" | "pthread_attr_destroy" => nop0,
        "getenv" => x_null, "readlink" | "ioctl" => x_fail, "isatty" => nop0, "gettid" | "getpid" | "pthread_self" | "getuid" => x_one, "getauxval" => nop0, "sysconf" => x_4096,
        "pthread_key_create" => x_keycreate, "pthread_getspecific" => nop0,
        "clock_gettime" => x_clock, "getrandom" => x_getrandom, "syscall" => x_syscall, "abort" | "_exit" | "exit" => x_abort, "pause" => x_abort,
        "opendir" => x_opendir, "readdir64" => x_readdir, "closedir" => x_closedir, "dirfd" => x_4096,
        _ => return None,
    })
}
fn nop(_: &mut Eng, _: &mut State, _: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Ok(None) }
fn nop0(_: &mut Eng, _: &mut State, _: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Ok(Some(Val::I(0))) }
fn x_one(_: &mut Eng, _: &mut State, _: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Ok(Some(Val::I(1))) }
fn x_4096(_: &mut Eng, _: &mut State, _: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Ok(Some(Val::I(4096))) }
fn x_null(_: &mut Eng, _: &mut State, _: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Ok(Some(Val::I(0))) }
fn x_abort(_: &mut Eng, _: &mut State, _: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Err(Stop::Panic("process abort".into())) }
fn x_fail(e: &mut Eng, st: &mut State, _: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { fail(e, st, 25, t) }
fn x_keycreate(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { let p = e.caddr(st, &a[0], "key")?; e.put(st, p, &1u32.to_le_bytes())?; Ok(Some(Val::I(0))) }

fn tname(n: &str) -> &str { n.split('.').next().unwrap() }
fn intrinsic(n: &str) -> Option<Ext> {
    Some(match tname(n) {
        "memcpy" | "memmove" => i_memcpy, "memset" => i_memset,
        "umin" => i_umin, "umax" => i_umax, "smin" => i_smin, "smax" => i_smax, "abs" => i_abs,
        "uadd" => if n.contains("sat") { i_uadd_sat } else { i_uadd_o }, "usub" => if n.contains("sat") { i_usub_sat } else { i_usub_o }, "umul" => i_umul_o,
        "sadd" => if n.contains("sat") { i_sadd_sat } else { i_sadd_o }, "ssub" => if n.contains("sat") { i_ssub_sat } else { i_ssub_o }, "smul" => i_smul_o,
        "ctlz" => i_ctlz, "cttz" => i_cttz, "ctpop" => i_ctpop, "bswap" => i_bswap, "bitreverse" => i_bitrev, "fshl" => i_fshl, "fshr" => i_fshr,
        "ucmp" => i_ucmp, "scmp" => i_scmp, "trap" | "ubsantrap" => i_trap, "threadlocal" => i_id, "is" => i_false, "expect" => i_id, "assume" | "prefetch" => nop, "objectsize" => i_m1,
        "ceil" | "floor" | "round" | "trunc" | "fabs" | "sqrt" | "rint" => return float1(tname(n)), "fptoui" => i_fptoui_sat, "fptosi" => i_fptosi_sat, "stacksave" => nop0, "stackrestore" => nop, "frameaddress" | "returnaddress" => nop0, "log2" => f_log2,
        _ => return None,
    })
}
fn f1(a: &[Val], f: fn(f64) -> f64) -> R { match a[0] { Val::F(x) => Ok(Some(Val::F(f(x)))), _ => Err(Stop::Unsupported("symbolic float".into())) } }
fn f_ceil(_: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { f1(a, f64::ceil) }
fn f_floor(_: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { f1(a, f64::floor) }
fn f_round(_: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { f1(a, f64::round) }
fn f_trunc(_: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { f1(a, f64::trunc) }
fn f_fabs(_: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { f1(a, f64::abs) }
fn f_sqrt(_: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { f1(a, f64::sqrt) }
fn f_log2(_: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { f1(a, f64::log2) }
fn float1(n: &str) -> Option<Ext> { Some(match n { "ceil" => f_ceil, "floor" => f_floor, "round" | "rint" => f_round, "trunc" => f_trunc, "fabs" => f_fabs, _ => f_sqrt }) }
fn i_fptoui_sat(_: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { match a[0] { Val::F(x) => { let m = mask(t.width()) as u64; Ok(Some(Val::I((x as u64).min(m)))) } _ => Err(Stop::Unsupported("symbolic float".into())) } }
fn i_fptosi_sat(_: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { match a[0] { Val::F(x) => { let w = t.width(); let hi = (mask(w) >> 1) as i64; Ok(Some(Val::I((x as i64).clamp(-hi - 1, hi) as u64 & mask(w) as u64))) } _ => Err(Stop::Unsupported("symbolic float".into())) } }
fn i_trap(_: &mut Eng, _: &mut State, _: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Err(Stop::Panic("trap".into())) }
fn i_id(_: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Ok(Some(a[0].clone())) }
fn i_false(_: &mut Eng, _: &mut State, _: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Ok(Some(Val::I(0))) }
fn i_m1(_: &mut Eng, _: &mut State, _: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Ok(Some(Val::I(u64::MAX))) }
fn i_memcpy(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { let n = e.cnum(st, &a[2], "memcpy length")?; if n == 0 { return Ok(None); } let d = e.caddr(st, &a[0], "memcpy dst")?; let s = e.caddr(st, &a[1], "memcpy src")?; e.memcpy(st, d, s, n)?; Ok(None) }
fn x_memcpy(e: &mut Eng, st: &mut State, a: &[Val], t: &[(Ty, Opnd)], r: &Ty) -> R { i_memcpy(e, st, a, t, r)?; Ok(Some(a[0].clone())) }
fn i_memset(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R {
    let n = e.cnum(st, &a[2], "memset length")?; if n == 0 { return Ok(None); } let d = e.caddr(st, &a[0], "memset dst")?;
    let o = e.obj(st, d >> OBJ_SHIFT)?; e.chk(&o, d & OFFM, n)?; drop(o);
    let v = a[1].clone(); let off = d & OFFM;
    let o = e.obj_mut(st, d >> OBJ_SHIFT)?;
    match v {
        Val::I(b) => { if n > 1 << 24 { if b == 0 && o.data.is_empty() { return Ok(None); } return Err(Stop::Bound("memset of a huge region".into())); } o.ensure(off + n); for x in &mut o.data[off as usize..(off + n) as usize] { *x = b as u8; } o.clear_sym(off, n); }
        Val::S(x) => { o.ensure(off + n); for i in 0..n { o.sym.insert(off + i, x); } }
        _ => {}
    }
    Ok(None)
}
fn x_memset(e: &mut Eng, st: &mut State, a: &[Val], t: &[(Ty, Opnd)], r: &Ty) -> R { let b = vec![a[0].clone(), match &a[1] { Val::I(x) => Val::I(x & 255), Val::S(s) => { let q = e.cx.extract(*s, 7, 0); e.vl(q) } v => v.clone() }, a[2].clone()]; i_memset(e, st, &b, t, r)?; Ok(Some(a[0].clone())) }
fn minmax(e: &mut Eng, a: &[Val], t: &Ty, p: Pred) -> R { let w = t.width(); let c = e.icmp(p, w, &a[0], &a[1]); Ok(Some(match c { Val::I(1) => a[0].clone(), Val::I(_) => a[1].clone(), Val::S(c) => { let (x, y) = (e.ex(&a[0], w), e.ex(&a[1], w)); let r = e.cx.ite(c, x, y); e.vl(r) } _ => unreachable!() })) }
fn i_umin(e: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { minmax(e, a, t, Pred::Ult) }
fn i_umax(e: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { minmax(e, a, t, Pred::Ugt) }
fn i_smin(e: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { minmax(e, a, t, Pred::Slt) }
fn i_smax(e: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { minmax(e, a, t, Pred::Sgt) }
fn i_abs(e: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let w = t.width(); let x = e.ex(&a[0], w); let z = e.cx.konst(w, 0); let n = e.cx.sub(z, x); let c = e.cx.slt(x, z); let r = e.cx.ite(c, n, x); Ok(Some(e.vl(r))) }
fn ucmp3(e: &mut Eng, a: &[Val], aw: u16, w: u16, s: bool) -> R { let (x, y) = (e.ex(&a[0], aw), e.ex(&a[1], aw)); let lt = if s { e.cx.slt(x, y) } else { e.cx.ult(x, y) }; let eq = e.cx.eq(x, y); let (m1, z, o) = (e.cx.konst(w, mask(w)), e.cx.konst(w, 0), e.cx.konst(w, 1)); let q = e.cx.ite(eq, z, o); let r = e.cx.ite(lt, m1, q); Ok(Some(e.vl(r))) }
fn i_ucmp(e: &mut Eng, _: &mut State, a: &[Val], t: &[(Ty, Opnd)], r: &Ty) -> R { ucmp3(e, a, t[0].0.width(), r.width(), false) }
fn i_scmp(e: &mut Eng, _: &mut State, a: &[Val], t: &[(Ty, Opnd)], r: &Ty) -> R { ucmp3(e, a, t[0].0.width(), r.width(), true) }
fn ov(e: &mut Eng, r: E, o: E) -> R { Ok(Some(Val::A(Rc::new(vec![e.vl(r), e.vl(o)])))) }
fn i_uadd_o(e: &mut Eng, _: &mut State, a: &[Val], t: &[(Ty, Opnd)], _: &Ty) -> R { let w = t[0].0.width(); let (x, y) = (e.ex(&a[0], w), e.ex(&a[1], w)); let r = e.cx.add(x, y); let (xz, yz) = (e.cx.zext(x, w + 1), e.cx.zext(y, w + 1)); let s = e.cx.add(xz, yz); let o = e.cx.extract(s, w, w); ov(e, r, o) }
fn i_usub_o(e: &mut Eng, _: &mut State, a: &[Val], t: &[(Ty, Opnd)], _: &Ty) -> R { let w = t[0].0.width(); let (x, y) = (e.ex(&a[0], w), e.ex(&a[1], w)); let r = e.cx.sub(x, y); let o = e.cx.ult(x, y); ov(e, r, o) }
fn i_umul_o(e: &mut Eng, _: &mut State, a: &[Val], t: &[(Ty, Opnd)], _: &Ty) -> R {
    let w = t[0].0.width(); let (x, y) = (e.ex(&a[0], w), e.ex(&a[1], w)); let r = e.cx.mul(x, y);
    if w > 64 { return Err(Stop::Unsupported("128-bit overflow multiply".into())); }
    // overflow against a constant factor is a comparison, otherwise use the double-width product
    let o = if let Some(k) = e.cx.cv(y).or(e.cx.cv(x)) { let v = if e.cx.cv(y).is_some() { x } else { y }; if k == 0 { 0 } else { let lim = e.cx.konst(w, mask(w) / k); e.cx.ult(lim, v) } }
        else { let (xz, yz) = (e.cx.zext(x, 2 * w), e.cx.zext(y, 2 * w)); let p = e.cx.mul(xz, yz); let h = e.cx.extract(p, 2 * w - 1, w); let z = e.cx.konst(w, 0); e.cx.ne(h, z) };
    ov(e, r, o)
}
fn sov(e: &mut Eng, a: &[Val], w: u16, k: u8) -> R {
    let (x, y) = (e.ex(&a[0], w), e.ex(&a[1], w)); let w2 = if k == 2 { 2 * w } else { w + 1 };
    if w2 > 128 { return Err(Stop::Unsupported("128-bit signed overflow".into())); }
    let (xs, ys) = (e.cx.sext(x, w2), e.cx.sext(y, w2));
    let f = match k { 0 => e.cx.add(xs, ys), 1 => e.cx.sub(xs, ys), _ => e.cx.mul(xs, ys) };
    let r = match k { 0 => e.cx.add(x, y), 1 => e.cx.sub(x, y), _ => e.cx.mul(x, y) };
    let rs = e.cx.sext(r, w2); let o = e.cx.ne(f, rs); ov(e, r, o)
}
fn ssat(e: &mut Eng, a: &[Val], w: u16, sub: bool) -> R {
    if w > 64 { return Err(Stop::Unsupported("128-bit saturation".into())); }
    let (x, y) = (e.ex(&a[0], w), e.ex(&a[1], w)); let (xs, ys) = (e.cx.sext(x, w + 1), e.cx.sext(y, w + 1));
    let f = if sub { e.cx.sub(xs, ys) } else { e.cx.add(xs, ys) }; let r = e.cx.extract(f, w - 1, 0);
    let (s, t) = (e.cx.extract(f, w, w), e.cx.extract(f, w - 1, w - 1)); let o = e.cx.ne(s, t);
    let (lo, hi) = (e.cx.konst(w, 1u128 << (w - 1)), e.cx.konst(w, (1u128 << (w - 1)) - 1)); let m = e.cx.ite(s, lo, hi); let q = e.cx.ite(o, m, r); Ok(Some(e.vl(q)))
}
fn i_sadd_sat(e: &mut Eng, _: &mut State, a: &[Val], t: &[(Ty, Opnd)], _: &Ty) -> R { ssat(e, a, t[0].0.width(), false) }
fn i_ssub_sat(e: &mut Eng, _: &mut State, a: &[Val], t: &[(Ty, Opnd)], _: &Ty) -> R { ssat(e, a, t[0].0.width(), true) }
fn i_sadd_o(e: &mut Eng, _: &mut State, a: &[Val], t: &[(Ty, Opnd)], _: &Ty) -> R { sov(e, a, t[0].0.width(), 0) }
fn i_ssub_o(e: &mut Eng, _: &mut State, a: &[Val], t: &[(Ty, Opnd)], _: &Ty) -> R { sov(e, a, t[0].0.width(), 1) }
fn i_smul_o(e: &mut Eng, _: &mut State, a: &[Val], t: &[(Ty, Opnd)], _: &Ty) -> R { sov(e, a, t[0].0.width(), 2) }
fn i_uadd_sat(e: &mut Eng, _: &mut State, a: &[Val], t: &[(Ty, Opnd)], _: &Ty) -> R { let w = t[0].0.width(); let (x, y) = (e.ex(&a[0], w), e.ex(&a[1], w)); let r = e.cx.add(x, y); let o = e.cx.ult(r, x); let m = e.cx.konst(w, mask(w)); let q = e.cx.ite(o, m, r); Ok(Some(e.vl(q))) }
fn i_usub_sat(e: &mut Eng, _: &mut State, a: &[Val], t: &[(Ty, Opnd)], _: &Ty) -> R { let w = t[0].0.width(); let (x, y) = (e.ex(&a[0], w), e.ex(&a[1], w)); let r = e.cx.sub(x, y); let o = e.cx.ult(x, y); let z = e.cx.konst(w, 0); let q = e.cx.ite(o, z, r); Ok(Some(e.vl(q))) }
fn i_ctpop(e: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let w = t.width(); match &a[0] { Val::I(x) => Ok(Some(Val::I(x.count_ones() as u64))), v => { let x = e.ex(v, w); let mut s = e.cx.konst(w, 0); for i in 0..w { let b = e.cx.extract(x, i, i); let z = e.cx.zext(b, w); s = e.cx.add(s, z); } Ok(Some(e.vl(s))) } } }
fn i_ctlz(e: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let w = t.width(); match &a[0] { Val::I(x) => Ok(Some(Val::I(if *x == 0 { w as u64 } else { x.leading_zeros() as u64 - (64 - w as u64) }))), Val::W(x) => Ok(Some(Val::W(if *x == 0 { w as u128 } else { x.leading_zeros() as u128 }))), v => { let x = e.ex(v, w); let mut r = e.cx.konst(w, w as u128); for i in 0..w { let b = e.cx.extract(x, i, i); let k = e.cx.konst(w, (w - 1 - i) as u128); r = e.cx.ite(b, k, r); } Ok(Some(e.vl(r))) } } }
fn i_cttz(e: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let w = t.width(); match &a[0] { Val::I(x) => Ok(Some(Val::I(if *x == 0 { w as u64 } else { x.trailing_zeros() as u64 }))), v => { let x = e.ex(v, w); let mut r = e.cx.konst(w, w as u128); for i in (0..w).rev() { let b = e.cx.extract(x, i, i); let k = e.cx.konst(w, i as u128); r = e.cx.ite(b, k, r); } Ok(Some(e.vl(r))) } } }
fn i_bswap(e: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let w = t.width(); let x = e.ex(&a[0], w); let mut r: Option<E> = None; for i in 0..w / 8 { let b = e.cx.extract(x, i * 8 + 7, i * 8); r = Some(match r { None => b, Some(h) => e.cx.concat(h, b) }); } Ok(Some(e.vl(r.unwrap()))) }
fn i_bitrev(e: &mut Eng, _: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let w = t.width(); let x = e.ex(&a[0], w); let mut r: Option<E> = None; for i in 0..w { let b = e.cx.extract(x, i, i); r = Some(match r { None => b, Some(h) => e.cx.concat(h, b) }); } Ok(Some(e.vl(r.unwrap()))) }
fn fsh(e: &mut Eng, st: &mut State, a: &[Val], w: u16, left: bool) -> R {
    let s = match &a[2] { Val::I(s) => (*s % w as u64) as u16, Val::S(x) => { // variable amount
        let wk = e.cx.konst(w, w as u128); let s = e.cx.urem(*x, wk); let (hi, lo) = (e.ex(&a[0], w), e.ex(&a[1], w));
        let ws = e.cx.sub(wk, s); let (p, q) = if left { (e.cx.shl(hi, s), e.cx.lshr(lo, ws)) } else { (e.cx.shl(hi, ws), e.cx.lshr(lo, s)) };
        // shifts by w yield 0 in SMT-LIB, which is what is wanted for s == 0
        let r = e.cx.or(p, q); return Ok(Some(e.vl(r))); }
        Val::W(s) => (*s % w as u128) as u16, _ => return Err(Stop::Unsupported("fsh".into())) };
    let _ = &st;
    let (hi, lo) = (e.ex(&a[0], w), e.ex(&a[1], w));
    let s = if left { s } else { (w - s) % w };
    if s == 0 { return Ok(Some(if left { a[0].clone() } else { a[1].clone() })); }
    let h = e.cx.extract(hi, w - 1 - s, 0); let l = e.cx.extract(lo, w - 1, w - s); let r = e.cx.concat(h, l); Ok(Some(e.vl(r)))
}
fn i_fshl(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { fsh(e, st, a, t.width(), true) }
fn i_fshr(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { fsh(e, st, a, t.width(), false) }

// ---------------- allocation ------------------------------------------
const HUGE: u64 = 1 << 34; // larger requests fail (no such amount of memory)
fn do_alloc(e: &mut Eng, st: &mut State, v: &Val) -> Result<u64, Stop> {
    let n = match v {
        Val::I(n) => *n,
        Val::S(x) => {
            // the object gets the largest size the path allows; Rust's own bounds checks use the symbolic length
            let (_, hi) = e.cx.range(*x);
            let hk = e.cx.konst(64, HUGE as u128); let big = e.cx.ult(hk, *x);
            if e.decide(st, big)? { return Ok(0); }
            (hi as u64).min(HUGE)
        }
        _ => return Err(Stop::Unsupported("alloc size".into())),
    };
    if n > HUGE { return Ok(0); }
    Ok(e.alloc(st, n))
}
fn x_malloc(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Ok(Some(Val::I(do_alloc(e, st, &a[0])?))) }
fn x_calloc(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { let n = e.bin(Bin::Mul, 64, &a[0], &a[1])?; Ok(Some(Val::I(do_alloc(e, st, &n)?))) }
fn x_aligned(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Ok(Some(Val::I(do_alloc(e, st, &a[1])?))) }
fn x_memalign(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { let p = do_alloc(e, st, &a[2])?; if p == 0 { return Ok(Some(Val::I(12))); } e.store(st, &Ty::Ptr, &Val::I(p), &a[0])?; Ok(Some(Val::I(0))) }
fn x_free(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { let p = e.caddr(st, &a[0], "free")?; if p != 0 { let id = (p >> OBJ_SHIFT) as u32; if p & OFFM != 0 || id as usize >= st.mem.len() || st.mem[id as usize].is_none() { return Err(Stop::Mem("bad free".into())); } e.free_obj(st, id); } Ok(None) }
fn x_realloc(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R {
    let p = e.caddr(st, &a[0], "realloc")?; let q = do_alloc(e, st, &a[1])?; if q == 0 { return Ok(Some(Val::I(0))); } if p == 0 { return Ok(Some(Val::I(q))); }
    let o = e.obj(st, p >> OBJ_SHIFT)?; let nsz = e.obj(st, q >> OBJ_SHIFT)?.size; let n = (o.data.len() as u64).min(nsz);
    if n > 0 { e.obj_mut(st, q >> OBJ_SHIFT)?.copy_in(0, &o, 0, n); }
    e.free_obj(st, (p >> OBJ_SHIFT) as u32); Ok(Some(Val::I(q)))
}
// ---------------- memory comparison -----------------------------------
fn x_bcmp(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R {
    let n = e.cnum(st, &a[2], "bcmp length")?; if n == 0 { return Ok(Some(Val::I(0))); }
    let (p, q) = (e.caddr(st, &a[0], "bcmp")?, e.caddr(st, &a[1], "bcmp")?); let (x, y) = (e.bytes(st, p, n)?, e.bytes(st, q, n)?);
    let mut c = 1;
    for i in 0..n as usize { let (b, d) = (e.ex(&x[i], 8), e.ex(&y[i], 8)); let q = e.cx.eq(b, d); c = e.cx.and(c, q); if c == 0 { break; } }
    let (z, o) = (e.cx.konst(32, 0), e.cx.konst(32, 1)); let r = e.cx.ite(c, z, o); Ok(Some(e.vl(r)))
}
fn x_memcmp(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R {
    let n = e.cnum(st, &a[2], "memcmp length")?; if n == 0 { return Ok(Some(Val::I(0))); }
    let (p, q) = (e.caddr(st, &a[0], "memcmp")?, e.caddr(st, &a[1], "memcmp")?); let (x, y) = (e.bytes(st, p, n)?, e.bytes(st, q, n)?);
    let mut r = e.cx.konst(32, 0);
    for i in (0..n as usize).rev() { let (b, d) = (e.ex(&x[i], 8), e.ex(&y[i], 8)); if b == d { continue; } let (bz, dz) = (e.cx.zext(b, 32), e.cx.zext(d, 32)); let s = e.cx.sub(bz, dz); let c = e.cx.eq(b, d); r = e.cx.ite(c, r, s); }
    Ok(Some(e.vl(r)))
}
fn x_strlen(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { let p = e.caddr(st, &a[0], "strlen")?; let mut n = 0; loop { let b = e.bytes(st, p + n, 1)?[0].clone(); let z = e.icmp(Pred::Eq, 8, &b, &Val::I(0)); if e.cond(st, &z)? { return Ok(Some(Val::I(n))); } n += 1; } }
fn x_memchr(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { let p = e.caddr(st, &a[0], "memchr")?; let n = e.cnum(st, &a[2], "memchr")?; let c = match &a[1] { Val::I(x) => Val::I(x & 255), Val::S(x) => { let q = e.cx.extract(*x, 7, 0); e.vl(q) } v => v.clone() }; for i in 0..n { let b = e.bytes(st, p + i, 1)?[0].clone(); let z = e.icmp(Pred::Eq, 8, &b, &c); if e.cond(st, &z)? { return Ok(Some(Val::I(p + i))); } } Ok(Some(Val::I(0))) }
fn x_memrchr(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { let p = e.caddr(st, &a[0], "memrchr")?; let n = e.cnum(st, &a[2], "memrchr")?; let c = match &a[1] { Val::I(x) => Val::I(x & 255), v => v.clone() }; for i in (0..n).rev() { let b = e.bytes(st, p + i, 1)?[0].clone(); let z = e.icmp(Pred::Eq, 8, &b, &c); if e.cond(st, &z)? { return Ok(Some(Val::I(p + i))); } } Ok(Some(Val::I(0))) }

// ---------------- errno / files ---------------------------------------
fn errno_addr(e: &mut Eng, st: &mut State) -> u64 { if let Some(a) = st.opts.get("errno") { return *a; } let a = e.alloc(st, 8); st.opts.insert("errno".into(), a); a }
fn x_errno(e: &mut Eng, st: &mut State, _: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Ok(Some(Val::I(errno_addr(e, st)))) }
fn fail(e: &mut Eng, st: &mut State, no: u32, t: &Ty) -> R { let a = errno_addr(e, st); e.put(st, a, &no.to_le_bytes())?; Ok(Some(Val::I(mask(t.width().max(32)) as u64))) }
fn norm(p: &[u8]) -> Vec<u8> {
    let s = String::from_utf8_lossy(p).to_string(); let full = if s.starts_with('/') { s } else { format!("/sx/{s}") };
    let mut v: Vec<&str> = vec![]; for c in full.split('/') { match c { "" | "." => {} ".." => { v.pop(); } x => v.push(x) } }
    format!("/{}", v.join("/")).into_bytes()
}
fn parent_ok(st: &State, p: &[u8]) -> bool { let s = String::from_utf8_lossy(p); let i = s.rfind('/').unwrap_or(0); let d = if i == 0 { "/" } else { &s[..i] }; matches!(st.fs.names.get(d.as_bytes()), Some(Node2::Dir)) }
fn log(st: &mut State, s: String) { st.fs.log.push(s); }
/// sx_opt("jail", address of a path): from here on a change outside that directory is a violation and has no effect
fn jail(e: &mut Eng, st: &mut State, p: &[u8]) -> Result<(), Stop> {
    let Some(j) = st.opts.get("jail").copied() else { return Ok(()) };
    let mut d = norm(&e.cstr(st, j)?); let n = norm(p); if n == d { return Ok(()); } d.push(b'/'); if n.starts_with(&d) { return Ok(()); }
    e.violation(st, "assert", "nothing outside the given directory is changed".into(), &[])?; Err(Stop::Done)
}
pub fn do_open(e: &mut Eng, st: &mut State, p: u64, flags: u64) -> Result<Result<u64, u32>, Stop> {
    let raw = e.cstr(st, p)?; let path = norm(&raw);
    let (creat, excl, trunc, app) = (flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0);
    if flags & 0o20200000 == 0o20200000 { return Ok(Err(95)); }
    if creat || trunc || flags & 3 != 0 { jail(e, st, &raw)?; }
    if creat || trunc { if let Some(no) = faulty(st) { return Ok(Err(no)); } }
    if raw.ends_with(b"/") && !matches!(st.fs.names.get(&path), Some(Node2::Dir)) { return Ok(Err(if creat { 21 } else if st.fs.names.contains_key(&path) { 20 } else { 2 })); }
    let ino = match st.fs.names.get(&path) {
        Some(Node2::Dir) => { if flags & 3 != 0 { return Ok(Err(21)); } st.fs.inodes.push(Rc::new(Obj::zeroed(0))); st.fs.inodes.len() - 1 }
        Some(Node2::File(i)) => { let i = *i; if creat && excl { return Ok(Err(17)); } if trunc { st.fs.inodes[i] = Rc::new(Obj::zeroed(0)); log(st, format!("truncate {}", String::from_utf8_lossy(&path))); } i }
        None => { if !creat { return Ok(Err(2)); } if !parent_ok(st, &path) { return Ok(Err(2)); } st.fs.inodes.push(Rc::new(Obj::zeroed(0))); let i = st.fs.inodes.len() - 1; log(st, format!("create {}", String::from_utf8_lossy(&path))); st.fs.names.insert(path, Node2::File(i)); i }
    };
    let fd = st.fs.fds.iter().skip(3).position(|x| x.is_none()).map(|x| x + 3).unwrap_or_else(|| { st.fs.fds.push(None); st.fs.fds.len() - 1 });
    st.fs.fds[fd] = Some(Fd { ino, pos: Val::I(0), append: app, write: flags & 3 != 0 });
    Ok(Ok(fd as u64))
}
fn x_open(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let p = e.caddr(st, &a[0], "path")?; let fl = e.cnum(st, &a[1], "flags")?; match do_open(e, st, p, fl)? { Ok(fd) => Ok(Some(Val::I(fd))), Err(no) => fail(e, st, no, t) } }
fn x_openat(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let p = e.caddr(st, &a[1], "path")?; let fl = e.cnum(st, &a[2], "flags")?; match do_open(e, st, p, fl)? { Ok(fd) => Ok(Some(Val::I(fd))), Err(no) => fail(e, st, no, t) } }
fn x_close(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { let fd = e.cnum(st, &a[0], "fd")? as usize; if fd >= 3 && fd < st.fs.fds.len() { st.fs.fds[fd] = None; } Ok(Some(Val::I(0))) }
fn getfd(e: &mut Eng, st: &mut State, v: &Val) -> Result<Option<usize>, Stop> { let fd = e.cnum(st, v, "fd")? as u32 as usize; if fd < st.fs.fds.len() && st.fs.fds[fd].is_some() { Ok(Some(fd)) } else { Ok(None) } }
fn read_at(e: &mut Eng, st: &mut State, ino: usize, pos: &Val, buf: &Val, cnt: &Val) -> Result<Val, Stop> {
    let f = st.fs.inodes[ino].clone();
    // position
    let pos = match pos { Val::I(p) => *p, Val::S(x) => { let l = e.cx.konst(64, f.size as u128); let past = e.cx.ule(l, *x); if e.decide(st, past)? { return Ok(Val::I(0)); } e.concretize(st, *x, "file position")? as u64 } _ => return Err(Stop::Unsupported("pos".into())) };
    let rem = f.size.saturating_sub(pos);
    let n = match cnt { Val::I(n) => (*n).min(rem), Val::S(x) => { let r = e.cx.konst(64, rem as u128); let all = e.cx.ule(r, *x); if e.decide(st, all)? { rem } else { e.concretize(st, *x, "read count")? as u64 } } _ => return Err(Stop::Unsupported("count".into())) };
    let mut n = n;
    // fault model: short reads
    if let Some(mx) = st.opts.get("short_read").copied() { if n > mx { n = mx; } }
    if n > 0 { let b = e.caddr(st, buf, "read buffer")?; let o = e.obj(st, b >> OBJ_SHIFT)?; e.chk(&o, b & OFFM, n)?; drop(o); e.obj_mut(st, b >> OBJ_SHIFT)?.copy_in(b & OFFM, &f, pos, n); }
    Ok(Val::I(n))
}
fn advance(e: &mut Eng, pos: &Val, n: u64) -> Val { match pos { Val::I(p) => Val::I(p + n), Val::S(x) => { let k = e.cx.konst(64, n as u128); let s = e.cx.add(*x, k); e.vl(s) } v => v.clone() } }
fn x_read(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R {
    let fd = match getfd(e, st, &a[0])? { Some(f) => f, None => return fail(e, st, 9, t) };
    if let Some(k) = st.opts.get("fail_read").copied() { let c = st.opts.get("read_count").copied().unwrap_or(0); st.opts.insert("read_count".into(), c + 1); if c == k { return fail(e, st, 5, t); } }
    let (ino, pos) = { let f = st.fs.fds[fd].as_ref().unwrap(); (f.ino, f.pos.clone()) };
    let n = read_at(e, st, ino, &pos, &a[1], &a[2])?;
    if let Val::I(k) = n { let p = match &pos { Val::S(x) if k > 0 => Val::I(st.known.get(x).copied().unwrap_or(0) as u64), p => p.clone() }; let np = advance(e, &p, k); st.fs.fds[fd].as_mut().unwrap().pos = np; }
    Ok(Some(n))
}
fn x_pread(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let fd = match getfd(e, st, &a[0])? { Some(f) => f, None => return fail(e, st, 9, t) }; let ino = st.fs.fds[fd].as_ref().unwrap().ino; Ok(Some(read_at(e, st, ino, &a[3], &a[1], &a[2])?)) }
fn write_at(e: &mut Eng, st: &mut State, ino: usize, pos: u64, buf: u64, n: u64) -> Result<(), Stop> {
    if n == 0 { return Ok(()); }
    let src = e.obj(st, buf >> OBJ_SHIFT)?; e.chk(&src, buf & OFFM, n)?;
    if pos + n > 1 << 26 { return Err(Stop::Bound("file larger than 64 MiB".into())); }
    let f = Rc::make_mut(&mut st.fs.inodes[ino]); if f.size < pos + n { f.size = pos + n; } f.ensure(pos + n); f.copy_in(pos, &src, buf & OFFM, n);
    Ok(())
}
fn x_write(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R {
    let fdn = e.cnum(st, &a[0], "fd")? as u32; let n = e.cnum(st, &a[2], "write count")?;
    if fdn == 1 || fdn == 2 { return Ok(Some(Val::I(n))); }
    let fd = match getfd(e, st, &a[0])? { Some(f) => f, None => return fail(e, st, 9, t) };
    let f = st.fs.fds[fd].clone().unwrap(); if !f.write { return fail(e, st, 9, t); }
    let bad = fault(e, st, t)?; if bad.is_some() && !torn(st) { return Ok(bad); }
    let pos = if f.append { st.fs.inodes[f.ino].size } else { e.cnum(st, &f.pos, "write position")? };
    let b = e.caddr(st, &a[1], "write buffer")?;
    if bad.is_some() { write_at(e, st, f.ino, pos, b, n / 2)?; return Ok(bad); }
    let n = st.opts.get("short_write").map_or(n, |m| n.min(*m));
    write_at(e, st, f.ino, pos, b, n)?; let s = format!("write ino{}", f.ino); log(st, s);
    st.fs.fds[fd].as_mut().unwrap().pos = Val::I(pos + n); Ok(Some(Val::I(n)))
}
/// injected I/O failures, counted over the operations that change a file or a name: with sx_opt("fail_write", k) the k-th fails once
/// with ENOSPC, with sx_opt("crash", k) it and all later ones fail (what is left is what a process stopped there leaves behind)
fn faulty(st: &mut State) -> Option<u32> {
    let (f, c) = (st.opts.get("fail_write").copied(), st.opts.get("crash").copied()); if f.is_none() && c.is_none() { return None; }
    let n = st.opts.get("write_count").copied().unwrap_or(0); st.opts.insert("write_count".into(), n + 1);
    if f == Some(n) { return Some(28); } if c.is_some_and(|c| n >= c) { return Some(5); } None
}
fn fault(e: &mut Eng, st: &mut State, t: &Ty) -> Result<Option<Val>, Stop> { match faulty(st) { Some(no) => Ok(fail(e, st, no, t)?), None => Ok(None) } }
/// the write at which a crash happens got this far
fn torn(st: &State) -> bool { let c = st.opts.get("crash").copied(); c.is_some() && st.opts.contains_key("torn") && c == st.opts.get("write_count").copied().map(|n| n - 1) }
fn x_pwrite(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let fd = match getfd(e, st, &a[0])? { Some(f) => f, None => return fail(e, st, 9, t) }; let n = e.cnum(st, &a[2], "n")?; let p = e.cnum(st, &a[3], "pos")?; let b = e.caddr(st, &a[1], "buf")?; let ino = st.fs.fds[fd].as_ref().unwrap().ino; write_at(e, st, ino, p, b, n)?; Ok(Some(Val::I(n))) }
fn x_writev(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R {
    let fdn = e.cnum(st, &a[0], "fd")? as u32; let iov = e.caddr(st, &a[1], "iov")?; let c = e.cnum(st, &a[2], "iovcnt")?; let mut tot = 0;
    for i in 0..c { let b = e.load(st, &Ty::Ptr, &Val::I(iov + 16 * i))?; let n = e.load(st, &Ty::Int(64), &Val::I(iov + 16 * i + 8))?; let n = e.cnum(st, &n, "iov len")?; tot += n;
        if fdn > 2 { let fd = match getfd(e, st, &a[0])? { Some(f) => f, None => return fail(e, st, 9, t) }; let f = st.fs.fds[fd].clone().unwrap(); let pos = if f.append { st.fs.inodes[f.ino].size } else { e.cnum(st, &f.pos, "pos")? }; let b = e.caddr(st, &b, "iov base")?; write_at(e, st, f.ino, pos, b, n)?; st.fs.fds[fd].as_mut().unwrap().pos = Val::I(pos + n); } }
    Ok(Some(Val::I(tot)))
}
fn x_lseek(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R {
    let fd = match getfd(e, st, &a[0])? { Some(f) => f, None => return fail(e, st, 9, t) }; let wh = e.cnum(st, &a[2], "whence")? as u32;
    let base = match wh { 0 => Val::I(0), 1 => st.fs.fds[fd].as_ref().unwrap().pos.clone(), _ => { let i = st.fs.fds[fd].as_ref().unwrap().ino; Val::I(st.fs.inodes[i].size) } };
    let np = e.bin(Bin::Add, 64, &base, &a[1])?;
    let neg = e.icmp(Pred::Slt, 64, &np, &Val::I(0));
    if e.cond(st, &neg)? { return fail(e, st, 22, t); }
    st.fs.fds[fd].as_mut().unwrap().pos = np.clone(); Ok(Some(np))
}
fn x_ftruncate(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let fd = match getfd(e, st, &a[0])? { Some(f) => f, None => return fail(e, st, 9, t) }; let n = e.cnum(st, &a[1], "len")?; if let Some(r) = fault(e, st, t)? { return Ok(Some(r)); } let i = st.fs.fds[fd].as_ref().unwrap().ino; let f = Rc::make_mut(&mut st.fs.inodes[i]); f.size = n; f.data.truncate(n as usize); let _ = f.sym.split_off(&n); Ok(Some(Val::I(0))) }
fn put_stat(e: &mut Eng, st: &mut State, b: u64, dir: bool, size: u64, ino: u64) -> Result<(), Stop> {
    // asm-generic struct stat64 (riscv64): dev u64, ino u64, mode u32, nlink u32, uid, gid, rdev u64, pad u64, size i64 @48, blksize i32 @56, pad, blocks @64
    let mut d = vec![0u8; 128]; d[8..16].copy_from_slice(&ino.to_le_bytes()); d[16..20].copy_from_slice(&(if dir { 0o040755u32 } else { 0o100644 }).to_le_bytes()); d[20] = 1; d[48..56].copy_from_slice(&size.to_le_bytes()); d[56..60].copy_from_slice(&4096u32.to_le_bytes()); e.put(st, b, &d)
}
fn put_statx(e: &mut Eng, st: &mut State, b: u64, dir: bool, size: u64, ino: u64) -> Result<(), Stop> {
    let mut d = vec![0u8; 256]; d[0..4].copy_from_slice(&0xfffu32.to_le_bytes()); d[4..8].copy_from_slice(&4096u32.to_le_bytes()); d[16] = 1; d[28..30].copy_from_slice(&(if dir { 0o040755u16 } else { 0o100644 }).to_le_bytes()); d[32..40].copy_from_slice(&ino.to_le_bytes()); d[40..48].copy_from_slice(&size.to_le_bytes()); e.put(st, b, &d)
}
fn find(st: &State, p: &[u8]) -> Option<(bool, u64, u64)> { match st.fs.names.get(&norm(p)) { Some(Node2::Dir) => Some((true, 4096, 1)), Some(Node2::File(i)) => Some((false, st.fs.inodes[*i].size, *i as u64 + 10)), None => None } }
fn x_fstat(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let fd = match getfd(e, st, &a[0])? { Some(f) => f, None => return fail(e, st, 9, t) }; let i = st.fs.fds[fd].as_ref().unwrap().ino; let sz = st.fs.inodes[i].size; let b = e.caddr(st, &a[1], "stat")?; put_stat(e, st, b, false, sz, i as u64 + 10)?; Ok(Some(Val::I(0))) }
fn x_stat(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let p = e.caddr(st, &a[0], "path")?; let s = e.cstr(st, p)?; match find(st, &s) { Some((d, z, i)) => { let b = e.caddr(st, &a[1], "stat")?; put_stat(e, st, b, d, z, i)?; Ok(Some(Val::I(0))) } None => fail(e, st, 2, t) } }
fn x_statx(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R {
    let fdn = e.cnum(st, &a[0], "fd")? as u32; let p = e.caddr(st, &a[1], "path")?; let b = e.caddr(st, &a[4], "statx")?;
    if p == 0 || b == 0 { return fail(e, st, 14, t); }
    let s = e.cstr(st, p)?;
    if s.is_empty() { let fd = match getfd(e, st, &Val::I(fdn as u64))? { Some(f) => f, None => return fail(e, st, 9, t) }; let i = st.fs.fds[fd].as_ref().unwrap().ino; let sz = st.fs.inodes[i].size; put_statx(e, st, b, false, sz, i as u64 + 10)?; return Ok(Some(Val::I(0))); }
    match find(st, &s) { Some((d, z, i)) => { put_statx(e, st, b, d, z, i)?; Ok(Some(Val::I(0))) } None => fail(e, st, 2, t) }
}
fn do_unlink(st: &mut State, p: &[u8]) -> u32 { let n = norm(p); match st.fs.names.get(&n) { Some(Node2::File(_)) => { st.fs.names.remove(&n); log(st, format!("unlink {}", String::from_utf8_lossy(&n))); 0 } Some(Node2::Dir) => 21, None => 2 } }
fn do_rename(st: &mut State, p: &[u8], q: &[u8], noreplace: bool) -> u32 { let (a, b) = (norm(p), norm(q)); let v = match st.fs.names.get(&a) { Some(x) => x.clone(), None => return 2 }; if !parent_ok(st, &b) { return 2; } if noreplace && st.fs.names.contains_key(&b) { return 17; } st.fs.names.remove(&a); st.fs.names.insert(b.clone(), v); log(st, format!("rename {} {}", String::from_utf8_lossy(&a), String::from_utf8_lossy(&b))); 0 }
fn rc(e: &mut Eng, st: &mut State, no: u32, t: &Ty) -> R { if no == 0 { Ok(Some(Val::I(0))) } else { fail(e, st, no, t) } }
fn x_unlink(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let p = e.caddr(st, &a[0], "path")?; let s = e.cstr(st, p)?; jail(e, st, &s)?; if let Some(r) = fault(e, st, t)? { return Ok(Some(r)); } let no = do_unlink(st, &s); rc(e, st, no, t) }
fn x_rename(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let (p, q) = (e.caddr(st, &a[0], "path")?, e.caddr(st, &a[1], "path")?); let (s, d) = (e.cstr(st, p)?, e.cstr(st, q)?); jail(e, st, &s)?; jail(e, st, &d)?; if let Some(r) = fault(e, st, t)? { return Ok(Some(r)); } let no = do_rename(st, &s, &d, false); rc(e, st, no, t) }
fn x_mkdir(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let p = e.caddr(st, &a[0], "path")?; let s = e.cstr(st, p)?; let n = norm(&s); if st.fs.names.contains_key(&n) { return fail(e, st, 17, t); } jail(e, st, &s)?; if !parent_ok(st, &n) { return fail(e, st, 2, t); } log(st, format!("mkdir {}", String::from_utf8_lossy(&n))); st.fs.names.insert(n, Node2::Dir); Ok(Some(Val::I(0))) }
fn do_link(st: &mut State, s: &[u8], d: &[u8]) -> u32 { let (a, b) = (norm(s), norm(d)); if st.fs.names.contains_key(&b) { return 17; } match st.fs.names.get(&a).cloned() { Some(v) => { st.fs.names.insert(b, v); 0 } None => 2 } }
fn x_linkat(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let (p, q) = (e.caddr(st, &a[1], "path")?, e.caddr(st, &a[3], "path")?); let (s, d) = (e.cstr(st, p)?, e.cstr(st, q)?); jail(e, st, &d)?; let no = do_link(st, &s, &d); rc(e, st, no, t) }
fn x_link(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], t: &Ty) -> R { let (p, q) = (e.caddr(st, &a[0], "path")?, e.caddr(st, &a[1], "path")?); let (s, d) = (e.cstr(st, p)?, e.cstr(st, q)?); jail(e, st, &d)?; let no = do_link(st, &s, &d); rc(e, st, no, t) }
fn x_realpath(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { let p = e.caddr(st, &a[0], "path")?; let s = e.cstr(st, p)?; let mut n = norm(&s); if !st.fs.names.contains_key(&n) { let t = Ty::Int(32); fail(e, st, 2, &t)?; return Ok(Some(Val::I(0))); } n.push(0); let o = e.alloc(st, n.len() as u64); e.put(st, o, &n)?; Ok(Some(Val::I(o))) }
fn x_getcwd(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { let p = e.caddr(st, &a[0], "buf")?; e.put(st, p, b"/sx\0")?; Ok(Some(Val::I(p))) }
fn x_clock(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { let p = e.caddr(st, &a[1], "ts")?; let mut d = vec![0u8; 16]; d[..8].copy_from_slice(&1_700_000_000u64.to_le_bytes()); e.put(st, p, &d)?; Ok(Some(Val::I(0))) }
fn x_getrandom(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { let p = e.caddr(st, &a[0], "buf")?; let n = e.cnum(st, &a[1], "n")?; let c = st.opts.get("rnd").copied().unwrap_or(0); st.opts.insert("rnd".into(), c + n); let d: Vec<u8> = (0..n).map(|i| ((c + i).wrapping_mul(0x9E3779B97F4A7C15) >> 56) as u8).collect(); e.put(st, p, &d)?; Ok(Some(Val::I(n))) }
/// a directory stream: position, buffer for one entry, path
fn x_opendir(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R {
    let p = e.caddr(st, &a[0], "path")?; let s = e.cstr(st, p)?; let n = norm(&s);
    match st.fs.names.get(&n) { Some(Node2::Dir) => {} x => { let no = if x.is_some() { 20 } else { 2 }; fail(e, st, no, &Ty::Int(32))?; return Ok(Some(Val::I(0))); } }
    let o = e.alloc(st, 512 + n.len() as u64 + 1); e.put(st, o, &[0; 512])?; e.put(st, o + 512, &n)?; e.put(st, o + 512 + n.len() as u64, &[0])?; Ok(Some(Val::I(o)))
}
fn x_readdir(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R {
    let o = e.caddr(st, &a[0], "dir")?; let k = e.load(st, &Ty::Int(64), &Val::I(o))?; let k = e.cnum(st, &k, "dir position")?; let mut p = e.cstr(st, o + 512)?; if p != b"/" { p.push(b'/'); }
    let mut v: Vec<(Vec<u8>, bool)> = vec![(b".".to_vec(), true), (b"..".to_vec(), true)];
    for (n, x) in st.fs.names.iter() { if n.len() > p.len() && n.starts_with(&p) && !n[p.len()..].contains(&b'/') { v.push((n[p.len()..].to_vec(), matches!(x, Node2::Dir))); } }
    v.sort(); if k as usize >= v.len() { return Ok(Some(Val::I(0))); }
    let (n, d) = &v[k as usize]; if n.len() > 200 { return Err(Stop::Bound("long directory entry".into())); }
    let mut b = vec![0u8; 19]; b[0] = 1; b[16] = 20 + n.len() as u8; b[18] = if *d { 4 } else { 8 }; b.extend(n); b.push(0);
    e.put(st, o, &(k + 1).to_le_bytes())?; e.put(st, o + 16, &b)?; Ok(Some(Val::I(o + 16)))
}
fn x_closedir(_: &mut Eng, _: &mut State, _: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Ok(Some(Val::I(0))) }
fn futex(e: &mut Eng, st: &mut State, a: &[Val]) -> Result<i64, Stop> {
    let op = e.cnum(st, &a[1], "futex op")? & 0x7f;
    match op { 0 | 9 => { let v = e.load(st, &Ty::Int(32), &a[0])?; let v = e.cnum(st, &v, "futex")? as u32; let x = e.cnum(st, &a[2], "futex val")? as u32; if v == x { let w = e.whereami(st); return Err(Stop::Deadlock(format!("the only thread blocks on a lock it already holds [{w}]"))); } Ok(-11) } _ => Ok(0) }
}
fn x_syscall(e: &mut Eng, st: &mut State, a: &[Val], t: &[(Ty, Opnd)], r: &Ty) -> R {
    let nr = e.cnum(st, &a[0], "syscall")?;
    match nr {
        98 => { let v = futex(e, st, &a[1..])?; if v < 0 { fail(e, st, (-v) as u32, r) } else { Ok(Some(Val::I(v as u64))) } }
        278 => x_getrandom(e, st, &a[1..], t, r),
        291 => x_statx(e, st, &a[1..], t, r),
        178 => Ok(Some(Val::I(1))),
        _ => fail(e, st, 38, r),
    }
}
pub fn ecall(e: &mut Eng, st: &mut State, a: &[Val]) -> Result<Val, Stop> {
    let nr = e.cnum(st, &a[0], "ecall")?;
    let neg = |no: u32| Val::I((-(no as i64)) as u64);
    Ok(match nr {
        276 => { let (p, q) = (e.caddr(st, &a[2], "path")?, e.caddr(st, &a[4], "path")?); let (s, d) = (e.cstr(st, p)?, e.cstr(st, q)?); let fl = e.cnum(st, &a[5], "flags")?; jail(e, st, &s)?; jail(e, st, &d)?;
            if fault(e, st, &Ty::Int(64))?.is_some() { return Ok(neg(28)); }
            let no = do_rename(st, &s, &d, fl & 1 != 0); if no == 0 { Val::I(0) } else { neg(no) } }
        35 => { let p = e.caddr(st, &a[2], "path")?; let s = e.cstr(st, p)?; jail(e, st, &s)?; let no = do_unlink(st, &s); if no == 0 { Val::I(0) } else { neg(no) } }
        37 => { let (p, q) = (e.caddr(st, &a[2], "path")?, e.caddr(st, &a[4], "path")?); let (s, d) = (e.cstr(st, p)?, e.cstr(st, q)?); jail(e, st, &d)?; let no = do_link(st, &s, &d); if no == 0 { Val::I(0) } else { neg(no) } }
        56 => { let p = e.caddr(st, &a[2], "path")?; let fl = e.cnum(st, &a[3], "flags")?; match do_open(e, st, p, fl)? { Ok(f) => Val::I(f), Err(no) => neg(no) } }
        57 => { x_close(e, st, &a[1..2], &[], &Ty::Int(32))?; Val::I(0) }
        _ => neg(38),
    })
}
// ---------------- harness interface -----------------------------------
fn rstr(e: &mut Eng, st: &mut State, p: &Val, n: &Val) -> Result<String, Stop> { let p = e.caddr(st, p, "str")?; let n = e.cnum(st, n, "len")?; let b = e.cbytes(st, p, n, "str")?; Ok(String::from_utf8_lossy(&b).to_string()) }
/// sx_sym(ptr, n, name, name_len): n fresh symbolic bytes
fn h_sym(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R {
    let p = e.caddr(st, &a[0], "sym")?; let n = e.cnum(st, &a[1], "sym len")?; let name = rstr(e, st, &a[2], &a[3])?;
    let occ = { let c = st.occ.entry(name.clone()).or_insert(0); *c += 1; *c };
    let first = { let key = (name.clone(), occ, n as u32); match e.vars.get(&key) { Some(f) => *f, None => { let f = e.cx.nvars; for i in 0..n { let v = e.cx.var8(&format!("{name}#{occ}[{i}]")); e.var_expr.push(v); } e.vars.insert(key, f); f } } };
    let fixed = if n == 1 { e.fix.get(&name).copied() } else { None };
    st.syms.push((name, first, n as u32));
    if n > 0 { let vs: Vec<E> = (0..n).map(|i| e.var_expr[(first as u64 + i) as usize]).collect();
        let o = e.obj(st, p >> OBJ_SHIFT)?; e.chk(&o, p & OFFM, n)?; drop(o);
        let o = e.obj_mut(st, p >> OBJ_SHIFT)?; o.ensure((p & OFFM) + n); for (i, v) in vs.into_iter().enumerate() { o.sym.insert((p & OFFM) + i as u64, v); } }
    if let Some(v) = fixed { let x = e.var_expr[first as usize]; let k = e.cx.konst(8, v as u128); let c = e.cx.eq(x, k); e.assume(st, c); }
    Ok(None)
}
fn h_assume(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R {
    match &a[0] { Val::I(x) => if x & 1 == 1 { Ok(None) } else { Err(Stop::Infeasible) },
        Val::S(x) => { let c = if e.cx.w(*x) > 1 { e.cx.extract(*x, 0, 0) } else { *x }; if st.known.get(&c) == Some(&1) { return Ok(None); } match e.so.check(&mut e.cx, &st.pc, &[c]) { crate::solver::Res::Sat(_) => { e.assume(st, c); Ok(None) } crate::solver::Res::Unsat => Err(Stop::Infeasible), _ => Err(Stop::Unknown("solver gave no answer on an assumption".into())) } }
        _ => Err(Stop::Unsupported("assume".into())) }
}
fn h_assert(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R {
    let msg = rstr(e, st, &a[1], &a[2])?; e.asserts += 1;
    st.covers.push(format!("assert:{msg}"));
    match &a[0] { Val::I(x) => { if x & 1 == 1 { e.asserts_trivial += 1; Ok(None) } else { e.violation(st, "assert", msg, &[])?; Err(Stop::Done) } }
        Val::S(x) => { let c = if e.cx.w(*x) > 1 { e.cx.extract(*x, 0, 0) } else { *x }; if c == 1 || st.known.get(&c) == Some(&1) { e.asserts_trivial += 1; return Ok(None); }
            let nc = e.cx.not(c);
            match e.so.check(&mut e.cx, &st.pc, &[nc]) {
                crate::solver::Res::Unsat => { st.known.insert(c, 1); Ok(None) }
                crate::solver::Res::Sat(_) => { e.violation(st, "assert", msg, &[nc])?; match e.so.check(&mut e.cx, &st.pc, &[c]) { crate::solver::Res::Sat(_) => { e.assume(st, c); Ok(None) } _ => Err(Stop::Done) } }
                _ => Err(Stop::Unknown(format!("solver gave no answer on assertion: {msg}"))) } }
        _ => Err(Stop::Unsupported("assert".into())) }
}
fn h_cover(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { let s = rstr(e, st, &a[0], &a[1])?; st.covers.push(s); Ok(None) }
fn h_is_sym(_: &mut Eng, _: &mut State, _: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Ok(Some(Val::I(1))) }
fn h_opt(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { let s = rstr(e, st, &a[0], &a[1])?; let v = e.cnum(st, &a[2], "opt")?; if s == "fail_read" { st.opts.remove("read_count"); } if s == "fail_write" || s == "crash" { st.opts.remove("write_count"); } if v == u64::MAX { st.opts.remove(&s); } else { st.opts.insert(s, v); } Ok(None) }
/// sx_pick(v): enumerate the feasible values of v (one path each)
fn h_pick(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { let v = e.cnum(st, &a[0], "pick")?; Ok(Some(Val::I(v))) }
/// sx_unique(v): 1 when v has one feasible value
fn h_unique(_e: &mut Eng, _st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Ok(Some(Val::I(matches!(a[0], Val::I(_)) as u64))) }
fn h_range(_: &mut Eng, _: &mut State, _: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Ok(None) }
fn h_stop(_: &mut Eng, _: &mut State, _: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { Err(Stop::Done) }
fn h_fslog(e: &mut Eng, st: &mut State, a: &[Val], _: &[(Ty, Opnd)], _: &Ty) -> R { // writes the log, newline separated, into (ptr,cap); returns length
    let p = e.caddr(st, &a[0], "buf")?; let cap = e.cnum(st, &a[1], "cap")?; let s = st.fs.log.join("\n").into_bytes(); let n = (s.len() as u64).min(cap); e.put(st, p, &s[..n as usize])?; Ok(Some(Val::I(n))) }
