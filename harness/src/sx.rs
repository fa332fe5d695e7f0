// Harness interface. Under the symbolic executor the sx_* functions are
// external and modelled; natively (feature cfg(not(sx)))) they replay a
// recorded assignment of the symbolic inputs against the real code.
#![allow(dead_code)]

#[cfg(sx)]
mod imp {
    extern "C" {
        fn sx_sym(p: *mut u8, n: usize, s: *const u8, l: usize);
        fn sx_assume(c: bool);
        fn sx_assert(c: bool, s: *const u8, l: usize);
        fn sx_cover(s: *const u8, l: usize);
        fn sx_opt(s: *const u8, l: usize, v: u64);
        fn sx_pick(v: u64) -> u64;
        fn sx_stop() -> !;
    }
    pub fn fill(p: &mut [u8], name: &str) { unsafe { sx_sym(p.as_mut_ptr(), p.len(), name.as_ptr(), name.len()) } }
    pub fn assume(c: bool) { unsafe { sx_assume(c) } }
    pub fn check(c: bool, m: &str) { unsafe { sx_assert(c, m.as_ptr(), m.len()) } }
    pub fn cover(m: &str) { unsafe { sx_cover(m.as_ptr(), m.len()) } }
    pub fn opt(k: &str, v: u64) { unsafe { sx_opt(k.as_ptr(), k.len(), v) } }
    pub fn pick(v: u64) -> u64 { unsafe { sx_pick(v) } }
    pub fn stop() -> ! { unsafe { sx_stop() } }
    pub fn dir() -> String { "/sx".to_string() }
}

#[cfg(not(sx))]
mod imp {
    use std::cell::RefCell;
    thread_local! { static IN: RefCell<(Vec<(String, Vec<u8>)>, usize)> = RefCell::new((vec![], 0)); static DIR: RefCell<String> = RefCell::new(String::new()); }
    pub fn load(file: &str, dir: &str) {
        let t = std::fs::read_to_string(file).expect("replay file");
        let mut v = vec![];
        for l in t.lines() {
            if l.starts_with('#') || l.trim().is_empty() { continue; }
            let (n, h) = l.rsplit_once(' ').unwrap_or((l, ""));
            let h = h.trim();
            v.push((n.to_string(), (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()));
        }
        IN.with(|i| *i.borrow_mut() = (v, 0)); DIR.with(|d| *d.borrow_mut() = dir.to_string());
    }
    pub fn fill(p: &mut [u8], name: &str) {
        IN.with(|i| {
            let mut i = i.borrow_mut(); let k = i.1; i.1 += 1;
            match i.0.get(k) {
                Some((n, b)) if n == name && b.len() == p.len() => p.copy_from_slice(b),
                _ => { eprintln!("REPLAY-MISMATCH at input {k} ({name}, {} bytes)", p.len()); std::process::exit(77) }
            }
        })
    }
    pub fn assume(c: bool) { if !c { eprintln!("REPLAY-ASSUME not met"); std::process::exit(78) } }
    pub fn check(c: bool, m: &str) { if !c { eprintln!("ASSERTION FAILED: {m}"); std::process::exit(1) } }
    pub fn cover(_: &str) {}
    /// fault options are handed to the preloaded shim through its exported setter
    pub fn opt(k: &str, v: u64) {
        extern "C" { fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; }
        let f = unsafe { dlsym(std::ptr::null_mut(), c"sxshim_opt".as_ptr() as *const u8) };
        if f.is_null() { eprintln!("REPLAY-NOSHIM"); std::process::exit(79) }
        let f: extern "C" fn(*const u8, u64) = unsafe { std::mem::transmute(f) };
        let k = std::ffi::CString::new(k).unwrap();
        f(k.as_ptr() as *const u8, v)
    }
    pub fn pick(v: u64) -> u64 { v }
    pub fn stop() -> ! { std::process::exit(0) }
    pub fn dir() -> String { DIR.with(|d| d.borrow().clone()) }
}
pub use imp::*;

pub fn sym<const N: usize>(name: &str) -> [u8; N] { let mut c = [0u8; N]; fill(&mut c, name); c }
pub fn u8s(name: &str) -> u8 { sym::<1>(name)[0] }
pub fn u16s(name: &str) -> u16 { u16::from_le_bytes(sym::<2>(name)) }
pub fn u32s(name: &str) -> u32 { u32::from_le_bytes(sym::<4>(name)) }
pub fn u64s(name: &str) -> u64 { u64::from_le_bytes(sym::<8>(name)) }
pub fn bools(name: &str) -> bool { u8s(name) & 1 == 1 }
/// a symbolic value below n, one path per value
pub fn choose(name: &str, n: usize) -> usize { let v = u8s(name); assume((v as usize) < n); pick(v as u64) as usize }
pub fn symv(name: &str, n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; fill(&mut v, name); v }
/// from here on, a change to any file outside directory d fails the check (and is not carried out natively)
pub fn jail(d: &str) { let c = std::ffi::CString::new(d).unwrap(); opt("jail", c.into_raw() as u64) }
pub fn path(f: &str) -> String { format!("{}/{}", dir(), f) }
pub fn eq(a: &[u8], b: &[u8]) -> bool { a == b }

#[macro_export]
macro_rules! harnesses {
    ($($h:ident),* $(,)?) => {
        #[cfg(sx)]
        fn main() { $( $h(); )* }
        #[cfg(not(sx))]
        fn main() {
            let a: Vec<String> = std::env::args().collect();
            sx::load(&a[2], &a[3]);
            match a[1].as_str() { $( stringify!($h) => $h(), )* x => { eprintln!("no harness {x}"); std::process::exit(80) } }
            println!("COMPLETED {}", a[1]);
        }
    };
}
