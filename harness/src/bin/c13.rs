//! C13: a signature is valid only for the archive it was made for
#[path = "../sx.rs"] mod sx;
#[path = "../mpq.rs"] mod mpq;
use mopaq::crypto::*;
use mopaq::*;
use sx::*;
use std::io::{Cursor, Read, Seek, SeekFrom};
const INFO: [u8; 18] = [0x30, 0x20, 0x30, 0x0C, 0x06, 0x08, 0x2A, 0x86, 0x48, 0x86, 0xF7, 0x0D, 0x02, 0x05, 0x05, 0x00, 0x04, 0x10];
/// PKCS #1 v1.5 block of an MD5
fn block(h: &[u8]) -> Vec<u8> { let mut v = vec![0, 1]; v.extend(vec![0xFF; 64 - 3 - 18 - 16]); v.push(0); v.extend(INFO); v.extend(h); v }
/// the decrypted weak signature must be the padded digest, in every byte
#[no_mangle] pub extern "C" fn h_weak() {
    let h = sym::<16>("digest"); let mut d = block(&h);
    let (p, n) = match choose("part", 8) { 0 => (1, 2), 1 => (2, 4), 2 => (20, 6), 3 => (24, 6), 4 => (29, 3), 5 => (30, 18), 6 => (48, 16), _ => (0, 1) };
    let want = d.clone(); let x = symv("bytes", n); d[p..p + n].copy_from_slice(&x);
    let r = verif::weak_verdict(&d, &h); check(r == eq(&d, &want), "a decrypted weak signature is accepted exactly if it is the padded digest");
    if r { cover("accepted") } else { cover("refused") }
}
/// shorter and longer numbers are not
#[no_mangle] pub extern "C" fn h_weak_size() {
    let h = sym::<16>("digest"); let n = [0usize, 1, 35, 44, 45, 46, 62, 63, 64, 65][choose("bytes", 10)]; let mut d = block(&h);
    while d.len() > n { d.remove(if d.len() > 40 { 5 } else { 0 }); } while d.len() < n { d.insert(4, 0xFF); }
    check(verif::weak_verdict(&d, &h) == (n == 64), "a block of another size is not accepted"); cover("decided");
}
#[no_mangle] pub extern "C" fn h_strong() {
    let h = sym::<20>("digest"); let mut d = vec![0x0Bu8]; d.extend(vec![0xBB; 235]); d.extend(h); let want = d.clone();
    let (p, n) = [(0, 4), (100, 5), (230, 6), (236, 20)][choose("part", 4)]; let x = symv("bytes", n); d[p..p + n].copy_from_slice(&x);
    let l = [256usize, 255, 257, 0][choose("size", 4)]; d.resize(l, 0);
    let r = verif::strong_verdict(&d, &h); check(r == (l == 256 && eq(&d, &want)), "a decrypted strong signature is accepted exactly if it is the padded digest");
    if r { cover("accepted") } else { cover("refused") }
}
/// a reader that gives at most `.1` bytes at a time
struct Slow(Cursor<Vec<u8>>, usize);
impl Read for Slow { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.0.read(&mut b[..n]) } }
impl Seek for Slow { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
fn info(b: u64, e: u64, x: u64, y: u64) -> SignatureInfo { SignatureInfo { begin_mpq_data: b, begin_exclude: x, end_exclude: y, end_mpq_data: e, end_of_file: e, signature: vec![1; 64], signature_size: 64, signature_types: 1 } }
fn want(d: &[u8], b: usize, e: usize, x: usize, y: usize) -> [u8; 16] { let mut m = d[b.min(d.len())..e.min(d.len())].to_vec(); for i in 0..m.len() { if b + i >= x && b + i < y { m[i] = 0; } } mpq::md5(&m) }
/// the digest covers the archive, and in it everything but the signature
#[no_mangle] pub extern "C" fn h_digest() {
    let mut d = symv("file", 40); let b = [0usize, 7][choose("begin", 2)]; let e = [20usize, 40][choose("end", 2)];
    let (x, y) = [(0usize, 0usize), (0, 7), (5, 9), (7, 12), (12, 20), (18, 22), (20, 40), (0, 40), (39, 60)][choose("signature", 9)]; let slow = [1usize, 3, 100000][choose("read size", 3)];
    // what the digest must not depend on is symbolic
    for i in 0..40 { if i >= b && i < e && !(i >= x && i < y) { d[i] = (i * 5 + 1) as u8; } }
    let r = calculate_mpq_hash_md5(Slow(Cursor::new(d.clone()), slow), &info(b as u64, e as u64, x as u64, y as u64));
    check(r.is_ok(), "the digest can be computed"); check(eq(&r.unwrap(), &want(&d, b, e, x, y)), "the digest covers the archive without the signature"); cover("computed");
}
/// the same around the boundary of the reading unit
#[no_mangle] pub extern "C" fn h_digest_long() {
    let n = 0x10000 + 100; let d: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8 | 1).collect(); let b = [0usize, 64][choose("begin", 2)];
    let (x, y) = [(10usize, 82usize), (0xFFF0, 0x10038), (0x10000, 0x10048), (0xFFB8, 0x10000), (0x10030, 0x10078)][choose("signature", 5)]; let l = [n, n - 30][choose("end", 2)];
    let r = calculate_mpq_hash_md5(Cursor::new(d.clone()), &info(b as u64, l as u64, x as u64, y as u64)).unwrap();
    check(eq(&r, &want(&d, b, l, x, y)), "the digest covers the archive without the signature at every reading unit"); cover("computed");
}
/// what counts as a signature
#[no_mangle] pub extern "C" fn h_parse() {
    let n = [0usize, 71, 72, 80][choose("size", 4)]; let d = symv("file", n); let at = choose("place", 3); for i in 0..n { if at < 2 && i != 7 && i != [8, 71][at] { assume(d[i] == 0); } }
    let zero = n >= 72 && eq(&d[8..72], &[0; 64]);
    match parse_weak_signature(&d) { Ok(s) => { check(n >= 72 && !zero, "a weak signature has 72 bytes and is not empty"); check(eq(&s, &d[8..72]), "the weak signature is behind its header"); cover("weak"); } Err(_) => { check(n < 72 || zero, "a weak signature is recognised"); cover("no weak"); } }
}
#[no_mangle] pub extern "C" fn h_parse_strong() {
    let n = [0usize, 259, 260, 300][choose("size", 4)]; let mut d = symv("file", n); let at = [4usize, 259][choose("place", 2)]; for i in 4..n { if i != at { d[i] = 0; } }
    let good = n >= 260 && eq(&d[..4], b"NGIS") && d[at] != 0;
    match parse_strong_signature(&d) { Ok(s) => { check(good, "a strong signature has its mark, 260 bytes and is not empty"); check(eq(&s, &d[4..260]), "the strong signature is behind its mark"); cover("strong"); } Err(_) => { check(!good, "a strong signature is recognised"); cover("no strong"); } }
}
/// no made-up signature is valid, a missing one is not one
#[no_mangle] pub extern "C" fn h_archive() {
    let k = choose("kind", 4); let mut sig = vec![0u8; 72]; for i in 8..72 { sig[i] = if k == 3 { 0xFF } else { (i * 37) as u8 }; } let s = choose("strong", 2) == 1;
    let name: &[u8] = if k == 0 { b"(other)" } else { b"(signature)" }; if k == 1 { sig = vec![0; 72]; }
    let b = [mpq::B { pos: 32, csize: 72, size: 72, flags: mpq::EXISTS | mpq::SINGLE }]; let mut d = mpq::v1(3, &sig, &mpq::place(4, &[name]), &b);
    if s { d.extend(b"NGIS"); d.extend((0..256).map(|i| (i * 11 + 1) as u8)); }
    std::fs::write(path("a.mpq"), d).unwrap(); let r = Archive::open(path("a.mpq")).unwrap().verify_signature(); check(r.is_ok(), "signatures can be examined");
    check(r.unwrap() == if s { SignatureStatus::StrongInvalid } else if k < 2 { SignatureStatus::None } else { SignatureStatus::WeakInvalid }, "the status is that of the signature there is"); cover("examined");
}
harnesses!(h_weak, h_weak_size, h_strong, h_digest, h_digest_long, h_parse, h_parse_strong, h_archive);
