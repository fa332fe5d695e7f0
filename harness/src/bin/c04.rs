//! C04: name hashes are the format's, and blind to case and slash direction
#[path = "../sx.rs"] mod sx;
#[path = "../mpq.rs"] mod mpq;
use sx::*;
fn name(n: usize) -> Vec<u8> { let v = symv("name", n); for c in &v { assume(*c < 0x80); } v }
fn st(v: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(v) } }
/// every ASCII name of up to 6 characters, all five kinds
#[no_mangle] pub extern "C" fn h_hash() {
    let n = choose("len", 7); let kind = choose("kind", 5) as u32; let v = name(n);
    check(mopaq::hash_string(st(&v), kind) == mpq::hash(&v, kind), "the name hash is the format's");
}
#[no_mangle] pub extern "C" fn h_jenkins() {
    let n = choose("len", 9); let v = name(n);
    check(mopaq::jenkins_hash(st(&v)) == mpq::jenkins(&v), "the 64-bit name hash is the format's");
}
/// bytes outside ASCII (two-byte characters) at any of three places
#[no_mangle] pub extern "C" fn h_wide() {
    let k = choose("at", 3); let kind = choose("kind", 5) as u32;
    let mut v = symv("name", 4); for i in 0..4 { if i != k && i != k + 1 { assume(v[i] < 0x80); } }
    assume((v[k] >= 0xC2) & (v[k] <= 0xDF) & (v[k + 1] & 0xC0 == 0x80));
    v.push(b'z');
    check(mopaq::hash_string(st(&v), kind) == mpq::hash(&v, kind), "the name hash of other characters is the format's");
    check(mopaq::jenkins_hash(st(&v)) == mpq::jenkins(&v), "the 64-bit name hash of other characters is the format's");
}
/// any two spellings that differ in case or slash direction only
#[no_mangle] pub extern "C" fn h_spelling() {
    let n = 1 + choose("len", 6); let kind = choose("kind", 5) as u32; let v = name(n);
    let w: Vec<u8> = v.iter().map(|&c| if bools("flip") { mpq::ALT[c as usize] } else { c }).collect();
    check(mopaq::hash_string(st(&v), kind) == mopaq::hash_string(st(&w), kind), "spellings of one name hash alike");
    check(mopaq::jenkins_hash(st(&v)) == mopaq::jenkins_hash(st(&w)), "spellings of one name have one 64-bit hash");
}
/// long names: 13 to 300 characters around two symbolic ones at the start, in the middle and at the end
#[no_mangle] pub extern "C" fn h_long() {
    let n = [13usize, 24, 25, 40, 100, 255, 256, 300][choose("len", 8)]; let at = [0, n / 2, n - 2][choose("at", 3)]; let kind = choose("kind", 5) as u32;
    let mut v: Vec<u8> = (0..n).map(|i| b"Interface\\FrameXML/Unit_"[i % 24]).collect(); let s = name(2); v[at..at + 2].copy_from_slice(&s);
    check(mopaq::hash_string(st(&v), kind) == mpq::hash(&v, kind), "the name hash is the format's");
    check(mopaq::jenkins_hash(st(&v)) == mpq::jenkins(&v), "the 64-bit name hash is the format's");
}
harnesses!(h_hash, h_jenkins, h_wide, h_spelling, h_long);
