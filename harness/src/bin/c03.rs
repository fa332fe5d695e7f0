//! C03: the block cipher loses nothing and is the format's cipher
#[path = "../sx.rs"] mod sx;
#[path = "../mpq.rs"] mod mpq;
use sx::*;
fn words(name: &str, n: usize) -> Vec<u32> { (0..n).map(|_| u32s(name)).collect() }
/// any key, up to 4 words: decrypt undoes encrypt, encrypt undoes decrypt
#[no_mangle] pub extern "C" fn h_roundtrip() {
    let n = choose("words", 5); let key = u32s("key"); let p = words("plain", n);
    let mut d = p.clone(); mopaq::encrypt_block(&mut d, key); mopaq::decrypt_block(&mut d, key);
    check(d == p, "decrypting the encrypted block gives the block");
    if n <= 2 { let mut d = p.clone(); mopaq::decrypt_block(&mut d, key); mopaq::encrypt_block(&mut d, key); check(d == p, "encrypting the decrypted block gives the block"); }
    if n == 4 { cover("four words"); }
}
/// any key: the ciphertext is the reference cipher's
#[no_mangle] pub extern "C" fn h_reference() {
    let n = choose("words", 4); let key = u32s("key"); let p = words("plain", n);
    let mut d = p.clone(); mopaq::encrypt_block(&mut d, key);
    let mut r = p.clone(); mpq::enc(&mut r, key);
    check(d == r, "encryption is the format's cipher");
}
/// fixed keys (the table keys and others), long blocks with symbolic contents
#[no_mangle] pub extern "C" fn h_long() {
    let key = [mpq::HKEY, mpq::BKEY, 1, 0xFFFF_FFFF, 0][choose("key", 5)]; let p = words("plain", [24, 70, 260][choose("words", 3)]);
    let mut d = p.clone(); mopaq::encrypt_block(&mut d, key);
    let mut r = p.clone(); mpq::enc(&mut r, key);
    check(d == r, "encryption is the format's cipher");
    mopaq::decrypt_block(&mut d, key);
    check(d == p, "decrypting the encrypted block gives the block");
    if key == 0 { check(r == p, "the zero key leaves data alone"); }
}
/// the one-word form agrees with the block form
#[no_mangle] pub extern "C" fn h_dword() {
    let (v, key) = (u32s("value"), u32s("key"));
    let mut d = [v]; mopaq::decrypt_block(&mut d, key);
    check(mopaq::decrypt_dword(v, key) == d[0], "single-word decryption agrees with the block cipher");
}
/// the table itself, at any index
#[no_mangle] pub extern "C" fn h_table() {
    let i = u16s("index") as usize; assume(i < 0x500);
    check(mopaq::crypto::ENCRYPTION_TABLE[i] == mpq::T[i], "the key table is the format's table");
}
/// byte-level encryption used for file data: any length, decrypts to the same bytes
#[no_mangle] pub extern "C" fn h_bytes() {
    let n = choose("len", 18); let key = u32s("key"); assume(key != 0); let p = symv("plain", n);
    let mut d = p.clone(); mopaq::ArchiveBuilder::new().encrypt_data(&mut d, key);
    check(d.len() == n, "length kept");
    let mut r = p.clone(); mpq::enc_bytes(&mut r, key);
    check(eq(&d, &r), "whole words are encrypted with the format's cipher, the bytes behind them are kept");
}
/// a block of more than 64 KiB: 16,500 words, a few of them symbolic, come back and are the format's cipher
#[no_mangle] pub extern "C" fn h_huge() {
    let key = [mpq::BKEY, 0x1234_5678][choose("key", 2)]; let mut p: Vec<u32> = (0..16_500u32).map(|i| i.wrapping_mul(2_654_435_761)).collect();
    let k = 16_490; for w in &mut p[k..k + 4] { *w = u32s("word"); }
    let mut d = p.clone(); mopaq::encrypt_block(&mut d, key);
    let mut r = p.clone(); mpq::enc(&mut r, key);
    check(d == r, "encryption is the format's cipher");
    mopaq::decrypt_block(&mut d, key);
    check(d == p, "decrypting the encrypted block gives the block");
}
harnesses!(h_roundtrip, h_reference, h_long, h_dword, h_table, h_bytes, h_huge);
