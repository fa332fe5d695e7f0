//! C11: the integrity status of a version 4 archive says which parts are as they were written
#[path = "../sx.rs"] mod sx;
#[path = "../mpq.rs"] mod mpq;
use mopaq::*;
use sx::*;
fn make(n: usize, packed: bool) -> Vec<u8> {
    let mut b = ArchiveBuilder::new().version(FormatVersion::V4).listfile_option(ListfileOption::Generate).default_compression(0).compress_tables(packed);
    for i in 0..n { b = b.add_file_data(vec![i as u8; i + 3], ["a.txt", "b.txt", "c.txt"][i]); }
    b.build(path("o.mpq")).unwrap(); std::fs::read(path("o.mpq")).unwrap()
}
fn u32at(d: &[u8], o: usize) -> u64 { u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as u64 }
fn u64at(d: &[u8], o: usize) -> u64 { u64::from_le_bytes(d[o..o + 8].try_into().unwrap()) }
/// parts of a version 4 archive: where it is, how long it is, where its digest is (block, hash, HET, BET table, header)
fn parts(d: &[u8]) -> [(usize, usize, usize); 5] {
    [(u32at(d, 20) as usize, u64at(d, 76) as usize, 112), (u32at(d, 16) as usize, u64at(d, 68) as usize, 128), (u64at(d, 60) as usize, u64at(d, 92) as usize, 176), (u64at(d, 52) as usize, u64at(d, 100) as usize, 160), (0, 192, 192)]
}
fn status(d: &[u8]) -> Option<[bool; 5]> {
    std::fs::write(path("a.mpq"), d).unwrap();
    let mut a = Archive::open(path("a.mpq")).ok()?; let i = a.get_info().ok()?; let s = i.md5_status; check(s.is_some(), "a version 4 archive has an integrity status"); let s = s.unwrap();
    Some([s.block_table_valid, s.hash_table_valid, s.het_table_valid, s.bet_table_valid, s.header_valid])
}
fn placed(d: &[u8], off: usize) -> Vec<u8> { let mut v = vec![0; off]; v.extend(d); v }
fn kind() -> (Vec<u8>, usize) { let n = choose("files", 4); let p = choose("compressed tables", 2) == 1; (make(n, p), [0, 512][choose("offset", 2)]) }
/// an archive as built is valid in every part, and its digests are the parts' MD5
#[no_mangle] pub extern "C" fn h_built() {
    let (d, off) = kind();
    for (p, n, m) in parts(&d) { check(n > 0 && p + n <= d.len(), "every part is in the file"); check(eq(&mpq::md5(&d[p..p + n]), &d[m..m + 16]), "the stored digest is the part's MD5"); }
    let s = status(&placed(&d, off)); check(s == Some([true; 5]), "an archive as built is reported valid in every part"); cover("valid");
}
/// a stored digest is compared in full
#[no_mangle] pub extern "C" fn h_digest() {
    let (mut d, off) = kind(); let k = choose("part", 5); let m = parts(&d)[k].2; let old = d[m..m + 16].to_vec();
    let g = sym::<16>("digest"); let at = choose("byte", 4) * 4; // four bytes of it at a time, and all
    for i in at..at + 4 { d[m + i] = g[i]; } let new = d[m..m + 16].to_vec();
    let s = status(&placed(&d, off)); check(s.is_some(), "an archive with a wrong digest can be examined"); let s = s.unwrap();
    check(s[k] == eq(&new, &old), "a part is reported valid exactly if its digest is the stored one");
    for i in 0..4 { if i != k { check(s[i], "the other parts' status does not change"); } } cover("examined");
}
/// a changed byte anywhere in a part is noticed
#[no_mangle] pub extern "C" fn h_corrupt() {
    let (mut d, off) = kind(); let k = choose("part", 5); let (p, n, _) = parts(&d)[k];
    let at = match choose("place", 5) { 0 => 0, 1 => 1, 2 => n / 2, 3 => n - 2, _ => n - 1 }; let x = [1u8, 0x80, 0xFF][choose("change", 3)];
    d[p + at] ^= x;
    // the archive may be unreadable, which is noticed as well
    if let Some(s) = status(&placed(&d, off)) { check(!s[k], "a changed part is reported invalid"); if k != 4 { for i in 0..5 { check(i == k || s[i], "only the changed part is reported"); } } cover("noticed"); } else { cover("refused"); }
}
/// other versions have no status
#[no_mangle] pub extern "C" fn h_none() {
    let v = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3][choose("version", 3)];
    ArchiveBuilder::new().version(v).default_compression(0).add_file_data(symv("data", 4), "x").build(path("o.mpq")).unwrap();
    let i = Archive::open(path("o.mpq")).unwrap().get_info(); check(i.is_ok_and(|i| i.md5_status.is_none()), "archives before version 4 have no integrity status"); cover("none");
}
/// archives of many files, whose tables are longer
#[no_mangle] pub extern "C" fn h_many() {
    let n = [40usize, 200, 600][choose("files", 3)]; let packed = choose("compressed tables", 2) == 1; let off = [0usize, 512, 66_048][choose("offset", 3)];
    let mut b = ArchiveBuilder::new().version(FormatVersion::V4).default_compression(0).compress_tables(packed); for i in 0..n { b = b.add_file_data(vec![i as u8; i % 9], &format!("n{i}")); }
    b.build(path("o.mpq")).unwrap(); let mut d = std::fs::read(path("o.mpq")).unwrap();
    for (p, n, m) in parts(&d) { check(n > 0 && p + n <= d.len(), "every part is in the file"); check(eq(&mpq::md5(&d[p..p + n]), &d[m..m + 16]), "the stored digest is the part's MD5"); }
    check(status(&placed(&d, off)) == Some([true; 5]), "an archive as built is reported valid in every part");
    let k = choose("part", 5); let (p, n, m) = parts(&d)[k]; let how = choose("change", 4);
    match how { 0 => d[p] ^= 1, 1 => d[p + n / 2] ^= 1, 2 => d[p + n - 1] ^= 0x80, _ => d[m + 15] ^= 1 }
    if let Some(s) = status(&placed(&d, off)) { check(!s[k], "a changed part is reported invalid"); if k != 4 { for i in 0..5 { check(i == k || s[i] || (i == 4 && how == 3), "only the changed part is reported"); } } cover("noticed"); } else { check(how != 3 || k == 4, "an archive with a wrong digest can be examined"); cover("refused"); }
}
/// an archive with a table of high words, as files behind 4 GiB need it
#[no_mangle] pub extern "C" fn h_hi() {
    let (mut d, off) = kind(); let k = u32at(&d, 28) as usize; let at = d.len(); for _ in 0..k { d.extend([0, 0]); }
    d[32..40].copy_from_slice(&(at as u64).to_le_bytes()); d[84..92].copy_from_slice(&(2 * k as u64).to_le_bytes());
    let mut g = mpq::md5(&d[at..]).to_vec(); let real = g.clone(); let how = choose("change", 6); let g4 = sym::<4>("digest");
    match how { 0 => {} 1..=4 => for i in 0..4 { g[(how - 1) * 4 + i] = g4[i]; } _ => { let w = [at, at + k, d.len() - 1][choose("place", 3)]; d[w] ^= [1, 0x80][choose("bit", 2)]; } }
    d[144..160].copy_from_slice(&g);
    // the digest of the header is made again unless the table's is symbolic
    if how == 0 || how == 5 { let h = mpq::md5(&d[..192]); d[192..208].copy_from_slice(&h); }
    std::fs::write(path("a.mpq"), placed(&d, off)).unwrap(); let a = Archive::open(path("a.mpq")); check(a.is_ok(), "an archive with high words can be opened");
    let i = a.unwrap().get_info(); check(i.is_ok(), "an archive with high words can be described"); let s = i.unwrap().md5_status.unwrap();
    check(s.hi_block_table_valid == (how != 5 && eq(&g, &real)), "the high words are reported valid exactly if their digest is the stored one");
    check(s.block_table_valid && s.hash_table_valid && s.het_table_valid && s.bet_table_valid, "only the changed part is reported"); if how == 0 || how == 5 { check(s.header_valid, "the header is as its digest says"); }
    cover(if how == 0 { "valid" } else { "noticed" });
}
harnesses!(h_built, h_digest, h_corrupt, h_none, h_many, h_hi);
