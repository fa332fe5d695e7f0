//! C19: an archive answers the same whatever was asked before, and whatever its reads did
#[path = "../sx.rs"] mod sx;
use mopaq::*;
use sx::*;
const VS: [FormatVersion; 4] = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4];
/// a plain unit, an encrypted file of three sectors and a compressed unit with an adjusted key
struct T { c: [Vec<u8>; 3] }
const N: [&str; 3] = ["one", "x\\two", "three"];
fn make(v: usize, crc: bool) -> T {
    let a = symv("one", 5);
    let mut b: Vec<u8> = (0..1100usize).map(|i| (i * 7 + 3) as u8).collect(); fill(&mut b[508..512], "two at the end of a sector"); fill(&mut b[1096..1100], "two at the end");
    let mut c = vec![0u8; 90]; fill(&mut c[40..41], "three"); assume(c[40] != 0);
    ArchiveBuilder::new().version(VS[v]).block_size(0).default_compression(0).generate_crcs(crc).listfile_option(ListfileOption::Generate)
        .add_file_data(a.clone(), N[0]).add_file_data_with_options(b.clone(), N[1], 0, true, 0).add_file_data_with_encryption(c.clone(), N[2], 0x20, true, 0)
        .build(path("a.mpq")).unwrap();
    T { c: [a, b, c] }
}
const OPS: usize = 9;
/// one question: the answer is right, or an error where errors are allowed
fn ask(a: &mut Archive, t: &T, k: usize, may_fail: bool) -> bool {
    match k {
        0..=2 => match a.read_file(N[k]) { Ok(d) => { check(eq(&d, &t.c[k]), "a file reads as it was stored"); true } Err(_) => { check(may_fail, "a stored file can be read"); false } },
        3 => { let r = a.read_file("none"); check(r.is_err(), "a file that is not there is not read"); true }
        4 => match a.list() { Ok(l) => { let mut n: Vec<&str> = l.iter().map(|e| e.name.as_str()).collect(); n.sort(); check(n == ["(listfile)", "one", "three", "x\\two"], "the files are listed"); for e in &l { for j in 0..3 { if e.name == N[j] { check(e.size == t.c[j].len() as u64, "a listed file has its size"); } } } true } Err(_) => { check(may_fail, "the files can be listed"); false } },
        5 => match a.list_all() { Ok(l) => { check(l.len() == 4, "every block is listed"); true } Err(_) => { check(may_fail, "the blocks can be listed"); false } },
        6 => match a.find_file(N[1]) { Ok(i) => { check(i.is_some_and(|i| i.file_size == 1100), "a stored file is found"); true } Err(_) => { check(may_fail, "a stored file can be looked up"); false } },
        7 => match a.get_info() { Ok(i) => { check(i.file_count == 4 && i.has_listfile && i.is_encrypted, "the archive is described"); if let Some(m) = i.md5_status { check(m.hash_table_valid && m.block_table_valid && m.het_table_valid && m.bet_table_valid && m.header_valid, "the archive is intact"); } true } Err(_) => { check(may_fail, "the archive can be described"); false } },
        _ => match a.verify_signature() { Ok(s) => { check(s == SignatureStatus::None, "there is no signature"); true } Err(_) => { check(may_fail, "the signature can be looked for"); false } },
    }
}
/// any three questions, then everything
#[no_mangle] pub extern "C" fn h_history() {
    let v = choose("version", 4); let t = make(v, choose("crc", 2) == 1); let mut a = Archive::open(path("a.mpq")).unwrap();
    for q in ["first", "second", "third"] { let x = choose(q, OPS); ask(&mut a, &t, x, false); }
    for k in 0..3 { ask(&mut a, &t, k, false); }
    ask(&mut a, &t, 4, false); ask(&mut a, &t, 7, false); cover("asked");
}
/// two archives open at once do not disturb each other
#[no_mangle] pub extern "C" fn h_two() {
    let v = choose("version", 4); let t = make(v, false); std::fs::rename(path("a.mpq"), path("b.mpq")).unwrap();
    let other = symv("other", 5); ArchiveBuilder::new().version(VS[(v + 1) % 4]).default_compression(0).add_file_data(other.clone(), "one").build(path("c.mpq")).unwrap();
    let mut a = Archive::open(path("b.mpq")).unwrap(); let mut b = Archive::open(path("c.mpq")).unwrap();
    let x = choose("first", OPS); ask(&mut a, &t, x, false);
    check(b.read_file("one").is_ok_and(|d| d == other), "the other archive has its own file"); check(b.read_file("three").is_err(), "the other archive lacks the file");
    for k in 0..3 { ask(&mut a, &t, k, false); } cover("asked");
}
/// reads that return less than was asked for are continued
#[no_mangle] pub extern "C" fn h_short() {
    let v = choose("version", 4); let t = make(v, choose("crc", 2) == 1); opt("short_read", [1, 3, 7, 100][choose("most", 4)]);
    let a = Archive::open(path("a.mpq")); check(a.is_ok(), "an archive opens though reads are short"); let mut a = a.unwrap();
    for k in 0..OPS { ask(&mut a, &t, k, false); }
    opt("short_read", u64::MAX); cover("read");
}
const POINTS: usize = 40;
/// one read fails: errors are reported, nothing wrong is given out, and the archive works again afterwards
#[no_mangle] pub extern "C" fn h_fault() {
    let v = choose("version", 4); let t = make(v, choose("crc", 2) == 1); let mut a = Archive::open(path("a.mpq")).unwrap();
    let x = choose("question", OPS); let k = choose("failing read", POINTS);
    opt("fail_read", k as u64); let r = ask(&mut a, &t, x, true); opt("fail_read", u64::MAX);
    if r { cover("answered") } else { cover("failed") }
    for k in 0..3 { ask(&mut a, &t, k, false); }
    ask(&mut a, &t, x, false);
}
/// a read fails while the archive is opened: it is refused, or works
#[no_mangle] pub extern "C" fn h_open() {
    let v = choose("version", 4); let t = make(v, false); let k = choose("failing read", POINTS);
    opt("fail_read", k as u64); let a = Archive::open(path("a.mpq")); opt("fail_read", u64::MAX);
    match a { Ok(mut a) => { for k in 0..5 { ask(&mut a, &t, k, false); } cover("opened") } Err(_) => cover("refused") }
}
/// an archive with file attributes: they are as stored, or opening or loading failed; a second attempt gives them
#[no_mangle] pub extern "C" fn h_attr() {
    let v = choose("version", 4); let crc = sym::<8>("checksums"); let data = symv("data", 5);
    let mut at = vec![100, 0, 0, 0, 1, 0, 0, 0]; at.extend(crc); ArchiveBuilder::new().version(VS[v]).default_compression(0).listfile_option(ListfileOption::None).add_file_data(data.clone(), "f").add_file_data(at, "(attributes)").build(path("a.mpq")).unwrap();
    let lazy = choose("load", 2) == 1; let k = choose("failing read", POINTS);
    if !lazy { opt("fail_read", k as u64); }
    let a = OpenOptions::new().load_tables(!lazy).open(path("a.mpq"));
    if !lazy { opt("fail_read", u64::MAX); }
    let Ok(mut a) = a else { check(!lazy, "the archive opens"); cover("refused"); return };
    if lazy {
        opt("fail_read", k as u64); let r = a.load_tables(); opt("fail_read", u64::MAX);
        if r.is_err() { cover("failed"); check(a.load_tables().is_ok(), "the tables can be loaded once reads work again"); }
    }
    check(a.attributes().is_some(), "the stored attributes are known");
    for i in 0..2 { let x = a.get_file_attributes(i); check(x.is_some() && x.unwrap().crc32 == Some(u32::from_le_bytes(crc[i * 4..i * 4 + 4].try_into().unwrap())), "the attributes are as stored"); }
    check(a.read_file("f").is_ok_and(|d| eq(&d, &data)), "a file reads as it was stored"); cover("attributes");
}
harnesses!(h_history, h_two, h_short, h_fault, h_open, h_attr);
