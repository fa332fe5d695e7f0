//! C10: an archive appears at its path complete or not at all
#[path = "../sx.rs"] mod sx;
use mopaq::*;
use sx::*;
const VS: [FormatVersion; 4] = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4];
const OLD: &[u8] = b"what was here before";
fn names() -> Vec<String> { let mut v: Vec<String> = std::fs::read_dir(dir()).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).filter(|n| !n.starts_with("in.")).collect(); v.sort(); v }
fn builder(v: FormatVersion, c: &[u8]) -> ArchiveBuilder {
    ArchiveBuilder::new().version(v).listfile_option(ListfileOption::Generate).default_compression(0)
        .add_file_data(c.to_vec(), "a.txt").add_file_data_with_options(c[..2].to_vec(), "b.txt", 0, true, 0)
}
fn complete(c: &[u8]) {
    let a = Archive::open(path("o.mpq")); check(a.is_ok(), "a finished archive opens"); let mut a = a.unwrap();
    for (n, d) in [("a.txt", c), ("b.txt", &c[..2])] { let r = a.read_file(n); check(r.is_ok(), "every file of a finished archive is there"); check(eq(&r.unwrap(), d), "every file of a finished archive is whole"); }
    check(a.list().is_ok_and(|l| l.len() == 3), "a finished archive has its list file");
}
fn quiet() { opt("fail_write", u64::MAX); opt("crash", u64::MAX); opt("torn", u64::MAX); opt("short_write", u64::MAX); }
/// what is at the destination is what was there
fn untouched(old: bool) {
    if old { let d = std::fs::read(path("o.mpq")); check(d.is_ok(), "the old file is still there"); check(eq(&d.unwrap(), OLD), "the old file is unchanged"); }
    else { check(std::fs::metadata(path("o.mpq")).is_err(), "nothing appears at the destination"); }
}
/// after a failure: what was there, or the whole new archive
fn either(old: bool, new: impl Fn()) { match std::fs::read(path("o.mpq")) { Ok(d) => if !(old && d.len() == OLD.len() && eq(&d, OLD)) { new() }, Err(_) => check(!old, "the old file is still there") } }
fn setup() -> (FormatVersion, bool, Vec<u8>) { let v = VS[choose("version", 4)]; let old = choose("old file", 2) == 1; if old { std::fs::write(path("o.mpq"), OLD).unwrap(); } (v, old, symv("contents", 5)) }
const POINTS: usize = 240;
/// one operation fails: the build says so and leaves things as they were, or succeeds
#[no_mangle] pub extern "C" fn h_fault() {
    let (v, old, c) = setup(); let k = choose("failing operation", POINTS);
    opt("fail_write", k as u64); let r = builder(v, &c).build(path("o.mpq")); quiet();
    match r {
        Ok(()) => { cover("succeeded"); complete(&c); check(names() == ["o.mpq"], "nothing else is left behind by a build"); }
        Err(_) => { cover("failed"); either(old, || complete(&c)); check(names().iter().filter(|n| *n != "o.mpq").count() == 0, "a failed build cleans up"); }
    }
}
/// the process stops at an operation: the destination has the old file or the whole new one
#[no_mangle] pub extern "C" fn h_crash() {
    let (v, old, c) = setup(); let k = choose("last operation", POINTS); let t = choose("torn", 2) == 1;
    if t { opt("torn", 1); } opt("crash", k as u64); let r = builder(v, &c).build(path("o.mpq")); quiet();
    match r { Ok(()) => { cover("finished"); complete(&c) } Err(_) => { cover("stopped"); either(old, || complete(&c)) } }
}
/// writes that take only part of the data are continued
#[no_mangle] pub extern "C" fn h_short() {
    let (v, _, c) = setup(); opt("short_write", [1, 3, 7, 100][choose("most", 4)]);
    let r = builder(v, &c).build(path("o.mpq")); quiet();
    check(r.is_ok(), "short writes do no harm"); complete(&c); cover("built");
}
/// reasons of the archive's own: a missing source, a missing list file, an unknown method, no such directory
#[no_mangle] pub extern "C" fn h_refused() {
    let (v, old, c) = setup(); let k = choose("reason", 5); let b = builder(v, &c);
    let b = match k { 0 => b.add_file(path("in.none"), "c"), 1 => b.listfile_option(ListfileOption::External(path("in.none").into())), 2 => b.add_file_data_with_options(vec![0; 64], "c", 0x04, false, 0), 3 => b.add_file_data_with_options(vec![0; 64], "c", 0x01, false, 0), _ => b };
    let to = if k == 4 { path("none/o.mpq") } else { path("o.mpq") };
    let r = b.build(to); check(r.is_err(), "an archive that cannot be built is refused"); untouched(old);
    check(names().iter().filter(|n| *n != "o.mpq").count() == 0, "a refused build cleans up"); cover("refused");
}
/// a source that fails while it is read
#[no_mangle] pub extern "C" fn h_source() {
    let (v, old, c) = setup(); std::fs::write(path("in.src"), &c).unwrap(); let k = choose("failing read", 4); let s = choose("short", 2) == 1;
    if s { opt("short_read", 2); } opt("fail_read", k as u64);
    let r = ArchiveBuilder::new().version(v).default_compression(0).add_file(path("in.src"), "a.txt").build(path("o.mpq"));
    opt("fail_read", u64::MAX); opt("short_read", u64::MAX);
    match r { Ok(()) => { cover("built"); let mut a = Archive::open(path("o.mpq")).unwrap(); let d = a.read_file("a.txt"); check(d.is_ok(), "the file is there"); check(eq(&d.unwrap(), &c), "the file is the whole source"); } Err(_) => { cover("failed"); untouched(old); check(names().iter().filter(|n| *n != "o.mpq").count() == 0, "a failed build cleans up"); } }
}
/// a large archive of many files, one of them from disk: one operation fails, or the process stops there
#[no_mangle] pub extern "C" fn h_large() {
    let (v, old, c) = setup(); let mut src: Vec<u8> = (0..100_001u32).map(|i| (i * 7 + i / 253) as u8).collect(); src[65_535..65_540].copy_from_slice(&c); std::fs::write(path("in.src"), &src).unwrap();
    let mut b = ArchiveBuilder::new().version(v).listfile_option(ListfileOption::Generate).default_compression(0).add_file(path("in.src"), "big"); for i in 0..40usize { b = b.add_file_data(vec![i as u8; 300], &format!("n{i}")); } let b = b.add_file_data(src.clone(), "again");
    let whole = || { let a = Archive::open(path("o.mpq")); check(a.is_ok(), "a finished archive opens"); let mut a = a.unwrap(); for n in ["big", "again"] { check(a.read_file(n).is_ok_and(|d| eq(&d, &src)), "every file of a finished archive is whole"); } for i in [0usize, 39] { check(a.read_file(&format!("n{i}")).is_ok_and(|d| eq(&d, &vec![i as u8; 300])), "every file of a finished archive is whole"); } };
    let k = choose("operation", LARGE) as u64; let crash = choose("crash", 2) == 1; opt(if crash { "crash" } else { "fail_write" }, k); let r = b.build(path("o.mpq")); quiet();
    match r { Ok(()) => { cover("succeeded"); whole(); if !crash { check(names() == ["o.mpq"], "nothing else is left behind by a build"); } } Err(_) => { cover("failed"); either(old, whole); if !crash { check(names().iter().filter(|n| *n != "o.mpq").count() == 0, "a failed build cleans up"); } } }
}
const LARGE: usize = 70;
harnesses!(h_fault, h_crash, h_short, h_refused, h_source, h_large);
