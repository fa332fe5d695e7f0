//! C15: the command-line tool's extraction, creation and verification
#[path = "../../../harness/src/sx.rs"] mod sx;
#[path = "../../../harness/src/mpq.rs"] mod mpq;
use mopaq::*;
use storm_cli::verif::{archive, file};
use storm_cli::{GlobalOptions, OutputFormat, GLOBAL_OPTS};
use sx::*;
fn quiet() { let _ = GLOBAL_OPTS.set(GlobalOptions { output: OutputFormat::Text, verbose: 0, quiet: true, no_color: true }); }
/// an archive with these files and a list of their names
fn plant(f: &[(&str, &[u8], u32)]) {
    let mut list = String::new(); for x in f { list.push_str(x.0); list.push_str("\r\n"); }
    let mut d = vec![]; let mut b = vec![]; let mut n: Vec<&[u8]> = vec![];
    for (s, c, fl) in f.iter().map(|x| (x.0, x.1, x.2)).chain([("(listfile)", list.as_bytes(), 0)]) {
        b.push(mpq::B { pos: 32 + d.len() as u32, csize: c.len() as u32, size: c.len() as u32, flags: mpq::EXISTS | mpq::SINGLE | fl }); d.extend(c); if fl & mpq::CRC != 0 { d.extend(mpq::adler(c).to_le_bytes()); } n.push(s.as_bytes());
    }
    std::fs::write(path("a.mpq"), mpq::v1(0, &d, &mpq::place(8, &n), &b)).unwrap();
}
/// whatever a file of an archive is called, extraction stays in the output directory and gives the files their content
#[no_mangle] pub extern "C" fn h_names() {
    quiet(); let keep = choose("preserve", 2) == 1; let n = 1 + choose("parts", 4); let mut name = String::from(["", "/"][choose("root", 2)]);
    for i in 0..n { if i > 0 { name.push(['/', '\\'][choose("separator", 2)]); } name.push_str(["..", ".", "a", "b.txt"][choose("part", 4)]); }
    let (c, z) = (sym::<3>("content"), sym::<2>("content")); plant(&[("first.txt", &z, 0), (&name, &c, 0), ("last.txt", &z, 0)]);
    std::fs::create_dir(path("out")).unwrap(); std::fs::create_dir(path("out/o")).unwrap(); jail(&path("out/o"));
    let r = file::extract(&path("a.mpq"), None, Some(&path("out/o")), keep);
    let p: Vec<&str> = name.split('/').collect(); let last = p[p.len() - 1]; let free = p.iter().all(|x| *x != "..") && !name.starts_with('/');
    if r.is_ok() {
        for s in ["first.txt", "last.txt"] { check(eq(&std::fs::read(path(&format!("out/o/{s}"))).unwrap(), &z), "every file is extracted with its content"); }
        if last != "." && last != ".." && !name.contains('\\') && (free || !keep) {
            let at = path(&format!("out/o/{}", if keep { &name } else { last })); check(std::fs::read(&at).is_ok_and(|d| eq(&d, &c)), "a file with a harmless name is extracted to its place"); cover(if keep { "kept" } else { "flat" });
        } else { cover("odd"); }
    } else { check(!free || last == "." || name.contains('\\'), "harmless names are extracted"); }
}
/// what is packed from a directory is unpacked again
#[no_mangle] pub extern "C" fn h_tree() {
    quiet(); let v = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][choose("version", 4)]; let deep = choose("recursive", 2) == 1;
    std::fs::create_dir_all(path("src/d/e")).unwrap(); let mut want = vec![];
    for (i, s) in ["A.txt", "d/b", "d/e/c.bin"].iter().enumerate() {
        if choose("present", 2) == 1 { let c = symv("content", [5, 0, 3][i]); std::fs::write(path(&format!("src/{s}")), &c).unwrap(); if deep || i == 0 { want.push((*s, c)); } }
    }
    let o = archive::CreateOptions { version: v, compression: 0, block_size: 3, listfile: ListfileOption::Generate, recursive: deep, follow_symlinks: false, ignore_patterns: vec![] };
    let r = archive::create(&path("a.mpq"), &path("src"), o); check(r.is_ok(), "a directory is packed");
    std::fs::create_dir(path("out")).unwrap(); jail(&path("out"));
    let r = file::extract(&path("a.mpq"), None, Some(&path("out")), true); check(r.is_ok(), "and unpacked");
    let mut n = 0; let mut todo = vec![path("out")];
    while let Some(d) = todo.pop() { for e in std::fs::read_dir(&d).unwrap() { let p = e.unwrap().path(); if p.is_dir() { todo.push(p.to_str().unwrap().to_string()); } else if !p.ends_with("(listfile)") { n += 1; } } }
    check(n == want.len(), "there are as many files as before"); for (s, c) in &want { check(std::fs::read(path(&format!("out/{s}"))).is_ok_and(|d| eq(&d, c)), "and they have the same names and contents"); cover("same"); }
    if want.is_empty() { cover("empty"); }
}
/// one file goes where it is asked to go
#[no_mangle] pub extern "C" fn h_one() {
    quiet(); let c = sym::<4>("content"); let e = [0, mpq::CRC][choose("crc", 2)]; plant(&[("dir\\f.txt", &c, e), ("g.txt", b"g", 0)]); std::fs::create_dir(path("out")).unwrap(); jail(&path("out"));
    let name = ["dir\\f.txt", "DIR/F.TXT", "f.txt"][choose("name", 3)]; let at = path(["out/x", "out/new/y.txt"][choose("at", 2)]); let old = choose("exists", 2) == 1; if old && at.ends_with('x') { std::fs::write(&at, b"something longer").unwrap(); }
    let r = file::extract(&path("a.mpq"), Some(name), Some(&at), choose("preserve", 2) == 1);
    if name == "f.txt" { check(r.is_err(), "a file that is not there is not extracted"); let d = std::fs::read(&at); check(if old && at.ends_with('x') { eq(&d.unwrap(), b"something longer") } else { d.is_err() }, "and nothing is written for it"); cover("missing"); }
    else { check(r.is_ok() && std::fs::read(&at).is_ok_and(|d| eq(&d, &c)), "a file is extracted to the place given"); cover("extracted"); }
}
/// verification tells whether every file can be read
#[no_mangle] pub extern "C" fn h_verify() {
    quiet(); let c = sym::<4>("content"); let mut x = c; let k = choose("byte", 4); x[k] = u8s("damaged"); plant(&[("f.txt", &c, mpq::CRC), ("g.txt", b"g", 0)]);
    let full = choose("contents", 2) == 1; let hit = choose("hit", 3);
    if hit == 1 { let mut v = std::fs::read(path("a.mpq")).unwrap(); v[32..36].copy_from_slice(&x); std::fs::write(path("a.mpq"), v).unwrap(); }
    if hit == 2 { plant(&[("f.txt", &c, mpq::CRC), ("g.txt", b"g", mpq::COMPRESS | mpq::IMPLODE)]); let mut v = std::fs::read(path("a.mpq")).unwrap(); let n = v.len(); let mut t = v.split_off(n - 3 * 16); mpq::dec_bytes(&mut t, mpq::BKEY); t[16 + 8] = 9; mpq::enc_bytes(&mut t, mpq::BKEY); v.extend(t); std::fs::write(path("a.mpq"), v).unwrap(); }
    let same = c == x; jail(&path("none")); let r = archive::verify(&path("a.mpq"), choose("crc", 2) == 1, full);
    let good = match hit { 0 => true, 1 => same, _ => false };
    if !full || good { check(r.is_ok(), "an intact archive is verified"); cover("intact"); } else { check(r.is_err(), "an archive with a file that cannot be read is not"); cover("damaged"); }
}
/// without an output directory the current one is it
#[no_mangle] pub extern "C" fn h_cwd() {
    quiet(); let keep = choose("preserve", 2) == 1; let one = choose("one", 2) == 1; let n = 1 + choose("parts", 3); let mut name = String::from(["", "/"][choose("root", 2)]);
    for i in 0..n { if i > 0 { name.push(['/', '\\'][choose("separator", 2)]); } name.push_str(["..", ".", "a", "b.txt"][choose("part", 4)]); }
    let (c, z) = (sym::<3>("content"), sym::<2>("content")); plant(&[("first.txt", &z, 0), (&name, &c, 0), ("last.txt", &z, 0)]);
    #[cfg(not(sx))] std::env::set_current_dir(dir()).unwrap();
    let a = path("a.mpq"); jail(&dir());
    let r = file::extract(&a, if one { Some(&name) } else { None }, None, keep);
    let p: Vec<&str> = name.split('/').collect(); let last = p[p.len() - 1]; let free = p.iter().all(|x| *x != "..") && !name.starts_with('/');
    if r.is_ok() {
        for s in ["first.txt", "last.txt"] { let d = std::fs::read(path(s)); check(if one { d.is_err() } else { eq(&d.unwrap(), &z) }, "what was asked for is extracted with its content"); }
        if last != "." && last != ".." && !name.contains('\\') && (free || !keep) { let at = path(if keep { &name } else { last }); check(std::fs::read(&at).is_ok_and(|d| eq(&d, &c)), "a file with a harmless name is extracted to its place"); cover(if one { "one" } else { "all" }); } else { cover("odd"); }
    } else { check(!free || last == "." || name.contains('\\'), "harmless names are extracted"); cover("refused"); }
}
/// many files with every compression: a directory or a single file is packed and unpacked again, without what is to be ignored
#[no_mangle] pub extern "C" fn h_pack() {
    quiet(); let v = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][choose("version", 4)]; let m = [0u16, 0x02, 0x08, 0x10, 0x12, 0x20][choose("compression", 6)]; let src = choose("source", 3); let bs = [0u16, 3, 8][choose("sector", 3)];
    std::fs::create_dir_all(path("src/d/e")).unwrap(); let mut want = vec![];
    for i in 0..[14usize, 14, 1][src] {
        let s = format!("{}f{i}.{}", ["", "d/", "d/e/"][i % 3], ["txt", "wav", "zzq"][i % 7 % 3]); let mut c: Vec<u8> = (0..[0usize, 1, 511, 512, 700, 1600][i * 5 % 6]).map(|k| if k % 40 < 30 { 0 } else { (k / 3 + i) as u8 }).collect();
        if (m == 0 || m == 0x20) && c.len() > 512 { for k in 509..514 { c[k] = u8s("byte") | 1; } }
        std::fs::write(path(&format!("src/{s}")), &c).unwrap(); if src != 1 || !s.contains("zzq") { want.push((s, c)); }
    }
    let from = if src == 2 { path("src/f0.txt") } else { path("src") };
    let o = archive::CreateOptions { version: v, compression: m, block_size: bs, listfile: ListfileOption::Generate, recursive: true, follow_symlinks: false, ignore_patterns: if src == 1 { vec!["zzq".into()] } else { vec![] } };
    check(archive::create(&path("a.mpq"), &from, o).is_ok(), "a directory or file is packed"); check(archive::verify(&path("a.mpq"), true, true).is_ok(), "what was packed is verified");
    std::fs::create_dir(path("out")).unwrap(); jail(&path("out")); check(file::extract(&path("a.mpq"), None, Some(&path("out")), true).is_ok(), "and unpacked");
    let mut n = 0; let mut todo = vec![path("out")];
    while let Some(d) = todo.pop() { for e in std::fs::read_dir(&d).unwrap() { let p = e.unwrap().path(); if p.is_dir() { todo.push(p.to_str().unwrap().to_string()); } else if !p.ends_with("(listfile)") { n += 1; } } }
    check(n == want.len(), "there are as many files as before"); for (s, c) in &want { check(std::fs::read(path(&format!("out/{s}"))).is_ok_and(|d| eq(&d, c)), "and they have the same names and contents"); } cover("packed");
}
/// a file that cannot be read does not keep the others from being extracted, and nothing wrong is written for it
#[no_mangle] pub extern "C" fn h_rest() {
    quiet(); let c = sym::<4>("content"); let bad = choose("bad", 4); let x = u8s("change"); assume(x != 0); let n = ["a", "b", "c", "d"];
    plant(&[(n[0], &c, mpq::CRC), (n[1], &c, mpq::CRC), (n[2], &c, mpq::CRC), (n[3], &c, mpq::CRC)]);
    let mut v = std::fs::read(path("a.mpq")).unwrap(); v[32 + bad * 8 + choose("byte", 4)] ^= x; std::fs::write(path("a.mpq"), v).unwrap(); std::fs::create_dir(path("out")).unwrap(); jail(&path("out"));
    let _ = file::extract(&path("a.mpq"), None, Some(&path("out")), choose("preserve", 2) == 1);
    for i in 0..4 { let d = std::fs::read(path(&format!("out/{}", n[i]))); if i == bad { check(d.is_err(), "nothing is written for a damaged file"); } else { check(d.is_ok_and(|d| eq(&d, &c)), "every other file is extracted"); } } cover("rest");
    check(archive::verify(&path("a.mpq"), true, true).is_err(), "an archive with a damaged file is not verified");
}
harnesses!(h_names, h_tree, h_one, h_verify, h_cwd, h_pack, h_rest);
