//! C09: listings name exactly the files there are
#[path = "../sx.rs"] mod sx;
#[path = "../mpq.rs"] mod mpq;
use mopaq::special_files::*;
use mopaq::*;
use sx::*;
const VS: [FormatVersion; 4] = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4];
fn blank(c: u8) -> bool { c == b' ' || c == b'\t' || c == b'\r' || c == b'\n' }
fn trim(mut s: &[u8]) -> &[u8] { while let [c, r @ ..] = s { if blank(*c) { s = r } else { break } } while let [r @ .., c] = s { if blank(*c) { s = r } else { break } } s }
/// the list file format: one name per line, text behind a semicolon is not part of it, comment lines
fn names(d: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for l in d.split(|c| *c == b'\n') {
        let l = trim(l); if l.is_empty() || l[0] == b'#' { continue; }
        let mut e = l.len(); for i in 0..l.len() { if l[i] == b';' { e = i; break; } }
        let n = trim(&l[..e]); if !n.is_empty() { v.push(n.to_vec()); }
    }
    v
}
fn same(a: &[String], b: &[Vec<u8>]) { check(a.len() == b.len(), "a list file has as many names as lines with names"); for (x, y) in a.iter().zip(b) { check(eq(x.as_bytes(), y), "the names are the lines' names"); } }
/// every text over the characters that matter
#[no_mangle] pub extern "C" fn h_parse() {
    let n = choose("length", 8); let d = symv("text", n);
    for &c in &d { assume((c == b'a') | (c == b' ') | (c == b'\r') | (c == b'\n') | (c == b';') | (c == b'#')); }
    let r = parse_listfile(&d); check(r.is_ok(), "a list file can be parsed"); same(&r.unwrap(), &names(&d)); cover("parsed");
}
/// names keep every other character, whatever line end follows
#[no_mangle] pub extern "C" fn h_names() {
    let (a, b) = (sym::<3>("first"), sym::<2>("second"));
    for &c in a.iter().chain(&b) { assume((c > b' ') & (c < 0x7F) & (c != b';') & (c != b'#')); }
    let end: &[u8] = [b"\n" as &[u8], b"\r\n", b"\n\n", b"\n;x\n", b"\n#y\n", b";z\n", b" ; z\r\n"][choose("end", 7)];
    let mut d = a.to_vec(); d.extend(end); d.extend(&b); if choose("closed", 2) == 1 { d.extend(end); }
    let r = parse_listfile(&d).unwrap(); same(&r, &[a.to_vec(), b.to_vec()]); cover("parsed");
}
const N: [&str; 4] = ["a.txt", "b\\c", "(listfile)", "d"];
/// a list file of an archive in any order, with repeated and missing names
#[no_mangle] pub extern "C" fn h_list() {
    let k = choose("entries", 4); let mut text = vec![]; let mut want = vec![];
    for _ in 0..k { let i = choose("entry", 5); let n = if i < 4 { N[i] } else { "gone" }; text.extend(n.as_bytes()); text.extend(b"\r\n"); if i < 4 { want.push(i); } }
    let free = choose("free block", 5); // a block marked as not existing
    let l = text.len() as u32;
    let mut b: Vec<mpq::B> = (0..4).map(|i| mpq::B { pos: 32, csize: u32s("stored size"), size: u32s("size"), flags: u32s("flags") & !mpq::EXISTS | if i == free { 0 } else { mpq::EXISTS } }).collect();
    if free == 2 { return; } want.retain(|i| *i != free);
    b[2] = mpq::B { pos: 32, csize: l, size: l, flags: mpq::EXISTS | mpq::SINGLE };
    let names: Vec<&[u8]> = N.iter().map(|n| n.as_bytes()).collect();
    std::fs::write(path("a.mpq"), mpq::v1(3, &text, &mpq::place(8, &names), &b)).unwrap();
    let mut a = Archive::open(path("a.mpq")).unwrap();
    let hashed = choose("hashes", 2) == 1;
    let r = if hashed { a.list_with_hashes() } else { a.list() }; check(r.is_ok(), "an archive with a list file can be listed"); let r = r.unwrap();
    check(r.len() == want.len(), "the listing has the listed files that exist");
    for (e, &i) in r.iter().zip(&want) {
        check(e.name == N[i], "names are listed in the list file's order");
        check((e.size == b[i].size as u64) & (e.compressed_size == b[i].csize as u64) & (e.flags == b[i].flags), "sizes and flags are the file's");
        check(e.hashes == if hashed { Some((mpq::hash(names[i], 1), mpq::hash(names[i], 2))) } else { None }, "hashes are those of the name");
    }
    cover("listed");
}
/// enumerating the tables finds every block a hash entry names, once
#[no_mangle] pub extern "C" fn h_all() {
    let mut h = vec![]; let mut used = [None; 3];
    for _ in 0..4 {
        let k = [0u32, 1, 2, 0xFFFF_FFFE, 0xFFFF_FFFF][choose("block", 5)]; let e = mpq::H { a: u32s("name A"), b: u32s("name B"), loc: 0, plat: 0, blk: k };
        if k < 3 && used[k as usize].is_none() { used[k as usize] = Some((e.a, e.b)); } h.push(e);
    }
    let b: Vec<mpq::B> = (0..2).map(|_| mpq::B { pos: 32, csize: u32s("stored size"), size: u32s("size"), flags: u32s("flags") }).collect();
    // no list file: none of the entries is one
    for e in &h { assume(e.a != mpq::hash(b"(listfile)", 1)); assume(e.a != mpq::hash(b"(attributes)", 1)); assume(e.a != mpq::hash(b"(signature)", 1)); }
    std::fs::write(path("a.mpq"), mpq::v1(3, &[0; 16], &h, &b)).unwrap();
    let mut a = Archive::open(path("a.mpq")).unwrap();
    let want: Vec<usize> = (0..2).filter(|&i| used[i].is_some() && b[i].flags & mpq::EXISTS != 0).collect();
    let hashed = choose("hashes", 2) == 1;
    let r = if hashed { a.list_all_with_hashes() } else { a.list_all() }; check(r.is_ok(), "the tables can be enumerated"); let r = r.unwrap();
    check(r.len() == want.len(), "every block in use is listed once");
    for (e, &i) in r.iter().zip(&want) {
        check((e.size == b[i].size as u64) & (e.compressed_size == b[i].csize as u64) & (e.flags == b[i].flags), "sizes and flags are the block's");
        check(e.name == ["file_00000000.dat", "file_00000001.dat"][i], "generic names carry the block's number");
        if hashed { check(e.hashes == used[i], "hashes are the entry's"); }
    }
    if !hashed { let l = a.list(); check(l.is_ok(), "an archive without a list file can be listed"); let n = h.iter().filter(|e| (e.blk as usize) < 2 && b[e.blk as usize].flags & mpq::EXISTS != 0).count(); check(l.unwrap().len() == n, "without a list file every entry in use is listed"); }
    cover("listed");
}
/// archives the library builds list every file that was added
#[no_mangle] pub extern "C" fn h_built() {
    let v = VS[choose("version", 4)]; let n = [0usize, 1, 3, 5][choose("files", 4)]; let opt = choose("list file", 3);
    let names = ["a.txt", "Dir\\Sub\\B.blp", "c", "(x)", "Z z"]; let enc = bools("encrypt");
    if opt == 2 { std::fs::write(path("l.txt"), b"c\r\nnot there\r\na.txt\n").unwrap(); }
    let mut b = ArchiveBuilder::new().version(v).default_compression(0).listfile_option(match opt { 0 => ListfileOption::Generate, 1 => ListfileOption::None, _ => ListfileOption::External(path("l.txt").into()) });
    for i in 0..n { b = b.add_file_data_with_options(symv("contents", i + 1), names[i], 0, enc, 0); }
    check(b.build(path("a.mpq")).is_ok(), "the archive can be built");
    let mut a = Archive::open(path("a.mpq")).unwrap();
    let l = a.list(); check(l.is_ok(), "a built archive can be listed"); let l = l.unwrap();
    let size = |k: &str| names.iter().position(|x| *x == k).map(|i| i as u64 + 1);
    match opt {
        0 => { check(l.len() == n + 1, "every added file is listed, and the list file"); for i in 0..n { check(l[i].name == names[i] && l[i].size == i as u64 + 1, "added files are listed in order with their sizes"); check(a.read_file(names[i]).is_ok_and(|d| d.len() == i + 1), "listed files can be read"); } check(l[n].name == "(listfile)", "the list file lists itself"); }
        1 => check(l.len() == n, "without a list file every file is still enumerated"),
        _ => { let want: Vec<&str> = ["c", "a.txt"].into_iter().filter(|k| size(k).unwrap() <= n as u64).collect(); check(l.len() == want.len(), "with a given list file its names are listed if the files exist"); for (e, w) in l.iter().zip(&want) { check(e.name == *w && Some(e.size) == size(w), "a given list file keeps its order"); } }
    }
    let all = a.list_all(); check(all.is_ok(), "the tables of a built archive can be enumerated"); let all = all.unwrap();
    check(all.len() == n + (opt != 1) as usize, "every file of a built archive is enumerated"); 
    for i in 0..n { check(all[i].size == i as u64 + 1, "enumerated files have their sizes"); }
    cover("listed");
}
/// hundreds of files: all are listed, in order, with their sizes and hashes
#[no_mangle] pub extern "C" fn h_many() {
    let v = choose("version", 4); let n = [100usize, 256, 300][choose("files", 3)]; let opt = choose("list file", 2) == 0; let long = choose("long names", 2) == 1;
    let name = |i: usize| if long { format!("dir\\{}\\file {i}.dat", "sub".repeat(i % 90)) } else { format!("f{i}") };
    let mut b = ArchiveBuilder::new().version(VS[v]).default_compression(0).listfile_option(if opt { ListfileOption::Generate } else { ListfileOption::None });
    for i in 0..n { let mut c = vec![i as u8; i % 41]; if i % 100 == 1 { c[0] = u8s("content"); } b = b.add_file_data(c, &name(i)); }
    b.build(path("a.mpq")).unwrap(); let mut a = Archive::open(path("a.mpq")).unwrap();
    if opt { let l = a.list_with_hashes().unwrap(); check(l.len() == n + 1, "every one of many files is listed"); for i in 0..n { check(l[i].name == name(i) && l[i].size as usize == i % 41 && l[i].hashes == Some((mpq::hash(name(i).as_bytes(), 1), mpq::hash(name(i).as_bytes(), 2))), "many files are listed in order with their sizes and hashes"); } }
    else { let l = a.list().unwrap(); check(l.len() == n, "without a list file every one of many files is enumerated"); }
    let all = a.list_all().unwrap(); check(all.len() == n + opt as usize, "every one of many files is enumerated once"); for i in 0..n { check(all[i].size as usize == i % 41 && all[i].name == format!("file_{i:08}.dat"), "many files are enumerated in order"); }
    let all = a.list_all_with_hashes().unwrap(); check(all.len() == n + opt as usize, "every one of many files is enumerated once"); for i in 0..n { check(all[i].size as usize == i % 41, "many files are enumerated in order"); if v < 2 { check(all[i].hashes == Some((mpq::hash(name(i).as_bytes(), 1), mpq::hash(name(i).as_bytes(), 2))), "enumerated files have their hashes"); } }
    cover("listed");
}
harnesses!(h_parse, h_names, h_list, h_all, h_built, h_many);
