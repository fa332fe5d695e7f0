//! C02: a stored name is found in every spelling, any other name is not found
#[path = "../sx.rs"] mod sx;
#[path = "../mpq.rs"] mod mpq;
use mopaq::*;
use sx::*;
fn st(v: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(v) } }
/// another spelling: each letter's case and each slash's direction chosen freely
fn respell(n: &[u8]) -> Vec<u8> {
    let f = symv("spelling", n.len());
    n.iter().zip(&f).map(|(&c, &f)| match c { b'a'..=b'z' | b'A'..=b'Z' => c ^ ((f & 1) << 5), b'/' | b'\\' => if f & 1 == 1 { b'/' } else { b'\\' }, _ => c }).collect()
}
/// lookup in a table of 4 or 8 slots whose entries are all symbolic, against the format's probing rule
fn probe(slots: usize, names: &[&str]) {
    let name = names[choose("name", names.len())]; let locale = u16s("locale");
    let mut t = HashTable::new(slots).unwrap();
    let (a, b) = (mpq::hash(name.as_bytes(), 1), mpq::hash(name.as_bytes(), 2));
    let mut ok = vec![]; let mut never = vec![];
    for i in 0..slots {
        let e = t.get_mut(i).unwrap();
        e.name_1 = u32s("name1"); e.name_2 = u32s("name2");
        e.locale = u16s("loc"); e.platform = 0; e.block_index = u32s("block");
        let m = (e.name_1 == a) & (e.name_2 == b) & (e.block_index < 0xFFFF_FFFE) & ((locale == 0) | (e.locale == 0) | (e.locale == locale));
        ok.push(m); never.push(e.block_index == 0xFFFF_FFFF);
    }
    let start = mpq::hash(name.as_bytes(), 0) as usize & (slots - 1);
    // position the probing rule gives, slots for "none"
    let mut want = slots; let mut over = false;
    for k in 0..slots { let i = (start + k) & (slots - 1); let take = !over & ok[i]; if take { want = i; } over = over | ok[i] | never[i]; }
    match t.find_file(name, locale) {
        None => { check(want == slots, "a name that probing reaches is found"); cover("absent"); }
        Some((i, e)) => { check(i == want, "the entry found is the one probing reaches first"); check(e.block_index < 0xFFFF_FFFE, "the entry found holds a file"); cover("present"); }
    }
}
#[no_mangle] pub extern "C" fn h_probe2() { probe(2, &["a", "b"]) }
#[no_mangle] pub extern "C" fn h_probe4() { probe(4, &["a", "b", "c"]) }

const NAMES: [&str; 6] = ["a", "Dir\\b.TXT", "units\\human\\c.mdx", "d/e/f.g", "readme", "x.dat"];
/// archives built by this library: every stored name found under every spelling, others not
#[no_mangle] pub extern "C" fn h_built() {
    let v = choose("version", 4); let k = 1 + choose("files", 6); let q = choose("query", 6); let packed = v > 1 && choose("packed tables", 2) == 1;
    let mut b = ArchiveBuilder::new().version([FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][v]).default_compression(0).compress_tables(packed);
    for i in 0..k { b = b.add_file_data(vec![i as u8; i + 1], NAMES[i]); }
    b.build(path("a.mpq")).unwrap();
    let mut a = Archive::open(path("a.mpq")).unwrap();
    let s = respell(NAMES[q].as_bytes());
    match a.find_file(st(&s)).unwrap() {
        Some(i) => { check(q < k, "a name that was not stored is not found"); check(i.file_size == q as u64 + 1, "the entry found is the file's"); let d = a.read_file(st(&s)).unwrap(); check(d == vec![q as u8; q + 1], "the file read is the one named"); cover("stored"); }
        None => { check(q >= k, "a stored name is found in every spelling"); check(a.read_file(st(&s)).is_err(), "reading a missing name is an error"); cover("missing"); }
    }
}
/// archives of many files: each is found under its name as itself, others are not
#[no_mangle] pub extern "C" fn h_many() {
    let v = choose("version", 4); let k = [9usize, 16, 17, 31, 33][choose("files", 5)]; let packed = v > 1 && choose("packed tables", 2) == 1; let q = u8s("query"); assume((q as usize) < k + 8);
    let mut b = ArchiveBuilder::new().version([FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][v]).default_compression(0).compress_tables(packed);
    for i in 0..k { b = b.add_file_data(vec![i as u8; i + 1], &format!("dir\\file {i}.dat")); }
    b.build(path("a.mpq")).unwrap();
    let a = Archive::open(path("a.mpq")).unwrap(); let q = pick(q as u64) as usize;
    match a.find_file(&format!("DIR/File {q}.DAT")).unwrap() { Some(i) => { check(q < k, "a name that was not stored is not found among many"); check(i.file_size == q as u64 + 1, "the entry found among many is the file's"); cover("stored"); } None => { check(q >= k, "a stored name is found among many"); cover("missing"); } }
}
/// archives of hundreds of files: all are found and read as themselves, others are not
#[no_mangle] pub extern "C" fn h_hundreds() {
    let v = choose("version", 4); let k = [127usize, 255, 256, 300][choose("files", 4)]; let packed = v > 1 && choose("packed tables", 2) == 1;
    let mut b = ArchiveBuilder::new().version([FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][v]).default_compression(0).compress_tables(packed);
    let mut want = vec![]; for i in 0..k { let mut c = vec![i as u8; i % 37 + 1]; if i % 50 == 1 { c[0] = u8s("content"); } b = b.add_file_data(c.clone(), &format!("dir\\file {i}.dat")); want.push(c); }
    b.build(path("a.mpq")).unwrap(); let mut a = Archive::open(path("a.mpq")).unwrap();
    for q in 0..k + 20 { match a.find_file(&format!("DIR/File {q}.DAT")).unwrap() { Some(i) => { check(q < k, "a name that was not stored is not found among many"); check(i.file_size as usize == want[q].len(), "the entry found among many is the file's"); } None => check(q >= k, "a stored name is found among many") } }
    for (q, c) in want.iter().enumerate() { check(a.read_file(&format!("dir\\file {q}.dat")).unwrap() == *c, "the file found among many is the one stored"); }
    cover("hundreds");
}
/// hand-made archive: collisions, deleted slots, symbolic block entries
#[no_mangle] pub extern "C" fn h_crafted() {
    let gone = choose("deleted", 5); let q = choose("query", 5);
    let names: Vec<&[u8]> = NAMES[..4].iter().map(|n| n.as_bytes()).collect();
    let mut h = mpq::place(4, &names);
    // deleting a file leaves its slot marked, others must stay reachable
    if gone < 4 { for e in h.iter_mut() { if e.blk == gone as u32 { *e = mpq::GONE; } } }
    let b: Vec<mpq::B> = (0..4).map(|_| mpq::B { pos: u32s("pos"), csize: u32s("csize"), size: u32s("size"), flags: u32s("flags") }).collect();
    std::fs::write(path("a.mpq"), mpq::v1(3, &[0; 16], &h, &b)).unwrap();
    let a = Archive::open(path("a.mpq")).unwrap();
    let s = respell(NAMES[q].as_bytes());
    match a.find_file(st(&s)).unwrap() {
        Some(i) => {
            check(q < 4 && q != gone, "a name that is not stored is not found"); check(b[q].flags & mpq::EXISTS != 0, "a block that does not exist is not found");
            check(i.file_pos == b[q].pos as u64 && i.file_size == b[q].size as u64 && i.compressed_size == b[q].csize as u64 && i.flags == b[q].flags && i.block_index == q, "the entry found is the block table's");
            cover("stored");
        }
        None => { check(q == 4 || q == gone || b[q].flags & mpq::EXISTS == 0, "a stored name is found"); cover("missing"); }
    }
}
/// version 2: positions take their upper 16 bits from the hi-block table, and the archive may start at an offset
#[no_mangle] pub extern "C" fn h_hi() {
    let off = 512 * choose("offset", 3);
    let names: [&[u8]; 2] = [b"a", b"b"]; let h = mpq::place(4, &names);
    let b: Vec<mpq::B> = (0..2).map(|_| mpq::B { pos: u32s("pos"), csize: 4, size: 4, flags: mpq::EXISTS | mpq::SINGLE }).collect();
    let hi = [u16s("hi"), u16s("hi")];
    let (hp, bp, ip) = (44u32, 44 + 64, 44 + 64 + 32);
    let mut v = vec![0u8; off];
    v.extend(b"MPQ\x1a"); v.extend(44u32.to_le_bytes()); v.extend(200u32.to_le_bytes()); v.extend(1u16.to_le_bytes()); v.extend(3u16.to_le_bytes());
    for x in [hp, bp, 4, 2] { v.extend(x.to_le_bytes()); } v.extend((ip as u64).to_le_bytes()); v.extend([0; 4]);
    let mut t = mpq::hbytes(&h); mpq::enc_bytes(&mut t, mpq::HKEY); v.extend(t); let mut t = mpq::bbytes(&b); mpq::enc_bytes(&mut t, mpq::BKEY); v.extend(t);
    for x in hi { v.extend(x.to_le_bytes()); } v.extend([0; 64]);
    std::fs::write(path("a.mpq"), v).unwrap();
    let a = Archive::open(path("a.mpq")).unwrap();
    check(a.archive_offset() == off as u64, "the archive is found at its offset");
    for (q, n) in ["a", "b"].iter().enumerate() {
        let i = a.find_file(n).unwrap().unwrap();
        check(i.file_pos == off as u64 + ((hi[q] as u64) << 32 | b[q].pos as u64), "positions are 48 bits wide");
    }
}
/// long chains: the wanted entry lies far behind its place, behind deleted entries, other files or both
#[no_mangle] pub extern "C" fn h_chain() {
    let n = [32usize, 256, 1024][choose("slots", 3)]; let d = [0usize, 7, 8, 15, 16, 31, 63, 64, 65, 100, 127, 128, 254, 255, 300, 511, 512, 1023][choose("distance", 18)]; let kind = choose("in between", 3); let there = choose("stored", 2) == 1; let wall = choose("wall", 2) == 1;
    if d >= n { return; } let name = ["x\\name.txt", "w"][choose("name", 2)]; let at = mpq::hash(name.as_bytes(), 0) as usize & (n - 1);
    let mut t = HashTable::new(n).unwrap();
    for k in 0..n {
        let e = t.get_mut((at + k) & (n - 1)).unwrap();
        if k < d || !wall { *e = HashEntry { name_1: k as u32, name_2: 77, locale: 0, platform: 0, block_index: match kind { 0 => 0xFFFF_FFFE, 1 => k as u32, _ => if k % 3 == 0 { 0xFFFF_FFFE } else { k as u32 } } }; }
    }
    let b = u32s("block"); assume(b < 0xFFFF_FFFE);
    if there { *t.get_mut((at + d) & (n - 1)).unwrap() = HashEntry { name_1: mpq::hash(name.as_bytes(), 1), name_2: mpq::hash(name.as_bytes(), 2), locale: 0, platform: 0, block_index: b }; }
    match t.find_file(name, 0) { Some((i, e)) => { check(there, "a name that was not stored is not found at the end of a chain"); check(i == (at + d) & (n - 1), "the entry at the end of a chain is found"); check(e.block_index == b, "the entry at the end of a chain is the file's"); cover("present"); } None => { check(!there, "a stored name is found at the end of a chain"); cover("absent"); } }
}
/// names of which five have the same place in the hash table of `slots` entries, and as many others as fit
fn crowd(slots: usize, slot: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![]; let mut i = 0;
    while v.len() < 5 { let n = format!("c{i}"); if mpq::hash(n.as_bytes(), 0) as usize & (slots - 1) == slot { v.push(n); } i += 1; }
    i = 0; while v.len() < slots / 2 { v.insert(i % 7 % v.len(), format!("dir\\o{i}")); i += 1; } v
}
/// names that collide anywhere in the table, its end too
#[no_mangle] pub extern "C" fn h_collide() {
    let v = choose("version", 4); let slots = [16usize, 64, 256][choose("slots", 3)]; let slot = [0usize, 5, slots - 4, slots - 3, slots - 2, slots - 1][choose("slot", 6)]; let names = crowd(slots, slot); let mut want = vec![]; let packed = v > 1 && choose("packed tables", 2) == 1;
    let mut b = ArchiveBuilder::new().version([FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][v]).default_compression(0).compress_tables(packed).listfile_option(ListfileOption::None);
    for (i, s) in names.iter().enumerate() { let mut c = vec![i as u8; 1 + i % 3]; if i % 16 == 0 { c[0] = u8s("content"); } b = b.add_file_data(c.clone(), s); want.push(c); }
    b.build(path("a.mpq")).unwrap(); let mut a = Archive::open(path("a.mpq")).unwrap();
    if a.header().hash_table_size as usize == slots { cover("crowded"); }
    for (s, c) in names.iter().zip(&want) { let r = a.read_file(s); check(r.is_ok(), "a stored name is found in a crowd"); check(eq(&r.unwrap(), c), "the file found in a crowd is the one named"); }
    let mut i = 0; let mut k = 0; while k < 3 { let n = format!("z{i}"); if mpq::hash(n.as_bytes(), 0) as usize & (slots - 1) == slot { check(a.find_file(&n).unwrap().is_none(), "a name that was not stored is not found in a crowd"); k += 1; } i += 1; }
}
harnesses!(h_probe2, h_probe4, h_built, h_many, h_hundreds, h_crafted, h_hi, h_chain, h_collide);
