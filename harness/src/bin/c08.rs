//! C08: what the (attributes) file says about a file is what the library reports
#[path = "../sx.rs"] mod sx;
#[path = "../mpq.rs"] mod mpq;
use mopaq::special_files::*;
use mopaq::*;
use sx::*;
fn size(fl: u32, n: usize) -> usize { 8 + (fl as usize & 1) * 4 * n + (fl as usize >> 1 & 1) * 8 * n + (fl as usize >> 2 & 1) * 16 * n + (fl as usize >> 3 & 1) * n.div_ceil(8) }
fn u32at(d: &[u8], o: usize) -> u32 { u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) }
/// the report on file i against the bytes, read independently
fn agree(a: &FileAttributes, d: &[u8], fl: u32, n: usize, i: usize) {
    let mut o = 8;
    if fl & 1 != 0 { check(a.crc32 == Some(u32at(d, o + 4 * i)), "the reported CRC is the stored one"); o += 4 * n; } else { check(a.crc32.is_none(), "no CRC is invented"); }
    if fl & 2 != 0 { check(a.filetime == Some(u32at(d, o + 8 * i) as u64 | (u32at(d, o + 8 * i + 4) as u64) << 32), "the reported time is the stored one"); o += 8 * n; } else { check(a.filetime.is_none(), "no time is invented"); }
    if fl & 4 != 0 { let m = a.md5; check(m.is_some(), "a stored MD5 is reported"); check(eq(&m.unwrap(), &d[o + 16 * i..o + 16 * i + 16]), "the reported MD5 is the stored one"); o += 16 * n; } else { check(a.md5.is_none(), "no MD5 is invented"); }
    if fl & 8 != 0 { let p = a.is_patch; check(p.is_some(), "a stored patch mark is reported"); check(p.unwrap() as u8 == d[o + i / 8] >> (i % 8) & 1, "the reported patch mark is the stored one"); } else { check(a.is_patch.is_none(), "no patch mark is invented"); }
}
fn content(fl: u32, n: usize, extra: usize) -> Vec<u8> {
    let mut d = 100u32.to_le_bytes().to_vec(); d.extend((fl | u32s("other flags") & !15).to_le_bytes()); d.extend(symv("data", size(fl, n) - 8 + extra)); d
}
/// every stored value of every file is reported, nothing else is
#[no_mangle] pub extern "C" fn h_parse() {
    let fl = choose("flags", 16) as u32; let n = [0usize, 1, 7, 8, 9, 17][choose("files", 6)]; let x = [0usize, 3][choose("extra", 2)];
    let d = content(fl, n, x); let a = Attributes::parse(&d.clone().into(), n);
    check(a.is_ok(), "a complete attributes file is accepted"); let a = a.unwrap(); cover("parsed");
    check((a.version == 100) & (a.flags.as_u32() == u32at(&d, 4)), "version and flags are reported");
    check(a.file_attributes.len() == n, "there is one record for every file");
    for i in 0..n { let r = a.get_file_attributes(i); check(r.is_some(), "every file has its record"); agree(r.unwrap(), &d, fl, n, i); }
    check(a.get_file_attributes(n).is_none(), "no file behind the last has a record");
    if x == 0 && n % 8 == 0 { check(eq(&a.to_bytes().unwrap(), &d), "writing what was read gives the same file"); }
}
/// too short a file or another version is refused
#[no_mangle] pub extern "C" fn h_refuse() {
    let fl = choose("flags", 16) as u32; let n = [1usize, 8, 9][choose("files", 3)]; let full = size(fl, n); let l = [0usize, 3, 7, full - 1, full][choose("length", 5)];
    let mut d = content(fl, n, 0); d.truncate(l);
    let v = u32s("version"); if l >= 4 { d[..4].copy_from_slice(&v.to_le_bytes()); }
    let a = Attributes::parse(&d.into(), n);
    check(a.is_ok() == (l == full && v == 100), "an attributes file is accepted exactly if it is of version 100 and complete");
    if a.is_ok() { cover("accepted") } else { cover("refused") }
}
/// what is written reads back
#[no_mangle] pub extern "C" fn h_write() {
    let fl = choose("flags", 16) as u32; let n = [0usize, 1, 8, 9][choose("files", 4)]; let gone = choose("missing", 3);
    let mut f = vec![];
    for i in 0..n { let h = |k: usize| gone == 0 || (gone == 1 && i % 2 == 0) || (gone == 2 && (i + k) % 3 == 0); f.push(FileAttributes { crc32: h(0).then(|| u32s("crc")), filetime: h(1).then(|| u64s("time")), md5: h(2).then(|| sym::<16>("md5")), is_patch: h(3).then(|| bools("patch")) }); }
    let a = Attributes { version: 100, flags: AttributeFlags::new(fl), file_attributes: f.clone() };
    let d = a.to_bytes(); check(d.is_ok(), "attributes can be written"); let d = d.unwrap();
    check(d.len() == size(fl, n), "the written file has the size the format prescribes");
    let b = Attributes::parse(&d.into(), n); check(b.is_ok(), "what was written is read"); let b = b.unwrap();
    for i in 0..n {
        let (x, y) = (&f[i], b.get_file_attributes(i).unwrap());
        if fl & 1 != 0 { check(y.crc32 == Some(x.crc32.unwrap_or(0)), "a CRC comes back") } else { check(y.crc32.is_none(), "an unselected CRC is not stored") }
        if fl & 2 != 0 { check(y.filetime == Some(x.filetime.unwrap_or(0)), "a time comes back") } else { check(y.filetime.is_none(), "an unselected time is not stored") }
        if fl & 4 != 0 { check(eq(&y.md5.unwrap(), &x.md5.unwrap_or([0; 16])), "an MD5 comes back") } else { check(y.md5.is_none(), "an unselected MD5 is not stored") }
        if fl & 8 != 0 { check(y.is_patch == Some(x.is_patch.unwrap_or(false)), "a patch mark comes back") } else { check(y.is_patch.is_none(), "an unselected patch mark is not stored") }
    }
    cover("written");
}
/// the attributes of an archive are found, and belong to the blocks in order
#[no_mangle] pub extern "C" fn h_archive() {
    let fl = choose("flags", 16) as u32; let n = [2usize, 9][choose("files", 2)]; let there = choose("kind", 3);
    let d = content(fl, n, 0); let mut data = d.clone(); let mut bits = mpq::EXISTS | mpq::SINGLE;
    if there == 2 { bits |= mpq::ENCRYPTED; let k = mpq::hash(b"(attributes)", 3); mpq::enc_bytes(&mut data, k); }
    let name: &[u8] = if there == 0 { b"(attribute)" } else { b"(attributes)" };
    let mut b = vec![mpq::B { pos: 32, csize: data.len() as u32, size: data.len() as u32, flags: bits }];
    for i in 1..n { b.push(mpq::B { pos: 32, csize: i as u32, size: i as u32, flags: mpq::EXISTS | mpq::SINGLE }); }
    std::fs::write(path("a.mpq"), mpq::v1(3, &data, &mpq::place(4, &[name]), &b)).unwrap();
    let mut a = Archive::open(path("a.mpq")).unwrap();
    for _ in 0..2 { check(a.load_attributes().is_ok(), "attributes can be loaded, again and again, and may be missing"); }
    if there == 0 { check(a.attributes().is_none(), "without an (attributes) file there are none"); cover("none"); return; }
    let r = a.attributes(); check(r.is_some(), "the attributes are there"); check(r.unwrap().file_attributes.len() == n, "there is one record for every block");
    for i in 0..n { let r = a.get_file_attributes(i); check(r.is_some(), "every block has its record"); agree(r.unwrap(), &d, fl, n, i); }
    check(a.get_file_attributes(n).is_none(), "no block behind the last has a record"); cover("loaded");
}
/// the same for archives the library built, whatever their version
#[no_mangle] pub extern "C" fn h_built() {
    let v = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][choose("version", 4)]; let fl = [15u32, 6][choose("flags", 2)];
    let n = 3; let d = content(fl, n, 0);
    let b = ArchiveBuilder::new().version(v).listfile_option(ListfileOption::Generate).default_compression(0)
        .add_file_data(b"one".to_vec(), "one.txt").add_file_data_with_options(d.clone(), "(attributes)", 0, bools("encrypt"), 0);
    b.build(path("a.mpq")).unwrap();
    let mut a = Archive::open(path("a.mpq")).unwrap(); check(a.load_attributes().is_ok(), "the attributes of a built archive can be loaded");
    for i in 0..n { let r = a.get_file_attributes(i); check(r.is_some(), "every file of a built archive has its record"); agree(r.unwrap(), &d, fl, n, i); }
    cover("loaded");
}
/// hundreds of files: the values at both ends and around 256 symbolic
#[no_mangle] pub extern "C" fn h_many() {
    let fl = choose("flags", 16) as u32; let n = [64usize, 255, 256, 257, 300, 1025][choose("files", 6)];
    let mut d = 100u32.to_le_bytes().to_vec(); d.extend(fl.to_le_bytes()); let l = size(fl, n); for i in d.len()..l { d.push((i * 7 + i / 256) as u8); }
    let bits = size(fl & 7, n); // where the patch marks start; one of their bytes is symbolic
    if fl & 8 != 0 { d[bits + n / 16] = u8s("marks"); if n % 8 != 0 { d[l - 1] &= (1 << (n % 8)) - 1; } }
    for p in [8, l / 2, bits - 4] { if p >= 8 && p + 4 <= bits { let w: [u8; 4] = sym("data"); d[p..p + 4].copy_from_slice(&w); } }
    let a = Attributes::parse(&d.clone().into(), n); check(a.is_ok(), "a complete attributes file is accepted"); let a = a.unwrap();
    check(a.file_attributes.len() == n, "there is one record for every file"); for i in 0..n { agree(a.get_file_attributes(i).unwrap(), &d, fl, n, i); }
    check(eq(&a.to_bytes().unwrap(), &d), "writing what was read gives the same file");
    d.pop(); if fl != 0 { check(Attributes::parse(&d.into(), n).is_err(), "an incomplete attributes file is refused"); } cover("parsed");
}
harnesses!(h_parse, h_refuse, h_write, h_archive, h_built, h_many);
