//! C18: the description of an archive tells what is in it
#[path = "../sx.rs"] mod sx;
#[path = "../mpq.rs"] #[allow(dead_code)] mod mpq;
use mopaq::*;
use mpq::*;
use sx::*;
const VS: [FormatVersion; 4] = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4];
fn get(at: &str, deferred: bool) -> ArchiveInfo {
    let a = if deferred { OpenOptions::new().load_tables(false).open(at) } else { Archive::open(at) };
    check(a.is_ok(), "the archive opens"); let r = a.unwrap().get_info(); check(r.is_ok(), "the archive is described"); r.unwrap()
}
/// hand-made archives of version 1: symbolic block entries, a list file, attributes, deleted names, a user data block
#[no_mangle] pub extern "C" fn h_crafted() {
    let nb = choose("files", 4); let list = choose("list file", 3); let attr = choose("attributes", 2) == 1; let bs = choose("sector size", 3) as u16; let at = [0usize, 512][choose("start", 2)]; let deferred = choose("deferred", 2) == 1;
    let mut data = b"f0\r\n".to_vec(); let ap = 32 + data.len(); data.extend(100u32.to_le_bytes()); data.extend(0u32.to_le_bytes());
    let mut names: Vec<&[u8]> = vec![b"f0", b"f1", b"f2"]; names.truncate(nb); let mut b = vec![];
    for i in 0..nb { let n = ["f0 entry", "f1 entry", "f2 entry"][i]; let e = sym::<16>(n); b.push(B { pos: r32(&e, 0), csize: r32(&e, 4), size: r32(&e, 8), flags: r32(&e, 12) }); }
    if list > 0 { names.push(b"(listfile)"); b.push(B { pos: 32, csize: 4, size: 4, flags: EXISTS | SINGLE }); }
    if attr { names.push(b"(attributes)"); b.push(B { pos: ap as u32, csize: 8, size: 8, flags: EXISTS | SINGLE }); }
    let mut h = place(8, &names);
    if list == 2 { for e in h.iter_mut() { if e.blk == nb as u32 { *e = GONE; } } b[nb].flags = 0; }
    let mut f = vec![]; let u: [u8; 4] = sym("user data size");
    if at > 0 { f.extend(b"MPQ\x1b"); f.extend(u); f.extend(512u32.to_le_bytes()); f.extend(16u32.to_le_bytes()); f.resize(512, 7); }
    f.extend(v1(bs, &data, &h, &b)); std::fs::write(path("a.mpq"), &f).unwrap();
    let i = get(&path("a.mpq"), deferred);
    check(i.file_size == f.len() as u64, "the size is the file's"); check(i.archive_offset == at as u64, "the start is the archive's"); check(i.format_version == FormatVersion::V1, "the version is the archive's");
    check(i.sector_size == 512 << bs, "the sector size is the archive's");
    check(i.file_count == b.iter().map(|e| (e.flags >> 31) as usize).sum::<usize>(), "the number of files is that of the blocks in use");
    check(i.is_encrypted == b.iter().fold(false, |x, e| x | ((e.flags & EXISTS != 0) & (e.flags & ENCRYPTED != 0))), "encryption is reported if a file is encrypted");
    check(i.max_file_count == 8, "the room is that of the hash table"); check(i.has_listfile == (list == 1), "the list file is reported if there is one"); check(i.has_attributes == attr, "attributes are reported if there are any");
    check(!i.has_signature && i.signature_status == SignatureStatus::None, "no signature is reported where there is none"); check(i.md5_status.is_none(), "no digests are reported for version 1");
    check(i.hash_table_info.size == Some(8) && i.hash_table_info.offset == 32 + data.len() as u64 && !i.hash_table_info.failed_to_load, "the hash table is where it is");
    check(i.block_table_info.size == Some(b.len() as u32) && i.block_table_info.offset == 32 + data.len() as u64 + 128 && i.block_table_info.failed_to_load == false, "the block table is where it is");
    check(i.het_table_info.is_none() && i.bet_table_info.is_none() && i.hi_block_table_info.is_none(), "version 1 has no other tables");
    check(i.user_data_info.is_some() == (at > 0), "user data is reported if there is any");
    if let Some(x) = i.user_data_info { check(x.data_size == u32::from_le_bytes(u) && x.header_size == 16, "user data has its sizes"); cover("user data"); }
    cover("described");
}
/// archives the library built, in front of which other data may lie
#[no_mangle] pub extern "C" fn h_built() {
    let v = choose("version", 4); let n = choose("files", 4); let e = choose("encrypted", 2) == 1; let list = choose("list file", 2) == 1; let bs = [0u16, 3][choose("sector size", 2)]; let at = [0usize, 1024][choose("start", 2)]; let deferred = choose("deferred", 2) == 1; let packed = choose("packed tables", 2) == 1; assume(!packed || v > 1);
    let mut b = ArchiveBuilder::new().version(VS[v]).block_size(bs).default_compression(0).compress_tables(packed).listfile_option(if list { ListfileOption::Generate } else { ListfileOption::None });
    for i in 0..n { let c = symv("content", i * 2); b = b.add_file_data_with_options(c, ["f0", "x\\f1", "f2"][i], 0, e && i + 1 == n, 0); }
    b.build(path("b.mpq")).unwrap();
    let mut f = vec![5u8; at]; f.extend(std::fs::read(path("b.mpq")).unwrap()); std::fs::write(path("a.mpq"), &f).unwrap();
    let i = get(&path("a.mpq"), deferred); let d = &f[at..];
    check(i.file_size == f.len() as u64 && i.archive_offset == at as u64 && i.format_version == VS[v] && i.sector_size == 512 << bs, "size, start, version and sector size are the archive's");
    check(i.file_count == n + list as usize, "every file is counted"); check(i.is_encrypted == (e && n > 0), "encryption is reported if a file is encrypted"); check(i.has_listfile == list && !i.has_attributes && !i.has_signature, "special files are reported if they are there");
    check(i.max_file_count as usize >= i.file_count, "there is room for the files there are");
    check(i.hash_table_info.size == Some(r32(d, 24)) && i.hash_table_info.offset == r32(d, 16) as u64 && !i.hash_table_info.failed_to_load, "the hash table is where it is");
    check(i.block_table_info.size == Some(r32(d, 28)) && i.block_table_info.offset == r32(d, 20) as u64 && !i.block_table_info.failed_to_load, "the block table is where it is");
    check(i.het_table_info.is_some() == (v > 1) && i.bet_table_info.is_some() == (v > 1), "versions 3 and 4 have their tables");
    if v > 1 {
        let q = |o: usize| r32(d, o) as u64 | (r32(d, o + 4) as u64) << 32; let (h, b) = (i.het_table_info.unwrap(), i.bet_table_info.unwrap());
        check(b.offset == q(52) && h.offset == q(60) && !b.failed_to_load && !h.failed_to_load, "the extended tables are where they are");
        check(b.size == Some((n + list as usize) as u32), "the extended block table has every file");
        if v == 3 { check(h.compressed_size == Some(q(92)) && b.compressed_size == Some(q(100)), "the extended tables have their sizes"); }
        cover("extended");
    }
    check(i.md5_status.is_some() == (v == 3), "version 4 has digests");
    if let Some(m) = i.md5_status { check(m.hash_table_valid && m.block_table_valid && m.hi_block_table_valid && m.het_table_valid && m.bet_table_valid && m.header_valid, "a new archive is intact"); }
    check(i.user_data_info.is_none() && i.hi_block_table_info.map_or(true, |t| !t.failed_to_load), "nothing else is reported"); cover("described");
}
/// archives of many files
#[no_mangle] pub extern "C" fn h_many() {
    let v = choose("version", 4); let n = [31usize, 255, 256, 400][choose("files", 4)]; let e = choose("encrypted", 3); let deferred = choose("deferred", 2) == 1; let packed = v > 1 && choose("packed tables", 2) == 1;
    let mut b = ArchiveBuilder::new().version(VS[v]).default_compression(0).compress_tables(packed);
    for i in 0..n { b = b.add_file_data_with_options(vec![i as u8; i % 5], &format!("f{i}"), 0, (e == 1 && i == 0) || (e == 2 && i + 1 == n), 0); }
    b.build(path("a.mpq")).unwrap(); let d = std::fs::read(path("a.mpq")).unwrap(); let i = get(&path("a.mpq"), deferred);
    check(i.file_size == d.len() as u64 && i.file_count == n + 1 && i.is_encrypted == (e > 0) && i.has_listfile, "an archive of many files is described");
    check(i.hash_table_info.size == Some(r32(&d, 24)) && i.hash_table_info.offset == r32(&d, 16) as u64 && i.block_table_info.size == Some(n as u32 + 1) && i.block_table_info.offset == r32(&d, 20) as u64, "the tables are where they are");
    if v > 1 { check(i.bet_table_info.is_some_and(|t| t.size == Some(n as u32 + 1) && !t.failed_to_load), "the extended block table has every file"); } cover("many");
}
/// extended tables compressed with each method
#[no_mangle] pub extern "C" fn h_tables() {
    let v = 2 + choose("version", 2); let n = [0usize, 1, 7, 90][choose("files", 4)]; let m = [0x02u8, 0x10, 0x12, 0x08, 0x20][choose("method", 5)]; let c = symv("content", 4);
    let mut b = ArchiveBuilder::new().version(VS[v]).default_compression(0).compress_tables(true).table_compression(m);
    for i in 0..n { b = b.add_file_data(if i == 0 { c.clone() } else { vec![i as u8; i % 5] }, &format!("f{i}")); }
    b.build(path("a.mpq")).unwrap(); let i = get(&path("a.mpq"), false);
    check(i.file_count == n + 1 && i.has_listfile, "every file is counted"); let (h, t) = (i.het_table_info.unwrap(), i.bet_table_info.unwrap());
    check(!h.failed_to_load && !t.failed_to_load && t.size == Some(n as u32 + 1), "the extended tables are read");
    if let Some(m) = i.md5_status { check(m.hash_table_valid && m.block_table_valid && m.hi_block_table_valid && m.het_table_valid && m.bet_table_valid && m.header_valid, "a new archive is intact"); }
    let mut a = Archive::open(path("a.mpq")).unwrap(); check(a.list().is_ok_and(|l| l.len() == n + 1), "every file is listed"); if n > 0 { check(a.read_file("f0").is_ok_and(|d| eq(&d, &c)), "a file is read"); } cover("tables");
}
harnesses!(h_crafted, h_built, h_many, h_tables);
