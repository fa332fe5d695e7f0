//! C01: what is stored in an archive is what is read back
#[path = "../sx.rs"] mod sx;
use mopaq::*;
use sx::*;

fn ver(i: usize) -> FormatVersion { [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][i] }
const N: &str = "dir\\a.txt";
fn put(b: ArchiveBuilder, e: usize, c: &[u8], m: u8) -> ArchiveBuilder {
    match e {
        0 => b.add_file_data_with_options(c.to_vec(), N, m, false, 0),
        1 => b.add_file_data_with_options(c.to_vec(), N, m, true, 0),
        2 => b.add_file_data_with_encryption(c.to_vec(), N, m, true, 0),
        _ => b.add_file_data_with_encryption(c.to_vec(), N, m, false, 0),
    }
}
fn back(c: &[u8]) {
    let mut a = Archive::open(path("a.mpq")).unwrap();
    let i = a.find_file(N).unwrap().unwrap();
    check(i.file_size == c.len() as u64, "the recorded size is the content's size");
    let d = a.read_file(N).unwrap();
    check(d == c, "a stored file reads back byte for byte");
    let d = a.read_file("DIR/A.TXT").unwrap();
    check(d == c, "the same content under another spelling of the name");
}

/// one file of up to 14 symbolic bytes: every version, encryption mode and checksum mode
#[no_mangle] pub extern "C" fn h_rt_small() {
    let v = choose("version", 4); let e = choose("encryption", 4); let crc = choose("crc", 2) == 1; let n = choose("len", 14);
    let c = symv("content", n);
    put(ArchiveBuilder::new().version(ver(v)).default_compression(0).generate_crcs(crc), e, &c, 0).build(path("a.mpq")).unwrap();
    back(&c);
    cover("small");
}
/// content around sector boundaries: concrete bytes with symbolic ones at both ends of each sector
fn edges(n: usize, s: usize, seed: usize) -> Vec<u8> {
    let mut c: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251 + seed) as u8 | 1).collect();
    let mut k = 0; while k < n { let a = k.saturating_sub(4); let z = (k + 4).min(n); fill(&mut c[a..z], "edge"); k += s; }
    let a = (n - 1) / 4 * 4; fill(&mut c[a..], "last");
    c
}
#[no_mangle] pub extern "C" fn h_rt_multi() {
    let v = choose("version", 4); let e = choose("encryption", 4); let crc = choose("crc", 2) == 1; let bs = choose("block_size", 2) as u16;
    let s = 512usize << bs; let n = [s - 1, s, s + 1, 2 * s - 1, 2 * s, 2 * s + 3, 3 * s + 5][choose("len", 7)];
    let c = edges(n, s, 0);
    put(ArchiveBuilder::new().version(ver(v)).block_size(bs).default_compression(0).generate_crcs(crc), e, &c, 0).build(path("a.mpq")).unwrap();
    back(&c);
    if n > s { cover("several sectors"); } else { cover("one sector"); }
}
/// compressible sectors (runs of zeros, symbolic bytes between them) next to incompressible ones
#[no_mangle] pub extern "C" fn h_rt_sparse() {
    let v = choose("version", 4); let e = choose("encryption", 3); let crc = choose("crc", 2) == 1; let shape = choose("shape", 5); assume(shape != 1 || e == 0);
    let (n, z): (usize, [bool; 3]) = [(40, [true, false, false]), (511, [true, false, false]), (1024, [true, false, false]), (1030, [false, true, true]), (1500, [true, true, false])][shape];
    let mut c: Vec<u8> = (0..n).map(|i| if z[i / 512] { 0 } else { (i as u8) | 1 }).collect();
    fill(&mut c[4..8], "a"); let k = (n - 20) / 4 * 4; fill(&mut c[k..k + 4], "b"); assume((c[k + 1] != 0) & (c[k + 2] != 0) & (c[k + 3] != 0) & (c[6] != 0));
    put(ArchiveBuilder::new().version(ver(v)).block_size(0).default_compression(0).generate_crcs(crc), e, &c, 0x20).build(path("a.mpq")).unwrap();
    let a = Archive::open(path("a.mpq")).unwrap();
    let i = a.find_file(N).unwrap().unwrap();
    if i.is_compressed() { cover("compressed"); }
    drop(a);
    back(&c);
}
/// third-party codecs on fixed content, every version, encryption, checksum mode and size class
#[no_mangle] pub extern "C" fn h_rt_codecs() {
    let v = choose("version", 4); let e = choose("encryption", 3); let crc = choose("crc", 2) == 1; let m = [0x02u8, 0x12, 0x10][choose("method", 3)]; let n = [60usize, 700, 1100][choose("len", 3)];
    let c: Vec<u8> = (0..n).map(|i| b"the quick brown fox "[(i * i / 7) % 20]).collect();
    put(ArchiveBuilder::new().version(ver(v)).block_size(0).default_compression(0).generate_crcs(crc), e, &c, m).build(path("a.mpq")).unwrap();
    back(&c);
}
/// several files from disk and memory in one archive, contents and sizes symbolic
#[no_mangle] pub extern "C" fn h_rt_several() {
    let v = choose("version", 4); let n1 = choose("len1", 6); let n2 = choose("len2", 6); let e = choose("encryption", 2) == 1;
    let (c1, c2, c3) = (symv("c1", n1), symv("c2", n2), symv("c3", 5));
    std::fs::write(path("src.bin"), &c2).unwrap();
    let b = ArchiveBuilder::new().version(ver(v)).default_compression(0);
    let b = b.add_file_data_with_encryption(c1.clone(), "one", 0, true, 0);
    let b = if e { b.add_file_with_encryption(path("src.bin"), "x\\two", 0, true, 0) } else { b.add_file(path("src.bin"), "x\\two") };
    b.add_file_data(c3.clone(), "three").build(path("a.mpq")).unwrap();
    let mut a = Archive::open(path("a.mpq")).unwrap();
    check(a.read_file("x/TWO").unwrap() == c2, "second file");
    check(a.read_file("three").unwrap() == c3, "third file");
    check(a.read_file("one").unwrap() == c1, "first file");
}
/// files beyond 64 KiB in up to 258 sectors: zero sectors, noise and symbolic words at sector edges, behind another large file
#[no_mangle] pub extern "C" fn h_rt_large() {
    let v = choose("version", 4); let e = choose("encryption", 3); let crc = choose("crc", 2) == 1; let m = [0u8, 0x20][choose("method", 2)]; let bs = [3u16, 5, 0][choose("block_size", 3)];
    let s = 512usize << bs; let n = if bs == 0 { 132_001 } else { 70_001 };
    let mut c: Vec<u8> = (0..n).map(|i| if (i / s) % 4 == 1 { 0 } else { ((i * 7 + i / 251) as u8) | 1 }).collect();
    let at = [0, s, 2 * s - 4, 0x10000 - 4, 0x10000, n / 4 * 4 - 4];
    for &k in &at[if crc { 5 } else { 0 }..] { let mut w = sym::<4>("word"); if m != 0 { w.iter_mut().for_each(|b| *b |= 1); } c[k..k + 4].swap_with_slice(&mut w); }
    let d: Vec<u8> = (0..66_000usize).map(|i| (i * 11 + i / 253) as u8 | 1).collect();
    let b = ArchiveBuilder::new().version(ver(v)).block_size(bs).default_compression(0).generate_crcs(crc).add_file_data_with_options(d, "big", 0, false, 0);
    put(b, e, &c, m).build(path("a.mpq")).unwrap();
    back(&c);
    cover("large");
}
/// the builder as it comes: default compression, sector size and list file
#[no_mangle] pub extern "C" fn h_rt_default() {
    let v = choose("version", 4); let n = [0usize, 1, 30, 3000, 4096, 4097, 9000][choose("len", 7)]; let disk = choose("from disk", 2) == 1;
    let c: Vec<u8> = (0..n).map(|i| b"the quick brown fox "[(i * i / 7) % 20]).collect(); let t = symv("other", 3);
    let mut b = ArchiveBuilder::new().version(ver(v));
    if disk { std::fs::write(path("src.bin"), &c).unwrap(); b = b.add_file(path("src.bin"), N); } else { b = b.add_file_data(c.clone(), N); }
    b.add_file_data_with_options(t.clone(), "t", 0, false, 0).build(path("a.mpq")).unwrap();
    back(&c);
    check(Archive::open(path("a.mpq")).unwrap().read_file("t").unwrap() == t, "the file next to it");
    cover("default");
}
/// files from disk with every option
#[no_mangle] pub extern "C" fn h_rt_disk() {
    let v = choose("version", 4); let n = [0usize, 1, 513, 1300, 9000][choose("len", 5)]; let m = [0u8, 0x20, 0x02, 0x10, 0x12, 0x08][choose("method", 6)]; let e = choose("encryption", 3); let crc = v % 2 == 1;
    let mut c: Vec<u8> = (0..n).map(|i| if i % 600 < 400 { 0 } else { b"the quick brown fox "[(i * i / 7) % 20] }).collect(); if (m == 0 || m == 0x20) && n > 0 { let k = n.saturating_sub(3); for i in k..n { c[i] = u8s("byte") | 1; } }
    std::fs::write(path("src.bin"), &c).unwrap(); let b = ArchiveBuilder::new().version(ver(v)).block_size([0, 3][(n / 500) % 2]).generate_crcs(crc);
    match e { 0 => b.add_file_with_options(path("src.bin"), N, m, false, 0), 1 => b.add_file_with_options(path("src.bin"), N, m, true, 0), _ => b.add_file_with_encryption(path("src.bin"), N, m, true, 0) }.build(path("a.mpq")).unwrap();
    back(&c); check(std::fs::read(path("src.bin")).is_ok_and(|d| eq(&d, &c)), "the source is as it was"); cover("disk");
}
harnesses!(h_rt_disk, h_rt_small, h_rt_multi, h_rt_sparse, h_rt_codecs, h_rt_several, h_rt_large, h_rt_default);
