//! C12: a file with a checksum is read only if its contents agree with it
#[path = "../sx.rs"] mod sx;
#[path = "../mpq.rs"] mod mpq;
use mopaq::*;
use sx::*;
const VS: [FormatVersion; 4] = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4];
/// crafted archive of one stored unit
fn unit(stored: &[u8], size: usize, crc: u32, flags: u32, enc: bool) -> Result<Vec<u8>> {
    let mut d = stored.to_vec(); let mut fl = mpq::EXISTS | mpq::SINGLE | mpq::CRC | flags;
    if enc { fl |= mpq::ENCRYPTED; mpq::enc_bytes(&mut d, mpq::hash(b"f", 3)); }
    let b = [mpq::B { pos: 32, csize: d.len() as u32, size: size as u32, flags: fl }]; d.extend(crc.to_le_bytes());
    std::fs::write(path("a.mpq"), mpq::v1(3, &d, &mpq::place(4, &[b"f"]), &b)).unwrap();
    Archive::open(path("a.mpq")).unwrap().read_file("f")
}
/// any contents with any checksum
#[no_mangle] pub extern "C" fn h_raw() {
    let n = [0usize, 1, 4, 5, 8, 13][choose("length", 6)]; let d = symv("data", n); let crc = u32s("checksum"); let enc = n % 4 == 0 && choose("encrypted", 2) == 1;
    let r = unit(&d, n, crc, 0, enc);
    match r { Ok(v) => { check(crc == mpq::adler(&d), "contents that do not agree with their checksum are refused"); check(eq(&v, &d), "contents that agree are given"); cover("read"); } Err(_) => { check(crc != mpq::adler(&d), "contents that agree with their checksum are not refused"); cover("refused"); } }
}
/// the checksum of compressed data is that of the file
#[no_mangle] pub extern "C" fn h_packed() {
    let l = sym::<3>("literals"); let crc = u32s("checksum"); let run = [6usize, 60][choose("run", 2)]; let enc = choose("encrypted", 2) == 1;
    // codec, a literal of two bytes, a run of zeros, a literal of one byte, the end: eight bytes
    let s = [0x20u8, 2, l[0], l[1], 0x80 | run as u8, 1, l[2], 0xFF];
    let mut full = vec![l[0], l[1]]; full.extend(vec![0; run]); full.push(l[2]);
    let r = unit(&s, full.len(), crc, mpq::COMPRESS, enc);
    match r { Ok(v) => { check(crc == mpq::adler(&full), "compressed contents that do not agree with their checksum are refused"); check(eq(&v, &full), "compressed contents that agree are given"); cover("read"); } Err(_) => { check(crc != mpq::adler(&full), "compressed contents that agree with their checksum are not refused"); cover("refused"); } }
}
/// an archive built with checksums: one changed byte of a file is noticed
#[no_mangle] pub extern "C" fn h_corrupt() {
    let v = VS[choose("version", 4)]; let n = [1usize, 4, 5][choose("length", 3)]; let c = symv("data", n); let enc = choose("encrypted", 3);
    let b = ArchiveBuilder::new().version(v).default_compression(0).generate_crcs(true).listfile_option(ListfileOption::None);
    let b = match enc { 0 => b.add_file_data(c.clone(), "f"), 1 => b.add_file_data_with_options(c.clone(), "f", 0, true, 0), _ => b.add_file_data_with_encryption(c.clone(), "f", 0, true, 0) };
    b.build(path("a.mpq")).unwrap();
    let i = Archive::open(path("a.mpq")).unwrap().find_file("f").unwrap().unwrap(); check(i.has_sector_crc(), "a file built with checksums has one");
    let mut d = std::fs::read(path("a.mpq")).unwrap(); let p = i.file_pos as usize; let at = choose("place", 12); if at >= n + 4 { return; }
    let x = u8s("change"); d[p + at] ^= x; std::fs::write(path("b.mpq"), &d).unwrap();
    match Archive::open(path("b.mpq")).unwrap().read_file("f") { Ok(r) => { check(x == 0, "a changed byte is noticed"); check(eq(&r, &c), "unchanged contents are given"); cover("read"); } Err(_) => { check(x != 0, "unchanged contents are not refused"); cover("refused"); } }
}
/// larger files: one symbolic byte, a change near the ends, in the middle or in the checksum
#[no_mangle] pub extern "C" fn h_larger() {
    let v = VS[choose("version", 4)]; let (n, bs) = [(300usize, 0u16), (512, 0), (3000, 3), (4095, 3), (9000, 5)][choose("length", 5)]; let enc = choose("encrypted", 3); let zip = choose("method", 2) * 2;
    let mut c: Vec<u8> = (0..n).map(|i| if zip > 0 { b"the quick brown fox "[(i * i / 7) % 20] } else { (i * 7 + i / 251) as u8 }).collect(); let which = n == 300 && zip == 0 && enc == 0 && choose("symbolic", 2) == 0; if which { c[n - 2] = u8s("data"); }
    let b = ArchiveBuilder::new().version(v).block_size(bs).default_compression(0).generate_crcs(true).listfile_option(ListfileOption::None);
    let b = match enc { 0 => b.add_file_data_with_options(c.clone(), "f", zip as u8, false, 0), 1 => b.add_file_data_with_options(c.clone(), "f", zip as u8, true, 0), _ => b.add_file_data_with_encryption(c.clone(), "f", zip as u8, true, 0) };
    b.build(path("a.mpq")).unwrap();
    let i = Archive::open(path("a.mpq")).unwrap().find_file("f").unwrap().unwrap(); check(i.has_sector_crc(), "a file built with checksums has one");
    let mut d = std::fs::read(path("a.mpq")).unwrap(); let (p, z) = (i.file_pos as usize, i.compressed_size as usize); let at = [0, z / 2, z - 1, z, z + 3][choose("place", 5)];
    let x = if which || n > 300 || (zip > 0 || enc > 0) && at < z { [0u8, 1, 0x80][choose("flip", 3)] } else { u8s("change") }; d[p + at] ^= x; std::fs::write(path("b.mpq"), &d).unwrap();
    match Archive::open(path("b.mpq")).unwrap().read_file("f") { Ok(r) => { check((x == 0) | (r == c), "a changed byte is noticed"); if zip == 0 { check(x == 0, "a changed byte is noticed"); } check(r == c, "what is given agrees with the checksum"); cover("read"); } Err(_) => { check(x != 0, "unchanged contents are not refused"); cover("refused"); } }
}
harnesses!(h_raw, h_packed, h_corrupt, h_larger);
