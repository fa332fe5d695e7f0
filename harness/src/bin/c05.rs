//! C05: the header is located and read exactly
#[path = "../sx.rs"] mod sx;
#[path = "../mpq.rs"] mod mpq;
use mopaq::*;
use sx::*;
use std::io::Cursor;
fn le(d: &[u8], at: usize, n: usize) -> u64 { let mut v = 0u64; for i in 0..n { v |= (d[at + i] as u64) << (8 * i); } v }
const NEED: [u32; 4] = [32, 44, 68, 208];
/// every header of every version: each field is the little-endian value at its place
#[no_mangle] pub extern "C" fn h_fields() {
    let v = choose("version", 4);
    let mut d = symv("header", 208); d[..4].copy_from_slice(b"MPQ\x1a"); d[12] = v as u8; d[13] = 0;
    match MpqHeader::read(&mut Cursor::new(&d[..])) {
        Err(_) => { check((le(&d, 4, 4) < NEED[v] as u64) | (le(&d, 14, 2) > 22), "a valid header is accepted"); cover("refused"); }
        Ok(h) => {
            check((le(&d, 4, 4) >= NEED[v] as u64) & (le(&d, 14, 2) < 55), "a header too small for its version is refused");
            check(h.header_size as u64 == le(&d, 4, 4) && h.archive_size as u64 == le(&d, 8, 4) && h.block_size as u64 == le(&d, 14, 2), "sizes");
            check(h.format_version as usize == v, "version");
            check(h.hash_table_pos as u64 == le(&d, 16, 4) && h.block_table_pos as u64 == le(&d, 20, 4) && h.hash_table_size as u64 == le(&d, 24, 4) && h.block_table_size as u64 == le(&d, 28, 4), "table positions and sizes");
            let (hp, bp) = (le(&d, 16, 4), le(&d, 20, 4));
            if v >= 1 {
                check(h.hi_block_table_pos == Some(le(&d, 32, 8)), "hi-block table position");
                check(h.get_hash_table_pos() == le(&d, 40, 2) << 32 | hp && h.get_block_table_pos() == le(&d, 42, 2) << 32 | bp, "48-bit table positions");
            } else { check(h.hi_block_table_pos.is_none() && h.get_hash_table_pos() == hp && h.get_block_table_pos() == bp, "version 1 has no extended fields"); }
            if v >= 2 { check(h.get_archive_size() == le(&d, 44, 8) && h.bet_table_pos == Some(le(&d, 52, 8)) && h.het_table_pos == Some(le(&d, 60, 8)), "64-bit size, BET and HET positions"); }
            else { check(h.get_archive_size() == le(&d, 8, 4) && h.bet_table_pos.is_none() && h.het_table_pos.is_none(), "32-bit size before version 3"); }
            match &h.v4_data {
                None => check(v < 3, "version 4 carries its own fields"),
                Some(x) => {
                    check(v == 3, "only version 4 carries the digest fields");
                    check(x.hash_table_size_64 == le(&d, 68, 8) && x.block_table_size_64 == le(&d, 76, 8) && x.hi_block_table_size_64 == le(&d, 84, 8) && x.het_table_size_64 == le(&d, 92, 8) && x.bet_table_size_64 == le(&d, 100, 8) && x.raw_chunk_size as u64 == le(&d, 108, 4), "version 4 sizes");
                    check(x.md5_block_table[..] == d[112..128] && x.md5_hash_table[..] == d[128..144] && x.md5_hi_block_table[..] == d[144..160] && x.md5_bet_table[..] == d[160..176] && x.md5_het_table[..] == d[176..192] && x.md5_mpq_header[..] == d[192..208], "version 4 digests");
                }
            }
            cover("accepted");
        }
    }
}
/// other signatures, unknown versions and truncated headers are refused
#[no_mangle] pub extern "C" fn h_refuse() {
    let mut d = symv("header", 208); let v = u16s("version"); d[12] = v as u8; d[13] = (v >> 8) as u8;
    let n = [0usize, 3, 4, 31, 32, 43, 44, 67, 68, 111, 207, 208][choose("length", 12)];
    let good = (d[0] == b'M') & (d[1] == b'P') & (d[2] == b'Q') & (d[3] == 0x1A);
    match MpqHeader::read(&mut Cursor::new(&d[..n])) {
        Ok(_) => { check(good, "another signature is refused"); check(v < 4, "an unknown version is refused"); check(n >= NEED[(v & 3) as usize] as usize, "a truncated header is refused"); cover("accepted"); }
        Err(_) => cover("refused"),
    }
}
/// which 512-byte boundaries carry the signature is symbolic: the first one is the archive's start
#[no_mangle] pub extern "C" fn h_scan() {
    let k = 3; let mut d: Vec<u8> = (0..512 * k + 32).map(|i| (i % 13) as u8).collect();
    let mut here = vec![];
    for i in 0..=k {
        let mut s = [0u8; 4]; fill(&mut s, "signature");
        assume(!((s[0] == b'M') & (s[1] == b'P') & (s[2] == b'Q') & (s[3] == 0x1B)));
        here.push((s[0] == b'M') & (s[1] == b'P') & (s[2] == b'Q') & (s[3] == 0x1A));
        d[512 * i..512 * i + 4].copy_from_slice(&s); d[512 * i + 4..512 * i + 8].copy_from_slice(&32u32.to_le_bytes()); d[512 * i + 12] = 0; d[512 * i + 13] = 0; d[512 * i + 14] = 3; d[512 * i + 15] = 0; d[512 * i + 8] = i as u8;
    }
    // a signature off the boundary never counts
    d[256..260].copy_from_slice(b"MPQ\x1a"); d[600..604].copy_from_slice(b"MPQ\x1a");
    std::fs::write(path("a.mpq"), &d).unwrap();
    let mut want = usize::MAX; for i in (0..=k).rev() { if here[i] { want = i; } }
    match Archive::open_with_options(path("a.mpq"), OpenOptions::new().load_tables(false)) {
        Ok(a) => { check(a.archive_offset() == want as u64 * 512, "the archive starts at the first boundary with the signature"); check(a.header().archive_size as u8 as usize == want, "the header read is the one found"); check(a.user_data().is_none(), "no user data"); cover("found"); }
        Err(_) => { check(want == usize::MAX, "an archive at a boundary is found"); cover("none"); }
    }
}
/// a user data block points at the header, at any boundary and distance
#[no_mangle] pub extern "C" fn h_userdata() {
    let at = choose("at", 3); let dist = [512u32, 1024, 64, 700][choose("distance", 4)];
    let (us, uh) = (u32s("size"), u32s("header size"));
    let mut d = vec![0u8; 512 * at]; d.extend(b"MPQ\x1b"); d.extend(us.to_le_bytes()); d.extend(dist.to_le_bytes()); d.extend(uh.to_le_bytes());
    d.resize(512 * at + dist as usize, 0xAA); let b = vec![]; d.extend(mpq::v1(3, &[], &[mpq::NEVER], &b));
    std::fs::write(path("a.mpq"), &d).unwrap();
    let a = Archive::open(path("a.mpq")).unwrap();
    check(a.archive_offset() == (512 * at) as u64 + dist as u64, "the header is where the user data says");
    let u = a.user_data().unwrap();
    check(u.user_data_size == us && u.header_offset == dist && u.user_data_header_size == uh, "user data fields");
    check(a.find_file("x").unwrap().is_none(), "tables are read relative to the header");
}
/// the sector size is 512 shifted by the stored exponent
#[no_mangle] pub extern "C" fn h_sector() {
    let mut d = vec![0u8; 32]; d[..4].copy_from_slice(b"MPQ\x1a"); d[4] = 32; let s = u16s("shift"); assume(s < 23); d[14] = s as u8;
    let h = MpqHeader::read(&mut Cursor::new(&d[..])).unwrap();
    check(h.sector_size() as u64 == 512u64 << s, "sector size");
    check(calculate_sector_size(s) as u64 == 512u64 << s, "sector size helper");
}
/// archives far into a file, and user data that points far
#[no_mangle] pub extern "C" fn h_far() {
    let at = [127usize, 128, 129, 255, 256, 300][choose("boundary", 6)] * 512; let user = choose("user data", 2) == 1; let dist = if user { [0x200u32, 0xFFFF, 0x10000, 0x10200][choose("distance", 4)] } else { 0 };
    let mut d: Vec<u8> = (0..at).map(|i| (i % 13) as u8).collect();
    let s = sym::<4>("signature"); assume(!((s[0] == b'M') & (s[1] == b'P') & (s[2] == b'Q') & ((s[3] == 0x1B) | (s[3] == 0x1A)))); d[0x8000..0x8004].copy_from_slice(&s);
    if user { d.extend(b"MPQ\x1b"); d.extend(100u32.to_le_bytes()); d.extend(dist.to_le_bytes()); d.extend(16u32.to_le_bytes()); d.resize(at + dist as usize, 0xAA); }
    let c = sym::<3>("content"); let mut data = vec![7u8; 70_000]; data.extend(c); let b = [mpq::B { pos: 32 + 70_000, csize: 3, size: 3, flags: mpq::EXISTS | mpq::SINGLE }];
    d.extend(mpq::v1(3, &data, &mpq::place(4, &[b"f"]), &b));
    std::fs::write(path("a.mpq"), &d).unwrap();
    let a = Archive::open(path("a.mpq")); check(a.is_ok(), "an archive at a boundary is found"); let mut a = a.unwrap();
    check(a.archive_offset() == (at + dist as usize) as u64, "the archive starts where its header is"); check(a.user_data().is_some() == user, "user data is there if it is in the file");
    check(eq(&a.read_file("f").unwrap(), &c), "positions count from the archive's start"); cover("found");
}
harnesses!(h_fields, h_refuse, h_scan, h_userdata, h_sector, h_far);
