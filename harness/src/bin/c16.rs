//! C16: what the library writes, another reader of the format understands
#[path = "../sx.rs"] mod sx;
#[path = "../mpq.rs"] mod mpq;
#[path = "../codec.rs"] mod codec;
use mopaq::*;
use sx::*;
fn ver(i: usize) -> FormatVersion { [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][i] }
/// Adler-32 of up to 200 bytes as one sum each
fn adler(d: &[u8]) -> u32 { let n = d.len() as u32; let a: u32 = d.iter().map(|x| *x as u32).sum::<u32>() + 1; let b: u32 = d.iter().enumerate().map(|(i, x)| (n - i as u32) * *x as u32).sum::<u32>() + n; (b % 65521) << 16 | a }
/// sparse runs, undone independently
fn unpack(m: u8, d: &[u8], n: usize) -> Option<Vec<u8>> {
    if m == 0 { return Some(d.to_vec()); } if m != 0x20 { return codec::unpack(m, d); }
    let mut o = vec![]; let mut i = 0;
    while i < d.len() && o.len() < n { let c = pick(d[i] as u64) as u8; i += 1; if c == 0xFF { break; } if c & 0x80 != 0 { o.extend(vec![0; c as usize & 0x7F]); } else { o.extend(d.get(i..i + c as usize)?); i += c as usize; } }
    o.resize(n.max(o.len()), 0); (o.len() == n).then_some(o)
}
/// header, tables and files lie in the archive, one behind the other
fn layout(a: &mpq::Ar, d: &[u8], files: usize, crc: bool) {
    check(a.size as usize == d.len(), "the header tells the archive's size");
    check(a.b.len() == files, "there is one block for every file");
    let mut used: Vec<(usize, usize)> = vec![(0, [32, 44, 68, 208][a.ver as usize]), (a.hpos, a.hpos + 16 * a.h.len()), (a.bpos, a.bpos + 16 * a.b.len())];
    for b in &a.b { let end = b.pos as usize + b.csize as usize; used.push((b.pos as usize, end + if crc && b.flags & mpq::SINGLE != 0 { 4 } else { 0 })); }
    if a.ver >= 2 { for o in [52, 60] { let p = mpq::r32(d, o) as usize; check(mpq::r32(d, o + 4) == 0 && p != 0, "the extended tables are in the file"); used.push((p, p + 12)); } check(mpq::r32(d, 44) as usize == d.len() && mpq::r32(d, 48) == 0, "the header tells the archive's size in 64 bits, too"); }
    used.sort(); for w in used.windows(2) { check(w[0].1 <= w[1].0, "no two parts of the archive overlap"); } check(used[used.len() - 1].1 <= d.len(), "all parts lie in the archive");
    let mut seen = vec![false; files]; for h in &a.h { if h.blk != !0 { check((h.blk as usize) < files && !seen[h.blk as usize], "every block has one name"); seen[h.blk as usize] = true; check(h.plat == 0, "the platform is neutral"); } } check(seen.iter().all(|x| *x), "every block has a name");
    if a.ver == 3 {
        let r64 = |o: usize| mpq::r32(d, o) as u64 | (mpq::r32(d, o + 4) as u64) << 32;
        check(r64(68) == 16 * a.h.len() as u64 && r64(76) == 16 * a.b.len() as u64, "the header tells the sizes of the tables");
        check(eq(&d[192..208], &mpq::md5(&d[..192])), "the header carries its digest"); check(eq(&d[112..128], &mpq::md5(&d[a.bpos..a.bpos + 16 * a.b.len()])) && eq(&d[128..144], &mpq::md5(&d[a.hpos..a.hpos + 16 * a.h.len()])), "the header carries the digests of the tables");
    }
}
/// small files, every way of storing them
#[no_mangle] pub extern "C" fn h_small() {
    let v = choose("version", 4); let e = choose("encryption", 3); let crc = choose("crc", 2) == 1; let n = [0usize, 1, 3, 4, 7, 13][choose("len", 6)]; let bs = [0u16, 3][choose("block size", 2)];
    let dir = choose("directory", 2) == 1; let name = if dir { "dir\\sub/a.txt" } else { "a.txt" }; let c = symv("content", n); let loc = [0u16, 0x409][choose("locale", 2)];
    let b = ArchiveBuilder::new().version(ver(v)).block_size(bs).default_compression(0).generate_crcs(crc).listfile_option(ListfileOption::None).add_file_data(b"first".to_vec(), "first");
    let b = match e { 0 => b.add_file_data_with_options(c.clone(), name, 0, false, loc), 1 => b.add_file_data_with_options(c.clone(), name, 0, true, loc), _ => b.add_file_data_with_encryption(c.clone(), name, 0, true, loc) };
    b.build(path("a.mpq")).unwrap(); look(name, &c, e, crc, v, bs, 2, loc); cover("small");
}
fn look(name: &str, c: &[u8], e: usize, crc: bool, v: usize, bs: u16, files: usize, loc: u16) -> mpq::B {
    let d = std::fs::read(path("a.mpq")).unwrap(); let a = mpq::open(&d, 0); check(a.is_some(), "the archive is the format's"); let a = a.unwrap();
    check(a.ver as usize == v && a.sector == 512 << bs, "version and sector size are those asked for"); layout(&a, &d, files, crc);
    let f = a.find(name.as_bytes()); check(f.is_some(), "the file is found by another reader"); let (h, b) = f.unwrap();
    check(h.loc == loc, "the entry has the locale asked for"); check(b.size as usize == c.len(), "the entry has the size of the file");
    check((b.flags & mpq::ENCRYPTED != 0) == (e > 0) && (b.flags & mpq::FIXKEY != 0) == (e == 2) && (b.flags & mpq::CRC != 0) == (crc && b.flags & (mpq::SINGLE | mpq::COMPRESS) != 0), "the entry says how the file is stored");
    let r = a.read(&d, name.as_bytes(), &b, &unpack); check(r.is_some(), "the file is read by another reader"); check(eq(&r.unwrap(), c), "another reader gets the same bytes");
    if crc && b.flags & mpq::SINGLE != 0 && c.len() < 64 { let o = (b.pos + b.csize) as usize; check(mpq::r32(&d, o) == mpq::adler(c), "the checksum behind a file is its own"); }
    if crc && e == 0 && b.flags & mpq::SINGLE == 0 && b.flags & mpq::COMPRESS != 0 {
        let (n, p, k) = (c.len().div_ceil(a.sector), b.pos as usize, mpq::key(name.as_bytes(), b.flags, b.pos, b.size)); let mut t = d[p..p + 4 * n + 4].to_vec(); if k != 0 { mpq::dec_bytes(&mut t, k.wrapping_sub(1)); }
        check(mpq::r32(&t, 0) as usize == 8 * n + 4 && mpq::r32(&t, 4 * n) == b.csize, "the sectors lie behind their offsets and checksums");
        for i in 0..n { let (x, y) = (mpq::r32(&t, 4 * i) as usize, mpq::r32(&t, 4 * i + 4) as usize); if y - x < 64 { let mut s = d[p + x..p + y].to_vec(); if k != 0 { mpq::dec_bytes(&mut s, k.wrapping_add(i as u32)); } check(mpq::r32(&d, p + 4 * n + 4 + 4 * i) as u16 == adler(&s) as u16, "the checksum of a sector is its own"); cover("sector checksum"); } }
    }
    check(a.find(b"b.txt").is_none(), "a name that was not added is not found"); b
}
/// several sectors, stored and sparse
#[no_mangle] pub extern "C" fn h_sectors() {
    let v = choose("version", 4); let e = choose("encryption", 3); let crc = choose("crc", 2) == 1; let shape = choose("shape", 6); let m = [0u8, 0x20][choose("method", 2)];
    let (n, z): (usize, [bool; 3]) = [(512, [true, false, false]), (513, [false, false, false]), (513, [true, false, false]), (1024, [true, true, false]), (1030, [false, true, false]), (1500, [true, false, true])][shape];
    let mut c: Vec<u8> = (0..n).map(|i| if z[i / 512] { 0 } else { (i as u8) | 1 }).collect();
    fill(&mut c[4..8], "a"); let k = (n - 20) / 4 * 4; fill(&mut c[k..k + 4], "b"); assume((c[k + 1] != 0) & (c[k + 2] != 0) & (c[k + 3] != 0) & (c[6] != 0));
    let b = ArchiveBuilder::new().version(ver(v)).block_size(0).default_compression(0).generate_crcs(crc).listfile_option(ListfileOption::None).add_file_data(b"first".to_vec(), "first");
    let name = "dir\\a.txt";
    let b = match e { 0 => b.add_file_data_with_options(c.clone(), name, m, false, 0), 1 => b.add_file_data_with_options(c.clone(), name, m, true, 0), _ => b.add_file_data_with_encryption(c.clone(), name, m, true, 0) };
    b.build(path("a.mpq")).unwrap();
    let b = look(name, &c, e, crc, v, 0, 2, 0); if b.flags & mpq::COMPRESS != 0 { cover("compressed"); } else { cover("stored"); }
}
/// many names: every one is found, whatever collides
#[no_mangle] pub extern "C" fn h_names() {
    let v = choose("version", 4); let n = [0usize, 1, 7, 8, 16, 17][choose("files", 6)]; let list = choose("list", 2) == 1;
    let names: Vec<String> = (0..n).map(|i| format!("{}\\File{}.txt", ["a", "B"][i % 2], i * i)).collect(); let mut want = vec![];
    let mut b = ArchiveBuilder::new().version(ver(v)).default_compression(0).listfile_option(if list { ListfileOption::Generate } else { ListfileOption::None });
    for s in &names { let c = sym::<2>("content").to_vec(); b = b.add_file_data(c.clone(), s); want.push(c); }
    b.build(path("a.mpq")).unwrap();
    let d = std::fs::read(path("a.mpq")).unwrap(); let a = mpq::open(&d, 0); check(a.is_some(), "the archive is the format's"); let a = a.unwrap(); layout(&a, &d, n + list as usize, false);
    for (s, c) in names.iter().zip(&want) { let f = a.find(s.as_bytes()); check(f.is_some(), "every file is found by another reader"); check(eq(&a.read(&d, s.as_bytes(), &f.unwrap().1, &unpack).unwrap(), c), "every file is read by another reader"); }
    if list { let l = a.find(b"(listfile)"); check(l.is_some(), "the list of names is there"); let l = a.read(&d, b"(listfile)", &l.unwrap().1, &unpack).unwrap(); let l = String::from_utf8(l).unwrap(); for s in &names { check(l.lines().any(|x| x == s), "every name is on the list"); } }
    cover("found");
}
/// the method byte and the stream behind it are what other tools expect
#[no_mangle] pub extern "C" fn h_methods() {
    let v = choose("version", 4); let e = choose("encryption", 3); let crc = choose("crc", 2) == 1; let m = [0x02u8, 0x10, 0x12, 0x08][choose("method", 4)]; let (n, bs) = [(60usize, 0u16), (512, 0), (1100, 0), (4096, 3), (9000, 3)][choose("length", 5)];
    let c: Vec<u8> = (0..n).map(|i| b"the quick brown fox "[(i * i / 7) % 20]).collect(); let name = "dir\\a.txt";
    let b = ArchiveBuilder::new().version(ver(v)).block_size(bs).default_compression(0).generate_crcs(crc).listfile_option(ListfileOption::None).add_file_data(sym::<5>("neighbour").to_vec(), "first");
    let b = match e { 0 => b.add_file_data_with_options(c.clone(), name, m, false, 0), 1 => b.add_file_data_with_options(c.clone(), name, m, true, 0), _ => b.add_file_data_with_encryption(c.clone(), name, m, true, 0) };
    b.build(path("a.mpq")).unwrap();
    let b = look(name, &c, e, crc, v, bs, 2, 0); check(b.flags & mpq::COMPRESS != 0 || n < 100, "compressible files are compressed"); cover("compressed");
}
/// files and positions beyond 64 KiB
#[no_mangle] pub extern "C" fn h_large() {
    let v = choose("version", 4); let e = choose("encryption", 3); let crc = choose("crc", 2) == 1; let m = [0u8, 0x20][choose("method", 2)]; let bs = [3u16, 0][choose("sectors", 2)]; let s = 512usize << bs; let n = if bs == 0 { 132_001 } else { 70_001 }; let name = "dir\\a.txt";
    let mut c: Vec<u8> = (0..n).map(|i| if (i / s) % 4 == 1 { 0 } else { ((i * 7 + i / 251) as u8) | 1 }).collect();
    let at = [0, s, 2 * s - 4, 0x10000 - 4, 0x10000, n / 4 * 4 - 4];
    for &k in &at[if crc { 5 } else { 0 }..] { let mut w = sym::<4>("word"); if m != 0 { w.iter_mut().for_each(|b| *b |= 1); } c[k..k + 4].copy_from_slice(&w); }
    let big: Vec<u8> = (0..66_000usize).map(|i| (i * 11 + i / 253) as u8 | 1).collect();
    let b = ArchiveBuilder::new().version(ver(v)).block_size(bs).default_compression(0).generate_crcs(crc).listfile_option(ListfileOption::None).add_file_data_with_options(big, "first", 0, false, 0);
    let b = match e { 0 => b.add_file_data_with_options(c.clone(), name, m, false, 0), 1 => b.add_file_data_with_options(c.clone(), name, m, true, 0), _ => b.add_file_data_with_encryption(c.clone(), name, m, true, 0) };
    b.build(path("a.mpq")).unwrap();
    let b = look(name, &c, e, crc, v, bs, 2, 0); if b.flags & mpq::COMPRESS != 0 { cover("compressed"); } else { cover("stored"); }
}
/// names of which five have the same place in the hash table of `slots` entries, and as many others as fit
fn crowd(slots: usize, slot: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![]; let mut i = 0;
    while v.len() < 5 { let n = format!("c{i}"); if mpq::hash(n.as_bytes(), 0) as usize & (slots - 1) == slot { v.push(n); } i += 1; }
    i = 0; while v.len() < slots / 2 { v.insert(i % 7 % v.len(), format!("dir\\o{i}")); i += 1; } v
}
/// names that collide anywhere in the table, its end too
#[no_mangle] pub extern "C" fn h_collide() {
    let v = choose("version", 4); let slots = [16usize, 64, 256][choose("slots", 3)]; let slot = [0usize, 5, slots - 4, slots - 3, slots - 2, slots - 1][choose("slot", 6)]; let names = crowd(slots, slot); let mut want = vec![];
    let mut b = ArchiveBuilder::new().version(ver(v)).default_compression(0).listfile_option(ListfileOption::None);
    for (i, s) in names.iter().enumerate() { let mut c = vec![i as u8; 1 + i % 3]; if i % 16 == 0 { c[0] = u8s("content"); } b = b.add_file_data(c.clone(), s); want.push(c); }
    b.build(path("a.mpq")).unwrap(); let d = std::fs::read(path("a.mpq")).unwrap(); let a = mpq::open(&d, 0); check(a.is_some(), "the archive is the format's"); let a = a.unwrap(); layout(&a, &d, names.len(), false);
    if a.h.len() == slots { cover("crowded"); }
    for (s, c) in names.iter().zip(&want) { let f = a.find(s.as_bytes()); check(f.is_some(), "every file is found by another reader"); check(eq(&a.read(&d, s.as_bytes(), &f.unwrap().1, &unpack).unwrap(), c), "every file is read by another reader"); }
}
harnesses!(h_small, h_sectors, h_names, h_methods, h_large, h_collide);
