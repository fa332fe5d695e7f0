//! C06: whatever the bytes, opening and reading an archive ends in a result or an error
#[path = "../sx.rs"] mod sx;
#[path = "../mpq.rs"] mod mpq;
use mopaq::*;
use sx::*;
/// everything a reader does with an archive; results and errors are both fine, crashes are not
fn exercise(a: &mut Archive, name: &str) {
    let _ = a.find_file(name);
    let _ = a.read_file(name);
    let _ = a.list();
    let _ = a.list_all();
    let _ = a.list_all_with_hashes();
    let _ = a.get_info();
    let _ = a.verify_signature();
}
fn read(d: &[u8], name: &str) {
    std::fs::write(path("a.mpq"), d).unwrap();
    if let Ok(mut a) = Archive::open(path("a.mpq")) { match a.read_file(name) { Ok(_) => cover("read"), Err(_) => cover("refused") } }
}
fn open(d: &[u8], name: &str) {
    std::fs::write(path("a.mpq"), d).unwrap();
    match Archive::open(path("a.mpq")) { Ok(mut a) => { cover("opened"); exercise(&mut a, name) } Err(_) => cover("refused") }
}
/// a table position: at one of a few places of the file, behind its end, or far away
fn at(name: &str, len: usize) -> u32 { let p = u32s(name); assume((p == 32) | (p == 48) | (p == len as u32 - 16) | (p >= len as u32)); p }
fn body() -> Vec<u8> { let h = mpq::place(4, &[b"f"]); let b = [mpq::B { pos: 32, csize: 8, size: 8, flags: mpq::EXISTS | mpq::SINGLE }]; mpq::v1(3, &[7; 16], &h, &b) }
/// version 1 header: every field symbolic
#[no_mangle] pub extern "C" fn h_v1_header() {
    let mut d = body(); let n = d.len();
    let (hp, bp) = (at("hash table", n), at("block table", n));
    let (hs, bs) = (u32s("hash entries"), u32s("block entries"));
    assume((hs <= 4) | (hs > n as u32 / 16)); assume((bs <= 4) | (bs > n as u32 / 16));
    for (o, v) in [(4, u32s("header size")), (8, u32s("archive size")), (16, hp), (20, bp), (24, hs), (28, bs)] { d[o..o + 4].copy_from_slice(&v.to_le_bytes()); }
    let s = u16s("sector shift"); d[14..16].copy_from_slice(&s.to_le_bytes());
    open(&d, "f");
}

/// a file entry with every field symbolic, over symbolic file data of which `kind` limits the flags
fn entry(fix: u32, mask: u32, shift: u16, n: usize, most: u32, prep: impl Fn(&mut Vec<u8>)) {
    let mut data = symv("data", n); prep(&mut data);
    let (pos, cs, fs, fl) = (u32s("position"), u32s("stored size"), u32s("size"), u32s("flags"));
    let end = (32 + n + 64 + 16) as u32;
    assume((pos == 32) | (pos == 36) | (pos >= end - 4));
    assume((cs <= n as u32) | (cs > end)); assume((fs <= 3) | (fs == 513) | (fs > 512 * end)); assume(fl & mask == fix); assume(fs <= most);
    let h = mpq::place(4, &[b"f"]); let b = [mpq::B { pos, csize: cs, size: fs, flags: fl }];
    open(&mpq::v1(shift, &data, &h, &b), "f");
}
const COMP: u32 = mpq::COMPRESS | mpq::IMPLODE;
/// the first byte of a compressed unit names a codec that is part of this repository
fn codec(b: u8) { assume((b == 0) | (b == 0x20) | (b == 0x40) | (b == 0x80)); }
#[no_mangle] pub extern "C" fn h_entry_raw() { entry(0, COMP | mpq::ENCRYPTED, 0, 20, !0, |_| ()) }
#[no_mangle] pub extern "C" fn h_entry_raw_encrypted() { entry(mpq::ENCRYPTED, COMP | mpq::ENCRYPTED | mpq::FIXKEY | mpq::CRC, 0, 20, !0, |_| ()) }
/// a sparse stream of `n` tokens: runs and literals of the lengths at the limits, and the end mark
fn sparse(n: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..n { match choose("token", 6) { 0 => v.push(0), 1 => { v.push(2); v.extend(sym::<2>("literal")); } 2 => v.push(0x7F), 3 => v.push(0x81), 4 => v.push(0xFE), _ => v.push(0xFF) } }
    v
}
/// stored data of one compressed unit or sector: a codec of this repository and symbolic contents
fn unit(kind: usize, n: usize) -> Vec<u8> {
    let mut d = vec![[0, 0x20, 0x40, 0x80][kind]];
    if kind == 1 { d.extend(sparse(2)); } else { d.extend(symv("data", n - 1)); } d
}
#[no_mangle] pub extern "C" fn h_entry_unit() {
    let k = choose("codec", 4); let data = unit(k, 6);
    let (pos, cs, fl) = (32u32, [0u32, 1, 3, 6, 100][choose("stored size", 5)], u32s("flags")); let fs = [0u32, 4, 1024][choose("size", 3)];
    
    assume(fl & (mpq::COMPRESS | mpq::SINGLE | mpq::ENCRYPTED) == mpq::COMPRESS | mpq::SINGLE); assume((k != 3 && k != 2) || fl & mpq::CRC == 0);
    let h = mpq::place(4, &[b"f"]); let b = [mpq::B { pos, csize: cs, size: fs, flags: fl }];
    read(&mpq::v1(0, &data, &h, &b), "f");
}
#[no_mangle] pub extern "C" fn h_entry_sectors() {
    let k = choose("codec", 2); let mut data = symv("offsets", 12);
    let u = unit(k, 4); let (a, b) = (12 + u.len() as u32, 12 + 2 * u.len() as u32); for _ in 0..2 { data.extend(&u); }
    for i in 0..3 { let o = u32::from_le_bytes(data[4 * i..4 * i + 4].try_into().unwrap()); assume((o == 12) | (o == a) | (o == b) | (o >= b + 64 + 16)); }
    let fl = u32s("flags"); assume(fl & (mpq::COMPRESS | mpq::SINGLE | mpq::ENCRYPTED | mpq::CRC) == mpq::COMPRESS);
    let fs = [513u32, 1024][choose("size", 2)];
    let h = mpq::place(4, &[b"f"]); let b = [mpq::B { pos: 32, csize: 30, size: fs, flags: fl }];
    read(&mpq::v1(0, &data, &h, &b), "f");
}
/// sector tables of any size, position and contents, with and without sector checksums
#[no_mangle] pub extern "C" fn h_entry_offsets() {
    entry(mpq::COMPRESS, mpq::COMPRESS | mpq::SINGLE | mpq::ENCRYPTED, 0, 20, !0, |d| { for i in 0..20 { codec(d[i]) } })
}
#[no_mangle] pub extern "C" fn h_entry_fixkey() {
    let data = symv("data", 20);
    let (pos, fs) = ([32u32, 36, 200, u32::MAX][choose("position", 4)], [0u32, 5, u32::MAX][choose("size", 3)]); let (cs, fl) = (u32s("stored size"), u32s("flags"));
    assume((cs <= 20) | (cs > 200)); assume(fl & (COMP | mpq::ENCRYPTED | mpq::FIXKEY | mpq::CRC) == mpq::ENCRYPTED | mpq::FIXKEY);
    let h = mpq::place(4, &[b"f"]); let b = [mpq::B { pos, csize: cs, size: fs, flags: fl }];
    open(&mpq::v1(0, &data, &h, &b), "f");
}
/// the codecs of this repository on any bytes and any announced size
#[no_mangle] pub extern "C" fn h_codec() {
    let m = [0u8, 0x20, 0x40, 0x80, 0xC0, 0x01, 0x21][choose("method", 7)];
    let d = match m { 0x20 | 0x21 => sparse(choose("tokens", 4)), 0x80 | 0xC0 => symv("data", [0, 1, 3, 4, 5, 6, 7][choose("length", 7)]), 0x01 => { let mut d = symv("data", choose("length", 4)); if d.len() > 0 { d[0] = choose("table", 4) as u8; } d } _ => symv("data", choose("length", 6)) };
    let want = if m == 1 { [0usize, 5, 70000][choose("size", 2)] } else { [0usize, 5, 300][choose("size", 3)] };
    match compression::decompress(&d, m, want) { Ok(_) => cover("ok"), Err(_) => cover("error") }
}
/// headers of versions 2 to 4: every position and size symbolic
#[no_mangle] pub extern "C" fn h_ext_header() {
    let v = 1 + choose("version", 3); let n = 208 + 32 + 64;
    let mut d = vec![0u8; n]; d[..4].copy_from_slice(b"MPQ\x1a"); d[4..8].copy_from_slice(&208u32.to_le_bytes()); d[12] = v as u8; d[14] = 3;
    for i in 208..n { d[i] = (i * 7) as u8; }
    let (hs, bs) = if v == 1 { (u32s("hash entries"), u32s("block entries")) } else { (choose("tables", 2) as u32, 1) }; assume((hs <= 2) | (hs > n as u32)); assume((bs <= 2) | (bs > n as u32));
    let far = |name: &str| { let p = u64s(name); assume((p == 0) | (p == 208) | (p == 240) | (p == n as u64 - 4) | (p >= n as u64)); p };
    d[24..28].copy_from_slice(&hs.to_le_bytes()); d[28..32].copy_from_slice(&bs.to_le_bytes());
    for (o, h, name) in [(16, 40, "hash table"), (20, 42, "block table")] { let p = if v == 1 { far(name) } else { 240 }; assume(p < 1 << 48); d[o..o + 4].copy_from_slice(&(p as u32).to_le_bytes()); d[h..h + 2].copy_from_slice(&((p >> 32) as u16).to_le_bytes()); }
    d[32..40].copy_from_slice(&far("hi-block table").to_le_bytes());
    if v >= 2 { d[44..52].copy_from_slice(&u64s("archive size").to_le_bytes()); d[52..60].copy_from_slice(&far("BET").to_le_bytes()); d[60..68].copy_from_slice(&far("HET").to_le_bytes()); }
    if v == 3 { for (o, name) in [(92, "HET size"), (100, "BET size")] { let z = u64s(name); assume((z <= 16) | (z > n as u64)); d[o..o + 8].copy_from_slice(&z.to_le_bytes()); } }
    std::fs::write(path("a.mpq"), &d).unwrap();
    match Archive::open(path("a.mpq")) { Ok(mut a) => { cover("opened"); let _ = a.find_file("f"); let _ = a.read_file("f"); let _ = a.list_all(); } Err(_) => cover("refused") }
}
/// a HET table with every header field and its contents symbolic
#[no_mangle] pub extern "C" fn h_het() {
    let mut d = b"HET\x1a\x01\0\0\0".to_vec(); let n = 12 + 32 + 8;
    let z = u32s("data size"); assume((z <= 40) | (z == 41)); d.extend(z.to_le_bytes()); d.extend(symv("table", n - 12));
    if z == 41 { d[12] = 0; }
    let f = |i: usize| u32::from_le_bytes(d[12 + 4 * i..16 + 4 * i].try_into().unwrap());
    assume((f(1) <= 4) | (f(1) > 1 << 30)); assume((f(2) <= 4) | (f(2) > 1 << 30)); assume((f(4) <= 32) | (f(4) > 1 << 30));
    match HetTable::read(&mut std::io::Cursor::new(&d), 0, n as u64, 0) { Ok(h) => { cover("read"); let _ = h.find_file("f"); let _ = h.find_file(""); } Err(_) => cover("refused") }
}
/// a BET table with every header field and its contents symbolic
#[no_mangle] pub extern "C" fn h_bet() {
    let mut d = b"BET\x1a\x01\0\0\0".to_vec(); let n = 12 + 76 + 12;
    let z = u32s("data size"); assume(z <= 88); d.extend(z.to_le_bytes()); d.extend(symv("table", n - 12));
    let f = |i: usize| u32::from_le_bytes(d[12 + 4 * i..16 + 4 * i].try_into().unwrap());
    let (fc, es) = ([0u32, 1, 2, u32::MAX][choose("files", 4)], [0u32, 1, 32, 64, u32::MAX][choose("entry bits", 5)]); assume(f(1) == fc); assume(f(3) == es); d[16..20].copy_from_slice(&fc.to_le_bytes()); d[24..28].copy_from_slice(&es.to_le_bytes());
    let f = |i: usize| u32::from_le_bytes(d[12 + 4 * i..16 + 4 * i].try_into().unwrap());
    assume((f(18) <= 2) | (f(18) > 1 << 30)); assume((f(17) <= 16) | (f(17) > 1 << 30));
    for i in 9..13 { assume((f(i) == 0) | (f(i) == 1) | ((f(i) >= 63) & (f(i) <= 65)) | (f(i) > 1 << 30)); }
    for i in 4..8 { assume((f(i) == 0) | (f(i) == 31) | (f(i) > 1 << 30)); }
    match BetTable::read(&mut std::io::Cursor::new(&d), 0, n as u64, 0) { Ok(b) => { cover("read"); let _ = b.get_file_info([0u32, 1, 2, u32::MAX][choose("index", 4)]); } Err(_) => cover("refused") }
}
/// special files with any contents
#[no_mangle] pub extern "C" fn h_special() {
    match choose("file", 4) {
        0 => { let n = [0, 7, 8, 12, 40][choose("length", 5)]; let mut d = symv("attributes", n); if n >= 8 && choose("version", 2) == 1 { d[..4].copy_from_slice(&100u32.to_le_bytes()); } let c = [0usize, 1, 2, 9][choose("files", 4)]; match special_files::Attributes::parse(&d.into(), c) { Ok(a) => { cover("attributes"); let _ = a.to_bytes(); let _ = a.get_file_attributes(u32s("index") as usize); } Err(_) => cover("refused") } }
        1 => { let n = choose("length", 5); let d = symv("listfile", n); let _ = special_files::parse_listfile(&d); }
        2 => { let n = [0, 71, 72, 80][choose("length", 4)]; let mut d = symv("signature", n); if n > 16 { for b in d[16..].iter_mut() { *b = 0; } } let _ = crypto::parse_weak_signature(&d); }
        _ => { let n = [0, 4, 259, 260, 300][choose("length", 5)]; let mut d = symv("signature", n); if n > 10 { for b in d[10..].iter_mut() { *b = 0; } } let _ = crypto::parse_strong_signature(&d); }
    }
}
/// a user data block with any sizes and header distance
#[no_mangle] pub extern "C" fn h_userdata() {
    let a = body(); let mut d = b"MPQ\x1b".to_vec(); d.extend(u32s("size").to_le_bytes()); let o = u32s("distance"); assume((o == 0) | (o == 64) | (o == 1) | (o >= 64 + a.len() as u32 - 4)); d.extend(o.to_le_bytes()); d.extend(u32s("header size").to_le_bytes());
    d.resize(64, 0); d.extend(&a); let cut = choose("cut", 6); d.truncate([8, 15, 16, 64, 80, 1 << 20][cut]);
    open(&d, "f");
}
harnesses!(h_v1_header, h_entry_raw, h_entry_raw_encrypted, h_entry_unit, h_entry_sectors, h_entry_offsets, h_entry_fixkey, h_codec, h_ext_header, h_het, h_bet, h_special, h_userdata);
