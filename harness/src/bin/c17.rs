//! C17: archives other tools write are read as the format says
#[path = "../sx.rs"] mod sx;
#[path = "../mpq.rs"] mod mpq;
#[path = "../codec.rs"] mod codec;
use mopaq::*;
use sx::*;
/// `pre` bytes in front of the archive, another file in front of this one
fn archive(pre: usize, name: &[u8], flags: u32, size: usize, sectors: &[Vec<u8>]) -> Vec<u8> { archive_at(pre, 0, 0, name, flags, size, sectors) }
fn archive_at(pre: usize, bs: u16, gap: usize, name: &[u8], flags: u32, size: usize, sectors: &[Vec<u8>]) -> Vec<u8> {
    let mut other = b"another file".to_vec(); other.resize(12 + gap, 0x55); let pos = 32 + other.len() as u32; let k = mpq::key(name, flags, pos, size as u32);
    let mut data = other; let s = mpq::stored(sectors, flags, k); data.extend_from_slice(&s);
    let b = [mpq::B { pos: 32, csize: 12, size: 12, flags: mpq::EXISTS | mpq::SINGLE }, mpq::B { pos, csize: s.len() as u32, size: size as u32, flags }];
    let mut v = vec![0u8; pre]; v.extend(mpq::v1(bs, &data, &mpq::place(4, &[b"other", name]), &b)); v
}
const ENC: [u32; 3] = [0, mpq::ENCRYPTED, mpq::ENCRYPTED | mpq::FIXKEY];
fn reads(v: &[u8], name: &str, want: &[u8]) {
    std::fs::write(path("a.mpq"), v).unwrap(); let mut a = Archive::open(path("a.mpq")).unwrap();
    for _ in 0..2 {
        let r = a.read_file(name); check(r.is_ok(), "a file of a well-formed archive is read"); check(eq(&r.unwrap(), want), "and reads as what was stored");
        check(eq(&a.read_file("other").unwrap(), b"another file"), "and so does its neighbour");
    }
}
/// files in one unit: raw, raw although marked as compressed, sparse; every encryption
#[no_mangle] pub extern "C" fn h_unit() {
    let e = ENC[choose("encryption", 3)]; let pre = [0usize, 512][choose("offset", 2)]; let dir = choose("directory", 2) == 1; let name = if dir { "dir\\sub\\f.txt" } else { "f.txt" };
    let n = [0usize, 1, 4, 7, 13][choose("length", 5)]; let c = symv("content", n); let kind = choose("kind", 3);
    let (flags, st, want) = match kind {
        0 => (0, c.clone(), c.clone()), 1 => { if n == 0 { return; } (mpq::COMPRESS, c.clone(), c.clone()) }
        _ => { if n == 0 { return; } let mut s = vec![0x20, n as u8]; s.extend(&c); s.push(0x80 | 20); let mut w = c.clone(); w.extend([0; 20]); (mpq::COMPRESS, s, w) }
    };
    reads(&archive(pre, name.as_bytes(), mpq::EXISTS | mpq::SINGLE | flags | e, want.len(), &[st]), name, &want); cover(["raw", "marked", "sparse"][kind]);
}
/// files of several sectors, each raw or sparse
#[no_mangle] pub extern "C" fn h_sectors() {
    let e = ENC[choose("encryption", 3)]; let n = [1usize, 511, 512, 513, 1024, 1300][choose("length", 6)]; let marked = choose("marked", 2) == 1; let name = "dir\\f.txt";
    let (mut want, mut st) = (vec![], vec![]);
    for i in 0..n.div_ceil(512) {
        let l = (n - 512 * i).min(512);
        if marked && l > 60 && choose("packed", 2) == 1 { let x = sym::<4>("word"); let mut s = vec![0x20, 4]; s.extend(x); let mut left = l - 4; let mut p = x.to_vec(); p.resize(l, 0); while left > 0 { let k = left.min(126); s.push(0x80 | k as u8); left -= k; } st.push(s); want.extend(p); cover("packed"); }
        else { let mut p: Vec<u8> = (0..l).map(|k| (k * 5 + i) as u8).collect(); let k = l.min(4); fill(&mut p[..k], "head"); if l > 8 { fill(&mut p[l - 3..], "tail"); } st.push(p.clone()); want.extend(p); }
    }
    reads(&archive(0, name.as_bytes(), mpq::EXISTS | e | if marked { mpq::COMPRESS } else { 0 }, n, &st), name, &want); cover(if marked { "marked" } else { "raw" });
}
/// imploded files carry no method byte
#[no_mangle] pub extern "C" fn h_imploded() {
    let e = ENC[choose("encryption", 3)]; let single = choose("single", 2) == 1; let name = "f.txt"; let n = [40usize, 600][choose("length", 2)];
    let c: Vec<u8> = (0..n).map(|i| b"abcabcd "[i % 8]).collect(); let raw = choose("raw", 2) == 1;
    let pack = |d: &[u8]| if raw { d.to_vec() } else { let z = compression::compress(d, 8).unwrap(); check(z[0] == 8 && z.len() < d.len(), "imploding shortens this text"); z[1..].to_vec() };
    let st: Vec<Vec<u8>> = if single { vec![pack(&c)] } else { c.chunks(512).map(|s| pack(s)).collect() };
    reads(&archive(0, name.as_bytes(), mpq::EXISTS | mpq::IMPLODE | e | if single { mpq::SINGLE } else { 0 }, n, &st), name, &c); cover(if raw { "raw" } else { "imploded" });
}
/// the same name in several languages: one of them is given, whole
#[no_mangle] pub extern "C" fn h_locale() {
    let (x, y) = (sym::<3>("one"), sym::<2>("two")); let l = [0x409u16, 0x407, 1, 0xFFFF][choose("locale", 4)]; let (l1, l2) = if choose("order", 2) == 0 { (0, l) } else { (l, 0) };
    let n: &[u8] = b"f.txt"; let h = |l, b| mpq::H { a: mpq::hash(n, 1), b: mpq::hash(n, 2), loc: l, plat: 0, blk: b };
    let mut t = vec![mpq::NEVER; 4]; let k = mpq::hash(n, 0) as usize & 3; t[k] = h(l1, 0); t[(k + 1) & 3] = h(l2, 1);
    let mut d = x.to_vec(); d.extend(y); let f = mpq::EXISTS | mpq::SINGLE;
    std::fs::write(path("a.mpq"), mpq::v1(0, &d, &t, &[mpq::B { pos: 32, csize: 3, size: 3, flags: f }, mpq::B { pos: 35, csize: 2, size: 2, flags: f }])).unwrap();
    let mut a = Archive::open(path("a.mpq")).unwrap(); let r = a.read_file("f.txt"); check(r.is_ok(), "the file is there"); let r = r.unwrap();
    let f = a.find_file("f.txt").unwrap().unwrap(); check(f.locale == l1 || f.locale == l2, "it is in one of the languages"); check(if f.locale == l1 { eq(&r, &x) } else { eq(&r, &y) }, "and reads as what is stored in that language"); cover(if f.locale == 0 { "neutral" } else { "language" });
}
/// the other codecs on fixed text, in one unit and in sectors, mixed with raw sectors
#[no_mangle] pub extern "C" fn h_methods() {
    let e = ENC[choose("encryption", 3)]; let m = [0x02u8, 0x10, 0x12, 0x08][choose("method", 4)]; let single = choose("single", 2) == 1; let (n, bs) = [(40usize, 0u16), (600, 0), (1300, 0), (5000, 3)][choose("length", 4)]; let name = "dir\\f.txt";
    if single && m == 8 && n > 4096 { return; } // the encoder of pklib loses data beyond 4096 bytes
    let mut c: Vec<u8> = (0..n).map(|i| b"abcabcd ef"[(i * i / 5) % 10]).collect(); let s = 512usize << bs; let raw = choose("raw", 2) == 1;
    if raw && n > s { let x = sym::<5>("word"); for i in 0..s { c[i] = (i * 7 + i / 251) as u8; } c[..5].copy_from_slice(&x); }
    let packs = |i: usize, d: &[u8]| { if raw && n > s && i == 0 && !single { return d.to_vec(); } let z = codec::pack(m, d); if z.len() + 1 < d.len() { let mut v = vec![m]; v.extend(z); v } else { d.to_vec() } };
    if single && raw { return; }
    let st: Vec<Vec<u8>> = if single { vec![packs(0, &c)] } else { c.chunks(s).enumerate().map(|(i, d)| packs(i, d)).collect() };
    reads(&archive_at(0, bs, 0, name.as_bytes(), mpq::EXISTS | mpq::COMPRESS | e | if single { mpq::SINGLE } else { 0 }, n, &st), name, &c); cover(if single { "unit" } else { "sectors" });
}
/// files and positions beyond 64 KiB
#[no_mangle] pub extern "C" fn h_large() {
    let e = ENC[choose("encryption", 3)]; let marked = choose("marked", 2) == 1; let bs = [3u16, 0][choose("sectors", 2)]; let s = 512usize << bs; let n = if bs == 0 { 132_001 } else { 70_001 }; let name = "dir\\f.txt"; let pre = [0usize, 0x10000][choose("offset", 2)];
    let mut c: Vec<u8> = (0..n).map(|i| if marked && (i / s) % 4 == 1 && i % s >= 4 { 0 } else { ((i * 7 + i / 251) as u8) | 1 }).collect();
    for k in [0, s, 2 * s - 4, 0x10000 - 4, 0x10000, n / 4 * 4 - 4] { if marked && (k / s) % 4 == 1 && k % s != 0 { continue; } let w = sym::<4>("word"); c[k..k + 4].copy_from_slice(&w); }
    let st: Vec<Vec<u8>> = c.chunks(s).enumerate().map(|(i, d)| if marked && i % 4 == 1 { let mut v = vec![0x20, 4]; v.extend(&d[..4]); let mut left = d.len() - 4; while left > 0 { let k = left.min(126); v.push(0x80 | k as u8); left -= k; } v } else { d.to_vec() }).collect();
    reads_large(&archive_at(pre, bs, 66_000, name.as_bytes(), mpq::EXISTS | e | if marked { mpq::COMPRESS } else { 0 }, n, &st), name, &c); cover(if marked { "marked" } else { "raw" });
}
fn reads_large(v: &[u8], name: &str, want: &[u8]) {
    std::fs::write(path("a.mpq"), v).unwrap(); let mut a = Archive::open(path("a.mpq")).unwrap();
    let r = a.read_file(name); check(r.is_ok(), "a file of a well-formed archive is read"); check(eq(&r.unwrap(), want), "and reads as what was stored");
}
harnesses!(h_unit, h_sectors, h_imploded, h_locale, h_methods, h_large);
