// An independent reading of the MPQ format: reference hash, cipher and a raw archive writer.
#![allow(dead_code)]
const fn gen() -> [u32; 0x500] {
    let mut t = [0u32; 0x500]; let mut s: u64 = 0x0010_0001; let mut i = 0;
    while i < 0x100 { let mut j = 0; while j < 5 {
        s = (s * 125 + 3) % 0x2AAAAB; let h = (s & 0xFFFF) << 16; s = (s * 125 + 3) % 0x2AAAAB;
        t[i + j * 0x100] = (h | (s & 0xFFFF)) as u32; j += 1;
    } i += 1; }
    t
}
pub static T: [u32; 0x500] = gen();
const fn upper() -> [u8; 256] { let mut t = [0u8; 256]; let mut i = 0; while i < 256 { t[i] = if i >= 97 && i <= 122 { i as u8 - 32 } else if i == 47 { 92 } else { i as u8 }; i += 1; } t }
const fn lower() -> [u8; 256] { let mut t = [0u8; 256]; let mut i = 0; while i < 256 { t[i] = if i >= 65 && i <= 90 { i as u8 + 32 } else if i == 47 { 92 } else { i as u8 }; i += 1; } t }
const fn other() -> [u8; 256] { let mut t = [0u8; 256]; let mut i = 0; while i < 256 { t[i] = if i >= 97 && i <= 122 { i as u8 - 32 } else if i >= 65 && i <= 90 { i as u8 + 32 } else if i == 47 { 92 } else if i == 92 { 47 } else { i as u8 }; i += 1; } t }
/// the other spelling of a character, itself if there is none
pub static ALT: [u8; 256] = other();
pub static UP: [u8; 256] = upper();
pub static LO: [u8; 256] = lower();
pub fn hash(n: &[u8], kind: u32) -> u32 {
    let (mut a, mut b) = (0x7FED_7FEDu32, 0xEEEE_EEEEu32);
    for &c in n { let c = UP[c as usize] as u32; a = T[(kind * 256 + c) as usize] ^ a.wrapping_add(b); b = c.wrapping_add(a).wrapping_add(b.wrapping_mul(33)).wrapping_add(3); }
    a
}
pub fn jenkins(n: &[u8]) -> u64 {
    let mut h = 0u64;
    for &c in n { h = h.wrapping_add(LO[c as usize] as u64); h = h.wrapping_add(h << 10); h ^= h >> 6; }
    h = h.wrapping_add(h << 3); h ^= h >> 11; h.wrapping_add(h << 15)
}
pub fn enc(d: &mut [u32], key: u32) {
    if key == 0 { return; }
    let (mut k, mut s) = (key, 0xEEEE_EEEEu32);
    for v in d { s = s.wrapping_add(T[0x400 + (k & 0xFF) as usize]); let p = *v; *v = p ^ k.wrapping_add(s); k = ((!k << 21).wrapping_add(0x1111_1111)) | (k >> 11); s = p.wrapping_add(s.wrapping_mul(33)).wrapping_add(3); }
}
pub fn enc_bytes(d: &mut [u8], key: u32) {
    let n = d.len() / 4; let mut w: Vec<u32> = (0..n).map(|i| u32::from_le_bytes([d[4 * i], d[4 * i + 1], d[4 * i + 2], d[4 * i + 3]])).collect();
    enc(&mut w, key); for i in 0..n { d[4 * i..4 * i + 4].copy_from_slice(&w[i].to_le_bytes()); }
}
pub fn adler(d: &[u8]) -> u32 { let (mut a, mut b) = (1u32, 0u32); for &c in d { a = (a + c as u32) % 65521; b = (b + a) % 65521; } (b << 16) | a }
pub const HKEY: u32 = 0xC3AF3770;
pub const BKEY: u32 = 0xEC83B3A3;
#[derive(Clone, Copy)]
pub struct H { pub a: u32, pub b: u32, pub loc: u16, pub plat: u16, pub blk: u32 }
pub const NEVER: H = H { a: !0, b: !0, loc: 0xFFFF, plat: 0xFFFF, blk: 0xFFFF_FFFF };
pub const GONE: H = H { a: !0, b: !0, loc: 0xFFFF, plat: 0xFFFF, blk: 0xFFFF_FFFE };
#[derive(Clone, Copy)]
pub struct B { pub pos: u32, pub csize: u32, pub size: u32, pub flags: u32 }
pub fn hbytes(h: &[H]) -> Vec<u8> { let mut v = vec![]; for e in h { v.extend(e.a.to_le_bytes()); v.extend(e.b.to_le_bytes()); v.extend(e.loc.to_le_bytes()); v.extend(e.plat.to_le_bytes()); v.extend(e.blk.to_le_bytes()); } v }
pub fn bbytes(b: &[B]) -> Vec<u8> { let mut v = vec![]; for e in b { v.extend(e.pos.to_le_bytes()); v.extend(e.csize.to_le_bytes()); v.extend(e.size.to_le_bytes()); v.extend(e.flags.to_le_bytes()); } v }
/// version 1 archive: 32-byte header, data, hash table, block table; tables encrypted
pub fn v1(bs: u16, data: &[u8], h: &[H], b: &[B]) -> Vec<u8> {
    let hp = 32 + data.len(); let bp = hp + h.len() * 16; let end = bp + b.len() * 16;
    let mut v = vec![]; v.extend(b"MPQ\x1a"); v.extend(32u32.to_le_bytes()); v.extend((end as u32).to_le_bytes()); v.extend(0u16.to_le_bytes()); v.extend(bs.to_le_bytes());
    v.extend((hp as u32).to_le_bytes()); v.extend((bp as u32).to_le_bytes()); v.extend((h.len() as u32).to_le_bytes()); v.extend((b.len() as u32).to_le_bytes());
    v.extend(data); let mut t = hbytes(h); enc_bytes(&mut t, HKEY); v.extend(t); let mut t = bbytes(b); enc_bytes(&mut t, BKEY); v.extend(t);
    v
}
pub const EXISTS: u32 = 0x8000_0000; pub const SINGLE: u32 = 0x0100_0000; pub const CRC: u32 = 0x0400_0000; pub const COMPRESS: u32 = 0x200; pub const IMPLODE: u32 = 0x100; pub const ENCRYPTED: u32 = 0x10000; pub const FIXKEY: u32 = 0x20000;
/// hash table of `n` slots with the names placed at their probing positions, block i = name i
pub fn place(n: usize, names: &[&[u8]]) -> Vec<H> {
    let mut t = vec![NEVER; n];
    for (i, s) in names.iter().enumerate() { let mut k = hash(s, 0) as usize & (n - 1); while t[k].blk != !0 { k = (k + 1) & (n - 1); } t[k] = H { a: hash(s, 1), b: hash(s, 2), loc: 0, plat: 0, blk: i as u32 }; }
    t
}
/// reference MD5 (RFC 1321)
pub fn md5(d: &[u8]) -> [u8; 16] {
    let s = [7u32, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21];
    let k: Vec<u32> = (0..64).map(|i| MD5K[i]).collect();
    let mut m = d.to_vec(); m.push(0x80); while m.len() % 64 != 56 { m.push(0); } m.extend((d.len() as u64 * 8).to_le_bytes());
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    for c in m.chunks(64) {
        let w: Vec<u32> = (0..16).map(|i| u32::from_le_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]])).collect();
        let [mut a, mut b, mut cc, mut dd] = h;
        for i in 0..64 {
            let (f, g) = match i / 16 { 0 => ((b & cc) | (!b & dd), i), 1 => ((dd & b) | (!dd & cc), (5 * i + 1) % 16), 2 => (b ^ cc ^ dd, (3 * i + 5) % 16), _ => (cc ^ (b | !dd), 7 * i % 16) };
            let t = a.wrapping_add(f).wrapping_add(k[i]).wrapping_add(w[g]); a = dd; dd = cc; cc = b; b = b.wrapping_add(t.rotate_left(s[i / 16 * 4 + i % 4]));
        }
        h[0] = h[0].wrapping_add(a); h[1] = h[1].wrapping_add(b); h[2] = h[2].wrapping_add(cc); h[3] = h[3].wrapping_add(dd);
    }
    let mut o = [0; 16]; for i in 0..4 { o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes()); } o
}
static MD5K: [u32; 64] = [3614090360, 3905402710, 606105819, 3250441966, 4118548399, 1200080426, 2821735955, 4249261313, 1770035416, 2336552879, 4294925233, 2304563134, 1804603682, 4254626195, 2792965006, 1236535329, 4129170786, 3225465664, 643717713, 3921069994, 3593408605, 38016083, 3634488961, 3889429448, 568446438, 3275163606, 4107603335, 1163531501, 2850285829, 4243563512, 1735328473, 2368359562, 4294588738, 2272392833, 1839030562, 4259657740, 2763975236, 1272893353, 4139469664, 3200236656, 681279174, 3936430074, 3572445317, 76029189, 3654602809, 3873151461, 530742520, 3299628645, 4096336452, 1126891415, 2878612391, 4237533241, 1700485571, 2399980690, 4293915773, 2240044497, 1873313359, 4264355552, 2734768916, 1309151649, 4149444226, 3174756917, 718787259, 3951481745];
pub fn dec(d: &mut [u32], key: u32) {
    if key == 0 { return; }
    let (mut k, mut s) = (key, 0xEEEE_EEEEu32);
    for v in d { s = s.wrapping_add(T[0x400 + (k & 0xFF) as usize]); *v ^= k.wrapping_add(s); k = ((!k << 21).wrapping_add(0x1111_1111)) | (k >> 11); s = v.wrapping_add(s.wrapping_mul(33)).wrapping_add(3); }
}
pub fn dec_bytes(d: &mut [u8], key: u32) {
    let n = d.len() / 4; let mut w: Vec<u32> = (0..n).map(|i| u32::from_le_bytes([d[4 * i], d[4 * i + 1], d[4 * i + 2], d[4 * i + 3]])).collect();
    dec(&mut w, key); for i in 0..n { d[4 * i..4 * i + 4].copy_from_slice(&w[i].to_le_bytes()); }
}
/// a name without its directories
pub fn plain(n: &[u8]) -> &[u8] { match n.iter().rposition(|c| *c == b'\\' || *c == b'/') { Some(i) => &n[i + 1..], None => n } }
/// the key of a file, from its plain name, and its place and size if it says so
pub fn key(n: &[u8], flags: u32, pos: u32, size: u32) -> u32 {
    if flags & ENCRYPTED == 0 { return 0; }
    let k = hash(plain(n), 3); if flags & FIXKEY != 0 { k.wrapping_add(pos) ^ size } else { k }
}
/// the stored bytes of a file cut into sectors, each given in its stored form (method byte and data, or raw)
pub fn stored(sectors: &[Vec<u8>], flags: u32, key: u32) -> Vec<u8> {
    let mut v = vec![];
    if flags & SINGLE == 0 && flags & (COMPRESS | IMPLODE) != 0 {
        let mut o = (sectors.len() as u32 + 1) * 4; for s in sectors { v.extend(o.to_le_bytes()); o += s.len() as u32; } v.extend(o.to_le_bytes());
        enc_bytes(&mut v, key.wrapping_sub(1) * (key != 0) as u32);
    }
    for (i, s) in sectors.iter().enumerate() { let mut s = s.clone(); if key != 0 { enc_bytes(&mut s, key.wrapping_add(i as u32)); } v.extend(s); }
    v
}
pub fn r32(d: &[u8], o: usize) -> u32 { u32::from_le_bytes([d[o], d[o + 1], d[o + 2], d[o + 3]]) }
pub fn r16(d: &[u8], o: usize) -> u16 { u16::from_le_bytes([d[o], d[o + 1]]) }
/// an archive as another reader sees it; None where it breaks the format
pub struct Ar { pub ver: u16, pub sector: usize, pub size: u32, pub hpos: usize, pub bpos: usize, pub h: Vec<H>, pub b: Vec<B>, pub at: usize }
pub fn open(d: &[u8], at: usize) -> Option<Ar> {
    let d = d.get(at..)?; if d.get(..4)? != b"MPQ\x1a" { return None; }
    let ver = r16(d, 12); if ver > 3 || r32(d, 4) != [32, 44, 68, 208][ver as usize] { return None; }
    let (mut hpos, mut bpos, hn, bn) = (r32(d, 16) as usize, r32(d, 20) as usize, r32(d, 24) as usize, r32(d, 28) as usize);
    if ver > 0 { hpos |= (r16(d, 40) as usize) << 32; bpos |= (r16(d, 42) as usize) << 32; }
    if !hn.is_power_of_two() { return None; }
    let mut t = d.get(hpos..hpos + hn * 16)?.to_vec(); dec_bytes(&mut t, HKEY);
    let h = (0..hn).map(|i| H { a: r32(&t, 16 * i), b: r32(&t, 16 * i + 4), loc: r16(&t, 16 * i + 8), plat: r16(&t, 16 * i + 10), blk: r32(&t, 16 * i + 12) }).collect();
    let mut t = d.get(bpos..bpos + bn * 16)?.to_vec(); dec_bytes(&mut t, BKEY);
    let b = (0..bn).map(|i| B { pos: r32(&t, 16 * i), csize: r32(&t, 16 * i + 4), size: r32(&t, 16 * i + 8), flags: r32(&t, 16 * i + 12) }).collect();
    Some(Ar { ver, sector: 512 << r16(d, 14), size: r32(d, 8), hpos, bpos, h, b, at })
}
impl Ar {
    pub fn find(&self, n: &[u8]) -> Option<(H, B)> {
        let m = self.h.len() - 1; let mut k = hash(n, 0) as usize & m;
        for _ in 0..self.h.len() { let e = self.h[k]; if e.blk == !0 { return None; } if e.blk != !0 - 1 && e.a == hash(n, 1) && e.b == hash(n, 2) { return self.b.get(e.blk as usize).map(|b| (e, *b)); } k = (k + 1) & m; }
        None
    }
    /// the content, `unpack` given method, data and size
    pub fn read(&self, d: &[u8], n: &[u8], b: &B, unpack: &dyn Fn(u8, &[u8], usize) -> Option<Vec<u8>>) -> Option<Vec<u8>> {
        if b.flags & EXISTS == 0 { return None; }
        let k = key(n, b.flags, b.pos, b.size); let p = self.at + b.pos as usize; let raw = d.get(p..p + b.csize as usize)?; let size = b.size as usize; let packed = b.flags & (COMPRESS | IMPLODE) != 0;
        let open = |mut s: Vec<u8>, want: usize| if packed && s.len() < want { if b.flags & IMPLODE != 0 { unpack(8, &s, want) } else { let m = s.remove(0); unpack(m, &s, want) } } else { (s.len() == want).then_some(s) };
        if b.flags & SINGLE != 0 { let mut s = raw.to_vec(); if k != 0 { dec_bytes(&mut s, k); } return open(s, size); }
        let n = size.div_ceil(self.sector); let mut out = vec![];
        let mut o: Vec<usize> = (0..=n).map(|i| (i * self.sector).min(size)).collect();
        if packed { let mut t = raw.get(..4 * n + 4)?.to_vec(); if k != 0 { dec_bytes(&mut t, k.wrapping_sub(1)); } o = (0..=n).map(|i| r32(&t, 4 * i) as usize).collect(); if o[n] > raw.len() { return None; } }
        for i in 0..n { let mut s = raw.get(o[i]..o[i + 1])?.to_vec(); if k != 0 { dec_bytes(&mut s, k.wrapping_add(i as u32)); } out.extend(open(s, (size - i * self.sector).min(self.sector))?); }
        Some(out)
    }
}
