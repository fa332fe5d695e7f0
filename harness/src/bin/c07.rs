//! C07: the codecs of this repository decode what the format prescribes and give back what was encoded
#[path = "../sx.rs"] mod sx;
use mopaq::compression::{compress, decompress};
use sx::*;
const SPARSE: u8 = 0x20; const MONO: u8 = 0x40; const STEREO: u8 = 0x80;
/// what `compress` gave, decoded again: raw when it carries no method byte
fn back(z: &[u8], method: u8, n: usize) -> Vec<u8> { if z.len() < n { check(z[0] == method, "compressed data starts with its method"); decompress(&z[1..], method, n).unwrap() } else { z.to_vec() } }
/// zero runs of every length around the limits, between symbolic bytes
#[no_mangle] pub extern "C" fn h_sparse_runs() {
    let mut d = symv("head", choose("head length", 3));
    d.extend(vec![0u8; [1usize, 2, 63, 125, 126, 127, 128, 129, 251, 252, 253, 254, 255, 256, 380, 513][choose("run", 16)]]);
    d.extend(symv("tail", choose("tail length", 4)));
    let z = compress(&d, SPARSE).unwrap();
    check(z.len() <= d.len(), "compressing never grows data");
    check(eq(&back(&z, SPARSE, d.len()), &d), "sparse data survives");
}
/// literals of every length around the limits
#[no_mangle] pub extern "C" fn h_sparse_literals() {
    let n = [1usize, 2, 125, 126, 127, 128, 129, 253, 254, 255, 256][choose("length", 11)];
    let mut d: Vec<u8> = (0..n).map(|i| 1 + (i % 250) as u8).collect(); let w = u8s("last"); d[n - 1] = w; d[n / 2] = u8s("middle");
    d.extend(vec![0u8; 40]); d.extend(sym::<2>("tail"));
    let z = compress(&d, SPARSE).unwrap();
    check(eq(&back(&z, SPARSE, d.len()), &d), "sparse data survives");
}
/// every token of a sparse stream means what the format says
#[no_mangle] pub extern "C" fn h_sparse_tokens() {
    let (mut z, mut want) = (vec![], vec![]); let mut end = false;
    for _ in 0..choose("tokens", 4) {
        match choose("token", 4) {
            0 => { let c = [0u8, 1, 2, 126][choose("zeros", 4)]; z.push(0x80 | c); if !end { want.extend(vec![0u8; c as usize]); } }
            1 => { let l = sym::<3>("literal"); z.push(3); z.extend(l); if !end { want.extend(l); } }
            2 => { z.push(0); }
            _ => { z.push(0xFF); end = true; }
        }
    }
    if z.is_empty() { return; }
    let pad = choose("missing", 3); let n = want.len() + pad; want.extend(vec![0u8; pad]);
    check(eq(&decompress(&z, SPARSE, n).unwrap(), &want), "sparse tokens"); cover("decoded");
}
const NEXT: [i32; 32] = [-1, 0, -1, 4, -1, 2, -1, 6, -1, 1, -1, 5, -1, 3, -1, 7, -1, 1, -1, 5, -1, 3, -1, 7, -1, 2, -1, 4, -1, 6, -1, 8];
const STEP: [i32; 89] = [7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 19, 21, 23, 25, 28, 31, 34, 37, 41, 45, 50, 55, 60, 66, 73, 80, 88, 97, 107, 118, 130, 143, 157, 173, 190, 209, 230, 253, 279, 307, 337, 371, 408, 449, 494, 544, 598, 658, 724, 796, 876, 963, 1060, 1166, 1282, 1411, 1552, 1707, 1878, 2066, 2272, 2499, 2749, 3024, 3327, 3660, 4026, 4428, 4871, 5358, 5894, 6484, 7132, 7845, 8630, 9493, 10442, 11487, 12635, 13899, 15289, 16818, 18500, 20350, 22385, 24623, 27086, 29794, 32767];
/// the format's ADPCM decoder
fn reference(d: &[u8], ch: usize) -> Vec<i16> {
    let sh = d[1] as u32; let mut p = vec![0i32; ch]; let mut ix = vec![0x2Cusize; ch]; let mut o = vec![];
    for c in 0..ch { p[c] = i16::from_le_bytes([d[2 + 2 * c], d[3 + 2 * c]]) as i32; o.push(p[c] as i16); }
    let mut c = ch - 1;
    for &e in &d[2 + 2 * ch..] {
        c = (c + 1) % ch;
        if e == 0x80 { ix[c] = ix[c].saturating_sub(1); o.push(p[c] as i16); }
        else if e == 0x81 { ix[c] = (ix[c] + 8).min(0x58); c = (c + ch - 1) % ch; }
        else {
            let s = STEP[ix[c]]; let mut df = s >> sh;
            for b in 0..6 { df += ((e as i32 >> b) & 1) * (s >> b); }
            let sg = if e & 0x40 != 0 { -1 } else { 1 };
            let n = p[c] + sg * df; p[c] = if n < -32768 { -32768 } else if n > 32767 { 32767 } else { n };
            o.push(p[c] as i16);
            let k = ix[c] as i32 + NEXT[(e & 31) as usize]; ix[c] = if k < 0 { 0 } else if k > 88 { 88 } else { k as usize };
        }
    }
    o
}
/// codes that walk the step index up, down and to both ends, then one symbolic code
#[no_mangle] pub extern "C" fn h_adpcm_decode() {
    let ch = 1 + choose("channels", 2); let mut d = vec![0, [0u8, 4, 7][choose("shift", 3)]];
    d.extend(symv("first samples", 2 * ch));
    for _ in 0..choose("steps", 2) { match choose("walk", 5) { 0 => d.push(0x80), 1 => d.push(0x81), 2 => d.extend([0x81; 9]), 3 => d.extend([0x80; 50]), _ => d.extend([0x1F, 0x5F, 0x0F, 0x42]) } }
    d.push(u8s("code"));
    let want = reference(&d, ch); let mut w = vec![]; for s in &want { w.extend(s.to_le_bytes()); }
    let got = decompress(&d, if ch == 1 { MONO } else { STEREO }, w.len()).unwrap();
    check(got.len() == w.len(), "number of samples"); check(eq(&got, &w), "ADPCM samples");
}
/// encoded and decoded: same number of samples, first ones exact, no sample further off than the step to it
#[no_mangle] pub extern "C" fn h_adpcm_round() {
    let ch = 1 + choose("channels", 2); let warm = choose("warm-up", 4);
    let mut x: Vec<i16> = vec![]; for i in 0..ch * 12 { x.push([[0i16, 3, -4, 5], [900, -900, 20, 12000], [32767, -32768, 32767, -32768], [-32768, -32768, -32768, -32000]][warm][i % 4]); }
    x.push(u16s("sample") as i16); if ch == 2 { x.push(77); }
    let mut b = vec![]; for s in &x { b.extend(s.to_le_bytes()); }
    let m = if ch == 1 { MONO } else { STEREO };
    let z = compress(&b, m).unwrap(); let y = back(&z, m, b.len());
    check(y.len() == b.len(), "ADPCM keeps the number of samples");
    let y: Vec<i16> = y.chunks(2).map(|c| i16::from_le_bytes([c[0], c[1]])).collect();
    for i in 0..x.len() {
        if i < ch { check(y[i] == x[i], "the first sample is exact"); continue; }
        let (x0, y0, p) = (x[i] as i32, y[i] as i32, y[i - ch] as i32);
        let (e, d) = ((x0 - y0).abs(), (x0 - p).abs());
        check((e <= d) | (e <= 2048), "no sample is further off than the step to it");
    }
    cover("encoded");
}
/// a signal that does not change stays within a few units
#[no_mangle] pub extern "C" fn h_adpcm_flat() {
    let ch = 1 + choose("channels", 2); let v: Vec<i16> = (0..ch).map(|_| u16s("level") as i16).collect();
    let n = [8usize, 20, 31][choose("length", 3)]; let mut b = vec![]; for i in 0..n * ch { b.extend(v[i % ch].to_le_bytes()); }
    let m = if ch == 1 { MONO } else { STEREO };
    let z = compress(&b, m).unwrap(); check(z.len() < b.len(), "ADPCM saves space");
    let y = back(&z, m, b.len()); check(y.len() == b.len(), "ADPCM keeps the number of samples");
    for (i, c) in y.chunks(2).enumerate() { let e = i16::from_le_bytes([c[0], c[1]]) as i32 - v[i % ch] as i32; check((e <= 4) & (e >= -4), "a flat signal stays flat"); }
}
/// data ADPCM cannot represent is refused, not shortened
#[no_mangle] pub extern "C" fn h_adpcm_odd() {
    let d = symv("data", [1usize, 3, 5][choose("length", 3)]); check(compress(&d, MONO).is_err(), "odd data is refused");
    let d = symv("data", [2usize, 6, 10][choose("samples", 3)]); check(compress(&d, STEREO).is_err(), "an odd number of samples is refused for two channels");
}
/// incompressible data comes back raw
#[no_mangle] pub extern "C" fn h_raw() {
    let n = choose("length", 5); let d = symv("data", n); for &b in &d { assume(b != 0); }
    let z = compress(&d, SPARSE).unwrap(); check(eq(&z, &d), "data that does not shrink is returned as it is");
    let z = compress(&d, 0).unwrap(); check(eq(&z, &d), "method 0 stores");
    if n > 0 { check(eq(&decompress(&d, 0, n).unwrap(), &d), "method 0 reads"); }
}
/// every method name stands for its bit
#[no_mangle] pub extern "C" fn h_methods() {
    use mopaq::compression::CompressionMethod as M; let f = u8s("flags"); let m = M::from_flags(f);
    let want = match f { 0 => M::None, 1 => M::Huffman, 2 => M::Zlib, 4 => M::Implode, 8 => M::PKWare, 0x10 => M::BZip2, 0x20 => M::Sparse, 0x40 => M::AdpcmMono, 0x80 => M::AdpcmStereo, 0x12 => M::Lzma, x => M::Multiple(x) };
    check(m == want, "method of a flag byte"); check(m.is_multiple() == !matches!(f, 0 | 1 | 2 | 4 | 8 | 16 | 32 | 64 | 128 | 0x12), "several methods");
}
/// the third-party codecs on fixed data of several kinds and sizes: what was encoded comes back
#[no_mangle] pub extern "C" fn h_lossless() {
    let m = [0x02u8, 0x10, 0x12, 0x08][choose("method", 4)]; let n = [0usize, 1, 2, 3, 40, 300, 4096, 5000][choose("length", 8)]; let kind = choose("kind", 4);
    let d: Vec<u8> = (0..n).map(|i| match kind { 0 => 0, 1 => b"the quick brown fox "[(i * i / 7) % 20], 2 => (i / 64) as u8, _ => if i % 97 == 0 { i as u8 } else { 0x20 } }).collect();
    let z = match compress(&d, m) { Ok(z) => z, Err(_) => { check(n == 0, "data is compressed"); return } };
    check(z.len() <= n, "compressing never grows data");
    if n >= 300 && m != 0x08 { check(z.len() < n, "compressible data is compressed"); } if z.len() < n { cover("packed"); }
    check(back(&z, m, n) == d, "compressed data comes back");
}
/// two methods at once: the samples ADPCM alone would give
#[no_mangle] pub extern "C" fn h_combined() {
    let stereo = choose("channels", 2) == 1; let x = [0x02u8, 0x10, 0x20, 0x08][choose("with", 4)]; let n = [64usize, 400, 2000][choose("samples", 3)]; let kind = choose("kind", 3);
    let mut d = vec![]; for i in 0..n as i32 { d.extend((match kind { 0 => 0, 1 => (i % 50) * 300 - 7000, _ => (i * i * 37) % 20000 - 10000 } as i16).to_le_bytes()); }
    let a = if stereo { STEREO } else { MONO }; let m = a | x;
    let plain = back(&compress(&d, a).unwrap(), a, d.len());
    let z = match compress(&d, m) { Ok(z) => z, Err(_) => { cover("refused"); return } };
    if z.len() == d.len() { check(z == d, "data that does not shrink is returned as it is"); return; }
    check(back(&z, m, d.len()) == plain, "a second method changes nothing in the samples");
    cover("combined");
}
harnesses!(h_sparse_runs, h_sparse_literals, h_sparse_tokens, h_adpcm_decode, h_adpcm_round, h_adpcm_flat, h_adpcm_odd, h_raw, h_methods, h_lossless, h_combined);
