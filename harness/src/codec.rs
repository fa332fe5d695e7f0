//! the codecs other tools use, called directly
#![allow(dead_code)]
use std::io::{Read, Write};
pub fn pack(m: u8, d: &[u8]) -> Vec<u8> {
    match m {
        0x02 => { let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::best()); e.write_all(d).unwrap(); e.finish().unwrap() }
        0x10 => { let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::best()); e.write_all(d).unwrap(); e.finish().unwrap() }
        0x12 => { let mut o = vec![]; lzma_rs::lzma_compress(&mut &d[..], &mut o).unwrap(); o }
        _ => pklib::implode_bytes(d, pklib::CompressionMode::Binary, pklib::DictionarySize::Size4K).unwrap(),
    }
}
pub fn unpack(m: u8, d: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    match m {
        0x02 => { flate2::read::ZlibDecoder::new(d).read_to_end(&mut o).ok()?; }
        0x10 => { bzip2::read::BzDecoder::new(d).read_to_end(&mut o).ok()?; }
        0x12 => { lzma_rs::lzma_decompress(&mut &d[..], &mut o).ok()?; }
        0x08 => o = pklib::explode_bytes(d).ok()?,
        _ => return None,
    }
    Some(o)
}
