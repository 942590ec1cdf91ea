//! Offline stand-in for zstd::bulk, over the same lossless codec as the lz4_flex stand-in.
pub mod bulk {
    use std::io;
    pub fn compress(src: &[u8], _level: i32) -> io::Result<Vec<u8>> {
        let mut v = vec![0x28]; v.extend(lz4_flex::block::compress(src)); Ok(v)
    }
    pub fn decompress(src: &[u8], cap: usize) -> io::Result<Vec<u8>> {
        if src.first() != Some(&0x28) { return Err(io::Error::new(io::ErrorKind::InvalidData, "magic")); }
        lz4_flex::block::decompress(&src[1..], cap).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
    }
}
