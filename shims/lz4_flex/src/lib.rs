//! Offline stand-in for lz4_flex::block: a small, checked, lossless LZ77 codec.  Every
//! stream carries no length: the caller supplies it, as with the real crate.
pub mod block {
    #[derive(Debug)]
    pub struct DecompressError(pub &'static str);
    impl std::fmt::Display for DecompressError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
    impl std::error::Error for DecompressError {}

    fn put(out: &mut Vec<u8>, mut v: usize) { while v >= 128 { out.push((v as u8) | 128); v >>= 7; } out.push(v as u8); }
    fn get(input: &[u8], p: &mut usize) -> Result<usize, DecompressError> {
        let (mut v, mut s) = (0usize, 0);
        loop {
            let b = *input.get(*p).ok_or(DecompressError("eof"))?; *p += 1;
            if s > 42 { return Err(DecompressError("varint")); }
            v |= ((b & 127) as usize) << s; s += 7;
            if b & 128 == 0 { return Ok(v); }
        }
    }
    pub fn compress(input: &[u8]) -> Vec<u8> {
        let mut out = Vec::with_capacity(input.len() / 4 + 16);
        let mut table = vec![usize::MAX; 1 << 12];
        let (mut i, mut lit) = (0, 0);
        while i + 4 <= input.len() {
            let w = u32::from_le_bytes(input[i..i + 4].try_into().unwrap());
            let h = (w.wrapping_mul(2654435761) >> 20) as usize;
            let c = table[h]; table[h] = i;
            if c != usize::MAX && input[c..c + 4] == input[i..i + 4] {
                let mut n = 4;
                while i + n < input.len() && input[c + n] == input[i + n] { n += 1; }
                put(&mut out, i - lit); out.extend_from_slice(&input[lit..i]);
                put(&mut out, n); put(&mut out, i - c);
                i += n; lit = i;
            } else { i += 1; }
        }
        put(&mut out, input.len() - lit); out.extend_from_slice(&input[lit..]);
        out
    }
    pub fn decompress(input: &[u8], max: usize) -> Result<Vec<u8>, DecompressError> {
        let mut out = Vec::with_capacity(max);
        let mut p = 0;
        while p < input.len() {
            let l = get(input, &mut p)?;
            if l > input.len() - p || out.len() + l > max { return Err(DecompressError("literal")); }
            out.extend_from_slice(&input[p..p + l]); p += l;
            if p >= input.len() { break; }
            let n = get(input, &mut p)?; let d = get(input, &mut p)?;
            if d == 0 || d > out.len() || out.len() + n > max { return Err(DecompressError("match")); }
            for _ in 0..n { out.push(out[out.len() - d]); }
        }
        Ok(out)
    }
}
