//! Offline stand-in for byteshuffle: transposes the bytes of `typesize`-byte elements.
pub fn shuffle(typesize: usize, src: &[u8]) -> Vec<u8> {
    let n = src.len() / typesize;
    let mut out = Vec::with_capacity(src.len());
    for b in 0..typesize { for i in 0..n { out.push(src[i * typesize + b]); } }
    out.extend_from_slice(&src[n * typesize..]);
    out
}
pub fn unshuffle(typesize: usize, src: &[u8]) -> Vec<u8> {
    let n = src.len() / typesize;
    let mut out = vec![0; src.len()];
    for b in 0..typesize { for i in 0..n { out[i * typesize + b] = src[b * n + i]; } }
    out[n * typesize..].copy_from_slice(&src[n * typesize..]);
    out
}
