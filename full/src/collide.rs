//! Names that collide: MetroHash64 forgets four bits in its last step (h ^ rotr(h, 28) is the same for h and
//! h ^ 0x1111111111111111 * j), and the step before it can be undone, so whole families of names have one hash.
use mon::Rng;
const K0: u64 = 0xD6D018F5; const K1: u64 = 0xA2AA033B; const K2: u64 = 0x62992FC1; const K3: u64 = 0x30BC5B29;
fn inv(a: u64) -> u64 { let mut x = a; for _ in 0..6 { x = x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x))); } x }
fn step(h: u64) -> u64 { h ^ h.rotate_right(55).wrapping_mul(K1) }
/// All h with step(h) == y
fn unstep(y: u64) -> Vec<u64> {
    let mut out = vec![];
    // r = rotl(h, 9), so h = rotr(r, 9) and y[i] = r[i+9] ^ (r*K1)[i]
    for low in 0..512u64 {
        let mut r = low;
        for i in 0..55 { let b = ((y >> i) ^ (r.wrapping_mul(K1) >> i)) & 1; r |= b << (i + 9); }
        let h = r.rotate_right(9);
        if step(h) == y { out.push(h); }
    }
    out
}
/// Names of `head`'s length plus 8 bytes, all with one hash, `head` being what is hashed before the last 8 bytes
fn family(head: &[u8], r: &Rng) -> Vec<[u8; 8]> {
    let vseed = K2.wrapping_mul(K0);
    let v0 = match head.len() {
        0 => vseed,
        16 => {
            let a = u64::from_le_bytes(head[..8].try_into().unwrap()); let b = u64::from_le_bytes(head[8..].try_into().unwrap());
            let mut v1 = vseed.wrapping_add(a.wrapping_mul(K2)).rotate_right(29).wrapping_mul(K3);
            let mut v2 = vseed.wrapping_add(b.wrapping_mul(K2)).rotate_right(29).wrapping_mul(K3);
            v1 ^= v1.wrapping_mul(K0).rotate_right(21).wrapping_add(v2);
            v2 ^= v2.wrapping_mul(K3).rotate_right(21).wrapping_add(v1);
            vseed.wrapping_add(v2)
        }
        _ => unreachable!(),
    };
    let x0 = u64::from_le_bytes(*b"collide!") ^ (r.next() & 0x0f0f0f0f0f0f0f0f);
    let g = step(v0.wrapping_add(x0.wrapping_mul(K3)));
    let mut out = vec![];
    for j in 0..16u64 {
        for h in unstep(g ^ 0x1111111111111111u64.wrapping_mul(j)) {
            let x = h.wrapping_sub(v0).wrapping_mul(inv(K3)).to_le_bytes();
            if !x.contains(&0) && !x.contains(&b'/') && !out.contains(&x) { out.push(x); }
        }
    }
    out
}
/// File names with one hash
pub fn names(r: &Rng) -> Vec<Vec<u8>> { family(&[], r).into_iter().map(|x| x.to_vec()).collect() }
/// Names of extended attributes of name space `ns` with one hash
pub fn xnames(ns: i64, r: &Rng) -> Vec<Vec<u8>> {
    let mut head = ns.to_ne_bytes().to_vec(); head.extend_from_slice(b"xattr.8b");
    family(&head, r).into_iter().map(|x| { let mut v = b"xattr.8b".to_vec(); v.extend_from_slice(&x); v }).collect()
}
/// Some x with x ^ rotr(x, n) == y, if there is one
fn unrot(y: u64, n: u32) -> Option<u64> {
    let (mut x, mut seen) = (0u64, 0u64);
    for c in 0..64 { let (mut i, mut b) = (c, 0); while seen >> i & 1 == 0 { seen |= 1 << i; x |= b << i; b ^= (y >> i) & 1; i = (i + n) % 64; } }
    (x ^ x.rotate_right(n) == y).then_some(x)
}
/// Printable names whose hashes agree in their low 56 bits, which is all that the forest goes by
pub fn short(r: &Rng) -> Vec<String> {
    loop {
        let v0 = K2.wrapping_mul(K0);
        let x0 = u64::from_le_bytes(*b"collide!") ^ (r.next() & 0x0f0f0f0f0f0f0f0f);
        let g = step(v0.wrapping_add(x0.wrapping_mul(K3)));
        let z = (g ^ g.rotate_right(28)).wrapping_mul(K0); let h = z ^ z.rotate_right(29);
        let mut out: Vec<String> = vec![];
        for t in 0..256u64 {
            let Some(z) = unrot(h ^ t << 56, 29) else { continue };
            for z in [z, !z] {
                let Some(g) = unrot(z.wrapping_mul(inv(K0)), 28) else { continue };
                for j in 0..16u64 { for h in unstep(g ^ 0x1111111111111111u64.wrapping_mul(j)) {
                    let x = h.wrapping_sub(v0).wrapping_mul(inv(K3)).to_le_bytes();
                    if x.iter().all(|b| (0x20..0x7f).contains(b) && *b != b'/') { let s = String::from_utf8(x.to_vec()).unwrap(); if !out.contains(&s) { out.push(s); } }
                } }
            }
        }
        if out.len() >= 3 { return out; }
    }
}
