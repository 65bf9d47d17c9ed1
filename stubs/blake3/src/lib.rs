//! BLAKE3 (unkeyed, 32-byte output), written from the specification.
const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
const PERM: [usize; 16] = [2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8];
const START: u32 = 1; const END: u32 = 2; const PARENT: u32 = 4; const ROOT: u32 = 8;
fn g(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(x); s[d] = (s[d] ^ s[a]).rotate_right(16);
    s[c] = s[c].wrapping_add(s[d]); s[b] = (s[b] ^ s[c]).rotate_right(12);
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(y); s[d] = (s[d] ^ s[a]).rotate_right(8);
    s[c] = s[c].wrapping_add(s[d]); s[b] = (s[b] ^ s[c]).rotate_right(7);
}
fn compress(cv: &[u32; 8], m: &[u32; 16], ctr: u64, len: u32, flags: u32) -> [u32; 16] {
    let mut s = [cv[0], cv[1], cv[2], cv[3], cv[4], cv[5], cv[6], cv[7], IV[0], IV[1], IV[2], IV[3], ctr as u32, (ctr >> 32) as u32, len, flags];
    let mut m = *m;
    for r in 0..7 {
        g(&mut s, 0, 4, 8, 12, m[0], m[1]); g(&mut s, 1, 5, 9, 13, m[2], m[3]); g(&mut s, 2, 6, 10, 14, m[4], m[5]); g(&mut s, 3, 7, 11, 15, m[6], m[7]);
        g(&mut s, 0, 5, 10, 15, m[8], m[9]); g(&mut s, 1, 6, 11, 12, m[10], m[11]); g(&mut s, 2, 7, 8, 13, m[12], m[13]); g(&mut s, 3, 4, 9, 14, m[14], m[15]);
        if r < 6 { let mut n = [0; 16]; for i in 0..16 { n[i] = m[PERM[i]]; } m = n; }
    }
    for i in 0..8 { s[i] ^= s[i + 8]; s[i + 8] ^= cv[i]; }
    s
}
fn words(b: &[u8]) -> [u32; 16] { let mut x = [0u8; 64]; x[..b.len()].copy_from_slice(b); let mut w = [0; 16]; for i in 0..16 { w[i] = u32::from_le_bytes([x[4 * i], x[4 * i + 1], x[4 * i + 2], x[4 * i + 3]]); } w }
struct Out { cv: [u32; 8], m: [u32; 16], ctr: u64, len: u32, flags: u32 }
impl Out {
    fn chain(&self) -> [u32; 8] { compress(&self.cv, &self.m, self.ctr, self.len, self.flags)[..8].try_into().unwrap() }
}
fn chunk(b: &[u8], ctr: u64) -> Out {
    let mut cv = IV; let n = b.len().div_ceil(64).max(1);
    for i in 0..n {
        let blk = &b[64 * i..(64 * i + 64).min(b.len())];
        let f = if i == 0 { START } else { 0 };
        if i == n - 1 { return Out { cv, m: words(blk), ctr, len: blk.len() as u32, flags: f | END }; }
        cv = compress(&cv, &words(blk), ctr, 64, f)[..8].try_into().unwrap();
    }
    unreachable!()
}
fn tree(b: &[u8], ctr: u64) -> Out {
    if b.len() <= 1024 { return chunk(b, ctr); }
    let chunks = (b.len() - 1) / 1024; // full chunks before the last byte
    let left = 1usize << (usize::BITS - 1 - chunks.leading_zeros());
    let l = tree(&b[..left * 1024], ctr).chain(); let r = tree(&b[left * 1024..], ctr + left as u64).chain();
    let mut m = [0; 16]; m[..8].copy_from_slice(&l); m[8..].copy_from_slice(&r);
    Out { cv: IV, m, ctr: 0, len: 64, flags: PARENT }
}
pub const OUT_LEN: usize = 32;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Hash([u8; 32]);
impl Hash {
    pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
    pub fn to_hex(&self) -> String { self.0.iter().map(|b| format!("{b:02x}")).collect() }
    pub const fn from_bytes(b: [u8; 32]) -> Self { Hash(b) }
}
impl From<Hash> for [u8; 32] { fn from(h: Hash) -> Self { h.0 } }
impl From<[u8; 32]> for Hash { fn from(h: [u8; 32]) -> Self { Hash(h) } }
impl AsRef<[u8]> for Hash { fn as_ref(&self) -> &[u8] { &self.0 } }
pub fn hash(b: &[u8]) -> Hash {
    let mut o = tree(b, 0); o.flags |= ROOT; o.ctr = 0;
    let c = o.chain(); let mut r = [0; 32]; for i in 0..8 { r[4 * i..4 * i + 4].copy_from_slice(&c[i].to_le_bytes()); } Hash(r)
}
#[derive(Clone, Default, Debug)]
pub struct Hasher(Vec<u8>);
impl Hasher {
    pub fn new() -> Self { Hasher(vec![]) }
    pub fn update(&mut self, b: &[u8]) -> &mut Self { self.0.extend_from_slice(b); self }
    pub fn finalize(&self) -> Hash { hash(&self.0) }
}
#[cfg(test)] mod tests { #[test] fn kat() {
    assert_eq!(super::hash(b"").to_hex(), "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262");
    assert_eq!(super::hash(b"abc").to_hex(), "6437b3ac38465133ffb63b75273a8db548c558465d79db03fd359c6cd5bd9d85");
} }
