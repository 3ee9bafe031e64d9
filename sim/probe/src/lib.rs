//! Calls into small functions of the code under test that the compiler may
//! inline. This crate is instrumented like the code under test, so that they
//! still take simulated time.
use baokeshed::Hash;

#[inline(never)]
pub fn eq_hash(a: &Hash, b: &Hash) -> bool {
    a == b
}
#[inline(never)]
pub fn ne_hash(a: &Hash, b: &Hash) -> bool {
    a != b
}
#[inline(never)]
pub fn eq_array(a: &Hash, b: &[u8; 32]) -> bool {
    a == b
}
#[inline(never)]
pub fn ne_array(a: &Hash, b: &[u8; 32]) -> bool {
    a != b
}

// The copy helper is generic: its code is compiled here.
#[inline(never)]
pub fn copy(r: &mut dyn std::io::Read, w: &mut dyn std::io::Write) -> std::io::Result<u64> {
    baokeshed::copy::copy_wide(r, w)
}
#[inline(never)]
pub fn copy_to_hasher(r: &mut dyn std::io::Read, h: &mut baokeshed::Hasher) -> std::io::Result<u64> {
    baokeshed::copy::copy_wide(r, h)
}
