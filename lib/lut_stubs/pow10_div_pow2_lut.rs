//! Placeholder: the real src/lib.rs of this crate is missing from /repo.
//! It has no table. It only lets the crate `f256` compile; every call panics.
//! The values of the constants reach no result: every code path in `f256` that
//! uses one also calls a function below (or its pow2_div_pow10 twin) and panics.

pub const CHUNK_SIZE: u32 = 1;
pub const CHUNK_BASE: u64 = 1;
pub const CHUNK_CUTOFF: u32 = 1;
pub const COMPRESSION_RATE: u32 = 1;
pub const SHIFT: i32 = 1;

pub fn get_pow10_div_pow2_params(_exp2: i32) -> (usize, (u32, i32)) {
    panic!("left out: /repo/pow10_div_pow2_lut/src is missing")
}

pub fn lookup_pow10_div_pow2(_segment_idx: usize, _chunk_idx: usize) -> (u128, u128, u128) {
    panic!("left out: /repo/pow10_div_pow2_lut/src is missing")
}
