//! What is asserted, written once and used twice: by Kani over `KM` for every input within the
//! bounds, and natively over the real BLS12-381 scalar field to replay a counterexample.
use ark_ff::{BigInt, PrimeField};
use dist_saver::error::SaverError;
use dist_saver::utils::{chunks_count, compose, decompose};

pub type R = Result<(), &'static str>;

pub fn elem<F: PrimeField<BigInt = BigInt<4>>>(l: [u64; 4]) -> Option<F> {
    F::from_bigint(BigInt(l))
}
/// digit `i` (most significant first) of `n` base-2^b digits of the integer `l`; b divides 64
pub fn digit(l: &[u64; 4], b: usize, n: usize, i: usize) -> u16 {
    let bit = (n - 1 - i) * b;
    ((l[bit / 64] >> (bit % 64)) & ((1u64 << b) - 1)) as u16
}

/// encode: the digits are the canonical big-endian ones, and decoding returns the message
pub fn roundtrip<F: PrimeField<BigInt = BigInt<4>>>(l: [u64; 4], b: u8) -> R {
    let m: F = match elem(l) {
        Some(m) => m,
        None => return Ok(()),
    };
    let n = 256 / b as usize;
    let d = match decompose(&m, b) {
        Ok(d) => d,
        Err(_) => return Err("decompose refuses a supported chunk size"),
    };
    if d.len() != n {
        return Err("number of chunks");
    }
    if n != chunks_count::<F>(b) as usize {
        return Err("number of chunks disagrees with chunks_count");
    }
    let mut i = 0;
    while i < n {
        if d[i] != digit(&l, b as usize, n, i) {
            return Err("a chunk is not the base-2^b digit of the message");
        }
        i += 1;
    }
    match compose::<F>(&d, b) {
        Ok(x) => {
            if x.into_bigint().0 != l {
                return Err("decoding the chunks does not return the message");
            }
        }
        Err(_) => return Err("compose refuses the output of decompose"),
    }
    Ok(())
}

/// decode: any sequence of in-range digits is the integer they spell, reduced modulo the field order
pub fn decode<F: PrimeField<BigInt = BigInt<4>>>(d: &[u16], b: u8) -> R {
    let mut l = [0u64; 4];
    let n = d.len();
    let mut i = 0;
    while i < n {
        let bit = (n - 1 - i) * b as usize;
        l[bit / 64] |= (d[i] as u64) << (bit % 64);
        i += 1;
    }
    let mut k = 0;
    while k < 3 && !below(&l, &F::MODULUS.0) {
        sub(&mut l, &F::MODULUS.0);
        k += 1;
    }
    match compose::<F>(d, b) {
        Ok(x) => {
            if x.into_bigint().0 != l {
                return Err("decoded value is not the integer the chunks spell");
            }
        }
        Err(_) => return Err("compose refuses in-range chunks"),
    }
    Ok(())
}

pub fn unsupported<F: PrimeField<BigInt = BigInt<4>>>(l: [u64; 4], b: u8, x: u16) -> R {
    if b == 4 || b == 8 || b == 16 {
        return Ok(());
    }
    let m: F = match elem(l) {
        Some(m) => m,
        None => return Ok(()),
    };
    match decompose(&m, b) {
        Err(SaverError::UnexpectedBase(y)) => {
            if y != b {
                return Err("the error names another chunk size");
            }
        }
        _ => return Err("decompose accepts an unsupported chunk size"),
    }
    match compose::<F>(&[x, x], b) {
        Err(SaverError::UnexpectedBase(y)) => {
            if y != b {
                return Err("the error names another chunk size");
            }
        }
        _ => return Err("compose accepts an unsupported chunk size"),
    }
    Ok(())
}

pub fn odd<F: PrimeField<BigInt = BigInt<4>>>(d: &[u16]) -> R {
    match compose::<F>(d, 4) {
        Err(SaverError::InvalidDecomposition) => {
            if d.len() % 2 == 0 {
                return Err("an even number of 4-bit chunks is refused");
            }
        }
        Ok(_) => {
            if d.len() % 2 == 1 {
                return Err("an odd number of 4-bit chunks is accepted");
            }
        }
        _ => return Err("unexpected error"),
    }
    Ok(())
}

pub fn count<F: PrimeField<BigInt = BigInt<4>>>(b: u8) -> R {
    if b == 0 {
        return Ok(());
    }
    let n = chunks_count::<F>(b) as usize;
    let bits = F::MODULUS_BIT_SIZE as usize;
    if n * (b as usize) < bits {
        return Err("too few chunks to hold every field element");
    }
    if n == 0 || (n - 1) * (b as usize) >= bits {
        return Err("more chunks than needed");
    }
    Ok(())
}

pub fn below(a: &[u64; 4], b: &[u64; 4]) -> bool {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}
pub fn sub(a: &mut [u64; 4], p: &[u64; 4]) {
    let mut br = 0u128;
    let mut i = 0;
    while i < 4 {
        let t = (a[i] as u128).wrapping_sub(p[i] as u128).wrapping_sub(br);
        a[i] = t as u64;
        br = (t >> 64) & 1;
        i += 1;
    }
}
