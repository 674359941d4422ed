//! `KM`: the BLS12-381 scalar field for machine-level checks: an element IS its canonical 256-bit
//! integer.  Arithmetic is not modelled; conversion to and from integers is exact.
use ark_ff::{BigInt, BigInteger, FftField, Field, PrimeField};
use ark_serialize::SerializationError;
use num_bigint::BigUint;

#[derive(Clone, Copy)]
pub struct KM(pub [u64; 4]);

pub const P: [u64; 4] = [0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48];

pub fn below(a: &[u64; 4], b: &[u64; 4]) -> bool {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}
fn sub_p(a: &mut [u64; 4]) {
    let mut br = 0u128;
    let mut i = 0;
    while i < 4 {
        let t = (a[i] as u128).wrapping_sub(P[i] as u128).wrapping_sub(br);
        a[i] = t as u64;
        br = (t >> 64) & 1;
        i += 1;
    }
}

impl KM {
    pub const F_ZERO: KM = KM([0; 4]);
    pub const F_ONE: KM = KM([1, 0, 0, 0]);
    pub const VSIZE: usize = 32;
    pub const VSIZE_UNCOMP: usize = 32;
    fn v_eq(&self, o: &Self) -> bool { self.0 == o.0 }
    fn v_cmp(&self, o: &Self) -> core::cmp::Ordering { BigInt::<4>(self.0).cmp(&BigInt(o.0)) }
    fn v_hash(&self) -> u64 { self.0[0] }
    fn v_fmt(&self) -> String { String::new() }
    fn v_default() -> Self { Self::F_ZERO }
    fn v_rand<R: ark_std::rand::Rng + ?Sized>(_r: &mut R) -> Self { unimplemented!() }
    fn v_ser(&self, _c: bool) -> Vec<u8> { unimplemented!() }
    fn v_de(_b: &[u8], _c: bool) -> Result<Self, SerializationError> { unimplemented!() }
    fn v_check(&self) -> Result<(), SerializationError> { Ok(()) }
    /// exact; only there so that code which computes with field elements is still decided
    fn f_add(self, o: Self) -> Self {
        let mut r = [0u64; 4];
        let mut c = 0u128;
        let mut i = 0;
        while i < 4 {
            let t = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = t as u64;
            c = t >> 64;
            i += 1;
        }
        if !below(&r, &P) { sub_p(&mut r); }
        KM(r)
    }
    fn f_sub(self, o: Self) -> Self { self.f_add(o.f_neg()) }
    fn f_mul(self, o: Self) -> Self {
        // a factor that fits in a word: 64 doublings; with a constant factor these are mere shifts
        let small = |a: &Self| a.0[1] == 0 && a.0[2] == 0 && a.0[3] == 0;
        if small(&o) { return self.times_word(o.0[0]); }
        if small(&self) { return o.times_word(self.0[0]); }
        let mut r = KM([0; 4]);
        let mut i = 4;
        while i > 0 {
            i -= 1;
            let mut k = 64;
            while k > 0 {
                k -= 1;
                r = r.f_add(r);
                if (o.0[i] >> k) & 1 == 1 { r = r.f_add(self); }
            }
        }
        r
    }
    fn times_word(self, x: u64) -> Self {
        let mut r = KM([0; 4]);
        let mut k = 64;
        while k > 0 {
            k -= 1;
            if x >> k == 0 { continue; }
            r = r.f_add(r);
            if (x >> k) & 1 == 1 { r = r.f_add(self); }
        }
        r
    }
    fn f_div(self, _o: Self) -> Self { unimplemented!() }
    fn f_neg(self) -> Self {
        if self.0 == [0; 4] { return self; }
        let mut r = P;
        let mut br = 0u128;
        let mut i = 0;
        while i < 4 {
            let t = (r[i] as u128).wrapping_sub(self.0[i] as u128).wrapping_sub(br);
            r[i] = t as u64;
            br = (t >> 64) & 1;
            i += 1;
        }
        KM(r)
    }
    fn f_inv(&self) -> Option<Self> { unimplemented!() }
    fn f_is_zero(&self) -> bool { self.0 == [0; 4] }
    fn f_from_u128(x: u128) -> Self { KM([x as u64, (x >> 64) as u64, 0, 0]) }
    fn f_from_random_bytes(_b: &[u8]) -> Option<Self> { unimplemented!() }
    fn f_char() -> &'static [u64] { &P }
}
boiler::impl_field_common!(KM);
boiler::impl_prime_field!(KM);
impl FftField for KM {
    const GENERATOR: Self = KM([7, 0, 0, 0]);
    const TWO_ADICITY: u32 = 32;
    const TWO_ADIC_ROOT_OF_UNITY: Self = KM([7, 0, 0, 0]);
}
impl core::str::FromStr for KM {
    type Err = ();
    fn from_str(_s: &str) -> Result<Self, ()> { Err(()) }
}
impl From<BigInt<4>> for KM { fn from(b: BigInt<4>) -> KM { KM(b.0) } }
impl From<KM> for BigInt<4> { fn from(f: KM) -> Self { BigInt(f.0) } }
impl From<BigUint> for KM { fn from(_b: BigUint) -> KM { unimplemented!() } }
impl From<KM> for BigUint { fn from(_f: KM) -> BigUint { unimplemented!() } }
impl PrimeField for KM {
    type BigInt = BigInt<4>;
    const MODULUS: BigInt<4> = BigInt(P);
    const MODULUS_MINUS_ONE_DIV_TWO: BigInt<4> = <ark_bls12_381::Fr as PrimeField>::MODULUS_MINUS_ONE_DIV_TWO;
    const MODULUS_BIT_SIZE: u32 = 255;
    const TRACE: BigInt<4> = <ark_bls12_381::Fr as PrimeField>::TRACE;
    const TRACE_MINUS_ONE_DIV_TWO: BigInt<4> = <ark_bls12_381::Fr as PrimeField>::TRACE_MINUS_ONE_DIV_TWO;
    fn from_bigint(r: BigInt<4>) -> Option<Self> {
        if below(&r.0, &P) { Some(KM(r.0)) } else { None }
    }
    fn into_bigint(self) -> BigInt<4> { BigInt(self.0) }
    /// exact for at most 32 bytes (2^256 < 3p, so at most two subtractions)
    fn from_be_bytes_mod_order(b: &[u8]) -> Self {
        assert!(b.len() <= 32);
        let mut l = [0u64; 4];
        let mut i = 0;
        while i < b.len() {
            let k = b.len() - 1 - i; // significance in bytes
            l[k / 8] |= (b[i] as u64) << (8 * (k % 8));
            i += 1;
        }
        if !below(&l, &P) { sub_p(&mut l); }
        if !below(&l, &P) { sub_p(&mut l); }
        KM(l)
    }
    fn from_le_bytes_mod_order(b: &[u8]) -> Self {
        let mut v = b.to_vec();
        v.reverse();
        Self::from_be_bytes_mod_order(&v)
    }
}
