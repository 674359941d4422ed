//! `SymF`: the symbolic scalar field (a concrete BLS12-381 scalar or a term of the arena), its
//! big-integer type, and the group hooks used by the plumbing macros.
use crate::ctx::*;
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, FftField, Field, One, PrimeField, Zero};
use ark_serialize::SerializationError;
use num_bigint::BigUint;

#[derive(Clone, Copy)]
pub enum SymF {
    C(Fr),
    P(u32),
}
use SymF::*;

const TAG: u64 = 0xFFFF_5359_4D42_0001;
pub const RNG_TAG: u64 = 0xF5A3_1C00_0000_0000;
pub const RNG_MASK: u64 = 0xFFFF_FF00_0000_0000;

impl SymF {
    pub const F_ZERO: SymF = C(<Fr as Field>::ZERO);
    pub const F_ONE: SymF = C(<Fr as Field>::ONE);
    pub const GT_ADDITIVE_ZERO: SymF = P(u32::MAX);
    pub const VSIZE: usize = 32;
    pub const VSIZE_UNCOMP: usize = 32;
    pub const G_SIZE: usize = 48;
    pub const G_COFACTOR: u64 = 1;

    pub fn from_poly(id: u32) -> SymF {
        CTX.with(|c| {
            let c = c.borrow();
            let p = &c.polys[id as usize];
            if p.is_empty() {
                C(Fr::zero())
            } else if p.len() == 1 && p[0].0 == 0 {
                C(p[0].1)
            } else {
                P(id)
            }
        })
    }
    pub fn poly(self) -> u32 {
        match self {
            C(x) => CTX.with(|c| c.borrow_mut().const_poly(x)),
            P(u32::MAX) => unsupported("additive zero of the target field used as a group element"),
            P(i) => i,
        }
    }
    pub fn is_concrete(&self) -> bool {
        matches!(self, C(_))
    }
    pub fn show(&self) -> String {
        match self {
            C(x) => fr_signed_smt(x),
            P(i) => CTX.with(|c| c.borrow().show(*i)),
        }
    }

    // ---- value hooks
    pub fn v_eq(&self, o: &Self) -> bool {
        match (self, o) {
            (C(a), C(b)) => a == b,
            (P(a), P(b)) if a == b => true,
            (P(u32::MAX), _) | (_, P(u32::MAX)) => false,
            (P(a), P(b)) => {
                // coordinates of two points: the same x means +-, the same y means up to the cube
                // roots of unity (the curves have j-invariant 0)
                let ab = CTX.with(|c| {
                    let c = c.borrow();
                    match (c.coords.get(a), c.coords.get(b)) {
                        (Some(x), Some(y)) if x.0 == y.0 => Some((x.0, x.1, y.1)),
                        _ => None,
                    }
                });
                match ab {
                    Some((2, e, f)) => (e - f).f_is_zero() || (e + f).f_is_zero(),
                    Some((_, e, f)) => {
                        let l = C(Fr::from(ark_ff::BigInt([0x00000000ffffffffu64, 0xac45a4010001a402, 0, 0])));
                        (e - f).f_is_zero() || (e - f * l).f_is_zero() || (e - f * l * l).f_is_zero()
                    }
                    None => (*self - *o).f_is_zero(),
                }
            }
            _ => (*self - *o).f_is_zero(),
        }
    }
    pub fn v_cmp(&self, o: &Self) -> core::cmp::Ordering {
        match (self, o) {
            (C(a), C(b)) => a.cmp(b),
            (P(a), P(b)) if a == b => core::cmp::Ordering::Equal,
            _ => unsupported("ordering of symbolic values"),
        }
    }
    pub fn v_hash(&self) -> u64 {
        0
    }
    pub fn v_fmt(&self) -> String {
        self.show()
    }
    pub fn v_default() -> Self {
        Self::F_ZERO
    }
    pub fn v_rand<R: ark_std::rand::Rng + ?Sized>(r: &mut R) -> Self {
        draw(r, "draw")
    }
    pub fn v_ser(&self, _comp: bool) -> Vec<u8> {
        enc_bytes(*self, 0, Self::VSIZE)
    }
    pub fn v_de(b: &[u8], _comp: bool) -> Result<Self, SerializationError> {
        dec_bytes(b, 0)
    }
    pub fn v_check(&self) -> Result<(), SerializationError> {
        Ok(())
    }

    // ---- field hooks
    pub fn f_add(self, o: Self) -> Self {
        match (self, o) {
            (C(a), C(b)) => C(a + b),
            (C(a), x) | (x, C(a)) if a.is_zero() => x,
            (a, b) => bin(a, b, 0),
        }
    }
    pub fn f_sub(self, o: Self) -> Self {
        match (self, o) {
            (C(a), C(b)) => C(a - b),
            (x, C(a)) if a.is_zero() => x,
            (a, b) => bin(a, b, 1),
        }
    }
    pub fn f_mul(self, o: Self) -> Self {
        match (self, o) {
            (C(a), C(b)) => C(a * b),
            (C(a), x) | (x, C(a)) if a.is_one() => x,
            (C(a), _) | (_, C(a)) if a.is_zero() => C(a),
            (a, b) => bin(a, b, 2),
        }
    }
    pub fn f_div(self, o: Self) -> Self {
        match o.f_inv() {
            Some(i) => self.f_mul(i),
            None => panic!("division by zero"),
        }
    }
    pub fn f_neg(self) -> Self {
        match self {
            C(a) => C(-a),
            x => SymF::F_ZERO.f_sub(x),
        }
    }
    pub fn f_inv(&self) -> Option<Self> {
        match &unpin(*self) {
            C(a) => a.inverse().map(C),
            P(_) => {
                if self.f_is_zero() {
                    return None;
                }
                let id = self.poly();
                let r = CTX.with(|c| {
                    let mut c = c.borrow_mut();
                    let p = c.polys[id as usize].clone();
                    if p.len() != 1 {
                        return None;
                    }
                    let m = c.monos[p[0].0 as usize].iter().map(|(v, e)| (*v, -*e)).collect();
                    let m = c.mono(m);
                    let k = p[0].1.inverse().unwrap();
                    Some(c.intern(vec![(m, k)]))
                });
                match r {
                    Some(i) => Some(SymF::from_poly(i)),
                    None => unsupported("inverse of a sum"),
                }
            }
        }
    }
    pub fn f_is_zero(&self) -> bool {
        match self {
            C(a) => a.is_zero(),
            P(u32::MAX) => false,
            P(i) => decide_zero(*i),
        }
    }
    pub fn f_from_u128(x: u128) -> Self {
        if x <= u64::MAX as u128 {
            if let Some(v) = CTX.with(|c| {
                let c = c.borrow();
                if c.on { c.tokens.get(&(x as u64)).cloned() } else { None }
            }) {
                return CTX.with(|c| P(c.borrow_mut().var_poly(v)));
            }
        }
        C(Fr::from(x))
    }
    pub fn f_from_random_bytes(b: &[u8]) -> Option<Self> {
        crate::types::elem_from_hash(9, b)
    }
    pub fn f_char() -> &'static [u64] {
        <Fr as Field>::characteristic()
    }

    // ---- group hooks
    pub fn g_scalar_from_limbs(l: &[u64]) -> Self {
        if l.len() == 4 && l[3] == TAG {
            return P(l[0] as u32);
        }
        if l.iter().skip(1).all(|x| *x == 0) && !l.is_empty() {
            return Self::f_from_u128(l[0] as u128);
        }
        let mut acc = Fr::zero();
        let two64 = Fr::from(1u128 << 64);
        for x in l.iter().rev() {
            acc = acc * two64 + Fr::from(*x);
        }
        C(acc)
    }
    /// the k-th power of the exponent stands for the x (k=2) or y (k=3) coordinate
    pub fn g_coord(self, k: u8) -> &'static SymF {
        let r = if k == 2 { self * self } else { self * self * self };
        if let P(i) = r {
            CTX.with(|c| c.borrow_mut().coords.insert(i, (k, self)));
        }
        Box::leak(Box::new(r))
    }
    pub fn g_rand<R: ark_std::rand::Rng + ?Sized>(tag: u32, r: &mut R) -> Self {
        draw(r, match tag { 1 => "gdraw1", 2 => "gdraw2", _ => "gdraw" })
    }
    pub fn g_ser(tag: u32, e: SymF, comp: bool) -> Vec<u8> {
        enc_bytes(e, tag, if comp { Self::G_SIZE } else { 2 * Self::G_SIZE })
    }
    pub fn g_de(tag: u32, b: &[u8], _comp: bool) -> Result<SymF, SerializationError> {
        dec_bytes(b, tag)
    }
    /// subgroup / on-curve validation: an element registered as "possibly invalid" carries an
    /// unconstrained validity bit
    pub fn g_check(_tag: u32, e: SymF) -> Result<(), SerializationError> {
        if let P(id) = e {
            let n = CTX.with(|c| {
                let c = c.borrow();
                let p = c.polys.get(id as usize)?;
                if p.len() == 1 {
                    let mm = &c.monos[p[0].0 as usize];
                    if mm.len() == 1 && c.vars[mm[0].0 as usize].name.starts_with("untrusted:") {
                        return Some(c.vars[mm[0].0 as usize].name.clone());
                    }
                }
                None
            });
            if let Some(n) = n {
                if decide_bool(&format!("invalid:{}", n)) {
                    return Err(SerializationError::InvalidData);
                }
            }
        }
        Ok(())
    }
    pub fn g_from_random_bytes(tag: u32, b: &[u8]) -> Option<SymF> {
        crate::types::elem_from_hash(tag, b)
    }
    pub fn g_clear_cofactor(tag: u32, e: SymF) -> SymF {
        crate::types::clear_cofactor(tag, e)
    }
}

/// a pinned draw is its constant from then on
fn unpin(a: SymF) -> SymF {
    match a {
        P(i) => CTX.with(|c| {
            let c = c.borrow();
            if c.pinned.is_empty() { a } else { c.pinned.get(&i).map_or(a, |k| C(*k)) }
        }),
        a => a,
    }
}

fn bin(a: SymF, b: SymF, op: u8) -> SymF {
    let (a, b) = (unpin(a), unpin(b));
    if let (C(x), C(y)) = (a, b) {
        return match op { 0 => C(x + y), 1 => C(x - y), _ => C(x * y) };
    }
    let (a, b) = (a.poly(), b.poly());
    let id = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let (pa, pb) = (c.polys[a as usize].clone(), c.polys[b as usize].clone());
        let r = match op {
            0 => c.p_add(&pa, &pb, false),
            1 => c.p_add(&pa, &pb, true),
            _ => c.p_mul(&pa, &pb),
        };
        c.intern(r)
    });
    SymF::from_poly(id)
}

fn draw<R: ark_std::rand::Rng + ?Sized>(r: &mut R, kind: &str) -> SymF {
    let x = r.next_u64();
    if x & RNG_MASK == RNG_TAG {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if let Some(i) = c.redraw {
                if i < c.draws.len() {
                    c.redraw = Some(i + 1);
                    return c.draws[i];
                }
                c.redraw = None;
            }
            let k = c.draws.len();
            let v = c.fresh_var(&format!("{}{}", kind, k), true, None);
            let t = P(c.var_poly(v));
            c.draws.push(t);
            t
        })
    } else {
        // not the rng the caller passed in: whatever it returned, deterministically
        C(Fr::from(x) * Fr::from(0x1_0000_0001u64) + Fr::from(17u64))
    }
}

fn enc_bytes(e: SymF, tag: u32, n: usize) -> Vec<u8> {
    // injective encoding: kind tag, then either the canonical scalar bytes or the term id
    let mut v = vec![0u8; n];
    match e {
        C(x) if n >= 48 => {
            v[0] = 0xC0 | tag as u8;
            v[1..33].copy_from_slice(&x.into_bigint().to_bytes_le());
        }
        C(x) => v[..32].copy_from_slice(&x.into_bigint().to_bytes_le()),
        P(i) => {
            v[0..4].copy_from_slice(&i.to_le_bytes());
            v[4..8].copy_from_slice(&(!i).to_le_bytes());
            v[8] = tag as u8;
            v[n - 1] = 0xF5;
            v[n - 2] = 0xA3;
        }
    }
    v
}

fn dec_bytes(b: &[u8], tag: u32) -> Result<SymF, SerializationError> {
    let n = b.len();
    if b[n - 1] == 0xF5 && b[n - 2] == 0xA3 {
        let i = u32::from_le_bytes(b[0..4].try_into().unwrap());
        let j = u32::from_le_bytes(b[4..8].try_into().unwrap());
        if i != !j || b[8] != tag as u8 {
            return Err(SerializationError::InvalidData);
        }
        return Ok(P(i));
    }
    let x = if n >= 48 {
        if b[0] != 0xC0 | tag as u8 {
            return Err(SerializationError::InvalidData);
        }
        BigUint::from_bytes_le(&b[1..33])
    } else {
        BigUint::from_bytes_le(b)
    };
    if x >= BigUint::from(Fr::MODULUS) {
        return Err(SerializationError::InvalidData);
    }
    Ok(C(Fr::from(x)))
}

boiler::impl_field_common!(SymF);

impl ark_ff::Field for SymF {
    type BasePrimeField = SymF;
    type BasePrimeFieldIter = core::iter::Once<SymF>;
    const SQRT_PRECOMP: Option<ark_ff::SqrtPrecomputation<Self>> = None;
    const ZERO: Self = SymF::F_ZERO;
    const ONE: Self = SymF::F_ONE;
    fn characteristic() -> &'static [u64] {
        SymF::f_char()
    }
    fn extension_degree() -> u64 {
        1
    }
    fn to_base_prime_field_elements(&self) -> Self::BasePrimeFieldIter {
        core::iter::once(*self)
    }
    fn from_base_prime_field_elems(e: &[SymF]) -> Option<Self> {
        if e.len() == 1 {
            Some(e[0])
        } else {
            None
        }
    }
    fn from_base_prime_field(e: SymF) -> Self {
        e
    }
    fn pow<S: AsRef<[u64]>>(&self, e: S) -> Self {
        let e = e.as_ref();
        if e.len() == 4 && e[3] == TAG {
            unsupported("symbolic exponent");
        }
        match self {
            C(x) => C(x.pow(e)),
            P(i) => {
                if e.iter().skip(1).any(|x| *x != 0) || e.first().map_or(false, |x| *x > 1) {
                    if let Some(k) = crate::ctx::pin(*i) {
                        return C(k.pow(e));
                    }
                }
                let mut r = SymF::F_ONE;
                for b in ark_ff::BitIteratorBE::without_leading_zeros(e) {
                    r = r * r;
                    if b {
                        r = r * *self;
                    }
                }
                r
            }
        }
    }
    boiler::impl_field_body!(SymF);
}

impl FftField for SymF {
    const GENERATOR: Self = C(<Fr as FftField>::GENERATOR);
    const TWO_ADICITY: u32 = <Fr as FftField>::TWO_ADICITY;
    const TWO_ADIC_ROOT_OF_UNITY: Self = C(<Fr as FftField>::TWO_ADIC_ROOT_OF_UNITY);
}

#[derive(Clone, Copy)]
pub struct SymBig(pub [u64; 4]);
impl PartialEq for SymBig {
    fn eq(&self, o: &Self) -> bool {
        if self.0 == o.0 || !self.tagged() && !o.tagged() {
            return self.0 == o.0;
        }
        SymF::from_bigint(*self) == SymF::from_bigint(*o)
    }
}
impl Eq for SymBig {}
type B4 = ark_ff::BigInt<4>;

impl SymBig {
    fn tagged(&self) -> bool {
        self.0[3] == TAG
    }
    fn conc(&self) -> B4 {
        if self.tagged() {
            match concretise(self.0[0] as u32) {
                Some(v) => B4::from(v),
                None => ark_ff::BigInt(follow(self.0[0] as u32, "bits of a symbolic scalar inspected")),
            }
        } else {
            ark_ff::BigInt(self.0)
        }
    }
    fn of(b: B4) -> Self {
        SymBig(b.0)
    }
    /// a message with symbolic digits: its canonical bytes, with a placeholder for each of them
    fn message(&self) -> Option<B4> {
        if !self.tagged() {
            return None;
        }
        let b = CTX.with(|c| c.borrow().bigs.get(&(self.0[0] as u32)).cloned())?;
        let mut l = [0u64; 4];
        for (i, x) in b.iter().rev().enumerate() {
            l[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        Some(ark_ff::BigInt(l))
    }
}

impl PrimeField for SymF {
    type BigInt = SymBig;
    const MODULUS: SymBig = SymBig(<Fr as PrimeField>::MODULUS.0);
    const MODULUS_MINUS_ONE_DIV_TWO: SymBig = SymBig(<Fr as PrimeField>::MODULUS_MINUS_ONE_DIV_TWO.0);
    const MODULUS_BIT_SIZE: u32 = <Fr as PrimeField>::MODULUS_BIT_SIZE;
    const TRACE: SymBig = SymBig(<Fr as PrimeField>::TRACE.0);
    const TRACE_MINUS_ONE_DIV_TWO: SymBig = SymBig(<Fr as PrimeField>::TRACE_MINUS_ONE_DIV_TWO.0);
    fn from_bigint(r: SymBig) -> Option<Self> {
        if r.tagged() {
            return Some(SymF::from_poly(r.0[0] as u32));
        }
        if r.0[1] | r.0[2] | r.0[3] == 0 {
            return Some(SymF::f_from_u128(r.0[0] as u128));
        }
        Fr::from_bigint(ark_ff::BigInt(r.0)).map(C)
    }
    fn into_bigint(self) -> SymBig {
        match self {
            C(x) => SymBig::of(x.into_bigint()),
            P(i) => {
                let small = CTX.with(|c| c.borrow().conc_small);
                if small {
                    if let Some(v) = concretise(i) {
                        return SymBig([v, 0, 0, 0]);
                    }
                }
                SymBig([i as u64, 0, 0, TAG])
            }
        }
    }
    fn from_be_bytes_mod_order(b: &[u8]) -> Self {
        C(Fr::from_be_bytes_mod_order(b))
    }
    fn from_le_bytes_mod_order(b: &[u8]) -> Self {
        C(Fr::from_le_bytes_mod_order(b))
    }
}

impl From<SymBig> for SymF {
    fn from(b: SymBig) -> SymF {
        SymF::from_bigint(b).unwrap()
    }
}
impl From<SymF> for SymBig {
    fn from(f: SymF) -> SymBig {
        f.into_bigint()
    }
}
impl From<BigUint> for SymF {
    fn from(b: BigUint) -> SymF {
        C(Fr::from(b))
    }
}
impl From<SymF> for BigUint {
    fn from(f: SymF) -> BigUint {
        BigUint::from(f.into_bigint().conc())
    }
}
impl core::str::FromStr for SymF {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        Fr::from_str(s).map(C).map_err(|_| ())
    }
}

impl Default for SymBig {
    fn default() -> Self {
        SymBig([0; 4])
    }
}
impl core::fmt::Debug for SymBig {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl core::fmt::Display for SymBig {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl PartialOrd for SymBig {
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SymBig {
    fn cmp(&self, o: &Self) -> core::cmp::Ordering {
        if self.0 == o.0 {
            return core::cmp::Ordering::Equal;
        }
        self.conc().cmp(&o.conc())
    }
}
impl ark_std::rand::distributions::Distribution<SymBig> for ark_std::rand::distributions::Standard {
    fn sample<R: ark_std::rand::Rng + ?Sized>(&self, r: &mut R) -> SymBig {
        SymF::v_rand(r).into_bigint()
    }
}
impl zeroize::Zeroize for SymBig {
    fn zeroize(&mut self) {
        self.0 = [0; 4];
    }
}
impl AsRef<[u64]> for SymBig {
    /// only the curve arithmetic (and the borrow forwarding in core) may look at the limbs of a
    /// symbolic scalar: there they are recognised by their tag
    #[track_caller]
    fn as_ref(&self) -> &[u64] {
        if self.tagged() {
            let f = core::panic::Location::caller().file();
            if !(f.contains("/ark-ec/") || f.contains("library/core/") || f == "src/types.rs" || f == file!()) {
                if let Some(m) = self.message() {
                    return Box::leak(Box::new(m.0));
                }
                return Box::leak(Box::new(follow(self.0[0] as u32, &format!("limbs of a symbolic scalar read in {}", f))));
            }
        }
        &self.0
    }
}
impl AsMut<[u64]> for SymBig {
    fn as_mut(&mut self) -> &mut [u64] {
        if self.tagged() {
            self.0 = follow(self.0[0] as u32, "limbs of a symbolic scalar changed");
        }
        &mut self.0
    }
}
macro_rules! big_from {
    ($($u:ty),*) => { $(impl From<$u> for SymBig { fn from(x: $u) -> Self { SymBig([x as u64, 0, 0, 0]) } })* };
}
big_from!(u64, u32, u16, u8);
impl TryFrom<BigUint> for SymBig {
    type Error = ();
    fn try_from(b: BigUint) -> Result<Self, ()> {
        B4::try_from(b).map(SymBig::of)
    }
}
impl From<SymBig> for BigUint {
    fn from(b: SymBig) -> BigUint {
        BigUint::from(b.conc())
    }
}
impl ark_serialize::Valid for SymBig {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl ark_serialize::CanonicalSerialize for SymBig {
    fn serialize_with_mode<W: ark_serialize::Write>(&self, w: W, c: ark_serialize::Compress) -> Result<(), SerializationError> {
        self.conc().serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: ark_serialize::Compress) -> usize {
        ark_ff::BigInt(self.0).serialized_size(c)
    }
}
impl ark_serialize::CanonicalDeserialize for SymBig {
    fn deserialize_with_mode<R: ark_serialize::Read>(r: R, c: ark_serialize::Compress, v: ark_serialize::Validate) -> Result<Self, SerializationError> {
        B4::deserialize_with_mode(r, c, v).map(SymBig::of)
    }
}
impl BigInteger for SymBig {
    const NUM_LIMBS: usize = 4;
    fn add_with_carry(&mut self, o: &Self) -> bool {
        let mut a = self.conc();
        let r = a.add_with_carry(&o.conc());
        *self = SymBig::of(a);
        r
    }
    fn sub_with_borrow(&mut self, o: &Self) -> bool {
        let mut a = self.conc();
        let r = a.sub_with_borrow(&o.conc());
        *self = SymBig::of(a);
        r
    }
    fn mul2(&mut self) -> bool {
        let mut a = self.conc();
        let r = a.mul2();
        *self = SymBig::of(a);
        r
    }
    fn muln(&mut self, n: u32) {
        let mut a = self.conc();
        a.muln(n);
        *self = SymBig::of(a);
    }
    fn div2(&mut self) {
        let mut a = self.conc();
        a.div2();
        *self = SymBig::of(a);
    }
    fn divn(&mut self, n: u32) {
        let mut a = self.conc();
        a.divn(n);
        *self = SymBig::of(a);
    }
    fn is_odd(&self) -> bool {
        self.conc().is_odd()
    }
    fn is_even(&self) -> bool {
        self.conc().is_even()
    }
    fn is_zero(&self) -> bool {
        if self.tagged() {
            return decide_zero(self.0[0] as u32);
        }
        self.0 == [0; 4]
    }
    fn num_bits(&self) -> u32 {
        self.conc().num_bits()
    }
    fn get_bit(&self, i: usize) -> bool {
        match self.message() {
            Some(m) => m.get_bit(i),
            None => self.conc().get_bit(i),
        }
    }
    fn from_bits_be(b: &[bool]) -> Self {
        SymBig::of(B4::from_bits_be(b))
    }
    fn from_bits_le(b: &[bool]) -> Self {
        SymBig::of(B4::from_bits_le(b))
    }
    fn to_bits_be(&self) -> Vec<bool> {
        match self.message() {
            Some(m) => m.to_bits_be(),
            None => self.conc().to_bits_be(),
        }
    }
    fn to_bits_le(&self) -> Vec<bool> {
        match self.message() {
            Some(m) => m.to_bits_le(),
            None => self.conc().to_bits_le(),
        }
    }
    fn to_bytes_be(&self) -> Vec<u8> {
        self.message().unwrap_or_else(|| self.conc()).to_bytes_be()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.message().unwrap_or_else(|| self.conc()).to_bytes_le()
    }
}
