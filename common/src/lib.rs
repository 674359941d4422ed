// Trait plumbing shared by the symbolic engine (symex) and the Kani harness crate.
//
// The repository's code is generic over arkworks' `Pairing`.  The macros below turn a small
// "core" (addition, multiplication, equality, sampling ...) into complete arkworks field /
// group / prepared-point types, so the *unmodified* generic code of /repo can be instantiated
// with symbolic (or model) algebra.  Nothing in here contains protocol logic.

#[macro_export]
macro_rules! impl_ops_pair {
    ($T:ty, $Tr:ident, $f:ident, $TrA:ident, $fa:ident, $core:ident) => {
        impl core::ops::$Tr<$T> for $T {
            type Output = $T;
            #[inline]
            fn $f(self, o: $T) -> $T {
                <$T>::$core(self, o)
            }
        }
        impl<'a> core::ops::$Tr<&'a $T> for $T {
            type Output = $T;
            #[inline]
            fn $f(self, o: &'a $T) -> $T {
                <$T>::$core(self, *o)
            }
        }
        impl<'a> core::ops::$Tr<&'a mut $T> for $T {
            type Output = $T;
            #[inline]
            fn $f(self, o: &'a mut $T) -> $T {
                <$T>::$core(self, *o)
            }
        }
        impl<'b> core::ops::$Tr<$T> for &'b $T {
            type Output = $T;
            #[inline]
            fn $f(self, o: $T) -> $T {
                <$T>::$core(*self, o)
            }
        }
        impl<'a, 'b> core::ops::$Tr<&'a $T> for &'b $T {
            type Output = $T;
            #[inline]
            fn $f(self, o: &'a $T) -> $T {
                <$T>::$core(*self, *o)
            }
        }
        impl core::ops::$TrA<$T> for $T {
            #[inline]
            fn $fa(&mut self, o: $T) {
                *self = <$T>::$core(*self, o);
            }
        }
        impl<'a> core::ops::$TrA<&'a $T> for $T {
            #[inline]
            fn $fa(&mut self, o: &'a $T) {
                *self = <$T>::$core(*self, *o);
            }
        }
        impl<'a> core::ops::$TrA<&'a mut $T> for $T {
            #[inline]
            fn $fa(&mut self, o: &'a mut $T) {
                *self = <$T>::$core(*self, *o);
            }
        }
    };
}

/// Basic value traits from inherent fns: `v_eq`, `v_cmp`, `v_hash(&self)->u64`, `v_zero()`, `v_rand`,
/// `v_ser(&self)->Vec<u8>` (fixed `VSIZE`), `v_de(&[u8], validate: bool)->Result<Self,SerializationError>`,
/// `v_check(&self) -> Result<(), SerializationError>`.
#[macro_export]
macro_rules! impl_value {
    ($T:ty) => {
        impl PartialEq for $T {
            #[inline]
            fn eq(&self, o: &Self) -> bool {
                self.v_eq(o)
            }
        }
        impl Eq for $T {}
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
                Some(self.v_cmp(o))
            }
        }
        impl Ord for $T {
            fn cmp(&self, o: &Self) -> core::cmp::Ordering {
                self.v_cmp(o)
            }
        }
        impl core::hash::Hash for $T {
            fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
                core::hash::Hash::hash(&self.v_hash(), h)
            }
        }
        impl core::fmt::Debug for $T {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                f.write_str(&self.v_fmt())
            }
        }
        impl core::fmt::Display for $T {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                f.write_str(&self.v_fmt())
            }
        }
        impl Default for $T {
            fn default() -> Self {
                <$T>::v_default()
            }
        }
        impl zeroize::Zeroize for $T {
            fn zeroize(&mut self) {
                *self = <$T>::v_default();
            }
        }
        impl ark_std::rand::distributions::Distribution<$T>
            for ark_std::rand::distributions::Standard
        {
            fn sample<R: ark_std::rand::Rng + ?Sized>(&self, rng: &mut R) -> $T {
                <$T>::v_rand(rng)
            }
        }
        impl ark_serialize::CanonicalSerialize for $T {
            fn serialize_with_mode<W: ark_serialize::Write>(
                &self,
                mut w: W,
                c: ark_serialize::Compress,
            ) -> Result<(), ark_serialize::SerializationError> {
                w.write_all(&self.v_ser(c == ark_serialize::Compress::Yes))?;
                Ok(())
            }
            fn serialized_size(&self, c: ark_serialize::Compress) -> usize {
                if c == ark_serialize::Compress::Yes {
                    <$T>::VSIZE
                } else {
                    <$T>::VSIZE_UNCOMP
                }
            }
        }
        impl ark_serialize::Valid for $T {
            fn check(&self) -> Result<(), ark_serialize::SerializationError> {
                self.v_check()
            }
        }
        impl ark_serialize::CanonicalDeserialize for $T {
            fn deserialize_with_mode<R: ark_serialize::Read>(
                mut r: R,
                c: ark_serialize::Compress,
                v: ark_serialize::Validate,
            ) -> Result<Self, ark_serialize::SerializationError> {
                let comp = c == ark_serialize::Compress::Yes;
                let mut buf = ark_std::vec![0u8; if comp { <$T>::VSIZE } else { <$T>::VSIZE_UNCOMP }];
                r.read_exact(&mut buf)?;
                let x = <$T>::v_de(&buf, comp)?;
                if v == ark_serialize::Validate::Yes {
                    x.v_check()?;
                }
                Ok(x)
            }
        }
    };
}

/// Field traits.  Needs inherent consts `F_ZERO`, `F_ONE` and fns f_add/f_sub/f_mul/f_div/f_neg/f_inv/f_from_u128,
/// f_is_zero, plus everything `impl_value!` needs.
#[macro_export]
macro_rules! impl_field_common {
    ($T:ty) => {
        $crate::impl_value!($T);
        $crate::impl_ops_pair!($T, Add, add, AddAssign, add_assign, f_add);
        $crate::impl_ops_pair!($T, Sub, sub, SubAssign, sub_assign, f_sub);
        $crate::impl_ops_pair!($T, Mul, mul, MulAssign, mul_assign, f_mul);
        $crate::impl_ops_pair!($T, Div, div, DivAssign, div_assign, f_div);
        impl core::ops::Neg for $T {
            type Output = $T;
            fn neg(self) -> $T {
                self.f_neg()
            }
        }
        impl num_traits::Zero for $T {
            fn zero() -> Self {
                <$T>::F_ZERO
            }
            fn is_zero(&self) -> bool {
                self.f_is_zero()
            }
        }
        impl num_traits::One for $T {
            fn one() -> Self {
                <$T>::F_ONE
            }
            fn is_one(&self) -> bool {
                self.v_eq(&<$T>::F_ONE)
            }
        }
        impl core::iter::Sum<$T> for $T {
            fn sum<I: Iterator<Item = $T>>(it: I) -> $T {
                it.fold(<$T>::F_ZERO, |a, b| a + b)
            }
        }
        impl<'a> core::iter::Sum<&'a $T> for $T {
            fn sum<I: Iterator<Item = &'a $T>>(it: I) -> $T {
                it.fold(<$T>::F_ZERO, |a, b| a + b)
            }
        }
        impl core::iter::Product<$T> for $T {
            fn product<I: Iterator<Item = $T>>(it: I) -> $T {
                it.fold(<$T>::F_ONE, |a, b| a * b)
            }
        }
        impl<'a> core::iter::Product<&'a $T> for $T {
            fn product<I: Iterator<Item = &'a $T>>(it: I) -> $T {
                it.fold(<$T>::F_ONE, |a, b| a * b)
            }
        }
        $crate::impl_from_uint!($T, u128, u64, u32, u16, u8, bool);
        impl ark_serialize::CanonicalSerializeWithFlags for $T {
            fn serialize_with_flags<W: ark_serialize::Write, F: ark_serialize::Flags>(
                &self,
                _w: W,
                _f: F,
            ) -> Result<(), ark_serialize::SerializationError> {
                unimplemented!("flags serialization is not modelled")
            }
            fn serialized_size_with_flags<F: ark_serialize::Flags>(&self) -> usize {
                unimplemented!("flags serialization is not modelled")
            }
        }
        impl ark_serialize::CanonicalDeserializeWithFlags for $T {
            fn deserialize_with_flags<R: ark_serialize::Read, F: ark_serialize::Flags>(
                _r: R,
            ) -> Result<(Self, F), ark_serialize::SerializationError> {
                unimplemented!("flags serialization is not modelled")
            }
        }
    };
}

#[macro_export]
macro_rules! impl_from_uint {
    ($T:ty, $($u:ty),+) => {
        $(impl From<$u> for $T {
            fn from(x: $u) -> $T { <$T>::f_from_u128(x as u128) }
        })+
    };
}

/// `Field` for a prime field type (BasePrimeField = Self).
#[macro_export]
macro_rules! impl_prime_field {
    ($T:ty) => {
        impl ark_ff::Field for $T {
            type BasePrimeField = $T;
            type BasePrimeFieldIter = core::iter::Once<$T>;
            const SQRT_PRECOMP: Option<ark_ff::SqrtPrecomputation<Self>> = None;
            const ZERO: Self = <$T>::F_ZERO;
            const ONE: Self = <$T>::F_ONE;
            fn characteristic() -> &'static [u64] {
                <$T>::f_char()
            }
            fn extension_degree() -> u64 {
                1
            }
            fn to_base_prime_field_elements(&self) -> Self::BasePrimeFieldIter {
                core::iter::once(*self)
            }
            fn from_base_prime_field_elems(e: &[$T]) -> Option<Self> {
                if e.len() == 1 {
                    Some(e[0])
                } else {
                    None
                }
            }
            fn from_base_prime_field(e: $T) -> Self {
                e
            }
            $crate::impl_field_body!($T);
        }
    };
}

#[macro_export]
macro_rules! impl_field_body {
    ($T:ty) => {
        fn double(&self) -> Self {
            *self + *self
        }
        fn double_in_place(&mut self) -> &mut Self {
            *self = *self + *self;
            self
        }
        fn neg_in_place(&mut self) -> &mut Self {
            *self = -*self;
            self
        }
        fn from_random_bytes_with_flags<F: ark_serialize::Flags>(b: &[u8]) -> Option<(Self, F)> {
            <$T>::f_from_random_bytes(b).map(|x| (x, F::default()))
        }
        fn legendre(&self) -> ark_ff::LegendreSymbol {
            unimplemented!("legendre is not modelled")
        }
        fn square(&self) -> Self {
            *self * *self
        }
        fn square_in_place(&mut self) -> &mut Self {
            *self = *self * *self;
            self
        }
        fn inverse(&self) -> Option<Self> {
            self.f_inv()
        }
        fn inverse_in_place(&mut self) -> Option<&mut Self> {
            if let Some(i) = self.f_inv() {
                *self = i;
                Some(self)
            } else {
                None
            }
        }
        fn frobenius_map_in_place(&mut self, _power: usize) {}
    };
}

/// A cyclic group of prime order given by its discrete logs: `$Proj($S)`, `$Aff($S)`, prepared `$Prep($S)`.
/// `$Cfg` is a unit struct for the CurveConfig.  Needs on both types the `impl_value!` fns; they are
/// generated here from the scalar's own through `$S::g_*` hooks with a group tag.
#[macro_export]
macro_rules! impl_group {
    ($Proj:ident, $Aff:ident, $Prep:ident, $Cfg:ident, $S:ty, $tag:expr) => {
        #[derive(Clone, Copy)]
        pub struct $Proj(pub $S);
        #[derive(Clone, Copy)]
        pub struct $Aff(pub $S);
        #[derive(Clone, Copy)]
        pub struct $Prep(pub $S);
        #[derive(Clone, Copy)]
        pub struct $Cfg;

        $crate::impl_group_value!($Proj, $S, $tag);
        $crate::impl_group_value!($Aff, $S, $tag);
        $crate::impl_group_value!($Prep, $S, $tag);

        impl ark_ec::CurveConfig for $Cfg {
            type BaseField = $S;
            type ScalarField = $S;
            const COFACTOR: &'static [u64] = &[<$S>::G_COFACTOR];
            const COFACTOR_INV: $S = <$S>::F_ONE;
        }

        impl $Proj {
            fn g_add(self, o: $Proj) -> $Proj {
                $Proj(self.0 + o.0)
            }
            fn g_sub(self, o: $Proj) -> $Proj {
                $Proj(self.0 - o.0)
            }
        }
        $crate::impl_ops_pair!($Proj, Add, add, AddAssign, add_assign, g_add);
        $crate::impl_ops_pair!($Proj, Sub, sub, SubAssign, sub_assign, g_sub);
        // Affine operands
        impl core::ops::Add<$Aff> for $Proj {
            type Output = $Proj;
            fn add(self, o: $Aff) -> $Proj {
                $Proj(self.0 + o.0)
            }
        }
        impl<'a> core::ops::Add<&'a $Aff> for $Proj {
            type Output = $Proj;
            fn add(self, o: &'a $Aff) -> $Proj {
                $Proj(self.0 + o.0)
            }
        }
        impl core::ops::AddAssign<$Aff> for $Proj {
            fn add_assign(&mut self, o: $Aff) {
                self.0 = self.0 + o.0;
            }
        }
        impl<'a> core::ops::AddAssign<&'a $Aff> for $Proj {
            fn add_assign(&mut self, o: &'a $Aff) {
                self.0 = self.0 + o.0;
            }
        }
        impl core::ops::Sub<$Aff> for $Proj {
            type Output = $Proj;
            fn sub(self, o: $Aff) -> $Proj {
                $Proj(self.0 - o.0)
            }
        }
        impl<'a> core::ops::Sub<&'a $Aff> for $Proj {
            type Output = $Proj;
            fn sub(self, o: &'a $Aff) -> $Proj {
                $Proj(self.0 - o.0)
            }
        }
        impl core::ops::SubAssign<$Aff> for $Proj {
            fn sub_assign(&mut self, o: $Aff) {
                self.0 = self.0 - o.0;
            }
        }
        impl<'a> core::ops::SubAssign<&'a $Aff> for $Proj {
            fn sub_assign(&mut self, o: &'a $Aff) {
                self.0 = self.0 - o.0;
            }
        }
        impl core::ops::Add<$Aff> for $Aff {
            type Output = $Proj;
            fn add(self, o: $Aff) -> $Proj {
                $Proj(self.0 + o.0)
            }
        }
        impl<'a> core::ops::Add<&'a $Aff> for $Aff {
            type Output = $Proj;
            fn add(self, o: &'a $Aff) -> $Proj {
                $Proj(self.0 + o.0)
            }
        }
        impl core::ops::Add<$Proj> for $Aff {
            type Output = $Proj;
            fn add(self, o: $Proj) -> $Proj {
                $Proj(self.0 + o.0)
            }
        }
        impl<'a> core::ops::Add<&'a $Proj> for $Aff {
            type Output = $Proj;
            fn add(self, o: &'a $Proj) -> $Proj {
                $Proj(self.0 + o.0)
            }
        }
        impl core::ops::Sub<$Aff> for $Aff {
            type Output = $Proj;
            fn sub(self, o: $Aff) -> $Proj {
                $Proj(self.0 - o.0)
            }
        }
        impl<'a> core::ops::Sub<&'a $Aff> for $Aff {
            type Output = $Proj;
            fn sub(self, o: &'a $Aff) -> $Proj {
                $Proj(self.0 - o.0)
            }
        }
        impl core::ops::Neg for $Proj {
            type Output = $Proj;
            fn neg(self) -> $Proj {
                $Proj(-self.0)
            }
        }
        impl core::ops::Neg for $Aff {
            type Output = $Aff;
            fn neg(self) -> $Aff {
                $Aff(-self.0)
            }
        }
        $crate::impl_scalar_mul!($Proj, $Proj, $S);
        $crate::impl_scalar_mul!($Aff, $Proj, $S);
        impl core::ops::MulAssign<$S> for $Proj {
            fn mul_assign(&mut self, o: $S) {
                self.0 = self.0 * o;
            }
        }
        impl<'a> core::ops::MulAssign<&'a $S> for $Proj {
            fn mul_assign(&mut self, o: &'a $S) {
                self.0 = self.0 * *o;
            }
        }
        impl num_traits::Zero for $Proj {
            fn zero() -> Self {
                $Proj(<$S>::F_ZERO)
            }
            fn is_zero(&self) -> bool {
                self.0.f_is_zero()
            }
        }
        impl core::iter::Sum<$Proj> for $Proj {
            fn sum<I: Iterator<Item = $Proj>>(it: I) -> $Proj {
                it.fold($Proj(<$S>::F_ZERO), |a, b| a + b)
            }
        }
        impl<'a> core::iter::Sum<&'a $Proj> for $Proj {
            fn sum<I: Iterator<Item = &'a $Proj>>(it: I) -> $Proj {
                it.fold($Proj(<$S>::F_ZERO), |a, b| a + b)
            }
        }
        impl core::iter::Sum<$Aff> for $Proj {
            fn sum<I: Iterator<Item = $Aff>>(it: I) -> $Proj {
                it.fold($Proj(<$S>::F_ZERO), |a, b| a + b)
            }
        }
        impl<'a> core::iter::Sum<&'a $Aff> for $Proj {
            fn sum<I: Iterator<Item = &'a $Aff>>(it: I) -> $Proj {
                it.fold($Proj(<$S>::F_ZERO), |a, b| a + b)
            }
        }
        impl ark_ec::Group for $Proj {
            type ScalarField = $S;
            fn generator() -> Self {
                $Proj(<$S>::F_ONE)
            }
            fn double_in_place(&mut self) -> &mut Self {
                self.0 = self.0 + self.0;
                self
            }
            fn mul_bigint(&self, o: impl AsRef<[u64]>) -> Self {
                $Proj(self.0 * <$S>::g_scalar_from_limbs(o.as_ref()))
            }
        }
        impl ark_ec::ScalarMul for $Proj {
            type MulBase = $Aff;
            const NEGATION_IS_CHEAP: bool = true;
            fn batch_convert_to_mul_base(b: &[Self]) -> Vec<$Aff> {
                b.iter().map(|x| $Aff(x.0)).collect()
            }
        }
        impl ark_ec::VariableBaseMSM for $Proj {
            fn msm_bigint(
                bases: &[$Aff],
                bigints: &[<$S as ark_ff::PrimeField>::BigInt],
            ) -> Self {
                // contract of arkworks' msm_bigint: inner product over the shorter length
                let mut acc = <$S>::F_ZERO;
                let n = core::cmp::min(bases.len(), bigints.len());
                let mut i = 0;
                while i < n {
                    acc = acc + bases[i].0 * <$S>::g_scalar_from_limbs(bigints[i].as_ref());
                    i += 1;
                }
                $Proj(acc)
            }
        }
        impl ark_ec::CurveGroup for $Proj {
            type Config = $Cfg;
            type BaseField = $S;
            type Affine = $Aff;
            type FullGroup = $Aff;
            fn normalize_batch(v: &[Self]) -> Vec<$Aff> {
                v.iter().map(|x| $Aff(x.0)).collect()
            }
        }
        impl ark_ec::AffineRepr for $Aff {
            type Config = $Cfg;
            type ScalarField = $S;
            type BaseField = $S;
            type Group = $Proj;
            fn xy(&self) -> Option<(&$S, &$S)> {
                // see g_coord; the default is_zero is overridden below
                if self.0.f_is_zero() {
                    None
                } else {
                    Some((self.0.g_coord(2), self.0.g_coord(3)))
                }
            }
            fn zero() -> Self {
                $Aff(<$S>::F_ZERO)
            }
            fn is_zero(&self) -> bool {
                self.0.f_is_zero()
            }
            fn generator() -> Self {
                $Aff(<$S>::F_ONE)
            }
            fn from_random_bytes(b: &[u8]) -> Option<Self> {
                <$S>::g_from_random_bytes($tag, b).map($Aff)
            }
            fn mul_bigint(&self, o: impl AsRef<[u64]>) -> $Proj {
                $Proj(self.0 * <$S>::g_scalar_from_limbs(o.as_ref()))
            }
            fn clear_cofactor(&self) -> Self {
                $Aff(<$S>::g_clear_cofactor($tag, self.0))
            }
            fn mul_by_cofactor_to_group(&self) -> $Proj {
                $Proj(<$S>::g_clear_cofactor($tag, self.0))
            }
        }
        impl From<$Aff> for $Proj {
            fn from(a: $Aff) -> $Proj {
                $Proj(a.0)
            }
        }
        impl From<$Proj> for $Aff {
            fn from(a: $Proj) -> $Aff {
                $Aff(a.0)
            }
        }
        impl From<$Aff> for $Prep {
            fn from(a: $Aff) -> $Prep {
                $Prep(a.0)
            }
        }
        impl From<$Proj> for $Prep {
            fn from(a: $Proj) -> $Prep {
                $Prep(a.0)
            }
        }
        impl<'a> From<&'a $Aff> for $Prep {
            fn from(a: &'a $Aff) -> $Prep {
                $Prep(a.0)
            }
        }
        impl<'a> From<&'a $Proj> for $Prep {
            fn from(a: &'a $Proj) -> $Prep {
                $Prep(a.0)
            }
        }
    };
}

#[macro_export]
macro_rules! impl_scalar_mul {
    ($T:ident, $O:ident, $S:ty) => {
        impl core::ops::Mul<$S> for $T {
            type Output = $O;
            fn mul(self, o: $S) -> $O {
                $O(self.0 * o)
            }
        }
        impl<'a> core::ops::Mul<&'a $S> for $T {
            type Output = $O;
            fn mul(self, o: &'a $S) -> $O {
                $O(self.0 * *o)
            }
        }
    };
}

#[macro_export]
macro_rules! impl_group_value {
    ($T:ident, $S:ty, $tag:expr) => {
        impl $T {
            pub const VSIZE: usize = <$S>::G_SIZE;
            pub const VSIZE_UNCOMP: usize = 2 * <$S>::G_SIZE;
            fn v_eq(&self, o: &Self) -> bool {
                self.0.v_eq(&o.0)
            }
            fn v_cmp(&self, o: &Self) -> core::cmp::Ordering {
                self.0.v_cmp(&o.0)
            }
            fn v_hash(&self) -> u64 {
                self.0.v_hash()
            }
            fn v_fmt(&self) -> String {
                self.0.v_fmt()
            }
            fn v_default() -> Self {
                $T(<$S>::F_ZERO)
            }
            fn v_rand<R: ark_std::rand::Rng + ?Sized>(r: &mut R) -> Self {
                $T(<$S>::g_rand($tag, r))
            }
            fn v_ser(&self, comp: bool) -> Vec<u8> {
                <$S>::g_ser($tag, self.0, comp)
            }
            fn v_de(b: &[u8], comp: bool) -> Result<Self, ark_serialize::SerializationError> {
                <$S>::g_de($tag, b, comp).map($T)
            }
            fn v_check(&self) -> Result<(), ark_serialize::SerializationError> {
                <$S>::g_check($tag, self.0)
            }
        }
        $crate::impl_value!($T);
    };
}

/// Target group as a nominal field whose multiplication adds discrete logs.
#[macro_export]
macro_rules! impl_target {
    ($GT:ident, $S:ty) => {
        #[derive(Clone, Copy)]
        pub struct $GT(pub $S);
        impl $GT {
            pub const VSIZE: usize = <$S>::G_SIZE;
            pub const VSIZE_UNCOMP: usize = 2 * <$S>::G_SIZE;
            // nominal: the additive zero of the target field is never a group element
            pub const F_ZERO: $GT = $GT(<$S>::GT_ADDITIVE_ZERO);
            pub const F_ONE: $GT = $GT(<$S>::F_ZERO);
            fn v_eq(&self, o: &Self) -> bool {
                self.0.v_eq(&o.0)
            }
            fn v_cmp(&self, o: &Self) -> core::cmp::Ordering {
                self.0.v_cmp(&o.0)
            }
            fn v_hash(&self) -> u64 {
                self.0.v_hash()
            }
            fn v_fmt(&self) -> String {
                self.0.v_fmt()
            }
            fn v_default() -> Self {
                $GT(<$S>::F_ZERO)
            }
            fn v_rand<R: ark_std::rand::Rng + ?Sized>(r: &mut R) -> Self {
                $GT(<$S>::g_rand(3, r))
            }
            fn v_ser(&self, comp: bool) -> Vec<u8> {
                <$S>::g_ser(3, self.0, comp)
            }
            fn v_de(b: &[u8], comp: bool) -> Result<Self, ark_serialize::SerializationError> {
                <$S>::g_de(3, b, comp).map($GT)
            }
            fn v_check(&self) -> Result<(), ark_serialize::SerializationError> {
                <$S>::g_check(3, self.0)
            }
            fn f_add(self, _o: Self) -> Self {
                unimplemented!("addition in the target field is not modelled")
            }
            fn f_sub(self, _o: Self) -> Self {
                unimplemented!("subtraction in the target field is not modelled")
            }
            fn f_mul(self, o: Self) -> Self {
                $GT(self.0 + o.0)
            }
            fn f_div(self, o: Self) -> Self {
                $GT(self.0 - o.0)
            }
            fn f_neg(self) -> Self {
                unimplemented!("negation in the target field is not modelled")
            }
            fn f_inv(self) -> Option<Self> {
                Some($GT(-self.0))
            }
            fn f_is_zero(&self) -> bool {
                false
            }
            fn f_from_u128(x: u128) -> Self {
                if x == 1 {
                    Self::F_ONE
                } else {
                    unimplemented!("constants in the target field are not modelled")
                }
            }
            fn f_from_random_bytes(_b: &[u8]) -> Option<Self> {
                unimplemented!()
            }
        }
        $crate::impl_field_common!($GT);
        impl ark_ff::Field for $GT {
            type BasePrimeField = $S;
            type BasePrimeFieldIter = core::iter::Once<$S>;
            const SQRT_PRECOMP: Option<ark_ff::SqrtPrecomputation<Self>> = None;
            const ZERO: Self = $GT::F_ZERO;
            const ONE: Self = $GT::F_ONE;
            fn extension_degree() -> u64 {
                12
            }
            fn to_base_prime_field_elements(&self) -> Self::BasePrimeFieldIter {
                unimplemented!()
            }
            fn from_base_prime_field_elems(_e: &[$S]) -> Option<Self> {
                unimplemented!()
            }
            fn from_base_prime_field(_e: $S) -> Self {
                unimplemented!()
            }
            fn pow<S: AsRef<[u64]>>(&self, e: S) -> Self {
                $GT(self.0 * <$S>::g_scalar_from_limbs(e.as_ref()))
            }
            $crate::impl_field_body!($GT);
        }
        impl ark_ff::CyclotomicMultSubgroup for $GT {
            const INVERSE_IS_FAST: bool = true;
            fn cyclotomic_exp_in_place(&mut self, e: impl AsRef<[u64]>) {
                self.0 = self.0 * <$S>::g_scalar_from_limbs(e.as_ref());
            }
        }
    };
}

#[macro_export]
macro_rules! impl_pairing {
    ($E:ident, $S:ty, $G1:ident, $G1A:ident, $G1P:ident, $G2:ident, $G2A:ident, $G2P:ident, $GT:ident) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct $E;
        impl ark_ec::pairing::Pairing for $E {
            type BaseField = $S;
            type ScalarField = $S;
            type G1 = $G1;
            type G1Affine = $G1A;
            type G1Prepared = $G1P;
            type G2 = $G2;
            type G2Affine = $G2A;
            type G2Prepared = $G2P;
            type TargetField = $GT;
            fn multi_miller_loop(
                a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>,
                b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>,
            ) -> ark_ec::pairing::MillerLoopOutput<Self> {
                // arkworks' BLS12 implementation pairs with zip_eq: unequal counts panic
                let mut acc = <$S>::F_ZERO;
                let mut a = a.into_iter();
                let mut b = b.into_iter();
                loop {
                    match (a.next(), b.next()) {
                        (Some(x), Some(y)) => {
                            let x: $G1P = x.into();
                            let y: $G2P = y.into();
                            acc = acc + x.0 * y.0;
                        }
                        (None, None) => break,
                        _ => panic!("multi_miller_loop: iterators of different lengths"),
                    }
                }
                ark_ec::pairing::MillerLoopOutput($GT(acc))
            }
            fn final_exponentiation(
                m: ark_ec::pairing::MillerLoopOutput<Self>,
            ) -> Option<ark_ec::pairing::PairingOutput<Self>> {
                Some(ark_ec::pairing::PairingOutput(m.0))
            }
        }
    };
}
