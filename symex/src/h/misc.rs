//! C15 chunked commitments, C17 serialization, C18 generators from a label, C19 window tables,
//! C20 shapes of keys and of their prepared forms, C06 pairing power tables, C22 fresh generators.
use super::enc::any_gens;
use super::keys::nchunks;
use crate::env::*;
use crate::{harness, H};
use ark_ec::pairing::Pairing;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use blake2::{Blake2b512, Blake2s256};
use digest::Digest;
use dist_saver::commitment::ChunkedCommitment;
use dist_saver::encryption::Ciphertext;
use dist_saver::error::SaverError;
use dist_saver::keygen::*;
use dist_saver::saver_groth16::{Groth16ProvingKey, ProvingKey, VerifyingKey};
use dist_saver::setup::*;
use dist_saver::utils::*;

// ---------------------------------------------------------------- C15

fn comm_gens<V: Env>(v: &mut V) -> ChunkedCommitmentGens<A1<V>> {
    ChunkedCommitmentGens { G: v.any_g1("G"), H: v.any_g1("H") }
}
fn pow2<V: Env>(v: &mut V, k: usize) -> F<V> {
    // 2^k as a scalar, by doubling (never a placeholder of a symbolic digit)
    let mut x = F::<V>::one();
    for _ in 0..k {
        x = x + x;
    }
    let _ = v;
    x
}

/// J = m*G + r*H for messages whose digits at positions lo..hi are arbitrary
fn comm_open<V: Env>(v: &mut V, p: &[u64]) {
    let (b, lo, hi) = (p[0], p[1] as usize, p[2] as usize);
    let n = nchunks(b).max(if b == 4 { 64 } else { 0 });
    let gens = comm_gens(v);
    let (m, digits) = v.message(b, n, lo, hi);
    let r = v.fresh("r");
    let c = ChunkedCommitment::<A1<V>>::new(&m, &r, b as u8, &gens);
    let c = v.ok("a commitment is created", c);
    let want = add1::<V>(mul1::<V>(gens.G, m), mul1::<V>(gens.H, r));
    v.eq_g1("the chunked commitment is m*G + r*H", c.0, want);
    v.that("the returned key has one element per chunk and one for the blinding", c.1.len() == n + 1);
    v.eq_g1("the key ends with H", c.1[n], gens.H);
    v.eq_g1("the last chunk's base is G", c.1[n - 1], gens.G);
    let k = ChunkedCommitment::<A1<V>>::commitment_key(&gens, b as u8);
    v.that("commitment_key has the same length", k.len() == n + 1);
    for i in 0..=n {
        v.eq_g1("commitment_key gives the key new() used", k[i], c.1[i]);
    }
    let j = ChunkedCommitment::<A1<V>>::get_commitment_given_commitment_key(&m, &r, b as u8, &c.1);
    let j = v.ok("the key new() returned is accepted", j);
    v.eq_g1("the commitment made with the returned key is the same", j, c.0);
    // any key of the right length is used as it stands
    let ck: Vec<A1<V>> = (0..=n).map(|i| v.any_g1(&format!("k{}", i))).collect();
    let j = ChunkedCommitment::<A1<V>>::get_commitment_given_commitment_key(&m, &r, b as u8, &ck);
    let j = v.ok("a key of the right length is accepted", j);
    let mut t: Vec<A1<V>> = vec![];
    for i in 0..n {
        t.push(mul1::<V>(ck[i], digits[i]));
    }
    t.push(mul1::<V>(ck[n], r));
    v.eq_g1("commitment under an arbitrary key is the sum of the terms", j, sum1::<V>(&t));
}

/// messages whose digits run through every value of the chunk range at every position
fn comm_values<V: Env>(v: &mut V, p: &[u64]) {
    let (b, lo, hi, per) = (p[0], p[1], p[2], p[3]);
    let n = nchunks(b);
    let gens = comm_gens(v);
    let ck: Vec<A1<V>> = (0..=n).map(|i| v.any_g1(&format!("k{}", i))).collect();
    let blk = v.pick("block", lo, hi);
    let r = v.fresh("r");
    for x in blk * per..(blk + 1) * per {
        let (m, d) = if p.len() > 4 { super::enc::edged::<V>(b, x) } else { super::enc::patterned::<V>(b, x) };
        let c = ChunkedCommitment::<A1<V>>::new(&m, &r, b as u8, &gens);
        let c = v.ok("a commitment is created", c);
        v.eq_g1(&format!("the chunked commitment is m*G + r*H for pattern {x}"), c.0, add1::<V>(mul1::<V>(gens.G, m), mul1::<V>(gens.H, r)));
        let j = ChunkedCommitment::<A1<V>>::get_commitment_given_commitment_key(&m, &r, b as u8, &ck);
        let j = v.ok("a key of the right length is accepted", j);
        let mut t: Vec<A1<V>> = vec![mul1::<V>(ck[n], r)];
        for i in 0..n {
            let di = v.lit(d[i]);
            t.push(mul1::<V>(ck[i], di));
        }
        v.eq_g1(&format!("commitment under an arbitrary key is the sum of the terms, pattern {x}"), j, sum1::<V>(&t));
    }
}

fn comm_key<V: Env>(v: &mut V, p: &[u64]) {
    for b in p[0]..=p[1] {
        let n = nchunks(b);
        let gens = comm_gens(v);
        let k = ChunkedCommitment::<A1<V>>::commitment_key(&gens, b as u8);
        v.that("one base per chunk and one for the blinding", k.len() == n + 1);
        let radix = pow2(v, b as usize);
        v.eq_g1("the last chunk's base is G", k[n - 1], gens.G);
        v.eq_g1("the last element is H", k[n], gens.H);
        for i in 1..n {
            v.eq_g1("each base is radix times the next", k[i - 1], mul1::<V>(k[i], radix));
        }
    }
}

fn comm_refuse<V: Env>(v: &mut V, p: &[u64]) {
    let b = p[0];
    let n = nchunks(b);
    let gens = comm_gens(v);
    let (m, _) = v.message(b, n, n - 1, n);
    let r = v.fresh("r");
    let len = v.pick("key_length", 0, n as u64 + 3) as usize;
    let x = v.any_g1("k");
    let ck = vec![x; len];
    let j = ChunkedCommitment::<A1<V>>::get_commitment_given_commitment_key(&m, &r, b as u8, &ck);
    if len == n + 1 {
        v.ok("a key of the right length is accepted", j);
    } else {
        v.err("a key of the wrong length is refused", j);
    }
    let _ = gens;
}

fn comm_base<V: Env>(v: &mut V, _p: &[u64]) {
    let gens = comm_gens(v);
    let m = v.lit(77);
    let r = v.fresh("r");
    for b in 1..=16u8 {
        if b == 4 || b == 8 || b == 16 {
            continue;
        }
        let a = ChunkedCommitment::<A1<V>>::new(&m, &r, b, &gens);
        let e = v.err("unsupported chunk sizes are refused", a.map(|_| ()));
        v.that("the error names the size", matches!(e, Some(SaverError::UnexpectedBase(x)) if x == b));
        let ck = vec![gens.G; nchunks(b as u64) + 1];
        let a = ChunkedCommitment::<A1<V>>::get_commitment_given_commitment_key(&m, &r, b, &ck);
        let e = v.err("unsupported chunk sizes are refused", a);
        v.that("the error names the size", matches!(e, Some(SaverError::UnexpectedBase(x)) if x == b));
    }
    let z = mul1::<V>(gens.H, r);
    v.eq_g1("sanity", z, mul1::<V>(gens.H, r));
}

// ---------------------------------------------------------------- C17

#[derive(Default)]
struct Parts<V: Env> {
    f: Vec<F<V>>,
    g1: Vec<A1<V>>,
    g2: Vec<A2<V>>,
    lens: Vec<usize>,
}
fn parts0<V: Env>() -> Parts<V> {
    Parts { f: vec![], g1: vec![], g2: vec![], lens: vec![] }
}

fn vkp<V: Env>(x: &VerifyingKey<V::E>, p: &mut Parts<V>) {
    p.g1.push(x.alpha_g1);
    p.g2.extend([x.beta_g2, x.gamma_g2, x.delta_g2]);
    p.g1.extend(x.gamma_abc_g1.iter().cloned());
    p.lens.push(x.gamma_abc_g1.len());
}

/// everything the round-trip checks do for one object
fn round<V: Env, T>(v: &mut V, name: &str, obj: &T, parts: &dyn Fn(&T) -> Parts<V>, cuts: bool)
where
    T: CanonicalSerialize + CanonicalDeserialize + serde::Serialize + serde::de::DeserializeOwned,
{
    let want = parts(obj);
    let same = |v: &mut V, how: &str, got: &T| {
        let g = parts(got);
        let l = format!("{name} through {how}");
        v.that(&format!("{l}: same shape"), g.lens == want.lens && g.f.len() == want.f.len() && g.g1.len() == want.g1.len() && g.g2.len() == want.g2.len());
        for i in 0..want.f.len() {
            v.eq_f(&format!("{l}: scalar {i}"), g.f[i], want.f[i]);
        }
        for i in 0..want.g1.len() {
            v.eq_g1(&format!("{l}: G1 element {i}"), g.g1[i], want.g1[i]);
        }
        for i in 0..want.g2.len() {
            v.eq_g2(&format!("{l}: G2 element {i}"), g.g2[i], want.g2[i]);
        }
    };
    for (comp, how) in [(Compress::Yes, "compressed bytes"), (Compress::No, "uncompressed bytes")] {
        let mut bytes = vec![];
        let r = obj.serialize_with_mode(&mut bytes, comp);
        v.ok(&format!("{name}: serialize to {how}"), r);
        v.that(&format!("{name}: serialized_size is the number of bytes written"), bytes.len() == obj.serialized_size(comp));
        let r = T::deserialize_with_mode(&bytes[..], comp, Validate::Yes);
        let x = v.ok(&format!("{name}: deserialize from {how}"), r);
        same(v, how, &x);
        let mut again = vec![];
        let r = x.serialize_with_mode(&mut again, comp);
        v.ok(&format!("{name}: serialize again"), r);
        v.that(&format!("{name}: serialization is canonical"), again == bytes);
        if cuts {
            for k in 0..bytes.len() {
                if T::deserialize_with_mode(&bytes[..k], comp, Validate::No).is_ok() {
                    v.fail(&format!("{name}: truncated {how} are refused"), &format!("{k} of {} bytes accepted", bytes.len()));
                }
            }
        }
    }
    let s = serde_json::to_string(obj);
    let s = v.ok(&format!("{name}: to JSON"), s);
    let r = serde_json::from_str::<T>(&s);
    let x = v.ok(&format!("{name}: from JSON"), r);
    same(v, "JSON", &x);
    if cuts {
        for k in (0..s.len()).step_by(7) {
            if serde_json::from_str::<T>(&s[..k]).is_ok() {
                v.fail(&format!("{name}: truncated JSON is refused"), "accepted");
            }
        }
    }
}

/// an object with elements that may lie outside the group: accepted exactly when none does
fn untrusted<V: Env, T>(v: &mut V, name: &str, obj: &T, elems: &[String])
where
    T: CanonicalSerialize + CanonicalDeserialize + serde::Serialize + serde::de::DeserializeOwned,
{
    let how = v.pick("format", 0, 2);
    let ok = match how {
        0 | 1 => {
            let c = if how == 0 { Compress::Yes } else { Compress::No };
            let mut bytes = vec![];
            let r = obj.serialize_with_mode(&mut bytes, c);
            v.ok("serialize", r);
            T::deserialize_with_mode(&bytes[..], c, Validate::Yes).is_ok()
        }
        _ => {
            let s = serde_json::to_string(obj);
            let s = v.ok("to JSON", s);
            serde_json::from_str::<T>(&s).is_ok()
        }
    };
    let mut bad = false;
    for e in elems {
        if v.is_invalid(e) {
            bad = true;
            break;
        }
    }
    v.that(&format!("{name}: an element outside the group is refused"), !(bad && ok));
    v.that(&format!("{name}: valid elements are accepted"), bad || ok);
    // keeps the run from being vacuous: the elements are arbitrary
    let one = v.lit(1);
    v.eq_f("sanity", one, F::<V>::one());
}

struct Src<'a, V: Env> {
    v: &'a mut V,
    un: bool,
    names: Vec<String>,
    k: usize,
}
impl<'a, V: Env> Src<'a, V> {
    fn g1(&mut self) -> A1<V> {
        self.k += 1;
        let n = format!("p{}", self.k);
        if self.un {
            self.names.push(n.clone());
            self.v.untrusted_g1(&n)
        } else {
            self.v.any_g1(&n)
        }
    }
    fn g2(&mut self) -> A2<V> {
        self.k += 1;
        let n = format!("q{}", self.k);
        if self.un {
            self.names.push(n.clone());
            self.v.untrusted_g2(&n)
        } else {
            self.v.any_g2(&n)
        }
    }
    fn f(&mut self) -> F<V> {
        self.k += 1;
        self.v.fresh(&format!("f{}", self.k))
    }
    fn g1s(&mut self, n: usize) -> Vec<A1<V>> {
        (0..n).map(|_| self.g1()).collect()
    }
    fn g2s(&mut self, n: usize) -> Vec<A2<V>> {
        (0..n).map(|_| self.g2()).collect()
    }
    fn fs(&mut self, n: usize) -> Vec<F<V>> {
        (0..n).map(|_| self.f()).collect()
    }
}
macro_rules! by_kind {
    ($v:expr, $un:expr, $name:expr, $T:ty, $build:expr, $parts:expr, $cuts:expr) => {{
        let mut s = Src { v: $v, un: $un, names: vec![], k: 0 };
        let obj: $T = $build(&mut s);
        let names = s.names;
        if $un {
            untrusted::<V, $T>($v, $name, &obj, &names)
        } else {
            round::<V, $T>($v, $name, &obj, &$parts, $cuts)
        }
    }};
}

fn ser<V: Env>(v: &mut V, p: &[u64]) {
    let (kind, n, un) = (p[0], p[1] as usize, p[2] == 1);
    let cuts = p.get(3).cloned().unwrap_or(0) == 1;
    match kind {
        0 => by_kind!(v, un, "ciphertext", Ciphertext<V::E>,
            |s: &mut Src<V>| Ciphertext { X_r: s.g1(), enc_chunks: s.g1s(n), commitment: s.g1() },
            |x: &Ciphertext<V::E>| { let mut p = parts0::<V>(); p.g1.push(x.X_r); p.g1.extend(x.enc_chunks.iter().cloned()); p.g1.push(x.commitment); p.lens.push(x.enc_chunks.len()); p }, cuts),
        1 => by_kind!(v, un, "encryption key", EncryptionKey<V::E>,
            |s: &mut Src<V>| EncryptionKey { X_0: s.g1(), X: s.g1s(n), Y: s.g1s(n), Z: s.g2s(n + 1), P_1: s.g1(), P_2: s.g1() },
            |x: &EncryptionKey<V::E>| { let mut p = parts0::<V>(); p.g1.push(x.X_0); p.g1.extend(x.X.iter().cloned()); p.g1.extend(x.Y.iter().cloned()); p.g1.extend([x.P_1, x.P_2]); p.g2.extend(x.Z.iter().cloned()); p.lens = vec![x.X.len(), x.Y.len(), x.Z.len()]; p }, cuts),
        2 => by_kind!(v, un, "partial encryption key", FEncryptionKeyPartial<V::E>,
            |s: &mut Src<V>| FEncryptionKeyPartial { X_0: s.g1(), X: s.g1s(n), Y: s.g1s(n), Z: s.g2s(n + 1), P_2: s.g1() },
            |x: &FEncryptionKeyPartial<V::E>| { let mut p = parts0::<V>(); p.g1.push(x.X_0); p.g1.extend(x.X.iter().cloned()); p.g1.extend(x.Y.iter().cloned()); p.g1.push(x.P_2); p.g2.extend(x.Z.iter().cloned()); p.lens = vec![x.X.len(), x.Y.len(), x.Z.len()]; p }, cuts),
        3 => by_kind!(v, un, "decryption key", DecryptionKey<V::E>,
            |s: &mut Src<V>| DecryptionKey { V_0: s.g2(), V_1: s.g2s(n), V_2: s.g2s(n) },
            |x: &DecryptionKey<V::E>| { let mut p = parts0::<V>(); p.g2.push(x.V_0); p.g2.extend(x.V_1.iter().cloned()); p.g2.extend(x.V_2.iter().cloned()); p.lens = vec![x.V_1.len(), x.V_2.len()]; p }, cuts),
        4 => by_kind!(v, un, "share of P_1", P1share<V::E>, |s: &mut Src<V>| P1share { P_1: s.g1() },
            |x: &P1share<V::E>| { let mut p = parts0::<V>(); p.g1.push(x.P_1); p }, cuts),
        5 => by_kind!(v, un, "destination key", FEncryptionKeyDest<V::E>, |s: &mut Src<V>| FEncryptionKeyDest { pk: s.g1() },
            |x: &FEncryptionKeyDest<V::E>| { let mut p = parts0::<V>(); p.g1.push(x.pk); p }, cuts),
        6 => by_kind!(v, un, "encryption generators", EncryptionGens<V::E>, |s: &mut Src<V>| EncryptionGens { G: s.g1(), H: s.g2() },
            |x: &EncryptionGens<V::E>| { let mut p = parts0::<V>(); p.g1.push(x.G); p.g2.push(x.H); p }, cuts),
        7 => by_kind!(v, un, "commitment generators", ChunkedCommitmentGens<A1<V>>, |s: &mut Src<V>| ChunkedCommitmentGens { G: s.g1(), H: s.g1() },
            |x: &ChunkedCommitmentGens<A1<V>>| { let mut p = parts0::<V>(); p.g1.extend([x.G, x.H]); p }, cuts),
        8 => by_kind!(v, un, "chunked commitment", ChunkedCommitment<A1<V>>, |s: &mut Src<V>| ChunkedCommitment(s.g1(), s.g1s(n)),
            |x: &ChunkedCommitment<A1<V>>| { let mut p = parts0::<V>(); p.g1.push(x.0); p.g1.extend(x.1.iter().cloned()); p.lens.push(x.1.len()); p }, cuts),
        9 => by_kind!(v, un, "proving key", ProvingKey<V::E>,
            |s: &mut Src<V>| ProvingKey {
                pk: Groth16ProvingKey {
                    vk: VerifyingKey { alpha_g1: s.g1(), beta_g2: s.g2(), gamma_g2: s.g2(), delta_g2: s.g2(), gamma_abc_g1: s.g1s(n) },
                    beta_g1: s.g1(), delta_g1: s.g1(), a_query: s.g1s(n), b_g1_query: s.g1s(n), b_g2_query: s.g2s(n), h_query: s.g1s(n), l_query: s.g1s(n),
                },
                gamma_g1: s.g1(),
            },
            |x: &ProvingKey<V::E>| {
                let mut p = parts0::<V>();
                vkp::<V>(&x.pk.vk, &mut p);
                p.g1.extend([x.pk.beta_g1, x.pk.delta_g1, x.gamma_g1]);
                for q in [&x.pk.a_query, &x.pk.b_g1_query, &x.pk.h_query, &x.pk.l_query] { p.g1.extend(q.iter().cloned()); p.lens.push(q.len()); }
                p.g2.extend(x.pk.b_g2_query.iter().cloned());
                p
            }, cuts),
        10 => by_kind!(v, false, "secret key", SecretKey<F<V>>, |s: &mut Src<V>| SecretKey(s.f()),
            |x: &SecretKey<F<V>>| { let mut p = parts0::<V>(); p.f.push(x.0); p }, cuts),
        _ => by_kind!(v, false, "secrets of a party", SecretKeyST<V::E>, |s: &mut Src<V>| SecretKeyST { s: s.fs(n), t: s.fs(n + 1) },
            |x: &SecretKeyST<V::E>| { let mut p = parts0::<V>(); p.f.extend(x.s.iter().cloned()); p.f.extend(x.t.iter().cloned()); p.lens = vec![x.s.len(), x.t.len()]; p }, cuts),
    }
}

fn ser_table<V: Env>(v: &mut V, p: &[u64]) {
    let g: G1p<V> = v.any_g1("g").into_group();
    let t = WindowTable::<G1p<V>>::new(p[0] as usize, g);
    let s = v.fresh("s");
    let want: A1<V> = t.multiply(&s).into();
    for c in [Compress::Yes, Compress::No] {
        let mut bytes = vec![];
        let r = t.serialize_with_mode(&mut bytes, c);
        v.ok("window table: serialize", r);
        let r = WindowTable::<G1p<V>>::deserialize_with_mode(&bytes[..], c, Validate::Yes);
        let t2 = v.ok("window table: deserialize", r);
        let got: A1<V> = t2.multiply(&s).into();
        v.eq_g1("a deserialized window table multiplies the same", got, want);
    }
    let j = serde_json::to_string(&t);
    let j = v.ok("window table: to JSON", j);
    let r = serde_json::from_str::<WindowTable<G1p<V>>>(&j);
    let t2 = v.ok("window table: from JSON", r);
    let got: A1<V> = t2.multiply(&s).into();
    v.eq_g1("a window table from JSON multiplies the same", got, want);
}

// ---------------------------------------------------------------- C18

fn label(k: u64) -> Vec<u8> {
    match k {
        0 => vec![],
        1 => vec![1, 2, 3],
        2 => b" : G".to_vec(),
        3 => (0..200u8).collect(),
        4 => b"label : H".to_vec(),
        5 => vec![0xff; 64],
        // labels whose BLAKE2b hashes need 2 to 39 further attempts on the real curve
        6 => b"retry63".to_vec(),
        7 => b"retry1".to_vec(),
        8 => b"retry65".to_vec(),
        9 => b"retry3556".to_vec(),
        10 => b"retry3434".to_vec(),
        11 => b"retry903".to_vec(),
        _ => b"retry3213".to_vec(),
    }
}
/// the documented derivation: hash the bytes, retry with a counter until the hash decodes
fn ref_point<G: AffineRepr, D: Digest>(bytes: &[u8]) -> G {
    let mut j = 0u64;
    loop {
        let h = if j == 0 {
            D::digest(bytes)
        } else {
            let mut b = bytes.to_vec();
            b.extend_from_slice(b"-attempt-");
            b.extend_from_slice(&j.to_le_bytes());
            D::digest(&b)
        };
        if let Some(g) = G::from_random_bytes(&h) {
            return g.mul_by_cofactor_to_group().into();
        }
        j += 1;
    }
}
fn ref_scalar<F: PrimeField, D: Digest>(bytes: &[u8]) -> F {
    let mut j = 0u64;
    loop {
        let h = if j == 0 {
            D::digest(bytes)
        } else {
            let mut b = bytes.to_vec();
            b.extend_from_slice(b"-attempt-");
            b.extend_from_slice(&j.to_le_bytes());
            D::digest(&b)
        };
        if let Some(g) = F::from_random_bytes(&h) {
            return g;
        }
        j += 1;
    }
}
fn with(l: &[u8], s: &[u8]) -> Vec<u8> {
    let mut b = l.to_vec();
    b.extend_from_slice(s);
    b
}

fn gens_label_d<V: Env, D: Digest>(v: &mut V, l: &[u8]) {
    let e = EncryptionGens::<V::E>::new::<D>(l);
    let g: A1<V> = ref_point::<A1<V>, D>(&with(l, b" : G"));
    let h: A2<V> = ref_point::<A2<V>, D>(&with(l, b" : H"));
    v.eq_g1("encryption generator G is the hash of the label and its role", e.G, g);
    v.eq_g2("encryption generator H is the hash of the label and its role", e.H, h);
    let e2 = EncryptionGens::<V::E>::new::<D>(l);
    v.eq_g1("the same label gives the same G", e.G, e2.G);
    v.eq_g2("the same label gives the same H", e.H, e2.H);
}
fn gens_label<V: Env>(v: &mut V, p: &[u64]) {
    v.hash_failures(p[2] as usize);
    let l = label(p[0]);
    if p[1] == 0 {
        gens_label_d::<V, Blake2b512>(v, &l)
    } else {
        gens_label_d::<V, Blake2s256>(v, &l)
    }
}
fn comm_gens_label<V: Env>(v: &mut V, p: &[u64]) {
    v.hash_failures(p[2] as usize);
    let l = label(p[0]);
    let e = ChunkedCommitmentGens::<A1<V>>::new::<Blake2b512>(&l);
    let g: A1<V> = ref_point::<A1<V>, Blake2b512>(&with(&l, b" : G"));
    let h: A1<V> = ref_point::<A1<V>, Blake2b512>(&with(&l, b" : H"));
    v.eq_g1("commitment generator G is the hash of the label and its role", e.G, g);
    v.eq_g1("commitment generator H is the hash of the label and its role", e.H, h);
    v.varies_g1("G and H are unrelated", (e.G.into_group() - e.H).into());
    let mut l2 = l.clone();
    l2.push(0);
    let e2 = ChunkedCommitmentGens::<A1<V>>::new::<Blake2b512>(&l2);
    v.varies_g1("another label gives an unrelated G", (e.G.into_group() - e2.G).into());
    v.varies_g1("another label gives an unrelated H", (e.H.into_group() - e2.H).into());
}
fn scalar_label<V: Env>(v: &mut V, p: &[u64]) {
    v.hash_failures(p[2] as usize);
    let l = label(p[0]);
    let a = field_elem_from_try_and_incr::<F<V>, Blake2b512>(&l);
    v.eq_f("hash to a scalar", a, ref_scalar::<F<V>, Blake2b512>(&l));
    let b = affine_group_elem_from_try_and_incr::<A1<V>, Blake2b512>(&l);
    let c: A1<V> = projective_group_elem_from_try_and_incr::<A1<V>, Blake2b512>(&l).into();
    v.eq_g1("affine and projective forms agree", b, c);
    v.eq_g1("hash to a point", b, ref_point::<A1<V>, Blake2b512>(&l));
}

fn gens_fresh<V: Env>(v: &mut V, _p: &[u64]) {
    let mut rng = v.rng();
    let a = EncryptionGens::<V::E>::new_using_rng(&mut rng);
    let b = EncryptionGens::<V::E>::new_using_rng(&mut rng);
    v.varies_g1("G of two runs", (a.G.into_group() - b.G).into());
    v.varies_g2("H of two runs", (a.H.into_group() - b.H).into());
    let c = ChunkedCommitmentGens::<A1<V>>::new_using_rng(&mut rng);
    let d = ChunkedCommitmentGens::<A1<V>>::new_using_rng(&mut rng);
    v.varies_g1("commitment G and H", (c.G.into_group() - c.H).into());
    v.varies_g1("commitment G of two runs", (c.G.into_group() - d.G).into());
    v.varies_g1("commitment H of two runs", (c.H.into_group() - d.H).into());
    v.varies_g1("commitment H and the other run's G", (c.H.into_group() - d.G).into());
    // "not a constant": the opposite sign must differ too
    v.varies_g1("G is not fixed", a.G);
    v.varies_g2("H is not fixed", a.H);
    v.varies_g1("commitment G is not fixed", c.G);
    v.varies_g1("commitment H is not fixed", c.H);
}

// ---------------------------------------------------------------- C19

fn window<V: Env>(v: &mut V, p: &[u64]) {
    let (est, cnt, g2) = (p[0] as usize, p[1] as usize, p[2] == 1);
    let sc: Vec<F<V>> = (0..cnt).map(|i| v.fresh(&format!("s{}", i))).collect();
    if g2 {
        let g = v.any_g2("g");
        let t = WindowTable::<<V::E as Pairing>::G2>::new(est, g.into_group());
        for (i, r) in t.multiply_many(&sc).into_iter().enumerate() {
            v.eq_g2("multiply_many in G2", r.into(), mul2::<V>(g, sc[i]));
        }
        let r = multiply_field_elems_with_same_group_elem::<<V::E as Pairing>::G2>(g.into_group(), &sc);
        v.that("one product per scalar", r.len() == cnt);
        for (i, r) in r.into_iter().enumerate() {
            v.eq_g2("multiply_field_elems_with_same_group_elem in G2", r.into(), mul2::<V>(g, sc[i]));
        }
        return;
    }
    let g = v.any_g1("g");
    let t = WindowTable::<G1p<V>>::new(est, g.into_group());
    let m = t.multiply_many(&sc);
    v.that("one product per scalar", m.len() == cnt);
    for i in 0..cnt {
        v.eq_g1("multiply_many", m[i].into(), mul1::<V>(g, sc[i]));
    }
    for s in sc.iter().take(2) {
        let a: A1<V> = t.multiply(s).into();
        v.eq_g1("multiply", a, mul1::<V>(g, *s));
    }
    let s = v.fresh("s");
    let a: A1<V> = t.multiply(&s).into();
    v.eq_g1("multiply", a, mul1::<V>(g, s));
    let r = multiply_field_elems_with_same_group_elem::<G1p<V>>(g.into_group(), &sc);
    v.that("one product per scalar", r.len() == cnt);
    for i in 0..cnt {
        v.eq_g1("multiply_field_elems_with_same_group_elem", r[i].into(), mul1::<V>(g, sc[i]));
    }
}

// ---------------------------------------------------------------- C20

fn ek_shape<V: Env>(v: &mut V, p: &[u64]) {
    let (big, hi) = (p[0], p[1]);
    let (x, y, z) = if big == 0 {
        (v.pick("X", 0, hi), v.pick("Y", 0, hi), v.pick("Z", 0, hi + 1))
    } else {
        let d = v.pick("X", 0, 2);
        let e = v.pick("Y", 0, 2);
        let f = v.pick("Z", 0, 2);
        (big - 1 + d, big - 1 + e, big + f)
    };
    let a = v.any_g1("a");
    let b = v.any_g2("b");
    let ek = EncryptionKey::<V::E> { X_0: a, X: vec![a; x as usize], Y: vec![a; y as usize], Z: vec![b; z as usize], P_1: a, P_2: a };
    let good = x == y && z == x + 1 && x <= 255;
    let check = |v: &mut V, what: &str, n: Result<u8, SaverError>, val: Result<(), SaverError>| {
        v.that(&format!("{what}: validate agrees with supported_chunks_count"), n.is_ok() == val.is_ok());
        match n {
            Ok(k) => v.that(&format!("{what}: accepted only when X, Y, Z have n, n, n+1 elements and n fits, and n is reported"), good && k as u64 == x),
            Err(SaverError::MalformedEncryptionKey(..)) => v.that(&format!("{what}: a well-formed key is not refused"), !good),
            Err(e) => v.fail(&format!("{what}: error kind"), &format!("{:?}", e)),
        }
    };
    check(v, "encryption key", ek.supported_chunks_count(), ek.validate());
    let pk = PreparedEncryptionKey::from(ek.clone());
    check(v, "prepared encryption key", pk.supported_chunks_count(), pk.validate());
    v.eq_g1("sanity", ek.P_1, a);
}
fn dk_shape<V: Env>(v: &mut V, p: &[u64]) {
    let (big, hi) = (p[0], p[1]);
    let (x, y) = if big == 0 { (v.pick("V1", 0, hi), v.pick("V2", 0, hi)) } else { (big - 1 + v.pick("V1", 0, 2), big - 1 + v.pick("V2", 0, 2)) };
    let b = v.any_g2("b");
    let dk = DecryptionKey::<V::E> { V_0: b, V_1: vec![b; x as usize], V_2: vec![b; y as usize] };
    let good = x == y && x <= 255;
    let check = |v: &mut V, what: &str, n: Result<u8, SaverError>, val: Result<(), SaverError>| {
        v.that(&format!("{what}: validate agrees with supported_chunks_count"), n.is_ok() == val.is_ok());
        match n {
            Ok(k) => v.that(&format!("{what}: accepted only when V_1 and V_2 have n elements and n fits, and n is reported"), good && k as u64 == x),
            Err(SaverError::MalformedDecryptionKey(..)) => v.that(&format!("{what}: a well-formed key is not refused"), !good),
            Err(e) => v.fail(&format!("{what}: error kind"), &format!("{:?}", e)),
        }
    };
    check(v, "decryption key", dk.supported_chunks_count(), dk.validate());
    let pk = PreparedDecryptionKey::from(dk.clone());
    check(v, "prepared decryption key", pk.supported_chunks_count(), pk.validate());
    v.eq_g2("sanity", dk.V_0, b);
}
fn prep<V: Env>(v: &mut V, p: &[u64]) {
    let n = p[0] as usize;
    let mut s = Src { v, un: false, names: vec![], k: 0 };
    let ek = EncryptionKey::<V::E> { X_0: s.g1(), X: s.g1s(n), Y: s.g1s(n), Z: s.g2s(n + 1), P_1: s.g1(), P_2: s.g1() };
    let dk = DecryptionKey::<V::E> { V_0: s.g2(), V_1: s.g2s(n), V_2: s.g2s(n) };
    let gens = any_gens(v);
    let u = v.gen_g1("u");
    let w = v.gen_g2("w");
    let pe = PreparedEncryptionKey::from(ek.clone());
    v.that("shape kept", pe.X.len() == n && pe.Y.len() == n && pe.Z.len() == n + 1);
    v.eq_g1("X_0", pe.X_0, ek.X_0);
    v.eq_g1("P_1", pe.P_1, ek.P_1);
    v.eq_g1("P_2", pe.P_2, ek.P_2);
    for i in 0..n {
        v.eq_g1("X", pe.X[i], ek.X[i]);
        v.eq_g1("Y", pe.Y[i], ek.Y[i]);
    }
    for i in 0..=n {
        v.eq_gt("Z", V::E::pairing(u, pe.Z[i].clone()), pair::<V>(u, ek.Z[i]));
    }
    let pd = PreparedDecryptionKey::from(dk.clone());
    v.that("shape kept", pd.V_1.len() == n && pd.V_2.len() == n);
    v.eq_gt("V_0", V::E::pairing(u, pd.V_0.clone()), pair::<V>(u, dk.V_0));
    for i in 0..n {
        v.eq_gt("V_1", V::E::pairing(u, pd.V_1[i].clone()), pair::<V>(u, dk.V_1[i]));
        v.eq_gt("V_2", V::E::pairing(u, pd.V_2[i].clone()), pair::<V>(u, dk.V_2[i]));
    }
    let pg = PreparedEncryptionGens::from(gens.clone());
    v.eq_gt("prepared H", V::E::pairing(u, pg.H.clone()), pair::<V>(u, gens.H));
    v.eq_gt("prepared G", V::E::pairing(pg.G.clone(), w), pair::<V>(gens.G, w));
    let ck = ek.commitment_key();
    let ck2 = pe.commitment_key();
    v.that("the ciphertext commitment key has one element per chunk and one more", ck.len() == n + 1 && ck2.len() == n + 1);
    for i in 0..n {
        v.eq_g1("commitment key", ck[i], ek.Y[i]);
        v.eq_g1("commitment key of the prepared key", ck2[i], ek.Y[i]);
    }
    v.eq_g1("commitment key", ck[n], ek.P_1);
    v.eq_g1("commitment key of the prepared key", ck2[n], ek.P_1);
}

/// the table of powers: entry (i,j) is (j+1) e(g_i, V_2[i]); short generators are refused
fn powers<V: Env>(v: &mut V, p: &[u64]) {
    let (n, m, cb) = (p[0] as usize, p[1] as usize, p[2] as u8);
    let mut s = Src { v, un: false, names: vec![], k: 0 };
    let dk = DecryptionKey::<V::E> { V_0: s.g2(), V_1: s.g2s(n), V_2: s.g2s(n) };
    let g = s.g1s(m);
    let vk = VerifyingKey::<V::E> { alpha_g1: s.g1(), beta_g2: s.g2(), gamma_g2: s.g2(), delta_g2: s.g2(), gamma_abc_g1: { let mut a = vec![s.g1()]; a.extend(g.iter().cloned()); a } };
    let prep = PreparedDecryptionKey::from(dk.clone());
    let all = [dk.pairing_powers(cb, &g), dk.pairing_powers_given_groth16_vk(cb, &vk), prep.pairing_powers(cb, &g), prep.pairing_powers_given_groth16_vk(cb, &vk)];
    for r in all {
        if m < n {
            v.err("too few generators are refused", r);
            continue;
        }
        let t = v.ok("a table is made", r);
        v.that("one row per chunk", t.len() == n);
        let want = ((1u32 << cb) - 1).max(1) as usize;
        for i in 0..n {
            v.that("one entry per non-zero chunk value", t[i].len() == want);
            let e = pair::<V>(g[i], dk.V_2[i]);
            let mut acc = e;
            for j in 0..want {
                v.eq_gt("entry j of row i is (j+1) e(g_i, V_2[i])", t[i][j], acc);
                acc += e;
            }
        }
    }
    if m < n {
        v.eq_g2("sanity", dk.V_0, dk.V_0);
    }
}

pub fn reg(v: &mut Vec<H>) {
    const CF: &str = "commitment::ChunkedCommitment::{new, get_commitment_given_commitment_key, commitment_key}, utils::decompose";
    for (b, lo, hi) in [(8u64, 0u64, 32u64), (16, 0, 16), (4, 0, 7), (4, 29, 36), (4, 57, 64)] {
        harness!(v, "C15", format!("comm_open_b{b}_{lo}_{hi}"), quick, comm_open, [b, lo, hi], CF, format!("chunk size {b}, digits {lo}..{hi} of the message arbitrary (others 0), generators, blinding and keys arbitrary"));
    }
    for (b, lo, hi) in [(4u64, 7u64, 14u64), (4, 14, 21), (4, 21, 28), (4, 36, 43), (4, 43, 50), (4, 50, 57)] {
        harness!(v, "C15", format!("comm_open_b{b}_{lo}_{hi}"), thorough, comm_open, [b, lo, hi], CF, format!("chunk size {b}, digits {lo}..{hi} of the message arbitrary (others 0), generators, blinding and keys arbitrary"));
    }
    for (b, hi, per) in [(4u64, 1u64, 8u64), (8, 15, 16), (16, 255, 8)] {
        harness!(v, "C15", format!("comm_values_b{b}"), quick, comm_values, [b, 0, hi, per], CF, format!("chunk size {b}, {} patterned messages; blinding, generators and keys arbitrary", (hi + 1) * per));
    }
    for (b, parts) in [(4u64, 8u64), (8, 4), (16, 2)] {
        for k in 0..parts {
            let per = 8;
            let n = super::enc::edges(b) / per / parts;
            harness!(v, "C15", format!("comm_edges_b{b}_{k}"), quick, comm_values, [b, k * n, (k + 1) * n - 1, per, 1], CF, format!("chunk size {b}, {} messages with an extreme digit at one position, extreme or mixed digits elsewhere; blinding, generators and keys arbitrary", n * per));
        }
    }
    harness!(v, "C15", "comm_values_b16_all", thorough, comm_values, [16, 0, 4095, 16], CF, "chunk size 16, every digit value at every position; blinding, generators and keys arbitrary", 6, 1800);
    harness!(v, "C15", "comm_key_4_8", quick, comm_key, [4, 8], CF, "chunk sizes 4..8, arbitrary generators");
    harness!(v, "C15", "comm_key_16_17", quick, comm_key, [16, 17], CF, "chunk sizes 16, 17, arbitrary generators");
    harness!(v, "C15", "comm_key_1_30", thorough, comm_key, [1, 30], CF, "chunk sizes 1..30, arbitrary generators", 3, 600);
    for b in [8u64, 16] {
        harness!(v, "C15", format!("comm_refuse_b{b}"), quick, comm_refuse, [b], CF, format!("chunk size {b}, keys of every length from 0 to two more than needed"));
    }
    harness!(v, "C15", "comm_base", quick, comm_base, [0], CF, "chunk sizes 1..16 other than 4, 8, 16");

    const SF: &str = "derived CanonicalSerialize/CanonicalDeserialize and serde implementations, serde_utils::AsCanonical";
    let kinds = ["ciphertext", "ek", "ek_partial", "dk", "p1share", "ek_dest", "enc_gens", "comm_gens", "chunked_commitment", "proving_key", "sk", "sk_st"];
    for (k, name) in kinds.iter().enumerate() {
        harness!(v, "C17", format!("round_{name}"), quick, ser, [k as u64, 3, 0, 0], SF, format!("{name} with lists of about 3 arbitrary elements; compressed, uncompressed, JSON"), 3, 300);
        for n in [1u64, 2, 17, 70, 260] {
            harness!(v, "C17", format!("round_{name}_n{n}"), quick, ser, [k as u64, n, 0, 0], SF, format!("{name} with lists of about {n} arbitrary elements; compressed, uncompressed, JSON"), 3, 300);
        }
        harness!(v, "C17", format!("round_{name}_empty"), quick, ser, [k as u64, 0, 0, 1], SF, format!("{name} with empty lists, and every truncation"), 2, 300);
        harness!(v, "C17", format!("round_{name}_n9_cuts"), thorough, ser, [k as u64, 9, 0, 1], SF, format!("{name} with lists of about 9 arbitrary elements; every truncation"), 3, 900);
        if k < 10 {
            let n = if k == 9 { 1 } else { 2 };
            harness!(v, "C17", format!("untrusted_{name}"), quick, ser, [k as u64, n, 1, 0], SF, format!("{name}: each element of about {n}-element lists may be outside the group; compressed, uncompressed, JSON"), 8, 300);
        }
    }
    for e in [1u64, 40] {
        harness!(v, "C17", format!("round_window_table_{e}"), quick, ser_table, [e], SF, format!("window table for {e} multiplications of an arbitrary element"), 2, 300);
    }

    const HF: &str = "setup::{EncryptionGens, ChunkedCommitmentGens}::new, utils::{projective_group_elem_from_try_and_incr, affine_group_elem_from_try_and_incr, field_elem_from_try_and_incr}, concat_slices!";
    for l in 0..13u64 {
        harness!(v, "C18", format!("gens_label{l}"), quick, gens_label, [l, 0, 3], HF, format!("label number {l} of 13; every outcome of decoding the hashes (up to 3 failures)"), 2, 240);
        harness!(v, "C18", format!("comm_gens_label{l}"), quick, comm_gens_label, [l, 0, 3], HF, format!("label number {l} of 13; every outcome of decoding the hashes (up to 3 failures)"), 2, 240);
        harness!(v, "C18", format!("scalar_label{l}"), quick, scalar_label, [l, 0, 4], HF, format!("label number {l} of 13; every outcome of decoding the hashes (up to 4 failures)"), 2, 240);
    }
    for l in [1u64, 6, 12] {
        harness!(v, "C18", format!("gens_label{l}_deep"), thorough, gens_label, [l, 0, 12], HF, format!("label number {l} of 13; every outcome of decoding the hashes (up to 12 failures)"), 2, 900);
        harness!(v, "C18", format!("comm_gens_label{l}_deep"), thorough, comm_gens_label, [l, 0, 8], HF, format!("label number {l} of 13; every outcome of decoding the hashes (up to 8 failures)"), 2, 900);
        harness!(v, "C18", format!("scalar_label{l}_deep"), thorough, scalar_label, [l, 0, 20], HF, format!("label number {l} of 13; every outcome of decoding the hashes (up to 20 failures)"), 2, 900);
    }
    for l in 0..13u64 {
        harness!(v, "C18", format!("gens_label{l}_blake2s"), thorough, gens_label, [l, 1, 3], HF, format!("label number {l} of 13, 256-bit digest"));
    }
    harness!(v, "C22", "gens_fresh", quick, gens_fresh, [0], "setup::{EncryptionGens, ChunkedCommitmentGens}::new_using_rng", "two runs");

    const WF: &str = "utils::{WindowTable::{new, multiply, multiply_many}, multiply_field_elems_with_same_group_elem} (FixedBase by contract)";
    for (e, c, g) in [(0u64, 0u64, 0u64), (1, 1, 0), (2, 3, 0), (4, 2, 0), (8, 9, 0), (16, 1, 0), (31, 4, 0), (32, 4, 0), (33, 33, 0), (64, 3, 0), (70, 8, 0), (128, 2, 0), (255, 3, 0), (256, 2, 0), (257, 2, 0), (1, 64, 0), (1, 129, 0), (2, 256, 0), (0, 2, 1), (1, 1, 1), (2, 2, 1), (3, 5, 1), (31, 2, 1), (32, 3, 1), (33, 2, 1), (64, 2, 1), (65, 33, 1), (1, 70, 1)] {
        harness!(v, "C19", format!("window_e{e}_c{c}_g{}", g + 1), quick, window, [e, c, g], WF, format!("table built for {e}, {c} arbitrary scalars, arbitrary element of G{}", g + 1), 2, 300);
    }
    for (e, c, g) in [(200u64, 4u64, 0u64), (1000, 2, 0), (512, 2, 0), (513, 1, 0), (500, 70, 1), (1024, 2, 1), (4096, 1, 0)] {
        harness!(v, "C19", format!("window_e{e}_c{c}_g{}", g + 1), thorough, window, [e, c, g], WF, format!("table built for {e}, {c} arbitrary scalars, arbitrary element of G{}", g + 1), 2, 900);
    }

    const KF: &str = "keygen::{EncryptionKey, PreparedEncryptionKey, DecryptionKey, PreparedDecryptionKey}::{supported_chunks_count, validate}, conversions to prepared keys";
    harness!(v, "C20", "ek_shape_k3", quick, ek_shape, [0, 3], KF, "every combination of sizes of X, Y in 0..3, Z in 0..4");
    harness!(v, "C20", "dk_shape_k5", quick, dk_shape, [0, 5], KF, "every combination of sizes of V_1, V_2 in 0..5");
    for big in [255u64, 256, 257, 300, 512] {
        harness!(v, "C20", format!("ek_shape_{big}"), quick, ek_shape, [big, 0], KF, format!("sizes of X, Y in {}..{}, Z in {}..{}", big - 1, big + 1, big, big + 2), 2, 300);
        harness!(v, "C20", format!("dk_shape_{big}"), quick, dk_shape, [big, 0], KF, format!("sizes of V_1, V_2 in {}..{}", big - 1, big + 1), 2, 300);
    }
    harness!(v, "C20", "ek_shape_k6", thorough, ek_shape, [0, 6], KF, "every combination of sizes of X, Y in 0..6, Z in 0..7", 6, 900);
    for n in super::sizes() {
        harness!(v, "C20", format!("prepared_n{n}"), quick, prep, [n], KF, format!("{n} chunks, arbitrary elements"), 2, 300);
    }
    const PF: &str = "keygen::{DecryptionKey, PreparedDecryptionKey}::{pairing_powers, pairing_powers_given_groth16_vk}";
    for (n, m, cb) in [(3u64, 3u64, 4u64), (2, 3, 2), (2, 2, 1), (3, 2, 2), (1, 0, 2), (1, 1, 8), (0, 0, 4), (16, 16, 2), (32, 33, 1), (64, 64, 1), (2, 2, 4), (1, 1, 10)] {
        harness!(v, "C06", format!("powers_n{n}_m{m}_cb{cb}"), quick, powers, [n, m, cb], PF, format!("{n} chunks, {m} generators, chunk size {cb}, arbitrary elements"), 2, 300);
    }
    harness!(v, "C06", "powers_n2_m2_cb12", thorough, powers, [2, 2, 12], PF, "2 chunks, chunk size 12, arbitrary elements", 1, 900);
}

/// (maintenance) which labels need how many retries on the real curve
pub fn retry_labels() {
    use ark_bls12_381::{Fr, G1Affine, G2Affine};
    use ark_ff::Field;
    fn cnt(bytes: &[u8], f: &dyn Fn(&[u8]) -> bool) -> u64 {
        let mut j = 0u64;
        loop {
            let b = if j == 0 { bytes.to_vec() } else { with(&with(bytes, b"-attempt-"), &j.to_le_bytes()) };
            if f(&Blake2b512::digest(&b)) {
                return j;
            }
            j += 1;
        }
    }
    let mut best = std::collections::BTreeMap::new();
    for i in 0..4000u32 {
        let l = format!("retry{i}").into_bytes();
        let a = cnt(&with(&l, b" : G"), &|h| G1Affine::from_random_bytes(h).is_some());
        let b = cnt(&with(&l, b" : H"), &|h| G2Affine::from_random_bytes(h).is_some());
        let c = cnt(&with(&l, b" : H"), &|h| G1Affine::from_random_bytes(h).is_some());
        let d = cnt(&l, &|h| Fr::from_random_bytes(h).is_some());
        let e = cnt(&l, &|h| G1Affine::from_random_bytes(h).is_some());
        for (k, x) in [("G1", a), ("G2", b), ("H1", c), ("F", d), ("P", e)] {
            best.entry((k, x)).or_insert(i);
        }
        if a >= 2 && b >= 2 && c >= 2 && d >= 1 && e >= 2 {
            println!("all: retry{i} {a} {b} {c} {d} {e}");
        }
    }
    println!("{:?}", best);
}
