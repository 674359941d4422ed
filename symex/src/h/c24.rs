//! C24: the parallel and the sequential build, and every order in which the parallel tasks may run, give
//! the same results.  The oracle is the parallel build with rayon left alone: what the results should be
//! is the business of the other properties.
use super::keys::nchunks;
use crate::env::*;
use crate::{harness, H};
use ark_ec::pairing::Pairing;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::Zero;
use ark_serialize::CanonicalSerialize;
use ark_std::UniformRand;
use std::cell::RefCell;

/// one result of an operation
pub enum O<V: Env> {
    F(F<V>),
    G1(A1<V>),
    G2(A2<V>),
    T(GT<V>),
    N(u64),
    B(Vec<u8>),
}
pub struct Out<V: Env>(pub Vec<(String, O<V>)>);
impl<V: Env> Out<V> {
    fn f(&mut self, l: &str, x: F<V>) { self.0.push((l.into(), O::F(x))) }
    fn g1(&mut self, l: &str, x: A1<V>) { self.0.push((l.into(), O::G1(x))) }
    fn g2(&mut self, l: &str, x: A2<V>) { self.0.push((l.into(), O::G2(x))) }
    fn t(&mut self, l: &str, x: GT<V>) { self.0.push((l.into(), O::T(x))) }
    fn n(&mut self, l: &str, x: u64) { self.0.push((l.into(), O::N(x))) }
    fn g1s(&mut self, l: &str, x: &[A1<V>]) {
        self.n(&format!("number of {l}"), x.len() as u64);
        for (i, y) in x.iter().enumerate() { self.g1(&format!("{l}[{i}]"), *y) }
    }
    fn g2s(&mut self, l: &str, x: &[A2<V>]) {
        self.n(&format!("number of {l}"), x.len() as u64);
        for (i, y) in x.iter().enumerate() { self.g2(&format!("{l}[{i}]"), *y) }
    }
    fn bytes<T: CanonicalSerialize>(&mut self, l: &str, x: &T) {
        let mut b = vec![];
        let ok = x.serialize_compressed(&mut b).is_ok();
        self.n(&format!("serialization of {l} succeeds"), ok as u64);
        self.0.push((format!("serialized {l}"), O::B(b)));
    }
    /// the kind of an error, with its numbers (both builds have a type of their own)
    fn err<T, Er: core::fmt::Debug>(&mut self, l: &str, r: Result<T, Er>) -> Option<T> {
        match r {
            Ok(x) => {
                self.n(&format!("{l} succeeds"), 1);
                Some(x)
            }
            Err(e) => {
                self.0.push((format!("{l} fails"), O::B(format!("{:?}", e).into_bytes())));
                None
            }
        }
    }
}
fn same<V: Env>(v: &mut V, who: &str, a: &Out<V>, b: &Out<V>) {
    v.that(&format!("{who}: as many results"), a.0.len() == b.0.len());
    for ((l, x), (k, y)) in a.0.iter().zip(b.0.iter()) {
        let l = format!("{who}: {l}");
        v.that(&format!("{l}: the same kind of result"), l.ends_with(k.as_str()));
        match (x, y) {
            (O::F(x), O::F(y)) => v.eq_f(&l, *x, *y),
            (O::G1(x), O::G1(y)) => v.eq_g1(&l, *x, *y),
            (O::G2(x), O::G2(y)) => v.eq_g2(&l, *x, *y),
            (O::T(x), O::T(y)) => v.eq_gt(&l, *x, *y),
            (O::N(x), O::N(y)) => v.that(&l, x == y),
            (O::B(x), O::B(y)) => v.that(&l, x == y),
            _ => v.fail(&l, "different kinds of result"),
        }
    }
}

/// arbitrary inputs shared by all runs
pub struct In<V: Env> {
    pub n: usize,
    pub b: u8,
    pub g: A1<V>,
    pub h: A2<V>,
    pub delta_g: A1<V>,
    pub gamma_g: A1<V>,
    pub g_i: Vec<A1<V>>,
    pub ms: Vec<u16>,
    pub fs: Vec<F<V>>,
    pub el: Vec<A1<V>>,
    pub el2: Vec<A2<V>>,
    pub k: usize,
}

macro_rules! ops {
    ($m:ident, $k:ident) => {
        pub mod $m {
            use super::*;
            use ark_ff::Field;
            use $k::circuit::BitsizeCheckCircuit;
            use $k::commitment::ChunkedCommitment;
            use $k::encryption::{Ciphertext, Encryption};
            use $k::keygen::*;
            use $k::saver_groth16::*;
            use $k::setup::*;
            use $k::utils::*;

            fn gens<V: Env>(i: &In<V>) -> EncryptionGens<V::E> {
                EncryptionGens { G: i.g, H: i.h }
            }
            fn ek_out<V: Env>(o: &mut Out<V>, e: &EncryptionKey<V::E>) {
                o.g1("X_0", e.X_0);
                o.g1s("X", &e.X);
                o.g1s("Y", &e.Y);
                o.g2s("Z", &e.Z);
                o.g1("P_1", e.P_1);
                o.g1("P_2", e.P_2);
                o.bytes("encryption key", e);
            }
            fn prep_out<V: Env>(o: &mut Out<V>, i: &In<V>, e: &EncryptionKey<V::E>, d: Option<&DecryptionKey<V::E>>) {
                let p = PreparedEncryptionKey::from(e.clone());
                o.n("prepared Z", p.Z.len() as u64);
                let one = |z: &<V::E as Pairing>::G2Prepared| V::E::multi_pairing([<V::E as Pairing>::G1Prepared::from(i.g)], [z.clone()]);
                for z in p.Z.iter() { o.t("prepared Z element", one(z)) }
                o.g1s("prepared X", &p.X);
                o.g1s("prepared Y", &p.Y);
                if let Some(d) = d {
                    let p = PreparedDecryptionKey::from(d.clone());
                    o.n("prepared V_1", p.V_1.len() as u64);
                    o.n("prepared V_2", p.V_2.len() as u64);
                    o.t("prepared V_0", one(&p.V_0));
                    for z in p.V_1.iter() { o.t("prepared V_1 element", one(z)) }
                    for z in p.V_2.iter() { o.t("prepared V_2 element", one(z)) }
                }
            }
            pub fn keys<V: Env>(v: &mut V, i: &In<V>) -> Out<V> {
                let mut o = Out(vec![]);
                let mut rng = v.rng();
                let r = keygen::<_, V::E>(&mut rng, i.b, &gens(i), &i.g_i, &i.delta_g, &i.gamma_g);
                if let Some((sk, ek, dk)) = o.err("keygen", r) {
                    o.f("secret key", sk.0);
                    ek_out(&mut o, &ek);
                    o.g2("V_0", dk.V_0);
                    o.g2s("V_1", &dk.V_1);
                    o.g2s("V_2", &dk.V_2);
                    prep_out(&mut o, i, &ek, Some(&dk));
                    if let Some(p) = o.err("pairing powers", dk.pairing_powers(2, &i.g_i)) {
                        for x in p.iter().flatten() { o.t("pairing power", *x) }
                    }
                }
                o
            }
            pub fn dist<V: Env>(v: &mut V, i: &In<V>) -> Out<V> {
                let mut o = Out(vec![]);
                let mut rng = v.rng();
                let (mut sks, mut eks) = (vec![], vec![]);
                for _ in 0..i.k {
                    let r = FkeygenPartial::<_, V::E>(&mut rng, i.b, &gens(i), &i.g_i, &i.delta_g, &i.gamma_g);
                    if let Some((s, e)) = o.err("FkeygenPartial", r) {
                        for x in s.s.iter().chain(s.t.iter()) { o.f("secret", *x) }
                        o.g1("X_0", e.X_0);
                        o.g1s("X", &e.X);
                        o.g1s("Y", &e.Y);
                        o.g2s("Z", &e.Z);
                        o.g1("P_2", e.P_2);
                        sks.push(s);
                        eks.push(e);
                    }
                }
                let c = combineEKs(&i.gamma_g, &eks);
                let sh: Vec<_> = sks.iter().map(|s| genP1share(&c, s)).collect();
                let p1 = combineP1share(&sh);
                let ek = keygenFinal(&c, &p1);
                ek_out(&mut o, &ek);
                prep_out(&mut o, i, &ek, None);
                if let Some((s, d)) = o.err("Fkeygen_dest", Fkeygen_dest::<_, V::E>(&mut rng, &gens(i))) {
                    o.f("destination secret", s.0);
                    o.g1("destination key", d.pk);
                    for s in &sks {
                        let el = &i.el[1..=i.g_i.len()];
                        let r = Encryption::<V::E>::re_encrypt_share(&mut rng, &gens(i), &i.el[0], el, &d, s);
                        if let Some((w, g)) = o.err("re_encrypt_share", r) {
                            o.g1s("w", &w);
                            o.g1("g_r", g);
                        }
                    }
                }
                o
            }
            pub fn enc<V: Env>(v: &mut V, i: &In<V>) -> Out<V> {
                let mut o = Out(vec![]);
                let mut rng = v.rng();
                let r = keygen::<_, V::E>(&mut rng, i.b, &gens(i), &i.g_i, &i.delta_g, &i.gamma_g);
                let Some((sk, ek, dk)) = o.err("keygen", r) else { return o };
                let r = Encryption::<V::E>::encrypt_decomposed_message(&mut rng, i.ms.clone(), &ek, &i.g_i);
                let Some((ct, r)) = o.err("encryption", r) else { return o };
                o.f("randomness", r);
                o.g1s("ciphertext", &ct);
                let n = i.g_i.len();
                let r = Encryption::<V::E>::verify_ciphertext_commitment(&ct[0], &ct[1..=n], &ct[n + 1], ek.clone(), gens(i));
                o.err("commitment verification", r);
                let r = Encryption::<V::E>::decrypt_to_chunks(&ct[0], &ct[1..=n], &sk, dk.clone(), &i.g_i, 2);
                if let Some((m, nu)) = o.err("decryption", r) {
                    for x in m { o.n("chunk", x as u64) }
                    o.g1("nu", nu);
                }
                if let Some(pp) = o.err("pairing powers", dk.pairing_powers(2, &i.g_i)) {
                    let r = Encryption::<V::E>::decrypt_to_chunks_given_pairing_powers(&ct[0], &ct[1..=n], &sk, dk, &i.g_i, 2, Some(&pp));
                    if let Some((m, nu)) = o.err("decryption with powers", r) {
                        for x in m { o.n("chunk", x as u64) }
                        o.g1("nu", nu);
                    }
                }
                o
            }
            pub fn batch<V: Env>(_v: &mut V, i: &In<V>) -> Out<V> {
                let mut o = Out(vec![]);
                let n = i.n;
                let cts: Vec<Ciphertext<V::E>> = (0..i.k).map(|j| {
                    let e = &i.el[j * (n + 2)..(j + 1) * (n + 2)];
                    Ciphertext { X_r: e[0], enc_chunks: e[1..=n].to_vec(), commitment: e[n + 1] }
                }).collect();
                let ek = EncryptionKey { X_0: i.g, X: i.g_i.clone(), Y: i.g_i.clone(), Z: i.el2.clone(), P_1: i.g, P_2: i.g };
                let a = Encryption::<V::E>::get_g1_for_ciphertext_commitments_in_batch_pairing_checks(&cts, &i.fs);
                o.g1s("batched elements", &a);
                let r = Encryption::<V::E>::verify_commitments_in_batch(&cts, &i.fs, ek.clone(), gens(i));
                o.err("batch verification", r);
                for c in &cts {
                    o.err("single verification", c.verify_commitment(ek.clone(), gens(i)));
                    o.bytes("ciphertext", c);
                }
                let r = Encryption::<V::E>::add_cts(&cts[0].enc_chunks, &cts[cts.len() - 1].enc_chunks);
                if let Some(s) = o.err("add_cts", r) { o.g1s("sum", &s) }
                o
            }
            pub fn tables<V: Env>(_v: &mut V, i: &In<V>) -> Out<V> {
                let mut o = Out(vec![]);
                let t = WindowTable::new(i.fs.len(), i.g.into_group());
                for x in t.multiply_many(&i.fs) { o.g1("multiply_many", x.into_affine()) }
                for x in &i.fs { o.g1("multiply", t.multiply(x).into_affine()) }
                for x in multiply_field_elems_with_same_group_elem(i.h.into_group(), &i.fs) { o.g2("same element", x.into_affine()) }
                let cg = ChunkedCommitmentGens { G: i.g, H: i.el[0] };
                let k = ChunkedCommitment::<A1<V>>::commitment_key(&cg, i.b);
                o.g1s("commitment key", &k);
                o.n("chunks", chunks_count::<F<V>>(i.b) as u64);
                o
            }
            /// concrete messages: splitting, joining and committing
            pub fn msgs<V: Env>(v: &mut V, i: &In<V>) -> Out<V> {
                let mut o = Out(vec![]);
                let cg = ChunkedCommitmentGens { G: i.g, H: i.el[0] };
                let mut x = v.lit(3);
                for _ in 0..i.k {
                    x = x.square() + v.lit(5);
                    if let Some(d) = o.err("decompose", decompose(&x, i.b)) {
                        for c in &d { o.n("chunk", *c as u64) }
                        if let Some(y) = o.err("compose", compose::<F<V>>(&d, i.b)) { o.f("composed", y) }
                    }
                    if let Some(c) = o.err("commitment", ChunkedCommitment::<A1<V>>::new(&x, &i.fs[0], i.b, &cg)) {
                        o.g1("commitment", c.0);
                    }
                }
                o
            }
            pub fn snark<V: Env>(v: &mut V, i: &In<V>) -> Out<V> {
                let mut o = Out(vec![]);
                v.enumerate_small(true);
                v.pin_powers();
                let mut rng = v.rng();
                let c = BitsizeCheckCircuit::new(i.b, Some(i.n as u8), None, true);
                let Some(pk) = o.err("generate_srs", generate_srs::<V::E, _, _>(c, &gens(i), &mut rng)) else { return o };
                o.bytes("proving key", &pk);
                o.g1("gamma_g1", pk.gamma_g1);
                o.g1s("abc", &pk.pk.vk.gamma_abc_g1);
                o.g1s("a", &pk.pk.a_query);
                o.g2s("b", &pk.pk.b_g2_query);
                o.g1s("h", &pk.pk.h_query);
                o.g1s("l", &pk.pk.l_query);
                // any key over the right bases
                let e = &i.el;
                let n = i.n;
                let ek = EncryptionKey { X_0: e[0], X: e[1..=n].to_vec(), Y: e[1..=n].to_vec(), Z: i.el2.clone(), P_1: e[n + 1], P_2: e[n + 2] };
                let vals = i.ms[..n].iter().map(|m| F::<V>::from(*m as u64)).collect();
                let c = BitsizeCheckCircuit::new(i.b, Some(n as u8), Some(vals), true);
                if let Some(p) = o.err("create_proof", create_proof(c, &i.fs[0], &pk, &ek, &mut rng)) {
                    o.g1("A", p.a);
                    o.g2("B", p.b);
                    o.g1("C", p.c);
                    let ct = Ciphertext { X_r: e[0], enc_chunks: e[1..=n].to_vec(), commitment: e[n + 1] };
                    o.err("verify_proof", verify_proof(&prepare_verifying_key(&pk.pk.vk), &p, &ct));
                }
                o
            }
            /// the exported join! macro, 1 to 6 expressions of different types
            pub fn joins<V: Env>(_v: &mut V, i: &In<V>) -> Out<V> {
                use $k::join;
                let mut o = Out(vec![]);
                let (x, y, z) = (i.fs[0], i.fs[1], i.fs[2]);
                let p = i.el[0];
                let a = join!(x * y);
                o.f("join1", a);
                let (a, b) = join!(x * y, x + z);
                o.f("join2.0", a);
                o.f("join2.1", b);
                let (a, b, c) = join!(x * y, p * z, x - z);
                o.f("join3.0", a);
                o.g1("join3.1", b.into_affine());
                o.f("join3.2", c);
                let (a, b, c, d) = join!(x + y, p * y, x * z, p * x);
                o.f("join4.0", a);
                o.g1("join4.1", b.into_affine());
                o.f("join4.2", c);
                o.g1("join4.3", d.into_affine());
                let (a, b, c, d, e) = join!(x, y, z, x * y, y * z);
                for q in [a, b, c, d, e] { o.f("join5", q) }
                let (a, b, c, d, e, f) = join!(x, y, z, x * y, y * z, x * z);
                for q in [a, b, c, d, e, f] { o.f("join6", q) }
                o
            }
            /// arbitrary keys, ciphertexts and tables through every way of decrypting
            pub fn arbitrary<V: Env>(_v: &mut V, i: &In<V>) -> Out<V> {
                let mut o = Out(vec![]);
                let (n, e) = (i.n, &i.el);
                let sk = SecretKey(i.fs[0]);
                let dk = DecryptionKey::<V::E> { V_0: i.h, V_1: i.el2[..n].to_vec(), V_2: i.el2[n..2 * n].to_vec() };
                let (x, c, g) = (&e[0], &e[1..=n], &e[n + 1..2 * n + 1]);
                let mut show = |l: &str, r: Result<(Vec<u16>, A1<V>), $k::error::SaverError>| {
                    if let Some((m, nu)) = o.err(l, r) {
                        for x in m { o.n("chunk", x as u64) }
                        o.g1("nu", nu);
                    }
                };
                if i.k == 1 {
                    let t: Vec<Vec<GT<V>>> = (0..n).map(|k| (0..3usize).map(|j| pair::<V>(e[2 * n + 1 + 3 * k + j], i.el2[2 * n])).collect()).collect();
                    show("with tables", Encryption::<V::E>::decrypt_to_chunks_given_pairing_powers(x, c, &sk, dk.clone(), g, 2, Some(&t)));
                    show("with few tables", Encryption::<V::E>::decrypt_to_chunks_given_pairing_powers(x, c, &sk, dk.clone(), g, 2, Some(&t[..n - 1])));
                    let short: Vec<Vec<GT<V>>> = t.iter().map(|r| r[..1].to_vec()).collect();
                    show("with short tables", Encryption::<V::E>::decrypt_to_chunks_given_pairing_powers(x, c, &sk, dk.clone(), g, 2, Some(&short)));
                    o.n("end", 0);
                    return o;
                }
                show("with few bases", Encryption::<V::E>::decrypt_to_chunks(x, c, &sk, dk.clone(), &g[..n - 1], 2));
                show("with few chunks", Encryption::<V::E>::decrypt_to_chunks(x, &c[..n - 1], &sk, dk.clone(), g, 2));
                if i.k == 0 {
                    show("decryption", Encryption::<V::E>::decrypt_to_chunks(x, c, &sk, dk, g, 2));
                    return o;
                }
                if let Some(m) = o.err("at the destination", Encryption::<V::E>::decrypt_to_chunks_after_re_encryption(x, c, &sk, g, 2)) {
                    for x in m { o.n("chunk", x as u64) }
                }
                o
            }
            /// many ciphertexts at once
            pub fn batches<V: Env>(_v: &mut V, i: &In<V>) -> Out<V> {
                let mut o = Out(vec![]);
                let n = i.n;
                let cts: Vec<Ciphertext<V::E>> = (0..i.k).map(|j| {
                    let e = &i.el[j * (n + 2)..(j + 1) * (n + 2)];
                    Ciphertext { X_r: e[0], enc_chunks: e[1..=n].to_vec(), commitment: e[n + 1] }
                }).collect();
                let ek = EncryptionKey { X_0: i.g, X: i.g_i.clone(), Y: i.g_i.clone(), Z: i.el2.clone(), P_1: i.g, P_2: i.g };
                let a = Encryption::<V::E>::get_g1_for_ciphertext_commitments_in_batch_pairing_checks(&cts, &i.fs);
                o.g1s("batched elements", &a);
                let r = Encryption::<V::E>::verify_commitments_in_batch(&cts, &i.fs, ek.clone(), gens(i));
                o.err("batch verification", r);
                o
            }
            /// several things are wrong: which one is reported
            pub fn wrong<V: Env>(v: &mut V, i: &In<V>) -> Out<V> {
                let mut o = Out(vec![]);
                let e = &i.el;
                let ct = |n: usize| Ciphertext::<V::E> { X_r: e[0], enc_chunks: e[1..=n].to_vec(), commitment: e[1] };
                // the malformed shapes first, the well-formed ones last: a history ends with accepted ones
                let mut shapes: Vec<(usize, usize, usize)> = (0..=3).flat_map(|x| (0..=3).flat_map(move |y| (0..=3).map(move |z| (x, y, z)))).collect();
                shapes.sort_by_key(|(x, y, z)| x == y && y + 1 == *z);
                for (x, y, z) in &shapes {
                    let k = EncryptionKey::<V::E> { X_0: i.g, X: e[..*x].to_vec(), Y: e[..*y].to_vec(), Z: i.el2[..*z].to_vec(), P_1: i.g, P_2: i.g };
                    o.err("shape of an encryption key", k.supported_chunks_count());
                    o.err("shape of an encryption key", k.validate());
                    let k = PreparedEncryptionKey::<V::E>::from(k);
                    o.err("shape of a prepared encryption key", k.supported_chunks_count());
                    o.err("shape of a prepared encryption key", k.validate());
                }
                shapes.sort_by_key(|(x, y, _)| x == y);
                for (x, y, _) in shapes.iter().filter(|s| s.2 == 0) {
                    let k = DecryptionKey::<V::E> { V_0: i.h, V_1: i.el2[..*x].to_vec(), V_2: i.el2[..*y].to_vec() };
                    o.err("shape of a decryption key", k.supported_chunks_count());
                    o.err("shape of a decryption key", k.validate());
                    o.err("tables for a decryption key", k.pairing_powers(2, &e[..*x / 2]).map(|_| ()));
                    o.err("tables for a decryption key", k.pairing_powers(2, &e[..*x]).map(|_| ()));
                    let k = PreparedDecryptionKey::<V::E>::from(k);
                    o.err("shape of a prepared decryption key", k.supported_chunks_count());
                    o.err("shape of a prepared decryption key", k.validate());
                }
                let ek = EncryptionKey::<V::E> { X_0: i.g, X: e[..2].to_vec(), Y: e[..2].to_vec(), Z: i.el2[..3].to_vec(), P_1: i.g, P_2: i.g };
                for l in [&[2usize, 1, 3][..], &[3, 2, 1], &[1, 3, 2, 2], &[2, 2, 2, 2, 0, 4], &[4, 3]] {
                    let cts: Vec<_> = l.iter().map(|n| ct(*n)).collect();
                    let w: Vec<_> = (0..l.len()).map(|k| i.fs[k % i.fs.len()]).collect();
                    o.err("batch verification", Encryption::<V::E>::verify_commitments_in_batch(&cts, &w, ek.clone(), gens(i)));
                    for c in &cts { o.err("verification", c.verify_commitment(ek.clone(), gens(i))); }
                }
                let mut rng = v.rng();
                for (m, g) in [(2usize, 1usize), (1, 2), (3, 3), (0, 0)] {
                    let r = Encryption::<V::E>::encrypt_decomposed_message(&mut rng, vec![1; m], &ek, &e[..g]);
                    o.err("encryption", r);
                }
                let bad = EncryptionKey::<V::E> { Y: e[..1].to_vec(), ..ek.clone() };
                o.err("malformed key", bad.validate());
                o.err("malformed key", bad.supported_chunks_count());
                o.err("malformed key", ct(2).verify_commitment(bad.clone(), gens(i)));
                for n in [1usize, 2, 15, 17] {
                    o.err("keygen", keygen::<_, V::E>(&mut rng, 16, &gens(i), &vec![i.g; n], &i.delta_g, &i.gamma_g).map(|_| ()));
                    o.err("FkeygenPartial", FkeygenPartial::<_, V::E>(&mut rng, 16, &gens(i), &vec![i.g; n], &i.delta_g, &i.gamma_g).map(|_| ()));
                }
                o
            }
            /// a message from one authority's ciphertext to the destination's chunks
            pub fn whole<V: Env>(v: &mut V, i: &In<V>) -> Out<V> {
                let mut o = Out(vec![]);
                let mut rng = v.rng();
                let mut abc = vec![i.g];
                abc.extend(i.g_i.iter().cloned());
                let vk = ark_groth16::VerifyingKey::<V::E> { alpha_g1: i.g, beta_g2: i.h, gamma_g2: i.h, delta_g2: i.h, gamma_abc_g1: abc };
                let r = keygen::<_, V::E>(&mut rng, i.b, &gens(i), &i.g_i, &i.delta_g, &i.gamma_g);
                let Some((_sk, ek, _dk)) = o.err("keygen", r) else { return o };
                let m = v.lit(0x1234_5678_9abc_def1).square() + v.lit(77);
                let mut put = |l: &str, r: Result<(Ciphertext<V::E>, F<V>), $k::error::SaverError>| {
                    if let Some((c, r)) = o.err(l, r) {
                        o.g1("X_r", c.X_r);
                        o.g1s("chunks", &c.enc_chunks);
                        o.g1("commitment", c.commitment);
                        o.f("randomness", r);
                    }
                };
                put("encrypt", Encryption::<V::E>::encrypt(&mut rng, &m, &ek, &i.g_i, i.b));
                put("encrypt_given_snark_vk", Encryption::<V::E>::encrypt_given_snark_vk(&mut rng, &m, &ek, &vk, i.b));
                put("other chunk size", Encryption::<V::E>::encrypt(&mut rng, &m, &ek, &i.g_i, i.b / 2));
                put("unsupported chunk size", Encryption::<V::E>::encrypt(&mut rng, &m, &ek, &i.g_i, 5));
                let e = &i.el;
                let n = e.len() / 2;
                let (a, b) = (&e[..n], &e[n..2 * n]);
                if let Some(x) = o.err("add_cts", Encryption::<V::E>::add_cts(a, b)) { o.g1s("sum", &x) }
                if let Some((w, g)) = o.err("combine_re_encrypt_share", Encryption::<V::E>::combine_re_encrypt_share(&a[0], &b[0], a, b)) {
                    o.g1s("w", &w);
                    o.g1("g_r", g);
                }
                if let Some(x) = o.err("combine_ct_with_w", Encryption::<V::E>::combine_ct_with_w(&gens(i), a, &i.g, b)) { o.g1s("re-encrypted", &x) }
                let c = Ciphertext { X_r: e[0], enc_chunks: i.g_i.clone(), commitment: e[1] };
                let pvk = prepare_verifying_key(&vk);
                if let Some(d) = o.err("calculate_d", calculate_d(&pvk, &c)) { o.g1("d", d) }
                o.err("verify_qap_proof", verify_qap_proof(&pvk, e[0], i.h, e[1], e[2]));
                let eg = EncryptionGens::<V::E>::new_using_rng(&mut rng);
                o.g1("G", eg.G);
                o.g2("H", eg.H);
                o
            }
        }
    };
}
ops!(par, dist_saver);
ops!(seq, dist_saver_seq);

// ---------------------------------------------------------------- the schedule
#[derive(Clone, Default)]
struct Sched {
    k: usize,
    first: Vec<bool>,
    rest: u64,
    steal: bool,
}
thread_local! {
    static SCHED: RefCell<Sched> = RefCell::new(Sched::default());
}
/// order of the two closures of the next join
fn hook() -> u8 {
    SCHED.with(|s| {
        let mut s = s.borrow_mut();
        let k = s.k;
        s.k += 1;
        let rev = if k < s.first.len() { s.first[k] } else { match s.rest { 0 => false, 1 => true, _ => k % 2 == 0 } };
        rev as u8 | if s.steal { 2 } else { 0 }
    })
}

type Op<V> = fn(&mut V, &In<V>) -> Out<V>;
fn ops_of<V: Env>(which: u64) -> (Op<V>, Op<V>) {
    match which {
        0 => (par::keys, seq::keys),
        1 => (par::dist, seq::dist),
        2 => (par::enc, seq::enc),
        3 => (par::batch, seq::batch),
        4 => (par::tables, seq::tables),
        5 => (par::msgs, seq::msgs),
        6 => (par::snark, seq::snark),
        8 => (par::arbitrary, seq::arbitrary),
        9 => (par::wrong, seq::wrong),
        10 => (par::whole, seq::whole),
        11 => (par::batches, seq::batches),
        _ => (par::joins, seq::joins),
    }
}
fn inputs<V: Env>(v: &mut V, p: &[u64]) -> In<V> {
    inputs_named(v, p, "")
}
fn inputs_named<V: Env>(v: &mut V, p: &[u64], q: &str) -> In<V> {
    let (which, b, n, k) = (p[0], p[1], p[2] as usize, p[3] as usize);
    let g = v.gen_g1(&format!("{q}G"));
    let h = v.gen_g2(&format!("{q}H"));
    let delta_g = v.gen_g1(&format!("{q}delta"));
    let gamma_g = v.gen_g1(&format!("{q}gamma"));
    let g_i: Vec<_> = (0..n).map(|i| v.gen_g1(&format!("{q}g{i}"))).collect();
    let ms = if which == 6 {
        let mut m: Vec<u16> = (0..n).map(|i| (i as u16 * 7 + 3) % (1 << b)).collect();
        m[0] = 0;
        m
    } else {
        let top = v.chunk(&format!("{q}m"), 0, 3);
        (0..n).map(|i| if i == n / 2 { top } else { i as u16 % 4 }).collect()
    };
    let nel = match which { 3 | 11 => k * (n + 2), 1 | 6 => n + 3, 8 => 5 * n + 1, 9 => 6, 10 => 2 * k, _ => 2 };
    let el = (0..nel).map(|i| v.any_g1(&format!("{q}e{i}"))).collect();
    let nf = match which { 3 | 11 => k, _ => k.max(3) };
    let fs = (0..nf).map(|i| v.fresh(&format!("{q}f{i}"))).collect();
    let nel2 = match which { 3 | 6 | 11 => n + 1, 8 => 2 * n + 1, 9 => 3, _ => 0 };
    let el2 = if nel2 > 0 { (0..nel2).map(|i| v.any_g2(&format!("{q}z{i}"))).collect() } else { vec![] };
    In { n, b: b as u8, g, h, delta_g, gamma_g, g_i, ms, fs, el, el2, k }
}

fn run<V: Env>(v: &mut V, p: &[u64], free: u64) {
    let i = inputs(v, p);
    let (par, seq) = ops_of::<V>(p[0]);
    let mark = v.mark();
    let reference = par(v, &i);
    v.rewind(mark.clone());
    let s = seq(v, &i);
    same(v, "sequential build", &s, &reference);
    // every order of the first joins, three patterns for the later ones, several ways of splitting the work
    // (two of each where the operation itself has many paths)
    let few = p[0] == 8;
    let threads = if few { [1, 16][v.pick("threads", 0, 1) as usize] } else { [1, 2, 4, 16][v.pick("threads", 0, 3) as usize] };
    let first = (0..free).map(|k| v.flag(&format!("join{k}_reversed"))).collect();
    let rest = v.pick("later_joins", 0, 2 - few as u64);
    let steal = !few && v.flag("stolen");
    SCHED.with(|s| *s.borrow_mut() = Sched { k: 0, first, rest, steal });
    rayon_core::sched::set(Some(hook), threads);
    v.rewind(mark);
    let o = par(v, &i);
    rayon_core::sched::set(None, 0);
    same(v, "other schedule", &o, &reference);
}
fn sched3<V: Env>(v: &mut V, p: &[u64]) {
    run(v, p, 3)
}
fn sched1<V: Env>(v: &mut V, p: &[u64]) {
    run(v, p, 1)
}

// ---------------------------------------------------------------- C31: what ran before does not matter
/// (name, shape) of the operations a history is made of
const OPS: [(&str, [u64; 4]); 11] = [
    ("keys", [0, 16, 16, 0]),
    ("dist", [1, 16, 16, 2]),
    ("enc", [2, 16, 16, 0]),
    ("batch", [3, 8, 1, 2]),
    ("tables", [4, 16, 1, 5]),
    ("messages", [5, 8, 1, 2]),
    ("snark", [6, 1, 1, 0]),
    ("decryption", [8, 2, 1, 0]),
    ("refusals", [9, 16, 1, 0]),
    ("whole", [10, 16, 16, 3]),
    ("batches", [11, 8, 1, 5]),
];
/// what the random source gives next
fn next_draw<V: Env>(v: &mut V) -> F<V> {
    F::<V>::rand(&mut v.rng())
}
/// p[0] ran once or twice with other inputs, or any other operation did, or both in either order; then it
/// must give what a copy of the crate that has run nothing gives
fn history<V: Env>(v: &mut V, p: &[u64]) {
    let t = OPS[p[0] as usize].1;
    let n = OPS.len() as u64;
    let pick = v.pick("before", 0, 2 * n);
    let other = (pick % n) as usize;
    let before = if pick == 2 * n { [0, 1] } else if pick < n { [0, 2] } else { [2, 0] };
    for k in before {
        if k == 2 {
            let s = OPS[other].1;
            let i = inputs_named(v, &s, "other_");
            ops_of::<V>(s[0]).0(v, &i);
        } else {
            let i = inputs_named(v, &t, &format!("own{k}_"));
            ops_of::<V>(t[0]).0(v, &i);
        }
    }
    let i = inputs(v, &t);
    let (par, seq) = ops_of::<V>(t[0]);
    let mark = v.mark();
    let fresh = seq(v, &i);
    let next = next_draw::<V>(v);
    v.rewind(mark);
    let o = par(v, &i);
    same(v, "after other calls", &o, &fresh);
    let n = next_draw::<V>(v);
    v.eq_f("as much randomness drawn", n, next);
    v.that("something is compared", !o.0.is_empty());
}

pub fn reg(v: &mut Vec<H>) {
    for (k, (n, s)) in OPS.iter().enumerate() {
        harness!(v, "C31", format!("history_{n}"), quick, history, [k as u64], "every public function: see the operations of C24",
            format!("all inputs and randomness of three calls; chunk size {}, {} bases, before it one call of the same operation and one of any operation, in either order, or two of the same", s[1], s[2]));
    }
    const B: &str = "all inputs and randomness; sequential build, and parallel build with 1/2/4/16-way splitting, the order of the first joins free, later ones in order, reversed or alternating, second closures stolen or not";
    let k = |b: u64| nchunks(b) as u64;
    harness!(v, "C24", "keys_b16", quick, sched3, [0, 16, k(16), 0], "keygen, PreparedEncryptionKey/PreparedDecryptionKey::from, pairing_powers", B);
    harness!(v, "C24", "dist_b16", quick, sched3, [1, 16, k(16), 2], "FkeygenPartial, combineEKs, genP1share, combineP1share, keygenFinal, Fkeygen_dest, re_encrypt_share", B);
    harness!(v, "C24", "enc_b16", quick, sched1, [2, 16, k(16), 0], "encrypt_decomposed_message, verify_ciphertext_commitment, decrypt_to_chunks, decrypt_to_chunks_given_pairing_powers", B);
    harness!(v, "C24", "batch", quick, sched3, [3, 8, 2, 3], "verify_commitments_in_batch, verify_commitment, add_cts", B);
    harness!(v, "C24", "batch5", quick, sched3, [11, 8, 1, 5], "verify_commitments_in_batch", B);
    harness!(v, "C24", "tables", quick, sched3, [4, 16, 1, 5], "WindowTable, multiply_field_elems_with_same_group_elem, ChunkedCommitment::commitment_key", B);
    for b in [4u64, 8, 16] {
        harness!(v, "C24", format!("messages_b{b}"), quick, sched1, [5, b, 1, 4], "decompose, compose, ChunkedCommitment::new", B);
    }
    harness!(v, "C24", "snark", quick, sched1, [6, 2, 2, 0], "generate_srs, create_proof, verify_proof", B);
    harness!(v, "C24", "join_macro", quick, sched3, [7, 8, 1, 3], "join!, unnest_tuple!", B);
    for n in 1..=2u64 {
        for (k, w) in ["decryption", "tables", "destination"].iter().enumerate() {
            harness!(v, "C24", format!("arbitrary_{w}_n{n}"), quick, sched1, [8, 2, n, k as u64], "decrypt_to_chunks, decrypt_to_chunks_given_pairing_powers, decrypt_to_chunks_after_re_encryption", B);
        }
    }
    harness!(v, "C24", "wrong", quick, sched3, [9, 16, 1, 0], "refusals of batches, encryption, keys, key generation", B);
    for b in [16u64, 8] {
        harness!(v, "C24", format!("whole_b{b}"), quick, sched3, [10, b, k(b), 3], "encrypt, encrypt_given_snark_vk, add_cts, combine_re_encrypt_share, combine_ct_with_w, calculate_d, EncryptionGens::new_using_rng", B);
    }
    harness!(v, "C24", "lists_70", quick, sched3, [10, 16, k(16), 70], "add_cts, combine_re_encrypt_share, combine_ct_with_w", B);
    harness!(v, "C24", "batch_70", quick, sched3, [11, 8, 1, 70], "verify_commitments_in_batch", B);
    harness!(v, "C24", "keys_b8", thorough, sched3, [0, 8, k(8), 0], "keygen, prepared keys, pairing_powers", B, 4, 900);
    harness!(v, "C24", "keys_b4", thorough, sched1, [0, 4, k(4), 0], "keygen, prepared keys, pairing_powers", B, 4, 900);
    harness!(v, "C24", "dist_b8_p3", thorough, sched3, [1, 8, k(8), 3], "distributed key generation", B, 4, 900);
    harness!(v, "C24", "enc_b8", thorough, sched1, [2, 8, k(8), 0], "encryption and decryption", B, 4, 900);
    harness!(v, "C24", "batch_4x4", thorough, sched3, [3, 8, 4, 4], "verify_commitments_in_batch", B, 4, 900);
    harness!(v, "C24", "tables_40", thorough, sched3, [4, 16, 1, 40], "WindowTable", B, 4, 900);
    harness!(v, "C24", "snark_b4_n4", thorough, sched1, [6, 4, 4, 0], "generate_srs, create_proof, verify_proof", B, 4, 900);
}
