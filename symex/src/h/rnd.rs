//! C22: the secrets an operation draws take every value, independently of each other and of what the
//! source gave before.  Two questions: does the operation consume as many full-range draws as it has
//! secrets, and is there a relation, with known coefficients, between what it makes out of them.
use super::enc::{any_ek, any_gens, any_st, chunks, gs};
use super::groth::snark;
use super::keys::{base, nchunks};
use crate::env::*;
use crate::{harness, H};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, Zero};
use dist_saver::circuit::BitsizeCheckCircuit;
use dist_saver::encryption::Encryption;
use dist_saver::keygen::*;
use dist_saver::saver_groth16::{create_proof, generate_srs};
use dist_saver::setup::{setup_for_groth16, ChunkedCommitmentGens, EncryptionGens};

/// run `f`, which makes `secrets` independent secrets
fn drawing<V: Env, T>(v: &mut V, what: &str, secrets: usize, f: impl FnOnce(&mut V) -> T) -> T {
    let before = v.drawn();
    let r = f(v);
    let n = v.drawn() - before;
    v.that(&format!("{what}: every secret is drawn from its whole range"), n >= 32 * secrets as u64);
    r
}
/// no combination of the values with known coefficients is known to vanish
fn unrelated<V: Env>(v: &mut V, what: &str, of: &[(String, GT<V>)]) {
    let mut sum = GT::<V>::zero();
    let mut co = vec![];
    for (i, (l, x)) in of.iter().enumerate() {
        let c = v.fresh(&format!("rel_{}_{i}", what.replace(' ', "_")));
        sum += *x * c;
        co.push((l, c));
    }
    if !v.vanish_gt(sum) {
        return;
    }
    for (l, c) in co {
        v.zero_f(&format!("{what}: a relation between values drawn independently involves {l}"), c);
    }
}

fn enc_full<V: Env>(v: &mut V, p: &[u64]) {
    let n = p[0] as usize;
    let mut ek = any_ek(v, n);
    ek.X_0 = v.gen_g1("X0");
    let g = gs(v, n);
    let m = chunks(v, n, u16::MAX, "m");
    let h = v.gen_g2("H");
    let mut rng = v.rng();
    let mut of = vec![("1".to_string(), pair::<V>(ek.X_0, h))];
    for k in 0..3 {
        let r = drawing(v, "encryption", 1, |_| Encryption::<V::E>::encrypt_decomposed_message(&mut rng, m.clone(), &ek, &g));
        let (c, _) = v.ok("encrypt", r);
        of.push((format!("the randomness of encryption {k}"), pair::<V>(c[0], h)));
    }
    unrelated(v, "encryption", &of);
}
fn message_full<V: Env>(v: &mut V, p: &[u64]) {
    let (b, which) = (p[0], p[1]);
    let n = nchunks(b);
    let mut ek = any_ek(v, n);
    ek.X_0 = v.gen_g1("X0");
    let g = gs(v, n);
    let h = v.gen_g2("H");
    let mut abc = vec![v.any_g1("abc")];
    abc.extend(g.iter().cloned());
    let vk = ark_groth16::VerifyingKey::<V::E> { alpha_g1: abc[0], beta_g2: h, gamma_g2: h, delta_g2: h, gamma_abc_g1: abc };
    let m = v.lit(0x1234_5678_9abc_def1);
    let mut rng = v.rng();
    let mut of = vec![("1".to_string(), pair::<V>(ek.X_0, h))];
    for k in 0..2 {
        let r = drawing(v, "encryption", 1, |_| {
            if which == 0 {
                Encryption::<V::E>::encrypt(&mut rng, &m, &ek, &g, b as u8)
            } else {
                Encryption::<V::E>::encrypt_given_snark_vk(&mut rng, &m, &ek, &vk, b as u8)
            }
        });
        let (c, _) = v.ok("encrypt", r);
        of.push((format!("the randomness of encryption {k}"), pair::<V>(c.X_r, h)));
    }
    unrelated(v, "encryption", &of);
}
fn share_full<V: Env>(v: &mut V, p: &[u64]) {
    let n = p[0] as usize;
    let gens = any_gens(v);
    let c0 = v.any_g1("c0");
    let c: Vec<_> = (0..n).map(|i| v.any_g1(&format!("c{}", i + 1))).collect();
    let mut rng = v.rng();
    let pair_ = drawing(v, "destination key", 1, |_| Fkeygen_dest::<_, V::E>(&mut rng, &gens));
    let (sk, dest) = v.ok("Fkeygen_dest", pair_);
    let other = drawing(v, "destination key", 1, |_| Fkeygen_dest::<_, V::E>(&mut rng, &gens));
    let (sk2, _) = v.ok("Fkeygen_dest", other);
    let one = pair::<V>(gens.G, gens.H);
    let mut of = vec![("1".to_string(), one), ("the destination's secret".to_string(), one * sk.0), ("another destination's secret".to_string(), one * sk2.0)];
    let st = any_st(v, n);
    for k in 0..3 {
        let r = drawing(v, "share", 1, |_| Encryption::<V::E>::re_encrypt_share(&mut rng, &gens, &c0, &c, &dest, &st));
        let (_, g) = v.ok("share", r);
        of.push((format!("the randomness of share {k}"), pair::<V>(g, gens.H)));
    }
    unrelated(v, "re-encryption", &of);
}
fn keygen_full<V: Env>(v: &mut V, p: &[u64]) {
    let bits = p[0];
    let n = nchunks(bits);
    let b = base(v, n);
    let mut rng = v.rng();
    let one = pair::<V>(b.delta_g, b.gens.H);
    let mut of = vec![("1".to_string(), one)];
    let mut keys = vec![];
    for k in 0..2 {
        let r = drawing(v, "key generation", 3 * n + 2, |_| keygen::<_, V::E>(&mut rng, bits as u8, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g));
        let (sk, ek, dk) = v.ok("keygen", r);
        of.push((format!("the secret key of run {k}"), one * sk.0));
        for i in 0..n {
            of.push((format!("s_{i} of run {k}"), pair::<V>(ek.X[i], b.gens.H)));
        }
        for i in 0..=n {
            of.push((format!("t_{i} of run {k}"), pair::<V>(b.delta_g, ek.Z[i])));
        }
        keys.push((sk, ek, dk));
    }
    unrelated(v, "key generation", &of);
    // v_i stands next to the secret key wherever it is published
    let mut of = vec![];
    for (k, (sk, ek, dk)) in keys.iter().enumerate() {
        of.push((format!("the secret key of run {k}"), one * sk.0));
        for i in 0..n {
            of.push((format!("s_{i} of run {k}, times its secret key"), pair::<V>(ek.X[i], dk.V_0)));
            of.push((format!("v_{i} of run {k}, times its secret key"), pair::<V>(b.delta_g, dk.V_2[i])));
        }
        for i in 0..=n {
            of.push((format!("t_{i} of run {k}, times its secret key"), pair::<V>(b.delta_g, ek.Z[i]) * sk.0));
        }
    }
    unrelated(v, "decryption keys", &of);
}
fn partial_full<V: Env>(v: &mut V, p: &[u64]) {
    let bits = p[0];
    let n = nchunks(bits);
    let b = base(v, n);
    let mut rng = v.rng();
    let one = pair::<V>(b.gens.G, b.gens.H);
    let mut of = vec![("1".to_string(), one)];
    for k in 0..3 {
        let r = drawing(v, "partial key generation", 2 * n + 1, |_| FkeygenPartial::<_, V::E>(&mut rng, bits as u8, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g));
        let (sk, _) = v.ok("FkeygenPartial", r);
        for i in 0..sk.s.len() {
            of.push((format!("s_{i} of authority {k}"), one * sk.s[i]));
        }
        for i in 0..sk.t.len() {
            of.push((format!("t_{i} of authority {k}"), one * sk.t[i]));
        }
    }
    unrelated(v, "authorities", &of);
}
fn proof_full<V: Env>(v: &mut V, p: &[u64]) {
    let (cb, kb) = (p[0] as u8, p[1]);
    let n = nchunks(kb);
    let mut s = snark(v, cb, n);
    let r = keygen::<_, V::E>(&mut s.rng, kb as u8, &s.b.gens, &s.b.g_i, &s.b.delta_g, &s.b.gamma_g);
    let ek = v.ok("keygen", r).1;
    let r = v.fresh_nz("r");
    let ones: Vec<F<V>> = (0..n).map(|_| F::<V>::one()).collect();
    let (g, h) = (s.b.gens.G, s.b.gens.H);
    let mut of = vec![("delta".to_string(), pair::<V>(s.b.delta_g, h))];
    let mut first = None;
    for k in 0..3 {
        let rng = &mut s.rng;
        let (pk, ek, ones) = (&s.pk, &ek, ones.clone());
        let r = drawing(v, "proof", 2, |_| create_proof(BitsizeCheckCircuit::new(cb, Some(n as u8), Some(ones), true), &r, pk, ek, rng));
        let x = v.ok("create_proof", r);
        let (a, b) = (pair::<V>(x.a, h), pair::<V>(g, x.b));
        match first {
            None => first = Some((a, b)),
            Some((a0, b0)) => {
                of.push((format!("A of proof {k}"), a - a0));
                of.push((format!("B of proof {k}"), b - b0));
            }
        }
    }
    unrelated(v, "proofs", &of);
}
fn setup_full<V: Env>(v: &mut V, p: &[u64]) {
    let which = p[0];
    v.enumerate_small(true);
    v.pin_powers();
    let gens = any_gens(v);
    let h = gens.H;
    let mut of = vec![("1".to_string(), pair::<V>(gens.G, h))];
    let mut rng = v.rng();
    for k in 0..2 {
        let pk = if which == 0 {
            let r = drawing(v, "set-up", 5, |_| generate_srs::<V::E, _, _>(BitsizeCheckCircuit::new(4, Some(2), None, true), &gens, &mut rng));
            v.ok("generate_srs", r)
        } else {
            let n = nchunks(which);
            let r = drawing(v, "set-up", 5 + 3 * n + 2, |_| setup_for_groth16::<V::E, _>(&mut rng, which as u8, &gens));
            v.ok("setup_for_groth16", r).0
        };
        for (l, x) in [("alpha", pk.pk.vk.alpha_g1), ("beta", pk.pk.beta_g1), ("gamma", pk.gamma_g1), ("delta", pk.pk.delta_g1)] {
            of.push((format!("{l} of set-up {k}"), pair::<V>(x, h)));
        }
    }
    unrelated(v, "set-up", &of);
}
fn gens_full<V: Env>(v: &mut V, _p: &[u64]) {
    let mut rng = v.rng();
    let (g, h) = (A1::<V>::generator(), A2::<V>::generator());
    let mut of = vec![("1".to_string(), pair::<V>(g, h))];
    for k in 0..3 {
        let e = drawing(v, "generators", 2, |_| EncryptionGens::<V::E>::new_using_rng(&mut rng));
        of.push((format!("G of run {k}"), pair::<V>(e.G, h)));
        of.push((format!("H of run {k}"), pair::<V>(g, e.H)));
        let e = drawing(v, "commitment generators", 2, |_| ChunkedCommitmentGens::<A1<V>>::new_using_rng(&mut rng));
        of.push((format!("commitment G of run {k}"), pair::<V>(e.G, h)));
        of.push((format!("commitment H of run {k}"), pair::<V>(e.H, h)));
    }
    unrelated(v, "generators", &of);
}

pub fn reg(v: &mut Vec<H>) {
    const FULL: &str = "draws of the whole range, and no known relation between what is made of them";
    for n in [1u64, 2, 4, 16, 32] {
        harness!(v, "C22", format!("enc_full_n{n}"), quick, enc_full, [n], "encryption::Encryption::encrypt_decomposed_message", format!("{n} chunks, three encryptions, {FULL}"));
        harness!(v, "C22", format!("share_full_n{n}"), quick, share_full, [n], "encryption::Encryption::re_encrypt_share, keygen::Fkeygen_dest", format!("{n} chunks, two destinations, three shares, {FULL}"));
    }
    for (b, which) in [(16u64, 0u64), (8, 1)] {
        harness!(v, "C22", format!("{}_full_b{b}", ["encrypt", "encrypt_given_vk"][which as usize]), quick, message_full, [b, which], "encryption::Encryption::{encrypt, encrypt_given_snark_vk}", format!("chunk size {b}, two encryptions, {FULL}"));
    }
    for b in [255u64, 128, 85, 32, 16, 8] {
        harness!(v, "C22", format!("keygen_full_b{b}"), quick, keygen_full, [b], "keygen::keygen", format!("n = {}, two runs, {FULL}", nchunks(b)));
        harness!(v, "C22", format!("partial_full_b{b}"), quick, partial_full, [b], "keygen::FkeygenPartial", format!("n = {}, three authorities, {FULL}", nchunks(b)));
    }
    for (cb, kb) in [(4u64, 128u64), (1, 255)] {
        harness!(v, "C22", format!("proof_full_n{}", nchunks(kb)), quick, proof_full, [cb, kb], "saver_groth16::create_proof", format!("three proofs of one statement, n = {}, {FULL}", nchunks(kb)), 2, 300);
    }
    harness!(v, "C22", "srs_full", quick, setup_full, [0], "saver_groth16::generate_srs", format!("two set-ups, {FULL}"), 2, 300);
    harness!(v, "C22", "setup_full_b16", quick, setup_full, [16], "setup::setup_for_groth16", format!("two set-ups, chunk size 16, {FULL}"), 1, 300);
    harness!(v, "C22", "gens_full", quick, gens_full, [0], "setup::{EncryptionGens, ChunkedCommitmentGens}::new_using_rng", format!("three runs, {FULL}"));
}
