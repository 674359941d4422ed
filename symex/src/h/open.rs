//! C29 a decryption can be checked by anyone; C30 ciphertexts and commitments open in one way only.
use super::enc::*;
use super::keys::*;
use super::sec::*;
use crate::env::*;
use crate::{harness, H};
use ark_ec::AffineRepr;
use ark_ff::Zero;
use dist_saver::commitment::ChunkedCommitment;
use dist_saver::encryption::Encryption;
use dist_saver::keygen::*;
use dist_saver::setup::ChunkedCommitmentGens;

// ------------------------------------------------------------------ C29
/// e(nu, H) = e(c_0, V_0) and e(c_i, V_2i) = m_i e(g_i, V_2i) + e(nu, V_1i): the residuals of what a
/// third party checks
fn checks<V: Env>(b: &Base<V>, dk: &DecryptionKey<V::E>, ct: &[A1<V>], ms: &[u16], nu: A1<V>) -> Vec<GT<V>> {
    let mut r = vec![pair::<V>(nu, b.gens.H) - pair::<V>(ct[0], dk.V_0)];
    for (i, m) in ms.iter().enumerate() {
        r.push(pair::<V>(ct[i + 1], dk.V_2[i]) - pair::<V>(nu, dk.V_1[i]) - pair::<V>(mul1::<V>(b.g_i[i], f_of::<V>(*m)), dk.V_2[i]));
    }
    r
}
/// p[2]: 0 an arbitrary ciphertext, 1 an honest one, 2 a sum of two honest ones;
/// whatever decryption returns passes the check
fn verifiable<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, cb, kind, powers) = (p[0], p[1] as u8, p[2], p[3] == 1);
    let n = nchunks(kb);
    let mut k = keys(v, kb);
    let g = k.b.g_i.clone();
    let ct: Vec<A1<V>> = match kind {
        0 => (0..n + 2).map(|i| v.any_g1(&format!("c{i}"))).collect(),
        1 => {
            let m = chunks(v, n, (1 << cb) - 1, "m");
            let r = Encryption::<V::E>::encrypt_decomposed_message(&mut k.rng, m, &k.ek, &g);
            v.ok("encrypt", r).0
        }
        _ => {
            let m = chunks(v, n, (1 << (cb - 1)) - 1, "m");
            let r = Encryption::<V::E>::encrypt_decomposed_message(&mut k.rng, m, &k.ek, &g);
            let a = v.ok("encrypt", r).0;
            let r = Encryption::<V::E>::encrypt_decomposed_message(&mut k.rng, vec![(1 << (cb - 1)) - 1; n], &k.ek, &g);
            let b = v.ok("encrypt", r).0;
            let r = Encryption::<V::E>::add_cts(&a, &b);
            v.ok("add", r)
        }
    };
    let r = if powers {
        let pw = v.ok("powers", k.dk.pairing_powers(cb, &g));
        Encryption::<V::E>::decrypt_to_chunks_given_pairing_powers(&ct[0], &ct[1..=n], &k.sk, k.dk.clone(), &g, cb, Some(&pw))
    } else {
        Encryption::<V::E>::decrypt_to_chunks(&ct[0], &ct[1..=n], &k.sk, k.dk.clone(), &g, cb)
    };
    let Ok((ms, nu)) = r else {
        v.that("an honest ciphertext decrypts", kind == 0);
        return;
    };
    v.that("one value per chunk", ms.len() == n);
    for (i, r) in checks::<V>(&k.b, &k.dk, &ct, &ms, nu).into_iter().enumerate() {
        v.zero_gt(&format!("what decryption returned passes equation {i} of the public check"), r);
    }
}
/// and nothing else passes it: for a ciphertext of known chunks, any other claim fails the check
fn only_claim<V: Env>(v: &mut V, p: &[u64]) {
    let n = nchunks(p[0]);
    let mut k = keys(v, p[0]);
    let g = k.b.g_i.clone();
    let m = chunks(v, n, u16::MAX, "m");
    let r = Encryption::<V::E>::encrypt_decomposed_message(&mut k.rng, m.clone(), &k.ek, &g);
    let (ct, r) = v.ok("encrypt", r);
    let claim = chunks(v, n, u16::MAX, "claim");
    let nu = v.any_g1("claimed_nu");
    for r in checks::<V>(&k.b, &k.dk, &ct, &claim, nu) {
        if !v.gt_is_one(r) {
            return;
        }
    }
    let want = mul1::<V>(mul1::<V>(k.ek.X_0, r), k.sk.0);
    v.eq_g1("an accepted nu is the right one", nu, want);
    for i in 0..n {
        v.eq_f(&format!("an accepted chunk {i} is the encrypted one"), f_of::<V>(claim[i]), f_of::<V>(m[i]));
    }
}

// ------------------------------------------------------------------ C30
/// two encryptions that give the same elements have the same chunks and randomness
fn one_opening<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, parties) = (p[0], p[1] as usize);
    let n = nchunks(kb);
    let (b, ek, mut rng);
    if parties == 0 {
        let k = keys(v, kb);
        (b, ek, rng) = (k.b, k.ek, k.rng);
    } else {
        let bb = base(v, n);
        let mut r = v.rng();
        let d = dist_with(v, &bb, kb as u8, parties, &mut r);
        (b, ek, rng) = (bb, d.ek, r);
    }
    let (m1, m2) = (chunks(v, n, u16::MAX, "m"), chunks(v, n, u16::MAX, "other"));
    let r = Encryption::<V::E>::encrypt_decomposed_message(&mut rng, m1.clone(), &ek, &b.g_i);
    let (c1, r1) = v.ok("encrypt", r);
    let r = Encryption::<V::E>::encrypt_decomposed_message(&mut rng, m2.clone(), &ek, &b.g_i);
    let (c2, r2) = v.ok("encrypt", r);
    // the commitment adds nothing: c_0 and the chunks are enough
    if (0..=n).any(|i| c1[i] != c2[i]) {
        return;
    }
    v.eq_f("same randomness", r1, r2);
    for i in 0..n {
        v.eq_f(&format!("same chunk {i}"), f_of::<V>(m1[i]), f_of::<V>(m2[i]));
    }
    v.eq_g1("same commitment", c1[n + 1], c2[n + 1]);
}
/// no relation between the elements of a key's commitment key can be known, even to all authorities but one
fn binding<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, parties, bad) = (p[0], p[1] as usize, p[2] as usize);
    let n = nchunks(kb);
    let ek = if parties == 0 {
        keys(v, kb).ek
    } else {
        joint(v, kb, parties, bad).d.ek
    };
    let ck = ek.commitment_key();
    v.that("one element per chunk and one for the randomness", ck.len() == n + 1);
    let (diff, co) = any_comb(v, "difference", &ck);
    let one = diff.is_zero();
    if !one || !v.vanish_path() {
        return;
    }
    for (i, c) in co.iter().enumerate() {
        v.zero_f(&format!("two openings of one commitment agree in value {i}"), *c);
    }
}
/// the chunked commitment: two openings give the same message and blinding
fn chunked<V: Env>(v: &mut V, p: &[u64]) {
    let b = p[0] as u8;
    let g = ChunkedCommitmentGens { G: v.gen_g1("G"), H: v.gen_g1("H") };
    let ck = ChunkedCommitment::<A1<V>>::commitment_key(&g, b);
    let (diff, co) = any_comb(v, "difference", &ck);
    let one = diff.is_zero();
    if !one || !v.vanish_path() {
        return;
    }
    let n = co.len() - 1;
    v.zero_f("two openings of one commitment have the same blinding", co[n]);
    let radix = v.lit(1 << b);
    let mut m = F::<V>::zero();
    for c in &co[..n] {
        m = m * radix + *c;
    }
    v.zero_f("two openings of one commitment have the same message", m);
    // no chunk is left uncommitted
    for (i, e) in ck.iter().enumerate() {
        v.nonzero_g1(&format!("commitment key element {i}"), *e);
    }
}

pub fn reg(v: &mut Vec<H>) {
    const DF: &str = "encryption::Encryption::{decrypt_to_chunks, decrypt_to_chunks_given_pairing_powers, encrypt_decomposed_message, add_cts}, keygen::keygen";
    for (kb, cb, kind, pw) in [
        (255u64, 4u64, 0u64, 0u64), (255, 4, 0, 1), (255, 8, 0, 0), (255, 1, 0, 0), (255, 3, 0, 1), (128, 2, 0, 0), (128, 2, 0, 1), (128, 3, 0, 0), (85, 1, 0, 0), (85, 1, 0, 1), (85, 2, 0, 0),
        (255, 4, 1, 0), (255, 8, 1, 1), (128, 3, 1, 0), (128, 3, 1, 1), (85, 2, 1, 0), (64, 1, 1, 0), (255, 5, 2, 0), (128, 3, 2, 0), (128, 3, 2, 1), (85, 2, 2, 0),
    ] {
        let n = nchunks(kb);
        harness!(v, "C29", format!("verifiable_n{n}_b{cb}_{}{}", ["arbitrary", "honest", "sum"][kind as usize], if pw == 1 { "_powers" } else { "" }), quick, verifiable, [kb, cb, kind, pw], DF,
            format!("n = {n} chunks, chunk size {cb}, all secrets, randomness{}", if kind == 0 { ", arbitrary ciphertext elements" } else { ", chunks in range" }));
    }
    for kb in [255u64, 128, 85, 64, 43, 32, 16, 8, 4] {
        let n = nchunks(kb);
        harness!(v, "C29", format!("only_claim_n{n}"), quick, only_claim, [kb], DF, format!("n = {n} chunks, arbitrary chunks, claimed chunks (all u16) and claimed nu"));
        for parties in [0u64, 1, 2, 3] {
            harness!(v, "C30", format!("ciphertext_n{n}_N{parties}"), quick, one_opening, [kb, parties], "encryption::Encryption::encrypt_decomposed_message, keygen::*",
                format!("n = {n} chunks (all u16), {parties} authorities (0: one key)"));
            for bad in 0..parties.max(1) {
                harness!(v, "C30", format!("commitment_n{n}_N{parties}_known{bad}"), quick, binding, [kb, parties, bad], "keygen::*, EncryptionKey::commitment_key",
                    format!("n = {n} chunks, {parties} authorities of which {bad} collude, every known combination"));
            }
        }
    }
    for b in 1..=16u64 {
        harness!(v, "C30", format!("chunked_b{b}"), quick, chunked, [b], "commitment::ChunkedCommitment::commitment_key", format!("chunk size {b}, every known combination"));
    }
}
