//! C25 entry points that promise the same thing agree on every input, honest or not; C26 a dropped
//! secret key leaves nothing behind.
use super::enc::*;
use super::groth::vk_with;
use super::keys::nchunks;
use crate::env::*;
use crate::{harness, H};
use ark_ec::pairing::PairingOutput;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{PrimeField, Zero};
use dist_saver::circuit::BitsizeCheckCircuit;
use dist_saver::commitment::ChunkedCommitment;
use dist_saver::encryption::{Ciphertext, Encryption};
use dist_saver::error::SaverError;
use dist_saver::keygen::*;
use dist_saver::saver_groth16::*;
use dist_saver::setup::{setup_for_groth16, ChunkedCommitmentGens, EncryptionGens, PreparedEncryptionGens};
use dist_saver::utils::{compose, decompose, multiply_field_elems_with_same_group_elem, WindowTable};

type Res<T> = Result<T, SaverError>;

/// both succeed or both fail in the same way; the values are compared by `eq`
fn agree<V: Env, T>(v: &mut V, label: &str, a: &Res<T>, b: &Res<T>, eq: impl Fn(&mut V, &str, &T, &T)) {
    match (a, b) {
        (Ok(x), Ok(y)) => eq(v, label, x, y),
        (Err(x), Err(y)) => v.that(
            &format!("{label}: same kind of error"),
            std::mem::discriminant(x) == std::mem::discriminant(y),
        ),
        (Ok(_), Err(e)) => v.fail(&format!("{label}: both succeed or both fail"), &format!("only the first succeeds, the second: {e:?}")),
        (Err(e), Ok(_)) => v.fail(&format!("{label}: both succeed or both fail"), &format!("only the second succeeds, the first: {e:?}")),
    }
}
fn same_open<V: Env>(v: &mut V, l: &str, x: &(F<V>, A1<V>), y: &(F<V>, A1<V>)) {
    v.eq_f(&format!("{l}: same message"), x.0, y.0);
    v.eq_g1(&format!("{l}: same nu"), x.1, y.1);
}
fn same_chunks<V: Env>(v: &mut V, l: &str, x: &(Vec<u16>, A1<V>), y: &(Vec<u16>, A1<V>)) {
    v.that(&format!("{l}: same chunks"), x.0 == y.0);
    v.eq_g1(&format!("{l}: same nu"), x.1, y.1);
}
fn same_unit<V: Env>(_: &mut V, _: &str, _: &(), _: &()) {}
fn same_g1s<V: Env>(v: &mut V, l: &str, x: &[A1<V>], y: &[A1<V>]) {
    v.that(&format!("{l}: same length"), x.len() == y.len());
    for (x, y) in x.iter().zip(y) {
        v.eq_g1(l, *x, *y);
    }
}
fn same_g2s<V: Env>(v: &mut V, l: &str, x: &[A2<V>], y: &[A2<V>]) {
    v.that(&format!("{l}: same length"), x.len() == y.len());
    for (x, y) in x.iter().zip(y) {
        v.eq_g2(l, *x, *y);
    }
}
fn same_ct<V: Env>(v: &mut V, l: &str, x: &(Ciphertext<V::E>, F<V>), y: &(Ciphertext<V::E>, F<V>)) {
    v.eq_g1(&format!("{l}: X_r"), x.0.X_r, y.0.X_r);
    same_g1s(v, &format!("{l}: chunks"), &x.0.enc_chunks, &y.0.enc_chunks);
    v.eq_g1(&format!("{l}: commitment"), x.0.commitment, y.0.commitment);
    v.eq_f(&format!("{l}: randomness"), x.1, y.1);
}
fn same_tables<V: Env>(v: &mut V, l: &str, x: &Vec<Vec<GT<V>>>, y: &Vec<Vec<GT<V>>>) {
    v.that(&format!("{l}: same shape"), x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.len() == b.len()));
    for (a, b) in x.iter().zip(y) {
        for (a, b) in a.iter().zip(b) {
            v.eq_gt(l, *a, *b);
        }
    }
}
fn any_ct<V: Env>(v: &mut V, n: usize) -> Ciphertext<V::E> {
    Ciphertext {
        X_r: v.any_g1("X_r"),
        enc_chunks: (0..n).map(|i| v.any_g1(&format!("c{i}"))).collect(),
        commitment: v.any_g1("psi"),
    }
}

/// every way to decrypt, on arbitrary ciphertext, keys and bases of any small shape
fn decrypts<V: Env>(v: &mut V, p: &[u64]) {
    let (n, nc, ng, cb, skew) = (p[0] as usize, p[1] as usize, p[2] as usize, p[3] as u8, p[4]);
    let dk = DecryptionKey::<V::E> {
        V_0: v.any_g2("V0"),
        V_1: (0..n + (skew == 1) as usize).map(|i| v.any_g2(&format!("V1_{i}"))).collect(),
        V_2: (0..n + 2 * (skew == 2) as usize).map(|i| v.any_g2(&format!("V2_{i}"))).collect(),
    };
    let sk = SecretKey(v.fresh("sk"));
    let c = any_ct(v, nc);
    let g: Vec<A1<V>> = (0..ng).map(|i| v.any_g1(&format!("g{i}"))).collect();
    let mut abc = vec![v.any_g1("abc0")];
    abc.extend(g.iter().cloned());
    let vk = vk_with::<V>(v, abc);
    let pdk = PreparedDecryptionKey::from(dk.clone());
    let (x, e) = (&c.X_r, &c.enc_chunks[..]);

    let ch = Encryption::decrypt_to_chunks(x, e, &sk, dk.clone(), &g, cb);
    let ch2 = Encryption::decrypt_to_chunks(x, e, &sk, pdk.clone(), &g, cb);
    agree(v, "decrypt_to_chunks with the prepared key", &ch, &ch2, same_chunks);
    let ch2 = Encryption::decrypt_to_chunks_given_pairing_powers(x, e, &sk, dk.clone(), &g, cb, None);
    agree(v, "decrypt_to_chunks_given_pairing_powers without any", &ch, &ch2, same_chunks);
    let want: Res<(F<V>, A1<V>)> = match &ch {
        Ok((m, nu)) => compose::<F<V>>(m, cb).map(|m| (m, *nu)),
        Err(e) => Err(e.clone()),
    };
    let r = Encryption::decrypt(x, e, &sk, dk.clone(), &g, cb);
    agree(v, "decrypt", &want, &r, same_open);
    let r = Encryption::decrypt(x, e, &sk, pdk.clone(), &g, cb);
    agree(v, "decrypt with the prepared key", &want, &r, same_open);
    let r = Encryption::decrypt_given_groth16_vk(x, e, &sk, dk.clone(), &vk, cb);
    agree(v, "decrypt_given_groth16_vk", &want, &r, same_open);
    let r = c.decrypt(&sk, dk.clone(), &g, cb);
    agree(v, "Ciphertext::decrypt", &want, &r, same_open);
    let r = c.decrypt_given_groth16_vk(&sk, pdk.clone(), &vk, cb);
    agree(v, "Ciphertext::decrypt_given_groth16_vk", &want, &r, same_open);

    let pw = dk.pairing_powers(cb, &g);
    let pw2 = pdk.pairing_powers(cb, &g);
    agree(v, "pairing powers of the prepared key", &pw, &pw2, same_tables);
    let pw2 = dk.pairing_powers_given_groth16_vk(cb, &vk);
    agree(v, "pairing_powers_given_groth16_vk", &pw, &pw2, same_tables);
    let pw2 = pdk.pairing_powers_given_groth16_vk(cb, &vk);
    agree(v, "pairing_powers_given_groth16_vk of the prepared key", &pw, &pw2, same_tables);
    if let Ok(pw) = pw {
        let r = Encryption::decrypt_to_chunks_given_pairing_powers(x, e, &sk, pdk.clone(), &g, cb, Some(&pw));
        agree(v, "decrypt_to_chunks_given_pairing_powers", &ch, &r, same_chunks);
        let r = Encryption::decrypt_given_pairing_powers(x, e, &sk, dk.clone(), &g, cb, &pw);
        agree(v, "decrypt_given_pairing_powers", &want, &r, same_open);
        let r = Encryption::decrypt_given_groth16_vk_and_pairing_powers(x, e, &sk, pdk.clone(), &vk, cb, &pw);
        agree(v, "decrypt_given_groth16_vk_and_pairing_powers", &want, &r, same_open);
        let r = c.decrypt_given_pairing_powers(&sk, pdk.clone(), &g, cb, &pw);
        agree(v, "Ciphertext::decrypt_given_pairing_powers", &want, &r, same_open);
        let r = c.decrypt_given_groth16_vk_and_pairing_powers(&sk, dk.clone(), &vk, cb, &pw);
        agree(v, "Ciphertext::decrypt_given_groth16_vk_and_pairing_powers", &want, &r, same_open);
    }
}

/// the same tables of pairing powers, right or wrong, complete or not, through every entry point
fn given_tables<V: Env>(v: &mut V, p: &[u64]) {
    let (n, nc, cb, rows) = (p[0] as usize, p[1] as usize, p[2] as u8, &p[3..]);
    let dk = DecryptionKey::<V::E> {
        V_0: v.any_g2("V0"),
        V_1: (0..n).map(|i| v.any_g2(&format!("V1_{i}"))).collect(),
        V_2: (0..n).map(|i| v.any_g2(&format!("V2_{i}"))).collect(),
    };
    let sk = SecretKey(v.fresh("sk"));
    let c = any_ct(v, nc);
    let g: Vec<A1<V>> = (0..n + 1).map(|i| v.any_g1(&format!("g{i}"))).collect();
    let mut abc = vec![v.any_g1("abc0")];
    abc.extend(g.iter().cloned());
    let vk = vk_with::<V>(v, abc);
    let h = v.any_g2("table");
    let mut pw: Vec<Vec<GT<V>>> = vec![];
    for (i, l) in rows.iter().enumerate() {
        pw.push((0..*l).map(|j| pair::<V>(v.any_g1(&format!("p{i}_{j}")), h)).collect());
    }
    let pdk = PreparedDecryptionKey::from(dk.clone());
    let (x, e) = (&c.X_r, &c.enc_chunks[..]);
    let ch = Encryption::decrypt_to_chunks_given_pairing_powers(x, e, &sk, dk.clone(), &g, cb, Some(&pw));
    let r = Encryption::decrypt_to_chunks_given_pairing_powers(x, e, &sk, pdk.clone(), &g, cb, Some(&pw));
    agree(v, "decrypt_to_chunks_given_pairing_powers with the prepared key", &ch, &r, same_chunks);
    let want: Res<(F<V>, A1<V>)> = match &ch {
        Ok((m, nu)) => compose::<F<V>>(m, cb).map(|m| (m, *nu)),
        Err(e) => Err(e.clone()),
    };
    let r = Encryption::decrypt_given_pairing_powers(x, e, &sk, dk.clone(), &g, cb, &pw);
    agree(v, "decrypt_given_pairing_powers", &want, &r, same_open);
    let r = Encryption::decrypt_given_groth16_vk_and_pairing_powers(x, e, &sk, pdk.clone(), &vk, cb, &pw);
    agree(v, "decrypt_given_groth16_vk_and_pairing_powers", &want, &r, same_open);
    let r = c.decrypt_given_pairing_powers(&sk, pdk, &g, cb, &pw);
    agree(v, "Ciphertext::decrypt_given_pairing_powers", &want, &r, same_open);
    let r = c.decrypt_given_groth16_vk_and_pairing_powers(&sk, dk, &vk, cb, &pw);
    agree(v, "Ciphertext::decrypt_given_groth16_vk_and_pairing_powers", &want, &r, same_open);
}

/// encryption of a message: directly, through a verification key, by digits; same draws each time.
/// `n` chunks in the key, `ng` bases
fn encrypts<V: Env>(v: &mut V, p: &[u64]) {
    let (b, n, ng, lo, hi) = (p[0], p[1] as usize, p[2] as usize, p[3] as usize, p[4] as usize);
    let msg = if lo > hi {
        // a fixed message
        message::<V>(hi as u64)
    } else {
        v.message(b, nchunks(b), lo, hi).0
    };
    let ek = any_ek(v, n);
    let g = gs(v, ng);
    let mut abc = vec![v.any_g1("abc0")];
    abc.extend(g.iter().cloned());
    let vk = vk_with::<V>(v, abc);
    let mk = v.mark();
    let mut rng = v.rng();
    let a = Encryption::<V::E>::encrypt(&mut rng, &msg, &ek, &g, b as u8);
    v.rewind(mk.clone());
    let mut rng = v.rng();
    let r = Encryption::<V::E>::encrypt_given_snark_vk(&mut rng, &msg, &ek, &vk, b as u8);
    agree(v, "encrypt_given_snark_vk", &a, &r, same_ct);
    v.rewind(mk);
    let mut rng = v.rng();
    let r = decompose::<F<V>>(&msg, b as u8)
        .and_then(|d| Encryption::<V::E>::encrypt_decomposed_message(&mut rng, d, &ek, &g))
        .map(|(ct, r)| {
            let c = Ciphertext { X_r: ct[0], enc_chunks: ct[1..ct.len() - 1].to_vec(), commitment: ct[ct.len() - 1] };
            (c, r)
        });
    agree(v, "encrypt_decomposed_message of the digits", &a, &r, same_ct);
}

/// encrypt_with_proof = encrypt, then create_proof for the digits, with the same draws; setup_for_groth16 =
/// generate_srs, then keygen
fn with_proofs<V: Env>(v: &mut V, p: &[u64]) {
    let (b, which) = (p[0], p[1]);
    v.enumerate_small(true);
    v.pin_powers();
    let gens = EncryptionGens { G: v.gen_g1("G"), H: v.gen_g2("H") };
    let mk = v.mark();
    let mut rng = v.rng();
    let r = setup_for_groth16::<V::E, _>(&mut rng, b as u8, &gens);
    let (pk, sk, ek, dk) = v.ok("setup_for_groth16", r);
    if p[2] == 1 {
        v.rewind(mk);
        let mut rng = v.rng();
        let circuit = BitsizeCheckCircuit::new(b as u8, None, None, true);
        let pk2 = v.ok("generate_srs", generate_srs::<V::E, _, _>(circuit, &gens, &mut rng));
        let g_i = get_gs_for_encryption(&pk2.pk.vk).to_vec();
        let r = keygen::<_, V::E>(&mut rng, b as u8, &gens, &g_i, &pk2.pk.delta_g1, &pk2.gamma_g1);
        let (sk2, ek2, dk2) = v.ok("keygen", r);
        v.eq_f("secret key", sk.0, sk2.0);
        v.eq_g1("ek X_0", ek.X_0, ek2.X_0);
        same_g1s(v, "ek X", &ek.X, &ek2.X);
        same_g1s(v, "ek Y", &ek.Y, &ek2.Y);
        same_g2s(v, "ek Z", &ek.Z, &ek2.Z);
        v.eq_g1("ek P_1", ek.P_1, ek2.P_1);
        v.eq_g1("ek P_2", ek.P_2, ek2.P_2);
        v.eq_g2("dk V_0", dk.V_0, dk2.V_0);
        same_g2s(v, "dk V_1", &dk.V_1, &dk2.V_1);
        same_g2s(v, "dk V_2", &dk.V_2, &dk2.V_2);
        v.eq_g1("gamma_g1", pk.gamma_g1, pk2.gamma_g1);
        v.eq_g1("beta_g1", pk.pk.beta_g1, pk2.pk.beta_g1);
        v.eq_g1("delta_g1", pk.pk.delta_g1, pk2.pk.delta_g1);
        v.eq_g1("alpha_g1", pk.pk.vk.alpha_g1, pk2.pk.vk.alpha_g1);
        same_g1s(v, "gamma_abc_g1", &pk.pk.vk.gamma_abc_g1, &pk2.pk.vk.gamma_abc_g1);
        same_g2s(v, "vk", &[pk.pk.vk.beta_g2, pk.pk.vk.gamma_g2, pk.pk.vk.delta_g2], &[pk2.pk.vk.beta_g2, pk2.pk.vk.gamma_g2, pk2.pk.vk.delta_g2]);
        return;
    }
    let msg = message::<V>(which);
    let mk = v.mark();
    let mut rng = v.rng();
    let a = Encryption::<V::E>::encrypt_with_proof(&mut rng, &msg, &ek, &pk, b as u8);
    v.rewind(mk);
    let mut rng = v.rng();
    let r = Encryption::<V::E>::encrypt_given_snark_vk(&mut rng, &msg, &ek, &pk.pk.vk, b as u8).and_then(|(c, r)| {
        let d = decompose::<F<V>>(&msg, b as u8)?.into_iter().map(|x| F::<V>::from(x as u64)).collect();
        let pr = create_proof(BitsizeCheckCircuit::new(b as u8, None, Some(d), true), &r, &pk, &ek, &mut rng)?;
        Ok((c, r, pr))
    });
    agree(v, "encrypt_with_proof", &a, &r, |v, l, x, y| {
        same_ct(v, l, &(x.0.clone(), x.1), &(y.0.clone(), y.1));
        v.eq_g1(&format!("{l}: proof.a"), x.2.a, y.2.a);
        v.eq_g2(&format!("{l}: proof.b"), x.2.b, y.2.b);
        v.eq_g1(&format!("{l}: proof.c"), x.2.c, y.2.c);
    });
}

/// verification of a ciphertext's commitment: function, method, prepared, batch of one
fn verifies<V: Env>(v: &mut V, p: &[u64]) {
    let (n, nc, skew) = (p[0] as usize, p[1] as usize, p[2]);
    let mut ek = any_ek(v, n);
    match skew {
        1 => ek.Y.push(v.any_g1("Y_extra")),
        2 => ek.Z.push(v.any_g2("Z_extra")),
        3 => ek.X.push(v.any_g1("X_extra")),
        4 => {
            ek.Z.pop();
        }
        _ => {}
    }
    let gens = any_gens(v);
    let c = any_ct(v, nc);
    let pek = PreparedEncryptionKey::from(ek.clone());
    let pg = PreparedEncryptionGens::from(gens.clone());
    let a = c.verify_commitment(ek.clone(), gens.clone());
    let r = Encryption::verify_ciphertext_commitment(&c.X_r, &c.enc_chunks, &c.commitment, ek.clone(), gens.clone());
    agree(v, "verify_ciphertext_commitment", &a, &r, same_unit);
    let r = c.verify_commitment(pek.clone(), pg.clone());
    agree(v, "prepared key and generators", &a, &r, same_unit);
    let r = Encryption::verify_ciphertext_commitment(&c.X_r, &c.enc_chunks, &c.commitment, ek.clone(), pg.clone());
    agree(v, "prepared generators", &a, &r, same_unit);
    let w = v.fresh_nz("weight");
    let r = Encryption::verify_commitments_in_batch(std::slice::from_ref(&c), &[w], ek.clone(), gens.clone());
    agree(v, "a batch of one with non-zero weight", &a, &r, same_unit);
    let r = Encryption::verify_commitments_in_batch(std::slice::from_ref(&c), &[w], pek.clone(), pg.clone());
    agree(v, "a prepared batch of one with non-zero weight", &a, &r, same_unit);
    // the conditions as group elements, to be checked by whoever has their own pairing
    if let Ok(k) = pek.supported_chunks_count() {
        if k as usize == c.enc_chunks.len() {
            let x = Encryption::<V::E>::get_g1_for_ciphertext_commitment_pairing_checks(&c.X_r, &c.enc_chunks, &c.commitment);
            let one = F::<V>::from(1u64);
            let y = Encryption::<V::E>::get_g1_for_ciphertext_commitments_in_batch_pairing_checks(std::slice::from_ref(&c), &[one]);
            same_g1s(v, "elements of the pairing check, single and in a batch", &x, &y);
            let z = Encryption::<V::E>::get_g2_for_ciphertext_commitment_pairing_checks(&pek, &pg);
            v.that("one G2 element for each G1 element", x.len() == z.len());
            let e = <V::E as ark_ec::pairing::Pairing>::multi_pairing(x, z);
            match &a {
                Ok(()) => v.zero_gt("accepted, so the exported elements pair to the identity", e),
                Err(SaverError::InvalidCommitment) => v.nonzero_gt("rejected, so the exported elements do not", e),
                Err(e) => v.fail("verify_commitment", &format!("unexpected {e:?}")),
            }
        }
    }
    let (ca, cb) = (ek.commitment_key(), pek.commitment_key());
    same_g1s(v, "commitment key of key and prepared key", &ca, &cb);
    agree(v, "size of key and prepared key", &ek.supported_chunks_count(), &pek.supported_chunks_count(), |v, l, x, y| v.that(l, x == y));
    agree(v, "validity of key and prepared key", &ek.validate(), &pek.validate(), same_unit);
}

/// a batch with one ciphertext more than another, weight zero: same verdict; batch of copies
fn batches<V: Env>(v: &mut V, p: &[u64]) {
    let (n, k) = (p[0] as usize, p[1] as usize);
    let ek = any_ek(v, n);
    let gens = any_gens(v);
    let cts: Vec<Ciphertext<V::E>> = (0..k)
        .map(|j| Ciphertext {
            X_r: v.any_g1(&format!("X_r{j}")),
            enc_chunks: (0..n).map(|i| v.any_g1(&format!("c{j}_{i}"))).collect(),
            commitment: v.any_g1(&format!("psi{j}")),
        })
        .collect();
    let w: Vec<F<V>> = (0..k).map(|j| v.fresh(&format!("w{j}"))).collect();
    let a = Encryption::verify_commitments_in_batch(&cts, &w, ek.clone(), gens.clone());
    // the weighted sum as a single ciphertext
    let mut s = Ciphertext::<V::E> { X_r: A1::<V>::zero(), enc_chunks: vec![A1::<V>::zero(); n], commitment: A1::<V>::zero() };
    for (c, w) in cts.iter().zip(&w) {
        s.X_r = add1::<V>(s.X_r, mul1::<V>(c.X_r, *w));
        for i in 0..n {
            s.enc_chunks[i] = add1::<V>(s.enc_chunks[i], mul1::<V>(c.enc_chunks[i], *w));
        }
        s.commitment = add1::<V>(s.commitment, mul1::<V>(c.commitment, *w));
    }
    let r = s.verify_commitment(ek.clone(), gens.clone());
    agree(v, "batch and the weighted sum of its ciphertexts", &a, &r, same_unit);
    // order does not matter
    let rc: Vec<_> = cts.iter().rev().cloned().collect();
    let rw: Vec<_> = w.iter().rev().cloned().collect();
    let r = Encryption::verify_commitments_in_batch(&rc, &rw, ek, gens);
    agree(v, "batch in reverse order", &a, &r, same_unit);
}

/// verification of proofs: the whole check, its parts, the combined check
fn proofs<V: Env>(v: &mut V, p: &[u64]) {
    let (n, nc) = (p[0] as usize, p[1] as usize);
    let ek = any_ek(v, n);
    let gens = any_gens(v);
    let abc: Vec<_> = (0..=n).map(|i| v.any_g1(&format!("abc{i}"))).collect();
    let vk = vk_with::<V>(v, abc);
    let pvk = prepare_verifying_key(&vk);
    let pr = Proof { a: v.any_g1("A"), b: v.any_g2("B"), c: v.any_g1("C") };
    let c = any_ct(v, nc);
    let a = verify_proof(&pvk, &pr, &c);
    if n == nc {
        let r = calculate_d(&pvk, &c).and_then(|d| verify_qap_proof(&pvk, pr.a, pr.b, pr.c, d));
        agree(v, "verify_qap_proof on calculate_d", &a, &r, same_unit);
    }
    let com = c.verify_commitment(ek.clone(), gens.clone());
    let both = c.verify_commitment_and_proof(&pr, &pvk, ek.clone(), gens.clone());
    v.that("the combined check accepts exactly when both do", both.is_ok() == (com.is_ok() && a.is_ok()));
    let both2 = c.verify_commitment_and_proof(&pr, &pvk, PreparedEncryptionKey::from(ek), PreparedEncryptionGens::from(gens));
    agree(v, "the combined check, prepared", &both, &both2, same_unit);
}

fn commitments<V: Env>(v: &mut V, p: &[u64]) {
    let (b, lo, hi) = (p[0], p[1] as usize, p[2] as usize);
    let m = if lo > hi { message::<V>(hi as u64) } else { v.message(b, nchunks(b), lo, hi).0 };
    let r = v.fresh("blinding");
    let gens = ChunkedCommitmentGens::<A1<V>> { G: v.any_g1("G"), H: v.any_g1("H") };
    let a = ChunkedCommitment::<A1<V>>::new(&m, &r, b as u8, &gens);
    let ck = ChunkedCommitment::<A1<V>>::commitment_key(&gens, b as u8);
    let c = ChunkedCommitment::<A1<V>>::get_commitment_given_commitment_key(&m, &r, b as u8, &ck);
    let a1 = a.as_ref().map(|x| x.0).map_err(|e| e.clone());
    agree(v, "new and get_commitment_given_commitment_key", &a1, &c, |v, l, x, y| v.eq_g1(l, *x, *y));
    if let Ok(x) = &a {
        same_g1s(v, "the key new() returns and commitment_key", &x.1, &ck);
    }
}

/// scalar multiples: table, many at once, one at a time
fn tables<V: Env>(v: &mut V, p: &[u64]) {
    let (k, m) = (p[0] as usize, p[1] as usize);
    let g = v.any_g1("base").into_group();
    let s: Vec<F<V>> = (0..k).map(|i| v.fresh(&format!("s{i}"))).collect();
    let t = WindowTable::new(m, g);
    let many = t.multiply_many(&s);
    let help = multiply_field_elems_with_same_group_elem(g, &s);
    v.that("one multiple per scalar", many.len() == k && help.len() == k);
    for i in 0..k {
        let one = t.multiply(&s[i]).into_affine();
        v.eq_g1("multiply and multiply_many", one, many[i].into_affine());
        v.eq_g1("multiply_many and multiply_field_elems_with_same_group_elem", many[i].into_affine(), help[i].into_affine());
        v.eq_g1("multiply and plain multiplication", one, g.mul_bigint_of(s[i]));
    }
}
trait MulOf<S, A> {
    fn mul_bigint_of(&self, s: S) -> A;
}
impl<G: CurveGroup> MulOf<G::ScalarField, G::Affine> for G {
    fn mul_bigint_of(&self, s: G::ScalarField) -> G::Affine {
        self.mul_bigint(s.into_bigint()).into_affine()
    }
}

// ------------------------------------------------------------------ C26
/// what is left in the place of a key after it is dropped
fn left<V: Env>(k: SecretKey<F<V>>) -> F<V> {
    let mut m = std::mem::ManuallyDrop::new(k);
    let p = &m.0 as *const F<V>;
    // the scalar is plain data and its place outlives the drop
    unsafe {
        std::mem::ManuallyDrop::drop(&mut m);
        std::ptr::read_volatile(p)
    }
}
fn dropped<V: Env>(v: &mut V, p: &[u64]) {
    let n = nchunks(p[1]);
    let b = super::keys::base(v, n);
    let mut rng = v.rng();
    let k = match p[0] {
        0 => SecretKey(v.fresh("secret")),
        1 => {
            let r = keygen::<_, V::E>(&mut rng, p[1] as u8, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g);
            v.ok("keygen", r).0
        }
        2 => {
            let r = Fkeygen_dest::<_, V::E>(&mut rng, &b.gens);
            v.ok("Fkeygen_dest", r).0
        }
        _ => {
            use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
            let k = SecretKey(v.fresh("secret"));
            let mut bytes = vec![];
            let r = k.serialize_compressed(&mut bytes);
            v.ok("serialize", r);
            let r = SecretKey::<F<V>>::deserialize_compressed(&bytes[..]);
            v.ok("deserialize", r)
        }
    };
    v.varies_f("there is a secret before", k.0);
    let c = k.clone();
    let r = left::<V>(c);
    v.zero_f("nothing of a dropped copy of the secret is left", r);
    let old = k.0;
    let c = k.clone();
    v.eq_f("dropping a copy leaves the original alone", k.0, old);
    drop(k);
    let r = left::<V>(c);
    v.zero_f("nothing of a dropped secret is left", r);
}

pub fn reg(v: &mut Vec<H>) {
    const DF: &str = "encryption::Encryption::{decrypt, decrypt_given_pairing_powers, decrypt_given_groth16_vk, decrypt_given_groth16_vk_and_pairing_powers, decrypt_to_chunks, decrypt_to_chunks_given_pairing_powers}, encryption::Ciphertext::decrypt*, keygen::{DecryptionKey, PreparedDecryptionKey}::pairing_powers*, utils::compose";
    for n in 0..=2u64 {
        for nc in n.saturating_sub(1)..=n + 1 {
            for ng in n.saturating_sub(1)..=n + 1 {
                for cb in [4u64, 8, 16, 1, 2, 3, 5] {
                    if cb == 16 || (cb == 8 && n > 1) {
                        continue;
                    }
                    harness!(v, "C25", format!("decrypt_n{n}_c{nc}_g{ng}_b{cb}"), quick, decrypts, [n, nc, ng, cb, 0], DF,
                        format!("{nc} ciphertext chunks, key for {n}, {ng} bases, chunk size {cb}: arbitrary elements and secret"));
                }
            }
        }
        for skew in [1u64, 2] {
            harness!(v, "C25", format!("decrypt_n{n}_malformed{skew}"), quick, decrypts, [n, n, n + 1, 4, skew], DF, format!("malformed key of size {n}, arbitrary elements"));
        }
    }
    for (n, nc, cb, rows) in [
        (0u64, 0u64, 4u64, &[][..]),
        (0, 0, 4, &[15]),
        (1, 1, 4, &[]),
        (1, 1, 4, &[0]),
        (1, 1, 4, &[1]),
        (1, 1, 4, &[14]),
        (1, 1, 4, &[15]),
        (1, 1, 4, &[16]),
        (1, 1, 4, &[15, 15]),
        (1, 2, 4, &[15, 15]),
        (2, 2, 4, &[]),
        (2, 2, 4, &[15]),
        (2, 2, 4, &[3, 2]),
        (2, 2, 4, &[15, 0]),
        (2, 2, 4, &[0, 15]),
        (2, 2, 4, &[2, 3, 4]),
        (2, 1, 4, &[15, 15]),
        (3, 3, 4, &[1, 2]),
        (3, 3, 4, &[2, 1, 0]),
        (2, 2, 2, &[3, 3]),
        (3, 3, 2, &[3, 3, 3]),
        (3, 3, 1, &[1, 1, 1]),
        (2, 2, 3, &[7, 7]),
        (1, 1, 8, &[255]),
        (1, 1, 8, &[254]),
        (2, 2, 8, &[40, 3]),
        (1, 1, 16, &[20]),
    ] {
        let mut ps = vec![n, nc, cb];
        ps.extend_from_slice(rows);
        let rn = rows.iter().map(|r| r.to_string()).collect::<Vec<_>>().join("_");
        harness!(v, "C25", format!("tables_given_n{n}_c{nc}_b{cb}_{rn}"), quick, given_tables, ps, DF,
            format!("{nc} ciphertext chunks, key for {n}, chunk size {cb}, tables of {rows:?} arbitrary entries"));
    }
    const EF: &str = "encryption::Encryption::{encrypt, encrypt_given_snark_vk, encrypt_decomposed_message}, utils::decompose";
    for b in [4u64, 8, 16] {
        let n = nchunks(b);
        for w in 0..6u64 {
            harness!(v, "C25", format!("encrypt_b{b}_m{w}"), quick, encrypts, [b, n as u64, n as u64, 99, w], EF, format!("chunk size {b}, message pattern {w}, arbitrary key elements, bases, randomness"));
        }
        for (k, g) in [(n, n + 1), (n, n - 1), (n - 1, n), (n + 1, n + 1), (0, 0), (n, 0)] {
            harness!(v, "C25", format!("encrypt_b{b}_key{k}_g{g}"), quick, encrypts, [b, k as u64, g as u64, 99, 3], EF, format!("chunk size {b}, key for {k} chunks, {g} bases"));
        }
    }
    for (b, lo, hi) in [(8u64, 0u64, 32u64), (16, 0, 16), (4, 0, 7), (4, 57, 64)] {
        harness!(v, "C25", format!("encrypt_b{b}_digits{lo}_{hi}"), quick, encrypts, [b, nchunks(b) as u64, nchunks(b) as u64, lo, hi], EF, format!("chunk size {b}, digits {lo}..{hi} of the message arbitrary, arbitrary key elements, bases, randomness"));
    }
    for b in [1u64, 3, 5, 7, 9, 12, 15] {
        harness!(v, "C25", format!("encrypt_b{b}_unsupported"), quick, encrypts, [b, nchunks(b).min(255) as u64, nchunks(b).min(255) as u64, 99, 1], EF, format!("unsupported chunk size {b}"));
    }
    const PF: &str = "encryption::Encryption::{encrypt_with_proof, encrypt_given_snark_vk}, saver_groth16::{generate_srs, create_proof}, setup::setup_for_groth16, keygen::keygen";
    for (b, w) in [(8u64, 1u64), (16, 3), (4, 2)] {
        harness!(v, "C25", format!("with_proof_b{b}_m{w}"), quick, with_proofs, [b, w, 0], PF, format!("chunk size {b}, message pattern {w}, arbitrary generators, trapdoors (QAP point fixed), secrets and randomness"));
    }
    for b in [8u64, 16, 4] {
        harness!(v, "C25", format!("setup_b{b}"), quick, with_proofs, [b, 0, 1], PF, format!("chunk size {b}, arbitrary generators, trapdoors (QAP point fixed) and secrets"));
    }
    const VF: &str = "encryption::Encryption::{verify_ciphertext_commitment, verify_commitments_in_batch, get_g1_for_*, get_g2_for_*}, encryption::Ciphertext::{verify_commitment, verify_commitment_and_proof}, keygen::PreparedEncryptionKey, saver_groth16::{verify_proof, verify_qap_proof, calculate_d}";
    for n in [0u64, 1, 2, 3, 4, 8, 16, 32, 64] {
        for nc in [n.saturating_sub(1), n, n + 1] {
            harness!(v, "C25", format!("verify_n{n}_c{nc}"), quick, verifies, [n, nc, 0], VF, format!("key for {n} chunks, ciphertext of {nc}, arbitrary elements"));
            harness!(v, "C25", format!("proof_n{n}_c{nc}"), quick, proofs, [n, nc], VF, format!("keys for {n} chunks, ciphertext of {nc}, arbitrary elements and proof"));
        }
    }
    for n in [1u64, 2] {
        for skew in 1..=4u64 {
            harness!(v, "C25", format!("verify_n{n}_malformed{skew}"), quick, verifies, [n, n, skew], VF, format!("malformed key of size {n}"));
        }
    }
    for n in [0u64, 1, 2, 4] {
        for k in 1..=4u64 {
            harness!(v, "C25", format!("batch_n{n}_k{k}"), quick, batches, [n, k], VF, format!("{k} ciphertexts of {n} chunks, arbitrary elements and weights (zero included)"));
        }
    }
    const CF: &str = "commitment::ChunkedCommitment::{new, get_commitment_given_commitment_key, commitment_key}";
    for b in [4u64, 8, 16] {
        for w in 0..6u64 {
            harness!(v, "C25", format!("commit_b{b}_m{w}"), quick, commitments, [b, 99, w], CF, format!("chunk size {b}, message pattern {w}, arbitrary blinding and generators"));
        }
    }
    for (b, lo, hi) in [(8u64, 0u64, 32u64), (16, 0, 16), (4, 0, 7), (4, 57, 64)] {
        harness!(v, "C25", format!("commit_b{b}_digits{lo}_{hi}"), quick, commitments, [b, lo, hi], CF, format!("chunk size {b}, digits {lo}..{hi} arbitrary, arbitrary blinding and generators"));
    }
    for b in [1u64, 3, 5, 7, 9, 12, 15] {
        harness!(v, "C25", format!("commit_b{b}_unsupported"), quick, commitments, [b, 99, 1], CF, format!("unsupported chunk size {b}"));
    }
    for (i, w) in ["any", "keygen", "destination", "deserialized"].iter().enumerate() {
        for kb in if i == 1 { vec![255u64, 128, 16, 8, 4] } else { vec![255u64] } {
            harness!(v, "C26", format!("dropped_{w}_n{}", nchunks(kb)), quick, dropped, [i as u64, kb], "keygen::{SecretKey, keygen, Fkeygen_dest}", "arbitrary secret: the key and copies of it, dropped in either order");
        }
    }
    for (k, m) in [(0u64, 0u64), (1, 1), (3, 3), (3, 100), (17, 2), (64, 64)] {
        harness!(v, "C25", format!("tables_k{k}_m{m}"), quick, tables, [k, m], "utils::{WindowTable, multiply_field_elems_with_same_group_elem}", format!("{k} arbitrary scalars, table for {m}"));
    }
}
