//! C09 the linked SNARK, C16 SRS and setup, C23 the whole pipeline, C22 fresh proof randomness.
use super::enc::{any_ek, any_gens, digits, keys_for, message};
use super::keys::{dist_with, nchunks, Base};
use crate::env::*;
use crate::{harness, H};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, Zero};
use dist_saver::circuit::BitsizeCheckCircuit;
use dist_saver::encryption::{Ciphertext, Encryption};
use dist_saver::error::SaverError;
use dist_saver::keygen::*;
use dist_saver::saver_groth16::*;
use dist_saver::setup::{setup_for_groth16, EncryptionGens, PreparedEncryptionGens};

/// verification key with the given commitment bases, everything else arbitrary non-zero
pub fn vk_with<V: Env>(v: &mut V, abc: Vec<A1<V>>) -> VerifyingKey<V::E> {
    VerifyingKey {
        alpha_g1: v.gen_g1("vk_alpha"),
        beta_g2: v.gen_g2("vk_beta"),
        gamma_g2: v.gen_g2("vk_gamma"),
        delta_g2: v.gen_g2("vk_delta"),
        gamma_abc_g1: abc,
    }
}

/// what decides acceptance: e(A,B) - e(alpha,beta) - e(d,gamma) - e(C,delta), d = X_r + sum c_i + abc_0
fn proof_residual<V: Env>(vk: &VerifyingKey<V::E>, p: &Proof<V::E>, c: &Ciphertext<V::E>) -> GT<V> {
    let mut d = vec![c.X_r, vk.gamma_abc_g1[0]];
    d.extend(c.enc_chunks.iter().cloned());
    pair::<V>(p.a, p.b) - pair::<V>(vk.alpha_g1, vk.beta_g2) - pair::<V>(sum1::<V>(&d), vk.gamma_g2) - pair::<V>(p.c, vk.delta_g2)
}

fn verdict<V: Env>(v: &mut V, l: &str, r: Result<(), SaverError>) -> bool {
    match r {
        Ok(()) => true,
        Err(SaverError::PairingCheckFailed) => false,
        Err(e) => {
            v.fail(l, &format!("unexpected kind of error {:?}", e));
            false
        }
    }
}

fn any_proof<V: Env>(v: &mut V) -> Proof<V::E> {
    Proof { a: v.any_g1("A"), b: v.any_g2("B"), c: v.any_g1("C") }
}

/// arbitrary verification key, proof and ciphertext: accepted exactly when the equation holds
fn snark_iff<V: Env>(v: &mut V, p: &[u64]) {
    let n = p[0] as usize;
    let abc: Vec<_> = (0..=n).map(|i| v.any_g1(&format!("abc{i}"))).collect();
    let vk = vk_with::<V>(v, abc);
    let pvk = prepare_verifying_key(&vk);
    let pr = any_proof(v);
    let c = Ciphertext::<V::E> {
        X_r: v.any_g1("X_r"),
        enc_chunks: (0..n).map(|i| v.any_g1(&format!("c{i}"))).collect(),
        commitment: v.any_g1("psi"),
    };
    let d = v.ok("calculate_d", calculate_d(&pvk, &c));
    let mut w = vec![c.X_r, vk.gamma_abc_g1[0]];
    w.extend(c.enc_chunks.iter().cloned());
    v.eq_g1("d = abc_0 + X_r + sum c_i", d, sum1::<V>(&w));
    let ok = verdict(v, "verify_proof", verify_proof(&pvk, &pr, &c));
    v.iff_gt("proof verification", ok, proof_residual::<V>(&vk, &pr, &c));
    let ok2 = verdict(v, "verify_qap_proof", verify_qap_proof(&pvk, pr.a, pr.b, pr.c, d));
    v.that("verify_qap_proof on the computed d agrees", ok == ok2);
}

/// as many or as few chunks as one likes: what is accepted satisfies the equation over all of them
fn snark_other_size<V: Env>(v: &mut V, p: &[u64]) {
    let (n, k) = (p[0] as usize, p[1]);
    let abc: Vec<_> = (0..=n).map(|i| v.any_g1(&format!("abc{i}"))).collect();
    let vk = vk_with::<V>(v, abc);
    let pvk = prepare_verifying_key(&vk);
    let pr = any_proof(v);
    let m = v.pick("chunks", 0, k) as usize;
    let c = Ciphertext::<V::E> {
        X_r: v.any_g1("X_r"),
        enc_chunks: (0..m).map(|i| v.any_g1(&format!("c{i}"))).collect(),
        commitment: v.any_g1("psi"),
    };
    let e = proof_residual::<V>(&vk, &pr, &c);
    match verify_proof(&pvk, &pr, &c) {
        Ok(()) => v.zero_gt("an accepted proof satisfies the equation over every chunk", e),
        Err(SaverError::PairingCheckFailed) => v.nonzero_gt("a proof that satisfies the equation over every chunk is not called wrong", e),
        Err(_) => v.that("refused for its size only if it differs", m != n),
    }
}

/// the combined check is the conjunction of the two checks
fn snark_and_commit<V: Env>(v: &mut V, p: &[u64]) {
    let n = p[0] as usize;
    let ek = any_ek(v, n);
    let gens = any_gens(v);
    let abc: Vec<_> = (0..=n).map(|i| v.any_g1(&format!("abc{i}"))).collect();
    let vk = vk_with::<V>(v, abc);
    let pvk = prepare_verifying_key(&vk);
    let pr = any_proof(v);
    let c = Ciphertext::<V::E> {
        X_r: v.any_g1("X_r"),
        enc_chunks: (0..n).map(|i| v.any_g1(&format!("c{i}"))).collect(),
        commitment: v.any_g1("psi"),
    };
    let both = c.verify_commitment_and_proof(&pr, &pvk, ek.clone(), gens.clone());
    let a = c.verify_commitment(PreparedEncryptionKey::from(ek), PreparedEncryptionGens::from(gens));
    let b = verify_proof(&pvk, &pr, &c);
    v.that("accepted exactly when both checks accept", both.is_ok() == (a.is_ok() && b.is_ok()));
    match both {
        Ok(()) => {}
        Err(SaverError::InvalidCommitment) => v.that("the commitment is reported", a.is_err()),
        Err(SaverError::PairingCheckFailed) => v.that("the proof is reported", b.is_err()),
        Err(_) => v.fail("verify_commitment_and_proof", "unexpected kind of error"),
    }
}

pub struct Snark<V: Env> {
    pub b: Base<V>,
    pub pk: ProvingKey<V::E>,
    pub rng: V::R,
}
/// SRS of the real circuit over `n` values of `cb` bits
pub fn snark<V: Env>(v: &mut V, cb: u8, n: usize) -> Snark<V> {
    v.enumerate_small(true);
    // the evaluation point of the QAP is a constant: Lagrange coefficients are rational functions of it
    v.pin_powers();
    let g = v.fresh_nz("G");
    let h = v.fresh_nz("H");
    let gens = EncryptionGens { G: v.g1(g), H: v.g2(h) };
    let mut rng = v.rng();
    let circuit = BitsizeCheckCircuit::new(cb, Some(n as u8), None, true);
    let pk = v.ok("generate_srs", generate_srs::<V::E, _, _>(circuit, &gens, &mut rng));
    let g_i = get_gs_for_encryption(&pk.pk.vk).to_vec();
    v.that("one base per value", g_i.len() == n);
    let b = Base { gens, g, h, delta: F::<V>::zero(), gamma: F::<V>::zero(), delta_g: pk.pk.delta_g1, gamma_g: pk.gamma_g1, g_i };
    Snark { b, pk, rng }
}

/// relations of the SRS, in pairings over its public elements
fn check_srs<V: Env>(v: &mut V, pk: &ProvingKey<V::E>, gens: &EncryptionGens<V::E>) {
    let vk = &pk.pk.vk;
    v.eq_gt("e(delta_g1,H) = e(G,delta_g2)", pair::<V>(pk.pk.delta_g1, gens.H), pair::<V>(gens.G, vk.delta_g2));
    v.zero_gt("e(gamma_g1,H) * e(G,gamma_g2) = 1", pair::<V>(pk.gamma_g1, gens.H) + pair::<V>(gens.G, vk.gamma_g2));
    v.eq_gt("e(beta_g1,H) = e(G,beta_g2)", pair::<V>(pk.pk.beta_g1, gens.H), pair::<V>(gens.G, vk.beta_g2));
    v.nonzero_g1("delta is not zero", pk.pk.delta_g1);
    v.nonzero_g1("gamma is not zero", pk.gamma_g1);
    let (a, b, d, g) = (vk.alpha_g1, pk.pk.beta_g1, pk.pk.delta_g1, neg1::<V>(pk.gamma_g1));
    for (i, x) in [a, b, d, g].iter().enumerate() {
        v.varies_g1("trapdoor is not 1", (x.into_group() - gens.G).into());
        for y in [a, b, d, g].iter().take(i) {
            v.varies_g1("trapdoors are independent", (x.into_group() - y).into());
        }
    }
}

fn srs_wf<V: Env>(v: &mut V, p: &[u64]) {
    let (cb, n) = (p[0] as u8, p[1] as usize);
    let s = snark(v, cb, n);
    v.that("n + 1 commitment bases", s.pk.pk.vk.gamma_abc_g1.len() == n + 1);
    check_srs(v, &s.pk, &s.b.gens);
    for i in 0..n {
        v.varies_g1("bases are not trivial", s.b.g_i[i]);
        for j in 0..i {
            v.varies_g1("bases are distinct", (s.b.g_i[i].into_group() - s.b.g_i[j]).into());
        }
    }
    let mut rng = s.rng;
    let circuit = BitsizeCheckCircuit::new(cb, Some(n as u8), None, true);
    let pk2 = v.ok("generate_srs", generate_srs::<V::E, _, _>(circuit, &s.b.gens, &mut rng));
    v.varies_g1("two set-ups differ in delta", (s.pk.pk.delta_g1.into_group() - pk2.pk.delta_g1).into());
    v.varies_g1("two set-ups differ in gamma", (s.pk.gamma_g1.into_group() - pk2.gamma_g1).into());
    v.varies_g1("two set-ups differ in alpha", (s.pk.pk.vk.alpha_g1.into_group() - pk2.pk.vk.alpha_g1).into());
}

/// setup_for_groth16: SRS and keys belong together
fn setup_all<V: Env>(v: &mut V, p: &[u64]) {
    let bits = p[0];
    let n = nchunks(bits);
    v.enumerate_small(true);
    v.pin_powers();
    let gens = any_gens(v);
    let mut rng = v.rng();
    let r = setup_for_groth16::<V::E, _>(&mut rng, bits as u8, &gens);
    let (pk, sk, ek, dk) = v.ok("setup_for_groth16", r);
    check_srs(v, &pk, &gens);
    let g_i = get_gs_for_encryption(&pk.pk.vk).to_vec();
    v.that("one base per chunk", g_i.len() == n);
    v.that("key sizes", ek.X.len() == n && ek.Y.len() == n && ek.Z.len() == n + 1 && dk.V_1.len() == n && dk.V_2.len() == n);
    v.eq_g1("X_0 = delta_g1", ek.X_0, pk.pk.delta_g1);
    for i in 0..n {
        v.eq_gt("e(Y_i,H) = e(g_i,Z_{i+1})", pair::<V>(ek.Y[i], gens.H), pair::<V>(g_i[i], ek.Z[i + 1]));
        v.eq_gt("e(X_i,V_2) = e(rho*X_0,V_1)", pair::<V>(ek.X[i], dk.V_2[i]), pair::<V>(mul1::<V>(ek.X_0, sk.0), dk.V_1[i]));
    }
    v.eq_g2("V_0 = rho*H", dk.V_0, mul2::<V>(gens.H, sk.0));
    let mut r = pair::<V>(ek.X_0, ek.Z[0]);
    let mut xs = vec![ek.X_0];
    for i in 0..n {
        r += pair::<V>(ek.X[i], ek.Z[i + 1]);
        xs.push(ek.X[i]);
    }
    v.eq_gt("e(P_1,H) = e(X_0,Z_0) + sum e(X_i,Z_{i+1})", pair::<V>(ek.P_1, gens.H), r);
    // what proofs rely on: e(P_2,delta_g2) * e(X_0 + sum X_i, gamma_g2) = 1
    v.zero_gt("e(P_2,delta_g2) * e(sum X,gamma_g2) = 1", pair::<V>(ek.P_2, pk.pk.vk.delta_g2) + pair::<V>(sum1::<V>(&xs), pk.pk.vk.gamma_g2));
}

fn to_f<V: Env>(m: &[u16]) -> Vec<F<V>> {
    m.iter().map(|x| F::<V>::from(*x as u64)).collect()
}

/// ciphertexts of in-range chunks with their proof verify; an altered one, another randomness, an
/// altered proof do not (except for the exact algebraic exceptions)
fn snark_honest<V: Env>(v: &mut V, p: &[u64]) {
    let (cb, kb, parties, hi) = (p[0] as u8, p[1], p[2] as usize, p[3] as u16);
    let n = nchunks(kb);
    let mut s = snark(v, cb, n);
    let ek = if parties == 0 {
        keys_for(v, &s.b, kb, &mut s.rng).1
    } else {
        dist_with(v, &s.b, kb as u8, parties, &mut s.rng).ek
    };
    // all chunks symbolic, or one over hi - width + 1 ..= hi and the others fixed
    let one = if p.len() > 4 { Some((p[4] as usize, p[5] as u16, p[6] as u16)) } else { None };
    let m: Vec<u16> = (0..n)
        .map(|i| match one {
            Some((at, _, oth)) if at != i => oth,
            Some((_, lo, _)) => v.chunk(&format!("m{i}"), lo, hi),
            None => v.chunk(&format!("m{i}"), 0, hi),
        })
        .collect();
    let ms: Vec<F<V>> = (0..n)
        .map(|i| match one {
            Some((at, _, oth)) if at != i => v.lit(oth as u64),
            _ => F::<V>::from(m[i] as u64),
        })
        .collect();
    let r = Encryption::<V::E>::encrypt_decomposed_message(&mut s.rng, m.clone(), &ek, &s.b.g_i);
    let (ct, r) = v.ok("encrypt", r);
    let c = Ciphertext::<V::E> { X_r: ct[0], enc_chunks: ct[1..=n].to_vec(), commitment: ct[n + 1] };
    let circuit = BitsizeCheckCircuit::new(cb, Some(n as u8), Some(ms), true);
    let pr = v.ok("create_proof", create_proof(circuit, &r, &s.pk, &ek, &mut s.rng));
    let pvk = prepare_verifying_key(&s.pk.pk.vk);
    v.ok("an honest proof is accepted", verify_proof(&pvk, &pr, &c));
    v.ok("commitment and proof are accepted", c.verify_commitment_and_proof(&pr, &pvk, ek.clone(), s.b.gens.clone()));
    // a ciphertext altered by any non-zero amount in any one element
    let d = v.gen_g1("alteration");
    for at in 0..=n {
        let mut c2 = c.clone();
        if at == 0 {
            c2.X_r = add1::<V>(c2.X_r, d);
        } else {
            c2.enc_chunks[at - 1] = add1::<V>(c2.enc_chunks[at - 1], d);
        }
        let ok = verdict(v, "altered", verify_proof(&pvk, &pr, &c2));
        v.that("the proof does not carry over to an altered ciphertext", !ok);
    }
    let mut pr2 = pr.clone();
    pr2.c = add1::<V>(pr2.c, d);
    let ok = verdict(v, "altered", verify_proof(&pvk, &pr2, &c));
        v.that("an altered proof is rejected", !ok);
}

/// a proof made for another randomness is accepted only if the two randomizers coincide (or 1+sum s_i = 0)
fn snark_other_r<V: Env>(v: &mut V, p: &[u64]) {
    let (cb, kb) = (p[0] as u8, p[1]);
    let n = nchunks(kb);
    let mut s = snark(v, cb, n);
    let ek = keys_for(v, &s.b, kb, &mut s.rng).1;
    let m: Vec<u16> = (0..n).map(|i| v.chunk(&format!("m{i}"), 0, 1)).collect();
    let r = Encryption::<V::E>::encrypt_decomposed_message(&mut s.rng, m.clone(), &ek, &s.b.g_i);
    let (ct, r) = v.ok("encrypt", r);
    let c = Ciphertext::<V::E> { X_r: ct[0], enc_chunks: ct[1..=n].to_vec(), commitment: ct[n + 1] };
    let dr = v.fresh("dr");
    let circuit = BitsizeCheckCircuit::new(cb, Some(n as u8), Some(to_f::<V>(&m)), true);
    let pr = v.ok("create_proof", create_proof(circuit, &(r + dr), &s.pk, &ek, &mut s.rng));
    let pvk = prepare_verifying_key(&s.pk.pk.vk);
    let ok = verdict(v, "other randomness", verify_proof(&pvk, &pr, &c));
    let z = pair::<V>(mul1::<V>(ek.P_2, dr), s.pk.pk.vk.delta_g2);
    v.iff_gt("proof made for another randomness", ok, z);
}

/// two proofs of the same statement are randomised independently
fn proof_fresh<V: Env>(v: &mut V, p: &[u64]) {
    let (cb, kb) = (p[0] as u8, p[1]);
    let n = nchunks(kb);
    let mut s = snark(v, cb, n);
    let ek = keys_for(v, &s.b, kb, &mut s.rng).1;
    let r = v.fresh_nz("r");
    let one: Vec<F<V>> = (0..n).map(|_| F::<V>::one()).collect();
    let mk = |v: &mut V, s: &mut Snark<V>| {
        let circuit = BitsizeCheckCircuit::new(cb, Some(n as u8), Some(one.clone()), true);
        v.ok("create_proof", create_proof(circuit, &r, &s.pk, &ek, &mut s.rng))
    };
    let p1 = mk(v, &mut s);
    let p2 = mk(v, &mut s);
    v.varies_g1("A of two proofs", (p1.a.into_group() - p2.a).into());
    v.varies_g2("B of two proofs", (p1.b.into_group() - p2.b).into());
    v.varies_g1("C of two proofs", (p1.c.into_group() - p2.c).into());
    // A and B use independent randomness: A - A' and B - B' are not proportional to each other
    let da: A1<V> = (p1.a.into_group() - p2.a).into();
    let db: A2<V> = (p1.b.into_group() - p2.b).into();
    let x = pair::<V>(da, s.b.gens.H);
    let y = pair::<V>(s.b.gens.G, db);
    v.varies_gt("A and B use different randomness", x - y);
}

/// the public entry point on a whole (concrete) message, everything else symbolic
fn with_proof<V: Env>(v: &mut V, p: &[u64]) {
    let (b, which) = (p[0], p[1]);
    let n = nchunks(b);
    v.enumerate_small(true);
    v.pin_powers();
    let gens = any_gens(v);
    let mut rng = v.rng();
    let r = setup_for_groth16::<V::E, _>(&mut rng, b as u8, &gens);
    let (pk, sk, ek, dk) = v.ok("setup_for_groth16", r);
    let msg = message::<V>(which);
    let r = Encryption::<V::E>::encrypt_with_proof(&mut rng, &msg, &ek, &pk, b as u8);
    let (c, r, pr) = v.ok("encrypt_with_proof", r);
    let g_i = get_gs_for_encryption(&pk.pk.vk).to_vec();
    v.that("one element per chunk", c.enc_chunks.len() == n);
    v.eq_g1("X_r = r*X_0", c.X_r, mul1::<V>(ek.X_0, r));
    for (i, d) in digits::<V>(which, b).into_iter().enumerate() {
        let d = v.lit(d);
        v.eq_g1(&format!("c_{i} encrypts digit {i}"), c.enc_chunks[i], add1::<V>(mul1::<V>(ek.X[i], r), mul1::<V>(g_i[i], d)));
    }
    let pvk = prepare_verifying_key(&pk.pk.vk);
    v.ok("commitment and proof are accepted", c.verify_commitment_and_proof(&pr, &pvk, ek.clone(), gens.clone()));
    let d = v.gen_g1("alteration");
    let mut c2 = c.clone();
    c2.enc_chunks[n - 1] = add1::<V>(c2.enc_chunks[n - 1], d);
    let ok = verdict(v, "altered", verify_proof(&pvk, &pr, &c2));
        v.that("the proof does not carry over to an altered ciphertext", !ok);
    if (b < 16 || which < 2) && !g_i.iter().any(|x| x.is_zero()) {
        let r = c.decrypt_given_groth16_vk(&sk, dk, &pk.pk.vk, b as u8);
        let (out, _) = v.ok("decrypt", r);
        v.eq_f("the message comes back", out, msg);
    }
}

/// SRS, N-party keys, K ciphertexts with proofs, aggregation, re-encryption, destination decryption
fn pipeline<V: Env>(v: &mut V, p: &[u64]) {
    let (cb, kb, parties, sums, hi) = (p[0] as u8, p[1], p[2] as usize, p[3] as usize, p[4] as u16);
    let n = nchunks(kb);
    let mut s = snark(v, cb, n);
    let d = dist_with(v, &s.b, kb as u8, parties, &mut s.rng);
    check_pk2(v, &d.ek, &s);
    // a base is zero only for a negligible set of trapdoors (beta*a + alpha*b + c = 0): outside the claim
    if s.b.g_i.iter().any(|x| x.is_zero()) {
        return;
    }
    let r = Fkeygen_dest::<_, V::E>(&mut s.rng, &s.b.gens);
    let (x, pkd) = v.ok("Fkeygen_dest", r);
    let pvk = prepare_verifying_key(&s.pk.pk.vk);
    let mut acc: Vec<A1<V>> = vec![];
    let mut total: Vec<F<V>> = vec![F::<V>::zero(); n];
    for j in 0..sums {
        let m: Vec<u16> = (0..n).map(|i| if i == j % n { v.chunk(&format!("m{j}_{i}"), 0, hi) } else { 1 }).collect();
        let ms: Vec<F<V>> = (0..n).map(|i| if i == j % n { F::<V>::from(m[i] as u64) } else { v.lit(1) }).collect();
        for i in 0..n {
            total[i] += ms[i];
        }
        let r = Encryption::<V::E>::encrypt_decomposed_message(&mut s.rng, m, &d.ek, &s.b.g_i);
        let (ct, r) = v.ok("encrypt", r);
        let c = Ciphertext::<V::E> { X_r: ct[0], enc_chunks: ct[1..=n].to_vec(), commitment: ct[n + 1] };
        let circuit = BitsizeCheckCircuit::new(cb, Some(n as u8), Some(ms), true);
        let pr = v.ok("create_proof", create_proof(circuit, &r, &s.pk, &d.ek, &mut s.rng));
        v.ok("every contribution verifies", c.verify_commitment_and_proof(&pr, &pvk, d.ek.clone(), s.b.gens.clone()));
        acc = if j == 0 {
            ct
        } else {
            let r = Encryption::<V::E>::add_cts(&acc, &ct);
            v.ok("add_cts", r)
        };
    }
    let c = Ciphertext::<V::E> { X_r: acc[0], enc_chunks: acc[1..=n].to_vec(), commitment: acc[n + 1] };
    v.ok("the aggregate passes the commitment check", c.verify_commitment(d.ek.clone(), s.b.gens.clone()));
    let mut w: Option<(Vec<A1<V>>, A1<V>)> = None;
    for sk in d.sks.iter() {
        let r = Encryption::<V::E>::re_encrypt_share(&mut s.rng, &s.b.gens, &c.X_r, &c.enc_chunks, &pkd, sk);
        let (w1, g1) = v.ok("share", r);
        w = Some(match w {
            None => (w1, g1),
            Some((w0, g0)) => {
                let r = Encryption::<V::E>::combine_re_encrypt_share(&g0, &g1, &w0, &w1);
                v.ok("combine shares", r)
            }
        });
    }
    let (w, g) = w.unwrap();
    let r = Encryption::<V::E>::combine_ct_with_w(&s.b.gens, &c.enc_chunks, &g, &w);
    let out = v.ok("combine with ciphertext", r);
    let r = Encryption::<V::E>::decrypt_to_chunks_after_re_encryption(&out[0], &out[1..], &x, &s.b.g_i, cb);
    let o = v.ok("the destination can decrypt the aggregate", r);
    v.that("one value per chunk", o.len() == n);
    for i in 0..n {
        let l = v.lit(o[i] as u64);
        v.eq_f(&format!("chunk {i} is the sum of the contributions"), l, total[i]);
    }
}

/// e(P_2,delta_g2) * e(X_0 + sum X_i, gamma_g2) = 1 for the distributed key
fn check_pk2<V: Env>(v: &mut V, ek: &EncryptionKey<V::E>, s: &Snark<V>) {
    let mut xs = vec![ek.X_0];
    xs.extend(ek.X.iter().cloned());
    v.zero_gt("e(P_2,delta_g2) * e(sum X,gamma_g2) = 1", pair::<V>(ek.P_2, s.pk.pk.vk.delta_g2) + pair::<V>(sum1::<V>(&xs), s.pk.pk.vk.gamma_g2));
}

pub fn reg(v: &mut Vec<H>) {
    const VF: &str = "saver_groth16::{verify_proof, calculate_d, verify_qap_proof}";
    for n in super::sizes() {
        harness!(v, "C09", format!("snark_iff_n{n}"), quick, snark_iff, [n], VF, format!("{n} chunks; verification key, proof and ciphertext arbitrary"));
    }
    for (n, k) in [(1u64, 4u64), (3, 6)] {
        harness!(v, "C09", format!("snark_other_size_n{n}"), quick, snark_other_size, [n, k], VF, format!("key for {n} chunks, ciphertexts of 0..{k} chunks; verification key, proof and ciphertext arbitrary"));
    }
    for n in super::sizes_more() {
        harness!(v, "C09", format!("snark_iff_n{n}"), thorough, snark_iff, [n], VF, format!("{n} chunks; verification key, proof and ciphertext arbitrary"));
    }
    for n in [1u64, 2, 3, 8, 16, 32, 64] {
        harness!(v, "C09", format!("snark_and_commit_n{n}"), quick, snark_and_commit, [n], "Ciphertext::verify_commitment_and_proof", format!("{n} chunks; everything arbitrary"));
    }
    const HF: &str = "saver_groth16::{generate_srs, create_proof, get_gs_for_encryption, verify_proof}, circuit::BitsizeCheckCircuit, ark_groth16 generator and prover";
    for (cb, kb, k, hi) in [(4u64, 255u64, 0u64, 15u64), (4, 128, 0, 3), (4, 128, 2, 2), (2, 85, 3, 1), (8, 255, 1, 7), (16, 255, 0, 5)] {
        harness!(v, "C09", format!("snark_honest_cb{cb}_kb{kb}_N{k}_hi{hi}"), quick, snark_honest, [cb, kb, k, hi], HF,
            format!("circuit over {} values of {cb} bits, chunks symbolic in 0..{hi}, {} keys; trapdoors (QAP point fixed), generators, randomness symbolic", nchunks(kb), if k == 0 { "single-authority".into() } else { format!("{k}-party") }), 4, 600);
    }
    for (cb, kb, k, hi) in [(4u64, 128u64, 0u64, 15u64), (8, 255, 0, 255), (4, 64, 3, 2), (4, 16, 2, 0)] {
        harness!(v, "C09", format!("snark_honest_cb{cb}_kb{kb}_N{k}_hi{hi}"), thorough, snark_honest, [cb, kb, k, hi], HF,
            format!("circuit over {} values of {cb} bits, chunks symbolic in 0..{hi}", nchunks(kb)), 4, 3000);
    }
    // the real sizes: n = ceil(255 / cb) values of cb bits
    for (b, k, at, lo, hi, o, q) in [
        (16u64, 0u64, 0u64, 65534u64, 65535u64, 1u64, true), (16, 2, 15, 0, 1, 65535, true), (16, 3, 7, 255, 257, 0, true),
        (8, 0, 31, 254, 255, 3, true), (8, 2, 0, 0, 1, 255, true), (4, 0, 0, 14, 15, 1, true), (4, 2, 63, 0, 1, 15, true),
        (4, 5, 31, 0, 15, 2, false), (8, 4, 16, 0, 40, 0, false), (16, 5, 8, 32760, 32780, 9, false),
    ] {
        if q {
            harness!(v, "C09", format!("snark_real_cb{b}_N{k}_at{at}"), quick, snark_honest, [b, b, k, hi, at, lo, o], HF, format!("n = {}, {b} bits, {} keys, chunk {at} symbolic in {lo}..{hi}, others {o}", nchunks(b), if k == 0 { "single-authority".into() } else { format!("{k}-party") }), 1, 600);
        } else {
            harness!(v, "C09", format!("snark_real_cb{b}_N{k}_at{at}"), thorough, snark_honest, [b, b, k, hi, at, lo, o], HF, format!("n = {}, {b} bits, {k}-party keys, chunk {at} symbolic in {lo}..{hi}, others {o}", nchunks(b)), 1, 3000);
        }
    }
    harness!(v, "C09", "snark_other_r", quick, snark_other_r, [4, 128], HF, "n = 2, proof made for randomness r + dr, dr symbolic", 4, 300);
    for (b, w) in [(16u64, 2u64), (16, 3)] {
        harness!(v, "C09", format!("with_proof_b{b}_m{w}"), quick, with_proof, [b, w], "encryption::Encryption::encrypt_with_proof, setup::setup_for_groth16", format!("chunk size {b}, message pattern {w}, everything else symbolic"), 1, 600);
    }
    for (b, w) in [(8u64, 2u64), (8, 3), (4, 3), (4, 2), (16, 5)] {
        harness!(v, "C09", format!("with_proof_b{b}_m{w}"), thorough, with_proof, [b, w], "encryption::Encryption::encrypt_with_proof, setup::setup_for_groth16", format!("chunk size {b}, message pattern {w}, everything else symbolic"), 1, 3000);
    }
    const SF: &str = "saver_groth16::{generate_srs, get_gs_for_encryption}, setup::setup_for_groth16, keygen::keygen";
    for (cb, n) in [(4u64, 1u64), (4, 2), (4, 3), (2, 4), (2, 5), (1, 8), (8, 3), (8, 2), (16, 1), (16, 2), (4, 16)] {
        harness!(v, "C16", format!("srs_wf_cb{cb}_n{n}"), quick, srs_wf, [cb, n], SF, format!("circuit over {n} values of {cb} bits; generators and trapdoors symbolic, QAP point fixed"), 2, 300);
    }
    for (cb, n) in [(4u64, 64u64), (8, 32), (16, 16)] {
        harness!(v, "C16", format!("srs_wf_cb{cb}_n{n}"), thorough, srs_wf, [cb, n], SF, format!("circuit over {n} values of {cb} bits"), 2, 1200);
    }
    for b in [255u64, 128, 85, 64, 32, 16, 8, 4] {
        harness!(v, "C16", format!("setup_b{b}"), quick, setup_all, [b], SF, format!("setup_for_groth16 with chunk size {b} (n = {})", nchunks(b)), 1, 600);
    }
    for b in [51u64, 20, 10, 5] {
        harness!(v, "C16", format!("setup_b{b}"), thorough, setup_all, [b], SF, format!("setup_for_groth16 with chunk size {b} (n = {})", nchunks(b)), 1, 3000);
    }
    harness!(v, "C22", "proof_fresh", quick, proof_fresh, [4, 128], "saver_groth16::create_proof", "two proofs of the same statement, n = 2", 2, 300);
    for (cb, kb, k, s, hi) in [(4u64, 128u64, 2u64, 2u64, 3u64), (4, 255, 3, 2, 7), (4, 85, 3, 3, 2), (4, 128, 1, 1, 14), (4, 128, 4, 2, 2), (4, 255, 5, 5, 1), (4, 255, 8, 1, 3), (4, 128, 2, 8, 0), (16, 16, 2, 2, 1), (8, 8, 2, 2, 1), (4, 4, 2, 2, 1)] {
        harness!(v, "C23", format!("pipeline_cb{cb}_kb{kb}_N{k}_K{s}_hi{hi}"), quick, pipeline, [cb, kb, k, s, hi], "the whole distributed protocol: generate_srs, FkeygenPartial .. keygenFinal, encrypt_decomposed_message, create_proof, verify_commitment_and_proof, add_cts, re_encrypt_share .. decrypt_to_chunks_after_re_encryption",
            format!("{k} parties, {s} ciphertexts, n = {}, chunk size {cb}, one chunk per ciphertext symbolic in 0..{hi}", nchunks(kb)), 3, 800);
    }
    for (cb, kb, k, s, hi) in [(8u64, 128u64, 3u64, 3u64, 4u64), (4, 64, 5, 4, 1), (4, 128, 2, 2, 7), (16, 16, 4, 3, 2), (8, 8, 3, 4, 2), (4, 4, 3, 3, 2), (4, 64, 8, 8, 0)] {
        harness!(v, "C23", format!("pipeline_cb{cb}_kb{kb}_N{k}_K{s}_hi{hi}"), thorough, pipeline, [cb, kb, k, s, hi], "the whole distributed protocol", format!("{k} parties, {s} ciphertexts, n = {}", nchunks(kb)), 3, 3000);
    }
}
