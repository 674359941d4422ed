//! Encryption, decryption, commitment verification, homomorphic addition, re-encryption.
use super::keys::{base, dist, nchunks, Base};
use crate::env::*;
use crate::{harness, H};
use ark_ec::pairing::Pairing;
use ark_ec::AffineRepr;
use ark_ff::{One, Zero};
use dist_saver::encryption::{Ciphertext, Encryption};
use dist_saver::error::SaverError;
use dist_saver::keygen::*;
use dist_saver::setup::{EncryptionGens, PreparedEncryptionGens};

pub fn any_ek<V: Env>(v: &mut V, n: usize) -> EncryptionKey<V::E> {
    EncryptionKey {
        X_0: v.any_g1("X0"),
        X: (0..n).map(|i| v.any_g1(&format!("X{}", i + 1))).collect(),
        Y: (0..n).map(|i| v.any_g1(&format!("Y{}", i + 1))).collect(),
        Z: (0..=n).map(|i| v.any_g2(&format!("Z{}", i))).collect(),
        P_1: v.any_g1("P1"),
        P_2: v.any_g1("P2"),
    }
}
pub fn any_gens<V: Env>(v: &mut V) -> EncryptionGens<V::E> {
    EncryptionGens { G: v.gen_g1("G"), H: v.gen_g2("H") }
}
pub fn gs<V: Env>(v: &mut V, n: usize) -> Vec<A1<V>> {
    (0..n).map(|i| v.gen_g1(&format!("g{}", i))).collect()
}
pub fn chunks<V: Env>(v: &mut V, n: usize, max: u16, pre: &str) -> Vec<u16> {
    (0..n).map(|i| v.chunk(&format!("{pre}{i}"), 0, max)).collect()
}
pub fn f_of<V: Env>(m: u16) -> F<V> {
    F::<V>::from(m as u64)
}
fn split<V: Env>(ct: &[A1<V>]) -> Ciphertext<V::E> {
    Ciphertext { X_r: ct[0], enc_chunks: ct[1..ct.len() - 1].to_vec(), commitment: ct[ct.len() - 1] }
}

// ------------------------------------------------------------------ C04
fn enc_structure<V: Env>(v: &mut V, p: &[u64]) {
    let (n, extra) = (p[0] as usize, p[1] as usize);
    let ek = any_ek(v, n);
    let g = gs(v, n + extra);
    let m = chunks(v, n, u16::MAX, "m");
    let mut rng = v.rng();
    let r = Encryption::<V::E>::encrypt_decomposed_message(&mut rng, m.clone(), &ek, &g);
    let (ct, r) = v.ok("encryption with matching sizes succeeds", r);
    v.that("ciphertext is X_r, n chunks, commitment", ct.len() == n + 2);
    v.nonzero_f("randomness is not zero", r);
    v.eq_g1("X_r = r*X_0", ct[0], mul1::<V>(ek.X_0, r));
    let mut psi = mul1::<V>(ek.P_1, r);
    for i in 0..n {
        let w = add1::<V>(mul1::<V>(ek.X[i], r), mul1::<V>(g[i], f_of::<V>(m[i])));
        v.eq_g1(&format!("c_{i} = r*X_{i} + m_{i}*g_{i}"), ct[i + 1], w);
        psi = add1::<V>(psi, mul1::<V>(ek.Y[i], f_of::<V>(m[i])));
    }
    v.eq_g1("commitment = sum m_i*Y_i + r*P_1", ct[n + 1], psi);
}

/// concrete messages (every byte pattern class), everything else symbolic: the digits of the message
/// are what is encrypted, in big-endian order
fn enc_message<V: Env>(v: &mut V, p: &[u64]) {
    let (b, which) = (p[0], p[1]);
    let n = nchunks(b);
    let msg = message::<V>(which);
    let ek = any_ek(v, n);
    let g = gs(v, n);
    let mut rng = v.rng();
    let r = Encryption::<V::E>::encrypt(&mut rng, &msg, &ek, &g, b as u8);
    let (ct, r) = v.ok("encrypt", r);
    let d = digits::<V>(which, b);
    v.that("one element per chunk", ct.enc_chunks.len() == n);
    v.eq_g1("X_r = r*X_0", ct.X_r, mul1::<V>(ek.X_0, r));
    let mut psi = mul1::<V>(ek.P_1, r);
    for i in 0..n {
        let di = v.lit(d[i]);
        let w = add1::<V>(mul1::<V>(ek.X[i], r), mul1::<V>(g[i], di));
        v.eq_g1(&format!("c_{i} encrypts digit {i}"), ct.enc_chunks[i], w);
        psi = add1::<V>(psi, mul1::<V>(ek.Y[i], di));
    }
    v.eq_g1("commitment = sum m_i*Y_i + r*P_1", ct.commitment, psi);
    // through a verification key the bases are gamma_abc_g1 without its first element
    let mut abc = vec![v.gen_g1("abc0")];
    abc.extend(g.iter().cloned());
    let vk = super::groth::vk_with::<V>(v, abc);
    let r2 = Encryption::<V::E>::encrypt_given_snark_vk(&mut rng, &msg, &ek, &vk, b as u8);
    let (ct2, r2) = v.ok("encrypt_given_snark_vk", r2);
    v.varies_f("randomness is fresh", r - r2);
    v.that("one element per chunk", ct2.enc_chunks.len() == n);
    for i in 0..n {
        let di = v.lit(d[i]);
        let w = add1::<V>(mul1::<V>(ek.X[i], r2), mul1::<V>(g[i], di));
        v.eq_g1(&format!("c_{i} encrypts digit {i}"), ct2.enc_chunks[i], w);
    }
}

/// the machine integers themselves: chunk values block*n .. block*n + n-1 of one block, for every block
/// up to the given number (the solver enumerates the blocks); key elements, bases, randomness arbitrary
fn enc_values<V: Env>(v: &mut V, p: &[u64]) {
    let (n, from, to) = (p[0] as usize, p[1], p[2]);
    let ek = any_ek(v, n);
    let g = gs(v, n);
    let blk = v.pick("block", from, to);
    let m: Vec<u16> = (0..n).map(|i| (blk as usize * n + i) as u16).collect();
    let mut rng = v.rng();
    let r = Encryption::<V::E>::encrypt_decomposed_message(&mut rng, m.clone(), &ek, &g);
    let (ct, r) = v.ok("encryption with matching sizes succeeds", r);
    v.that("ciphertext is X_r, n chunks, commitment", ct.len() == n + 2);
    v.eq_g1("X_r = r*X_0", ct[0], mul1::<V>(ek.X_0, r));
    let mut psi = vec![mul1::<V>(ek.P_1, r)];
    for i in 0..n {
        let mi = v.lit(m[i] as u64);
        let w = add1::<V>(mul1::<V>(ek.X[i], r), mul1::<V>(g[i], mi));
        v.eq_g1(&format!("c = r*X + m*g for chunk value {}", m[i]), ct[i + 1], w);
        psi.push(mul1::<V>(ek.Y[i], mi));
    }
    v.eq_g1("commitment = sum m_i*Y_i + r*P_1", ct[n + 1], sum1::<V>(&psi));
}

/// message whose digit at position j is (x + 4099*j) mod 2^b, top digit below the modulus
pub fn patterned<V: Env>(b: u64, x: u64) -> (F<V>, Vec<u64>) {
    let n = (256 / b) as usize;
    let d: Vec<u64> = (0..n).map(|j| (x + 4099 * j as u64) & ((1 << b) - 1)).collect();
    of_digits::<V>(b, d)
}

/// number of `edged` messages
pub fn edges(b: u64) -> u64 {
    256 / b * 8 * 3
}
/// message with an extreme digit at one position and all-zero, all-maximal or mixed digits elsewhere
pub fn edged<V: Env>(b: u64, x: u64) -> (F<V>, Vec<u64>) {
    let max = (1u64 << b) - 1;
    let e = [0, 1, max, max - 1, 1 << (b - 1), max >> 1, 1 << (b / 2), max >> (b / 2)];
    let (j, e, bg) = ((x / 24) as usize, e[(x / 3 % 8) as usize], x % 3);
    let mut d: Vec<u64> = (0..256 / b).map(|i| [0, max, (4099 * i + 2741) & max][bg as usize]).collect();
    d[j] = e;
    of_digits::<V>(b, d)
}
/// the top digit is kept below the modulus
fn of_digits<V: Env>(b: u64, mut d: Vec<u64>) -> (F<V>, Vec<u64>) {
    d[0] %= 7 << (b - 4);
    let mut m = F::<V>::zero();
    let mut two = F::<V>::one();
    two = two + two;
    let bit = |k: u64, x: u64| x >> k & 1 == 1;
    for x in &d {
        for k in (0..b).rev() {
            m = m * two;
            if bit(k, *x) {
                m = m + F::<V>::one();
            }
        }
    }
    (m, d)
}

/// `encrypt` of messages whose digits run through every value of the chunk range at every position
fn enc_msg_values<V: Env>(v: &mut V, p: &[u64]) {
    let (b, lo, hi, per) = (p[0], p[1], p[2], p[3]);
    let n = nchunks(b);
    let ek = any_ek(v, n);
    let g = gs(v, n);
    let blk = v.pick("block", lo, hi);
    let mut rng = v.rng();
    for x in blk * per..(blk + 1) * per {
        let (msg, d) = if p.len() > 4 { edged::<V>(b, x) } else { patterned::<V>(b, x) };
        let r = Encryption::<V::E>::encrypt(&mut rng, &msg, &ek, &g, b as u8);
        let (ct, r) = v.ok("encrypt", r);
        v.that("one element per chunk", ct.enc_chunks.len() == n);
        let mut psi = vec![mul1::<V>(ek.P_1, r)];
        for i in 0..n {
            let di = v.lit(d[i]);
            let w = add1::<V>(mul1::<V>(ek.X[i], r), mul1::<V>(g[i], di));
            v.eq_g1(&format!("c_{i} encrypts digit {i} = {}", d[i]), ct.enc_chunks[i], w);
            psi.push(mul1::<V>(ek.Y[i], di));
        }
        v.eq_g1("commitment = sum m_i*Y_i + r*P_1", ct.commitment, sum1::<V>(&psi));
    }
}

/// `encrypt` of messages whose digits at positions lo..hi are arbitrary
fn enc_digits<V: Env>(v: &mut V, p: &[u64]) {
    let (b, lo, hi) = (p[0], p[1] as usize, p[2] as usize);
    let n = nchunks(b);
    let ek = any_ek(v, n);
    let g = gs(v, n);
    let (msg, d) = v.message(b, n, lo, hi);
    let mut rng = v.rng();
    let r = Encryption::<V::E>::encrypt(&mut rng, &msg, &ek, &g, b as u8);
    let (ct, r) = v.ok("encrypt", r);
    v.that("one element per chunk", ct.enc_chunks.len() == n);
    let mut psi = vec![mul1::<V>(ek.P_1, r)];
    for i in 0..n {
        let w = add1::<V>(mul1::<V>(ek.X[i], r), mul1::<V>(g[i], d[i]));
        v.eq_g1(&format!("c_{i} encrypts digit {i}"), ct.enc_chunks[i], w);
        psi.push(mul1::<V>(ek.Y[i], d[i]));
    }
    v.eq_g1("X_r = r*X_0", ct.X_r, mul1::<V>(ek.X_0, r));
    v.eq_g1("commitment = sum m_i*Y_i + r*P_1", ct.commitment, sum1::<V>(&psi));
}

fn limbs(which: u64) -> [u64; 4] {
    match which {
        0 => [0; 4],
        1 => [1, 0, 0, 0],
        2 => [0xffffffff00000000, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48], // p-1
        3 => [0x0123456789abcdef, 0xfedcba9876543210, 0x00ff00ff00ff00ff, 0x0102030405060708],
        4 => [0, 0, 0, 0x7000000000000000],
        _ => [0x8000000000000001, 0x1, 0x8000, 0x00000000ffff0000],
    }
}
pub fn message<V: Env>(which: u64) -> F<V> {
    use ark_ff::PrimeField;
    let l = limbs(which);
    let mut b = vec![];
    for x in l.iter().rev() {
        b.extend_from_slice(&x.to_be_bytes());
    }
    F::<V>::from_be_bytes_mod_order(&b)
}
pub fn digits<V: Env>(which: u64, b: u64) -> Vec<u64> {
    let l = limbs(which);
    let n = 256 / b;
    (0..n)
        .map(|i| {
            let pos = b * (n - 1 - i);
            (l[(pos / 64) as usize] >> (pos % 64)) & ((1u64 << b) - 1)
        })
        .collect()
}

/// every shape of key, message and bases: accepted exactly when all sizes agree; never a panic
fn enc_lengths<V: Env>(v: &mut V, p: &[u64]) {
    let k = p[0];
    let nx = v.pick("nX", 0, k) as usize;
    let ny = v.pick("nY", 0, k) as usize;
    let nz = v.pick("nZ", 0, k + 1) as usize;
    let nm = v.pick("nm", 0, k) as usize;
    let ng = v.pick("ng", 0, k) as usize;
    let mut ek = any_ek(v, 0);
    ek.X = (0..nx).map(|i| v.any_g1(&format!("X{}", i + 1))).collect();
    ek.Y = (0..ny).map(|i| v.any_g1(&format!("Y{}", i + 1))).collect();
    ek.Z = (0..nz).map(|i| v.any_g2(&format!("ZZ{}", i))).collect();
    let g = gs(v, ng);
    let m = chunks(v, nm, u16::MAX, "m");
    let mut rng = v.rng();
    let r = Encryption::<V::E>::encrypt_decomposed_message(&mut rng, m, &ek, &g);
    let good = ny == nx && nz == nx + 1 && nm == nx && ng >= nm;
    match r {
        Ok((ct, _)) => {
            v.that("sizes that do not fit are refused", good);
            v.that("ciphertext has one element per chunk", ct.len() == nx + 2);
        }
        Err(SaverError::MalformedEncryptionKey(..)) => v.that("key reported malformed only if it is", ny != nx || nz != nx + 1),
        Err(SaverError::IncompatibleEncryptionKey(..)) => v.that("message size reported only if it differs", nm != nx),
        Err(SaverError::VectorShorterThanExpected(..)) => v.that("bases reported short only if they are", ng < nm),
        Err(_) => v.fail("encryption sizes", "unexpected kind of error"),
    }
}

fn enc_fresh<V: Env>(v: &mut V, p: &[u64]) {
    let n = p[0] as usize;
    let ek = any_ek(v, n);
    let g = gs(v, n);
    let m = chunks(v, n, u16::MAX, "m");
    let mut rng = v.rng();
    let a = Encryption::<V::E>::encrypt_decomposed_message(&mut rng, m.clone(), &ek, &g);
    let (c1, r1) = v.ok("encrypt", a);
    let a = Encryption::<V::E>::encrypt_decomposed_message(&mut rng, m, &ek, &g);
    let (c2, r2) = v.ok("encrypt", a);
    v.varies_f("r of two encryptions", r1 - r2);
    for i in 0..n + 2 {
        v.varies_g1("the same message encrypts differently each time", (c1[i].into_group() - c2[i]).into());
    }
}

fn reenc_fresh<V: Env>(v: &mut V, p: &[u64]) {
    let n = p[0] as usize;
    let gens = any_gens(v);
    let c0 = v.any_g1("c0");
    let c: Vec<_> = (0..n).map(|i| v.any_g1(&format!("c{}", i + 1))).collect();
    let pk = FEncryptionKeyDest::<V::E> { pk: v.any_g1("pk") };
    let sk = any_st(v, n);
    let mut rng = v.rng();
    let r = Encryption::<V::E>::re_encrypt_share(&mut rng, &gens, &c0, &c, &pk, &sk);
    let (w1, g1) = v.ok("share", r);
    let r = Encryption::<V::E>::re_encrypt_share(&mut rng, &gens, &c0, &c, &pk, &sk);
    let (w2, g2) = v.ok("share", r);
    v.varies_g1("g_r of two shares", (g1.into_group() - g2).into());
    for i in 0..n {
        v.varies_g1("w of two shares", (w1[i].into_group() - w2[i]).into());
        v.varies_g1("w_i is masked: not -s_i*c_0", add1::<V>(w1[i], mul1::<V>(c0, sk.s[i])));
    }
}

// ------------------------------------------------------------------ C05
pub struct Keys<V: Env> {
    pub b: Base<V>,
    pub sk: SecretKey<F<V>>,
    pub ek: EncryptionKey<V::E>,
    pub dk: DecryptionKey<V::E>,
    pub rng: V::R,
}
pub fn keys<V: Env>(v: &mut V, kb: u64) -> Keys<V> {
    let b = base(v, nchunks(kb));
    let mut rng = v.rng();
    let r = keygen::<_, V::E>(&mut rng, kb as u8, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g);
    let (sk, ek, dk) = v.ok("keygen", r);
    Keys { b, sk, ek, dk, rng }
}

pub fn keys_for<V: Env>(v: &mut V, b: &Base<V>, kb: u64, rng: &mut V::R) -> (SecretKey<F<V>>, EncryptionKey<V::E>, DecryptionKey<V::E>) {
    let r = keygen::<_, V::E>(rng, kb as u8, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g);
    v.ok("keygen", r)
}

/// chunk `at` symbolic over the whole chunk range lo..=hi, the others fixed
fn dec_roundtrip<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, cb, at, lo, hi, oth, pre) = (p[0], p[1] as u8, p[2] as usize, p[3] as u16, p[4] as u16, p[5] as u16, p[6] == 1);
    let n = nchunks(kb);
    let mut k = keys(v, kb);
    let m: Vec<u16> = (0..n)
        .map(|i| if i == at || at == 99 { v.chunk(&format!("m{i}"), lo, hi) } else { oth })
        .collect();
    let want: Vec<F<V>> = (0..n).map(|i| if i == at || at == 99 { f_of::<V>(m[i]) } else { v.lit(oth as u64) }).collect();
    let r = Encryption::<V::E>::encrypt_decomposed_message(&mut k.rng, m, &k.ek, &k.b.g_i);
    let (ct, r) = v.ok("encrypt", r);
    let c = split::<V>(&ct);
    let nu = mul1::<V>(k.b.delta_g, k.sk.0 * r);
    let (out, got_nu) = if pre {
        let pw = v.ok("pairing powers", k.dk.pairing_powers(cb, &k.b.g_i));
        v.that("one table per chunk", pw.len() == n && pw.iter().all(|t| t.len() == (1usize << cb) - 1));
        let r = Encryption::decrypt_to_chunks_given_pairing_powers(&c.X_r, &c.enc_chunks, &k.sk, k.dk.clone(), &k.b.g_i, cb, Some(&pw));
        v.ok("decryption of an honest ciphertext succeeds", r)
    } else {
        let r = Encryption::decrypt_to_chunks(&c.X_r, &c.enc_chunks, &k.sk, k.dk.clone(), &k.b.g_i, cb);
        v.ok("decryption of an honest ciphertext succeeds", r)
    };
    v.that("one value per chunk", out.len() == n);
    for i in 0..n {
        let o = v.lit(out[i] as u64);
        v.eq_f(&format!("chunk {i} is recovered"), o, want[i]);
    }
    v.eq_g1("nu = rho*r*X_0", got_nu, nu);
    let nus = mul1::<V>(c.X_r, k.sk.0);
    v.eq_g1("nu = rho*X_r", got_nu, nus);
    // the nu-check of the paper, usable without the secret key
    let e1 = pair::<V>(got_nu, k.b.gens.H);
    let e2 = pair::<V>(c.X_r, k.dk.V_0);
    v.eq_gt("e(nu,H) = e(X_r,V_0)", e1, e2);
}

/// all entry points agree on the same ciphertext
fn dec_entry_points<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, cb) = (p[0], p[1] as u8);
    let n = nchunks(kb);
    let mut k = keys(v, kb);
    let m: Vec<u16> = (0..n).map(|i| v.chunk(&format!("m{i}"), 0, (1 << p[2]) - 1)).collect();
    let r = Encryption::<V::E>::encrypt_decomposed_message(&mut k.rng, m, &k.ek, &k.b.g_i);
    let (ct, _) = v.ok("encrypt", r);
    let c = split::<V>(&ct);
    let g = k.b.g_i.clone();
    let r = Encryption::decrypt_to_chunks(&c.X_r, &c.enc_chunks, &k.sk, k.dk.clone(), &g, cb);
    let (out, nu) = v.ok("decrypt_to_chunks", r);
    let pdk = PreparedDecryptionKey::from(k.dk.clone());
    let r = Encryption::decrypt_to_chunks(&c.X_r, &c.enc_chunks, &k.sk, pdk.clone(), &g, cb);
    let (out2, nu2) = v.ok("decrypt_to_chunks, prepared key", r);
    v.that("prepared key: same chunks", out == out2);
    v.eq_g1("prepared key: same nu", nu, nu2);
    let pw = v.ok("pairing powers", pdk.pairing_powers(cb, &g));
    let mut abc = vec![v.gen_g1("abc0")];
    abc.extend(g.iter().cloned());
    let vk = super::groth::vk_with::<V>(v, abc);
    let pw2 = v.ok("pairing powers given vk", k.dk.pairing_powers_given_groth16_vk(cb, &vk));
    v.that("same tables through the verification key", pw == pw2);
    // whole message: composition of the chunks, big-endian
    let mut val = v.lit(0);
    for o in &out {
        let sh = v.lit(1u64 << cb);
        let o = v.lit(*o as u64);
        val = val * sh + o;
    }
    let r = Encryption::decrypt(&c.X_r, &c.enc_chunks, &k.sk, k.dk.clone(), &g, cb);
    let (a, n1) = v.ok("decrypt", r);
    let r = c.decrypt(&k.sk, k.dk.clone(), &g, cb);
    let (b, n2) = v.ok("Ciphertext::decrypt", r);
    let r = c.decrypt_given_pairing_powers(&k.sk, pdk.clone(), &g, cb, &pw);
    let (d, n3) = v.ok("Ciphertext::decrypt_given_pairing_powers", r);
    let r = c.decrypt_given_groth16_vk(&k.sk, pdk.clone(), &vk, cb);
    let (e, n4) = v.ok("Ciphertext::decrypt_given_groth16_vk", r);
    let r = c.decrypt_given_groth16_vk_and_pairing_powers(&k.sk, k.dk.clone(), &vk, cb, &pw);
    let (f, n5) = v.ok("Ciphertext::decrypt_given_groth16_vk_and_pairing_powers", r);
    let r = Encryption::decrypt_given_groth16_vk(&c.X_r, &c.enc_chunks, &k.sk, k.dk.clone(), &vk, cb);
    let (h, n6) = v.ok("decrypt_given_groth16_vk", r);
    let r = Encryption::decrypt_given_groth16_vk_and_pairing_powers(&c.X_r, &c.enc_chunks, &k.sk, k.dk.clone(), &vk, cb, &pw2);
    let (i, n7) = v.ok("decrypt_given_groth16_vk_and_pairing_powers", r);
    for (x, nn) in [(a, n1), (b, n2), (d, n3), (e, n4), (f, n5), (h, n6), (i, n7)] {
        v.eq_f("message = chunks composed big-endian", x, val);
        v.eq_g1("same nu", nn, nu);
    }
}

// ------------------------------------------------------------------ C06
fn any_dk<V: Env>(v: &mut V, n: usize) -> DecryptionKey<V::E> {
    DecryptionKey {
        V_0: v.any_g2("V0"),
        V_1: (0..n).map(|i| v.any_g2(&format!("V1_{i}"))).collect(),
        V_2: (0..n).map(|i| v.any_g2(&format!("V2_{i}"))).collect(),
    }
}

/// the value chunk i decrypts to in the exponent: e(c_i,V_2[i]) - e(rho*c_0,V_1[i])
fn masked<V: Env>(c0: A1<V>, ci: A1<V>, sk: &SecretKey<F<V>>, dk: &DecryptionKey<V::E>, i: usize) -> GT<V> {
    let a = pair::<V>(ci, dk.V_2[i]);
    let b = pair::<V>(mul1::<V>(c0, sk.0), dk.V_1[i]);
    a - b
}

fn dec_sound<V: Env>(v: &mut V, p: &[u64]) {
    let (n, cb, honest_key) = (p[0] as usize, p[1] as u8, p[2] == 1);
    let max = (1u64 << cb) - 1;
    let (sk, dk, g) = if honest_key {
        let k = keys(v, (255 + n as u64 - 1) / n as u64);
        (k.sk.clone(), k.dk.clone(), k.b.g_i.clone())
    } else {
        (SecretKey(v.fresh("rho")), any_dk(v, n), gs(v, n))
    };
    let c0 = v.any_g1("c0");
    let c: Vec<_> = (0..n).map(|i| v.any_g1(&format!("c{}", i + 1))).collect();
    let r = Encryption::<V::E>::decrypt_to_chunks(&c0, &c, &sk, dk.clone(), &g, cb);
    let tab = v.ok("pairing powers", dk.pairing_powers(cb, &g));
    let r2 = Encryption::<V::E>::decrypt_to_chunks_given_pairing_powers(&c0, &c, &sk, dk.clone(), &g, cb, Some(&tab));
    match r {
        Ok((out, nu)) => {
            v.that("one value per chunk", out.len() == n);
            for i in 0..n {
                v.that("value in range", out[i] as u64 <= max);
                let m = masked::<V>(c0, c[i], &sk, &dk, i);
                let o = v.lit(out[i] as u64);
                let w = pair::<V>(mul1::<V>(g[i], o), dk.V_2[i]);
                v.eq_gt(&format!("accepted chunk {i} satisfies the decryption equation"), m, w);
            }
            v.eq_g1("nu = rho*c_0", nu, mul1::<V>(c0, sk.0));
            match r2 {
                Ok((out2, nu2)) => {
                    v.that("precomputed powers give the same chunks", out2 == out);
                    v.eq_g1("precomputed powers give the same nu", nu2, nu);
                }
                Err(_) => v.fail("precomputed powers agree with direct computation", "one succeeds, the other fails"),
            }
        }
        Err(SaverError::CouldNotFindDiscreteLog) => {
            // some chunk has no value in range
            let mut bad = false;
            for i in 0..n {
                let m = masked::<V>(c0, c[i], &sk, &dk, i);
                let mut hit = v.gt_is_one(m);
                let e = pair::<V>(g[i], dk.V_2[i]);
                let mut cur = m;
                for _ in 1..=max {
                    if hit {
                        break;
                    }
                    cur = cur - e;
                    hit = v.gt_is_one(cur);
                }
                if !hit {
                    bad = true;
                    break;
                }
            }
            v.that("refused only when some chunk has no value in range", bad);
            v.that("precomputed powers refuse too", matches!(r2, Err(SaverError::CouldNotFindDiscreteLog)));
        }
        Err(_) => v.fail("decryption", "unexpected kind of error"),
    }
}

/// tables made for a larger chunk size, or with arbitrary surplus entries and tables: what lies beyond
/// the chunk range is not used
/// honest ciphertexts of chunks beyond the chunk size (possible because encryption takes any 16-bit
/// chunk): refused, whatever the other chunks are, with and without tables
fn dec_out_of_range<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, cb, at, oth) = (p[0], p[1] as u8, p[2] as usize, p[3] as u16);
    let n = nchunks(kb);
    let mut k = keys(v, kb);
    let m: Vec<u16> = (0..n).map(|i| if i == at { v.chunk("m", 1 << cb, u16::MAX) } else { oth }).collect();
    let r = Encryption::<V::E>::encrypt_decomposed_message(&mut k.rng, m, &k.ek, &k.b.g_i);
    let (ct, _) = v.ok("encrypt", r);
    let c = split::<V>(&ct);
    let r = Encryption::<V::E>::decrypt_to_chunks(&c.X_r, &c.enc_chunks, &k.sk, k.dk.clone(), &k.b.g_i, cb);
    v.that("a chunk beyond the range is refused", matches!(r, Err(SaverError::CouldNotFindDiscreteLog)));
    let tab = v.ok("pairing powers", k.dk.pairing_powers(cb, &k.b.g_i));
    let r = Encryption::<V::E>::decrypt_to_chunks_given_pairing_powers(&c.X_r, &c.enc_chunks, &k.sk, k.dk.clone(), &k.b.g_i, cb, Some(&tab));
    v.that("a chunk beyond the range is refused, with tables", matches!(r, Err(SaverError::CouldNotFindDiscreteLog)));
}

fn dec_long_tables<V: Env>(v: &mut V, p: &[u64]) {
    let (n, cb, more) = (p[0] as usize, p[1] as u8, p[2] as u8);
    let sk = SecretKey(v.fresh("rho"));
    let dk = any_dk(v, n);
    let g = gs(v, n);
    let c0 = v.any_g1("c0");
    let c: Vec<_> = (0..n).map(|i| v.any_g1(&format!("c{}", i + 1))).collect();
    let r = Encryption::<V::E>::decrypt_to_chunks(&c0, &c, &sk, dk.clone(), &g, cb);
    let mut tab = v.ok("pairing powers", dk.pairing_powers(cb + more, &g));
    if more == 0 {
        for (i, t) in tab.iter_mut().enumerate() {
            for k in 0..2 {
                let a = v.any_g1(&format!("surplus{i}_{k}"));
                t.push(pair::<V>(a, dk.V_2[0]));
            }
        }
        let t = tab[0].clone();
        tab.push(t);
    }
    let r2 = Encryption::<V::E>::decrypt_to_chunks_given_pairing_powers(&c0, &c, &sk, dk.clone(), &g, cb, Some(&tab));
    match (r, r2) {
        (Ok((a, _)), Ok((b, _))) => {
            v.that("value in range", b.iter().all(|x| (*x as u64) < 1u64 << cb));
            v.that("surplus entries of the tables do not matter", a == b);
        }
        (Err(SaverError::CouldNotFindDiscreteLog), Err(SaverError::CouldNotFindDiscreteLog)) => v.that("both refuse", true),
        _ => v.fail("decryption with longer tables agrees with decryption without", "one succeeds, the other fails"),
    }
}

/// tables that are cut short: an error or a correct answer, never a panic or a wrong value
fn dec_short_tables<V: Env>(v: &mut V, p: &[u64]) {
    let (n, cb) = (p[0] as usize, p[1] as u8);
    let full = (1usize << cb) - 1;
    let sk = SecretKey(v.fresh("rho"));
    let dk = any_dk(v, n);
    let g = gs(v, n);
    let c0 = v.any_g1("c0");
    let c: Vec<_> = (0..n).map(|i| v.any_g1(&format!("c{}", i + 1))).collect();
    let tab = v.ok("pairing powers", dk.pairing_powers(cb, &g));
    let outer = v.pick("outer", 0, n as u64) as usize;
    let at = v.pick("at", 0, n as u64 - 1) as usize;
    let inner = v.pick("inner", 0, full as u64) as usize;
    let mut t: Vec<Vec<GT<V>>> = tab[..outer].to_vec();
    if at < outer {
        t[at].truncate(inner);
    }
    let whole = outer == n && inner == full;
    let r = Encryption::<V::E>::decrypt_to_chunks_given_pairing_powers(&c0, &c, &sk, dk.clone(), &g, cb, Some(&t));
    match r {
        Ok((out, _)) => {
            for i in 0..n {
                let m = masked::<V>(c0, c[i], &sk, &dk, i);
                let o = v.lit(out[i] as u64);
                let w = pair::<V>(mul1::<V>(g[i], o), dk.V_2[i]);
                v.eq_gt(&format!("accepted chunk {i} satisfies the decryption equation"), m, w);
            }
        }
        Err(SaverError::InvalidPairingPowers) => v.that("complete tables are not called invalid", !whole),
        Err(SaverError::CouldNotFindDiscreteLog) => v.that("undecryptable", true),
        Err(_) => v.fail("decryption with short tables", "unexpected kind of error"),
    }
}

fn dec_lengths<V: Env>(v: &mut V, p: &[u64]) {
    let k = p[0];
    let cb = 1u8;
    let n1 = v.pick("nV1", 0, k) as usize;
    let n2 = v.pick("nV2", 0, k) as usize;
    let nc = v.pick("nc", 0, k) as usize;
    let ng = v.pick("ng", 0, k) as usize;
    let mut dk = any_dk(v, 0);
    dk.V_1 = (0..n1).map(|i| v.any_g2(&format!("A{i}"))).collect();
    dk.V_2 = (0..n2).map(|i| v.any_g2(&format!("B{i}"))).collect();
    let g = gs(v, ng);
    let sk = SecretKey(v.fresh("rho"));
    let c0 = v.any_g1("c0");
    let c: Vec<_> = (0..nc).map(|i| v.any_g1(&format!("c{}", i + 1))).collect();
    let r = Encryption::<V::E>::decrypt_to_chunks(&c0, &c, &sk, dk, &g, cb);
    let good = n1 == n2 && nc == n1 && ng >= nc;
    match r {
        Ok((o, _)) => {
            v.that("sizes that do not fit are refused", good);
            v.that("one value per chunk", o.len() == nc);
        }
        Err(SaverError::CouldNotFindDiscreteLog) => v.that("sizes that do not fit are refused", good),
        Err(SaverError::MalformedDecryptionKey(..)) => v.that("key reported malformed only if it is", n1 != n2),
        Err(SaverError::IncompatibleDecryptionKey(..)) => v.that("size reported only if it differs", nc != n1),
        Err(SaverError::VectorShorterThanExpected(..)) => v.that("bases reported short only if they are", ng < nc),
        Err(_) => v.fail("decryption sizes", "unexpected kind of error"),
    }
}

// ------------------------------------------------------------------ C07
fn commit_residual<V: Env>(c: &Ciphertext<V::E>, z: &[A2<V>], h: A2<V>) -> GT<V> {
    let mut r = pair::<V>(c.X_r, z[0]);
    for i in 0..c.enc_chunks.len() {
        r += pair::<V>(c.enc_chunks[i], z[i + 1]);
    }
    r - pair::<V>(c.commitment, h)
}
fn any_ct<V: Env>(v: &mut V, n: usize, pre: &str) -> Ciphertext<V::E> {
    Ciphertext {
        X_r: v.any_g1(&format!("{pre}X_r")),
        enc_chunks: (0..n).map(|i| v.any_g1(&format!("{pre}c{i}"))).collect(),
        commitment: v.any_g1(&format!("{pre}psi")),
    }
}
fn verdict<V: Env>(v: &mut V, l: &str, r: Result<(), SaverError>) -> bool {
    match r {
        Ok(()) => true,
        Err(SaverError::InvalidCommitment) => false,
        Err(_) => {
            v.fail(l, "unexpected kind of error");
            false
        }
    }
}

fn commit_iff<V: Env>(v: &mut V, p: &[u64]) {
    let n = p[0] as usize;
    let ek = any_ek(v, n);
    let gens = any_gens(v);
    let c = any_ct(v, n, "");
    let r = Encryption::verify_ciphertext_commitment(&c.X_r, &c.enc_chunks, &c.commitment, ek.clone(), gens.clone());
    let a = verdict(v, "verify_ciphertext_commitment", r);
    v.iff_gt("commitment check", a, commit_residual::<V>(&c, &ek.Z, gens.H));
    let r = Encryption::verify_ciphertext_commitment(
        &c.X_r,
        &c.enc_chunks,
        &c.commitment,
        PreparedEncryptionKey::from(ek.clone()),
        PreparedEncryptionGens::from(gens.clone()),
    );
    let b = verdict(v, "prepared", r);
    v.that("prepared key and generators give the same verdict", a == b);
    let d = verdict(v, "method", c.verify_commitment(ek.clone(), gens.clone()));
    v.that("Ciphertext::verify_commitment gives the same verdict", a == d);
}

/// honest ciphertexts pass; an altered one passes only if the alteration cancels in the equation
fn commit_honest<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, parties) = (p[0], p[1] as usize);
    let n = nchunks(kb);
    let b = base(v, n);
    let mut rng = v.rng();
    let ek = if parties == 0 {
        let r = keygen::<_, V::E>(&mut rng, kb as u8, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g);
        v.ok("keygen", r).1
    } else {
        dist(v, &b, kb as u8, parties).ek
    };
    let m = chunks(v, n, u16::MAX, "m");
    let r = Encryption::<V::E>::encrypt_decomposed_message(&mut rng, m, &ek, &b.g_i);
    let (ct, _) = v.ok("encrypt", r);
    let c = split::<V>(&ct);
    v.ok("an honest ciphertext passes the commitment check", c.verify_commitment(ek.clone(), b.gens.clone()));
    // alter any one element
    let at = v.pick("at", 0, n as u64 + 1) as usize;
    let d = v.gen_g1("alteration");
    let mut c2 = c.clone();
    if at == 0 {
        c2.X_r = add1::<V>(c2.X_r, d);
    } else if at <= n {
        c2.enc_chunks[at - 1] = add1::<V>(c2.enc_chunks[at - 1], d);
    } else {
        c2.commitment = add1::<V>(c2.commitment, d);
    }
    // Z_i of an honest key are non-zero with certainty only for a single drawn t
    let z = if at <= n { ek.Z[at] } else { b.gens.H };
    let ok = verdict(v, "altered", c2.verify_commitment(ek, b.gens.clone()));
    v.iff_gt("altered ciphertext", ok, pair::<V>(d, z));
    if parties == 0 {
        v.that("a ciphertext altered in one element is rejected", !ok);
    }
}

fn commit_lengths<V: Env>(v: &mut V, p: &[u64]) {
    let k = p[0];
    let nx = v.pick("nX", 0, k) as usize;
    let ny = v.pick("nY", 0, k) as usize;
    let nz = v.pick("nZ", 0, k + 1) as usize;
    let nc = v.pick("nc", 0, k) as usize;
    let gens = any_gens(v);
    let mut ek = any_ek(v, 0);
    ek.X = (0..nx).map(|i| v.any_g1(&format!("X{}", i + 1))).collect();
    ek.Y = (0..ny).map(|i| v.any_g1(&format!("Y{}", i + 1))).collect();
    ek.Z = (0..nz).map(|i| v.any_g2(&format!("ZZ{}", i))).collect();
    let c = any_ct(v, nc, "");
    let batch = v.flag("batch");
    let r = if batch {
        let c2 = any_ct(v, nx, "second");
        let r1 = v.fresh("r0");
        let r2 = v.fresh("r1");
        Encryption::verify_commitments_in_batch(&[c2, c.clone()], &[r1, r2], ek.clone(), gens)
    } else {
        Encryption::verify_ciphertext_commitment(&c.X_r, &c.enc_chunks, &c.commitment, ek.clone(), gens)
    };
    let shape = ny == nx && nz == nx + 1;
    match r {
        Ok(()) | Err(SaverError::InvalidCommitment) => v.that("sizes that do not fit are refused", shape && nc == nx),
        Err(SaverError::MalformedEncryptionKey(..)) => v.that("key reported malformed only if it is", !shape),
        Err(SaverError::IncompatibleEncryptionKey(a, b)) => {
            v.that("size reported only if it differs", nc != nx);
            v.that("error names both sizes", a == nc && b == nx);
        }
        Err(_) => v.fail("commitment check sizes", "unexpected kind of error"),
    }
}

// ------------------------------------------------------------------ C08
fn batch_iff<V: Env>(v: &mut V, p: &[u64]) {
    let (n, k) = (p[0] as usize, p[1] as usize);
    let ek = any_ek(v, n);
    let gens = any_gens(v);
    let cs: Vec<_> = (0..k).map(|j| any_ct(v, n, &format!("ct{j}_"))).collect();
    let rs: Vec<_> = (0..k).map(|j| v.fresh(&format!("r{j}"))).collect();
    let r = Encryption::verify_commitments_in_batch(&cs, &rs, ek.clone(), gens.clone());
    let a = verdict(v, "batch", r);
    let mut res = GT::<V>::zero();
    for j in 0..k {
        res += commit_residual::<V>(&cs[j], &ek.Z, gens.H) * rs[j];
    }
    v.iff_gt("batch check", a, res);
    let r = Encryption::verify_commitments_in_batch(&cs, &rs, PreparedEncryptionKey::from(ek), PreparedEncryptionGens::from(gens));
    let b = verdict(v, "batch", r);
    v.that("prepared key and generators give the same verdict", a == b);
}

/// any ciphertext of another size makes the batch refused
fn batch_lengths<V: Env>(v: &mut V, p: &[u64]) {
    let (n, k, lo, hi) = (p[0] as usize, p[1] as usize, p[2], p[3]);
    let ek = any_ek(v, n);
    let gens = any_gens(v);
    let lens: Vec<usize> = (0..k).map(|j| v.pick(&format!("n{j}"), lo, hi) as usize).collect();
    let cs: Vec<_> = (0..k).map(|j| any_ct(v, lens[j], &format!("ct{j}_"))).collect();
    let rs: Vec<_> = (0..k).map(|j| v.fresh(&format!("r{j}"))).collect();
    let r = Encryption::verify_commitments_in_batch(&cs, &rs, ek, gens);
    let fits = lens.iter().all(|l| *l == n);
    match r {
        Ok(()) | Err(SaverError::InvalidCommitment) => v.that("a batch with a ciphertext of another size is refused", fits),
        Err(SaverError::IncompatibleEncryptionKey(a, b)) => {
            v.that("size reported only if one differs", !fits);
            v.that("error names a size that differs and the key's", a != n && b == n && lens.contains(&a));
        }
        Err(_) => v.fail("batch sizes", "unexpected kind of error"),
    }
}

/// all valid => accepted whatever the weights; exactly one invalid with non-zero weight => rejected
fn batch_honest<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, k) = (p[0], p[1] as usize);
    let n = nchunks(kb);
    let mut key = keys(v, kb);
    let mut cs = vec![];
    for j in 0..k {
        let m = chunks(v, n, u16::MAX, &format!("m{j}_"));
        let r = Encryption::<V::E>::encrypt_decomposed_message(&mut key.rng, m, &key.ek, &key.b.g_i);
        let (ct, _) = v.ok("encrypt", r);
        cs.push(split::<V>(&ct));
    }
    let rs: Vec<_> = (0..k).map(|j| v.fresh_nz(&format!("r{j}"))).collect();
    let r = Encryption::verify_commitments_in_batch(&cs, &rs, key.ek.clone(), key.b.gens.clone());
    v.ok("a batch of honest ciphertexts is accepted", r);
    let at = v.pick("at", 0, k as u64 - 1) as usize;
    let d = v.gen_g1("alteration");
    let pos = v.pick("pos", 0, n as u64 + 1) as usize;
    if pos == 0 {
        cs[at].X_r = add1::<V>(cs[at].X_r, d);
    } else if pos <= n {
        cs[at].enc_chunks[pos - 1] = add1::<V>(cs[at].enc_chunks[pos - 1], d);
    } else {
        cs[at].commitment = add1::<V>(cs[at].commitment, d);
    }
    let r = Encryption::verify_commitments_in_batch(&cs, &rs, key.ek.clone(), key.b.gens.clone());
    v.that("a batch with one altered ciphertext is rejected", matches!(r, Err(SaverError::InvalidCommitment)));
}

// ------------------------------------------------------------------ C11
fn add_linear<V: Env>(v: &mut V, p: &[u64]) {
    let n = p[0] as usize;
    let a: Vec<_> = (0..n).map(|i| v.any_g1(&format!("a{i}"))).collect();
    let b: Vec<_> = (0..n).map(|i| v.any_g1(&format!("b{i}"))).collect();
    let r = Encryption::<V::E>::add_cts(&a, &b);
    let s = v.ok("add_cts of equal sizes", r);
    v.that("same size", s.len() == n);
    for i in 0..n {
        v.eq_g1("element-wise sum", s[i], add1::<V>(a[i], b[i]));
    }
}

/// K ciphertexts added under one key decrypt to the chunk-wise sums when these are in range, and are
/// refused otherwise; the sum still passes the commitment check
fn add_decrypt<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, cb, k, hi) = (p[0], p[1] as u8, p[2] as usize, p[3] as u16);
    let n = nchunks(kb);
    let mut key = keys(v, kb);
    let mut acc: Vec<A1<V>> = vec![];
    let mut sums: Vec<F<V>> = vec![F::<V>::zero(); n];
    for j in 0..k {
        // the first summand over its own range when one is given
        let (lo, hi) = if j == 0 && p.len() > 5 { (p[4] as u16, p[5] as u16) } else { (0, hi) };
        let m: Vec<u16> = (0..n).map(|i| v.chunk(&format!("m{j}_{i}"), lo, hi)).collect();
        for i in 0..n {
            sums[i] += f_of::<V>(m[i]);
        }
        let r = Encryption::<V::E>::encrypt_decomposed_message(&mut key.rng, m, &key.ek, &key.b.g_i);
        let (ct, _) = v.ok("encrypt", r);
        acc = if j == 0 {
            ct
        } else {
            let r = Encryption::<V::E>::add_cts(&acc, &ct);
            v.ok("add_cts", r)
        };
    }
    let c = split::<V>(&acc);
    v.ok("the sum passes the commitment check", c.verify_commitment(key.ek.clone(), key.b.gens.clone()));
    let r = Encryption::<V::E>::decrypt_to_chunks(&c.X_r, &c.enc_chunks, &key.sk, key.dk.clone(), &key.b.g_i, cb);
    match r {
        Ok((o, _)) => {
            v.that("one value per chunk", o.len() == n);
            for i in 0..n {
                let l = v.lit(o[i] as u64);
                v.eq_f("decrypts to the sum", l, sums[i]);
            }
        }
        Err(SaverError::CouldNotFindDiscreteLog) => {
            // only when some sum exceeds the chunk range
            let mut all_in = true;
            for i in 0..n {
                let mut inr = false;
                for j in 0..(1u64 << cb) {
                    let l = v.lit(j);
                    if sums[i] == l {
                        inr = true;
                        break;
                    }
                }
                all_in &= inr;
            }
            v.that("refused only when a sum is out of range", !all_in);
        }
        Err(_) => v.fail("decryption of a sum", "unexpected kind of error"),
    }
}

// ------------------------------------------------------------------ C12, C13
pub fn any_st<V: Env>(v: &mut V, n: usize) -> SecretKeyST<V::E> {
    SecretKeyST { s: (0..n).map(|i| v.fresh(&format!("s{i}"))).collect(), t: (0..=n).map(|i| v.fresh(&format!("t{i}"))).collect() }
}

/// one share, for arbitrary ciphertext, secret and destination key
fn reenc_share<V: Env>(v: &mut V, p: &[u64]) {
    let n = p[0] as usize;
    let gens = any_gens(v);
    let c0 = v.any_g1("c0");
    let c: Vec<_> = (0..n).map(|i| v.any_g1(&format!("c{}", i + 1))).collect();
    let x = v.fresh("dest");
    let pk = FEncryptionKeyDest::<V::E> { pk: mul1::<V>(gens.G, x) };
    let sk = any_st(v, n);
    let mut rng = v.rng();
    let r = Encryption::<V::E>::re_encrypt_share(&mut rng, &gens, &c0, &c, &pk, &sk);
    let (w, gr) = v.ok("share", r);
    v.that("one element per chunk", w.len() == n);
    v.nonzero_g1("the share is masked", gr);
    for i in 0..n {
        // w_i = -s_i c_0 + rho pk with g_r = rho G, pk = x G
        let want = add1::<V>(neg1::<V>(mul1::<V>(c0, sk.s[i])), mul1::<V>(gr, x));
        v.eq_g1(&format!("w_{i} = -s_{i}*c_0 + rho*pk"), w[i], want);
    }
}

fn reenc_combine<V: Env>(v: &mut V, p: &[u64]) {
    let n = p[0] as usize;
    let gens = any_gens(v);
    let (ga, gb) = (v.any_g1("ga"), v.any_g1("gb"));
    let wa: Vec<_> = (0..n).map(|i| v.any_g1(&format!("wa{i}"))).collect();
    let wb: Vec<_> = (0..n).map(|i| v.any_g1(&format!("wb{i}"))).collect();
    let c: Vec<_> = (0..n).map(|i| v.any_g1(&format!("c{i}"))).collect();
    let r = Encryption::<V::E>::combine_re_encrypt_share(&ga, &gb, &wa, &wb);
    let (w, g) = v.ok("combine shares", r);
    v.that("same size", w.len() == n);
    v.eq_g1("g_r sums", g, add1::<V>(ga, gb));
    for i in 0..n {
        v.eq_g1("w sums", w[i], add1::<V>(wa[i], wb[i]));
    }
    let r = Encryption::<V::E>::combine_ct_with_w(&gens, &c, &g, &w);
    let ct = v.ok("combine with ciphertext", r);
    v.that("one more element than chunks", ct.len() == n + 1);
    v.eq_g1("first element is g_r", ct[0], g);
    for i in 0..n {
        v.eq_g1("c_i + w_i", ct[i + 1], add1::<V>(c[i], w[i]));
    }
}

struct Re<V: Env> {
    g_i: Vec<A1<V>>,
    x: SecretKey<F<V>>,
    ct0: A1<V>,
    out: Vec<A1<V>>,
    m: Vec<u16>,
    missing: Vec<F<V>>,
    s: Vec<Vec<F<V>>>,
}
/// keys of `parties`, a ciphertext, shares of all parties except those in `skip`
fn reenc_run<V: Env>(v: &mut V, kb: u64, parties: usize, (lo, hi): (u16, u16), skip: Option<usize>, sums: usize) -> Re<V> {
    let n = nchunks(kb);
    let b = base(v, n);
    let d = dist(v, &b, kb as u8, parties);
    let mut rng = v.rng();
    let r = Fkeygen_dest::<_, V::E>(&mut rng, &b.gens);
    let (x, pk) = v.ok("Fkeygen_dest", r);
    let mut ct: Vec<A1<V>> = vec![];
    let mut m = vec![];
    for j in 0..sums {
        m = (0..n).map(|i| v.chunk(&format!("m{j}_{i}"), lo, hi)).collect();
        let r = Encryption::<V::E>::encrypt_decomposed_message(&mut rng, m.clone(), &d.ek, &b.g_i);
        let (c, _) = v.ok("encrypt", r);
        ct = if j == 0 {
            c
        } else {
            let r = Encryption::<V::E>::add_cts(&ct, &c);
            v.ok("add_cts", r)
        };
    }
    let c = split::<V>(&ct);
    let mut acc: Option<(Vec<A1<V>>, A1<V>)> = None;
    let mut missing = vec![F::<V>::zero(); n];
    for (j, sk) in d.sks.iter().enumerate() {
        if skip == Some(j) {
            for i in 0..n {
                missing[i] += sk.s[i];
            }
            continue;
        }
        let r = Encryption::<V::E>::re_encrypt_share(&mut rng, &b.gens, &c.X_r, &c.enc_chunks, &pk, sk);
        let (w, g) = v.ok("share", r);
        acc = Some(match acc {
            None => (w, g),
            Some((w0, g0)) => {
                let r = Encryption::<V::E>::combine_re_encrypt_share(&g0, &g, &w0, &w);
                v.ok("combine shares", r)
            }
        });
    }
    let (w, g) = acc.unwrap();
    let r = Encryption::<V::E>::combine_ct_with_w(&b.gens, &c.enc_chunks, &g, &w);
    let out = v.ok("combine with ciphertext", r);
    let s = d.sks.iter().map(|k| k.s.clone()).collect();
    Re { g_i: b.g_i, x, ct0: c.X_r, out, m, missing, s }
}

fn reenc_decrypt<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, parties, cb, hi, lo) = (p[0], p[1] as usize, p[2] as u8, p[3] as u16, p[4] as u16);
    let n = nchunks(kb);
    let re = reenc_run(v, kb, parties, (lo, hi), None, 1);
    v.that("n+1 elements", re.out.len() == n + 1);
    let r = Encryption::<V::E>::decrypt_to_chunks_after_re_encryption(&re.out[0], &re.out[1..], &re.x, &re.g_i, cb);
    let o = v.ok("the destination can decrypt", r);
    v.that("one value per chunk", o.len() == n);
    for i in 0..n {
        let l = v.lit(o[i] as u64);
        v.eq_f(&format!("chunk {i} is recovered"), l, f_of::<V>(re.m[i]));
    }
}

/// values the destination's chunk size cannot represent are refused, not wrapped
fn reenc_out_of_range<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, parties, cb) = (p[0], p[1] as usize, p[2] as u8);
    let re = reenc_run(v, kb, parties, (1 << cb, u16::MAX), None, 1);
    let r = Encryption::<V::E>::decrypt_to_chunks_after_re_encryption(&re.out[0], &re.out[1..], &re.x, &re.g_i, cb);
    v.that("a chunk beyond the range is refused", matches!(r, Err(SaverError::CouldNotFindDiscreteLog)));
}

/// the same for every u16 chunk value, stated on the group elements (no discrete log search)
fn reenc_algebra<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, parties) = (p[0], p[1] as usize);
    let n = nchunks(kb);
    let re = reenc_run(v, kb, parties, (0, u16::MAX), None, 1);
    v.that("n+1 elements", re.out.len() == n + 1);
    for i in 0..n {
        let open = add1::<V>(re.out[i + 1], neg1::<V>(mul1::<V>(re.out[0], re.x.0)));
        v.eq_g1(&format!("opened chunk {i} = m_{i}*g_{i}"), open, mul1::<V>(re.g_i[i], f_of::<V>(re.m[i])));
    }
}

/// with party `skip` missing every chunk stays masked by that party's secret
fn reenc_missing<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, parties) = (p[0], p[1] as usize);
    let n = nchunks(kb);
    let skip = v.pick("missing party", 0, parties as u64 - 1) as usize;
    let re = reenc_run(v, kb, parties, (0, u16::MAX), Some(skip), 1);
    for i in 0..n {
        let open = add1::<V>(re.out[i + 1], neg1::<V>(mul1::<V>(re.out[0], re.x.0)));
        let m = mul1::<V>(re.g_i[i], f_of::<V>(re.m[i]));
        let mask = mul1::<V>(re.ct0, re.missing[i]);
        v.eq_g1(&format!("opened chunk {i} = m_{i}*g_{i} + s_missing*c_0"), open, add1::<V>(m, mask));
        v.nonzero_g1(&format!("the mask on chunk {i} is not trivial"), mask);
    }
    for a in 0..parties {
        for i in 0..n {
            for j in 0..i {
                v.varies_f("the masks of two chunks differ", re.s[a][i] - re.s[a][j]);
            }
            for b in 0..a {
                v.varies_f("the masks of two parties differ", re.s[a][i] - re.s[b][i]);
            }
        }
    }
}

// ------------------------------------------------------------------ C14
fn dest_sound<V: Env>(v: &mut V, p: &[u64]) {
    let (n, cb) = (p[0] as usize, p[1] as u8);
    let max = (1u64 << cb) - 1;
    let sk = SecretKey(v.fresh("x"));
    let g = gs(v, n);
    let c0 = v.any_g1("c0");
    let c: Vec<_> = (0..n).map(|i| v.any_g1(&format!("c{}", i + 1))).collect();
    let open: Vec<A1<V>> = c.iter().map(|ci| add1::<V>(*ci, neg1::<V>(mul1::<V>(c0, sk.0)))).collect();
    let r = Encryption::<V::E>::decrypt_to_chunks_after_re_encryption(&c0, &c, &sk, &g, cb);
    match r {
        Ok(o) => {
            v.that("one value per chunk", o.len() == n);
            for i in 0..n {
                v.that("value in range", o[i] as u64 <= max);
                let l = v.lit(o[i] as u64);
                v.eq_g1(&format!("accepted chunk {i}: c_{i} - x*c_0 = value*g_{i}"), open[i], mul1::<V>(g[i], l));
            }
        }
        Err(SaverError::CouldNotFindDiscreteLog) => {
            let mut bad = false;
            for i in 0..n {
                let mut hit = false;
                let mut cur = open[i];
                for _ in 0..=max {
                    if cur.is_zero() {
                        hit = true;
                        break;
                    }
                    cur = add1::<V>(cur, neg1::<V>(g[i]));
                }
                if !hit {
                    bad = true;
                    break;
                }
            }
            v.that("refused only when some chunk has no value in range", bad);
        }
        Err(_) => v.fail("destination decryption", "unexpected kind of error"),
    }
}

fn dest_short<V: Env>(v: &mut V, p: &[u64]) {
    let k = p[0];
    let nc = v.pick("nc", 0, k) as usize;
    let ng = v.pick("ng", 0, k) as usize;
    let sk = SecretKey(v.fresh("x"));
    let g = gs(v, ng);
    let c0 = v.any_g1("c0");
    let c: Vec<_> = (0..nc).map(|i| v.any_g1(&format!("c{}", i + 1))).collect();
    let r = Encryption::<V::E>::decrypt_to_chunks_after_re_encryption(&c0, &c, &sk, &g, 1);
    match r {
        Ok(o) => v.that("sizes fit", ng >= nc && o.len() == nc),
        Err(SaverError::VectorShorterThanExpected(..)) => v.that("bases reported short only if they are", ng < nc),
        Err(SaverError::CouldNotFindDiscreteLog) => v.that("sizes fit", ng >= nc),
        Err(_) => v.fail("destination decryption", "unexpected kind of error"),
    }
}

// ------------------------------------------------------------------ C21
fn lengths_combine<V: Env>(v: &mut V, p: &[u64]) {
    let (k, which) = (p[0], p[1]);
    // above 3: every combination of these sizes
    const L: [usize; 17] = [0, 1, 2, 4, 8, 15, 16, 17, 31, 32, 64, 65, 128, 255, 256, 257, 512];
    let size = |x: u64| if k > 3 { L[x as usize] } else { x as usize };
    let na = size(v.pick("na", 0, k));
    let nb = size(v.pick("nb", 0, k));
    let a: Vec<_> = (0..na).map(|i| v.any_g1(&format!("a{i}"))).collect();
    let b: Vec<_> = (0..nb).map(|i| v.any_g1(&format!("b{i}"))).collect();
    let gens = any_gens(v);
    let (x, y) = (v.any_g1("x"), v.any_g1("y"));
    let r: Result<(), SaverError> = match which {
        0 => Encryption::<V::E>::add_cts(&a, &b).map(|_| ()),
        1 => Encryption::<V::E>::combine_re_encrypt_share(&x, &y, &a, &b).map(|_| ()),
        2 => Encryption::<V::E>::combine_ct_with_w(&gens, &a, &x, &b).map(|_| ()),
        _ => {
            let mut sk = any_st(v, 0);
            sk.s = (0..nb).map(|i| v.fresh(&format!("s{i}"))).collect();
            let pk = FEncryptionKeyDest::<V::E> { pk: y };
            let mut rng = v.rng();
            Encryption::<V::E>::re_encrypt_share(&mut rng, &gens, &x, &a, &pk, &sk).map(|_| ())
        }
    };
    match r {
        Ok(()) => v.that("inputs of different sizes are refused", na == nb),
        Err(_) => v.that("inputs of equal sizes are accepted", na != nb),
    }
}

pub fn reg(v: &mut Vec<H>) {
    const EF: &str = "encryption::Encryption::encrypt_decomposed_message, EncryptionKey::supported_chunks_count, EncryptionKey::commitment_key";
    for n in super::sizes() {
        harness!(v, "C04", format!("enc_structure_n{n}"), quick, enc_structure, [n, n % 3], EF, format!("{n} chunks, arbitrary key elements, bases, chunk values and randomness"));
    }
    for n in super::sizes_more() {
        harness!(v, "C04", format!("enc_structure_n{n}"), thorough, enc_structure, [n, 0], EF, format!("{n} chunks, arbitrary key elements, bases, chunk values and randomness"));
    }
    for b in [4u64, 8, 16] {
        for w in 0..6u64 {
            harness!(v, "C04", format!("enc_message_b{b}_m{w}"), quick, enc_message, [b, w], "encryption::Encryption::{encrypt, encrypt_given_snark_vk}, utils::decompose",
                format!("chunk_bit_size {b}, message pattern {w}; key, bases and randomness symbolic"));
        }
    }
    for (n, to) in [(128u64, 511u64), (3, 5)] {
        harness!(v, "C04", format!("enc_values_n{n}"), quick, enc_values, [n, 0, to], EF, format!("{n} chunks with every value below {}, key elements, bases and randomness arbitrary", (to + 1) * n));
    }
    harness!(v, "C04", "enc_values_n255", thorough, enc_values, [255, 0, 256], EF, "255 chunks with every 16-bit value, key elements, bases and randomness arbitrary");
    const EM: &str = "encryption::Encryption::encrypt, utils::decompose";
    for (b, hi, per) in [(4u64, 1u64, 8u64), (8, 15, 16), (16, 255, 8)] {
        harness!(v, "C04", format!("enc_msg_values_b{b}"), quick, enc_msg_values, [b, 0, hi, per], EM, format!("chunk size {b}, {} patterned messages; key, bases and randomness arbitrary", (hi + 1) * per));
    }
    for (b, parts) in [(4u64, 8u64), (8, 4), (16, 2)] {
        for k in 0..parts {
            let per = 8;
            let n = edges(b) / per / parts;
            harness!(v, "C04", format!("enc_msg_edges_b{b}_{k}"), quick, enc_msg_values, [b, k * n, (k + 1) * n - 1, per, 1], EM, format!("chunk size {b}, {} messages with an extreme digit at one position, extreme or mixed digits elsewhere; key, bases and randomness arbitrary", n * per));
        }
    }
    harness!(v, "C04", "enc_msg_values_b16_all", thorough, enc_msg_values, [16, 0, 4095, 16], EM, "chunk size 16, every digit value at every position; key, bases and randomness arbitrary", 6, 1800);
    for (b, lo, hi) in [(8u64, 0u64, 32u64), (16, 0, 16), (4, 0, 7), (4, 29, 36), (4, 57, 64)] {
        harness!(v, "C04", format!("enc_digits_b{b}_{lo}_{hi}"), quick, enc_digits, [b, lo, hi], EM, format!("chunk size {b}, digits {lo}..{hi} of the message arbitrary (others 0), key, bases and randomness arbitrary"));
    }
    harness!(v, "C04", "enc_lengths_k2", quick, enc_lengths, [2], EF, "every combination of sizes of X, Y, Z, message, bases in 0..2 (Z 0..3)");
    harness!(v, "C04", "enc_lengths_k3", thorough, enc_lengths, [3], EF, "every combination of sizes of X, Y, Z, message, bases in 0..3 (Z 0..4)", 6, 900);
    for n in [1u64, 3] {
        harness!(v, "C22", format!("enc_fresh_n{n}"), quick, enc_fresh, [n], EF, format!("{n} chunks, two encryptions of the same message"));
        harness!(v, "C22", format!("reenc_fresh_n{n}"), quick, reenc_fresh, [n], "encryption::Encryption::re_encrypt_share", format!("{n} chunks, two shares for the same ciphertext"));
    }

    const DF: &str = "encryption::Encryption::{decrypt_to_chunks, decrypt_to_chunks_given_pairing_powers, solve_discrete_log, solve_discrete_log_using_pairing_powers}, keygen::keygen, PreparedDecryptionKey::pairing_powers";
    // kb, cb, at, lo, hi, others, precomputed
    for (kb, cb, at, lo, hi, o, pre) in [
        (128u64, 4u64, 99u64, 0u64, 15u64, 0u64, 0u64), (128, 4, 99, 0, 15, 0, 1), (85, 4, 1, 0, 15, 15, 0), (255, 8, 0, 0, 255, 0, 0), (255, 8, 0, 0, 255, 0, 1),
        (128, 8, 1, 0, 255, 255, 0), (64, 1, 99, 0, 1, 0, 0), (64, 1, 99, 0, 1, 0, 1), (32, 4, 7, 0, 15, 9, 0), (16, 4, 15, 0, 15, 3, 1), (16, 2, 0, 0, 3, 1, 0),
        (128, 16, 1, 65533, 65535, 258, 0), (51, 5, 4, 0, 31, 17, 1), (255, 10, 0, 0, 1023, 0, 0), (85, 4, 99, 0, 15, 0, 0),
    ] {
        harness!(v, "C05", format!("dec_roundtrip_kb{kb}_cb{cb}_at{at}_{lo}_{hi}_o{o}_pre{pre}"), quick, dec_roundtrip, [kb, cb, at, lo, hi, o, pre], DF,
            format!("n = {}, chunk size {cb} bits, chunk(s) {} symbolic over {lo}..{hi}, others {o}, precomputed tables: {}", nchunks(kb), if at == 99 { "all".to_string() } else { at.to_string() }, pre == 1), 5, 600);
    }
    // keys of the real sizes, the chunk at every position, every value
    for at in 0..64u64 {
        let (o, pre) = (at * 7 % 16, at % 2);
        harness!(v, "C05", format!("dec_real_cb4_at{at}"), quick, dec_roundtrip, [4, 4, at, 0, 15, o, pre], DF, format!("n = 64, chunk size 4 bits, chunk {at} symbolic over 0..15, others {o}, precomputed tables: {}", pre == 1), 2, 600);
    }
    for at in 0..32u64 {
        let (o, pre) = ([0, 1, 255, 128][(at % 4) as usize], at / 4 % 2);
        harness!(v, "C05", format!("dec_real_cb8_at{at}"), quick, dec_roundtrip, [8, 8, at, 0, 255, o, pre], DF, format!("n = 32, chunk size 8 bits, chunk {at} symbolic over 0..255, others {o}, precomputed tables: {}", pre == 1), 1, 600);
    }
    for w in 0..64u64 {
        let (lo, hi) = (w * 1024, w * 1024 + 1023);
        harness!(v, "C05", format!("dec_cb16_{lo}"), quick, dec_roundtrip, [255, 16, 0, lo, hi, 0, 0], DF, format!("n = 1, chunk size 16 bits, chunk symbolic over {lo}..{hi}"), 1, 600);
    }
    for (i, at) in [0u64, 7, 15].into_iter().enumerate() {
        for w in 0..64u64 {
            let (lo, hi) = (w * 1024, w * 1024 + 1023);
            harness!(v, "C05", format!("dec_real_cb16_at{at}_{lo}"), thorough, dec_roundtrip, [16, 16, at, lo, hi, i as u64, 0], DF, format!("n = 16, chunk size 16 bits, chunk {at} symbolic over {lo}..{hi}, others {i}"), 1, 1800);
        }
    }
    for (kb, cb, at, lo, hi, o, pre) in [
        (4u64, 4u64, 63u64, 0u64, 15u64, 15u64, 1u64), (128, 8, 0, 0, 255, 200, 1), (255, 16, 0, 65000, 65535, 0, 1), (255, 16, 0, 0, 600, 0, 1), (255, 12, 0, 0, 4095, 0, 1),
    ] {
        harness!(v, "C05", format!("dec_roundtrip_kb{kb}_cb{cb}_at{at}_{lo}_{hi}_o{o}_pre{pre}"), thorough, dec_roundtrip, [kb, cb, at, lo, hi, o, pre], DF,
            format!("n = {}, chunk size {cb} bits, chunk(s) {} symbolic over {lo}..{hi}, others {o}, precomputed tables: {}", nchunks(kb), if at == 99 { "all".to_string() } else { at.to_string() }, pre == 1), 5, 3000);
    }
    const DE: &str = "Ciphertext::{decrypt, decrypt_given_pairing_powers, decrypt_given_groth16_vk, decrypt_given_groth16_vk_and_pairing_powers}, Encryption::{decrypt, decrypt_given_pairing_powers, decrypt_given_groth16_vk, decrypt_given_groth16_vk_and_pairing_powers, decrypt_to_chunks}, utils::compose";
    harness!(v, "C05", "dec_entry_points_cb4", quick, dec_entry_points, [128, 4, 4], DE, "n = 2, chunk size 4, both chunks symbolic over 0..15", 6, 300);
    harness!(v, "C05", "dec_entry_points_cb8", quick, dec_entry_points, [255, 8, 8], DE, "n = 1, chunk size 8, chunk symbolic over 0..255", 4, 600);
    harness!(v, "C05", "dec_entry_points_cb4_n4", thorough, dec_entry_points, [64, 4, 2], DE, "n = 4, chunk size 4, chunks symbolic over 0..3", 6, 900);

    for (n, cb, hk) in [(1u64, 1u64, 0u64), (1, 4, 1), (1, 3, 0), (2, 2, 0), (2, 2, 1), (1, 4, 0), (2, 4, 0), (2, 4, 1), (1, 8, 0), (1, 8, 1), (3, 2, 0), (3, 2, 1), (4, 2, 0), (8, 1, 0), (5, 1, 1), (3, 3, 0)] {
        harness!(v, "C06", format!("dec_sound_n{n}_cb{cb}_key{hk}"), quick, dec_sound, [n, cb, hk], DF, format!("{n} arbitrary ciphertext elements, {} key, chunk size {cb}", if hk == 1 { "generated" } else { "arbitrary" }), 5, 400);
    }
    for (n, cb, hk) in [(1u64, 10u64, 0u64), (3, 4, 0), (4, 3, 0), (10, 1, 1), (5, 2, 0), (1, 10, 1), (2, 6, 0)] {
        harness!(v, "C06", format!("dec_sound_n{n}_cb{cb}_key{hk}"), thorough, dec_sound, [n, cb, hk], DF, format!("{n} arbitrary ciphertext elements, {} key, chunk size {cb}", if hk == 1 { "generated" } else { "arbitrary" }), 5, 3000);
    }
    for (n, cb, more, q) in [(1u64, 2u64, 1u64, true), (1, 2, 0, true), (2, 1, 1, true), (2, 2, 0, true), (1, 3, 2, true), (3, 1, 0, true), (1, 4, 4, true), (1, 4, 0, true), (2, 2, 2, true), (3, 2, 1, false), (2, 4, 0, false), (1, 8, 0, false)] {
        if q {
            harness!(v, "C06", format!("dec_long_tables_n{n}_cb{cb}_more{more}"), quick, dec_long_tables, [n, cb, more], DF, format!("{n} arbitrary chunks of {cb} bits, tables for {} bits or with two arbitrary surplus entries", cb + more), 6, 300);
        } else {
            harness!(v, "C06", format!("dec_long_tables_n{n}_cb{cb}_more{more}"), thorough, dec_long_tables, [n, cb, more], DF, format!("{n} arbitrary chunks of {cb} bits, tables for {} bits or with two arbitrary surplus entries", cb + more), 6, 900);
        }
    }
    for (kb, cb, at, o) in [(255u64, 4u64, 0u64, 0u64), (255, 8, 0, 0), (255, 1, 0, 0), (255, 12, 0, 0), (128, 4, 0, 15), (128, 4, 1, 7), (85, 2, 1, 0), (16, 4, 15, 3), (4, 4, 63, 1), (8, 8, 0, 200), (8, 8, 31, 0)] {
        harness!(v, "C06", format!("dec_out_of_range_kb{kb}_cb{cb}_at{at}"), quick, dec_out_of_range, [kb, cb, at, o], DF, format!("n = {}, chunk size {cb}, chunk {at} symbolic over the 16-bit values beyond it, others {o}", nchunks(kb)), 3, 400);
    }
    harness!(v, "C06", "dec_short_tables_n2", quick, dec_short_tables, [2, 2], DF, "2 chunks of 2 bits, every truncation of the outer table and of one inner table", 6, 300);
    harness!(v, "C06", "dec_short_tables_n3", thorough, dec_short_tables, [3, 2], DF, "3 chunks of 2 bits, every truncation", 6, 900);
    harness!(v, "C06", "dec_lengths_k2", quick, dec_lengths, [2], DF, "every combination of sizes of V_1, V_2, ciphertext, bases in 0..2");
    harness!(v, "C06", "dec_lengths_k3", thorough, dec_lengths, [3], DF, "every combination of sizes of V_1, V_2, ciphertext, bases in 0..3", 6, 900);

    const CF: &str = "encryption::Encryption::{verify_ciphertext_commitment, get_g1_for_ciphertext_commitment_pairing_checks, get_g2_for_ciphertext_commitment_pairing_checks}, Ciphertext::verify_commitment, PreparedEncryptionKey::from";
    for n in super::sizes() {
        harness!(v, "C07", format!("commit_iff_n{n}"), quick, commit_iff, [n], CF, format!("{n} chunks; ciphertext, key and generators arbitrary"));
    }
    for n in super::sizes_more() {
        harness!(v, "C07", format!("commit_iff_n{n}"), thorough, commit_iff, [n], CF, format!("{n} chunks; ciphertext, key and generators arbitrary"));
    }
    for (kb, parties) in [(255u64, 0u64), (128, 0), (85, 0), (64, 0), (51, 0), (32, 0), (16, 0), (8, 0), (4, 0), (255, 3), (128, 1), (128, 2), (85, 3), (64, 4), (32, 5), (16, 3), (8, 2), (4, 2), (2, 0), (1, 0), (2, 2), (1, 1), (255, 17), (255, 66)] {
        harness!(v, "C07", format!("commit_honest_kb{kb}_N{parties}"), quick, commit_honest, [kb, parties], CF, format!("n = {}, {} key generation, any one element altered by any non-zero amount", nchunks(kb), if parties == 0 { "single-authority".to_string() } else { format!("{parties}-party") }));
    }
    for (kb, parties) in [(2u64, 0u64), (16, 8), (8, 5)] {
        harness!(v, "C07", format!("commit_honest_kb{kb}_N{parties}"), thorough, commit_honest, [kb, parties], CF, format!("n = {}", nchunks(kb)), 5, 900);
    }
    harness!(v, "C07", "commit_lengths_k2", quick, commit_lengths, [2], CF, "every combination of sizes of X, Y, Z and ciphertext in 0..2 (Z 0..3), single and batch");
    harness!(v, "C07", "commit_lengths_k3", thorough, commit_lengths, [3], CF, "every combination of sizes of X, Y, Z and ciphertext in 0..3 (Z 0..4), single and batch", 6, 900);

    const BF: &str = "encryption::Encryption::{verify_commitments_in_batch, get_g1_for_ciphertext_commitments_in_batch_pairing_checks}";
    for (n, k) in [(1u64, 1u64), (2, 2), (1, 3), (3, 3), (8, 2), (2, 4), (1, 5), (2, 6), (1, 7), (2, 8), (1, 9), (1, 12), (1, 16), (1, 17), (1, 33), (5, 2), (16, 3), (17, 2), (32, 2), (33, 1), (64, 1), (64, 2), (1, 65), (2, 130), (1, 257), (128, 3), (200, 1), (255, 2)] {
        harness!(v, "C08", format!("batch_iff_n{n}_k{k}"), quick, batch_iff, [n, k], BF, format!("{k} arbitrary ciphertexts of {n} chunks, arbitrary weights"));
    }
    for (n, k) in [(2u64, 5u64), (4, 8), (3, 64), (128, 2)] {
        harness!(v, "C08", format!("batch_iff_n{n}_k{k}"), thorough, batch_iff, [n, k], BF, format!("{k} arbitrary ciphertexts of {n} chunks, arbitrary weights"));
    }
    for (kb, k) in [(255u64, 1u64), (255, 4), (255, 8), (128, 2), (128, 3), (64, 2), (64, 5), (16, 2), (8, 2), (4, 2)] {
        harness!(v, "C08", format!("batch_honest_kb{kb}_k{k}"), quick, batch_honest, [kb, k], BF, format!("{k} honest ciphertexts, n = {}, any one element of any one altered", nchunks(kb)));
    }
    for (n, k, lo, hi) in [(1u64, 1u64, 0u64, 3u64), (2, 2, 0, 4), (2, 3, 1, 3)] {
        harness!(v, "C08", format!("batch_lengths_n{n}_k{k}"), quick, batch_lengths, [n, k, lo, hi], BF, format!("key for {n} chunks, {k} arbitrary ciphertexts of every combination of sizes {lo}..{hi}"));
    }
    harness!(v, "C08", "batch_lengths_n3_k4", thorough, batch_lengths, [3, 4, 1, 5], BF, "key for 3 chunks, 4 arbitrary ciphertexts of every combination of sizes 1..5", 6, 900);
    harness!(v, "C08", "batch_honest_kb32_k5", thorough, batch_honest, [32, 5], BF, "5 honest ciphertexts, n = 8, any one element of any one altered", 5, 900);

    const AF: &str = "encryption::Encryption::add_cts, decrypt_to_chunks, verify_ciphertext_commitment";
    for n in super::sizes() {
        harness!(v, "C11", format!("add_linear_n{n}"), quick, add_linear, [n], AF, format!("{n} arbitrary elements each"));
    }
    for (kb, cb, k, hi) in [(255u64, 4u64, 2u64, 15u64), (255, 4, 3, 9), (128, 2, 2, 3), (128, 3, 2, 3), (255, 6, 2, 63), (255, 8, 2, 255), (255, 4, 5, 15), (128, 3, 3, 7), (85, 2, 2, 3)] {
        harness!(v, "C11", format!("add_decrypt_kb{kb}_cb{cb}_k{k}_hi{hi}"), quick, add_decrypt, [kb, cb, k, hi], AF, format!("{k} honest ciphertexts, n = {}, chunk size {cb}, chunks symbolic in 0..{hi}", nchunks(kb)), 6, 400);
    }
    for (kb, cb, k, hi) in [(128u64, 4u64, 2u64, 15u64), (255, 8, 4, 255), (85, 3, 2, 7), (64, 2, 2, 3)] {
        harness!(v, "C11", format!("add_decrypt_kb{kb}_cb{cb}_k{k}_hi{hi}"), thorough, add_decrypt, [kb, cb, k, hi], AF, format!("{k} honest ciphertexts, n = {}, chunk size {cb}, chunks symbolic in 0..{hi}", nchunks(kb)), 6, 3000);
    }

    for (k, hi, a, b) in [(2u64, 300u64, 65300u64, 65535u64), (2, 100, 32700, 32799), (3, 40, 500, 520), (2, 1, 65534, 65535), (9, 20, 65400, 65430)] {
        harness!(v, "C11", format!("add_decrypt_cb16_k{k}_{a}_{b}"), quick, add_decrypt, [255, 16, k, hi, a, b], AF, format!("{k} honest ciphertexts, n = 1, chunk size 16, one chunk symbolic in {a}..{b}, the others in 0..{hi}"), 3, 400);
    }

    const RF: &str = "encryption::Encryption::{re_encrypt_share, combine_re_encrypt_share, combine_ct_with_w, decrypt_to_chunks_after_re_encryption, solve_discrete_log_for_g}, keygen::{FkeygenPartial, combineEKs, genP1share, combineP1share, keygenFinal, Fkeygen_dest}";
    for n in super::sizes() {
        harness!(v, "C12", format!("reenc_share_n{n}"), quick, reenc_share, [n], RF, format!("{n} chunks, arbitrary ciphertext, secrets and destination key"));
        harness!(v, "C12", format!("reenc_combine_n{n}"), quick, reenc_combine, [n], RF, format!("{n} chunks, arbitrary shares"));
    }
    for (kb, k, cb, hi) in [(255u64, 1u64, 4u64, 15u64), (128, 2, 4, 15), (255, 3, 8, 255), (85, 3, 2, 3), (64, 4, 1, 1)] {
        harness!(v, "C12", format!("reenc_decrypt_kb{kb}_N{k}_cb{cb}"), quick, reenc_decrypt, [kb, k, cb, hi, 0], RF, format!("{k} parties, n = {}, all chunks symbolic over 0..{hi}", nchunks(kb)), 6, 400);
    }
    for w in 0..64u64 {
        let (lo, hi, k) = (w * 1024, w * 1024 + 1023, 1 + w % 3);
        harness!(v, "C12", format!("reenc_cb16_{lo}"), quick, reenc_decrypt, [255, k, 16, hi, lo], RF, format!("{k} parties, n = 1, chunk size 16, chunk symbolic over {lo}..{hi}"), 1, 600);
    }
    for (kb, k, cb) in [(255u64, 2u64, 4u64), (255, 3, 8), (255, 1, 15), (255, 1, 1), (128, 2, 4)] {
        harness!(v, "C14", format!("reenc_out_of_range_kb{kb}_N{k}_cb{cb}"), quick, reenc_out_of_range, [kb, k, cb], RF, format!("{k} parties, n = {}, every chunk symbolic over the 16-bit values beyond {cb} bits", nchunks(kb)), 3, 400);
    }
    for (kb, k, cb, hi) in [(85u64, 3u64, 4u64, 15u64), (128, 5, 6, 63), (51, 2, 2, 3), (32, 2, 1, 1)] {
        harness!(v, "C12", format!("reenc_decrypt_kb{kb}_N{k}_cb{cb}"), thorough, reenc_decrypt, [kb, k, cb, hi, 0], RF, format!("{k} parties, n = {}, all chunks symbolic over 0..{hi}", nchunks(kb)), 6, 3000);
    }
    for (kb, k) in [(16u64, 2u64), (64, 5), (32, 3), (128, 1), (255, 1), (128, 2), (128, 3), (128, 4), (128, 6), (128, 7), (128, 8), (128, 9), (255, 12), (255, 16), (85, 2), (51, 3), (8, 4), (4, 2), (255, 33), (255, 66), (255, 130), (2, 2), (1, 2), (1, 1), (128, 17), (85, 20)] {
        harness!(v, "C12", format!("reenc_algebra_kb{kb}_N{k}"), quick, reenc_algebra, [kb, k], RF, format!("{k} parties, n = {}, any u16 chunk values", nchunks(kb)));
    }
    for (kb, k) in [(4u64, 3u64), (8, 8), (64, 8), (64, 16)] {
        harness!(v, "C12", format!("reenc_algebra_kb{kb}_N{k}"), thorough, reenc_algebra, [kb, k], RF, format!("{k} parties, n = {}, any u16 chunk values", nchunks(kb)), 5, 900);
    }
    for (kb, k) in [(255u64, 2u64), (128, 2), (128, 3), (128, 4), (128, 5), (255, 8), (64, 3), (32, 2), (16, 2), (8, 3), (4, 2), (255, 16), (255, 17), (255, 33), (1, 2)] {
        harness!(v, "C13", format!("reenc_missing_kb{kb}_N{k}"), quick, reenc_missing, [kb, k], RF, format!("{k} parties, any one missing, n = {}", nchunks(kb)));
    }
    for (kb, k) in [(64u64, 5u64), (128, 10)] {
        harness!(v, "C13", format!("reenc_missing_kb{kb}_N{k}"), thorough, reenc_missing, [kb, k], RF, format!("{k} parties, any one missing, n = {}", nchunks(kb)), 5, 900);
    }
    for (n, cb) in [(1u64, 4u64), (2, 2), (3, 1), (1, 1), (1, 8), (2, 4), (3, 3), (4, 2), (8, 1), (9, 1)] {
        harness!(v, "C14", format!("dest_sound_n{n}_cb{cb}"), quick, dest_sound, [n, cb], RF, format!("{n} arbitrary ciphertext elements, arbitrary secret, chunk size {cb}"), 5, 400);
    }
    for (n, cb) in [(1u64, 10u64), (2, 5), (3, 4), (10, 1), (5, 2)] {
        harness!(v, "C14", format!("dest_sound_n{n}_cb{cb}"), thorough, dest_sound, [n, cb], RF, format!("{n} arbitrary ciphertext elements, arbitrary secret, chunk size {cb}"), 5, 3000);
    }
    harness!(v, "C14", "dest_short_k3", quick, dest_short, [3], RF, "every combination of sizes of ciphertext and bases in 0..3");
    for (w, name) in [(0u64, "add_cts"), (1, "combine_re_encrypt_share"), (2, "combine_ct_with_w"), (3, "re_encrypt_share")] {
        harness!(v, "C21", format!("lengths_{name}"), quick, lengths_combine, [3, w], RF, format!("{name}: every combination of sizes in 0..3"));
        harness!(v, "C21", format!("lengths_{name}_large"), quick, lengths_combine, [16, w], RF, format!("{name}: every combination of 17 sizes from 0 to 512"), 6, 300);
    }
}
