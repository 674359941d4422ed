//! What published values reveal and what can be forged, against an adversary that only uses the group
//! operations and the pairing.  Everything it can test is whether a combination
//! sum_jk rel_jk * e(P_j, Q_k) of pairings of published elements is the identity; its coefficients are
//! unknowns of the query.
use super::enc::*;
use super::groth::*;
use super::keys::*;
use crate::env::*;
use crate::{harness, H};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, Zero};
use dist_saver::circuit::BitsizeCheckCircuit;
use dist_saver::encryption::{Ciphertext, Encryption};
use dist_saver::keygen::*;
use dist_saver::saver_groth16::*;

// ------------------------------------------------------------------ C27
/// what the adversary sees
pub struct View<V: Env> {
    pub g1: Vec<A1<V>>,
    pub g2: Vec<A2<V>>,
}
impl<V: Env> View<V> {
    fn of(b: &Base<V>) -> Self {
        let mut w = View { g1: vec![b.gens.G, b.delta_g, b.gamma_g], g2: vec![b.gens.H] };
        w.g1.extend(b.g_i.iter().cloned());
        w
    }
    fn ek(&mut self, ek: &EncryptionKey<V::E>) {
        self.g1.extend(ek.X.iter().cloned());
        self.g1.extend(ek.Y.iter().cloned());
        self.g1.extend([ek.P_1, ek.P_2]);
        self.g2.extend(ek.Z.iter().cloned());
    }
    fn dk(&mut self, dk: &DecryptionKey<V::E>) {
        self.g2.push(dk.V_0);
        self.g2.extend(dk.V_1.iter().cloned());
        self.g2.extend(dk.V_2.iter().cloned());
    }
    fn with1(&self, more: &[A1<V>]) -> Self {
        let mut w = View { g1: self.g1.clone(), g2: self.g2.clone() };
        w.g1.extend_from_slice(more);
        w
    }
    fn proof(&self, p: &Proof<V::E>) -> Self {
        let mut w = self.with1(&[p.a, p.c]);
        w.g2.push(p.b);
        w
    }
}

/// coefficients of one test the adversary may apply to a view of this shape
fn any_test<V: Env>(v: &mut V, w: &View<V>) -> Vec<Vec<F<V>>> {
    (0..w.g2.len()).map(|k| (0..w.g1.len()).map(|j| v.fresh(&format!("rel{j}_{k}"))).collect()).collect()
}
fn apply<V: Env>(t: &[Vec<F<V>>], w: &View<V>) -> GT<V> {
    let mut acc: Option<GT<V>> = None;
    for (row, q) in t.iter().zip(&w.g2) {
        let mut l: Option<G1p<V>> = None;
        for (r, p) in row.iter().zip(&w.g1) {
            let x = *p * *r;
            l = Some(match l {
                None => x,
                Some(y) => y + x,
            });
        }
        let e = pair::<V>(l.unwrap().into_affine(), *q);
        acc = Some(match acc {
            None => e,
            Some(a) => a + e,
        });
    }
    acc.unwrap()
}
/// no test holds in the first world (for all secrets) and fails in the second
fn indistinguishable<V: Env>(v: &mut V, label: &str, a: &View<V>, b: &View<V>) {
    v.that("the two views have the same shape", a.g1.len() == b.g1.len() && a.g2.len() == b.g2.len());
    let t = any_test(v, a);
    let ta = apply::<V>(&t, a);
    if !v.vanish_gt(ta) {
        return;
    }
    let tb = apply::<V>(&t, b);
    v.zero_gt(label, tb);
}
const REVEAL: &str = "what holds between the published values for one message holds for every other";

fn vector(which: u64, n: usize, max: u16) -> Vec<u16> {
    (0..n)
        .map(|i| match which {
            0 => 0,
            1 => max,
            2 => (i as u16 + 1) % (max.saturating_add(1).max(2)),
            _ => 1,
        })
        .collect()
}
fn enc<V: Env>(v: &mut V, rng: &mut V::R, m: &[u16], ek: &EncryptionKey<V::E>, g: &[A1<V>]) -> (Vec<A1<V>>, F<V>) {
    let r = Encryption::<V::E>::encrypt_decomposed_message(rng, m.to_vec(), ek, g);
    v.ok("encrypt", r)
}

/// one authority: public parameters, encryption and decryption key, a ciphertext (p[2] = 1: and the
/// opening of another ciphertext under the same key)
fn conf_single<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, which, other) = (p[0], p[1], p[2] == 1);
    let n = nchunks(kb);
    let mut k = keys(v, kb);
    let mut w = View::of(&k.b);
    w.ek(&k.ek);
    w.dk(&k.dk);
    let g = k.b.g_i.clone();
    if other {
        let (ct, _) = enc(v, &mut k.rng, &vector(2, n, 9), &k.ek, &g);
        let r = Encryption::<V::E>::decrypt_to_chunks(&ct[0], &ct[1..=n], &k.sk, k.dk.clone(), &g, 4);
        let (_, nu) = v.ok("decrypt", r);
        w = w.with1(&ct).with1(&[nu]);
    }
    let (ca, _) = enc(v, &mut k.rng, &vector(which, n, u16::MAX), &k.ek, &g);
    let mb = chunks(v, n, u16::MAX, "m");
    let (cb, _) = enc(v, &mut k.rng, &mb, &k.ek, &g);
    indistinguishable(v, REVEAL, &w.with1(&ca), &w.with1(&cb));
}

/// two ciphertexts under one key, with their sum and - p[2] = 1 - the opening of the sum: nothing but the sum
fn conf_sum<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, which, opened) = (p[0], p[1], p[2] == 1);
    let n = nchunks(kb);
    let mut k = keys(v, kb);
    let mut w = View::of(&k.b);
    w.ek(&k.ek);
    w.dk(&k.dk);
    let g = k.b.g_i.clone();
    let (x, y) = (vector(which, n, 9), vector(2, n, 3));
    let (xb, yb) = (chunks(v, n, 12, "x"), chunks(v, n, 12, "y"));
    let mut views = vec![];
    for (j, (x, y)) in [(x.clone(), y.clone()), (xb.clone(), yb.clone())].into_iter().enumerate() {
        if opened && j == 1 {
            // the other two messages have the same sum
            for i in 0..n {
                let s = v.lit((vector(which, n, 9)[i] + vector(2, n, 3)[i]) as u64);
                if f_of::<V>(xb[i]) + f_of::<V>(yb[i]) != s {
                    return;
                }
            }
        }
        let (c1, _) = enc(v, &mut k.rng, &x, &k.ek, &g);
        let (c2, _) = enc(v, &mut k.rng, &y, &k.ek, &g);
        let r = Encryption::<V::E>::add_cts(&c1, &c2);
        let s = v.ok("add", r);
        let mut u = w.with1(&c1).with1(&c2);
        if opened {
            let r = Encryption::<V::E>::decrypt_to_chunks(&s[0], &s[1..=n], &k.sk, k.dk.clone(), &g, 5);
            let (_, nu) = v.ok("decrypt", r);
            u = u.with1(&[nu]);
        }
        views.push(u);
    }
    indistinguishable(v, REVEAL, &views[0], &views[1]);
}

/// with the SRS of the real circuit and the proof
fn conf_proof<V: Env>(v: &mut V, p: &[u64]) {
    let (cb, kb, which, to) = (p[0] as u8, p[1], p[2], p[3]);
    let n = nchunks(kb);
    let mut s = snark(v, cb, n);
    let (_, ek, dk) = keys_for(v, &s.b, kb, &mut s.rng);
    let mut w = View { g1: vec![s.b.gens.G, s.pk.pk.delta_g1, s.pk.gamma_g1, s.pk.pk.beta_g1], g2: vec![s.b.gens.H] };
    let vk = &s.pk.pk.vk;
    w.g1.push(vk.alpha_g1);
    w.g1.extend(vk.gamma_abc_g1.iter().cloned());
    w.g1.extend(s.pk.pk.l_query.iter().cloned());
    w.g1.extend(s.pk.pk.h_query.iter().take(1).cloned());
    w.g2.extend([vk.beta_g2, vk.gamma_g2, vk.delta_g2]);
    w.ek(&ek);
    w.dk(&dk);
    let max = (1u16 << cb) - 1;
    let ma = vector(which, n, max);
    let x = v.pick("m", 0, to);
    let mb: Vec<u16> = (0..n).map(|i| ((x >> (cb as usize * i)) & max as u64) as u16).collect();
    let g = s.b.g_i.clone();
    let mut views = vec![];
    for m in [ma, mb] {
        let (ct, r) = enc(v, &mut s.rng, &m, &ek, &g);
        let ms: Vec<F<V>> = m.iter().map(|x| v.lit(*x as u64)).collect();
        let circuit = BitsizeCheckCircuit::new(cb, Some(n as u8), Some(ms), true);
        let pr = v.ok("create_proof", create_proof(circuit, &r, &s.pk, &ek, &mut s.rng));
        views.push(w.with1(&ct).proof(&pr));
    }
    indistinguishable(v, REVEAL, &views[0], &views[1]);
}

pub struct Joint<V: Env> {
    pub b: Base<V>,
    pub d: Dist<V>,
    pub w: View<V>,
    pub rng: V::R,
}
/// the key generation of `parties`, everything sent published; the secrets of the first `bad` are known
pub fn joint<V: Env>(v: &mut V, kb: u64, parties: usize, bad: usize) -> Joint<V> {
    let n = nchunks(kb);
    let b = base(v, n);
    let mut rng = v.rng();
    let d = dist_with(v, &b, kb as u8, parties, &mut rng);
    for sk in d.sks.iter().take(bad) {
        for x in sk.s.iter().chain(&sk.t) {
            v.known(*x);
        }
    }
    let mut w = View::of(&b);
    // what the colluders sent they could compute themselves
    for (j, e) in d.partial.iter().enumerate().skip(bad) {
        w.g1.extend(e.X.iter().cloned());
        w.g1.extend(e.Y.iter().cloned());
        w.g1.push(e.P_2);
        w.g2.extend(e.Z.iter().cloned());
        w.g1.push(genP1share(&d.combined, &d.sks[j]).P_1);
    }
    w.g1.extend([d.ek.P_1, d.ek.P_2]);
    Joint { b, d, w, rng }
}

/// joint key, all but one authority may collude: a ciphertext
fn conf_joint<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, parties, bad, which) = (p[0], p[1] as usize, p[2] as usize, p[3]);
    let n = nchunks(kb);
    let mut j = joint(v, kb, parties, bad);
    let g = j.b.g_i.clone();
    let (ca, _) = enc(v, &mut j.rng, &vector(which, n, u16::MAX), &j.d.ek, &g);
    let mb = chunks(v, n, u16::MAX, "m");
    let (cb, _) = enc(v, &mut j.rng, &mb, &j.d.ek, &g);
    indistinguishable(v, REVEAL, &j.w.with1(&ca), &j.w.with1(&cb));
}

/// shares of all parties but the last `skip`, and what is combined from them
fn transcript<V: Env>(v: &mut V, j: &mut Joint<V>, ct: &[A1<V>], pk: &FEncryptionKeyDest<V::E>, skip: usize, bad: usize, only: Option<usize>) -> Vec<A1<V>> {
    let n = ct.len() - 2;
    let c = &ct[1..=n];
    let mut seen = vec![];
    let mut acc: Option<(Vec<A1<V>>, A1<V>)> = None;
    let np = j.d.sks.len();
    for (k, sk) in j.d.sks.iter().enumerate().take(np - skip) {
        let r = Encryption::<V::E>::re_encrypt_share(&mut j.rng, &j.b.gens, &ct[0], c, pk, sk);
        let (w, g) = v.ok("share", r);
        if k >= bad {
            seen.push(g);
            seen.extend(w.iter().enumerate().filter(|(i, _)| only.map(|o| o == *i).unwrap_or(true)).map(|t| *t.1));
        }
        acc = Some(match acc {
            None => (w, g),
            Some((w0, g0)) => {
                let r = Encryption::<V::E>::combine_re_encrypt_share(&g0, &g, &w0, &w);
                v.ok("combine", r)
            }
        });
    }
    if skip == 0 {
        let (w, g) = acc.unwrap();
        let r = Encryption::<V::E>::combine_ct_with_w(&j.b.gens, c, &g, &w);
        let out = v.ok("combine with ciphertext", r);
        seen.push(out[0]);
        seen.extend(out[1..].iter().enumerate().filter(|(i, _)| only.map(|o| o == *i).unwrap_or(true)).map(|t| *t.1));
    }
    seen
}

/// a complete re-encryption to a destination that keeps its key: all shares and the result are public.
/// p[4]: which chunk's shares are published (99: all)
fn conf_reenc<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, parties, bad, which, only) = (p[0], p[1] as usize, p[2] as usize, p[3], p[4]);
    let n = nchunks(kb);
    let only = (only != 99).then_some(only as usize);
    let mut j = joint(v, kb, parties, bad);
    let r = Fkeygen_dest::<_, V::E>(&mut j.rng, &j.b.gens);
    let (_, pk) = v.ok("Fkeygen_dest", r);
    let w = j.w.with1(&[pk.pk]);
    let g = j.b.g_i.clone();
    let mb = chunks(v, n, u16::MAX, "m");
    let mut views = vec![];
    for m in [vector(which, n, u16::MAX), mb] {
        let (ct, _) = enc(v, &mut j.rng, &m, &j.d.ek, &g);
        let t = transcript(v, &mut j, &ct, &pk, 0, bad, only);
        views.push(w.with1(&ct).with1(&t));
    }
    indistinguishable(v, REVEAL, &views[0], &views[1]);
}

/// the destination itself, helped by all authorities but one, as long as that one gives no share
fn conf_missing<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, parties, bad, which) = (p[0], p[1] as usize, p[2] as usize, p[3]);
    let n = nchunks(kb);
    let mut j = joint(v, kb, parties, bad);
    let r = Fkeygen_dest::<_, V::E>(&mut j.rng, &j.b.gens);
    let (x, pk) = v.ok("Fkeygen_dest", r);
    v.known(x.0);
    let g = j.b.g_i.clone();
    let mb = chunks(v, n, u16::MAX, "m");
    let mut views = vec![];
    for m in [vector(which, n, u16::MAX), mb] {
        let (ct, _) = enc(v, &mut j.rng, &m, &j.d.ek, &g);
        let t = transcript(v, &mut j, &ct, &pk, 1, bad, None);
        views.push(j.w.with1(&ct).with1(&t));
    }
    indistinguishable(v, REVEAL, &views[0], &views[1]);
}

/// two contributions, their sum re-encrypted to the destination, whose key is known, with all but one
/// authority colluding: only the sum of the contributions is revealed
fn conf_tally<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, parties, bad, which) = (p[0], p[1] as usize, p[2] as usize, p[3]);
    let n = nchunks(kb);
    let mut j = joint(v, kb, parties, bad);
    let r = Fkeygen_dest::<_, V::E>(&mut j.rng, &j.b.gens);
    let (x, pk) = v.ok("Fkeygen_dest", r);
    v.known(x.0);
    let g = j.b.g_i.clone();
    let (xa, ya) = (vector(which, n, 9), vector(2, n, 3));
    let (xb, yb) = (chunks(v, n, 12, "x"), chunks(v, n, 12, "y"));
    for i in 0..n {
        let s = v.lit((xa[i] + ya[i]) as u64);
        if f_of::<V>(xb[i]) + f_of::<V>(yb[i]) != s {
            return;
        }
    }
    let mut views = vec![];
    for (x, y) in [(xa, ya), (xb, yb)] {
        let (c1, _) = enc(v, &mut j.rng, &x, &j.d.ek, &g);
        let (c2, _) = enc(v, &mut j.rng, &y, &j.d.ek, &g);
        let r = Encryption::<V::E>::add_cts(&c1, &c2);
        let s = v.ok("add", r);
        let t = transcript(v, &mut j, &s, &pk, 0, bad, None);
        views.push(j.w.with1(&c1).with1(&c2).with1(&t));
    }
    indistinguishable(v, "contributions with the same sum cannot be told apart", &views[0], &views[1]);
}

// ------------------------------------------------------------------ C28
/// an element the adversary makes out of the given ones, with its coefficients
pub fn any_comb<V: Env>(v: &mut V, name: &str, from: &[A1<V>]) -> (A1<V>, Vec<F<V>>) {
    let co: Vec<F<V>> = (0..from.len()).map(|j| v.fresh(&format!("rel_{name}_{j}"))).collect();
    let mut s = from[0] * co[0];
    for (p, c) in from.iter().zip(&co).skip(1) {
        s += *p * *c;
    }
    (s.into_affine(), co)
}

/// ciphertexts put together from public elements (and honest ciphertexts) that pass the commitment check
fn forge<V: Env>(v: &mut V, p: &[u64]) {
    let (kb, parties, bad, honest, batch) = (p[0], p[1] as usize, p[2] as usize, p[3] as usize, p[4] as usize);
    let n = nchunks(kb);
    let (b, ek, mut pubs, mut rng);
    if parties == 0 {
        let k = keys(v, kb);
        let mut w = View::of(&k.b);
        w.ek(&k.ek);
        (b, ek, pubs, rng) = (k.b, k.ek, w.g1, k.rng);
    } else {
        let mut j = joint(v, kb, parties, bad);
        // the combined elements follow from the parts: representations are unique without them
        j.w.g1.truncate(j.w.g1.len() - 2);
        (b, ek, pubs, rng) = (j.b, j.d.ek, j.w.g1, j.rng);
    }
    // the order of View::of
    let at_x0 = 1;
    let at_g: Vec<usize> = (0..n).map(|i| 3 + i).collect();
    let mut hc = vec![];
    for _ in 0..honest {
        let (ct, _) = enc(v, &mut rng, &vector(2, n, 9), &ek, &b.g_i);
        hc.push((pubs.len(), ct.clone()));
        pubs.extend(ct);
    }
    let mut cts = vec![];
    let mut cos = vec![];
    for k in 0..batch.max(1) {
        let (x, cx) = any_comb(v, &format!("{k}_0"), &pubs);
        let (mut cs, mut cc) = (vec![], vec![]);
        for i in 0..n {
            let (c, co) = any_comb(v, &format!("{k}_{}", i + 1), &pubs);
            cs.push(c);
            cc.push(co);
        }
        let (psi, _) = any_comb(v, &format!("{k}_psi"), &pubs);
        cts.push(Ciphertext::<V::E> { X_r: x, enc_chunks: cs, commitment: psi });
        cos.push((cx, cc));
    }
    let ok = if batch == 0 {
        cts[0].verify_commitment(ek.clone(), b.gens.clone()).is_ok()
    } else {
        let wt: Vec<F<V>> = (0..batch).map(|k| v.fresh_nz(&format!("weight{k}"))).collect();
        Encryption::verify_commitments_in_batch(&cts, &wt, ek.clone(), b.gens.clone()).is_ok()
    };
    if !ok {
        return;
    }
    if !v.vanish_path() {
        return;
    }
    for (c, (cx, cc)) in cts.iter().zip(&cos) {
        // the part that is a multiple of an honest ciphertext, and what the adversary added
        let mut x = mul1::<V>(ek.X_0, cx[at_x0]);
        for (o, ct) in &hc {
            x = add1::<V>(x, mul1::<V>(ct[0], cx[*o]));
        }
        v.eq_g1("c_0 = r*X_0 for the coefficient r the maker knows", c.X_r, x);
        let mut psi = mul1::<V>(ek.P_1, cx[at_x0]);
        for (o, ct) in &hc {
            psi = add1::<V>(psi, mul1::<V>(ct[n + 1], cx[*o]));
        }
        for i in 0..n {
            let mi = cc[i][at_g[i]];
            let mut w = add1::<V>(mul1::<V>(ek.X[i], cx[at_x0]), mul1::<V>(b.g_i[i], mi));
            for (o, ct) in &hc {
                w = add1::<V>(w, mul1::<V>(ct[i + 1], cx[*o]));
            }
            v.eq_g1(&format!("c_{} = r*X + m*g for coefficients the maker knows", i + 1), c.enc_chunks[i], w);
            psi = add1::<V>(psi, mul1::<V>(ek.Y[i], mi));
        }
        v.eq_g1("commitment = r*P_1 + sum m_i*Y_i", c.commitment, psi);
    }
}

pub fn reg(v: &mut Vec<H>) {
    const CF: &str = "keygen::{keygen, FkeygenPartial, combineEKs, genP1share, combineP1share, keygenFinal, Fkeygen_dest}, encryption::Encryption::{encrypt_decomposed_message, re_encrypt_share, combine_re_encrypt_share, combine_ct_with_w, add_cts, decrypt_to_chunks}";
    for kb in [255u64, 128, 85, 64, 51, 37, 32, 16, 8, 4] {
        for which in 0..3u64 {
            for o in [0u64, 1] {
                if kb == 4 {
                    harness!(v, "C27", format!("single_n{}_v{which}_other{o}", nchunks(kb)), thorough, conf_single, [kb, which, o], CF,
                    format!("n = {} chunks, first message fixed, second arbitrary (all u16 chunks); every combination of pairings of the published elements", nchunks(kb)));
                    continue;
                }
                harness!(v, "C27", format!("single_n{}_v{which}_other{o}", nchunks(kb)), quick, conf_single, [kb, which, o], CF,
                    format!("n = {} chunks, first message fixed, second arbitrary (all u16 chunks); every combination of pairings of the published elements", nchunks(kb)));
            }
        }
    }
    for kb in [255u64, 128, 85] {
        for which in 0..3u64 {
            for o in [0u64, 1] {
                harness!(v, "C27", format!("sum_n{}_v{which}_opened{o}", nchunks(kb)), quick, conf_sum, [kb, which, o], CF,
                    format!("n = {} chunks, two ciphertexts{}", nchunks(kb), if o == 1 { " and the opening of their sum; second pair arbitrary with the same sum" } else { "; second pair arbitrary" }));
            }
        }
    }
    for (cb, kb, which, to) in [(1u64, 255u64, 0u64, 1u64), (1, 255, 1, 1), (2, 255, 2, 3), (4, 255, 0, 15), (1, 128, 2, 3)] {
        harness!(v, "C27", format!("proof_b{cb}_n{}_v{which}", nchunks(kb)), quick, conf_proof, [cb, kb, which, to], "the above, saver_groth16::{generate_srs, create_proof}, circuit::BitsizeCheckCircuit",
            format!("{cb}-bit chunks, n = {}, second message enumerated by the solver over all values; QAP point fixed", nchunks(kb)));
    }
    for kb in [255u64, 128, 85, 64, 32, 16] {
        for parties in [1u64, 2, 3, 5] {
            for bad in 0..parties {
                for which in 0..3u64 {
                    // larger ones: fewer combinations
                    if (kb < 85 || parties > 3) && (which != 2 || (bad != 0 && bad != parties - 1) || (kb < 64 && parties == 3) || (kb < 32 && parties == 5)) {
                        continue;
                    }
                    let (n, t) = (nchunks(kb), format!("n{}_N{parties}_known{bad}_v{which}", nchunks(kb)));
                    let bd = format!("n = {n} chunks, {parties} authorities of which {bad} collude (their secrets fixed to arbitrary constants), first message fixed, second arbitrary");
                    harness!(v, "C27", format!("joint_{t}"), quick, conf_joint, [kb, parties, bad, which], CF, bd);
                    harness!(v, "C27", format!("missing_{t}"), quick, conf_missing, [kb, parties, bad, which], CF, format!("{bd}; destination key known, one share withheld"));
                    harness!(v, "C27", format!("tally_{t}"), quick, conf_tally, [kb, parties, bad, which], CF, format!("{bd}; destination key known, sum re-encrypted with all shares"));
                    for only in if n == 1 { vec![99u64] } else { (0..n as u64).filter(|i| n < 8 || *i == 0 || *i == n as u64 / 2 || *i == n as u64 - 1).chain([99]).collect() } {
                        harness!(v, "C27", format!("reenc_{t}_{}", if only == 99 { "all".into() } else { format!("chunk{only}") }), quick, conf_reenc, [kb, parties, bad, which, only], CF,
                            format!("{bd}; all re-encryption shares{} and the result public, destination key secret", if only == 99 { String::new() } else { format!(" of chunk {only}") }));
                    }
                }
            }
        }
    }
    const FF: &str = "encryption::Encryption::{verify_ciphertext_commitment, verify_commitments_in_batch, encrypt_decomposed_message}, keygen::*";
    for kb in [255u64, 128, 85, 64, 43, 32, 16, 8] {
        for (parties, bad) in [(0u64, 0u64), (1, 0), (2, 0), (2, 1), (3, 2)] {
            for (honest, batch) in [(0u64, 0u64), (1, 0), (2, 0), (0, 1), (0, 2), (1, 2), (0, 3)] {
                if kb == 8 {
                    harness!(v, "C28", format!("forge_n{}_N{parties}_known{bad}_honest{honest}_batch{batch}", nchunks(kb)), thorough, forge, [kb, parties, bad, honest, batch], FF,
                    format!("n = {} chunks, {parties} authorities ({bad} colluding; 0 = single authority), ciphertext elements = every combination of the public elements and {honest} honest ciphertexts, batch of {batch}", nchunks(kb)));
                    continue;
                }
                harness!(v, "C28", format!("forge_n{}_N{parties}_known{bad}_honest{honest}_batch{batch}", nchunks(kb)), quick, forge, [kb, parties, bad, honest, batch], FF,
                    format!("n = {} chunks, {parties} authorities ({bad} colluding; 0 = single authority), ciphertext elements = every combination of the public elements and {honest} honest ciphertexts, batch of {batch}", nchunks(kb)));
            }
        }
    }
}
