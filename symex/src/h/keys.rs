//! C02 single-authority key generation, C03 distributed key generation.
use crate::env::*;
use crate::{harness, H};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, Zero};
use dist_saver::error::SaverError;
use dist_saver::keygen::*;
use dist_saver::setup::EncryptionGens;

pub fn nchunks(b: u64) -> usize {
    ((255 + b - 1) / b) as usize
}

pub struct Base<V: Env> {
    pub gens: EncryptionGens<V::E>,
    pub g: F<V>,
    pub h: F<V>,
    pub delta: F<V>,
    pub gamma: F<V>,
    pub delta_g: A1<V>,
    pub gamma_g: A1<V>,
    pub g_i: Vec<A1<V>>,
}

/// arbitrary public parameters: generators, the SRS elements the keys are built from, `m` bases g_i
pub fn base<V: Env>(v: &mut V, m: usize) -> Base<V> {
    let g = v.fresh_nz("G");
    let h = v.fresh_nz("H");
    let delta = v.fresh_nz("delta");
    let gamma = v.fresh_nz("gamma");
    let gens = EncryptionGens { G: v.g1(g), H: v.g2(h) };
    let delta_g = v.g1(delta);
    let gamma_g = v.g1(gamma);
    let g_i = (0..m).map(|i| v.gen_g1(&format!("g{}", i))).collect();
    Base { gens, g, h, delta, gamma, delta_g, gamma_g, g_i }
}

/// the relations an encryption key must satisfy, as pairing equations over its public elements
pub fn check_ek<V: Env>(v: &mut V, ek: &EncryptionKey<V::E>, b: &Base<V>, n: usize) {
    v.that("X has one element per chunk", ek.X.len() == n);
    v.that("Y has one element per chunk", ek.Y.len() == n);
    v.that("Z has one more element than chunks", ek.Z.len() == n + 1);
    v.that("validate() accepts a generated key", ek.validate().is_ok());
    v.that("supported_chunks_count is n", matches!(ek.supported_chunks_count(), Ok(k) if k as usize == n));
    v.eq_g1("X_0 = delta*G", ek.X_0, b.delta_g);
    for i in 0..n {
        let l = pair::<V>(ek.Y[i], b.gens.H);
        let r = pair::<V>(b.g_i[i], ek.Z[i + 1]);
        v.eq_gt(&format!("e(Y_{i},H) = e(g_{i},Z_{})", i + 1), l, r);
    }
    let mut r = pair::<V>(ek.X_0, ek.Z[0]);
    for i in 0..n {
        r += pair::<V>(ek.X[i], ek.Z[i + 1]);
    }
    v.eq_gt("e(P_1,H) = e(X_0,Z_0) + sum e(X_i,Z_{i+1})", pair::<V>(ek.P_1, b.gens.H), r);
    // P_2 = gamma_g * (1 + sum s_i), X_i = delta_g * s_i
    let mut s = vec![ek.X_0];
    s.extend(ek.X.iter().cloned());
    v.eq_g1("delta * P_2 = gamma * (X_0 + sum X_i)", mul1::<V>(ek.P_2, b.delta), mul1::<V>(sum1::<V>(&s), b.gamma));
}

fn keygen_wf<V: Env>(v: &mut V, p: &[u64]) {
    let (bits, extra) = (p[0], p[1] as usize);
    let n = nchunks(bits);
    let b = base(v, n + extra);
    let mut rng = v.rng();
    let r = keygen::<_, V::E>(&mut rng, bits as u8, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g);
    let (sk, ek, dk) = v.ok("keygen succeeds with enough bases", r);
    check_ek(v, &ek, &b, n);
    v.that("V_1 has one element per chunk", dk.V_1.len() == n);
    v.that("V_2 has one element per chunk", dk.V_2.len() == n);
    v.that("dk validates", dk.validate().is_ok());
    v.eq_g2("V_0 = rho*H", dk.V_0, mul2::<V>(b.gens.H, sk.0));
    for i in 0..n {
        // X_i = delta s_i, V_2 = rho v_i, V_1 = s_i v_i
        let l = pair::<V>(ek.X[i], dk.V_2[i]);
        let r = pair::<V>(mul1::<V>(b.delta_g, sk.0), dk.V_1[i]);
        v.eq_gt(&format!("e(X_{i},V_2[{i}]) = e(rho*delta*G,V_1[{i}])"), l, r);
    }
}

fn keygen_fresh<V: Env>(v: &mut V, p: &[u64]) {
    let bits = p[0];
    let n = nchunks(bits);
    let b = base(v, n);
    let mut rng = v.rng();
    let r = keygen::<_, V::E>(&mut rng, bits as u8, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g);
    let (sk, ek, dk) = v.ok("keygen", r);
    let r = keygen::<_, V::E>(&mut rng, bits as u8, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g);
    let (sk2, ek2, dk2) = v.ok("keygen", r);
    v.varies_f("secret keys of two runs are independent", sk.0 - sk2.0);
    for i in 0..n {
        v.varies_g1("X of two runs", (ek.X[i].into_group() - ek2.X[i]).into());
        v.varies_g1("Y of two runs", (ek.Y[i].into_group() - ek2.Y[i]).into());
        for j in 0..i {
            v.varies_g1("X_i, X_j independent", (ek.X[i].into_group() - ek.X[j]).into());
        }
        v.varies_g1("X_i is not X_0", (ek.X[i].into_group() - ek.X_0).into());
    }
    // t: every Z_i distinct, tested in G1 against an arbitrary base through Y when the bases agree
    for i in 0..=n {
        for j in 0..i {
            v.varies_g2("Z_i, Z_j independent", (ek.Z[i].into_group() - ek.Z[j]).into());
        }
        v.varies_g2("Z of two runs", (ek.Z[i].into_group() - ek2.Z[i]).into());
    }
    for i in 0..n {
        for j in 0..i {
            v.varies_g2("V_2[i], V_2[j] independent", (dk.V_2[i].into_group() - dk.V_2[j]).into());
        }
        v.varies_g2("V_2 of two runs", (dk.V_2[i].into_group() - dk2.V_2[i]).into());
    }
    v.varies_g2("V_0 of two runs", (dk.V_0.into_group() - dk2.V_0).into());
}

fn keygen_short<V: Env>(v: &mut V, p: &[u64]) {
    let (bits, m) = (p[0], p[1] as usize);
    let n = nchunks(bits);
    let b = base(v, m);
    let mut rng = v.rng();
    let r = keygen::<_, V::E>(&mut rng, bits as u8, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g);
    match v.err("keygen with too few bases is refused", r) {
        Some(SaverError::VectorShorterThanExpected(a, c)) => {
            v.that("error names both sizes", (a == m && c == n) || (a == n && c == m))
        }
        _ => v.fail("keygen with too few bases", "wrong error"),
    }
    let r = FkeygenPartial::<_, V::E>(&mut rng, bits as u8, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g);
    match v.err("FkeygenPartial with too few bases is refused", r) {
        Some(SaverError::VectorShorterThanExpected(a, c)) => {
            v.that("error names both sizes", (a == m && c == n) || (a == n && c == m))
        }
        _ => v.fail("FkeygenPartial with too few bases", "wrong error"),
    }
}

pub struct Dist<V: Env> {
    pub sks: Vec<SecretKeyST<V::E>>,
    pub partial: Vec<FEncryptionKeyPartial<V::E>>,
    pub combined: FEncryptionKeyPartial<V::E>,
    pub ek: EncryptionKey<V::E>,
}

/// the whole N-party protocol
pub fn dist<V: Env>(v: &mut V, b: &Base<V>, bits: u8, parties: usize) -> Dist<V> {
    let mut rng = v.rng();
    dist_with(v, b, bits, parties, &mut rng)
}
pub fn dist_with<V: Env>(v: &mut V, b: &Base<V>, bits: u8, parties: usize, rng: &mut V::R) -> Dist<V> {
    let mut sks = vec![];
    let mut partial = vec![];
    for _ in 0..parties {
        let r = FkeygenPartial::<_, V::E>(rng, bits, &b.gens, &b.g_i, &b.delta_g, &b.gamma_g);
        let (sk, ek) = v.ok("FkeygenPartial", r);
        sks.push(sk);
        partial.push(ek);
    }
    let combined = combineEKs(&b.gamma_g, &partial);
    let shares: Vec<_> = sks.iter().map(|sk| genP1share(&combined, sk)).collect();
    let p1 = combineP1share(&shares);
    let ek = keygenFinal(&combined, &p1);
    Dist { sks, partial, combined, ek }
}

fn dist_wf<V: Env>(v: &mut V, p: &[u64]) {
    let (bits, parties) = (p[0], p[1] as usize);
    let n = nchunks(bits);
    let b = base(v, n);
    let d = dist(v, &b, bits as u8, parties);
    check_ek(v, &d.ek, &b, n);
    // the joint secret is the sum of the parties' secrets
    for sk in &d.sks {
        v.that("s has n entries", sk.s.len() == n);
        v.that("t has n+1 entries", sk.t.len() == n + 1);
    }
    let mut s = vec![F::<V>::zero(); n];
    let mut t = vec![F::<V>::zero(); n + 1];
    for sk in &d.sks {
        for i in 0..n {
            s[i] += sk.s[i];
        }
        for i in 0..=n {
            t[i] += sk.t[i];
        }
    }
    let mut p1 = t[0];
    let mut ssum = F::<V>::one();
    for i in 0..n {
        v.eq_g1(&format!("X_{i} = delta*sum s_{i}"), d.ek.X[i], mul1::<V>(b.delta_g, s[i]));
        v.eq_g1(&format!("Y_{i} = g_{i}*sum t"), d.ek.Y[i], mul1::<V>(b.g_i[i], t[i + 1]));
        p1 += s[i] * t[i + 1];
        ssum += s[i];
    }
    for i in 0..=n {
        v.eq_g2(&format!("Z_{i} = H*sum t_{i}"), d.ek.Z[i], mul2::<V>(b.gens.H, t[i]));
    }
    v.eq_g1("P_1 = delta*(t_0 + sum s_j t_{j+1}) of the summed secrets", d.ek.P_1, mul1::<V>(b.delta_g, p1));
    v.eq_g1("P_2 = gamma*(1 + sum s_j) of the summed secrets", d.ek.P_2, mul1::<V>(b.gamma_g, ssum));
}

fn same_partial<V: Env>(v: &mut V, l: &str, a: &FEncryptionKeyPartial<V::E>, b: &FEncryptionKeyPartial<V::E>) {
    v.that("same shape", a.X.len() == b.X.len() && a.Y.len() == b.Y.len() && a.Z.len() == b.Z.len());
    v.eq_g1(&format!("{l}: X_0"), a.X_0, b.X_0);
    v.eq_g1(&format!("{l}: P_2"), a.P_2, b.P_2);
    for i in 0..a.X.len() {
        v.eq_g1(&format!("{l}: X"), a.X[i], b.X[i]);
        v.eq_g1(&format!("{l}: Y"), a.Y[i], b.Y[i]);
    }
    for i in 0..a.Z.len() {
        v.eq_g2(&format!("{l}: Z"), a.Z[i], b.Z[i]);
    }
}

/// the combined key does not depend on the order in which contributions are combined
fn dist_order<V: Env>(v: &mut V, p: &[u64]) {
    let (bits, parties) = (p[0], p[1] as usize);
    let n = nchunks(bits);
    let b = base(v, n);
    let d = dist(v, &b, bits as u8, parties);
    // any rotation, then any transposition of the first with another
    let rot = v.pick("rotation", 0, parties as u64 - 1) as usize;
    let swp = v.pick("swap", 0, parties as u64 - 1) as usize;
    let mut ord: Vec<usize> = (0..parties).map(|i| (i + rot) % parties).collect();
    ord.swap(0, swp);
    let perm: Vec<_> = ord.iter().map(|i| d.partial[*i].clone()).collect();
    let c2 = combineEKs(&b.gamma_g, &perm);
    same_partial(v, "combination order", &d.combined, &c2);
    let shares: Vec<_> = ord.iter().map(|i| genP1share(&c2, &d.sks[*i])).collect();
    let p1 = combineP1share(&shares);
    v.eq_g1("combination order: P_1", p1.P_1, d.ek.P_1);
    let ek2 = keygenFinal(&c2, &p1);
    check_ek(v, &ek2, &b, n);
}

/// contributions of arbitrary (not necessarily honest) shape-correct keys still combine element-wise
fn combine_arbitrary<V: Env>(v: &mut V, p: &[u64]) {
    let (n, parties) = (p[0] as usize, p[1] as usize);
    let gamma_g = v.any_g1("gamma_g");
    let x0 = v.any_g1("X0");
    let mut eks = vec![];
    for k in 0..parties {
        let X = (0..n).map(|i| v.any_g1(&format!("X{k}_{i}"))).collect();
        let Y = (0..n).map(|i| v.any_g1(&format!("Y{k}_{i}"))).collect();
        let Z = (0..=n).map(|i| v.any_g2(&format!("Z{k}_{i}"))).collect();
        let P_2 = v.any_g1(&format!("P2_{k}"));
        eks.push(FEncryptionKeyPartial::<V::E> { X_0: x0, X, Y, Z, P_2 });
    }
    let c = combineEKs(&gamma_g, &eks);
    v.that("shape", c.X.len() == n && c.Y.len() == n && c.Z.len() == n + 1);
    v.eq_g1("X_0", c.X_0, x0);
    for i in 0..n {
        let xs: Vec<_> = eks.iter().map(|e| e.X[i]).collect();
        v.eq_g1("X_i = sum", c.X[i], sum1::<V>(&xs));
        let ys: Vec<_> = eks.iter().map(|e| e.Y[i]).collect();
        v.eq_g1("Y_i = sum", c.Y[i], sum1::<V>(&ys));
    }
    for i in 0..=n {
        let zs: Vec<_> = eks.iter().map(|e| e.Z[i]).collect();
        v.eq_g2("Z_i = sum", c.Z[i], sum2::<V>(&zs));
    }
    let mut ps: Vec<_> = eks.iter().map(|e| e.P_2).collect();
    ps.push(gamma_g);
    v.eq_g1("P_2 = gamma + sum", c.P_2, sum1::<V>(&ps));
    // shares of P_1
    let mut shares = vec![];
    let mut want = vec![];
    for k in 0..parties {
        let s = (0..n).map(|i| v.fresh(&format!("s{k}_{i}"))).collect();
        let t: Vec<F<V>> = (0..=n).map(|i| v.fresh(&format!("t{k}_{i}"))).collect();
        let sk = SecretKeyST::<V::E> { s, t: t.clone() };
        let sh = genP1share(&c, &sk);
        let mut w = mul1::<V>(c.X_0, t[0]);
        for i in 0..n {
            w = add1::<V>(w, mul1::<V>(c.X[i], t[i + 1]));
        }
        v.eq_g1("share = X_0 t_0 + sum X_i t_{i+1}", sh.P_1, w);
        want.push(w);
        shares.push(sh);
    }
    let p1 = combineP1share(&shares);
    v.eq_g1("P_1 = sum of shares", p1.P_1, sum1::<V>(&want));
    let ek = keygenFinal(&c, &p1);
    v.eq_g1("final P_1", ek.P_1, p1.P_1);
    v.eq_g1("final P_2", ek.P_2, c.P_2);
    v.eq_g1("final X_0", ek.X_0, c.X_0);
    v.that("final shape", ek.X.len() == n && ek.Y.len() == n && ek.Z.len() == n + 1);
    for i in 0..n {
        v.eq_g1("final X", ek.X[i], c.X[i]);
        v.eq_g1("final Y", ek.Y[i], c.Y[i]);
    }
    for i in 0..=n {
        v.eq_g2("final Z", ek.Z[i], c.Z[i]);
    }
}

fn partial_fresh<V: Env>(v: &mut V, p: &[u64]) {
    let bits = p[0];
    let n = nchunks(bits);
    let b = base(v, n);
    let d = dist(v, &b, bits as u8, 2);
    for i in 0..n {
        v.varies_f("s of two parties", d.sks[0].s[i] - d.sks[1].s[i]);
        for j in 0..i {
            v.varies_f("s_i, s_j", d.sks[0].s[i] - d.sks[0].s[j]);
        }
        for j in 0..=n {
            v.varies_f("s_i, t_j", d.sks[0].s[i] - d.sks[0].t[j]);
        }
    }
    for i in 0..=n {
        v.varies_f("t of two parties", d.sks[0].t[i] - d.sks[1].t[i]);
        for j in 0..i {
            v.varies_f("t_i, t_j", d.sks[0].t[i] - d.sks[0].t[j]);
        }
    }
    let mut rng = v.rng();
    let r = Fkeygen_dest::<_, V::E>(&mut rng, &b.gens);
    let (sk1, pk1) = v.ok("Fkeygen_dest", r);
    let r = Fkeygen_dest::<_, V::E>(&mut rng, &b.gens);
    let (sk2, pk2) = v.ok("Fkeygen_dest", r);
    v.varies_f("destination secrets of two runs", sk1.0 - sk2.0);
    v.eq_g1("pk = rho*G", pk1.pk, mul1::<V>(b.gens.G, sk1.0));
    v.eq_g1("pk = rho*G", pk2.pk, mul1::<V>(b.gens.G, sk2.0));
}

pub fn reg(v: &mut Vec<H>) {
    const KF: &str = "keygen::keygen, utils::multiply_field_elems_with_same_group_elem, utils::WindowTable, utils::chunks_count, EncryptionKey::validate, DecryptionKey::validate";
    // every other chunk size
    for b in 1..=254u64 {
        harness!(v, "C02", format!("keygen_wf_b{b}"), quick, keygen_wf, [b, b % 2], KF,
            format!("chunk_bit_size {b}, n = {} chunks, all public parameters and all drawn secrets symbolic", nchunks(b)));
        harness!(v, "C03", format!("dist_wf_b{b}"), quick, dist_wf, [b, 1 + b % 3], "keygen::FkeygenPartial, keygen::combineEKs, keygen::genP1share, keygen::combineP1share, keygen::keygenFinal",
            format!("{} parties, chunk_bit_size {b} (n = {}), all secrets and public parameters symbolic", 1 + b % 3, nchunks(b)));
    }
    for (b, extra) in [(255u64, 0u64), (128, 2), (85, 1), (64, 0), (51, 0), (43, 1), (37, 0), (32, 5), (29, 0), (26, 0), (24, 1), (22, 0), (20, 0), (19, 2), (17, 0), (16, 0), (16, 3), (15, 0), (10, 0), (9, 1), (8, 0), (8, 4), (7, 0), (5, 3), (4, 0), (4, 1), (2, 0), (2, 1), (1, 0), (1, 7), (3, 2)] {
        harness!(v, "C02", format!("keygen_wf_b{b}_extra{extra}"), quick, keygen_wf, [b, extra], KF,
            format!("chunk_bit_size {b}, n = {} chunks, all public parameters and all drawn secrets symbolic", nchunks(b)));
    }
    for (b, extra) in [(3u64, 0u64), (6, 2), (11, 0), (12, 1), (13, 0), (14, 0), (18, 0), (31, 1)] {
        harness!(v, "C02", format!("keygen_wf_b{b}_extra{extra}"), thorough, keygen_wf, [b, extra], KF,
            format!("chunk_bit_size {b}, n = {} chunks, all public parameters and all drawn secrets symbolic", nchunks(b)));
    }
    for (b, m) in [(128u64, 1u64), (85, 0), (16, 15), (4, 63)] {
        harness!(v, "C02", format!("keygen_short_b{b}_m{m}"), quick, keygen_short, [b, m], "keygen::keygen, keygen::FkeygenPartial",
            format!("chunk_bit_size {b}, {m} bases (too few)"));
    }
    const DF: &str = "keygen::FkeygenPartial, keygen::combineEKs, keygen::genP1share, keygen::combineP1share, keygen::keygenFinal";
    for (b, k) in [(255u64, 2u64), (128, 1), (128, 2), (128, 3), (85, 4), (128, 5), (128, 6), (128, 7), (128, 8), (255, 12), (255, 16), (64, 4), (51, 2), (32, 3), (16, 2), (16, 4), (8, 3), (4, 2), (255, 33), (255, 65), (2, 2), (1, 1), (255, 130)] {
        harness!(v, "C03", format!("dist_wf_b{b}_N{k}"), quick, dist_wf, [b, k], DF,
            format!("{k} parties, chunk_bit_size {b} (n = {}), all secrets and public parameters symbolic", nchunks(b)));
    }
    for (b, k) in [(8u64, 5u64), (4, 3), (64, 8), (16, 8)] {
        harness!(v, "C03", format!("dist_wf_b{b}_N{k}"), thorough, dist_wf, [b, k], DF,
            format!("{k} parties, chunk_bit_size {b} (n = {}), all secrets and public parameters symbolic", nchunks(b)));
    }
    for (b, k) in [(255u64, 2u64), (128, 2), (128, 3), (85, 4), (128, 5), (255, 6), (32, 2)] {
        harness!(v, "C03", format!("dist_order_b{b}_N{k}"), quick, dist_order, [b, k], DF,
            format!("{k} parties in a symbolic order (rotation and transposition), n = {}", nchunks(b)));
    }
    for (n, k) in [(1u64, 1u64), (0, 2), (2, 2), (1, 3), (3, 3), (4, 5), (1, 8), (2, 12), (1, 17), (8, 2), (16, 3), (17, 2), (33, 2), (64, 2), (65, 1), (128, 2), (129, 1), (192, 2), (200, 1), (254, 1), (255, 3), (256, 1), (300, 2), (0, 33), (1, 34), (1, 65), (1, 130), (1, 257), (2, 100)] {
        harness!(v, "C03", format!("combine_arbitrary_n{n}_N{k}"), quick, combine_arbitrary, [n, k], DF,
            format!("{k} arbitrary shape-correct contributions, n = {n}"));
    }
    for b in [85u64, 32] {
        harness!(v, "C22", format!("keygen_fresh_b{b}"), quick, keygen_fresh, [b], KF,
            format!("n = {}, two runs, all pairs of drawn secrets", nchunks(b)));
        harness!(v, "C22", format!("partial_fresh_b{b}"), quick, partial_fresh, [b], DF,
            format!("n = {}, two parties, all pairs of drawn secrets", nchunks(b)));
    }
}
