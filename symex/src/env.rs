//! The harness interface.  Every harness is written once, generic over `Env`, and runs
//! (a) symbolically (`SymEnv`): inputs are solver variables, checks are proof obligations;
//! (b) natively (`NatEnv`): real BLS12-381, concrete inputs - used to replay counterexamples and
//!     to validate explored paths against the real curve.
use crate::ctx::*;
use crate::field::SymF;
use crate::types::*;
use ark_bls12_381::{Bls12_381, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ec::{AffineRepr, CurveGroup, Group};
use ark_ff::{One, PrimeField, UniformRand, Zero};
use ark_std::rand::{rngs::StdRng, RngCore, SeedableRng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;


pub type F<V> = <<V as Env>::E as Pairing>::ScalarField;
pub type A1<V> = <<V as Env>::E as Pairing>::G1Affine;
pub type A2<V> = <<V as Env>::E as Pairing>::G2Affine;
pub type G1p<V> = <<V as Env>::E as Pairing>::G1;
pub type GT<V> = PairingOutput<<V as Env>::E>;

pub trait Env: Sized {
    type E: Pairing;
    type R: RngCore;
    const SYM: bool;
    /// a place in the random source, to draw the same values again from there on
    type Mark: Clone;
    fn mark(&mut self) -> Self::Mark;
    fn rewind(&mut self, m: Self::Mark);
    /// how much the random source has given so far: 32 for each scalar of the whole range
    fn drawn(&mut self) -> u64;
    /// arbitrary scalar
    fn fresh(&mut self, name: &str) -> F<Self>;
    /// arbitrary non-zero scalar
    fn fresh_nz(&mut self, name: &str) -> F<Self>;
    /// arbitrary integer lo..=hi carried by the code as a u16
    fn chunk(&mut self, name: &str, lo: u16, hi: u16) -> u16;
    /// arbitrary integer lo..=hi as a scalar
    fn small(&mut self, name: &str, lo: u64, hi: u64) -> F<Self>;
    /// arbitrary integer lo..=hi, one path per value
    fn pick(&mut self, name: &str, lo: u64, hi: u64) -> u64;
    fn flag(&mut self, name: &str) -> bool;
    fn rng(&mut self) -> Self::R;
    /// element received from outside that may fail validation; `flag` says whether it does
    fn untrusted_g1(&mut self, name: &str) -> A1<Self>;
    fn untrusted_g2(&mut self, name: &str) -> A2<Self>;
    fn is_invalid(&mut self, name: &str) -> bool;
    fn zero_f(&mut self, label: &str, a: F<Self>);
    fn zero_g1(&mut self, label: &str, a: A1<Self>);
    fn zero_g2(&mut self, label: &str, a: A2<Self>);
    fn zero_gt(&mut self, label: &str, a: GT<Self>);
    fn nonzero_f(&mut self, label: &str, a: F<Self>);
    fn nonzero_gt(&mut self, label: &str, a: GT<Self>);
    fn nonzero_g1(&mut self, label: &str, a: A1<Self>);
    /// not identically equal: some value of the unknowns makes them differ
    fn varies_f(&mut self, label: &str, diff: F<Self>);
    fn varies_g1(&mut self, label: &str, diff: A1<Self>);
    fn varies_g2(&mut self, label: &str, diff: A2<Self>);
    fn varies_gt(&mut self, label: &str, diff: GT<Self>);
    fn fail(&mut self, label: &str, why: &str);
    /// pin a random draw to a constant when the code raises it to a power
    fn pin_powers(&mut self);
    /// enumerate small-domain scalars when the code looks at their bits
    fn enumerate_small(&mut self, on: bool);
    /// bound on how many hashes may fail to decode on one path
    fn hash_failures(&mut self, n: usize);

    /// a scalar whose `n` base-2^b digits are arbitrary at positions lo..hi and zero elsewhere, and its digits
    fn message(&mut self, b: u64, n: usize, lo: usize, hi: usize) -> (F<Self>, Vec<F<Self>>);
    /// make the pairing value the identity for all values of every unknown except the coefficients
    /// `rel*`, in which it is linear; false when that cannot be done (natively: when it is not the identity)
    fn vanish_gt(&mut self, a: GT<Self>) -> bool;
    /// make the equations this path was accepted under hold for all values of every unknown except `rel*`
    fn vanish_path(&mut self) -> bool;
    /// a secret the adversary holds: fixed to some value
    fn known(&mut self, x: F<Self>);
    /// the integer x itself (never a placeholder of a symbolic chunk)
    fn lit(&mut self, x: u64) -> F<Self>;
    /// is this pairing value the identity on this path? (the caller's own case split)
    fn gt_is_one(&mut self, a: GT<Self>) -> bool {
        a == GT::<Self>::zero()
    }

    fn g1(&mut self, s: F<Self>) -> A1<Self> {
        (A1::<Self>::generator() * s).into()
    }
    fn g2(&mut self, s: F<Self>) -> A2<Self> {
        (A2::<Self>::generator() * s).into()
    }
    fn any_g1(&mut self, name: &str) -> A1<Self> {
        let s = self.fresh(name);
        self.g1(s)
    }
    fn any_g2(&mut self, name: &str) -> A2<Self> {
        let s = self.fresh(name);
        self.g2(s)
    }
    fn gen_g1(&mut self, name: &str) -> A1<Self> {
        let s = self.fresh_nz(name);
        self.g1(s)
    }
    fn gen_g2(&mut self, name: &str) -> A2<Self> {
        let s = self.fresh_nz(name);
        self.g2(s)
    }
    fn eq_f(&mut self, label: &str, a: F<Self>, b: F<Self>) {
        self.zero_f(label, a - b)
    }
    fn eq_g1(&mut self, label: &str, a: A1<Self>, b: A1<Self>) {
        let d = (a.into_group() - b.into_group()).into();
        self.zero_g1(label, d)
    }
    fn eq_g2(&mut self, label: &str, a: A2<Self>, b: A2<Self>) {
        let d = (a.into_group() - b.into_group()).into();
        self.zero_g2(label, d)
    }
    fn eq_gt(&mut self, label: &str, a: GT<Self>, b: GT<Self>) {
        self.zero_gt(label, a - b)
    }
    /// accepted <=> gt = 1
    fn iff_gt(&mut self, label: &str, accepted: bool, gt: GT<Self>) {
        if accepted {
            self.zero_gt(&format!("{label}: accepted, so the equation holds"), gt)
        } else {
            self.nonzero_gt(&format!("{label}: rejected, so the equation fails"), gt)
        }
    }
    fn that(&mut self, label: &str, b: bool) {
        if !b {
            self.fail(label, "condition is false")
        }
    }
    fn ok<T, Er: core::fmt::Debug>(&mut self, label: &str, r: Result<T, Er>) -> T {
        match r {
            Ok(x) => {
                self.that(label, true);
                x
            }
            Err(e) => {
                self.fail(label, &format!("unexpected error {:?}", e));
                std::panic::panic_any(PathDone("violation"))
            }
        }
    }
    fn err<T, Er>(&mut self, label: &str, r: Result<T, Er>) -> Option<Er> {
        match r {
            Ok(_) => {
                self.fail(label, "expected an error, got a result");
                None
            }
            Err(e) => {
                self.that(label, true);
                Some(e)
            }
        }
    }
}

pub fn pair<V: Env>(a: A1<V>, b: A2<V>) -> GT<V> {
    V::E::pairing(a, b)
}
pub fn add1<V: Env>(a: A1<V>, b: A1<V>) -> A1<V> {
    (a.into_group() + b.into_group()).into()
}
pub fn mul1<V: Env>(a: A1<V>, s: F<V>) -> A1<V> {
    (a * s).into()
}
pub fn mul2<V: Env>(a: A2<V>, s: F<V>) -> A2<V> {
    (a * s).into()
}
pub fn neg1<V: Env>(a: A1<V>) -> A1<V> {
    (-a.into_group()).into()
}
pub fn sum1<V: Env>(v: &[A1<V>]) -> A1<V> {
    let mut s = A1::<V>::zero().into_group();
    for x in v {
        s += x;
    }
    s.into()
}
pub fn sum2<V: Env>(v: &[A2<V>]) -> A2<V> {
    let mut s = A2::<V>::zero().into_group();
    for x in v {
        s += x;
    }
    s.into()
}

// ------------------------------------------------------------------ symbolic
pub struct SymEnv;

fn cand_values(extra: &[(u32, bool)]) -> Vec<serde_json::Value> {
    let mut res: Vec<serde_json::Value> = vec![];
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let mut seen = std::collections::BTreeSet::new();
        for s in 0..5u64 {
            let old = c.seed;
            c.seed = old.wrapping_mul(31).wrapping_add(s);
            let m = c.model(extra, if s == 0 { 12 } else { 12 });
            c.seed = old;
            if let Some(m) = m {
                let j = assignment(&c, &m);
                if seen.insert(j.to_string()) {
                    res.push(j);
                }
            }
            if !extra.is_empty() || s == 0 {
                continue;
            }
        }
    });
    res
}

pub fn assignment(c: &Ctx, m: &BTreeMap<String, Fr>) -> serde_json::Value {
    let vars: serde_json::Map<String, serde_json::Value> =
        m.iter().map(|(k, v)| (k.clone(), serde_json::Value::String(v.to_string()))).collect();
    let group_draw = m.keys().any(|k| k.starts_with("gdraw"));
    let draws: Vec<String> = if group_draw {
        vec![]
    } else {
        c.draws
            .iter()
            .map(|d| match d {
                SymF::C(x) => x.to_string(),
                SymF::P(i) => c.eval_map(*i, m).map(|x| x.to_string()).unwrap_or("0".into()),
            })
            .collect()
    };
    serde_json::json!({"vars": vars, "draws": draws, "bools": c.bools})
}

pub fn sym_violation(label: &str, why: &str, extra: &[(u32, bool)]) {
    let cands = cand_values(extra);
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let pcs: Vec<String> = c.pc.clone().iter().map(|(a, t)| format!("{} {} 0", c.show(*a), if *t { "=" } else { "!=" })).collect();
        let n = pcs.len();
        let shown: Vec<String> = pcs.into_iter().rev().take(12).collect();
        let v = serde_json::json!({"t":"violation","label":label,"why":why,"pc_len":n,"pc_tail":shown,"candidates":cands});
        c.write_out(v);
    });
    crate::shared().violations.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
}

impl SymEnv {
    fn must(&mut self, label: &str, x: SymF, want: bool) {
        CTX.with(|c| c.borrow_mut().last_label = label.to_string());
        if let SymF::P(u32::MAX) = x {
            unsupported("gt zero in obligation");
        }
        if let SymF::C(k) = x {
            // still an obligation; the solver gets the residual constant
            let id = x.poly();
            let p = prove(id, want);
            if k.is_zero() != want {
                sym_violation(label, &format!("{} is {}", label, k), &[]);
                std::panic::panic_any(PathDone("violation"));
            }
            let _ = p;
            return;
        }
        match prove(x.poly(), want) {
            Proof::Holds => {}
            Proof::Unknown => {
                CTX.with(|c| c.borrow_mut().notes.push(format!("unknown: {}", label)));
                sym_violation(label, "solver could not decide", &[]);
                std::panic::panic_any(PathDone("unknown"));
            }
            Proof::Fails(extra) => {
                sym_violation(
                    label,
                    &format!("residual {} can be {}", x.show(), if want { "non-zero" } else { "zero" }),
                    &extra,
                );
                std::panic::panic_any(PathDone("violation"));
            }
        }
    }
    fn must_eq(&mut self, label: &str, a: SymF, b: SymF) {
        if matches!(a, SymF::P(u32::MAX)) || matches!(b, SymF::P(u32::MAX)) {
            unsupported("gt zero in obligation");
        }
        let (x, y) = (a.poly(), b.poly());
        CTX.with(|c| c.borrow_mut().identity = Some((x, y)));
        self.must(label, a - b, true);
        CTX.with(|c| c.borrow_mut().identity = None);
    }
    fn varies(&mut self, label: &str, x: SymF) {
        CTX.with(|c| c.borrow_mut().last_label = label.to_string());
        // a model of `x != 0` is the witness asked for
        let zero = match x {
            SymF::C(k) => k.is_zero(),
            SymF::P(i) => !matches!(prove(i, true), Proof::Fails(_)),
        };
        if zero {
            sym_violation(label, "the two values are equal for every choice of the randomness", &[]);
            std::panic::panic_any(PathDone("violation"));
        }
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if matches!(x, SymF::C(_)) {
                c.stats.obligations += 1;
            }
            c.stats.discharged += 1;
        });
    }
}

impl Env for SymEnv {
    type E = SymE;
    type R = SymRng;
    const SYM: bool = true;
    type Mark = usize;
    fn mark(&mut self) -> usize {
        CTX.with(|c| c.borrow().draws.len())
    }
    fn rewind(&mut self, m: usize) {
        CTX.with(|c| c.borrow_mut().redraw = Some(m))
    }
    fn drawn(&mut self) -> u64 {
        self.mark() as u64 * 32
    }
    fn fresh(&mut self, name: &str) -> SymF {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let v = c.fresh_var(name, false, None);
            SymF::P(c.var_poly(v))
        })
    }
    fn fresh_nz(&mut self, name: &str) -> SymF {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let v = c.fresh_var(name, true, None);
            SymF::P(c.var_poly(v))
        })
    }
    fn chunk(&mut self, name: &str, lo: u16, hi: u16) -> u16 {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let v = c.fresh_var(name, false, Some((lo as u64, hi as u64)));
            let mut t = 0xA5A5u64 ^ ((v as u64 & 0x3f) << 3);
            // keep the placeholder inside the domain when the domain is all of u16
            while c.tokens.contains_key(&t) {
                t += 1;
            }
            c.tokens.insert(t, v);
            c.vars[v as usize].token = Some(t);
            t as u16
        })
    }
    fn small(&mut self, name: &str, lo: u64, hi: u64) -> SymF {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let v = c.fresh_var(name, false, Some((lo, hi)));
            SymF::P(c.var_poly(v))
        })
    }
    fn pick(&mut self, name: &str, lo: u64, hi: u64) -> u64 {
        let s = self.small(name, lo, hi);
        concretise(s.poly()).unwrap()
    }
    fn flag(&mut self, name: &str) -> bool {
        decide_bool(name)
    }
    fn rng(&mut self) -> SymRng {
        SymRng { k: 0 }
    }
    fn untrusted_g1(&mut self, name: &str) -> SymG1A {
        SymG1A(self.fresh_nz(&format!("untrusted:{}", name)))
    }
    fn untrusted_g2(&mut self, name: &str) -> SymG2A {
        SymG2A(self.fresh_nz(&format!("untrusted:{}", name)))
    }
    fn is_invalid(&mut self, name: &str) -> bool {
        decide_bool(&format!("invalid:untrusted:{}", name))
    }
    fn eq_f(&mut self, label: &str, a: SymF, b: SymF) {
        self.must_eq(label, a, b)
    }
    fn eq_g1(&mut self, label: &str, a: SymG1A, b: SymG1A) {
        self.must_eq(label, a.0, b.0)
    }
    fn eq_g2(&mut self, label: &str, a: SymG2A, b: SymG2A) {
        self.must_eq(label, a.0, b.0)
    }
    fn eq_gt(&mut self, label: &str, a: PairingOutput<SymE>, b: PairingOutput<SymE>) {
        self.must_eq(label, a.0 .0, b.0 .0)
    }
    fn zero_f(&mut self, label: &str, a: SymF) {
        self.must(label, a, true)
    }
    fn zero_g1(&mut self, label: &str, a: SymG1A) {
        self.must(label, a.0, true)
    }
    fn zero_g2(&mut self, label: &str, a: SymG2A) {
        self.must(label, a.0, true)
    }
    fn zero_gt(&mut self, label: &str, a: PairingOutput<SymE>) {
        self.must(label, a.0 .0, true)
    }
    fn nonzero_f(&mut self, label: &str, a: SymF) {
        self.must(label, a, false)
    }
    fn nonzero_gt(&mut self, label: &str, a: PairingOutput<SymE>) {
        self.must(label, a.0 .0, false)
    }
    fn nonzero_g1(&mut self, label: &str, a: SymG1A) {
        self.must(label, a.0, false)
    }
    fn varies_f(&mut self, label: &str, d: SymF) {
        self.varies(label, d)
    }
    fn varies_g1(&mut self, label: &str, d: SymG1A) {
        self.varies(label, d.0)
    }
    fn varies_g2(&mut self, label: &str, d: SymG2A) {
        self.varies(label, d.0)
    }
    fn varies_gt(&mut self, label: &str, d: PairingOutput<SymE>) {
        self.varies(label, d.0 .0)
    }
    fn fail(&mut self, label: &str, why: &str) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.stats.obligations += 1;
            c.last_label = label.to_string();
        });
        sym_violation(label, why, &[]);
        std::panic::panic_any(PathDone("violation"));
    }
    fn that(&mut self, label: &str, b: bool) {
        if !b {
            self.fail(label, "condition is false")
        }
        // the fact was decided along the path: every value following this path satisfies it
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.stats.obligations += 1;
            c.stats.discharged += 1;
        });
    }
    fn pin_powers(&mut self) {
        CTX.with(|c| c.borrow_mut().pin_pow = true);
    }
    fn enumerate_small(&mut self, on: bool) {
        CTX.with(|c| c.borrow_mut().conc_small = on);
    }
    fn hash_failures(&mut self, n: usize) {
        CTX.with(|c| c.borrow_mut().max_hash_fails = n);
    }
    fn message(&mut self, b: u64, n: usize, lo: usize, hi: usize) -> (SymF, Vec<SymF>) {
        let mut digits = vec![SymF::f_from_u128(0); n];
        let mut raw = vec![0u64; n];
        let mut m = SymF::f_from_u128(0);
        let base = match b { 4 => 15, 8 => 0xC1, _ => 0xA5C1u64 };
        for i in 0..n {
            m = m * SymF::C(Fr::from(1u64 << b));
            if i >= lo && i < hi {
                let t = if b == 4 { base - (i - lo) as u64 } else { base + (i - lo) as u64 };
                let v = CTX.with(|c| {
                    let mut c = c.borrow_mut();
                    let v = c.fresh_var(&format!("digit{}", i), false, Some((0, (1 << b) - 1)));
                    c.tokens.insert(t, v);
                    SymF::P(c.var_poly(v))
                });
                digits[i] = v;
                raw[i] = t;
                m = m + v;
            }
        }
        let mut bytes: Vec<u8> = vec![];
        match b {
            4 => for x in raw.chunks(2) { bytes.push((x[0] << 4 | x[1]) as u8) },
            8 => for x in raw { bytes.push(x as u8) },
            _ => for x in raw { bytes.push((x >> 8) as u8); bytes.push(x as u8) },
        }
        CTX.with(|c| c.borrow_mut().bigs.insert(m.poly(), bytes));
        (m, digits)
    }
    fn vanish_gt(&mut self, a: PairingOutput<SymE>) -> bool {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.path_relations().is_some() && c.vanish_identically(&[a.0 .0.poly()]).is_some()
        })
    }
    fn vanish_path(&mut self) -> bool {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            match c.path_relations() {
                Some(v) => c.vanish_identically(&v).is_some(),
                None => false,
            }
        })
    }
    fn known(&mut self, x: SymF) {
        CTX.with(|c| c.borrow_mut().fix_unknowns(x.poly()))
    }
    fn lit(&mut self, x: u64) -> SymF {
        SymF::C(Fr::from(x))
    }
}

// ------------------------------------------------------------------ native
pub struct NativeViolation(pub String);

#[derive(Clone)]
pub struct ScriptRng(Rc<RefCell<(VecDeque<u64>, StdRng)>>, Rc<Cell<u64>>);
impl ScriptRng {
    fn count(&self, bytes: usize) {
        self.1.set(self.1.get() + bytes as u64)
    }
}
impl RngCore for ScriptRng {
    fn next_u32(&mut self) -> u32 {
        self.count(4);
        self.0.borrow_mut().1.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.count(8);
        let mut b = self.0.borrow_mut();
        match b.0.pop_front() {
            Some(x) => x,
            None => b.1.next_u64(),
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.count(d.len());
        self.0.borrow_mut().1.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

pub struct NatEnv {
    vals: BTreeMap<String, Fr>,
    bools: BTreeMap<String, bool>,
    used: BTreeMap<String, u32>,
    rng: ScriptRng,
    aux: StdRng,
    pub checks: u64,
}

impl NatEnv {
    pub fn new(a: &serde_json::Value, seed: u64, scripted: bool) -> Self {
        use std::str::FromStr;
        let mut vals = BTreeMap::new();
        if let Some(m) = a["vars"].as_object() {
            for (k, v) in m {
                vals.insert(k.clone(), Fr::from_str(v.as_str().unwrap()).unwrap_or(Fr::zero()));
            }
        }
        let mut bools = BTreeMap::new();
        if let Some(m) = a["bools"].as_object() {
            for (k, v) in m {
                bools.insert(k.clone(), v.as_bool().unwrap());
            }
        }
        let mut q = VecDeque::new();
        if scripted {
            if let Some(d) = a["draws"].as_array() {
                for x in d {
                    let f = Fr::from_str(x.as_str().unwrap()).unwrap_or(Fr::zero());
                    q.extend(f.0 .0.iter());
                }
            }
        }
        NatEnv {
            vals,
            bools,
            used: BTreeMap::new(),
            rng: ScriptRng(Rc::new(RefCell::new((q, StdRng::seed_from_u64(seed ^ 0xabcd)))), Rc::new(Cell::new(0))),
            aux: StdRng::seed_from_u64(seed ^ 0x1234_5678),
            checks: 0,
        }
    }
    fn name(&mut self, n: &str) -> String {
        let k = self.used.entry(n.to_string()).or_insert(0);
        *k += 1;
        if *k == 1 {
            n.to_string()
        } else {
            format!("{}#{}", n, k)
        }
    }
    fn val(&mut self, n: &str) -> Fr {
        let n = self.name(n);
        match self.vals.get(&n) {
            Some(x) => *x,
            None => Fr::rand(&mut self.aux),
        }
    }
    fn int(&mut self, n: &str, lo: u64, hi: u64) -> u64 {
        let n = self.name(n);
        match self.vals.get(&n) {
            Some(x) => {
                let b = x.into_bigint();
                b.0[0].clamp(lo, hi)
            }
            None => lo + self.aux.next_u64() % (hi - lo + 1),
        }
    }
    fn v(&self, s: String) -> ! {
        std::panic::panic_any(NativeViolation(s))
    }
}

/// a point of the curve outside the prime-order subgroup
pub fn bad_g1() -> G1Affine {
    let mut x = ark_bls12_381::Fq::one();
    loop {
        if let Some(p) = G1Affine::get_point_from_x_unchecked(x, false) {
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                return p;
            }
        }
        x += ark_bls12_381::Fq::one();
    }
}
pub fn bad_g2() -> G2Affine {
    let mut x = ark_bls12_381::Fq2::one();
    loop {
        if let Some(p) = G2Affine::get_point_from_x_unchecked(x, false) {
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                return p;
            }
        }
        x += ark_bls12_381::Fq2::one();
    }
}

impl Env for NatEnv {
    type E = Bls12_381;
    type R = ScriptRng;
    const SYM: bool = false;
    type Mark = (VecDeque<u64>, StdRng);
    fn mark(&mut self) -> Self::Mark {
        self.rng.0.borrow().clone()
    }
    fn rewind(&mut self, m: Self::Mark) {
        self.rng = ScriptRng(Rc::new(RefCell::new(m)), self.rng.1.clone());
    }
    fn drawn(&mut self) -> u64 {
        self.rng.1.get()
    }
    fn fresh(&mut self, name: &str) -> Fr {
        self.val(name)
    }
    fn fresh_nz(&mut self, name: &str) -> Fr {
        let x = self.val(name);
        if x.is_zero() {
            Fr::one()
        } else {
            x
        }
    }
    fn chunk(&mut self, name: &str, lo: u16, hi: u16) -> u16 {
        self.int(name, lo as u64, hi as u64) as u16
    }
    fn small(&mut self, name: &str, lo: u64, hi: u64) -> Fr {
        Fr::from(self.int(name, lo, hi))
    }
    fn pick(&mut self, name: &str, lo: u64, hi: u64) -> u64 {
        self.int(name, lo, hi)
    }
    fn flag(&mut self, name: &str) -> bool {
        let r = self.aux.next_u32() % 2 == 0;
        *self.bools.entry(name.to_string()).or_insert(r)
    }
    fn rng(&mut self) -> ScriptRng {
        self.rng.clone()
    }
    fn untrusted_g1(&mut self, name: &str) -> G1Affine {
        let s = self.val(&format!("untrusted:{}", name));
        if self.is_invalid(name) {
            bad_g1()
        } else {
            (G1Projective::generator() * s).into_affine()
        }
    }
    fn untrusted_g2(&mut self, name: &str) -> G2Affine {
        let s = self.val(&format!("untrusted:{}", name));
        if self.is_invalid(name) {
            bad_g2()
        } else {
            (G2Projective::generator() * s).into_affine()
        }
    }
    fn is_invalid(&mut self, name: &str) -> bool {
        *self.bools.get(&format!("invalid:untrusted:{}", name)).unwrap_or(&false)
    }
    fn zero_f(&mut self, label: &str, a: Fr) {
        self.checks += 1;
        if !a.is_zero() {
            self.v(format!("{label}: values differ"))
        }
    }
    fn zero_g1(&mut self, label: &str, a: G1Affine) {
        self.checks += 1;
        if !a.is_zero() {
            self.v(format!("{label}: G1 elements differ"))
        }
    }
    fn zero_g2(&mut self, label: &str, a: G2Affine) {
        self.checks += 1;
        if !a.is_zero() {
            self.v(format!("{label}: G2 elements differ"))
        }
    }
    fn zero_gt(&mut self, label: &str, a: PairingOutput<Bls12_381>) {
        self.checks += 1;
        if !a.is_zero() {
            self.v(format!("{label}: pairing equation fails"))
        }
    }
    fn nonzero_f(&mut self, label: &str, a: Fr) {
        self.checks += 1;
        if a.is_zero() {
            self.v(format!("{label}: value is zero"))
        }
    }
    fn nonzero_gt(&mut self, label: &str, a: PairingOutput<Bls12_381>) {
        self.checks += 1;
        if a.is_zero() {
            self.v(format!("{label}: pairing equation holds"))
        }
    }
    fn nonzero_g1(&mut self, label: &str, a: G1Affine) {
        self.checks += 1;
        if a.is_zero() {
            self.v(format!("{label}: element is the identity"))
        }
    }
    fn varies_f(&mut self, label: &str, d: Fr) {
        self.checks += 1;
        if d.is_zero() {
            self.v(format!("{label}: equal although independent"))
        }
    }
    fn varies_g1(&mut self, label: &str, d: G1Affine) {
        self.checks += 1;
        if d.is_zero() {
            self.v(format!("{label}: equal although independent"))
        }
    }
    fn varies_g2(&mut self, label: &str, d: G2Affine) {
        self.checks += 1;
        if d.is_zero() {
            self.v(format!("{label}: equal although independent"))
        }
    }
    fn varies_gt(&mut self, label: &str, d: PairingOutput<Bls12_381>) {
        self.checks += 1;
        if d.is_zero() {
            self.v(format!("{label}: equal although independent"))
        }
    }
    fn fail(&mut self, label: &str, why: &str) {
        self.v(format!("{label}: {why}"))
    }
    fn that(&mut self, label: &str, b: bool) {
        self.checks += 1;
        if !b {
            self.v(format!("{label}: condition is false"))
        }
    }
    fn pin_powers(&mut self) {}
    fn enumerate_small(&mut self, _on: bool) {}
    fn hash_failures(&mut self, _n: usize) {}
    fn message(&mut self, b: u64, n: usize, lo: usize, hi: usize) -> (Fr, Vec<Fr>) {
        let mut m = Fr::zero();
        for i in 0..n {
            m *= Fr::from(1u64 << b);
            if i >= lo && i < hi {
                m += Fr::from(self.int(&format!("digit{}", i), 0, (1 << b) - 1));
            }
        }
        // canonical digits of the reduced value
        let mut x: num_bigint::BigUint = m.into_bigint().into();
        let radix = num_bigint::BigUint::from(1u64 << b);
        let mut d = vec![Fr::zero(); n];
        for i in (0..n).rev() {
            d[i] = Fr::from(&x % &radix);
            x /= &radix;
        }
        (m, d)
    }
    fn vanish_gt(&mut self, a: PairingOutput<Bls12_381>) -> bool {
        a.is_zero()
    }
    fn vanish_path(&mut self) -> bool {
        true
    }
    fn known(&mut self, _x: Fr) {}
    fn lit(&mut self, x: u64) -> Fr {
        Fr::from(x)
    }
}
