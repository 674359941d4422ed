//! Symbolic execution engine: term arena (Laurent polynomials over the real BLS12-381 scalar
//! field), path condition, z3 process, fork-based exploration of both sides of every branch whose
//! two sides are feasible, proof obligations and counterexample models.
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

pub type Mono = Vec<(u16, i16)>;
pub type Poly = Rc<Vec<(u32, Fr)>>;

#[derive(Clone, Debug)]
pub struct Var {
    pub name: String,
    /// known to be non-zero (assumption recorded in the evidence)
    pub nz: bool,
    /// small integer domain lo..=hi
    pub small: Option<(u64, u64)>,
    pub declared: bool,
    /// solved by an equality of the path condition
    pub def: Option<u32>,
    /// placeholder value used where the code carries the variable as a machine integer
    pub token: Option<u64>,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    /// branch questions the solver gave up on: both sides are explored
    pub undecided: u64,
    pub solver_us: u64,
    pub witnessed: u64,
    pub interval: u64,
    pub decisions: u64,
    pub forks: u64,
    pub obligations: u64,
    pub discharged: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Answer {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    _child: Child,
    stdin: ChildStdin,
    out: BufReader<ChildStdout>,
}

pub struct Ctx {
    pub on: bool,
    pub monos: Vec<Mono>,
    mono_ix: HashMap<Mono, u32>,
    mulmemo: HashMap<(u32, u32), u32>,
    pub polys: Vec<Poly>,
    poly_ix: HashMap<Vec<(u32, [u64; 4])>, u32>,
    pub vars: Vec<Var>,
    var_ix: HashMap<String, u16>,
    pub tokens: HashMap<u64, u16>,
    /// placeholder bytes of messages with symbolic digits
    pub bigs: HashMap<u32, Vec<u8>>,
    /// coordinates of points: term -> (2 for x, 3 for y; the point)
    /// equations of the path condition used for rewriting: (largest monomial, monic polynomial)
    pub rules: Vec<(Mono, u32)>,
    pub rules_stale: bool,
    /// the query at hand is a branch question (time-out in ms shorter than that of an obligation)
    pub deciding: bool,
    pub cur_ms: u64,
    pub decide_ms: u64,
    pub prove_ms: u64,
    pub reducing: bool,
    pub coords: HashMap<u32, (u8, crate::field::SymF)>,
    /// draws from the symbolic rng, in order: term
    pub draws: Vec<crate::field::SymF>,
    /// the next draw repeats this one
    pub redraw: Option<usize>,
    /// when set, a bare draw raised to a power is pinned to a constant (the evaluation point of the QAP)
    pub pin_pow: bool,
    pub pinned: HashMap<u32, Fr>,
    /// equations of the path that fix an unknown to a constant
    pub pins: std::collections::HashSet<u32>,
    /// when set, `into_bigint` of a small-domain variable enumerates its feasible values
    pub conc_small: bool,
    pub max_hash_fails: usize,
    /// canonical residual polynomial -> truth on this path
    known: HashMap<u32, bool>,
    /// sums known to be non-zero on this path, as possible factors: (largest monomial, its coefficient, sum)
    factors: Vec<(Mono, Fr, u32)>,
    /// integer bounds of sums of small variables
    sum_bounds: HashMap<Vec<(u32, u64)>, (u64, u64)>,
    pub pc: Vec<(u32, bool)>,
    atoms: HashMap<u32, String>,
    opaque: HashMap<u32, String>,
    pub bools: BTreeMap<String, bool>,
    solver: Option<Solver>,
    pub stats: Stats,
    pub out: Option<std::fs::File>,
    pub violations_max: usize,
    pub cand_dir: String,
    pub abort_flag: String,
    pub harness: String,
    pub started: Option<Instant>,
    pub last_label: String,
    pub notes: Vec<String>,
    pub logq: Option<std::fs::File>,
    pub seed: u64,
    /// the two sides of the equation being proved, for the solver's query
    pub identity: Option<(u32, u32)>,
    /// which representative values `follow` uses on this path
    pub follow_style: Option<usize>,
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::new());
}

/// raised (as a panic payload) when the path leaves what the encoding covers
pub struct Unsupported(pub String);
/// raised to leave a path that turned out infeasible or has been fully handled
pub struct PathDone(pub &'static str);

pub fn unsupported(s: &str) -> ! {
    std::panic::panic_any(Unsupported(s.to_string()))
}

pub fn modulus_dec() -> String {
    num_bigint::BigUint::from(Fr::MODULUS).to_string()
}

pub fn fr_signed_smt(c: &Fr) -> String {
    let half = num_bigint::BigUint::from(Fr::MODULUS_MINUS_ONE_DIV_TWO);
    let v: num_bigint::BigUint = (*c).into();
    if v > half {
        let m: num_bigint::BigUint = (-*c).into();
        format!("(- {})", m)
    } else {
        v.to_string()
    }
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            on: false,
            monos: vec![],
            mono_ix: HashMap::new(),
            mulmemo: HashMap::new(),
            polys: vec![],
            poly_ix: HashMap::new(),
            vars: vec![],
            var_ix: HashMap::new(),
            tokens: HashMap::new(),
            bigs: HashMap::new(),
            coords: HashMap::new(),
            rules: vec![],
            rules_stale: false,
            deciding: false,
            cur_ms: 0,
            decide_ms: 3000,
            prove_ms: 20000,
            reducing: false,
            draws: vec![],
            redraw: None,
            pin_pow: false,
            pinned: HashMap::new(),
            pins: Default::default(),
            conc_small: false,
            max_hash_fails: 3,
            known: HashMap::new(),
            factors: vec![],
            sum_bounds: HashMap::new(),
            pc: vec![],
            atoms: HashMap::new(),
            opaque: HashMap::new(),
            bools: BTreeMap::new(),
            solver: None,
            stats: Stats::default(),
            out: None,
            violations_max: 6,
            cand_dir: String::new(),
            abort_flag: String::new(),
            harness: String::new(),
            started: None,
            follow_style: None,
            last_label: String::new(),
            notes: vec![],
            logq: None,
            seed: 1,
            identity: None,
        };
        c.mono(vec![]); // id 0 = 1
        c.intern(vec![]); // polynomial 0 = 0
        c
    }

    // ---------- terms ----------
    pub fn mono(&mut self, m: Mono) -> u32 {
        if let Some(i) = self.mono_ix.get(&m) {
            return *i;
        }
        let i = self.monos.len() as u32;
        self.monos.push(m.clone());
        self.mono_ix.insert(m, i);
        i
    }

    fn mono_mul(&mut self, a: u32, b: u32) -> u32 {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(i) = self.mulmemo.get(&k) {
            return *i;
        }
        let (x, y) = (&self.monos[a as usize], &self.monos[b as usize]);
        let mut r: Mono = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j == y.len() || (i < x.len() && x[i].0 < y[j].0) {
                r.push(x[i]);
                i += 1;
            } else if i == x.len() || y[j].0 < x[i].0 {
                r.push(y[j]);
                j += 1;
            } else {
                let e = x[i].1 + y[j].1;
                if e != 0 {
                    r.push((x[i].0, e));
                }
                i += 1;
                j += 1;
            }
        }
        let id = self.mono(r);
        self.mulmemo.insert(k, id);
        id
    }

    pub fn intern(&mut self, mut p: Vec<(u32, Fr)>) -> u32 {
        p.retain(|t| !t.1.is_zero());
        let key: Vec<(u32, [u64; 4])> = p.iter().map(|(m, c)| (*m, c.0 .0)).collect();
        if let Some(i) = self.poly_ix.get(&key) {
            return *i;
        }
        let i = self.polys.len() as u32;
        self.polys.push(Rc::new(p));
        self.poly_ix.insert(key, i);
        i
    }

    pub fn p_add(&mut self, a: &Poly, b: &Poly, neg: bool) -> Vec<(u32, Fr)> {
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
                r.push(a[i]);
                i += 1;
            } else if i == a.len() || b[j].0 < a[i].0 {
                r.push((b[j].0, if neg { -b[j].1 } else { b[j].1 }));
                j += 1;
            } else {
                let c = if neg { a[i].1 - b[j].1 } else { a[i].1 + b[j].1 };
                if !c.is_zero() {
                    r.push((a[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        r
    }

    pub fn p_mul(&mut self, a: &Poly, b: &Poly) -> Vec<(u32, Fr)> {
        if a.len() == 1 || b.len() == 1 {
            let (s, o) = if a.len() == 1 { (a, b) } else { (b, a) };
            let (m, c) = s[0];
            let mut r: Vec<(u32, Fr)> = o
                .iter()
                .map(|(m2, c2)| (self.mono_mul(m, *m2), c * *c2))
                .collect();
            r.sort_by_key(|t| t.0);
            return r;
        }
        let mut acc: HashMap<u32, Fr> = HashMap::new();
        for (m1, c1) in a.iter() {
            for (m2, c2) in b.iter() {
                let m = self.mono_mul(*m1, *m2);
                *acc.entry(m).or_insert(Fr::zero()) += *c1 * *c2;
            }
        }
        let mut r: Vec<(u32, Fr)> = acc.into_iter().filter(|t| !t.1.is_zero()).collect();
        r.sort_by_key(|t| t.0);
        r
    }

    pub fn fresh_var(&mut self, name: &str, nz: bool, small: Option<(u64, u64)>) -> u16 {
        let mut n = name.to_string();
        let mut k = 1;
        while self.var_ix.contains_key(&n) {
            k += 1;
            n = format!("{}#{}", name, k);
        }
        let id = self.vars.len() as u16;
        self.vars.push(Var { name: n.clone(), nz, small, declared: false, def: None, token: None });
        self.var_ix.insert(n, id);
        id
    }

    pub fn var_poly(&mut self, v: u16) -> u32 {
        let m = self.mono(vec![(v, 1)]);
        self.intern(vec![(m, Fr::one())])
    }

    pub fn const_poly(&mut self, c: Fr) -> u32 {
        if c.is_zero() {
            self.intern(vec![])
        } else {
            self.intern(vec![(0, c)])
        }
    }

    // ---------- normalisation ----------
    /// apply solved variables until nothing changes
    fn subst(&mut self, id: u32) -> u32 {
        match self.try_subst(id) {
            Some(i) => self.reduce(i),
            None => unsupported("negative power of a solved variable"),
        }
    }
    fn try_subst(&mut self, id: u32) -> Option<u32> {
        let mut id = id;
        loop {
            let p = self.polys[id as usize].clone();
            let mut acc: HashMap<u32, Fr> = HashMap::new();
            let mut changed = false;
            for (m, c) in p.iter() {
                let hit = self.monos[*m as usize].iter().find(|t| self.vars[t.0 as usize].def.is_some()).cloned();
                let Some((v, e)) = hit else {
                    *acc.entry(*m).or_insert(Fr::zero()) += *c;
                    continue;
                };
                changed = true;
                let d = self.polys[self.vars[v as usize].def.unwrap() as usize].clone();
                let rest: Mono = self.monos[*m as usize].iter().filter(|t| t.0 != v).cloned().collect();
                let rm = self.mono(rest);
                let mut term: Vec<(u32, Fr)> = vec![(rm, *c)];
                if e < 0 {
                    match d.len() {
                        1 if d[0].0 == 0 => term[0].1 *= d[0].1.inverse().unwrap().pow([(-e) as u64]),
                        _ => return None,
                    }
                } else {
                    for _ in 0..e {
                        let t = Rc::new(term);
                        term = self.p_mul(&t, &d);
                    }
                }
                for (m, c) in term {
                    *acc.entry(m).or_insert(Fr::zero()) += c;
                }
            }
            if !changed {
                return Some(id);
            }
            let mut r: Vec<(u32, Fr)> = acc.into_iter().filter(|t| !t.1.is_zero()).collect();
            r.sort_by_key(|t| t.0);
            id = self.intern(r);
        }
    }

    fn is_rel(&self, v: u16) -> bool {
        self.vars[v as usize].name.starts_with("rel")
    }

    /// The polynomial is linear in the coefficients `rel*`: make it vanish identically in all other
    /// unknowns.  The coefficient of every monomial of the other unknowns is one linear equation; the
    /// system is solved and the solved coefficients are replaced by their solution from here on.
    /// Returns the number of equations used, None when some of them has no solution.
    pub fn vanish_identically(&mut self, ids: &[u32]) -> Option<usize> {
        let all = std::mem::take(&mut self.rules);
        let stale = self.rules_stale;
        // equations between the other unknowns hold; those that mention the coefficients are what is solved here
        self.rules = all.iter().filter(|(_, q)| !self.polys[*q as usize].iter().any(|t| self.monos[t.0 as usize].iter().any(|x| self.is_rel(x.0)))).cloned().collect();
        self.rules_stale = false;
        const ONE: u16 = u16::MAX;
        let mut piv: BTreeMap<u16, BTreeMap<u16, Fr>> = BTreeMap::new();
        for id in ids {
            let id = self.subst(*id);
            let mut rows: BTreeMap<Mono, BTreeMap<u16, Fr>> = BTreeMap::new();
            for (m, c) in self.polys[id as usize].clone().iter() {
                let mm = &self.monos[*m as usize];
                let rel: Vec<(u16, i16)> = mm.iter().filter(|t| self.is_rel(t.0)).cloned().collect();
                let rest: Mono = mm.iter().filter(|t| !self.is_rel(t.0)).cloned().collect();
                let k = match rel.as_slice() {
                    [] => ONE,
                    [(v, 1)] => *v,
                    _ => unsupported("relation not linear in its coefficients"),
                };
                if rest.iter().any(|t| self.vars[t.0 as usize].small.is_some()) {
                    unsupported("relation over a symbolic chunk");
                }
                *rows.entry(rest).or_default().entry(k).or_insert(Fr::zero()) += *c;
            }
            for (_, mut row) in rows {
                loop {
                    row.retain(|_, c| !c.is_zero());
                    let Some((v, k)) = row.iter().map(|(v, c)| (*v, *c)).find(|(v, _)| piv.contains_key(v)) else { break };
                    for (w, c) in piv[&v].iter() {
                        *row.entry(*w).or_insert(Fr::zero()) -= k * c;
                    }
                }
                let Some((v, k)) = row.iter().map(|(v, c)| (*v, *c)).find(|(v, _)| *v != ONE) else {
                    if row.is_empty() {
                        continue;
                    }
                    self.rules = all;
                    return None;
                };
                let i = k.inverse().unwrap();
                row.values_mut().for_each(|c| *c *= i);
                // keep the earlier rows free of the new pivot
                for q in piv.values_mut() {
                    if let Some(k) = q.get(&v).cloned() {
                        for (w, c) in row.iter() {
                            *q.entry(*w).or_insert(Fr::zero()) -= k * c;
                        }
                        q.retain(|_, c| !c.is_zero());
                    }
                }
                piv.insert(v, row);
            }
        }
        self.rules = all;
        self.rules_stale = stale || !self.rules.is_empty();
        let n = piv.len();
        for (v, row) in piv {
            let mut d = vec![];
            for (w, c) in row {
                if w == v {
                    continue;
                }
                let m = if w == ONE { 0 } else { self.mono(vec![(w, 1)]) };
                d.push((m, -c));
            }
            d.sort_by_key(|t| t.0);
            let d = self.intern(d);
            self.vars[v as usize].def = Some(d);
        }
        Some(n)
    }

    /// the equations of the path that involve the coefficients `rel*`; None when the path holds only for
    /// special values of the other unknowns
    pub fn path_relations(&mut self) -> Option<Vec<u32>> {
        let eqs: Vec<u32> = self.pc.iter().filter(|l| l.1).map(|l| l.0).collect();
        let mut v = vec![];
        for e in eqs {
            let vs: Vec<u16> = self.polys[e as usize].iter().flat_map(|t| self.monos[t.0 as usize].clone()).map(|t| t.0).collect();
            if vs.iter().any(|x| self.is_rel(*x)) {
                v.push(e);
            } else if vs.iter().any(|x| self.vars[*x as usize].small.is_none()) && !self.pins.contains(&e) {
                return None;
            }
        }
        Some(v)
    }

    /// fix every unknown of the term to a constant of its own
    pub fn fix_unknowns(&mut self, id: u32) {
        let id = self.subst(id);
        let vs: std::collections::BTreeSet<u16> = self.polys[id as usize].iter().flat_map(|t| self.monos[t.0 as usize].clone()).map(|t| t.0).collect();
        for v in vs {
            let k = Fr::from(0x9e37_79b9_7f4a_7c15u64).pow([v as u64 + 3]);
            let m = self.mono(vec![(v, 1)]);
            let a = self.intern(vec![(0, -k), (m, Fr::one())]);
            self.pins.insert(a);
            self.assume_atom(a, true);
        }
    }

    /// rewrite with the equations of the path condition that define no variable (largest monomial
    /// := minus the rest); equal to the input wherever the path condition holds
    fn reduce(&mut self, id: u32) -> u32 {
        if self.rules.is_empty() || self.reducing {
            return id;
        }
        if self.rules_stale {
            self.rules_stale = false;
            self.reducing = true;
            let old = std::mem::take(&mut self.rules);
            for (_, q) in old {
                let q = self.subst(q);
                self.add_rule(q);
            }
            self.reducing = false;
        }
        let mut p = self.polys[id as usize].clone();
        let mut work = 0usize;
        for _ in 0..400 {
            let mut acc: HashMap<u32, Fr> = HashMap::new();
            let mut changed = false;
            for (m, c) in p.iter() {
                let mm = self.monos[*m as usize].clone();
                let hit = self
                    .rules
                    .iter()
                    .find(|(lead, _)| lead.iter().all(|(v, e)| mm.iter().any(|(w, f)| w == v && f >= e)))
                    .cloned();
                *acc.entry(*m).or_insert(Fr::zero()) += *c;
                let Some((lead, q)) = hit else { continue };
                changed = true;
                let mut quo: BTreeMap<u16, i16> = mm.into_iter().collect();
                for (v, e) in lead {
                    *quo.get_mut(&v).unwrap() -= e;
                }
                let quo: Mono = quo.into_iter().filter(|t| t.1 != 0).collect();
                let qm = self.mono(quo);
                let qp = self.polys[q as usize].clone();
                // q is monic on its lead: subtract c * quo * q
                let f: Poly = Rc::new(vec![(qm, *c)]);
                for (m, c) in self.p_mul(&qp, &f) {
                    *acc.entry(m).or_insert(Fr::zero()) -= c;
                    work += 1;
                }
            }
            if !changed {
                return self.intern(p.to_vec());
            }
            if work > 20_000_000 {
                break;
            }
            let mut r: Vec<(u32, Fr)> = acc.into_iter().filter(|t| !t.1.is_zero()).collect();
            r.sort_by_key(|t| t.0);
            p = Rc::new(r);
        }
        id
    }

    fn add_rule(&mut self, id: u32) {
        let p = self.polys[id as usize].clone();
        let mut best: Option<(u32, Fr)> = None;
        for (m, c) in p.iter() {
            let a = &self.monos[*m as usize];
            if a.iter().any(|t| t.1 < 0) {
                return;
            }
            if best.as_ref().map(|b| mono_greater(a, &self.monos[b.0 as usize])).unwrap_or(true) {
                best = Some((*m, *c));
            }
        }
        let Some((lead, c)) = best else { return };
        if lead == 0 {
            return;
        }
        let k = c.inverse().unwrap();
        let q = self.intern(p.iter().map(|(m, c)| (*m, *c * k)).collect());
        let lm = self.monos[lead as usize].clone();
        self.rules.push((lm, q));
    }

    /// `poly = 0`  <=>  OR of atoms; each atom is a canonical monic residual. None = trivially true.
    fn zero_atoms(&mut self, id: u32) -> Option<Vec<u32>> {
        let id = self.subst(id);
        let p = self.polys[id as usize].clone();
        if p.is_empty() {
            return None;
        }
        // monomial content
        let mut mins: BTreeMap<u16, i16> = BTreeMap::new();
        let mut first = true;
        for (m, _) in p.iter() {
            let mm = &self.monos[*m as usize];
            if first {
                for (v, e) in mm {
                    mins.insert(*v, *e);
                }
                first = false;
            } else {
                let here: HashMap<u16, i16> = mm.iter().cloned().collect();
                for (v, e) in here.iter() {
                    if !mins.contains_key(v) {
                        // absent before: min with 0
                        if *e < 0 {
                            mins.insert(*v, *e);
                        }
                    }
                }
                let keys: Vec<u16> = mins.keys().cloned().collect();
                for v in keys {
                    let e = *here.get(&v).unwrap_or(&0);
                    let cur = mins[&v];
                    if e < cur {
                        mins.insert(v, e);
                    }
                }
            }
        }
        let mut atoms = vec![];
        let div: Mono = mins.iter().filter(|(_, e)| **e != 0).map(|(v, e)| (*v, -*e)).collect();
        for (v, e) in mins.iter() {
            if *e > 0 && !self.vars[*v as usize].nz {
                let a = self.var_poly(*v);
                atoms.push(a);
            }
        }
        let dm = self.mono(div);
        let dp: Poly = Rc::new(vec![(dm, Fr::one())]);
        let r = self.p_mul(&p, &dp);
        // without negative exponents more equations may apply
        if !self.rules.is_empty() && !self.reducing {
            let r0 = self.intern(r.clone());
            let r1 = self.reduce(r0);
            if r1 != r0 {
                let more = self.zero_atoms(r1)?;
                atoms.extend(more);
                return Some(atoms);
            }
        }
        // factors known to be non-zero do not matter
        let mut r = r;
        if !self.factors.is_empty() && r.len() >= 3 && r.len() <= 300 {
            let fs = self.factors.clone();
            let (mut k, mut divided) = (0, false);
            while k < fs.len() {
                match self.divide(&r, &fs[k]) {
                    Some(q) => {
                        r = q;
                        divided = true;
                    }
                    None => k += 1,
                }
            }
            if divided {
                let id = self.intern(r);
                let more = self.zero_atoms(id)?;
                atoms.extend(more);
                return Some(atoms);
            }
        }
        if !(r.len() == 1 && r[0].0 == 0) {
            // monic on the largest monomial id
            let lead = r.iter().map(|t| t.0).max().unwrap();
            let lc = r.iter().find(|t| t.0 == lead).unwrap().1.inverse().unwrap();
            let r: Vec<(u32, Fr)> = r.into_iter().map(|(m, c)| (m, c * lc)).collect();
            atoms.push(self.intern(r));
        }
        atoms.dedup();
        Some(atoms)
    }

    /// exact quotient by a sum of several terms (at least one more factor must remain)
    fn divide(&mut self, p: &[(u32, Fr)], f: &(Mono, Fr, u32)) -> Option<Vec<(u32, Fr)>> {
        let (lead, lc, d) = f;
        let d = self.polys[*d as usize].clone();
        if p.len() <= d.len() {
            return None;
        }
        let li = lc.inverse().unwrap();
        let mut rem: Vec<(u32, Fr)> = p.to_vec();
        let mut quo: Vec<(u32, Fr)> = vec![];
        while !rem.is_empty() {
            let mut best = 0;
            for k in 1..rem.len() {
                if mono_greater(&self.monos[rem[k].0 as usize], &self.monos[rem[best].0 as usize]) {
                    best = k;
                }
            }
            let (m, c) = rem[best];
            let mut q: BTreeMap<u16, i16> = self.monos[m as usize].iter().cloned().collect();
            for (v, e) in lead {
                match q.get_mut(v) {
                    Some(x) if *x >= *e => *x -= e,
                    _ => return None,
                }
            }
            let q: Mono = q.into_iter().filter(|t| t.1 != 0).collect();
            if quo.len() > p.len() {
                return None;
            }
            let qm = self.mono(q);
            let k = c * li;
            quo.push((qm, k));
            let t: Poly = Rc::new(vec![(qm, k)]);
            let t: Poly = Rc::new(self.p_mul(&d, &t));
            let r: Poly = Rc::new(rem);
            rem = self.p_add(&r, &t, true);
        }
        quo.sort_by_key(|t| t.0);
        Some(quo)
    }

    /// the sum is not zero on this path: what contains it as a factor no longer depends on it
    fn learn_nonzero(&mut self, id: u32) {
        self.known.insert(id, false);
        let p = self.polys[id as usize].clone();
        if p.len() < 2 || p.len() > 8 || self.factors.len() > 200 {
            return;
        }
        let monos: Vec<Mono> = p.iter().map(|t| self.monos[t.0 as usize].clone()).collect();
        if monos.iter().flatten().any(|t| t.1 < 0) || monos.iter().flatten().all(|t| self.vars[t.0 as usize].small.is_some()) {
            return;
        }
        let mut best = 0;
        for k in 1..p.len() {
            if mono_greater(&monos[k], &monos[best]) {
                best = k;
            }
        }
        let f = (monos[best].clone(), p[best].1, id);
        if self.factors.iter().any(|g| g.2 == id) {
            return;
        }
        self.factors.push(f.clone());
        // equations of the path with this factor
        let eqs: Vec<u32> = self.pc.iter().filter(|l| l.1 && self.polys[l.0 as usize].len() >= 3).map(|l| l.0).collect();
        for e in eqs {
            let p = self.polys[e as usize].clone();
            if p.len() > 300 {
                continue;
            }
            if let Some(q) = self.divide(&p, &f) {
                let q = self.intern(q);
                match self.zero_atoms(q) {
                    None => {}
                    Some(xs) if xs.is_empty() => std::panic::panic_any(PathDone("infeasible")),
                    Some(xs) => {
                        if let [x] = xs[..] {
                            match self.known.get(&x) {
                                Some(true) => {}
                                Some(false) => std::panic::panic_any(PathDone("infeasible")),
                                None => self.assume_atom(x, true),
                            }
                        }
                    }
                }
            }
        }
    }

    // ---------- solver ----------
    fn send(&mut self, s: &str) {
        if self.solver.is_none() {
            let bin = std::env::var("VERIF_Z3").unwrap_or_else(|_| "z3".to_string());
            let mut child = Command::new(bin)
                .args(["-in", "-smt2"])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
                .expect("z3");
            let stdin = child.stdin.take().unwrap();
            let out = BufReader::new(child.stdout.take().unwrap());
            self.solver = Some(Solver { _child: child, stdin, out });
            self.cur_ms = 0;
            self.send(&format!("(define-fun pp () Int {})\n", modulus_dec()));
        }
        if let Some(f) = self.logq.as_mut() {
            let _ = f.write_all(s.as_bytes());
        }
        self.solver.as_mut().unwrap().stdin.write_all(s.as_bytes()).expect("z3 write");
    }

    fn line(&mut self) -> String {
        let mut l = String::new();
        self.solver.as_mut().unwrap().out.read_line(&mut l).expect("z3 read");
        l.trim().to_string()
    }

    /// satisfiability of path condition + literals ("residual = 0" is true / false).  Definitions of
    /// residuals that are not part of the path condition live only for the query.
    pub fn check(&mut self, lits: &[(u32, bool)]) -> Answer {
        if lits.iter().any(|(a, _)| self.as_small_eq(&self.polys[*a as usize].clone()).is_none())
            && self.pc.len() < 2000
            && self.witness(lits, 2)
        {
            self.stats.sat += 1;
            self.stats.queries += 1;
            self.stats.witnessed += 1;
            return Answer::Sat;
        }
        for (a, _) in lits {
            for (m, _) in self.polys[*a as usize].clone().iter() {
                if *m != 0 {
                    self.mono_sym(*m);
                }
            }
        }
        let mut s = String::from("(push)\n");
        for (a, t) in lits {
            let (def, at) = match self.atoms.get(a) {
                Some(x) => (String::new(), x.clone()),
                None => self.atom_def(*a),
            };
            s.push_str(&def);
            s.push_str(&if *t { format!("(assert {})\n", at) } else { format!("(assert (not {}))\n", at) });
        }
        s.push_str("(check-sat)\n(pop)\n");
        self.ask(&s)
    }

    /// the obligation "these two sums of monomials are equal" posed to the solver
    pub fn check_identity(&mut self, a: u32, b: u32) -> Answer {
        let x = self.sum_smt(a);
        let y = self.sum_smt(b);
        let s = format!("(push)\n(assert (not (= (mod {x} pp) (mod {y} pp))))\n(check-sat)\n(pop)\n");
        self.ask(&s)
    }

    fn ask(&mut self, s: &str) -> Answer {
        let t0 = Instant::now();
        let ms = if self.deciding { self.decide_ms } else { self.prove_ms };
        if self.cur_ms != ms {
            self.cur_ms = ms;
            self.send(&format!("(set-option :timeout {})\n", ms));
        }
        self.send(s);
        let l = self.line();
        self.stats.queries += 1;
        self.stats.solver_us += t0.elapsed().as_micros() as u64;
        match l.as_str() {
            "sat" => {
                self.stats.sat += 1;
                Answer::Sat
            }
            "unsat" => {
                self.stats.unsat += 1;
                Answer::Unsat
            }
            "unknown" | "timeout" => {
                if self.deciding {
                    self.stats.undecided += 1;
                } else {
                    self.stats.unknown += 1;
                }
                Answer::Unknown
            }
            e => {
                self.notes.push(format!("solver said: {}", e));
                unsupported(&format!("solver error: {}", e))
            }
        }
    }

    pub fn push(&mut self) {
        self.send("(push)\n");
    }
    pub fn pop(&mut self) {
        self.send("(pop)\n");
    }

    fn declare_var(&mut self, v: u16) -> String {
        let n = format!("v{}", v);
        if !self.vars[v as usize].declared {
            self.vars[v as usize].declared = true;
            let (lo, hi) = match self.vars[v as usize].small {
                Some((a, b)) => (a.to_string(), b.to_string()),
                None => (
                    (if self.vars[v as usize].nz { "1" } else { "0" }).to_string(),
                    "(- pp 1)".to_string(),
                ),
            };
            let s = format!("(declare-const {n} Int)\n(assert (and (<= {lo} {n}) (<= {n} {hi})))\n");
            self.send(&s);
        }
        n
    }

    fn mono_sym(&mut self, m: u32) -> String {
        let mm = self.monos[m as usize].clone();
        if mm.len() == 1 && mm[0].1 == 1 {
            return self.declare_var(mm[0].0);
        }
        if let Some(n) = self.opaque.get(&m) {
            return n.clone();
        }
        let n = format!("m{}", m);
        let mut zs = vec![];
        for (v, _) in mm.iter() {
            let vn = self.declare_var(*v);
            if !self.vars[*v as usize].nz {
                zs.push(format!("(= {} 0)", vn));
            }
        }
        let z = if zs.is_empty() { "false".to_string() } else { format!("(or {})", zs.join(" ")) };
        let s = format!(
            "(declare-const {n} Int)\n(assert (and (<= 0 {n}) (< {n} pp)))\n(assert (= (= {n} 0) {z}))\n"
        );
        self.send(&s);
        self.opaque.insert(m, n.clone());
        n
    }

    fn sum_smt(&mut self, id: u32) -> String {
        let p = self.polys[id as usize].clone();
        if p.is_empty() {
            return "0".into();
        }
        let mut terms = vec![];
        for (m, c) in p.iter() {
            if *m == 0 {
                terms.push(fr_signed_smt(c));
            } else {
                let s = self.mono_sym(*m);
                if c.is_one() {
                    terms.push(s);
                } else {
                    terms.push(format!("(* {} {})", fr_signed_smt(c), s));
                }
            }
        }
        if terms.len() == 1 {
            terms[0].clone()
        } else {
            format!("(+ {})", terms.join(" "))
        }
    }

    /// SMT definition and Bool for "canonical residual = 0 (mod p)"
    fn atom_def(&mut self, id: u32) -> (String, String) {
        let p = self.polys[id as usize].clone();
        // a single unknown and a constant: exact integer equality
        if p.len() <= 2 {
            let lin = p.iter().find(|t| t.0 != 0).cloned();
            let k = p.iter().find(|t| t.0 == 0).map(|t| t.1).unwrap_or(Fr::zero());
            if let Some((m, c)) = lin {
                let mm = self.monos[m as usize].clone();
                if mm.len() == 1 && mm[0].1 == 1 && c.is_one() {
                    let n = self.declare_var(mm[0].0);
                    let val: num_bigint::BigUint = (-k).into();
                    return (String::new(), format!("(= {} {})", n, val));
                }
            }
        }
        let sum = self.sum_smt(id);
        let (k, r) = (format!("k{}", id), format!("r{}", id));
        let s = format!(
            "(declare-const {k} Int)\n(declare-const {r} Int)\n(assert (= {sum} (+ (* pp {k}) {r})))\n(assert (and (<= 0 {r}) (< {r} pp)))\n"
        );
        (s, format!("(= {} 0)", r))
    }

    /// permanent definition (for path-condition literals)
    fn atom(&mut self, id: u32) -> String {
        if let Some(a) = self.atoms.get(&id) {
            return a.clone();
        }
        let (d, a) = self.atom_def(id);
        self.send(&d);
        self.atoms.insert(id, a.clone());
        a
    }

    fn assume_atom(&mut self, id: u32, truth: bool) {
        self.pc.push((id, truth));
        self.known.insert(id, truth);
        if !truth {
            self.learn_nonzero(id);
        }
        let a = self.atom(id);
        let p = self.polys[id as usize].clone();
        // small-variable bound tightening (keeps the asserted set small)
        if !truth {
            if let Some((v, val)) = self.as_small_eq(&p) {
                let (lo, hi) = self.vars[v as usize].small.unwrap();
                if val == lo {
                    self.vars[v as usize].small = Some((lo + 1, hi));
                    let s = format!("(assert (<= {} v{}))\n", lo + 1, v);
                    self.send(&s);
                    return;
                }
                if val == hi && hi > 0 {
                    self.vars[v as usize].small = Some((lo, hi - 1));
                    let s = format!("(assert (<= v{} {}))\n", v, hi - 1);
                    self.send(&s);
                    return;
                }
            }
            if let Some((key, val, (lo, hi))) = self.as_sum_eq(&p) {
                if (val == lo || val == hi) && lo < hi {
                    let b = if val == lo { (lo + 1, hi) } else { (lo, hi - 1) };
                    let t: Vec<String> = key.iter().map(|(m, c)| format!("(* {} v{})", c, self.monos[*m as usize][0].0)).collect();
                    let s = format!("(assert (<= {} (+ {}) {}))\n", b.0, t.join(" "), b.1);
                    self.sum_bounds.insert(key, b);
                    self.send(&s);
                    return;
                }
            }
            let s = format!("(assert (not {}))\n", a);
            self.send(&s);
        } else {
            let s = format!("(assert {})\n", a);
            self.send(&s);
            // solve for a variable occurring linearly with constant coefficient and nowhere else
            let mut pick: Option<(u16, Fr)> = None;
            for (m, c) in p.iter() {
                let mm = &self.monos[*m as usize];
                if mm.len() == 1 && mm[0].1 == 1 {
                    let v = mm[0].0;
                    let occ = p
                        .iter()
                        .filter(|(m2, _)| self.monos[*m2 as usize].iter().any(|t| t.0 == v))
                        .count();
                    let rest_const = p.iter().all(|(m2, _)| *m2 == *m || *m2 == 0);
                    if occ == 1 && (!self.vars[v as usize].nz || rest_const) && (self.vars[v as usize].small.is_none() || rest_const) {
                        pick = Some((v, *c));
                        if rest_const {
                            break;
                        }
                    }
                }
            }
            if let Some((v, c)) = pick {
                let inv = -(c.inverse().unwrap());
                let def: Vec<(u32, Fr)> = p
                    .iter()
                    .filter(|(m, _)| !(self.monos[*m as usize].len() == 1 && self.monos[*m as usize][0].0 == v))
                    .map(|(m, k)| (*m, *k * inv))
                    .collect();
                let d = self.intern(def);
                self.vars[v as usize].def = Some(d);
                self.rules_stale = true;
                self.propagate(Some(v));
            } else {
                self.add_rule(id);
                self.propagate(None);
            }
        }
    }

    /// what the path knows, in its form rewritten with the latest equation (the definition of `v`, or a
    /// rule); a path that contradicts itself ends
    fn propagate(&mut self, v: Option<u16>) {
        let lits: Vec<(u32, bool)> = self.pc.iter().take(self.pc.len() - 1).cloned().collect();
        for (a, t) in lits {
            // literals over this variable alone, which is now a constant: plain evaluation
            if let Some(x) = v.and_then(|v| self.eval_alone(a, v)) {
                if x.is_zero() != t {
                    std::panic::panic_any(PathDone("infeasible"));
                }
                continue;
            }
            let r = match v {
                Some(v) => {
                    if !self.polys[a as usize].iter().any(|x| self.monos[x.0 as usize].iter().any(|y| y.0 == v)) {
                        continue;
                    }
                    match self.try_subst(a) {
                        Some(r) => self.reduce(r),
                        None => continue,
                    }
                }
                // an equation turned into a rule reduces to nothing
                None if t => continue,
                None => self.subst(a),
            };
            if r == a {
                continue;
            }
            let atoms = self.zero_atoms(r);
            match (t, atoms) {
                (true, None) => {}
                (false, None) => std::panic::panic_any(PathDone("infeasible")),
                (false, Some(xs)) => {
                    for x in xs {
                        match self.known.insert(x, false) {
                            None => {
                                self.learn_nonzero(x);
                                let t = self.atom(x);
                                self.send(&format!("(assert (not {}))\n", t));
                            }
                            Some(true) => std::panic::panic_any(PathDone("infeasible")),
                            Some(false) => {}
                        }
                    }
                }
                (true, Some(xs)) if xs.is_empty() => std::panic::panic_any(PathDone("infeasible")),
                (true, Some(xs)) => {
                    if let [x] = xs[..] {
                        match self.known.insert(x, true) {
                            None => {
                                let t = self.atom(x);
                                self.send(&format!("(assert {})\n", t));
                            }
                            Some(false) => std::panic::panic_any(PathDone("infeasible")),
                            Some(true) => {}
                        }
                    }
                }
            }
        }
    }

    /// the value of a sum of the form c * v + k, when `v` was solved to a constant
    fn eval_alone(&self, id: u32, v: u16) -> Option<Fr> {
        let d = &self.polys[self.vars[v as usize].def? as usize];
        let d = match d.len() {
            0 => Fr::zero(),
            1 if d[0].0 == 0 => d[0].1,
            _ => return None,
        };
        let mut s = Fr::zero();
        let mut some = false;
        for (m, c) in self.polys[id as usize].iter() {
            match &self.monos[*m as usize][..] {
                [] => s += c,
                [(w, 1)] if *w == v => {
                    s += *c * d;
                    some = true;
                }
                _ => return None,
            }
        }
        some.then_some(s)
    }

    /// sum of several small variables with small positive coefficients, compared with a constant:
    /// (the sum without the constant, the constant, the integer bounds of the sum on this path)
    fn as_sum_eq(&self, p: &Poly) -> Option<(Vec<(u32, u64)>, u64, (u64, u64))> {
        let int = |c: &Fr| {
            let b = c.into_bigint();
            (b.0[1] | b.0[2] | b.0[3] == 0 && b.0[0] < 1 << 40).then_some(b.0[0])
        };
        let (mut key, mut k) = (vec![], Fr::zero());
        let (mut lo, mut hi) = (0u64, 0u64);
        for (m, c) in p.iter() {
            if *m == 0 {
                k = *c;
                continue;
            }
            let mm = &self.monos[*m as usize];
            if mm.len() != 1 || mm[0].1 != 1 {
                return None;
            }
            let (a, b) = self.vars[mm[0].0 as usize].small?;
            let c = int(c)?;
            if c == 0 || b >= 1 << 20 {
                return None;
            }
            lo += a * c;
            hi += b * c;
            key.push((*m, c));
        }
        if key.len() < 2 || key.len() > 64 {
            return None;
        }
        let val = int(&-k)?;
        if let Some((a, b)) = self.sum_bounds.get(&key) {
            lo = lo.max(*a);
            hi = hi.min(*b);
        }
        Some((key, val, (lo, hi)))
    }

    fn as_small_eq(&self, p: &Poly) -> Option<(u16, u64)> {
        if p.len() > 2 {
            return None;
        }
        let lin = p.iter().find(|t| t.0 != 0)?;
        let k = p.iter().find(|t| t.0 == 0).map(|t| t.1).unwrap_or(Fr::zero());
        let mm = &self.monos[lin.0 as usize];
        if mm.len() != 1 || mm[0].1 != 1 || !lin.1.is_one() {
            return None;
        }
        self.vars[mm[0].0 as usize].small?;
        let b = (-k).into_bigint();
        if b.0[1] | b.0[2] | b.0[3] != 0 {
            return None;
        }
        Some((mm[0].0, b.0[0]))
    }

    pub fn assume_bool(&mut self, name: &str, val: bool) {
        self.bools.insert(name.to_string(), val);
    }

    pub fn write_out(&mut self, v: serde_json::Value) {
        if let Some(f) = self.out.as_mut() {
            let mut s = v.to_string();
            s.push('\n');
            let _ = f.write_all(s.as_bytes());
        }
    }

    // ---------- models ----------
    /// Values for all variables satisfying the path condition (and `extra` literals), or None.
    pub fn model(&mut self, extra: &[(u32, bool)], tries: usize) -> Option<BTreeMap<String, Fr>> {
        use ark_std::rand::SeedableRng;
        use ark_std::UniformRand;
        let mut rng = ark_std::rand::rngs::StdRng::seed_from_u64(self.seed ^ 0x5eed);
        let mut z3vals: HashMap<u16, Fr> = HashMap::new();
        let eqs = self.equations(extra);
        for attempt in 0..tries {
            if attempt == 1 {
                // ask z3
                for (a, _) in extra {
                    self.sum_smt(*a);
                }
                self.push();
                for (a, t) in extra {
                    let (d, s) = match self.atoms.get(a) {
                        Some(x) => (String::new(), x.clone()),
                        None => self.atom_def(*a),
                    };
                    let s = if *t { s } else { format!("(not {})", s) };
                    self.send(&format!("{}(assert {})\n", d, s));
                }
                self.send("(check-sat)\n");
                let l = self.line();
                if l == "sat" {
                    let ids: Vec<u16> = (0..self.vars.len() as u16).filter(|v| self.vars[*v as usize].declared).collect();
                    for v in ids {
                        self.send(&format!("(eval v{})\n", v));
                        let l = self.line();
                        if let Ok(x) = l.parse::<num_bigint::BigUint>() {
                            z3vals.insert(v, Fr::from(x));
                        }
                    }
                }
                self.pop();
                if l == "unsat" {
                    return None;
                }
            }
            // assign
            let n = self.vars.len();
            let mut val: Vec<Option<Fr>> = vec![None; n];
            for v in 0..n {
                if self.vars[v].def.is_some() {
                    continue;
                }
                let x = if let Some((lo, hi)) = self.vars[v].small {
                    let tok = self.vars[v].token;
                    match (attempt, tok, z3vals.get(&(v as u16))) {
                        (0, Some(t), _) if t >= lo && t <= hi => Fr::from(t),
                        (1, _, Some(x)) => *x,
                        (2, _, _) => Fr::from(lo),
                        (3, _, _) => Fr::from(hi),
                        (k, _, Some(x)) if k % 2 == 1 => *x,
                        _ => Fr::from(lo + (u64::rand(&mut rng) % (hi - lo + 1))),
                    }
                } else {
                    match (attempt, z3vals.get(&(v as u16))) {
                        (1, Some(x)) => *x,
                        (5, Some(x)) => *x,
                        _ => Fr::rand(&mut rng),
                    }
                };
                val[v] = Some(x);
            }
            if attempt != 1 {
                self.solve_equations(&eqs, &mut val);
            }
            // solved variables
            let mut progress = true;
            while progress {
                progress = false;
                for v in 0..n {
                    if val[v].is_none() {
                        let d = self.vars[v].def.unwrap();
                        if let Some(x) = self.eval(d, &val) {
                            val[v] = Some(x);
                            progress = true;
                        }
                    }
                }
            }
            if val.iter().any(|x| x.is_none()) {
                continue;
            }
            if (0..n).any(|v| self.vars[v].nz && val[v].unwrap().is_zero()) {
                continue;
            }
            let mut ok = (0..n).all(|v| match self.vars[v].small {
                Some((lo, hi)) => {
                    let b = val[v].unwrap().into_bigint();
                    b.0[1] | b.0[2] | b.0[3] == 0 && b.0[0] >= lo && b.0[0] <= hi
                }
                None => true,
            });
            for (a, t) in self.pc.iter().chain(extra.iter()) {
                match self.eval(*a, &val) {
                    Some(x) if x.is_zero() == *t => {}
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                return Some((0..n).map(|v| (self.vars[v].name.clone(), val[v].unwrap())).collect());
            }
        }
        None
    }

    /// does some random assignment satisfy path condition + literals?
    fn witness(&mut self, lits: &[(u32, bool)], tries: usize) -> bool {
        use ark_std::rand::SeedableRng;
        use ark_std::UniformRand;
        let mut rng = ark_std::rand::rngs::StdRng::seed_from_u64(self.seed ^ self.pc.len() as u64);
        let n = self.vars.len();
        let eqs = self.equations(lits);
        for round in 0..tries {
            let mut val: Vec<Option<Fr>> = vec![None; n];
            for v in 0..n {
                if self.vars[v].def.is_none() {
                    val[v] = Some(match self.vars[v].small {
                        Some((_, hi)) if round == 1 => Fr::from(hi),
                        Some((lo, hi)) => Fr::from(lo + u64::rand(&mut rng) % (hi - lo + 1)),
                        None => Fr::rand(&mut rng),
                    });
                }
            }
            self.solve_equations(&eqs, &mut val);
            let mut progress = true;
            while progress {
                progress = false;
                for v in 0..n {
                    if val[v].is_none() {
                        if let Some(x) = self.eval(self.vars[v].def.unwrap(), &val) {
                            val[v] = Some(x);
                            progress = true;
                        }
                    }
                }
            }
            if val.iter().any(|x| x.is_none()) || (0..n).any(|v| self.vars[v].nz && val[v].unwrap().is_zero()) {
                continue;
            }
            if (0..n).any(|v| match self.vars[v].small {
                Some((lo, hi)) => {
                    let b = val[v].unwrap().into_bigint();
                    b.0[1] | b.0[2] | b.0[3] != 0 || b.0[0] < lo || b.0[0] > hi
                }
                None => false,
            }) {
                continue;
            }
            if self.pc.iter().chain(lits.iter()).all(|(a, t)| self.eval(*a, &val).map(|x| x.is_zero() == *t).unwrap_or(false)) {
                return true;
            }
        }
        false
    }

    fn equations(&mut self, lits: &[(u32, bool)]) -> Vec<u32> {
        let eqs: Vec<u32> = self.pc.iter().chain(lits.iter()).filter(|l| l.1).map(|l| l.0).collect();
        let mut v: Vec<u32> = eqs.into_iter().filter_map(|e| self.try_subst(e)).collect();
        v.retain(|e| !self.polys[*e as usize].is_empty());
        v.dedup();
        v
    }

    /// move the random assignment onto the equations that must hold (those of the path that were not
    /// used to eliminate a variable, and those of the query): each is solved for a variable it is linear
    /// in.  Only a guess: the caller evaluates every condition afterwards.
    fn solve_equations(&self, eqs: &[u32], val: &mut [Option<Fr>]) {
        for &e in eqs {
            let p = self.polys[e as usize].clone();
            if let Some((key, k, _)) = self.as_sum_eq(&p) {
                let mut left = k;
                for (m, c) in key.iter() {
                    let (lo, _) = self.vars[self.monos[*m as usize][0].0 as usize].small.unwrap();
                    left = left.saturating_sub(lo * c);
                }
                for (m, c) in key.iter() {
                    let v = self.monos[*m as usize][0].0 as usize;
                    if self.vars[v].def.is_some() {
                        continue;
                    }
                    let (lo, hi) = self.vars[v].small.unwrap();
                    let add = (left / c).min(hi - lo);
                    left -= add * c;
                    val[v] = Some(Fr::from(lo + add));
                }
            }
        }
        // (pivot, equation) pairs, equations already satisfied are left out
        let mut piv: Vec<(u16, u32)> = vec![];
        for &e in eqs {
            let p = &self.polys[e as usize];
            let mut cand: BTreeMap<u16, bool> = BTreeMap::new();
            for (m, _) in p.iter() {
                for (v, x) in self.monos[*m as usize].iter() {
                    let ok = *x == 1 && self.vars[*v as usize].def.is_none() && self.vars[*v as usize].small.is_none();
                    cand.entry(*v).and_modify(|o| *o &= ok).or_insert(ok);
                }
            }
            if let Some((v, _)) = cand.iter().rev().find(|(v, ok)| **ok && !piv.iter().any(|q| q.0 == **v)) {
                piv.push((*v, e));
            }
        }
        // a few rounds of substitution; triangular systems settle
        for _ in 0..=piv.len() {
            let mut moved = false;
            for (v, e) in piv.iter() {
                match self.eval(*e, val) {
                    Some(x) if x.is_zero() => continue,
                    _ => {}
                }
                let (mut a, mut b) = (Fr::zero(), Fr::zero());
                for (m, c) in self.polys[*e as usize].iter() {
                    let (mut t, mut has) = (*c, false);
                    for (w, x) in self.monos[*m as usize].iter() {
                        if w == v {
                            has = true;
                            continue;
                        }
                        let Some(y) = val[*w as usize] else { return };
                        if *x >= 0 {
                            t *= y.pow([*x as u64]);
                        } else {
                            let Some(y) = y.inverse() else { return };
                            t *= y.pow([(-*x) as u64]);
                        }
                    }
                    if has {
                        a += t
                    } else {
                        b += t
                    }
                }
                if let Some(i) = a.inverse() {
                    val[*v as usize] = Some(-b * i);
                    moved = true;
                }
            }
            if !moved {
                return;
            }
        }
    }

    pub fn eval(&self, id: u32, val: &[Option<Fr>]) -> Option<Fr> {
        let mut acc = Fr::zero();
        for (m, c) in self.polys[id as usize].iter() {
            let mut t = *c;
            for (v, e) in self.monos[*m as usize].iter() {
                let x = val[*v as usize]?;
                if *e >= 0 {
                    t *= x.pow([*e as u64]);
                } else {
                    t *= x.inverse()?.pow([(-*e) as u64]);
                }
            }
            acc += t;
        }
        Some(acc)
    }

    pub fn eval_map(&self, id: u32, m: &BTreeMap<String, Fr>) -> Option<Fr> {
        let val: Vec<Option<Fr>> = self.vars.iter().map(|v| m.get(&v.name).cloned()).collect();
        self.eval(id, &val)
    }

    pub fn show(&self, id: u32) -> String {
        if id == u32::MAX {
            return "<gt-additive-zero>".into();
        }
        let p = &self.polys[id as usize];
        if p.is_empty() {
            return "0".into();
        }
        let mut s = vec![];
        for (m, c) in p.iter().take(8) {
            let mut t = fr_signed_smt(c);
            if t.len() > 24 {
                t = format!("{}..", &t[..20]);
            }
            for (v, e) in self.monos[*m as usize].iter() {
                t.push('*');
                t.push_str(&self.vars[*v as usize].name);
                if *e != 1 {
                    t.push_str(&format!("^{}", e));
                }
            }
            s.push(t);
        }
        if p.len() > 8 {
            s.push(format!(".. ({} terms)", p.len()));
        }
        s.join(" + ")
    }
}

// ---------- branch decisions ----------
enum Choice {
    True,
    False,
    Fork,
    Dead,
}

fn abort_requested() -> bool {
    CTX.with(|c| {
        let c = c.borrow();
        !c.abort_flag.is_empty() && std::path::Path::new(&c.abort_flag).exists()
    })
}

/// degree, then lexicographic on the exponents: compatible with multiplication
fn mono_greater(a: &Mono, b: &Mono) -> bool {
    let d = |m: &Mono| m.iter().map(|t| t.1 as i32).sum::<i32>();
    if d(a) != d(b) {
        return d(a) > d(b);
    }
    let (mut i, mut j) = (0, 0);
    loop {
        match (a.get(i), b.get(j)) {
            (None, None) => return false,
            (Some(x), None) => return x.1 > 0,
            (None, Some(y)) => return y.1 < 0,
            (Some(x), Some(y)) if x.0 == y.0 => {
                if x.1 != y.1 {
                    return x.1 > y.1;
                }
                i += 1;
                j += 1;
            }
            (Some(x), Some(y)) => return if x.0 < y.0 { x.1 > 0 } else { y.1 < 0 },
        }
    }
}

fn decide_atom(id: u32) -> bool {
    let ch = CTX.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(t) = c.known.get(&id) {
            return if *t { Choice::True } else { Choice::False };
        }
        c.stats.decisions += 1;
        // an equality outside the variable's current interval is decided by the interval
        let p = c.polys[id as usize].clone();
        if let Some((v, val)) = c.as_small_eq(&p) {
            let (lo, hi) = c.vars[v as usize].small.unwrap();
            if val < lo || val > hi {
                c.stats.interval += 1;
                return Choice::False;
            }
        } else if let Some((_, val, (lo, hi))) = c.as_sum_eq(&p) {
            if val < lo || val > hi {
                c.stats.interval += 1;
                return Choice::False;
            }
        }
        c.deciding = true;
        let t = c.check(&[(id, true)]);
        let f = if t == Answer::Unsat { Answer::Sat } else { c.check(&[(id, false)]) };
        c.deciding = false;
        match (t, f) {
            (Answer::Unsat, Answer::Unsat) => Choice::Dead,
            (Answer::Unsat, _) => {
                c.learn_nonzero(id);
                Choice::False
            }
            (_, Answer::Unsat) => {
                c.known.insert(id, true);
                Choice::True
            }
            _ => Choice::Fork,
        }
    });
    match ch {
        Choice::True => true,
        Choice::False => false,
        Choice::Dead => std::panic::panic_any(PathDone("infeasible")),
        Choice::Fork => {
            let t = fork_choice();
            CTX.with(|c| c.borrow_mut().assume_atom(id, t));
            t
        }
    }
}

/// true in the child (explored first), false in the parent afterwards
pub fn fork_choice() -> bool {
    if abort_requested() {
        std::panic::panic_any(PathDone("aborted"));
    }
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.stats.forks += 1;
        c.push();
        if let Some(s) = c.solver.as_mut() {
            let _ = s.stdin.flush();
        }
    });
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        unsupported("fork failed");
    }
    if pid == 0 {
        CTX.with(|c| c.borrow_mut().stats = Stats::default());
        true
    } else {
        let mut st: libc::c_int = 0;
        loop {
            let r = unsafe { libc::waitpid(pid, &mut st, 0) };
            if r == pid {
                break;
            }
        }
        let clean = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0;
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if !clean {
                c.write_out(serde_json::json!({"t":"crash","status":st}));
            }
            c.pop();
        });
        false
    }
}

/// truth of "term = 0", exploring both sides when both are feasible
pub fn decide_zero(id: u32) -> bool {
    let direct = CTX.with(|c| {
        let mut c = c.borrow_mut();
        if c.rules.is_empty() {
            return None;
        }
        c.reducing = true;
        let a = c.zero_atoms(id);
        c.reducing = false;
        match a {
            None => Some(true),
            Some(a) if a.iter().any(|x| c.known.get(x) == Some(&true)) => Some(true),
            Some(a) if a.iter().all(|x| c.known.get(x) == Some(&false)) => Some(false),
            _ => None,
        }
    });
    if let Some(t) = direct {
        return t;
    }
    let atoms = CTX.with(|c| c.borrow_mut().zero_atoms(id));
    let Some(atoms) = atoms else { return true };
    for a in atoms {
        if decide_atom(a) {
            return true;
        }
    }
    false
}

/// an unconstrained boolean fact about the environment
pub fn decide_bool(name: &str) -> bool {
    if let Some(b) = CTX.with(|c| c.borrow().bools.get(name).cloned()) {
        return b;
    }
    CTX.with(|c| c.borrow_mut().stats.decisions += 1);
    let t = fork_choice();
    CTX.with(|c| c.borrow_mut().assume_bool(name, t));
    t
}

pub enum Proof {
    Holds,
    Fails(Vec<(u32, bool)>),
    Unknown,
}

/// obligation: on this path `term = 0` (want = true) / `term != 0` (want = false) for all values
pub fn prove(id: u32, want: bool) -> Proof {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.stats.obligations += 1;
        let atoms = c.zero_atoms(id);
        let atoms = match atoms {
            None => {
                if !want {
                    return Proof::Fails(vec![]);
                }
                let (l, r) = c.identity.take().unwrap_or((id, 0));
                let r0 = if r == 0 { c.intern(vec![]) } else { r };
                let l = c.subst(l);
                let r0 = c.subst(r0);
                let ans = c.check_identity(l, r0);
                if ans == Answer::Unsat {
                    c.stats.discharged += 1;
                    return Proof::Holds;
                }
                return Proof::Unknown;
            }
            Some(a) => a,
        };
        if want {
            let lits: Vec<(u32, bool)> = atoms.iter().map(|a| (*a, false)).collect();
            match c.check(&lits) {
                Answer::Unsat => {
                    c.stats.discharged += 1;
                    Proof::Holds
                }
                Answer::Sat => Proof::Fails(lits),
                Answer::Unknown => Proof::Unknown,
            }
        } else {
            let mut worst = Proof::Holds;
            for a in &atoms {
                match c.check(&[(*a, true)]) {
                    Answer::Unsat => {}
                    Answer::Sat => return Proof::Fails(vec![(*a, true)]),
                    Answer::Unknown => worst = Proof::Unknown,
                }
            }
            if let Proof::Holds = worst {
                c.stats.discharged += 1;
            }
            worst
        }
    })
}

/// value of a small-domain variable, one path per feasible value
pub fn concretise(id: u32) -> Option<u64> {
    let v = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let id = c.subst(id);
        let p = c.polys[id as usize].clone();
        if p.is_empty() {
            return Some(Err(0));
        }
        if p.len() == 1 && p[0].0 == 0 {
            let b = p[0].1.into_bigint();
            return if b.0[1] | b.0[2] | b.0[3] == 0 { Some(Err(b.0[0])) } else { None };
        }
        if p.len() == 1 && p[0].1.is_one() {
            let mm = &c.monos[p[0].0 as usize];
            if mm.len() == 1 && mm[0].1 == 1 && c.vars[mm[0].0 as usize].small.is_some() {
                return Some(Ok(mm[0].0));
            }
        }
        None
    });
    match v {
        None => None,
        Some(Err(k)) => Some(k),
        Some(Ok(v)) => loop {
            let (lo, hi) = CTX.with(|c| c.borrow().vars[v as usize].small.unwrap());
            let id = CTX.with(|c| {
                let mut c = c.borrow_mut();
                let m = c.mono(vec![(v, 1)]);
                let mut p = vec![(m, Fr::one())];
                if lo != 0 {
                    p.insert(0, (0, -Fr::from(lo)));
                }
                c.intern(p)
            });
            if lo == hi {
                // the only value left: implied, recorded so that it is substituted from here on
                CTX.with(|c| c.borrow_mut().assume_atom(id, true));
                return Some(lo);
            }
            if decide_zero(id) {
                return Some(lo);
            }
        },
    }
}

pub fn bits_le(x: &Fr) -> Vec<bool> {
    x.into_bigint().to_bits_le()
}

/// pin a bare random draw to a constant; None when `id` is not one
pub fn pin(id: u32) -> Option<Fr> {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(k) = c.pinned.get(&id) {
            return Some(*k);
        }
        if !c.pin_pow {
            return None;
        }
        let p = c.polys[id as usize].clone();
        if p.len() != 1 || !p[0].1.is_one() {
            return None;
        }
        let mm = c.monos[p[0].0 as usize].clone();
        if mm.len() != 1 || mm[0].1 != 1 {
            return None;
        }
        let v = mm[0].0;
        if !c.vars[v as usize].name.starts_with("draw") || c.vars[v as usize].def.is_some() {
            return None;
        }
        let k = Fr::from(0x9e37_79b9_7f4a_7c15u64) * Fr::from(c.pinned.len() as u64 + 81) + Fr::from(1234567u64);
        let m = c.mono(vec![(v, 1)]);
        let a = c.intern(vec![(0, -k), (m, Fr::one())]);
        c.pins.insert(a);
        c.assume_atom(a, true);
        c.pinned.insert(id, k);
        Some(k)
    })
}

/// The limbs of a symbolic scalar were read, which has no encoding.  The code is followed for a few
/// representative values (the path condition then fixes the scalar), so that what breaks there is still
/// found; the remaining values leave the encoded fragment, so a harness in which this happens never passes.
pub fn follow(id: u32, why: &str) -> [u64; 4] {
    let reps: [(u64, fn(u64) -> Fr); 4] = [
        (0, |_| -Fr::one()),
        (1, |_| Fr::from(ark_ff::BigInt::<4>([0, 5, 0, 0]))),
        (2, |k| Fr::from(ark_ff::BigInt::<4>([k.wrapping_mul(0x9E3779B97F4A7C15), k, !k, 0x5000_0000_0000_0000]))),
        (3, |_| Fr::zero()),
    ];
    if let Some(v) = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let id = c.subst(id);
        let p = &c.polys[id as usize];
        match p.len() {
            0 => Some(Fr::zero()),
            1 if p[0].0 == 0 => Some(p[0].1),
            _ => None,
        }
    }) {
        return v.into_bigint().0;
    }
    let style = match CTX.with(|c| c.borrow().follow_style) {
        Some(s) => s,
        None => {
            let mut k = 0;
            loop {
                if k == reps.len() {
                    unsupported(why);
                }
                if fork_choice() {
                    CTX.with(|c| c.borrow_mut().follow_style = Some(k));
                    break k;
                }
                k += 1;
            }
        }
    };
    for v in [reps[style].1(id as u64 + 1), Fr::zero(), Fr::one()] {
        let forks = CTX.with(|c| c.borrow().stats.forks);
        let t = CTX.with(|c| {
            let mut c = c.borrow_mut();
            let mut p = c.polys[id as usize].to_vec();
            match p.first_mut() {
                Some(x) if x.0 == 0 => x.1 -= v,
                _ => p.insert(0, (0, -v)),
            }
            p.retain(|x| !x.1.is_zero());
            c.intern(p)
        });
        if decide_zero(t) {
            return v.into_bigint().0;
        }
        if CTX.with(|c| c.borrow().stats.forks) > forks {
            break;
        }
    }
    std::panic::panic_any(PathDone("not followed"))
}
