//! C10: the range circuit, decided on the constraint system the real code generates.
//!
//! The rows are exported from the real `BitsizeCheckCircuit::generate_constraints` on every run and
//! translated, exactly, to formulas over Booleans and bounded integers (field variable = integer in
//! [0,p), a linear row = "sum is a multiple of p").  Soundness: no assignment satisfies the rows with
//! a value outside [0,2^b).  Completeness: with the witnesses as a function of the value's bits
//! (learned from runs of the real witness generator, then treated as a hypothesis), no value in
//! [0,2^b) violates any row.
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem, ConstraintSystemRef, OptimizationGoal, SynthesisMode};
use dist_saver::circuit::BitsizeCheckCircuit;
use num_bigint::BigUint;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

type Lc = BTreeMap<usize, Fr>; // variable 0 is the constant one
#[derive(Clone, PartialEq)]
struct Row {
    a: Lc,
    b: Lc,
    c: Lc,
}

fn modulus() -> BigUint {
    Fr::MODULUS.into()
}
fn big(f: &Fr) -> BigUint {
    f.into_bigint().into()
}
/// centred representative as an SMT integer
fn centred(f: &Fr) -> String {
    let v = big(f);
    let p = modulus();
    if &v + &v > p {
        format!("(- {})", p - v)
    } else {
        v.to_string()
    }
}
fn centred_sign(f: &Fr) -> (bool, BigUint) {
    let v = big(f);
    let p = modulus();
    if &v + &v > p {
        (true, p - v)
    } else {
        (false, v)
    }
}

struct System {
    rows: Vec<Row>,
    ninst: usize, // including the constant one
    nwit: usize,
}

fn circuit(b: u8, n: Option<u8>, values: Option<Vec<Fr>>, public: bool) -> BitsizeCheckCircuit<Fr> {
    BitsizeCheckCircuit::new(b, n, values, public)
}

/// run the real generator; `None` for a panic or an error
fn synth(b: u8, n: Option<u8>, values: Option<Vec<Fr>>, public: bool, setup: bool) -> Result<ConstraintSystemRef<Fr>, String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let cs = ConstraintSystem::<Fr>::new_ref();
        cs.set_optimization_goal(OptimizationGoal::Constraints);
        cs.set_mode(if setup { SynthesisMode::Setup } else { SynthesisMode::Prove { construct_matrices: true } });
        let e = circuit(b, n, values, public).generate_constraints(cs.clone());
        if let Err(e) = e {
            return Err(format!("generate_constraints returns {:?}", e));
        }
        cs.finalize();
        Ok(cs)
    }));
    match r {
        Ok(x) => x,
        Err(_) => Err("generate_constraints panics".into()),
    }
}

fn export(cs: &ConstraintSystemRef<Fr>) -> System {
    let m = cs.to_matrices().expect("matrices");
    let conv = |r: &Vec<(Fr, usize)>| -> Lc {
        let mut o = Lc::new();
        for (c, i) in r {
            *o.entry(*i).or_insert_with(Fr::zero) += c;
        }
        o.retain(|_, c| !c.is_zero());
        o
    };
    let rows = (0..m.a.len()).map(|k| Row { a: conv(&m.a[k]), b: conv(&m.b[k]), c: conv(&m.c[k]) }).collect();
    System { rows, ninst: m.num_instance_variables, nwit: m.num_witness_variables }
}

fn as_const(l: &Lc) -> Option<Fr> {
    if l.is_empty() {
        Some(Fr::zero())
    } else if l.len() == 1 && l.contains_key(&0) {
        Some(l[&0])
    } else {
        None
    }
}
fn vars_of(r: &Row) -> BTreeSet<usize> {
    r.a.keys().chain(r.b.keys()).chain(r.c.keys()).copied().filter(|v| *v != 0).collect()
}
fn eval(l: &Lc, f: &dyn Fn(usize) -> Fr) -> Fr {
    l.iter().map(|(v, c)| if *v == 0 { *c } else { *c * f(*v) }).sum()
}
fn holds(r: &Row, f: &dyn Fn(usize) -> Fr) -> bool {
    eval(&r.a, f) * eval(&r.b, f) == eval(&r.c, f)
}
/// alpha x^2 + beta x + gamma of a row with the single variable x
fn is_bool_row(r: &Row) -> Option<usize> {
    let vs = vars_of(r);
    if vs.len() != 1 {
        return None;
    }
    let x = *vs.iter().next().unwrap();
    let at = |t: Fr| eval(&r.a, &|_| t) * eval(&r.b, &|_| t) - eval(&r.c, &|_| t);
    let g = at(Fr::zero());
    let one = at(Fr::one());
    let m1 = at(-Fr::one());
    // alpha = (one+m1)/2 - g
    let alpha = (one + m1) * Fr::from(2u64).inverse().unwrap() - g;
    (g.is_zero() && one.is_zero() && !alpha.is_zero()).then_some(x)
}

/// variables connected through rows, restricted to the component of the wanted variable
fn components(s: &System) -> Vec<(Vec<usize>, Vec<usize>)> {
    let n = s.ninst + s.nwit;
    let mut p: Vec<usize> = (0..n).collect();
    fn find(p: &mut Vec<usize>, x: usize) -> usize {
        let mut r = x;
        while p[r] != r {
            r = p[r];
        }
        let mut y = x;
        while p[y] != r {
            let z = p[y];
            p[y] = r;
            y = z;
        }
        r
    }
    for r in &s.rows {
        let vs: Vec<usize> = vars_of(r).into_iter().collect();
        for w in vs.windows(2) {
            let (a, b) = (find(&mut p, w[0]), find(&mut p, w[1]));
            p[a] = b;
        }
    }
    let mut idx: BTreeMap<usize, usize> = BTreeMap::new();
    let mut out: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for v in 1..n {
        let r = find(&mut p, v);
        let k = *idx.entry(r).or_insert_with(|| {
            out.push((vec![], vec![]));
            out.len() - 1
        });
        out[k].0.push(v);
    }
    for (i, r) in s.rows.iter().enumerate() {
        if let Some(v) = vars_of(r).into_iter().next() {
            let root = find(&mut p, v);
            out[idx[&root]].1.push(i);
        }
    }
    out
}

#[derive(Default, Clone)]
pub struct Stats {
    queries: u64,
    sat: u64,
    unsat: u64,
    unknown: u64,
    solver_us: u64,
    rows: u64,
    vars: u64,
}

struct Solver {
    bin: String,
    secs: u64,
}
enum Ans {
    Sat(HashMap<String, String>),
    Unsat,
    Unknown(String),
}
impl Solver {
    fn ask(&self, text: &str, st: &mut Stats) -> Ans {
        let t0 = Instant::now();
        st.queries += 1;
        let mut ch = std::process::Command::new(&self.bin)
            .args(["-in", &format!("-T:{}", self.secs)])
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .spawn()
            .expect("z3");
        let mut si = ch.stdin.take().unwrap();
        let t = text.to_string();
        let th = std::thread::spawn(move || {
            let _ = si.write_all(t.as_bytes());
        });
        let o = ch.wait_with_output().unwrap();
        let _ = th.join();
        st.solver_us += t0.elapsed().as_micros() as u64;
        let s = String::from_utf8_lossy(&o.stdout).to_string();
        let first = s.lines().next().unwrap_or("").trim().to_string();
        if first == "unsat" {
            st.unsat += 1;
            return Ans::Unsat;
        }
        if first == "sat" && !s.contains("(error") {
            st.sat += 1;
            // ((x1 true)\n (x2 (- 3)) ...)
            let mut m = HashMap::new();
            let body = s[first.len()..].replace('\n', " ");
            let toks: Vec<String> = body.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect();
            let mut i = 0;
            while i + 2 < toks.len() {
                if toks[i] == "(" && toks[i + 1].starts_with('x') {
                    let v = if toks[i + 2] == "(" { format!("-{}", toks[i + 4]) } else { toks[i + 2].clone() };
                    m.insert(toks[i + 1].clone(), v);
                    i += 3;
                } else {
                    i += 1;
                }
            }
            return Ans::Sat(m);
        }
        st.unknown += 1;
        Ans::Unknown(s.chars().take(200).collect())
    }
}

/// SMT term for a linear form (integer, centred coefficients) with its bounds
fn lin(l: &Lc, bools: &BTreeSet<usize>) -> (String, BigInt2) {
    let mut t = String::from("(+ 0 0");
    let mut lo = BigUint::zero(); // magnitude of the negative extreme
    let mut hi = BigUint::zero();
    let p1 = modulus() - 1u32;
    for (v, c) in l {
        let (neg, mag) = centred_sign(c);
        if *v == 0 {
            write!(t, " {}", centred(c)).unwrap();
            if neg {
                lo += &mag
            } else {
                hi += &mag
            }
        } else if bools.contains(v) {
            write!(t, " (ite x{} {} 0)", v, centred(c)).unwrap();
            if neg {
                lo += &mag
            } else {
                hi += &mag
            }
        } else {
            write!(t, " (* {} x{})", centred(c), v).unwrap();
            if neg {
                lo += &mag * &p1
            } else {
                hi += &mag * &p1
            }
        }
    }
    t.push(')');
    (t, BigInt2 { lo, hi })
}
struct BigInt2 {
    lo: BigUint,
    hi: BigUint,
}
/// "l = 0 mod p" : l = p*q with q in the range the bounds of l allow
fn lin_zero(l: &Lc, bools: &BTreeSet<usize>, decls: &mut String, fresh: &mut usize) -> String {
    let (t, b) = lin(l, bools);
    let p = modulus();
    let ql = &b.lo / &p;
    let qh = &b.hi / &p;
    if ql.is_zero() && qh.is_zero() {
        return format!("(= {} 0)", t);
    }
    *fresh += 1;
    let q = format!("q{}", fresh);
    let neg = if ql.is_zero() { "0".to_string() } else { format!("(- {})", ql) };
    writeln!(decls, "(declare-const {} Int)(assert (and (<= {} {}) (<= {} {})))", q, neg, q, q, qh).unwrap();
    format!("(= {} (* {} {}))", t, p, q)
}
fn combine(a: &Lc, k: Fr, c: &Lc) -> Lc {
    let mut o = c.clone();
    for v in o.values_mut() {
        *v = -*v;
    }
    for (v, x) in a {
        *o.entry(*v).or_insert_with(Fr::zero) += *x * k;
    }
    o.retain(|_, c| !c.is_zero());
    o
}
fn subst(l: &Lc, x: usize, val: Fr) -> Lc {
    let mut o = l.clone();
    if let Some(c) = o.remove(&x) {
        *o.entry(0).or_insert_with(Fr::zero) += c * val;
    }
    o.retain(|_, c| !c.is_zero());
    o
}
/// exact formula of one row
fn row_formula(r: &Row, bools: &BTreeSet<usize>, decls: &mut String, fresh: &mut usize, depth: usize) -> Result<String, String> {
    let vs: Vec<usize> = vars_of(r).into_iter().collect();
    // few Booleans only: the clauses that exclude its violating assignments
    if vs.len() <= 6 && vs.iter().all(|v| bools.contains(v)) {
        let mut cl = vec![];
        for m in 0..(1u32 << vs.len()) {
            let val = |v: usize| {
                let k = vs.iter().position(|x| *x == v).unwrap();
                Fr::from((m >> k) & 1)
            };
            if !holds(r, &val) {
                let lits: Vec<String> = vs.iter().enumerate().map(|(k, v)| if (m >> k) & 1 == 1 { format!("(not x{})", v) } else { format!("x{}", v) }).collect();
                cl.push(if lits.is_empty() { "false".into() } else { format!("(or {})", lits.join(" ")) });
            }
        }
        return Ok(if cl.is_empty() { "true".into() } else { format!("(and {})", cl.join(" ")) });
    }
    if let Some(k) = as_const(&r.a) {
        return Ok(lin_zero(&combine(&r.b, k, &r.c), bools, decls, fresh));
    }
    if let Some(k) = as_const(&r.b) {
        return Ok(lin_zero(&combine(&r.a, k, &r.c), bools, decls, fresh));
    }
    if r.c.is_empty() {
        let a = lin_zero(&r.a, bools, decls, fresh);
        let b = lin_zero(&r.b, bools, decls, fresh);
        return Ok(format!("(or {} {})", a, b));
    }
    // split on a Boolean of a factor
    if depth < 8 {
        let pick = r.a.keys().chain(r.b.keys()).copied().find(|v| *v != 0 && bools.contains(v));
        if let Some(x) = pick {
            let mut parts = vec![];
            for (val, lit) in [(Fr::zero(), format!("(not x{})", x)), (Fr::one(), format!("x{}", x))] {
                let rr = Row { a: subst(&r.a, x, val), b: subst(&r.b, x, val), c: subst(&r.c, x, val) };
                parts.push(format!("(and {} {})", lit, row_formula(&rr, bools, decls, fresh, depth + 1)?));
            }
            return Ok(format!("(or {})", parts.join(" ")));
        }
    }
    Err(format!("a row multiplies two unbounded forms ({} and {} terms): outside the encoded fragment", r.a.len(), r.b.len()))
}

fn rename(rows: &[Row], vars: &[usize]) -> (Vec<Row>, HashMap<usize, usize>) {
    let mut m = HashMap::new();
    m.insert(0, 0);
    for (k, v) in vars.iter().enumerate() {
        m.insert(*v, k + 1);
    }
    let f = |l: &Lc| l.iter().map(|(v, c)| (m[v], *c)).collect::<Lc>();
    (rows.iter().map(|r| Row { a: f(&r.a), b: f(&r.b), c: f(&r.c) }).collect(), m)
}

fn encode(rows: &[Row], nvars: usize) -> Result<(String, BTreeSet<usize>), String> {
    let bools: BTreeSet<usize> = rows.iter().filter_map(is_bool_row).collect();
    let p = modulus();
    let mut decls = String::new();
    for v in 1..=nvars {
        if bools.contains(&v) {
            writeln!(decls, "(declare-const x{} Bool)", v).unwrap();
        } else {
            writeln!(decls, "(declare-const x{} Int)(assert (and (<= 0 x{}) (< x{} {})))", v, v, v, p).unwrap();
        }
    }
    let mut fresh = 0;
    let mut body = String::new();
    for r in rows {
        let f = row_formula(r, &bools, &mut decls, &mut fresh, 0)?;
        if f != "true" {
            writeln!(body, "(assert {})", f).unwrap();
        }
    }
    Ok((decls + &body, bools))
}

fn parse_val(s: &str) -> Fr {
    match s {
        "true" => Fr::one(),
        "false" => Fr::zero(),
        _ => {
            if let Some(x) = s.strip_prefix('-') {
                -Fr::from(x.parse::<BigUint>().unwrap())
            } else {
                Fr::from(s.parse::<BigUint>().unwrap())
            }
        }
    }
}

/// learned shape of a witness: constant, bit j of the value, or its negation
#[derive(Clone, Copy, Debug, PartialEq)]
enum Skol {
    Const(bool),
    Bit(usize),
    NotBit(usize),
}

pub fn one(b: u8, n: Option<u8>, public: bool, tier: &str, seed: u64) -> Value {
    let t0 = Instant::now();
    let name = format!("C10/range_b{}_n{}_{}", b, n.map(|x| x.to_string()).unwrap_or("default".into()), if public { "public" } else { "witness" });
    let mut st = Stats::default();
    let mut viol: Vec<Value> = vec![];
    let mut problems: Vec<String> = vec![];
    let mut notes: Vec<String> = vec![];
    let mut validated = 0u64;
    let mut classes = 0u64;
    let mut obligations = 0u64;
    let mut discharged = 0u64;
    let sv = Solver { bin: std::env::var("VERIF_Z3").unwrap_or("z3".into()), secs: if tier == "thorough" { 600 } else { 120 } };
    let base = |what: &str| json!({"kind":"r1cs","harness":name,"what":what,"b":b,"n":n,"public":public});
    let p = modulus();
    let two_b = BigUint::one() << (b as usize);
    let limit = if two_b < p { two_b.clone() } else { p.clone() };
    let want_n = n.map(|x| x as usize).unwrap_or_else(|| (Fr::MODULUS_BIT_SIZE as usize + b as usize - 1) / (b as usize).max(1));
    let mut fin = |viol: Vec<Value>, problems: Vec<String>, st: Stats, validated, classes: u64, obligations, discharged, notes: Vec<String>| {
        json!({"prop":"C10","harness":name,"functions":"circuit::BitsizeCheckCircuit::{new,generate_constraints} (constraint rows exported from the real code)",
            "bounds":format!("required_bit_size = {}, {} values ({}), every assignment of every variable in the 255-bit field", b, want_n, if public {"public inputs"} else {"leading witnesses"}),
            "params":[b,want_n],"outcomes":{"done":classes},
            "sums":{"queries":st.queries,"sat":st.sat,"unsat":st.unsat,"unknown":st.unknown,"solver_us":st.solver_us,"obligations":obligations,"discharged":discharged,"decisions":st.rows,"forks":0,"interval":0,"witnessed":0},
            "samples":[{"rows":st.rows,"variables":st.vars,"distinct_components":classes}],"violations":viol,"unconfirmed":[],"validated":validated,"native_checks":validated,
            "problems":problems,"notes":notes,"explore_s":t0.elapsed().as_secs_f64(),"wall_s":t0.elapsed().as_secs_f64()})
    };
    // the rows, as the setup generates them
    let sys = match synth(b, n, None, public, true) {
        Ok(cs) => export(&cs),
        Err(e) => {
            let mut v = base("setup");
            v["native"] = json!(format!("the circuit cannot be set up: {}", e));
            v["label"] = json!("setup");
            return fin(vec![v], problems, st, validated, classes, obligations, discharged, notes);
        }
    };
    st.rows = sys.rows.len() as u64;
    st.vars = (sys.ninst + sys.nwit) as u64;
    // where the values live: public inputs in order, or the first witnesses
    let value_var = |k: usize| if public { 1 + k } else { sys.ninst + k };
    obligations += 1;
    if (public && sys.ninst != 1 + want_n) || (!public && (sys.ninst != 1 || sys.nwit < want_n)) {
        let mut v = base("shape");
        v["native"] = json!(format!("{} public inputs and {} witnesses for {} values", sys.ninst - 1, sys.nwit, want_n));
        v["label"] = json!("number of allocated values");
        return fin(vec![v], problems, st, validated, classes, obligations, discharged, notes);
    }
    discharged += 1;
    // real runs: used to learn the witness functions, and to check that the values do not change the rows
    let mut rng = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567;
    let mut next = || {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        rng
    };
    let nb = b as usize;
    let mut rounds: Vec<Vec<BigUint>> = vec![];
    let top = &limit - BigUint::one();
    rounds.push(vec![BigUint::zero(); want_n]);
    rounds.push(vec![top.clone(); want_n]);
    let learn = 10 + 2 * (64 - (nb as u64).leading_zeros() as usize);
    for _ in 0..learn {
        rounds.push(
            (0..want_n)
                .map(|_| {
                    let mut x = BigUint::zero();
                    for _ in 0..4 {
                        x = (x << 64) + BigUint::from(next());
                    }
                    x % &limit
                })
                .collect(),
        );
    }
    let mut runs: Vec<Vec<Fr>> = vec![]; // full assignment
    for vals in &rounds {
        let fv: Vec<Fr> = vals.iter().map(|x| Fr::from(x.clone())).collect();
        obligations += 1;
        match synth(b, n, Some(fv.clone()), public, false) {
            Ok(cs) => {
                let s2 = export(&cs);
                let (ia, wa) = {
                    let c = cs.borrow().unwrap();
                    (c.instance_assignment.clone(), c.witness_assignment.clone())
                };
                let ok = cs.is_satisfied().unwrap_or(false);
                let placed = if public { ia[1..] == fv[..] } else { wa[..want_n.min(wa.len())] == fv[..] };
                let same = s2.ninst == sys.ninst && s2.nwit == sys.nwit && s2.rows == sys.rows;
                validated += 1;
                if !ok || !placed || !same {
                    let mut v = base("complete");
                    v["values"] = json!(vals.iter().map(|x| x.to_string()).collect::<Vec<_>>());
                    v["label"] = json!("honest assignment");
                    v["native"] = json!(if !same { "the constraint system generated with values differs from the one set up" } else if !placed { "the values are not the leading variables, in order" } else { "an in-range assignment does not satisfy the circuit" });
                    viol.push(v);
                    return fin(viol, problems, st, validated, classes, obligations, discharged, notes);
                }
                discharged += 1;
                let mut full = ia;
                full.extend(wa);
                runs.push(full);
            }
            Err(e) => {
                let mut v = base("complete");
                v["values"] = json!(vals.iter().map(|x| x.to_string()).collect::<Vec<_>>());
                v["label"] = json!("honest assignment");
                v["native"] = json!(e);
                viol.push(v);
                return fin(viol, problems, st, validated, classes, obligations, discharged, notes);
            }
        }
    }
    let comps = components(&sys);
    // a row without variables must hold as it stands
    for r in sys.rows.iter().filter(|r| vars_of(r).is_empty()) {
        if !holds(r, &|_| Fr::zero()) {
            problems.push("a constant row is violated".into());
        }
    }
    let mut seen: Vec<(Vec<Row>, Vec<usize>)> = vec![];
    for (vars, rws) in &comps {
        let mine: Vec<usize> = (0..want_n).filter(|k| vars.contains(&value_var(*k))).collect();
        let rows: Vec<Row> = rws.iter().map(|i| sys.rows[*i].clone()).collect();
        let (rr, map) = rename(&rows, vars);
        let vv: Vec<usize> = mine.iter().map(|k| map[&value_var(*k)]).collect();
        // learned witness functions (over the bits of the first value of the component)
        let mut sk: Vec<Option<Skol>> = vec![None; vars.len() + 1];
        if vv.len() == 1 {
            let k = mine[0];
            for (j, v) in vars.iter().enumerate() {
                if *v == value_var(k) {
                    continue;
                }
                let col: Vec<Fr> = runs.iter().map(|r| r[*v]).collect();
                let bit = |i: usize, r: usize| rounds[r][k].bit(i as u64);
                let boolcol: Option<Vec<bool>> = col.iter().map(|x| if x.is_zero() { Some(false) } else if x.is_one() { Some(true) } else { None }).collect();
                if let Some(bc) = boolcol {
                    let fit = |f: &dyn Fn(usize) -> bool| (0..bc.len()).all(|r| bc[r] == f(r));
                    if fit(&|_| false) {
                        sk[j + 1] = Some(Skol::Const(false));
                    } else if fit(&|_| true) {
                        sk[j + 1] = Some(Skol::Const(true));
                    } else {
                        for i in 0..nb {
                            if fit(&|r| bit(i, r)) {
                                sk[j + 1] = Some(Skol::Bit(i));
                                break;
                            }
                            if fit(&|r| !bit(i, r)) {
                                sk[j + 1] = Some(Skol::NotBit(i));
                                break;
                            }
                        }
                    }
                }
            }
        }
        if seen.iter().any(|(r, v)| *r == rr && *v == vv) {
            obligations += 2 * vv.len() as u64;
            discharged += 2 * vv.len() as u64;
            continue; // identical rows up to the names of the variables: same formula, same answer
        }
        classes += 1;
        let (text, bools) = match encode(&rr, vars.len()) {
            Ok(x) => x,
            Err(e) => {
                problems.push(e);
                continue;
            }
        };
        let head = "(set-option :produce-models true)\n";
        let getv = |m: &mut String| {
            m.push_str("(check-sat)\n(get-value (");
            for v in 1..=vars.len() {
                write!(m, "x{} ", v).unwrap();
            }
            m.push_str("))\n");
        };
        for (q, x) in vv.iter().enumerate() {
            // soundness
            obligations += 1;
            if bools.contains(x) && b >= 1 {
                discharged += 1;
            } else {
                let xt = if bools.contains(x) { format!("(ite x{} 1 0)", x) } else { format!("x{}", x) };
                let mut m = format!("{}{}(assert (>= {} {}))\n", head, text, xt, two_b);
                getv(&mut m);
                match sv.ask(&m, &mut st) {
                    Ans::Unsat => discharged += 1,
                    Ans::Unknown(e) => problems.push(format!("soundness of b={}: solver gives no answer: {}", b, e)),
                    Ans::Sat(mo) => {
                        // replay: the model for this component, the first honest run elsewhere
                        let mut full = runs[0].clone();
                        for (j, v) in vars.iter().enumerate() {
                            if let Some(t) = mo.get(&format!("x{}", j + 1)) {
                                full[*v] = parse_val(t);
                            }
                        }
                        let mut v = base("sound");
                        v["label"] = json!(format!("value {} out of range satisfies the circuit", mine[q]));
                        v["k"] = json!(mine[q]);
                        v["assignment"] = json!(full.iter().map(|f| big(f).to_string()).collect::<Vec<_>>());
                        match replay_one(&v) {
                            Ok(s) => {
                                v["native"] = json!(s);
                                viol.push(v);
                            }
                            Err(e) => problems.push(format!("counterexample did not reproduce: {}", e)),
                        }
                    }
                }
            }
            // completeness
            obligations += 1;
            let mut done = false;
            if (1..=vars.len()).all(|j| j == *x || sk[j].is_some()) {
                let mut m = String::from(head);
                for i in 0..nb {
                    writeln!(m, "(declare-const x{} Bool)", i + 1).unwrap();
                }
                let dl = |i: usize| format!("x{}", i + 1);
                let mut val = String::from("(+ 0 0");
                for i in 0..nb {
                    write!(val, " (ite {} {} 0)", dl(i), BigUint::one() << i).unwrap();
                }
                val.push(')');
                // rows under the learned functions, as rows over the bits of the value: is one violated?
                let mut decls = String::new();
                let mut fresh = 0;
                let mut neg = vec![];
                let dbools: BTreeSet<usize> = (1..=nb).collect();
                let affine = |j: usize| -> Lc {
                    let mut l = Lc::new();
                    if j == 0 {
                        l.insert(0, Fr::one());
                    } else if j == *x {
                        for i in 0..nb {
                            l.insert(i + 1, Fr::from(BigUint::one() << i));
                        }
                    } else {
                        match sk[j].unwrap() {
                            Skol::Const(c) => {
                                l.insert(0, Fr::from(c as u64));
                            }
                            Skol::Bit(i) => {
                                l.insert(i + 1, Fr::one());
                            }
                            Skol::NotBit(i) => {
                                l.insert(0, Fr::one());
                                l.insert(i + 1, -Fr::one());
                            }
                        }
                    }
                    l
                };
                let sub = |l: &Lc| -> Lc {
                    let mut o = Lc::new();
                    for (v, c) in l {
                        for (w, d) in affine(*v) {
                            *o.entry(w).or_insert_with(Fr::zero) += *c * d;
                        }
                    }
                    o.retain(|_, c| !c.is_zero());
                    o
                };
                if two_b > p {
                    writeln!(m, "(assert (< {} {}))", val, p).unwrap();
                }
                let mut bad = false;
                for r in &rr {
                    let r2 = Row { a: sub(&r.a), b: sub(&r.b), c: sub(&r.c) };
                    match violated(&r2, &dbools, &mut decls, &mut fresh) {
                        Ok(f) => {
                            // the bit i of the value is variable i+1 of the row
                            if f != "false" {
                                neg.push(f)
                            }
                        }
                        Err(e) => {
                            problems.push(e);
                            bad = true;
                        }
                    }
                }
                if !bad {
                    writeln!(m, "(assert (or false {}))", neg.join("\n ")).unwrap();
                    m.push_str("(check-sat)\n(get-value (");
                    for i in 0..nb {
                        write!(m, "{} ", dl(i)).unwrap();
                    }
                    m.push_str("))\n");
                    match sv.ask(&m, &mut st) {
                        Ans::Unsat => {
                            discharged += 1;
                            done = true;
                        }
                        Ans::Unknown(e) => problems.push(format!("completeness of b={}: solver gives no answer: {}", b, e)),
                        Ans::Sat(mo) => {
                            let mut x = BigUint::zero();
                            for i in 0..nb {
                                if mo.get(&dl(i)).map(|s| s == "true").unwrap_or(false) {
                                    x += BigUint::one() << i;
                                }
                            }
                            let mut v = base("complete");
                            let mut vals = vec!["0".to_string(); want_n];
                            vals[mine[q]] = x.to_string();
                            v["label"] = json!("an in-range value violates the circuit");
                            v["values"] = json!(vals);
                            match replay_one(&v) {
                                Ok(s) => {
                                    v["native"] = json!(s);
                                    viol.push(v);
                                    done = true;
                                }
                                Err(_) => notes.push("the learned witness functions do not satisfy every row for every value; falling back to one query per value".into()),
                            }
                        }
                    }
                }
            }
            if !done && problems.is_empty() {
                // one satisfiability query per value
                if limit <= BigUint::from(256u32) && vv.len() == 1 {
                    let mut all = true;
                    let mut y = BigUint::zero();
                    while y < limit {
                        let xt = if bools.contains(x) { format!("(ite x{} 1 0)", x) } else { format!("x{}", x) };
                        let m = format!("{}{}(assert (= {} {}))\n(check-sat)\n", head, text, xt, y);
                        match sv.ask(&m, &mut st) {
                            Ans::Sat(_) => {}
                            Ans::Unsat => {
                                let mut v = base("complete");
                                let mut vals = vec!["0".to_string(); want_n];
                                vals[mine[q]] = y.to_string();
                                v["label"] = json!("an in-range value has no satisfying witness");
                                v["values"] = json!(vals);
                                match replay_one(&v) {
                                    Ok(s) => {
                                        v["native"] = json!(s);
                                        viol.push(v);
                                    }
                                    Err(e) => problems.push(format!("counterexample did not reproduce: {}", e)),
                                }
                                all = false;
                                break;
                            }
                            Ans::Unknown(e) => {
                                problems.push(format!("completeness of b={} at {}: {}", b, y, e));
                                all = false;
                                break;
                            }
                        }
                        y += 1u32;
                    }
                    if all {
                        discharged += 1;
                    }
                } else {
                    problems.push(format!("completeness of b={}: the witnesses are not simple functions of the value's bits", b));
                }
            }
        }
        if !vv.is_empty() || !rr.is_empty() {
            if vv.is_empty() {
                // rows that concern no value must be satisfiable: the honest runs satisfied them
                notes.push("a component of rows concerns no value".into());
            }
        }
        seen.push((rr, vv));
        if !viol.is_empty() {
            break;
        }
    }
    fin(viol, problems, st, validated, classes, obligations, discharged, notes)
}

/// the negation of a row, with exact residues
fn violated(r: &Row, bools: &BTreeSet<usize>, decls: &mut String, fresh: &mut usize) -> Result<String, String> {
    let vs: Vec<usize> = vars_of(r).into_iter().collect();
    if vs.len() <= 6 && vs.iter().all(|v| bools.contains(v)) {
        let f = row_formula(r, bools, decls, fresh, 0)?;
        return Ok(if f == "true" { "false".into() } else { format!("(not {})", f) });
    }
    let nz = |l: &Lc| {
        let (t, b) = lin(l, bools);
        let p = modulus();
        if (&b.lo / &p).is_zero() && (&b.hi / &p).is_zero() {
            format!("(not (= {} 0))", t)
        } else {
            format!("(not (= (mod {} {}) 0))", t, p)
        }
    };
    if let Some(k) = as_const(&r.a) {
        return Ok(nz(&combine(&r.b, k, &r.c)));
    }
    if let Some(k) = as_const(&r.b) {
        return Ok(nz(&combine(&r.a, k, &r.c)));
    }
    if r.c.is_empty() {
        return Ok(format!("(and {} {})", nz(&r.a), nz(&r.b)));
    }
    let pick = r.a.keys().chain(r.b.keys()).copied().find(|v| *v != 0 && bools.contains(v));
    if let Some(x) = pick {
        let mut parts = vec![];
        for (val, lit) in [(Fr::zero(), format!("(not x{})", x)), (Fr::one(), format!("x{}", x))] {
            let rr = Row { a: subst(&r.a, x, val), b: subst(&r.b, x, val), c: subst(&r.c, x, val) };
            parts.push(format!("(and {} {})", lit, violated(&rr, bools, decls, fresh)?));
        }
        return Ok(format!("(or {})", parts.join(" ")));
    }
    Err("a row multiplies two unbounded forms: outside the encoded fragment".into())
}

/// re-run a recorded counterexample on the real constraint system; Ok(description) when it reproduces
fn replay_one(v: &Value) -> Result<String, String> {
    let b = v["b"].as_u64().unwrap() as u8;
    let n = v["n"].as_u64().map(|x| x as u8);
    let public = v["public"].as_bool().unwrap();
    let p = modulus();
    match v["what"].as_str().unwrap_or("") {
        "sound" => {
            let full: Vec<Fr> = v["assignment"].as_array().unwrap().iter().map(|x| Fr::from(x.as_str().unwrap().parse::<BigUint>().unwrap())).collect();
            let k = v["k"].as_u64().unwrap() as usize;
            let cs0 = synth(b, n, None, public, true)?;
            let sys = export(&cs0);
            if full.len() != sys.ninst + sys.nwit {
                return Err("the constraint system has changed shape".into());
            }
            let vi = if public { 1 + k } else { sys.ninst + k };
            let val = big(&full[vi]);
            if val < (BigUint::one() << b as usize) || val >= p {
                return Err("the value is in range".into());
            }
            // the real constraint system with this assignment
            let want_n = if public { sys.ninst - 1 } else { n.map(|x| x as usize).unwrap_or((255 + b as usize - 1) / (b as usize).max(1)) };
            let zeros = vec![Fr::zero(); want_n];
            let cs = synth(b, n, Some(zeros), public, false)?;
            {
                let mut c = cs.borrow_mut().unwrap();
                c.instance_assignment = full[..sys.ninst].to_vec();
                c.witness_assignment = full[sys.ninst..].to_vec();
            }
            if cs.is_satisfied().unwrap_or(false) {
                Ok(format!("the circuit for {} bits accepts the value {}", b, val))
            } else {
                Err("the assignment does not satisfy the real constraint system".into())
            }
        }
        "complete" => {
            let vals: Vec<Fr> = v["values"].as_array().unwrap().iter().map(|x| Fr::from(x.as_str().unwrap().parse::<BigUint>().unwrap())).collect();
            let s = export(&synth(b, n, None, public, true)?);
            match synth(b, n, Some(vals.clone()), public, false) {
                Err(e) => Ok(format!("in-range values: {}", e)),
                Ok(cs) => {
                    if !cs.is_satisfied().unwrap_or(false) {
                        return Ok("an in-range assignment does not satisfy the circuit".into());
                    }
                    let t = export(&cs);
                    let ia = cs.borrow().unwrap().instance_assignment.clone();
                    if public && ia[1..] != vals[..] {
                        return Ok("the public inputs are not the values, in order".into());
                    }
                    if t.rows != s.rows || t.ninst != s.ninst || t.nwit != s.nwit {
                        return Ok("the constraint system generated with values differs from the one set up".into());
                    }
                    Err("satisfied".into())
                }
            }
        }
        "setup" => match synth(b, n, None, public, true) {
            Err(e) => Ok(e),
            Ok(_) => Err("set up".into()),
        },
        "shape" => {
            let s = export(&synth(b, n, None, public, true)?);
            let want = n.map(|x| x as usize).unwrap_or((255 + b as usize - 1) / (b as usize).max(1));
            if (public && s.ninst != 1 + want) || (!public && (s.ninst != 1 || s.nwit < want)) {
                Ok(format!("{} public inputs for {} values", s.ninst - 1, want))
            } else {
                Err("shape is right".into())
            }
        }
        _ => Err("unknown".into()),
    }
}

pub fn run(tier: &str, seed: u64) -> Value {
    let mut jobs: Vec<(u8, Option<u8>, bool)> = vec![];
    for b in [4u8, 8, 16] {
        jobs.push((b, None, true));
        jobs.push((b, Some(1), true));
        jobs.push((b, Some(3), false));
    }
    if tier == "thorough" {
        for b in [4u8, 8, 16] {
            jobs.push((b, None, false));
            for n in [2u8, 5, 7] {
                jobs.push((b, Some(n), true));
            }
        }
        for b in 0..=254u8 {
            if ![4, 8, 16].contains(&b) {
                jobs.push((b, Some(1), true));
            }
        }
        for b in [1u8, 2, 3, 5, 10, 12, 15, 32, 64, 127, 128] {
            jobs.push((b, None, true));
        }
    } else {
        for b in [0u8, 1, 2, 3, 5, 7, 12, 15, 17, 32, 64, 128, 253, 254] {
            jobs.push((b, Some(1), true));
        }
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(vec![]);
    let tier = tier.to_string();
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= jobs.len() {
                    return;
                }
                let (b, n, p) = jobs[i];
                let r = one(b, n, p, &tier, seed);
                out.lock().unwrap().push((i, r));
            });
        }
    });
    let mut o = out.into_inner().unwrap();
    o.sort_by_key(|x| x.0);
    Value::Array(o.into_iter().map(|x| x.1).collect())
}

pub fn replay(v: &Value) -> i32 {
    match replay_one(v) {
        Ok(s) => {
            println!("reproduced: {}", s);
            1
        }
        Err(e) => {
            println!("not reproduced: {}", e);
            0
        }
    }
}
