mod ctx;
mod env;
mod field;
mod h;
mod types;
mod r1cs;

use ctx::*;
use env::*;
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

#[repr(C)]
pub struct Shared {
    pub paths: AtomicUsize,
    pub models: AtomicUsize,
    pub violations: AtomicUsize,
    pub last: AtomicU64,
}
static mut SHARED: *mut Shared = std::ptr::null_mut();
pub fn shared() -> &'static Shared {
    unsafe { &*SHARED }
}
fn init_shared() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHARED = p as *mut Shared;
    }
}

#[derive(Clone)]
pub struct H {
    pub prop: &'static str,
    pub name: String,
    pub thorough: bool,
    pub params: Vec<u64>,
    pub sym: fn(&mut SymEnv, &[u64]),
    pub nat: fn(&mut NatEnv, &[u64]),
    /// functions of /repo this harness executes symbolically
    pub funcs: &'static str,
    pub bounds: String,
    /// native replays to run on explored paths
    pub validate: usize,
    pub timeout_s: u64,
}

fn describe_panic(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".into()
    }
}

fn end_path(outcome: &str, h: &H) -> ! {
    let k = shared().paths.fetch_add(1, Ordering::SeqCst);
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let mut a = Value::Null;
        if outcome == "done" {
            // spread the validated paths: the first few, then ever more rarely
            let want = k < h.validate / 2 || (k.is_power_of_two()) || k % 64 == 0;
            if want && shared().models.load(Ordering::SeqCst) < h.validate {
                if let Some(m) = c.model(&[], 5) {
                    shared().models.fetch_add(1, Ordering::SeqCst);
                    a = assignment(&c, &m);
                }
            }
        }
        let s = c.stats.clone();
        let tail: Vec<String> = if k < 4 {
            let pc = c.pc.clone();
            pc.iter().rev().take(6).map(|(a, t)| format!("{} {} 0", c.show(*a), if *t { "=" } else { "!=" })).collect()
        } else {
            vec![]
        };
        let v = json!({"t":"path","outcome":outcome,"k":k,"queries":s.queries,"unsat":s.unsat,"sat":s.sat,"unknown":s.unknown,"undecided":s.undecided,
            "solver_us":s.solver_us,"witnessed":s.witnessed,"interval":s.interval,"decisions":s.decisions,"forks":s.forks,"obligations":s.obligations,"discharged":s.discharged,
            "pc":tail,"bools":c.bools,"assign":a,"notes":c.notes,"label":c.last_label});
        c.write_out(v);
    });
    unsafe { libc::_exit(0) }
}

/// symbolic exploration in this (freshly forked) process; never returns
fn explore(h: &H, outfile: &str, seed: u64) -> ! {
    ark_ec::scalar_mul::fixed_base::SYMBOLIC.store(true, Ordering::SeqCst);
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.on = true;
        c.seed = seed;
        c.harness = h.name.clone();
        c.abort_flag = format!("{}.abort", outfile);
        c.out = Some(std::fs::OpenOptions::new().create(true).append(true).open(outfile).unwrap());
        if let Ok(d) = std::env::var("VERIF_SMT_LOG") {
            c.logq = std::fs::File::create(format!("{}/{}.smt2", d, h.name.replace('/', "_"))).ok();
        }
    });
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut e = SymEnv;
        (h.sym)(&mut e, &h.params);
    }));
    match r {
        Ok(()) => end_path("done", h),
        Err(e) => {
            if let Some(p) = e.downcast_ref::<PathDone>() {
                end_path(p.0, h)
            } else if let Some(u) = e.downcast_ref::<Unsupported>() {
                CTX.with(|c| c.borrow_mut().notes.push(format!("unsupported: {}", u.0)));
                // still a candidate: replayed natively (reported only if it reproduces there)
                sym_violation("path leaves the encoded fragment", &u.0, &[]);
                end_path("unsupported", h)
            } else {
                let m = describe_panic(&*e);
                sym_violation("panic", &format!("the code panics: {}", m), &[]);
                end_path("panic", h)
            }
        }
    }
}

pub enum Nat {
    Ok(u64),
    Viol(String),
    Err(String),
}

/// one native run in a forked child
fn native(h: &H, a: &Value, seed: u64, scripted: bool, timeout: u64) -> Nat {
    let mut fds = [0i32; 2];
    unsafe { libc::pipe(fds.as_mut_ptr()) };
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe { libc::close(fds[0]) };
        unsafe { libc::alarm(timeout as u32) };
        CTX.with(|c| c.borrow_mut().on = false);
        ark_ec::scalar_mul::fixed_base::SYMBOLIC.store(false, Ordering::SeqCst);
        let mut env = NatEnv::new(a, seed, scripted);
        let r = catch_unwind(AssertUnwindSafe(|| {
            (h.nat)(&mut env, &h.params);
        }));
        let msg = match r {
            Ok(()) => format!("O{}", env.checks),
            Err(e) => {
                if let Some(v) = e.downcast_ref::<NativeViolation>() {
                    format!("V{}", v.0)
                } else if let Some(p) = e.downcast_ref::<PathDone>() {
                    format!("E{}", p.0)
                } else {
                    format!("Vpanic: {}", describe_panic(&*e))
                }
            }
        };
        let b = msg.as_bytes();
        unsafe {
            libc::write(fds[1], b.as_ptr() as *const _, b.len());
            libc::_exit(0)
        }
    }
    unsafe { libc::close(fds[1]) };
    let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[0]) };
    let mut s = String::new();
    use std::io::Read;
    let _ = f.read_to_string(&mut s);
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    match s.chars().next() {
        Some('O') => Nat::Ok(s[1..].parse().unwrap_or(0)),
        Some('V') => Nat::Viol(s[1..].to_string()),
        Some('E') => Nat::Err(s[1..].to_string()),
        _ => Nat::Err(format!("native run ended abnormally (status {})", st)),
    }
}

/// explore + replay + validate one harness; result as JSON
fn supervise(h: &H, dir: &str, seed: u64) -> Value {
    let t0 = Instant::now();
    let out = format!("{}/{}.jsonl", dir, h.name.replace('/', "_"));
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(format!("{}.abort", out));
    shared().paths.store(0, Ordering::SeqCst);
    shared().models.store(0, Ordering::SeqCst);
    shared().violations.store(0, Ordering::SeqCst);
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe { libc::setpgid(0, 0) };
        explore(h, &out, seed);
    }
    let mut timed_out = false;
    let mut crashed = false;
    let mut viol_since: Option<Instant> = None;
    loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            crashed = !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0);
            break;
        }
        if shared().violations.load(Ordering::SeqCst) >= 4 && viol_since.is_none() {
            viol_since = Some(Instant::now());
            let _ = std::fs::write(format!("{}.abort", out), "x");
        }
        let over = t0.elapsed().as_secs() > h.timeout_s;
        let stuck = viol_since.map(|t| t.elapsed().as_secs() > 10).unwrap_or(false);
        if over || stuck {
            unsafe {
                libc::kill(-pid, libc::SIGKILL);
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
            }
            timed_out = over;
            break;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 200 { 2 } else { 20 }));
    }
    let explore_s = t0.elapsed().as_secs_f64();
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let mut sums: std::collections::BTreeMap<String, u64> = Default::default();
    let mut outcomes: std::collections::BTreeMap<String, u64> = Default::default();
    let mut samples = vec![];
    let mut viol_cands = vec![];
    let mut valid = vec![];
    let mut notes: Vec<String> = vec![];
    for l in text.lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        match v["t"].as_str() {
            Some("path") => {
                *outcomes.entry(v["outcome"].as_str().unwrap().to_string()).or_default() += 1;
                for k in ["queries", "unsat", "sat", "unknown", "undecided", "solver_us", "witnessed", "interval", "decisions", "forks", "obligations", "discharged"] {
                    *sums.entry(k.into()).or_default() += v[k].as_u64().unwrap_or(0);
                }
                if samples.len() < 3 {
                    samples.push(json!({"outcome":v["outcome"],"path_condition_tail":v["pc"],"environment":v["bools"]}));
                }
                if !v["assign"].is_null() {
                    valid.push(v["assign"].clone());
                }
                for n in v["notes"].as_array().unwrap_or(&vec![]) {
                    if notes.len() < 8 {
                        notes.push(n.as_str().unwrap_or("").to_string());
                    }
                }
            }
            Some("violation") => viol_cands.push(v),
            Some("crash") => crashed = true,
            _ => {}
        }
    }
    // replay counterexamples on the real curve
    let mut confirmed = vec![];
    let mut unconfirmed = vec![];
    'v: for v in viol_cands.iter().take(8) {
        let mut tries = vec![];
        for a in v["candidates"].as_array().unwrap_or(&vec![]) {
            tries.push((a.clone(), true));
        }
        let base = tries.first().map(|t| t.0.clone()).unwrap_or(json!({"vars":{},"draws":[],"bools":{}}));
        tries.push((base.clone(), false));
        tries.push((json!({"vars":{},"draws":[],"bools":base["bools"].clone()}), false));
        for (k, (a, scripted)) in tries.into_iter().enumerate() {
            match native(h, &a, seed.wrapping_add(k as u64), scripted, 120) {
                Nat::Viol(m) => {
                    confirmed.push(json!({"label":v["label"],"why":v["why"],"native":m,"assignment":a,"scripted":scripted,"seed":seed.wrapping_add(k as u64),"path_condition":v["pc_tail"]}));
                    if confirmed.len() >= 2 {
                        break 'v;
                    }
                    continue 'v;
                }
                _ => {}
            }
        }
        unconfirmed.push(json!({"label":v["label"],"why":v["why"]}));
    }
    // validate explored paths natively
    let mut validated = 0u64;
    let mut checks = 0u64;
    if confirmed.is_empty() {
        for (k, a) in valid.iter().enumerate() {
            match native(h, a, seed.wrapping_add(1000 + k as u64), true, 120) {
                Nat::Ok(n) => {
                    validated += 1;
                    checks += n;
                }
                Nat::Viol(m) => {
                    confirmed.push(json!({"label":"native validation of an explored path","why":m,"native":m,"assignment":a,"scripted":true,"seed":seed.wrapping_add(1000+k as u64)}));
                    break;
                }
                Nat::Err(m) => notes.push(format!("native validation: {}", m)),
            }
        }
    }
    let done = outcomes.get("done").cloned().unwrap_or(0);
    let mut problem = vec![];
    if confirmed.is_empty() {
        if !unconfirmed.is_empty() {
            problem.push(format!("counterexample(s) did not reproduce natively: {}", json!(unconfirmed)));
        }
        if timed_out {
            problem.push(format!("timed out after {} s", h.timeout_s));
        }
        if crashed {
            problem.push("a path process crashed".into());
        }
        if done == 0 {
            problem.push("no path reached the end of the harness (vacuous)".into());
        }
        if sums.get("obligations").cloned().unwrap_or(0) == 0 {
            problem.push("no obligation was posed (vacuous)".into());
        }
        if sums.get("unknown").cloned().unwrap_or(0) > 0 {
            problem.push("solver answered unknown".into());
        }
    }
    json!({"prop":h.prop,"harness":h.name,"bounds":h.bounds,"functions":h.funcs,"params":h.params,
        "outcomes":outcomes,"sums":sums,"samples":samples,"violations":confirmed,"unconfirmed":unconfirmed,
        "validated":validated,"native_checks":checks,"problems":problem,"notes":notes,
        "explore_s":explore_s,"wall_s":t0.elapsed().as_secs_f64()})
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VERIF_TRACE").is_ok() {
            eprintln!("panic: {}", i);
        }
    }));
    let _ = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build_global();
    init_shared();
    let all = h::all();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("list");
    match cmd {
        "retry-labels" => h::misc::retry_labels(),
        "list" => {
            for h in &all {
                println!("{} {} {}", h.prop, h.name, if h.thorough { "thorough" } else { "quick" });
            }
        }
        "run" => {
            // symex run PROP TIER DIR SEED JOBS [name-filter]
            let (prop, tier, dir, seed, jobs) = (
                args[2].as_str(),
                args[3].as_str(),
                args[4].as_str(),
                args[5].parse::<u64>().unwrap(),
                args[6].parse::<usize>().unwrap(),
            );
            let filt = args.get(7).cloned().unwrap_or_default();
            std::fs::create_dir_all(dir).unwrap();
            let hs: Vec<H> = all
                .into_iter()
                .filter(|h| (prop == "all" || h.prop == prop) && (tier == "thorough" || !h.thorough) && h.name.contains(&filt))
                .collect();
            let mut running: Vec<(i32, usize)> = vec![];
            let mut next = 0;
            let mut results: Vec<Value> = vec![];
            while next < hs.len() || !running.is_empty() {
                while running.len() < jobs && next < hs.len() {
                    let f = format!("{}/{}.result", dir, hs[next].name.replace('/', "_"));
                    let _ = std::fs::remove_file(&f);
                    std::io::stdout().flush().unwrap();
                    let pid = unsafe { libc::fork() };
                    if pid == 0 {
                        init_shared();
                        let v = supervise(&hs[next], dir, seed);
                        std::fs::write(&f, v.to_string()).unwrap();
                        unsafe { libc::_exit(0) };
                    }
                    running.push((pid, next));
                    next += 1;
                }
                let mut st = 0;
                let pid = unsafe { libc::waitpid(-1, &mut st, 0) };
                if let Some(k) = running.iter().position(|r| r.0 == pid) {
                    let (_, i) = running.remove(k);
                    let f = format!("{}/{}.result", dir, hs[i].name.replace('/', "_"));
                    let v = std::fs::read_to_string(&f).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(
                        json!({"prop":hs[i].prop,"harness":hs[i].name,"problems":["supervisor died"],"violations":[]}),
                    );
                    if std::env::var("VERIF_VERBOSE").is_ok() {
                        eprintln!(
                            "{} {:.1}s paths={} sums={} viol={} unconf={} problems={} validated={}",
                            hs[i].name, v["wall_s"].as_f64().unwrap_or(0.0), v["outcomes"], v["sums"],
                            v["violations"].as_array().map(|a| a.iter().map(|x| format!("{} / {}", x["label"], x["native"])).collect::<Vec<_>>().join(";")).unwrap_or_default(),
                            v["unconfirmed"], v["problems"], v["validated"]
                        );
                    }
                    results.push(v);
                }
            }
            println!("{}", Value::Array(results));
        }
        "r1cs" => {
            // symex r1cs TIER SEED
            println!("{}", r1cs::run(args[2].as_str(), args[3].parse().unwrap()));
        }
        "replay" => {
            // symex replay FILE : re-run one recorded counterexample on the real curve
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            if v["kind"] == "r1cs" {
                std::process::exit(r1cs::replay(&v));
            }
            let h = all.into_iter().find(|h| Some(h.name.as_str()) == v["harness"].as_str()).expect("unknown harness");
            match native(&h, &v["assignment"], v["seed"].as_u64().unwrap_or(1), v["scripted"].as_bool().unwrap_or(true), 300) {
                Nat::Viol(m) => {
                    println!("reproduced: {}", m);
                    std::process::exit(1);
                }
                Nat::Ok(n) => println!("not reproduced ({} checks passed)", n),
                Nat::Err(m) => {
                    println!("error: {}", m);
                    std::process::exit(2);
                }
            }
        }
        _ => panic!("usage"),
    }
}
