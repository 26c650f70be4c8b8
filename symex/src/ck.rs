//! Jobs, results, evidence and reporting shared by all checks.
use crate::eqv::EqStats;
use crate::exec::{Exec, XStats};
use crate::irb;
use crate::json::{o, s, J};
use crate::replay::{self, Outcome, Replay};
use crate::{smt, spec};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone)]
pub struct Cex {
    pub what: String,
    pub replay: Option<Replay>,
}
#[derive(Default)]
pub struct Jr {
    pub name: String,
    pub seed: u64,
    pub thorough: bool,
    pub obligations: u64,
    pub discharged: u64,
    pub paths: u64,
    pub cex: Vec<Cex>,
    pub errors: Vec<String>,
    pub notes: Vec<String>,
    pub samples: Vec<String>,
    pub x: XStats,
    pub q: smt::Stats,
    pub eq: EqStats,
    pub rewrites: u64,
    pub wall: f64,
}
impl Jr {
    pub fn ok(&mut self) {
        self.obligations += 1;
        self.discharged += 1;
    }
    pub fn fail(&mut self, what: impl Into<String>, r: Option<Replay>) {
        self.obligations += 1;
        self.cex.push(Cex { what: what.into(), replay: r });
    }
    pub fn err(&mut self, e: impl Into<String>) {
        self.obligations += 1;
        self.errors.push(e.into());
    }
    pub fn absorb(&mut self, x: &Exec) {
        let a = &x.stats;
        self.x.steps += a.steps;
        self.x.forks += a.forks;
        self.x.paths += a.paths;
        self.paths += a.paths;
        self.x.decided_by_model += a.decided_by_model;
        self.x.bounds_checks += a.bounds_checks;
        for (k, v) in &a.funcs {
            *self.x.funcs.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &a.stubbed {
            *self.x.stubbed.entry(k.clone()).or_default() += v;
        }
    }
    pub fn sample(&mut self, x: impl Into<String>) {
        if self.samples.len() < 3 {
            self.samples.push(x.into());
        }
    }
}

pub type JobFn = Box<dyn Fn(&mut Jr) -> Result<(), String> + Send>;
pub struct Job {
    pub name: String,
    pub f: JobFn,
}
pub fn job(name: impl Into<String>, f: impl Fn(&mut Jr) -> Result<(), String> + Send + 'static) -> Job {
    Job { name: name.into(), f: Box::new(f) }
}

pub struct Cfg {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<String>,
    pub verbose: bool,
}

pub fn run_jobs(cfg: &Cfg, jobs: Vec<Job>) -> Vec<Jr> {
    let n = jobs.len();
    let names: Vec<String> = jobs.iter().map(|j| j.name.clone()).collect();
    let q = Arc::new(Mutex::new(jobs.into_iter().enumerate().collect::<std::collections::VecDeque<_>>()));
    let res: Arc<Mutex<Vec<Option<Jr>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    let nt = std::env::var("SYMEX_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
    let mut hs = vec![];
    for _ in 0..nt.min(n) {
        let q = q.clone();
        let res = res.clone();
        let (seed, thorough, verbose) = (cfg.seed, cfg.thorough, cfg.verbose);
        hs.push(std::thread::spawn(move || loop {
            let (i, j) = match q.lock().unwrap().pop_front() {
                Some(x) => x,
                None => return,
            };
            // a thread of its own: terms and solver are thread local
            let res2 = res.clone();
            let name = j.name.clone();
            let h = std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || {
                    spec::init();
                    let t0 = Instant::now();
                    let mut r = Jr { name: j.name.clone(), seed, thorough, ..Default::default() };
                    if let Err(e) = (j.f)(&mut r) {
                        r.err(e);
                    }
                    r.q.add(&smt::take_stats());
                    smt::drop_solver();
                    r.wall = t0.elapsed().as_secs_f64();
                    if verbose {
                        eprintln!(
                            "[{:6.2}s] {}: {}/{} paths {} queries {} ({:.2}s) steps {} eq {:?} cex {} err {}",
                            r.wall, r.name, r.discharged, r.obligations, r.paths, r.q.queries, r.q.time, r.x.steps, r.eq,
                            r.cex.len(), r.errors.len()
                        );
                        for e in r.errors.iter().take(3) {
                            eprintln!("    error: {}", e);
                        }
                        for e in r.notes.iter().take(3) {
                            eprintln!("    note: {}", e);
                        }
                        for e in r.cex.iter().take(3) {
                            eprintln!("    cex: {}", e.what);
                        }
                    }
                    res2.lock().unwrap()[i] = Some(r);
                })
                .unwrap();
            if h.join().is_err() {
                let mut r = Jr { name, ..Default::default() };
                r.err("the check itself panicked");
                res.lock().unwrap()[i] = Some(r);
            }
        }));
    }
    drop(hs);
    // Wait for everything, but not for ever: after the first counterexamples
    // the rest is cut short, and the whole run has a time limit.
    let t0 = Instant::now();
    let limit: f64 = std::env::var("SYMEX_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(if cfg.thorough { 14400.0 } else { 720.0 });
    let mut first: Option<Instant> = None;
    loop {
        std::thread::sleep(std::time::Duration::from_millis(20));
        let v = res.lock().unwrap();
        if v.iter().all(|x| x.is_some()) {
            break;
        }
        if first.is_none() && v.iter().flatten().any(|r| r.cex.iter().any(|c| c.replay.is_some())) {
            first = Some(Instant::now());
        }
        let grace = if cfg.thorough { 120.0 } else { 20.0 };
        if first.map(|f| f.elapsed().as_secs_f64() > grace) == Some(true) || t0.elapsed().as_secs_f64() > limit {
            break;
        }
    }
    q.lock().unwrap().clear();
    let mut v = res.lock().unwrap();
    v.iter_mut()
        .zip(names)
        .map(|(x, n)| {
            x.take().unwrap_or_else(|| {
                let mut r = Jr { name: n, ..Default::default() };
                r.err("not finished in time");
                r
            })
        })
        .collect()
}

pub struct Report {
    pub bounds: Vec<String>,
    pub assumptions: Vec<String>,
    pub explanation: String,
    pub level: &'static str,
}

/// Confirm counterexamples natively, write evidence, print, and return the
/// exit code.
pub fn finish(cfg: &Cfg, t0: Instant, rs: Vec<Jr>, rep: Report) -> i32 {
    let mut confirmed: Vec<(String, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut libs: BTreeMap<String, Result<std::path::PathBuf, String>> = Default::default();
    let rdir = irb::root().join("evidence/replays");
    let _ = std::fs::create_dir_all(&rdir);
    let mut k = 0;
    let mut tried = 0;
    let mut soft = 0;
    for r in &rs {
        for e in &r.errors {
            errors.push(format!("{}: {}", r.name, e));
        }
        for c in &r.cex {
            match &c.replay {
                None => errors.push(format!("{}: counterexample without a replay: {}", r.name, c.what)),
                Some(rp) => {
                    if confirmed.len() >= 3 || tried >= 40 {
                        continue;
                    }
                    tried += 1;
                    let lib = libs.entry(rp.lib.clone()).or_insert_with(|| replay::build_lib(&rp.lib));
                    let so = match lib {
                        Ok(s) => s.clone(),
                        Err(e) => {
                            errors.push(format!("{}: {}", r.name, e));
                            continue;
                        }
                    };
                    let f = rdir.join(format!("{}-{}.txt", cfg.id, k));
                    k += 1;
                    let mut rp = rp.clone();
                    rp.note = format!("{}: {}\n{}", r.name, c.what, rp.note);
                    let _ = std::fs::write(&f, rp.text());
                    let mut out = replay::run(&rp, &f, &so);
                    if matches!(out, Outcome::Fine) && (c.what.starts_with("bounds") || c.what.starts_with("dangling")) {
                        // inside the stack or a larger object: have the compiler check it
                        rp.lib.push_str("+asan");
                        let lib = libs.entry(rp.lib.clone()).or_insert_with(|| replay::build_lib(&rp.lib));
                        if let Ok(so) = lib {
                            let so = so.clone();
                            let _ = std::fs::write(&f, rp.text());
                            out = replay::run(&rp, &f, &so);
                        }
                    }
                    match out {
                        Outcome::Confirmed(w) => {
                            rp.note.push_str(&format!("\nobserved: {}", w));
                            let _ = std::fs::write(&f, rp.text());
                            confirmed.push((format!("{}: {} -- {}", r.name, c.what, w), f.to_string_lossy().into_owned()));
                        }
                        // the state it starts from need not be reachable
                        Outcome::Fine if rp.env.iter().any(|e| e.0 == "VX_SOFT") => soft += 1,
                        Outcome::Fine => errors.push(format!("{}: counterexample does not reproduce: {}", r.name, c.what)),
                        Outcome::Error(e) => errors.push(format!("{}: replay: {}", r.name, e)),
                    }
                }
            }
        }
    }
    let mut q = smt::Stats::default();
    let mut x = XStats::default();
    let mut eq = EqStats::default();
    let (mut ob, mut di, mut pa, mut rw) = (0, 0, 0, 0);
    let mut samples = vec![];
    let mut notes = vec![];
    for r in &rs {
        q.add(&r.q);
        x.steps += r.x.steps;
        x.forks += r.x.forks;
        x.bounds_checks += r.x.bounds_checks;
        for (k, v) in &r.x.funcs {
            *x.funcs.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.x.stubbed {
            *x.stubbed.entry(k.clone()).or_default() += v;
        }
        eq.structural += r.eq.structural;
        eq.by_solver += r.eq.by_solver;
        eq.merges += r.eq.merges;
        eq.evals += r.eq.evals;
        ob += r.obligations;
        di += r.discharged;
        pa += r.paths;
        rw += r.rewrites;
        for s in &r.samples {
            if samples.len() < 12 {
                samples.push(format!("{}: {}", r.name, s));
            }
        }
        for s in &r.notes {
            if notes.len() < 40 {
                notes.push(format!("{}: {}", r.name, s));
            }
        }
    }
    let fl: Vec<J> = x.funcs.iter().map(|(k, v)| s(format!("{} x{}", short(k), v))).collect();
    let sl: Vec<J> = x.stubbed.iter().map(|(k, v)| s(format!("{} x{}", short(k), v))).collect();
    let cov = o(vec![
        ("explanation", s(rep.explanation)),
        ("bounds", J::A(rep.bounds.iter().map(|x| s(x.clone())).collect())),
        ("jobs", J::I(rs.len() as i64)),
        ("obligations", J::I(ob as i64)),
        ("discharged", J::I(di as i64)),
        ("paths", J::I(pa as i64)),
        ("ir_instructions_executed", J::I(x.steps as i64)),
        ("forks", J::I(x.forks as i64)),
        ("bounds_checks", J::I(x.bounds_checks as i64)),
        ("solver_queries", J::I(q.queries as i64)),
        ("solver_unsat", J::I(q.unsat as i64)),
        ("solver_sat", J::I(q.sat as i64)),
        ("solver_unknown", J::I(q.unknown as i64)),
        ("solver_seconds", J::N(q.time)),
        ("solver", s(smt::solver_bin())),
        ("equalities_by_normal_form", J::I(eq.structural as i64)),
        ("equalities_by_solver", J::I(eq.by_solver as i64)),
        ("inner_merges_by_solver", J::I(eq.merges as i64)),
        ("rewrite_rules_certified_by_solver", J::I(rw as i64)),
        ("functions_encoded", J::A(fl)),
        ("functions_summarised", J::A(sl)),
        ("samples", J::A(samples.iter().map(|x| s(x.clone())).collect())),
        ("notes", J::A(notes.iter().map(|x| s(x.clone())).collect())),
        ("errors", J::A(errors.iter().take(20).map(|x| s(x.clone())).collect())),
    ]);
    let ev = o(vec![
        ("property", s(cfg.id.clone())),
        ("tier", s(if cfg.thorough { "thorough" } else { "quick" })),
        ("seed", J::I(cfg.seed as i64)),
        ("level", s(rep.level)),
        ("coverage", cov),
        ("assumptions", J::A(rep.assumptions.iter().map(|x| s(x.clone())).collect())),
        ("wall_s", J::N(t0.elapsed().as_secs_f64())),
        ("violations", J::I(confirmed.len() as i64)),
    ]);
    let f = irb::root().join(format!("evidence/{}.json", cfg.id));
    if let Err(e) = std::fs::write(&f, ev.txt() + "\n") {
        errors.push(format!("evidence: {}", e));
    }
    println!(
        "{}: {} jobs, {} paths, {}/{} obligations, {} solver queries in {:.1} s, wall {:.1} s",
        cfg.id,
        rs.len(),
        pa,
        di,
        ob,
        q.queries,
        q.time,
        t0.elapsed().as_secs_f64()
    );
    if !confirmed.is_empty() {
        for (w, f) in &confirmed {
            println!("{}", w);
            println!("VIOLATION property={} replay={}", cfg.id, f);
        }
        return 1;
    }
    if !errors.is_empty() {
        for e in errors.iter().take(15) {
            println!("ERROR {}", e);
        }
        return 2;
    }
    if ob == 0 || ob != di + soft {
        println!("ERROR {} of {} obligations discharged", di, ob);
        return 2;
    }
    0
}

/// Readable form of a v0-mangled symbol.
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut parts = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let k: usize = n[i..j].parse().unwrap_or(0);
            if k == 0 || j + k > b.len() {
                i = j;
                continue;
            }
            let mut st = j;
            if b[st] == b'_' {
                st += 1;
            }
            let id = &n[st..(st + k).min(n.len())];
            parts.push(id.to_string());
            i = st + k;
        } else if b[i] == b's' {
            // disambiguator
            match n[i..].find('_') {
                Some(e) if e < 14 => i += e + 1,
                _ => i += 1,
            }
        } else {
            i += 1;
        }
    }
    if parts.is_empty() {
        n.to_string()
    } else {
        parts.join("::")
    }
}
