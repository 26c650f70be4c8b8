#![allow(dead_code)]
mod ck;
mod cli;
mod collide;
mod copy;
mod ct;
mod eqv;
mod exec;
mod inc;
mod ir;
mod irb;
mod json;
mod kern;
mod long;
mod mem;
mod oracle;
mod par;
mod refi;
mod replay;
mod report;
mod smt;
mod spec;
mod summ;
mod tree;
mod val;
mod term;
mod x86;

use ck::Cfg;
use std::time::Instant;

fn progs() -> Result<kern::Progs, String> {
    let (a, b, c) = std::thread::scope(|s| {
        let a = s.spawn(|| irb::rust_ir("hx", "hx", "", true));
        let b = s.spawn(|| irb::c_ir(irb::Cc::Avx512, "k", &[]));
        let c = s.spawn(|| irb::c_ir(irb::Cc::Neon, "k", &[]));
        (a.join().unwrap(), b.join().unwrap(), c.join().unwrap())
    });
    Ok(kern::Progs { hx: a?, c: b?, neon: c? })
}

fn check(cfg: &Cfg) -> Result<i32, String> {
    let t0 = Instant::now();
    // jobs that must finish before the others (kernel contracts)
    let mut pre: Vec<Vec<ck::Job>> = vec![];
    let (mut jobs, rep) = match cfg.id.as_str() {
        "C01" => {
            let ps = progs()?;
            (
                kern::compress_jobs(&ps, 32),
                report::of(&cfg.id, cfg.thorough),
            )
        }
        "C02" => {
            let ps = progs()?;
            (
                kern::many_jobs(&ps, 32, cfg.thorough),
                report::of(&cfg.id, cfg.thorough),
            )
        }
        "C03" => {
            let ps = progs()?;
            let mut j = kern::compress_jobs(&ps, 64);
            j.extend(kern::many_jobs(&ps, 64, cfg.thorough));
            (j, report::of(&cfg.id, cfg.thorough))
        }
        "C04" => {
            let p = irb::rust_ir("hx", "hx", "", true)?;
            let (acc, j) = tree::contracts(p);
            pre.push(j);
            let th = cfg.thorough;
            let ks = move |mode: u8, _: tree::Plat| -> Vec<u64> {
                let mut v: Vec<u64> = (0..=if mode == 0 { 20 } else { 10 }).collect();
                if mode == 0 || th {
                    v.extend([24, 31, 32, 33, 63, 64, 65]);
                }
                if th {
                    v = (0..=140).collect();
                    v.extend([255, 256, 257, 511, 513]);
                }
                v
            };
            let mut v = tree::one_jobs(p, &acc, None, &ks);
            let (lp, lj) = long::jobs(p, &acc, cfg.thorough);
            pre.push(lp);
            v.extend(lj);
            (v, report::of(&cfg.id, cfg.thorough))
        }
        "C05" | "C14" => {
            let p = irb::rust_ir("hx", "hx", "", true)?;
            let (acc, j) = tree::contracts(p);
            pre.push(j);
            let form = inc::Form::default();
            pre.push(inc::form_jobs(p, &acc, &form));
            let eo = cfg.id == "C14";
            let mut v = inc::api_jobs(p, &acc, inc::api_list(cfg.thorough, cfg.seed), eo);
            v.extend(inc::mid_jobs(p, &acc, inc::mid_list(cfg.thorough, cfg.seed), &form, eo));
            (v, report::of(&cfg.id, cfg.thorough))
        }
        "C06" => {
            let p = irb::rust_ir("hx", "hx", "", true)?;
            let (acc, j) = tree::contracts(p);
            pre.push(j);
            (inc::obs_jobs(p, &acc, cfg.thorough, cfg.seed), report::of(&cfg.id, cfg.thorough))
        }
        "C07" => {
            let p = irb::rust_ir("hx", "hx", "", true)?;
            let (acc, j) = tree::contracts(p);
            pre.push(j);
            let th = cfg.thorough;
            let ks = move |_: u8, _: tree::Plat| -> Vec<u64> { if th { (0..=33).collect() } else { vec![0, 1, 2, 3, 5, 8, 9] } };
            let mut v = tree::one_jobs(p, &acc, Some(3), &ks);
            v.extend(tree::stream_jobs(p, &acc, th));
            let mut l = inc::api_list(th, cfg.seed);
            let keep = if th { 1 } else { 5 };
            l = l.into_iter().enumerate().filter(|(i, _)| i % keep == 0).map(|(i, a)| inc::Api { xof: Some(1 + i as u64 % 3), via: false, ..a }).collect();
            v.extend(inc::api_jobs(p, &acc, l, false));
            (v, report::of(&cfg.id, cfg.thorough))
        }
        "C16" => {
            let p = irb::rust_ir("hx", "hx", "", true)?;
            let (acc, j) = tree::contracts(p);
            pre.push(j);
            (tree::cpu_jobs(p, &acc, cfg.thorough), report::of(&cfg.id, cfg.thorough))
        }
        "C12" => {
            let ccs: Vec<irb::Cc> = irb::CCS.to_vec();
            let ps: Vec<Result<&'static ir::Program, String>> = std::thread::scope(|s| {
                let h: Vec<_> = ccs.iter().map(|cc| s.spawn(move || irb::c_ir(*cc, "x", &["cx/hxc.c"]))).collect();
                h.into_iter().map(|h| h.join().unwrap()).collect()
            });
            let (apis, mids) = inc::c_lists(&ccs.iter().map(|x| tree::Plat::C(*x)).collect::<Vec<_>>(), cfg.thorough, cfg.seed);
            let mut v = vec![];
            let (mut c1, mut c2) = (vec![], vec![]);
            for (cc, p) in ccs.iter().zip(ps) {
                let p = p?;
                let plat = tree::Plat::C(*cc);
                let (acc, j) = tree::contracts(p);
                c1.extend(j);
                let form = inc::Form::default();
                c2.extend(inc::form_jobs_on(p, &acc, &form, &[plat]));
                v.extend(inc::api_jobs(p, &acc, apis.iter().filter(|a| a.plat == plat).cloned().collect(), false));
                v.extend(inc::mid_jobs(p, &acc, mids.iter().filter(|a| a.plat == plat).cloned().collect(), &form, false));
            }
            pre.push(c1);
            pre.push(c2);
            (v, report::of(&cfg.id, cfg.thorough))
        }
        "C13" => {
            let ps = progs()?;
            let ll = irb::c_ll(irb::Cc::Avx512, "f", &["cx/layout.c"])?;
            let ffi = irb::rust_ir_with("hx", "hxf", "ffi", true, &ll)?;
            let (acc, j) = tree::contracts(ffi);
            pre.push(j);
            let mut v = mem::ffi_jobs(ffi, &acc, cfg.thorough, cfg.seed);
            v.extend(mem::many_jobs(&ps, ffi, cfg.thorough));
            (v, report::of(&cfg.id, cfg.thorough))
        }
        "C08" => {
            let p = irb::rust_ir("hx", "hx", "", true)?;
            let (acc, j) = tree::contracts(p);
            let mut v = collide::jobs(p, &acc, &collide::RUST, cfg.thorough, cfg.seed);
            let mut pj = j;
            for cc in [irb::Cc::Portable, irb::Cc::Avx512] {
                let p = irb::c_ir(cc, "x", &["cx/hxc.c"])?;
                let (acc, j) = tree::contracts(p);
                pj.extend(j);
                v.extend(collide::jobs(p, &acc, &[tree::Plat::C(cc)], cfg.thorough, cfg.seed));
            }
            pre.push(pj);
            (v, report::of(&cfg.id, cfg.thorough))
        }
        "C09" => {
            let p = irb::rust_ir("hx", "hx", "", true)?;
            (val::jobs(p), report::of(&cfg.id, cfg.thorough))
        }
        "C10" => {
            let ps = progs()?;
            let p = ps.hx;
            let (acc, j) = tree::contracts(p);
            pre.push(ct::all(j));
            let th = cfg.thorough;
            let mut v = val::eq_jobs(p);
            v.extend(kern::compress_jobs(&ps, 32));
            v.extend(kern::compress_jobs(&ps, 64));
            let mut m = kern::many_jobs(&ps, 32, th);
            m.extend(kern::many_jobs(&ps, 64, th));
            // (a fixed offset step makes no difference here)
            m.retain(|j| th || !j.name.contains("step="));
            v.extend(m);
            let ks = move |mode: u8, _: tree::Plat| -> Vec<u64> {
                match (th, mode) {
                    (true, _) => (0..40).collect(),
                    (_, 1) => vec![0, 1, 2, 3, 5, 8, 9, 13, 17],
                    _ => vec![0, 1, 3, 6],
                }
            };
            v.extend(tree::one_jobs(p, &acc, None, &ks));
            let few = move |_: u8, _: tree::Plat| -> Vec<u64> { if th { (0..20).collect() } else { vec![0, 1, 4] } };
            v.extend(tree::one_jobs(p, &acc, Some(3), &few));
            let every = if th { 1 } else { 5 };
            v.extend(tree::stream_jobs(p, &acc, th).into_iter().step_by(every));
            v.extend(inc::api_jobs(p, &acc, inc::api_list(th, cfg.seed).into_iter().step_by(2 * every).collect(), false));
            v.extend(inc::obs_jobs(p, &acc, th, cfg.seed).into_iter().step_by(every));
            let form = inc::Form::default();
            pre.push(ct::all(inc::form_jobs(p, &acc, &form)));
            v.extend(inc::mid_jobs(p, &acc, inc::mid_list(th, cfg.seed).into_iter().step_by(2 * every).collect(), &form, false));
            for cc in [irb::Cc::Portable, irb::Cc::Avx512] {
                let p = irb::c_ir(cc, "x", &["cx/hxc.c"])?;
                let plat = tree::Plat::C(cc);
                let (acc, j) = tree::contracts(p);
                pre[0].extend(ct::all(j));
                let (apis, _) = inc::c_lists(&[plat], th, cfg.seed);
                v.extend(inc::api_jobs(p, &acc, apis.into_iter().step_by(2 * every).collect(), false));
            }
            (ct::all(v), report::of(&cfg.id, cfg.thorough))
        }
        "C11" => {
            let p = irb::rust_ir("hx", "hx", "", true)?;
            let (acc, j) = tree::contracts(p);
            pre.push(j);
            let mut v = copy::jobs(p, cfg.thorough);
            let l = inc::api_list(cfg.thorough, cfg.seed);
            v.extend(inc::api_jobs(p, &acc, l.into_iter().filter(|a| a.via).step_by(if cfg.thorough { 1 } else { 6 }).collect(), false));
            (v, report::of(&cfg.id, cfg.thorough))
        }
        "C15" => {
            let p = irb::rust_ir("hx", "hxr", "rayon", true)?;
            let (acc, j) = tree::contracts(p);
            pre.push(j);
            (par::jobs(p, &acc, cfg.thorough), report::of(&cfg.id, cfg.thorough))
        }
        "C17" => {
            let p = irb::rust_ir("hxref", "hxref", "", true)?;
            let (acc, j) = tree::contracts(p);
            pre.push(j);
            let (j, v) = refi::jobs(p, &acc, cfg.thorough, cfg.seed);
            pre.push(j);
            (v, report::of(&cfg.id, cfg.thorough))
        }
        "C19" | "C20" => {
            let p = irb::rust_ir("hxcli", "hxcli", "", false)?;
            let v = if cfg.id == "C19" { cli::length_jobs(p, cfg.thorough) } else { cli::input_jobs(p, cfg.thorough) };
            (v, report::of(&cfg.id, cfg.thorough))
        }
        x => return Err(format!("no check {}", x)),
    };
    if let Some(o) = &cfg.only {
        jobs.retain(|j| j.name.contains(o.as_str()));
    }
    let mut rs = vec![];
    for j in pre {
        rs.extend(ck::run_jobs(cfg, j));
    }
    eprintln!("{} jobs, built in {:.1}s", jobs.len(), t0.elapsed().as_secs_f64());
    rs.extend(ck::run_jobs(cfg, jobs));
    Ok(ck::finish(cfg, t0, rs, rep))
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|x| x.as_str()) {
        Some("replay-child") => replay::child(&a[1], &a[2], &a[3]),
        Some("replay") => {
            let r = replay::Replay::parse(&std::fs::read_to_string(&a[1]).unwrap());
            let so = replay::build_lib(&r.lib).unwrap();
            println!("{:?}", replay::run(&r, std::path::Path::new(&a[1]), &so));
        }
        Some("check") => {
            let mut cfg = Cfg {
                id: a[1].clone(),
                thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
                seed: std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1),
                only: None,
                verbose: false,
            };
            let mut i = 2;
            while i < a.len() {
                match a[i].as_str() {
                    "-v" => cfg.verbose = true,
                    "--thorough" => cfg.thorough = true,
                    "--only" => {
                        i += 1;
                        cfg.only = Some(a[i].clone());
                    }
                    _ => {}
                }
                i += 1;
            }
            match check(&cfg) {
                Ok(c) => std::process::exit(c),
                Err(e) => {
                    println!("ERROR {}: {}", cfg.id, e);
                    std::process::exit(2)
                }
            }
        }
        _ => {
            eprintln!("usage: symex check <id> [-v] [--thorough] [--only NAME] | replay <file>");
            std::process::exit(2)
        }
    }
}
