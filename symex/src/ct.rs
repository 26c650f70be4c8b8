//! C10: which branches are taken and which addresses are touched must not
//! depend on secrets. The executor records every branch condition and every
//! address that is built from secret bytes; each is compared with a copy of
//! itself over other secrets, under the path condition of both.
use crate::ck::{Job, Jr};
use crate::eqv::{self, RandEnv};
use crate::exec::*;
use crate::replay::Replay;
use crate::smt;
use crate::term::*;

thread_local!(static ON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });

thread_local!(static SAME: std::cell::Cell<Option<T>> = const { std::cell::Cell::new(None) });

/// A value that the two runs may be assumed to share because the function
/// returns it.
pub fn share(t: T) {
    SAME.with(|x| x.set(Some(t)));
}
pub fn on() -> bool {
    ON.with(|x| x.get())
}
/// The job, asked for its timing behaviour and not its results.
pub fn wrap(j: Job) -> Job {
    let f = j.f;
    Job {
        name: format!("timing of {}", j.name),
        f: Box::new(move |jr: &mut Jr| {
            ON.with(|x| x.set(true));
            f(jr)
        }),
    }
}
pub fn all(v: Vec<Job>) -> Vec<Job> {
    v.into_iter().map(wrap).collect()
}

/// Other secrets: array -> its copy, and the renamed terms.
struct Other {
    arrs: FxMap<u32, u32>,
    map: FxMap<T, T>,
}
impl Other {
    fn term(&mut self, t: T) -> T {
        for x in reach(&[t]) {
            if self.map.contains_key(&x) {
                continue;
            }
            let y = match op(x) {
                Op::Arr(a, i, k) if ctx().arrs[*a as usize].secret => {
                    let (a, i, k) = (*a, self.map[i], *k);
                    let b = *self.arrs.entry(a).or_insert_with(|| new_arr("other", true));
                    arr(b, i, k)
                }
                _ => rebuild(x, &self.map),
            };
            self.map.insert(x, y);
        }
        self.map[&t]
    }
}

/// Two runs with equal public values: does `t` differ?
fn real(e1: &RandEnv, e2: &RandEnv, pc: &[T], t: T, same: Option<T>) -> bool {
    if !eqv::holds(e1, pc) || !eqv::holds(e2, pc) {
        return false;
    }
    let (mut a, mut b) = (Eval::new(e1), Eval::new(e2));
    if let Some(s) = same {
        if a.get(s) != b.get(s) {
            return false;
        }
    }
    a.get(t) != b.get(t)
}
fn fix_vars(e: &mut RandEnv) {
    for v in 0..ctx().vars.len() as u32 {
        let x = Env::var(e, v);
        e.vars.insert(v, x);
    }
}

enum Found {
    Never,
    Pair(RandEnv, RandEnv),
    Open(String),
}
fn differs(pc: &[T], t: T, same: Option<T>, seed: u64) -> Found {
    // with luck
    let ms = match eqv::models(pc, 4, seed) {
        Ok(m) => m,
        Err(e) => return Found::Open(e),
    };
    let mut roots = pc.to_vec();
    roots.push(t);
    let bytes: Vec<(u32, T)> = reach(&roots)
        .into_iter()
        .filter_map(|x| match op(x) {
            Op::Arr(a, i, _) if ctx().arrs[*a as usize].secret => Some((*a, *i)),
            _ => None,
        })
        .collect();
    let tries = |n: u64| -> Option<(RandEnv, RandEnv)> {
        for (i, m) in ms.iter().enumerate() {
            let mut e1 = m.clone();
            fix_vars(&mut e1);
            for j in 0..n {
                let r = eqv::mix(seed ^ eqv::mix(j * 8 + i as u64));
                let mut e2 = e1.clone();
                if j % 2 == 0 {
                    e2.seed = r;
                    e2.arrs.clear();
                } else if !bytes.is_empty() {
                    let (a, ix) = bytes[(r % bytes.len() as u64) as usize];
                    let k = Eval::new(&e1).get(ix) as u64;
                    e2.arrs.insert((a, k), (r >> 32) as u8);
                }
                if real(&e1, &e2, pc, t, same) {
                    return Some((e1, e2));
                }
            }
        }
        None
    };
    if let Some((a, b)) = tries(16) {
        return Found::Pair(a, b);
    }
    let mut o = Other { arrs: Default::default(), map: Default::default() };
    let mut q = pc.to_vec();
    for p in pc {
        q.push(o.term(*p));
    }
    let t2 = o.term(t);
    q.push(ne(t, t2));
    if let Some(s) = same {
        let s2 = o.term(s);
        q.push(eq(s, s2));
    }
    if q.iter().any(|x| is_false(*x)) {
        return Found::Never;
    }
    match eqv::model(&q, eqv::mix(seed + 3)) {
        Ok(None) => Found::Never,
        Ok(Some(mut e)) => {
            fix_vars(&mut e);
            let (mut e1, mut e2) = (e.clone(), e.clone());
            let back: FxMap<u32, u32> = o.arrs.iter().map(|(a, b)| (*b, *a)).collect();
            e1.arrs.retain(|k, _| !back.contains_key(&k.0));
            e2.arrs = Default::default();
            for ((a, i), v) in &e.arrs {
                match back.get(a) {
                    Some(b) => e2.arrs.insert((*b, *i), *v),
                    None if !ctx().arrs[*a as usize].secret => e2.arrs.insert((*a, *i), *v),
                    None => None,
                };
            }
            if real(&e1, &e2, pc, t, same) {
                return Found::Pair(e1, e2);
            }
            match tries(1500) {
                Some((a, b)) => Found::Pair(a, b),
                None => Found::Open("depends on a compressed secret, but no pair of inputs was found".into()),
            }
        }
        Err(e) => {
            match tries(1500) {
                Some((a, b)) => Found::Pair(a, b),
                None => Found::Open(e),
            }
        }
    }
}

/// Does this branch leak? Asked when it is reached, so that nothing beyond a
/// leak is explored.
pub fn leaks(st: &State, cnd: T) -> bool {
    matches!(differs(&st.pc, cnd, SAME.with(|x| x.get()), 1), Found::Pair(..))
}
/// None of the recorded branches and addresses depends on secrets.
pub fn clean(pa: &Path, jr: &mut Jr) -> bool {
    pa.st.leaks.iter().enumerate().all(|(i, (t, n, _))| matches!(differs(&pa.st.pc[..*n], *t, None, jr.seed + i as u64), Found::Never))
}

/// Judge the recorded branches and addresses of all paths.
pub fn judge(x: &mut Exec, paths: &[Path], mk: &dyn Fn(&RandEnv) -> Replay, jr: &mut Jr) -> Result<(), String> {
    let same = SAME.with(|x| x.get());
    let mut seen: FxSet<(T, Vec<T>)> = Default::default();
    let mut known: FxMap<T, ()> = Default::default();
    let mut found = 0;
    let mut asked = 0u64;
    for pa in paths {
        match &pa.end {
            End::Unsup(s) => {
                jr.err(s.clone());
                continue;
            }
            End::Ret(_) => {}
            e => jr.notes.push(format!("a path ends with {:?}", e)),
        }
        let mut clean = true;
        for (t, n, w) in &pa.st.leaks {
            if known.contains_key(t) || !seen.insert((*t, pa.st.pc[..*n].to_vec())) {
                continue;
            }
            asked += 1;
            match differs(&pa.st.pc[..*n], *t, same, jr.seed + asked) {
                Found::Never => jr.ok(),
                Found::Pair(a, b) => {
                    clean = false;
                    known.insert(*t, ());
                    found += 1;
                    if found > 2 {
                        continue;
                    }
                    let (r1, r2) = (mk(&a), mk(&b));
                    let mut r = r1.clone();
                    r.env.push(("VX_CT".into(), r1.args.len().to_string()));
                    r.env.push(("VX_SOFT".into(), "1".into()));
                    r.args.extend(r2.args);
                    r.expect.clear();
                    r.odd.clear();
                    r.lib.push_str("+ct");
                    jr.fail(format!("depends on secret data: {}", w), Some(r));
                }
                Found::Open(s) => {
                    clean = false;
                    jr.err(format!("{}: {}", w, s))
                }
            }
        }
        if clean {
            jr.ok();
        }
    }
    if x.secret_forks > SECRET_FORKS && found == 0 {
        jr.err("too many branches on terms built from secrets");
    }
    let _ = smt::solver_bin();
    jr.sample(format!("{} paths, {} secret-derived branches or addresses asked about", paths.len(), asked));
    Ok(())
}
