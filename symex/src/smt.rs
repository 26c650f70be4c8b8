//! SMT-LIB back end: one long-lived solver process per thread.
use crate::term::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub asserts: u64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.queries += o.queries;
        self.sat += o.sat;
        self.unsat += o.unsat;
        self.unknown += o.unknown;
        self.time += o.time;
        self.asserts += o.asserts;
    }
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: FxSet<T>,
    decl_arr: FxSet<u32>,
    decl_uf: FxSet<(u32, u32)>,
    buf: String,
    pub stats: Stats,
    pub timeout_ms: u64,
    used: u64,
}

pub fn solver_bin() -> String {
    std::env::var("SYMEX_SOLVER").unwrap_or_else(|_| {
        for p in ["/opt/veriftools/bin/z3-new", "/usr/local/bin/z3-new", "/usr/bin/z3-new", "z3-new"] {
            if p.starts_with('/') && std::path::Path::new(p).exists() {
                return p.into();
            }
        }
        if Command::new("z3-new").arg("-version").stdout(Stdio::null()).status().is_ok() {
            return "z3-new".into();
        }
        "z3".into()
    })
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Solver {
    pub fn new() -> Solver {
        let bin = solver_bin();
        let mut cmd = Command::new(&bin);
        if bin.contains("cvc5") {
            cmd.args(["--incremental", "--produce-models", "--lang=smt2"]);
        } else {
            cmd.args(["-in", "-smt2"]);
        }
        use std::os::unix::process::CommandExt;
        extern "C" {
            fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32;
        }
        // goes away with the thread that owns it
        unsafe {
            cmd.pre_exec(|| {
                prctl(1, 9, 0, 0, 0);
                Ok(())
            });
        }
        let mut child = cmd
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::inherit())
            .spawn()
            .expect("solver");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Solver {
            child,
            inp,
            out,
            defined: Default::default(),
            decl_arr: Default::default(),
            decl_uf: Default::default(),
            buf: String::new(),
            stats: Default::default(),
            timeout_ms: 20000,
            used: 0,
        };
        s.buf.push_str("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic QF_UFBV)\n");
        s
    }

    fn restart(&mut self) {
        let st = self.stats.clone();
        let to = self.timeout_ms;
        let n = Solver::new();
        *self = n;
        self.stats = st;
        self.timeout_ms = to;
    }

    fn name(t: T) -> String {
        match op(t) {
            Op::Const(v) => bvconst(*v, w(t)),
            Op::Var(v) => format!("|{}|", ctx().vars[*v as usize].name),
            _ => format!("t{}", t.0),
        }
    }

    fn define(&mut self, roots: &[T]) {
        // collect undefined nodes
        let mut st: Vec<T> = roots.to_vec();
        let mut new: Vec<T> = vec![];
        let mut seen: FxSet<T> = Default::default();
        let mut kids = vec![];
        while let Some(t) = st.pop() {
            if self.defined.contains(&t) || !seen.insert(t) {
                continue;
            }
            new.push(t);
            kids.clear();
            children(t, &mut kids);
            st.extend_from_slice(&kids);
        }
        new.sort_unstable();
        let mut assumptions = vec![];
        for t in new {
            self.defined.insert(t);
            let ww = w(t);
            match op(t) {
                Op::Const(_) => continue,
                Op::Var(_) => {
                    self.buf.push_str(&format!("(declare-fun {} () (_ BitVec {}))\n", Self::name(t), ww));
                    let a = var_assumption(t);
                    if !is_true(a) {
                        assumptions.push(a);
                    }
                    continue;
                }
                Op::Arr(a, _, _) => {
                    if self.decl_arr.insert(*a) {
                        self.buf.push_str(&format!(
                            "(declare-fun |{}| ((_ BitVec 64)) (_ BitVec 8))\n",
                            ctx().arrs[*a as usize].name
                        ));
                    }
                }
                Op::Uf(f, _, i) => {
                    if self.decl_uf.insert((*f, *i)) {
                        let u = &ctx().ufs[*f as usize];
                        let args: String = u.argw.iter().map(|x| format!("(_ BitVec {}) ", x)).collect();
                        self.buf.push_str(&format!("(declare-fun |{}.{}| ({}) (_ BitVec {}))\n", u.name, i, args, u.resw));
                    }
                }
                _ => {}
            }
            let e = Self::expr(t);
            self.buf.push_str(&format!("(define-fun t{} () (_ BitVec {}) {})\n", t.0, ww, e));
        }
        if !assumptions.is_empty() {
            self.define(&assumptions);
            for a in assumptions {
                self.buf.push_str(&format!("(assert (= {} #b1))\n", Self::name(a)));
                self.stats.asserts += 1;
            }
        }
    }

    fn expr(t: T) -> String {
        let n = Self::name;
        let ww = w(t);
        let fold = |f: &str, ts: &[T]| {
            let mut s = n(ts[0]);
            for x in &ts[1..] {
                s = format!("({} {} {})", f, s, n(*x));
            }
            s
        };
        match op(t) {
            Op::Const(_) | Op::Var(_) => n(t),
            Op::Arr(a, i, k) => {
                let an = &ctx().arrs[*a as usize].name;
                let one = |j: u8| {
                    if j == 0 {
                        format!("(|{}| {})", an, n(*i))
                    } else {
                        format!("(|{}| (bvadd {} {}))", an, n(*i), bvconst(j as u128, 64))
                    }
                };
                if *k == 1 {
                    one(0)
                } else {
                    let mut s = String::from("(concat");
                    for j in (0..*k).rev() {
                        s.push(' ');
                        s.push_str(&one(j));
                    }
                    s.push(')');
                    s
                }
            }
            Op::Sum(k, ts) => {
                let mut s = String::from("(bvadd");
                let mut cnt = 0;
                for (x, j) in ts.iter() {
                    if *j == 1 {
                        s.push_str(&format!(" {}", n(*x)));
                    } else if *j == mask(ww) {
                        s.push_str(&format!(" (bvneg {})", n(*x)));
                    } else {
                        s.push_str(&format!(" (bvmul {} {})", bvconst(*j, ww), n(*x)));
                    }
                    cnt += 1;
                }
                if *k != 0 || cnt == 1 {
                    s.push_str(&format!(" {}", bvconst(*k, ww)));
                }
                s.push(')');
                s
            }
            Op::Mul(a, b) => format!("(bvmul {} {})", n(*a), n(*b)),
            Op::UDiv(a, b) => format!("(bvudiv {} {})", n(*a), n(*b)),
            Op::URem(a, b) => format!("(bvurem {} {})", n(*a), n(*b)),
            Op::SDiv(a, b) => format!("(bvsdiv {} {})", n(*a), n(*b)),
            Op::SRem(a, b) => format!("(bvsrem {} {})", n(*a), n(*b)),
            Op::And(ts) => fold("bvand", ts),
            Op::Or(ts) => fold("bvor", ts),
            Op::Xor(ts) => fold("bvxor", ts),
            Op::Ext(x, l) => format!("((_ extract {} {}) {})", l + ww - 1, l, n(*x)),
            Op::Cat(ps) => {
                let mut s = String::from("(concat");
                for p in ps.iter().rev() {
                    s.push(' ');
                    s.push_str(&n(*p));
                }
                s.push(')');
                s
            }
            Op::Ite(c, a, b) => format!("(ite (= {} #b1) {} {})", n(*c), n(*a), n(*b)),
            Op::Eq(a, b) => format!("(ite (= {} {}) #b1 #b0)", n(*a), n(*b)),
            Op::Ult(a, b) => format!("(ite (bvult {} {}) #b1 #b0)", n(*a), n(*b)),
            Op::Slt(a, b) => format!("(ite (bvslt {} {}) #b1 #b0)", n(*a), n(*b)),
            Op::Shl(a, b) => format!("(bvshl {} {})", n(*a), n(*b)),
            Op::Lshr(a, b) => format!("(bvlshr {} {})", n(*a), n(*b)),
            Op::Ashr(a, b) => format!("(bvashr {} {})", n(*a), n(*b)),
            Op::Popcnt(a) => {
                let k = w(*a);
                let mut s = String::from("(bvadd");
                for i in 0..k {
                    s.push_str(&format!(" ((_ zero_extend {}) ((_ extract {} {}) {}))", ww - 1, i, i, n(*a)));
                }
                if k == 1 {
                    s.push_str(&format!(" {}", bvconst(0, ww)));
                }
                s.push(')');
                s
            }
            Op::Ctlz(a) => {
                let mut s = bvconst(ww as u128, ww);
                for i in 0..ww {
                    s = format!("(ite (= ((_ extract {} {}) {}) #b1) {} {})", i, i, n(*a), bvconst((ww - 1 - i) as u128, ww), s);
                }
                s
            }
            Op::Cttz(a) => {
                let mut s = bvconst(ww as u128, ww);
                for i in (0..ww).rev() {
                    s = format!("(ite (= ((_ extract {} {}) {}) #b1) {} {})", i, i, n(*a), bvconst(i as u128, ww), s);
                }
                s
            }
            Op::Uf(f, args, i) => {
                let u = &ctx().ufs[*f as usize];
                let mut s = format!("(|{}.{}|", u.name, i);
                for a in args.iter() {
                    s.push(' ');
                    s.push_str(&n(*a));
                }
                s.push(')');
                s
            }
        }
    }

    fn flush(&mut self) {
        let b = std::mem::take(&mut self.buf);
        if let Ok(f) = std::env::var("SYMEX_SMTLOG") {
            use std::fs::OpenOptions;
            let mut fh = OpenOptions::new().create(true).append(true).open(f).unwrap();
            fh.write_all(b.as_bytes()).unwrap();
        }
        self.inp.write_all(b.as_bytes()).expect("solver write");
        self.inp.flush().unwrap();
    }
    fn line(&mut self) -> String {
        let mut s = String::new();
        self.out.read_line(&mut s).expect("solver read");
        s.trim().to_string()
    }

    /// Is the conjunction of `conj` satisfiable (with the global variable
    /// assumptions)? On Sat, values of `want` are returned.
    pub fn check(&mut self, conj: &[T], want: &[T]) -> (Res, Vec<u128>) {
        let t0 = Instant::now();
        self.stats.queries += 1;
        self.used += 1;
        if self.used > 4000 {
            self.restart();
        }
        let mut cs: Vec<T> = vec![];
        for x in conj {
            if is_true(*x) {
                continue;
            }
            if is_false(*x) {
                self.stats.unsat += 1;
                return (Res::Unsat, vec![]);
            }
            cs.push(*x);
        }
        self.define(&cs);
        self.define(want);
        self.buf.push_str(&format!("(push 1)\n(set-option :timeout {})\n", self.timeout_ms));
        for x in &cs {
            self.buf.push_str(&format!("(assert (= {} #b1))\n", Self::name(*x)));
        }
        self.buf.push_str("(check-sat)\n");
        self.flush();
        let mut l = self.line();
        while l.is_empty() {
            l = self.line();
        }
        let mut r = match l.as_str() {
            "sat" => Res::Sat,
            "unsat" => Res::Unsat,
            "unknown" | "timeout" => Res::Unknown,
            e => {
                eprintln!("solver said: {}", e);
                if e.is_empty() {
                    panic!("solver died");
                }
                Res::Unknown
            }
        };
        let mut vals = vec![];
        if r == Res::Sat && !want.is_empty() {
            self.buf.push_str("(get-value (");
            for x in want {
                self.buf.push_str(&Self::name(*x));
                self.buf.push(' ');
            }
            self.buf.push_str("))\n");
            self.flush();
            vals = self.read_values(want.len());
            if vals.len() != want.len() {
                r = Res::Unknown;
            }
        }
        self.buf.push_str("(pop 1)\n");
        match r {
            Res::Sat => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => {
                self.stats.unknown += 1;
                self.restart();
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        if dt > 1.0 && std::env::var("SYMEX_SMTLOG").is_ok() {
            eprintln!("query {} {:?} {:.1}s", self.stats.queries, r, dt);
            for x in &cs {
                eprintln!("    {}", show(*x));
            }
        }
        self.stats.time += dt;
        (r, vals)
    }

    fn read_values(&mut self, n: usize) -> Vec<u128> {
        // ((x #b..) (y #x..))
        let mut depth = 0i32;
        let mut txt = String::new();
        let mut in_bar = false;
        loop {
            let l = self.line();
            for ch in l.chars() {
                if ch == '|' {
                    in_bar = !in_bar;
                }
                if !in_bar {
                    if ch == '(' {
                        depth += 1;
                    }
                    if ch == ')' {
                        depth -= 1;
                    }
                }
            }
            txt.push_str(&l);
            txt.push(' ');
            if depth == 0 {
                break;
            }
        }
        let mut vals = vec![];
        // value is the last token of each inner pair
        let b = txt.as_bytes();
        let mut i = 0;
        let mut lvl = 0;
        let mut last = String::new();
        let mut tok = String::new();
        let mut bar = false;
        while i < b.len() {
            let ch = b[i] as char;
            if ch == '|' {
                bar = !bar;
            }
            if !bar && (ch == '(' || ch == ')' || ch.is_whitespace()) {
                if !tok.is_empty() {
                    last = std::mem::take(&mut tok);
                }
                if ch == '(' {
                    lvl += 1;
                }
                if ch == ')' {
                    if lvl == 2 {
                        if let Some(v) = parse_bv(&last) {
                            vals.push(v);
                        }
                    }
                    lvl -= 1;
                }
            } else {
                tok.push(ch);
            }
            i += 1;
        }
        if vals.len() != n {
            eprintln!("get-value: expected {} got {}: {}", n, vals.len(), &txt[..txt.len().min(400)]);
        }
        vals
    }
}

fn parse_bv(s: &str) -> Option<u128> {
    if let Some(x) = s.strip_prefix("#x") {
        u128::from_str_radix(x, 16).ok()
    } else if let Some(x) = s.strip_prefix("#b") {
        u128::from_str_radix(x, 2).ok()
    } else {
        None
    }
}
pub fn bvconst(v: u128, w: u16) -> String {
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}

thread_local! {
    static SOLVER: std::cell::RefCell<Option<Solver>> = const { std::cell::RefCell::new(None) };
}
pub fn with<R>(f: impl FnOnce(&mut Solver) -> R) -> R {
    SOLVER.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            *s = Some(Solver::new());
        }
        f(s.as_mut().unwrap())
    })
}
pub fn take_stats() -> Stats {
    SOLVER.with(|s| {
        let mut s = s.borrow_mut();
        match s.as_mut() {
            Some(x) => std::mem::take(&mut x.stats),
            None => Default::default(),
        }
    })
}
/// Forget all definitions (needed after term::reset()).
pub fn drop_solver() {
    SOLVER.with(|s| *s.borrow_mut() = None);
}
pub fn check(conj: &[T]) -> Res {
    with(|s| s.check(conj, &[]).0)
}
pub fn check_model(conj: &[T], want: &[T]) -> (Res, Vec<u128>) {
    with(|s| s.check(conj, want))
}
