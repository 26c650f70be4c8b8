//! Symbolic executor for LLVM IR: path forking, byte-addressed objects,
//! bounds and initialisation checks, solver-decided branch feasibility.
use crate::ir::*;
use crate::smt;
use crate::term::{self as t, *};
use std::rc::Rc;

pub type ObjId = u32;

#[derive(Clone, Debug)]
pub enum V {
    T(T),
    P(ObjId, T),
    A(Rc<[V]>),
    U,
}
impl V {
    pub fn t(&self) -> R<T> {
        match self {
            V::T(t) => Ok(*t),
            V::U => Err(Stop::Bad("uninit", "use of an uninitialised or undefined value".into())),
            _ => Err(Stop::Unsup(format!("integer expected, got {:?}", self))),
        }
    }
    pub fn lanes(&self) -> R<Rc<[V]>> {
        match self {
            V::A(v) => Ok(v.clone()),
            _ => Err(Stop::Unsup("aggregate expected".into())),
        }
    }
}
pub fn vt(x: T) -> V {
    V::T(x)
}
pub fn agg(v: Vec<V>) -> V {
    V::A(v.into())
}

#[derive(Debug, Clone)]
pub enum Stop {
    Fork(T),
    Panic(String),
    Bad(&'static str, String),
    Unsup(String),
    /// path infeasible
    Dead,
    /// a summary does not apply here: run the function itself
    Real,
}
pub type R<X> = Result<X, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cell {
    U,
    B(T, u16),
    P(ObjId, T, u8),
}

#[derive(Clone)]
pub struct Obj {
    pub name: Rc<str>,
    pub size: T,
    pub cells: Vec<Cell>,
    pub arr: Option<(u32, T)>,
    pub ro: bool,
    pub func: Option<(&'static str, usize)>,
    pub align: u64,
}

pub struct Model {
    pub vals: FxMap<u32, u128>,
    pub memo: std::cell::RefCell<FxMap<T, u128>>,
}
impl Env for FxMap<u32, u128> {
    fn var(&self, v: u32) -> u128 {
        match self.get(&v) {
            Some(x) => *x,
            None => default_val(v),
        }
    }
    fn arr(&self, _: u32, _: u64) -> u8 {
        0
    }
    fn uf(&self, _: u32, _: &[u128], _: u32) -> u128 {
        0
    }
}
pub fn default_val(v: u32) -> u128 {
    match ctx().var_range.get(&v) {
        Some(&(l, _, z, _)) => {
            let s = 1u128 << z.min(127);
            (l + s - 1) / s * s
        }
        None => 0,
    }
}
impl Model {
    pub fn new(vals: FxMap<u32, u128>) -> Rc<Model> {
        Rc::new(Model { vals, memo: Default::default() })
    }
    pub fn eval(&self, x: T) -> u128 {
        let mut e = Eval::new(&self.vals);
        std::mem::swap(&mut e.memo, &mut self.memo.borrow_mut());
        let r = e.get(x);
        std::mem::swap(&mut e.memo, &mut self.memo.borrow_mut());
        r
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub bb: u32,
    pub ip: u32,
    pub prev: u32,
    pub l: Vec<V>,
    pub dst: Option<u32>,
    pub next: Option<u32>,
    pub objs: Vec<ObjId>,
}

#[derive(Clone, Debug)]
pub struct Access {
    pub obj: ObjId,
    pub off: T,
    pub len: T,
    pub write: bool,
    /// which join branch we are in: (join id, side) innermost last
    pub task: Rc<Vec<(u32, u8)>>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: FxMap<ObjId, Rc<Obj>>,
    pub pc: Vec<T>,
    pub known: FxMap<T, bool>,
    pub model: Rc<Model>,
    pub next_obj: u32,
    pub log: Option<Vec<Access>>,
    pub task: Rc<Vec<(u32, u8)>>,
    pub njoin: u32,
    pub join_mark: Vec<u32>,
    /// the running thread, and those of the enclosing joins
    pub thread: u32,
    pub threads: Vec<u32>,
    /// secret-dependent branch conditions / addresses seen (term, pc length, what)
    pub leaks: Vec<(T, usize, String)>,
    /// free-form events appended by stubs
    pub events: Vec<(String, Vec<V>)>,
    pub depth: u32,
    pub steps: u64,
    /// values kept by stubs
    pub regs: FxMap<u32, T>,
    pub pins: FxMap<T, (Option<u128>, usize)>,
}

#[derive(Debug, Clone)]
pub enum End {
    Ret(V),
    Panic(String),
    Bad(&'static str, String),
    Unsup(String),
}
pub struct Path {
    pub st: State,
    pub end: End,
}

pub type Stub = fn(&mut Exec, &mut State, &str, &[V]) -> R<V>;

#[derive(Default, Clone, Debug)]
pub struct XStats {
    pub steps: u64,
    pub forks: u64,
    pub paths: u64,
    pub decided_by_model: u64,
    pub bounds_checks: u64,
    pub funcs: std::collections::BTreeMap<String, u64>,
    pub stubbed: std::collections::BTreeMap<String, u64>,
}

pub struct Exec {
    pub p: &'static Program,
    pub globals: FxMap<ObjId, Rc<Obj>>,
    gids: std::collections::HashMap<(usize, String), ObjId>,
    pub bases: FxMap<(ObjId, u64), T>,
    base_of: FxMap<T, ObjId>,
    next_gid: u32,
    pub stubs: Vec<(Box<dyn Fn(&str) -> bool>, Stub, &'static str)>,
    stub_cache: std::collections::HashMap<String, Option<usize>>,
    pub stats: XStats,
    pub max_steps: u64,
    pub max_paths: u64,
    pub errors_end_paths: bool,
    pub track_leaks: bool,
    /// forks on terms built from secrets, while these are tracked
    pub secret_forks: u64,
    /// feature name -> term that says it was detected
    pub features: Option<FxMap<&'static str, T>>,
    pub cur_line: u32,
    pub deadline: Option<std::time::Instant>,
    /// thread-local globals
    pub tls: FxMap<ObjId, ()>,
    /// copies of these in threads other than the first
    tls_copy: FxMap<(ObjId, u32), ObjId>,
    /// calls carried out by another function, with these arguments
    pub redirect: Vec<(Box<dyn Fn(&str) -> bool>, &'static str, Vec<usize>)>,
}

/// Paths end at such forks beyond these.
pub const SECRET_FORKS: u64 = 12;
const GBASE: u32 = 0x4000_0000;

impl Exec {
    pub fn new(p: &'static Program) -> Exec {
        Exec {
            p,
            globals: Default::default(),
            gids: Default::default(),
            bases: Default::default(),
            base_of: Default::default(),
            next_gid: GBASE,
            stubs: vec![],
            stub_cache: Default::default(),
            stats: Default::default(),
            max_steps: 200_000_000,
            max_paths: 2_000_000,
            errors_end_paths: true,
            track_leaks: crate::ct::on(),
            secret_forks: 0,
            features: None,
            cur_line: 0,
            deadline: None,
            tls: Default::default(),
            tls_copy: Default::default(),
            redirect: vec![],
        }
    }
    pub fn state(&self) -> State {
        State {
            frames: vec![],
            mem: Default::default(),
            pc: vec![],
            known: Default::default(),
            model: Model::new(Default::default()),
            next_obj: 1,
            log: None,
            task: Rc::new(vec![]),
            njoin: 0,
            join_mark: vec![],
            thread: 0,
            threads: vec![],
            leaks: vec![],
            events: vec![],
            depth: 0,
            steps: 0,
            regs: Default::default(),
            pins: Default::default(),
        }
    }
    pub fn stub(&mut self, pat: impl Fn(&str) -> bool + 'static, f: Stub, name: &'static str) {
        self.stubs.push((Box::new(pat), f, name));
    }

    // ---------------------------------------------------------- solver glue

    /// Values of all variables of the pc in a model of conj (with pc).
    pub fn solve(&self, conj: &[T]) -> R<Option<Rc<Model>>> {
        let mut vars = vec![];
        for x in reach(conj) {
            if let Op::Var(_) = op(x) {
                vars.push(x)
            }
        }
        match smt::check_model(conj, &vars) {
            (smt::Res::Unsat, _) => Ok(None),
            (smt::Res::Sat, vals) => {
                let mut m: FxMap<u32, u128> = Default::default();
                for (x, v) in vars.iter().zip(vals) {
                    if let Op::Var(i) = op(*x) {
                        m.insert(*i, v);
                    }
                }
                Ok(Some(Model::new(m)))
            }
            _ => Err(Stop::Unsup("solver gave no answer".into())),
        }
    }
    /// Add an assumption; false if it makes the path infeasible.
    pub fn assume(&self, st: &mut State, c: T) -> R<bool> {
        if is_true(c) {
            return Ok(true);
        }
        if is_false(c) {
            return Ok(false);
        }
        let mut conj = st.pc.clone();
        conj.push(c);
        if !opaque(c) && st.model.eval(c) == 1 {
            st.pc.push(c);
            st.known.insert(c, true);
            return Ok(true);
        }
        match self.solve(&conj)? {
            None => Ok(false),
            Some(m) => {
                st.pc.push(c);
                st.known.insert(c, true);
                st.model = m;
                Ok(true)
            }
        }
    }
    /// Truth value of c on this path, if the path determines it; otherwise
    /// asks for a fork.
    pub fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(v) = cst(c) {
            return Ok(v == 1);
        }
        if let Some(v) = st.known.get(&c) {
            return Ok(*v);
        }
        if let Some(v) = st.known.get(&not(c)) {
            return Ok(!*v);
        }
        let mut conj = st.pc.clone();
        let v = if opaque(c) {
            conj.push(c);
            let r = self.solve(&conj)?;
            conj.pop();
            r.is_some()
        } else {
            self.stats.decided_by_model += 1;
            st.model.eval(c) == 1
        };
        conj.push(if v { not(c) } else { c });
        if self.solve(&conj)?.is_none() {
            st.known.insert(c, v);
            return Ok(v);
        }
        Err(Stop::Fork(c))
    }
    /// Does the path imply c? (never forks)
    pub fn implied(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(v) = cst(c) {
            return Ok(v == 1);
        }
        if let Some(v) = st.known.get(&c) {
            return Ok(*v);
        }
        if !opaque(c) && st.model.eval(c) == 0 {
            return Ok(false);
        }
        let mut conj = st.pc.clone();
        conj.push(not(c));
        let r = self.solve(&conj)?.is_none();
        if r {
            st.known.insert(c, true);
        }
        Ok(r)
    }

    // ---------------------------------------------------------- objects

    pub fn new_obj(&self, st: &mut State, name: &str, size: u64, align: u64) -> ObjId {
        let id = st.next_obj;
        st.next_obj += 1;
        st.mem.insert(
            id,
            Rc::new(Obj {
                name: name.into(),
                size: c64(size),
                cells: vec![Cell::U; size as usize],
                arr: None,
                ro: false,
                func: None,
                align,
            }),
        );
        id
    }
    /// Read-only object of (possibly symbolic) size whose byte i is arr[base+i].
    pub fn arr_obj(&self, st: &mut State, name: &str, a: u32, base: T, size: T, align: u64) -> ObjId {
        let id = st.next_obj;
        st.next_obj += 1;
        st.mem.insert(
            id,
            Rc::new(Obj { name: name.into(), size, cells: vec![], arr: Some((a, base)), ro: true, func: None, align }),
        );
        id
    }
    pub fn bytes_obj(&self, st: &mut State, name: &str, bytes: &[T], align: u64) -> ObjId {
        let id = self.new_obj(st, name, bytes.len() as u64, align);
        let o = Rc::make_mut(st.mem.get_mut(&id).unwrap());
        for (i, b) in bytes.iter().enumerate() {
            o.cells[i] = Cell::B(*b, 0);
        }
        id
    }
    pub fn base(&mut self, st: &State, o: ObjId) -> T {
        // paths number their objects alike, so one number can stand for
        // objects of different alignment
        let al = match self.obj(st, o) {
            Ok(x) => x.align.max(1),
            Err(_) => self.bases.keys().filter(|k| k.0 == o).map(|k| k.1).min().unwrap_or(1),
        };
        if let Some(b) = self.bases.get(&(o, al)) {
            return *b;
        }
        let z = al.trailing_zeros() as u8;
        // every object lives in a region of its own, at an arbitrary place in it
        let k = (self.bases.len() as u128 + 1) << 33;
        let b = var_r("base", 64, k, k + (1 << 32), z, false);
        self.bases.insert((o, al), b);
        self.base_of.insert(b, o);
        b
    }
    pub fn obj<'a>(&'a self, st: &'a State, o: ObjId) -> R<&'a Rc<Obj>> {
        if let Some(x) = st.mem.get(&o) {
            return Ok(x);
        }
        if let Some(x) = self.globals.get(&o) {
            return Ok(x);
        }
        Err(Stop::Bad("dangling", format!("access through null or dangling pointer (object {})", o)))
    }
    fn obj_mut<'a>(&self, st: &'a mut State, o: ObjId) -> R<&'a mut Obj> {
        if !st.mem.contains_key(&o) {
            match self.globals.get(&o) {
                Some(g) => {
                    st.mem.insert(o, g.clone());
                }
                None => return Err(Stop::Bad("dangling", format!("write through dangling pointer (object {})", o))),
            }
        }
        Ok(Rc::make_mut(st.mem.get_mut(&o).unwrap()))
    }

    fn global(&mut self, module: usize, name: &str) -> R<ObjId> {
        let key = (module, name.to_string());
        if let Some(i) = self.gids.get(&key) {
            return Ok(*i);
        }
        // canonical owner
        let (owner, id);
        if let Some(f) = self.p.func(module, name) {
            owner = (f.module, name.to_string());
            if let Some(i) = self.gids.get(&owner) {
                let i = *i;
                self.gids.insert(key, i);
                return Ok(i);
            }
            id = self.next_gid;
            self.next_gid += 1;
            let nm: &'static str = &f.name;
            self.globals.insert(
                id,
                Rc::new(Obj {
                    name: name.into(),
                    size: c64(0),
                    cells: vec![],
                    arr: None,
                    ro: true,
                    func: Some((nm, f.module)),
                    align: 16,
                }),
            );
        } else if let Some(g) = self.p.global(module, name) {
            owner = (if g.init.is_some() { g.module } else { usize::MAX }, name.to_string());
            if let Some(i) = self.gids.get(&owner) {
                let i = *i;
                self.gids.insert(key, i);
                return Ok(i);
            }
            id = self.next_gid;
            self.next_gid += 1;
            self.gids.insert(owner.clone(), id);
            let n = alloc_size(g.ty);
            let mut o = Obj {
                name: name.into(),
                size: c64(n),
                cells: vec![Cell::U; n as usize],
                arr: None,
                ro: g.constant,
                func: None,
                align: g.align,
            };
            if let Some(init) = &g.init {
                self.init_cells(&mut o.cells, 0, g.ty, init, g.module)?;
            } else {
                // unknown external data: zero (e.g. an unfilled cache)
                for x in o.cells.iter_mut() {
                    *x = Cell::B(c(0, 8), 0)
                }
            }
            if g.tls {
                self.tls.insert(id, ());
            }
            self.globals.insert(id, Rc::new(o));
        } else {
            // undefined function
            owner = (usize::MAX, name.to_string());
            id = self.next_gid;
            self.next_gid += 1;
            let nm: &'static str = Box::leak(name.to_string().into_boxed_str());
            self.globals.insert(
                id,
                Rc::new(Obj {
                    name: name.into(),
                    size: c64(0),
                    cells: vec![],
                    arr: None,
                    ro: true,
                    func: Some((nm, module)),
                    align: 16,
                }),
            );
        }
        self.gids.insert(owner, id);
        self.gids.insert(key, id);
        Ok(id)
    }

    fn init_cells(&mut self, cells: &mut [Cell], off: usize, ty: TyR, c0: &Const, module: usize) -> R<()> {
        match (c0, ty) {
            (Const::Zero, _) => {
                for x in &mut cells[off..off + alloc_size(ty) as usize] {
                    *x = Cell::B(c(0, 8), 0);
                }
            }
            (Const::Undef, _) => {}
            (Const::Bytes(b), _) => {
                for (i, x) in b.iter().enumerate() {
                    cells[off + i] = Cell::B(c(*x as u128, 8), 0);
                }
            }
            (Const::Agg(v), _) => {
                for (i, (ety, ec)) in v.iter().enumerate() {
                    let (fo, _) = field_off(ty, i);
                    self.init_cells(cells, off + fo as usize, ety, ec, module)?;
                }
            }
            (Const::Splat(x, ety), Ty::Vec(n, _)) => {
                for i in 0..*n as usize {
                    self.init_cells(cells, off + i * store_size(ety) as usize, ety, x, module)?;
                }
            }
            (Const::Float(_), _) => {}
            _ => {
                let v = self.cval(module, c0, ty)?;
                put_cells(cells, off, &v, ty)?;
            }
        }
        Ok(())
    }

    pub fn cval(&mut self, module: usize, k: &Const, ty: TyR) -> R<V> {
        Ok(match k {
            Const::Int(v) => match ty {
                Ty::Int(w) => vt(c(*v, *w)),
                _ => return Err(Stop::Unsup(format!("int const of {:?}", ty))),
            },
            Const::Null => V::P(0, c64(0)),
            Const::Undef => undef(ty),
            Const::Zero => zero(ty)?,
            Const::Splat(x, ety) => {
                let v = self.cval(module, x, ety)?;
                match ty {
                    Ty::Vec(n, _) => agg(vec![v; *n as usize]),
                    _ => return Err(Stop::Unsup("splat".into())),
                }
            }
            Const::Agg(v) => {
                let mut r = vec![];
                for (et, ec) in v {
                    r.push(self.cval(module, ec, et)?);
                }
                agg(r)
            }
            Const::Bytes(b) => agg(b.iter().map(|x| vt(c(*x as u128, 8))).collect()),
            Const::Global(n) => V::P(self.global(module, n)?, c64(0)),
            Const::Gep(bt, b, ix) => {
                let p = self.cval(module, &b.1, b.0)?;
                let mut iv = vec![];
                for (it, ic) in ix {
                    iv.push(self.cval(module, ic, it)?);
                }
                self.gep(bt, &p, &iv)?
            }
            Const::Cast(kind, x, to) => {
                let v = self.cval(module, &x.1, x.0)?;
                let st = self.state();
                self.cast(&st, kind, &v, x.0, to)?
            }
            Const::Bin(o, a, b) => {
                let x = self.cval(module, &a.1, a.0)?.t()?;
                let y = self.cval(module, &b.1, b.0)?.t()?;
                vt(match o.as_str() {
                    "add" => add(x, y),
                    "sub" => sub(x, y),
                    _ => xor2(x, y),
                })
            }
            Const::Float(_) => return Err(Stop::Unsup("float".into())),
            Const::Meta => V::U,
        })
    }

    // ---------------------------------------------------------- memory

    fn touch(&mut self, st: &mut State, o: ObjId, off: T, len: T, write: bool) -> R<()> {
        if self.track_leaks {
            for (t, k) in [(off, "address"), (len, "length")] {
                if secret(t) {
                    let n = st.pc.len();
                    let w = self.wher(st);
                    st.leaks.push((t, n, format!("{} at {}", k, w)));
                    if crate::ct::leaks(st, t) {
                        return Err(Stop::Panic("secret address".into()));
                    }
                }
            }
        }
        if let Some(l) = &mut st.log {
            // inside a join: objects older than it, and mutable globals
            if !st.task.is_empty() && (o < *st.join_mark.last().unwrap_or(&0) || (o >= GBASE && !self.tls.contains_key(&o))) {
                l.push(Access { obj: o, off, len, write, task: st.task.clone() });
            }
        }
        let _ = write;
        Ok(())
    }
    /// off + len must lie within the object.
    fn bounds(&mut self, st: &mut State, o: ObjId, off: T, len: T, write: bool) -> R<()> {
        self.stats.bounds_checks += 1;
        let (size, ro, name) = {
            let ob = self.obj(st, o)?;
            if ob.func.is_some() {
                return Err(Stop::Bad("bounds", format!("data access to function {}", ob.name)));
            }
            (ob.size, ob.ro, ob.name.clone())
        };
        if write && ro {
            return Err(Stop::Bad("readonly", format!("write to read-only object {}", name)));
        }
        let ok = match (cst(off), cst(len), cst(size)) {
            (Some(a), Some(b), Some(s)) => a + b <= s,
            _ => {
                // len <= size and off <= size - len
                let cnd = and2(ule(len, size), ule(off, sub(size, len)));
                self.implied(st, cnd)?
            }
        };
        if !ok {
            // make the violating inputs part of the path
            let cnd = not(and2(ule(len, size), ule(off, sub(size, len))));
            let _ = self.assume(st, cnd)?;
            return Err(Stop::Bad(
                "bounds",
                format!(
                    "{} of {} bytes at offset {} of object {} (size {})",
                    if write { "write" } else { "read" },
                    show(len),
                    show(off),
                    name,
                    show(size)
                ),
            ));
        }
        self.touch(st, o, off, len, write)
    }

    /// Vector accesses fault when they are not aligned as the instruction says.
    fn aligned(&mut self, st: &mut State, p: &V, ty: TyR, al: u64) -> R<()> {
        if al < 16 || !matches!(ty, Ty::Vec(..)) {
            return Ok(());
        }
        if let V::P(o, off) = p {
            let ob = self.obj(st, *o)?;
            let (have, name) = (ob.align, ob.name.clone());
            let low = |t: T| eq(and2(t, c64(al - 1)), c64(0));
            if have < al || !(tz(*off) >= al.trailing_zeros() || self.implied(st, low(*off))?) {
                return Err(Stop::Bad("align", format!("access with alignment {} to object {} (alignment {}) at offset {}", al, name, have, show(*off))));
            }
        }
        Ok(())
    }

    pub fn cell(&self, ob: &Obj, i: usize) -> Cell {
        if let Some((a, b)) = ob.arr {
            return Cell::B(arr(a, addc(b, i as u64), 1), 0);
        }
        ob.cells[i]
    }

    fn load_cells(&self, ob: &Obj, off: usize, n: usize) -> Vec<Cell> {
        if ob.arr.is_some() {
            return (0..n).map(|k| self.cell(ob, off + k)).collect();
        }
        ob.cells[off..off + n].to_vec()
    }

    pub fn load(&mut self, st: &mut State, p: &V, ty: TyR) -> R<V> {
        match ty {
            Ty::Vec(n, e) => {
                let es = size_bits(e);
                if es % 8 != 0 {
                    return Err(Stop::Unsup("sub-byte vector load".into()));
                }
                let (o, off) = self.ptr(st, p)?;
                self.bounds(st, o, off, c64(store_size(ty)), false)?;
                let mut v = vec![];
                for i in 0..*n as u64 {
                    v.push(self.load_scalar(st, o, addc(off, i * es / 8), e)?);
                }
                Ok(agg(v))
            }
            Ty::Struct(es, _) => {
                let mut v = vec![];
                for i in 0..es.len() {
                    let (fo, ft) = field_off(ty, i);
                    let q = self.padd(p, fo)?;
                    v.push(self.load(st, &q, ft)?);
                }
                Ok(agg(v))
            }
            Ty::Arr(n, _) => {
                let mut v = vec![];
                for i in 0..*n as usize {
                    let (fo, ft) = field_off(ty, i);
                    let q = self.padd(p, fo)?;
                    v.push(self.load(st, &q, ft)?);
                }
                Ok(agg(v))
            }
            _ => {
                let (o, off) = self.ptr(st, p)?;
                self.bounds(st, o, off, c64(store_size(ty)), false)?;
                self.load_scalar(st, o, off, ty)
            }
        }
    }
    pub fn padd(&self, p: &V, n: u64) -> R<V> {
        match p {
            V::P(o, off) => Ok(V::P(*o, addc(*off, n))),
            _ => Err(Stop::Unsup("pointer expected".into())),
        }
    }
    /// The single value x can have on this path, if the solver says there is
    /// only one; x itself otherwise.
    pub fn pin(&mut self, st: &mut State, x: T) -> R<T> {
        if cst(x).is_some() || opaque(x) {
            return Ok(x);
        }
        let (k, s) = match op(x) {
            Op::Sum(k, ts) => (*k, sum_lin(0, ts, w(x))),
            _ => (0, x),
        };
        match st.pins.get(&s) {
            Some((Some(v), _)) => return Ok(c(v.wrapping_add(k) & mask(w(x)), w(x))),
            Some((None, n)) if *n == st.pc.len() => return Ok(x),
            _ => {}
        }
        let v = st.model.eval(s);
        let e = eq(s, c(v, w(s)));
        let r = if is_true(e) { true } else { self.implied(st, e)? };
        st.pins.insert(s, (if r { Some(v) } else { None }, st.pc.len()));
        Ok(if r { c(v.wrapping_add(k) & mask(w(x)), w(x)) } else { x })
    }
    fn ptr(&mut self, st: &mut State, p: &V) -> R<(ObjId, T)> {
        match p {
            V::P(o, off) => {
                let off = self.pin(st, *off)?;
                Ok((*o, off))
            }
            V::U => Err(Stop::Bad("uninit", "use of undefined pointer".into())),
            _ => Err(Stop::Unsup("pointer expected".into())),
        }
    }
    fn load_scalar(&mut self, st: &mut State, o: ObjId, off: T, ty: TyR) -> R<V> {
        let n = store_size(ty) as usize;
        let ob = self.obj(st, o)?.clone();
        if let Some((a, b)) = ob.arr {
            return match ty {
                Ty::Int(w) => {
                    let x = arr(a, add(b, off), n as u8);
                    Ok(vt(trunc(x, *w)))
                }
                _ => Err(Stop::Unsup("pointer load from input".into())),
            };
        }
        if let Some(k) = cst(off) {
            return join_cells(&ob.cells[k as usize..k as usize + n], ty);
        }
        // symbolic offset: choose among the possible positions
        let step = 1usize << tz(off).min(12);
        let lo_ = lo(off) as usize;
        let top = (ob.cells.len() - n).min(hi(off).min(usize::MAX as u128) as usize);
        let mut r: Option<V> = None;
        let mut k = (lo_ + step - 1) / step * step;
        let mut ks = vec![];
        while k <= top {
            ks.push(k);
            k += step;
        }
        if ks.len() > 4096 {
            return Err(Stop::Unsup("symbolic read over a large object".into()));
        }
        for k in ks.into_iter().rev() {
            let v = join_cells(&ob.cells[k..k + n], ty)?;
            r = Some(match r {
                None => v,
                Some(r) => match (v, r) {
                    (V::T(a), V::T(b)) => vt(ite(eq(off, c64(k as u64)), a, b)),
                    (V::U, r) => {
                        // uninitialised unless proven otherwise
                        let e = ne(off, c64(k as u64));
                        if self.implied(st, e)? {
                            r
                        } else {
                            V::U
                        }
                    }
                    (v, V::U) => {
                        let e = eq(off, c64(k as u64));
                        if self.implied(st, e)? {
                            v
                        } else {
                            V::U
                        }
                    }
                    _ => return Err(Stop::Unsup("symbolic pointer load".into())),
                },
            });
        }
        r.ok_or(Stop::Unsup("no position for symbolic read".into()))
    }

    pub fn store(&mut self, st: &mut State, p: &V, v: &V, ty: TyR) -> R<()> {
        let (o, off) = self.ptr(st, p)?;
        let n = store_size(ty) as usize;
        self.bounds(st, o, off, c64(n as u64), true)?;
        let mut cs = vec![Cell::U; alloc_size(ty) as usize];
        // undefined padding keeps whatever was there; fine to mark as undefined
        put_cells(&mut cs, 0, v, ty)?;
        cs.truncate(n);
        self.write_cells(st, o, off, &cs)
    }

    fn write_cells(&mut self, st: &mut State, o: ObjId, off: T, cs: &[Cell]) -> R<()> {
        if let Some(k) = cst(off) {
            let ob = self.obj_mut(st, o)?;
            ob.cells[k as usize..k as usize + cs.len()].copy_from_slice(cs);
            return Ok(());
        }
        let ob = self.obj(st, o)?.clone();
        let n = cs.len();
        let size = ob.cells.len();
        let lo_ = lo(off) as usize;
        let top = (size - n).min(hi(off).min(usize::MAX as u128) as usize);
        let step = 1usize << tz(off).min(12);
        let mut new = ob.cells.clone();
        for j in lo_..(top + n).min(size) {
            for k in 0..n {
                // byte j receives cs[k] if off == j-k
                if j < k || j - k < lo_ || j - k > top || (j - k) % step != 0 {
                    continue;
                }
                let cnd = eq(off, c64((j - k) as u64));
                new[j] = ite_cell(cnd, cs[k], new[j])?;
            }
        }
        let ob = self.obj_mut(st, o)?;
        ob.cells = new;
        Ok(())
    }

    pub fn memset(&mut self, st: &mut State, p: &V, b: T, n: T) -> R<()> {
        if cst(n) == Some(0) {
            return Ok(());
        }
        let n = self.pin(st, n)?;
        if cst(n) == Some(0) {
            return Ok(());
        }
        let (o, off) = self.ptr(st, p)?;
        self.bounds_maybe_empty(st, o, off, n, true)?;
        self.sym_copy(st, o, off, n, &mut |_, _| Ok(Cell::B(b, 0)))
    }
    pub fn bounds_maybe_empty(&mut self, st: &mut State, o: ObjId, off: T, n: T, write: bool) -> R<()> {
        if cst(n).is_none() && lo(n) == 0 && o == 0 {
            // a dangling pointer is fine only with length zero
            let z = eq(n, c64(0));
            if self.decide(st, z)? {
                return Ok(());
            }
        }
        self.bounds(st, o, off, n, write)
    }
    /// dst[off + i] = f(i) for i < n; f gets the index as a term, and as a
    /// number when both off and n are concrete.
    fn sym_copy(
        &mut self,
        st: &mut State,
        o: ObjId,
        off: T,
        n: T,
        f: &mut dyn FnMut(T, Option<usize>) -> R<Cell>,
    ) -> R<()> {
        if let (Some(a), Some(k)) = (cst(off), cst(n)) {
            let mut v = Vec::with_capacity(k as usize);
            for i in 0..k as usize {
                v.push(f(c64(i as u64), Some(i))?);
            }
            let ob = self.obj_mut(st, o)?;
            ob.cells[a as usize..a as usize + k as usize].copy_from_slice(&v);
            return Ok(());
        }
        let ob = self.obj(st, o)?.clone();
        let size = ob.cells.len();
        let mut new = ob.cells.clone();
        let end_t = add(off, n);
        let lo_ = lo(off).min(size as u128) as usize;
        let mut end = hi(off).saturating_add(hi(n)).min(size as u128) as usize;
        if end - lo_ > 64 {
            // the ranges are coarse: what the path says about the end
            let (mut a, mut b) = (st.model.eval(end_t) as usize, end);
            while a < b {
                let m = (a + b) / 2;
                if self.implied(st, ule(end_t, c64(m as u64)))? {
                    b = m;
                } else {
                    a = m + 1;
                }
            }
            end = b;
        }
        for j in lo_..end {
            let jt = c64(j as u64);
            let idx = sub(jt, off);
            // off <= j < off + n; the bounds check has shown that the sum
            // does not wrap
            let cnd = and2(ule(off, jt), ult(jt, end_t));
            if is_false(cnd) {
                continue;
            }
            let old = new[j];
            // extending a prefix: (j < off ? a : b) becomes
            // (j < off+n ? (j < off ? a : x) : b)
            if let Cell::B(t, k) = old {
                if let Op::Ite(d, a, b) = *op(ext(t, 8 * k, 8)) {
                    if d == ult(jt, off) {
                        if let Cell::B(na, nk) = f(idx, cst(idx).map(|x| x as usize))? {
                            new[j] = Cell::B(ite(ult(jt, end_t), ite(d, a, ext(na, 8 * nk, 8)), b), 0);
                            continue;
                        }
                    }
                }
            }
            new[j] = match f(idx, cst(idx).map(|x| x as usize)) {
                Ok(x) => ite_cell_guard(self, st, cnd, x, old)?,
                Err(e) => return Err(e),
            };
        }
        let ob = self.obj_mut(st, o)?;
        ob.cells = new;
        Ok(())
    }
    pub fn memcpy(&mut self, st: &mut State, d: &V, s: &V, n: T) -> R<()> {
        if cst(n) == Some(0) {
            return Ok(());
        }
        let n = self.pin(st, n)?;
        if cst(n) == Some(0) {
            return Ok(());
        }
        let (dobj, doff) = self.ptr(st, d)?;
        let (sobj, soff) = self.ptr(st, s)?;
        if cst(n).is_none() && lo(n) == 0 && (dobj == 0 || sobj == 0) {
            let z = eq(n, c64(0));
            if self.decide(st, z)? {
                return Ok(());
            }
        }
        self.bounds(st, sobj, soff, n, false)?;
        self.bounds(st, dobj, doff, n, true)?;
        let so = self.obj(st, sobj)?.clone();
        if let Some((a, b)) = so.arr {
            let base = add(b, soff);
            return self.sym_copy(st, dobj, doff, n, &mut |i, _| Ok(Cell::B(arr(a, add(base, i), 1), 0)));
        }
        let slen = so.cells.len();
        self.sym_copy(st, dobj, doff, n, &mut |i, _| {
            let pos = add(soff, i);
            if let Some(k) = cst(pos) {
                return Ok(if (k as usize) < slen { so.cells[k as usize] } else { Cell::U });
            }
            let l = lo(pos).min(slen as u128) as usize;
            let h = hi(pos).min(slen as u128 - 1) as usize;
            let step = 1usize << tz(pos).min(12);
            let mut r: Option<Cell> = None;
            let mut k = (l + step - 1) / step * step;
            let mut ks = vec![];
            while k <= h {
                ks.push(k);
                k += step;
            }
            for k in ks.into_iter().rev() {
                r = Some(match r {
                    None => so.cells[k],
                    Some(r) => ite_cell(eq(pos, c64(k as u64)), so.cells[k], r)?,
                });
            }
            r.ok_or(Stop::Unsup("symbolic copy".into()))
        })
    }

    // ---------------------------------------------------------- values

    fn gep(&mut self, bt: TyR, p: &V, ix: &[V]) -> R<V> {
        if let V::A(l) = p {
            let _ = l;
            return Err(Stop::Unsup("vector gep".into()));
        }
        let V::P(o, mut off) = *p else {
            return match p {
                V::U => Ok(V::U),
                _ => Err(Stop::Unsup("gep base".into())),
            };
        };
        let mut ty = bt;
        for (k, iv) in ix.iter().enumerate() {
            let i = iv.t()?;
            let i = sext(i, 64);
            if k == 0 {
                off = add(off, mul(i, c64(alloc_size(ty))));
            } else {
                match ty {
                    Ty::Struct(..) => {
                        let n = cst(i).ok_or(Stop::Unsup("struct index".into()))? as usize;
                        let (fo, ft) = field_off(ty, n);
                        off = addc(off, fo);
                        ty = ft;
                    }
                    Ty::Arr(_, e) => {
                        off = add(off, mul(i, c64(alloc_size(e))));
                        ty = e;
                    }
                    Ty::Vec(_, e) => {
                        off = add(off, mul(i, c64(store_size(e))));
                        ty = e;
                    }
                    _ => return Err(Stop::Unsup("gep type".into())),
                }
            }
        }
        Ok(V::P(o, off))
    }

    fn cast(&mut self, st: &State, kind: &str, v: &V, from: TyR, to: TyR) -> R<V> {
        if matches!(v, V::U) {
            return Ok(undef(to));
        }
        match kind {
            "zext" | "sext" | "trunc" => {
                if let (V::A(l), Ty::Vec(_, fe), Ty::Vec(_, te)) = (v, from, to) {
                    let mut r = vec![];
                    for x in l.iter() {
                        r.push(self.cast(st, kind, x, fe, te)?);
                    }
                    return Ok(agg(r));
                }
                let Ty::Int(w) = to else { return Err(Stop::Unsup("cast".into())) };
                let x = v.t()?;
                Ok(vt(match kind {
                    "zext" => zext(x, *w),
                    "sext" => sext(x, *w),
                    _ => trunc(x, *w),
                }))
            }
            "ptrtoint" | "ptrtoaddr" => match v {
                V::P(o, off) => {
                    let Ty::Int(w) = to else { return Err(Stop::Unsup("ptrtoint".into())) };
                    let b = if *o == 0 { *off } else { add(self.base(st, *o), *off) };
                    Ok(vt(if *w <= 64 { trunc(b, *w) } else { zext(b, *w) }))
                }
                _ => Err(Stop::Unsup("ptrtoint".into())),
            },
            "inttoptr" => {
                let x = v.t()?;
                let x = if w(x) < 64 { zext(x, 64) } else { trunc(x, 64) };
                if let Some(o) = self.base_of.get(&x) {
                    return Ok(V::P(*o, c64(0)));
                }
                if let Op::Sum(_, ts) = op(x) {
                    for (y, k) in ts.iter() {
                        if *k == 1 {
                            if let Some(o) = self.base_of.get(y) {
                                return Ok(V::P(*o, sub(x, *y)));
                            }
                        }
                    }
                }
                Ok(V::P(0, x))
            }
            "bitcast" | "addrspacecast" => bitcast(v, from, to),
            _ => Err(Stop::Unsup(format!("cast {}", kind))),
        }
    }

    fn icmp(&mut self, st: &State, pr: &str, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::U, _) | (_, V::U) => return Ok(V::U),
            (V::A(x), V::A(y)) => {
                let mut r = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    r.push(self.icmp(st, pr, p, q)?);
                }
                return Ok(agg(r));
            }
            (V::P(o, x), V::P(q, y)) => {
                if o == q {
                    return self.icmp(st, pr, &vt(*x), &vt(*y));
                }
                if pr == "eq" || pr == "ne" {
                    // distinct objects; one-past-the-end equality is possible
                    // only for comparisons with a null/dangling integer
                    let bx = if *o == 0 { *x } else { add(self.base(st, *o), *x) };
                    let by = if *q == 0 { *y } else { add(self.base(st, *q), *y) };
                    if *o != 0 && *q != 0 {
                        return Ok(vt(if pr == "eq" { fls() } else { tru() }));
                    }
                    let e = eq(bx, by);
                    return Ok(vt(if pr == "eq" { e } else { not(e) }));
                }
                let bx = if *o == 0 { *x } else { add(self.base(st, *o), *x) };
                let by = if *q == 0 { *y } else { add(self.base(st, *q), *y) };
                return self.icmp(st, pr, &vt(bx), &vt(by));
            }
            _ => {}
        }
        let (x, y) = (a.t()?, b.t()?);
        Ok(vt(match pr {
            "eq" => eq(x, y),
            "ne" => ne(x, y),
            "ult" => ult(x, y),
            "ule" => ule(x, y),
            "ugt" => ult(y, x),
            "uge" => ule(y, x),
            "slt" => slt(x, y),
            "sle" => not(slt(y, x)),
            "sgt" => slt(y, x),
            "sge" => not(slt(x, y)),
            _ => return Err(Stop::Unsup(pr.into())),
        }))
    }

    fn bin(&mut self, o: &str, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut r = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) {
                    r.push(self.bin(o, p, q)?);
                }
                return Ok(agg(r));
            }
            (V::U, _) | (_, V::U) => return Ok(V::U),
            _ => {}
        }
        let (x, y) = (a.t()?, b.t()?);
        Ok(vt(match o {
            "add" => add(x, y),
            "sub" => sub(x, y),
            "mul" => mul(x, y),
            "udiv" => udiv(x, y),
            "sdiv" => sdiv(x, y),
            "urem" => urem(x, y),
            "srem" => srem(x, y),
            "and" => and2(x, y),
            "or" => or2(x, y),
            "xor" => xor2(x, y),
            "shl" => shl(x, y),
            "lshr" => lshr(x, y),
            "ashr" => ashr(x, y),
            _ => return Err(Stop::Unsup(o.into())),
        }))
    }

    fn val(&mut self, st: &State, v: &Val, ty: TyR) -> R<V> {
        match v {
            Val::Local(i) => Ok(st.frames.last().unwrap().l[*i as usize].clone()),
            Val::C(k) => {
                let m = st.frames.last().unwrap().f.module;
                self.cval(m, k, ty)
            }
            Val::Asm(s) => Err(Stop::Unsup(format!("inline asm {}", s))),
        }
    }
    fn opd(&mut self, st: &State, o: &Opd) -> R<V> {
        self.val(st, &o.v, o.ty)
    }

    pub fn wher(&self, st: &State) -> String {
        match st.frames.last() {
            Some(f) => {
                let ins = &f.f.blocks[f.bb as usize].insts;
                let ln = ins.get(f.ip as usize).map(|x| x.line).unwrap_or(0);
                format!("{}:{}", f.f.name, ln)
            }
            None => "?".into(),
        }
    }

    pub fn push_call(&mut self, st: &mut State, f: &'static Func, args: Vec<V>, dst: Option<u32>, next: Option<u32>) -> R<()> {
        if st.frames.len() > 200 {
            return Err(Stop::Unsup("call depth".into()));
        }
        if args.len() != f.params.len() {
            return Err(Stop::Unsup(format!("call of {} with {} arguments", f.name, args.len())));
        }
        let mut l = vec![V::U; f.nlocals as usize];
        for ((_, i), v) in f.params.iter().zip(args) {
            l[*i as usize] = v;
        }
        *self.stats.funcs.entry(f.name.clone()).or_default() += 1;
        st.frames.push(Frame { f, bb: 0, ip: 0, prev: u32::MAX, l, dst, next, objs: vec![] });
        Ok(())
    }

    // ---------------------------------------------------------- running

    /// Explore all paths of a call from the given states.
    pub fn run(&mut self, init: Vec<State>, each: &mut dyn FnMut(&mut Exec, Path) -> Result<(), String>) -> Result<(), String> {
        let mut work = init;
        let mut npaths = 0;
        while let Some(mut st) = work.pop() {
            loop {
                if let Some(d) = self.deadline {
                    if self.stats.steps & 0xfff == 0 && std::time::Instant::now() > d {
                        return Err("time limit of the check reached".into());
                    }
                }
                self.stats.steps += 1;
                st.steps += 1;
                if st.steps > self.max_steps {
                    return Err(format!("step limit at {}", self.wher(&st)));
                }
                let e = match self.step(&mut st) {
                    Ok(None) => continue,
                    Ok(Some(v)) => End::Ret(v),
                    Err(Stop::Fork(cnd)) => {
                        self.stats.forks += 1;
                        if self.track_leaks && secret(cnd) {
                            let n = st.pc.len();
                            let w = self.wher(&st);
                            st.leaks.push((cnd, n, format!("branch at {}", w)));
                            self.secret_forks += 1;
                            if crate::ct::leaks(&st, cnd) {
                                self.secret_forks = SECRET_FORKS + 1;
                            }
                        }
                        if self.secret_forks > SECRET_FORKS {
                            self.stats.paths += 1;
                            let end = End::Panic("too many branches on terms built from secrets".into());
                            each(self, Path { st, end })?;
                            break;
                        }
                        let mut other = st.clone();
                        let a = self.assume(&mut st, cnd);
                        let b = self.assume(&mut other, not(cnd));
                        match (a, b) {
                            (Ok(true), Ok(true)) => {
                                st.known.insert(cnd, true);
                                other.known.insert(cnd, false);
                                work.push(other);
                                continue;
                            }
                            (Err(Stop::Unsup(s)), _) | (_, Err(Stop::Unsup(s))) => End::Unsup(s),
                            (x, y) => return Err(format!("inconsistent fork {:?} {:?}", x, y)),
                        }
                    }
                    Err(Stop::Panic(s)) => End::Panic(s),
                    Err(Stop::Bad(k, s)) => End::Bad(k, format!("{} in {}", s, self.wher(&st))),
                    Err(Stop::Unsup(s)) => End::Unsup(format!("{} in {}", s, self.wher(&st))),
                    Err(Stop::Dead) => break,
                    Err(Stop::Real) => End::Unsup("summary without a function".into()),
                };
                npaths += 1;
                self.stats.paths += 1;
                if npaths > self.max_paths {
                    return Err("path limit".into());
                }
                each(self, Path { st, end: e })?;
                break;
            }
        }
        Ok(())
    }
    pub fn call(
        &mut self,
        st: &State,
        name: &str,
        args: Vec<V>,
        each: &mut dyn FnMut(&mut Exec, Path) -> Result<(), String>,
    ) -> Result<(), String> {
        let f = self.p.find(name).ok_or_else(|| format!("no function {}", name))?;
        let mut s = st.clone();
        s.frames.clear();
        self.push_call(&mut s, f, args, None, None).map_err(|e| format!("{:?}", e))?;
        self.run(vec![s], each)
    }
    pub fn call_all(&mut self, st: &State, name: &str, args: Vec<V>) -> Result<Vec<Path>, String> {
        let mut v = vec![];
        self.call(st, name, args, &mut |_, p| {
            v.push(p);
            Ok(())
        })?;
        Ok(v)
    }

    fn set(&self, st: &mut State, dst: Option<u32>, v: V) {
        if let Some(d) = dst {
            st.frames.last_mut().unwrap().l[d as usize] = v;
        }
    }
    fn jump(&mut self, st: &mut State, b: u32) -> R<()> {
        let f = st.frames.last_mut().unwrap();
        f.prev = f.bb;
        f.bb = b;
        f.ip = 0;
        // phis in parallel
        let blk = &f.f.blocks[b as usize];
        let prev = f.prev;
        let mut vals = vec![];
        let mut n = 0;
        for i in &blk.insts {
            if let I::Phi(ty, v) = &i.i {
                let x = v.iter().find(|x| x.1 == prev).ok_or(Stop::Unsup("phi".into()))?;
                vals.push((i.dst, self.val(st, &x.0, ty)?));
                n += 1;
            } else {
                break;
            }
        }
        for (d, v) in vals {
            self.set(st, d, v);
        }
        st.frames.last_mut().unwrap().ip = n;
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> R<Option<V>> {
        let fr = st.frames.last().unwrap();
        let f: &'static Func = fr.f;
        let ins: &'static Inst = &f.blocks[fr.bb as usize].insts[fr.ip as usize];
        let dst = ins.dst;
        let v = match &ins.i {
            I::Bin(o, a, b) => {
                let x = self.opd(st, a)?;
                let y = self.val(st, b, a.ty)?;
                if o.ends_with("div") || o.ends_with("rem") {
                    if let V::T(d) = y {
                        let z = eq(d, c(0, w(d)));
                        if !is_false(z) && self.decide(st, z)? {
                            return Err(Stop::Bad("divzero", "division by zero".into()));
                        }
                    }
                }
                let r = self.bin(o, &x, &y)?;
                let hard = match (&x, &y) {
                    (V::T(p), V::T(q)) if cst(*q).is_none() => match o.as_ref() {
                        "shl" | "lshr" | "ashr" => true,
                        "mul" => cst(*p).is_none(),
                        "udiv" | "urem" | "sdiv" | "srem" => true,
                        _ => false,
                    },
                    _ => false,
                };
                match r {
                    V::T(t) if hard => vt(self.pin(st, t)?),
                    r => r,
                }
            }
            I::Icmp(p, a, b) => {
                let x = self.opd(st, a)?;
                let y = self.val(st, b, a.ty)?;
                self.icmp(st, p, &x, &y)?
            }
            I::Alloca(ty, cnt, al) => {
                let n = match cnt {
                    None => 1,
                    Some(o) => match cst(self.opd(st, o)?.t()?) {
                        Some(k) => k as u64,
                        None => return Err(Stop::Unsup("symbolic alloca".into())),
                    },
                };
                let nm = dst.map(|d| f.lnames[d as usize].clone()).unwrap_or_default();
                let id = self.new_obj(st, &nm, alloc_size(ty) * n, *al);
                st.frames.last_mut().unwrap().objs.push(id);
                V::P(id, c64(0))
            }
            I::Load(ty, p, al) => {
                let q = self.opd(st, p)?;
                self.aligned(st, &q, ty, *al)?;
                self.load(st, &q, ty)?
            }
            I::Store(v, p, al) => {
                let x = self.opd(st, v)?;
                let q = self.opd(st, p)?;
                self.aligned(st, &q, v.ty, *al)?;
                self.store(st, &q, &x, v.ty)?;
                V::U
            }
            I::Gep(ty, p, ix) => {
                let q = self.opd(st, p)?;
                let mut iv = Vec::with_capacity(ix.len());
                for i in ix {
                    iv.push(self.opd(st, i)?);
                }
                self.gep(ty, &q, &iv)?
            }
            I::Cast(k, a, ty) => {
                let x = self.opd(st, a)?;
                self.cast(st, k, &x, a.ty, ty)?
            }
            I::Select(cn, a, b) => {
                let cv = self.opd(st, cn)?;
                let x = self.opd(st, a)?;
                let y = self.opd(st, b)?;
                if let V::A(cs) = &cv {
                    let (x, y) = (x.lanes()?, y.lanes()?);
                    let mut r = vec![];
                    for i in 0..cs.len() {
                        r.push(vt(ite(cs[i].t()?, x[i].t()?, y[i].t()?)));
                    }
                    agg(r)
                } else if matches!(cv, V::U) {
                    V::U
                } else {
                    let cc = cv.t()?;
                    match (x, y) {
                        (V::T(p), V::T(q)) => {
                            let cc = if w(p) >= 32 && p != q { self.pin(st, cc)? } else { cc };
                            vt(ite(cc, p, q))
                        }
                        (V::P(o, p), V::P(o2, q)) if o == o2 && !is_true(cc) && !is_false(cc) => V::P(o, ite(cc, p, q)),
                        (x, y) => {
                            if self.decide(st, cc)? {
                                x
                            } else {
                                y
                            }
                        }
                    }
                }
            }
            I::Phi(..) => return Err(Stop::Unsup("stray phi".into())),
            I::ExtElem(a, i) => {
                let x = self.opd(st, a)?;
                let k = self.opd(st, i)?.t()?;
                let k = cst(k).ok_or(Stop::Unsup("symbolic lane".into()))? as usize;
                match x {
                    V::U => V::U,
                    x => x.lanes()?[k].clone(),
                }
            }
            I::InsElem(a, e, i) => {
                let x = self.opd(st, a)?;
                let y = self.opd(st, e)?;
                let k = self.opd(st, i)?.t()?;
                let k = cst(k).ok_or(Stop::Unsup("symbolic lane".into()))? as usize;
                let mut l: Vec<V> = match x {
                    V::U => match a.ty {
                        Ty::Vec(n, _) => vec![V::U; *n as usize],
                        _ => return Err(Stop::Unsup("insertelement".into())),
                    },
                    x => x.lanes()?.to_vec(),
                };
                l[k] = y;
                agg(l)
            }
            I::Shuffle(a, b, m) => {
                let x = self.opd(st, a)?;
                let y = self.opd(st, b)?;
                let Ty::Vec(n, _) = a.ty else { return Err(Stop::Unsup("shuffle".into())) };
                let n = *n as usize;
                let lx = if matches!(x, V::U) { vec![V::U; n].into() } else { x.lanes()? };
                let ly = if matches!(y, V::U) { vec![V::U; n].into() } else { y.lanes()? };
                let mv = self.opd(st, m)?;
                let mut r = vec![];
                let Ty::Vec(rn, _) = m.ty else { return Err(Stop::Unsup("shuffle".into())) };
                let ml: Rc<[V]> = match mv {
                    V::U => vec![V::U; *rn as usize].into(),
                    mv => mv.lanes()?,
                };
                for i in ml.iter() {
                    r.push(match i {
                        V::U => V::U,
                        i => {
                            let k = cst(i.t()?).ok_or(Stop::Unsup("mask".into()))? as usize;
                            if k < n {
                                lx[k].clone()
                            } else {
                                ly[k - n].clone()
                            }
                        }
                    });
                }
                agg(r)
            }
            I::ExtVal(a, ix) => {
                let mut x = self.opd(st, a)?;
                for i in ix {
                    x = match x {
                        V::U => V::U,
                        x => x.lanes()?[*i as usize].clone(),
                    };
                }
                x
            }
            I::InsVal(a, b, ix) => {
                let x = self.opd(st, a)?;
                let y = self.opd(st, b)?;
                ins_val(&x, a.ty, &y, ix)?
            }
            I::Freeze(a) => self.opd(st, a)?,
            I::Ret(o) => {
                let v = match o {
                    Some(o) => self.opd(st, o)?,
                    None => V::U,
                };
                let fr = st.frames.pop().unwrap();
                for o in &fr.objs {
                    st.mem.remove(o);
                }
                if st.frames.is_empty() {
                    return Ok(Some(v));
                }
                self.set(st, fr.dst, v);
                if let Some(n) = fr.next {
                    self.jump(st, n)?;
                } else {
                    st.frames.last_mut().unwrap().ip += 1;
                }
                return Ok(None);
            }
            I::Br(b) => {
                self.jump(st, *b)?;
                return Ok(None);
            }
            I::CondBr(cn, a, b) => {
                let cv = self.opd(st, cn)?;
                let cc = match cv {
                    V::U => return Err(Stop::Bad("uninit", "branch on an uninitialised value".into())),
                    v => v.t()?,
                };
                let r = self.decide(st, cc)?;
                self.jump(st, if r { *a } else { *b })?;
                return Ok(None);
            }
            I::Switch(v, d, cs) => {
                let x = match self.opd(st, v)? {
                    V::U => return Err(Stop::Bad("uninit", "switch on an uninitialised value".into())),
                    v => v.t()?,
                };
                let mut tgt = *d;
                for (k, b) in cs {
                    let e = eq(x, c(*k, w(x)));
                    if self.decide(st, e)? {
                        tgt = *b;
                        break;
                    }
                }
                self.jump(st, tgt)?;
                return Ok(None);
            }
            I::Call { ret, callee, args, next } => {
                let mut av = Vec::with_capacity(args.len());
                for (a, bv) in args {
                    let x = if matches!(a.ty, Ty::Meta) { V::U } else { self.opd(st, a)? };
                    if let Some(bt) = bv {
                        // byval: copy
                        let n = alloc_size(bt);
                        let id = self.new_obj(st, "byval", n, 16);
                        st.frames.last_mut().unwrap().objs.push(id);
                        self.memcpy(st, &V::P(id, c64(0)), &x, c64(n))?;
                        av.push(V::P(id, c64(0)));
                    } else {
                        av.push(x);
                    }
                }
                let (name, module): (String, usize) = match callee {
                    Val::C(Const::Global(n)) => (n.clone(), f.module),
                    Val::Asm(s) => {
                        // an empty asm is only an optimisation barrier
                        if s.trim_matches(|ch: char| ch == '|').is_empty() || s.starts_with('~') || s.contains("memory") {
                            ("asm.barrier".into(), f.module)
                        } else if let Some(x) = av.first() {
                            // identity barrier (black_box style): "=r,0" with empty template
                            let tmpl_empty = s.ends_with("||") || s.ends_with('|');
                            if tmpl_empty {
                                self.set(st, dst, x.clone());
                                st.frames.last_mut().unwrap().ip += 1;
                                return Ok(None);
                            }
                            return Err(Stop::Unsup(format!("inline asm {}", s)));
                        } else {
                            return Err(Stop::Unsup(format!("inline asm {}", s)));
                        }
                    }
                    v => match self.val(st, v, &Ty::Ptr)? {
                        V::P(o, _) => match self.obj(st, o)?.func {
                            Some((n, m)) => (n.to_string(), m),
                            None => return Err(Stop::Bad("call", "call through a data pointer".into())),
                        },
                        _ => return Err(Stop::Unsup("indirect call".into())),
                    },
                };
                let (mut name, mut av) = (name, av);
                if let Some((_, to, ix)) = self.redirect.iter().find(|r| (r.0)(&name)) {
                    name = to.to_string();
                    av = ix.iter().map(|i| av[*i].clone()).collect();
                }
                if name == "asm.barrier" {
                    st.frames.last_mut().unwrap().ip += 1;
                    return Ok(None);
                }
                // stubs
                let si = match self.stub_cache.get(&name) {
                    Some(x) => *x,
                    None => {
                        let r = self.stubs.iter().position(|s| (s.0)(&name));
                        self.stub_cache.insert(name.clone(), r);
                        r
                    }
                };
                let target = self.p.func(module, &name);
                if let (Some(fm), Some(g)) = (&self.features, target) {
                    let fm = fm.clone();
                    for ft in &g.features {
                        if let Some(ft) = ft.strip_prefix('+') {
                            if let Some((_, need)) = fm.iter().find(|(k, _)| **k == ft) {
                                if !self.implied(st, *need)? {
                                    let _ = self.assume(st, not(*need))?;
                                    return Err(Stop::Bad(
                                        "feature",
                                        format!("{} needs CPU feature {} that may be absent", g.name, ft),
                                    ));
                                }
                            }
                        }
                    }
                }
                let mut done = None;
                if let Some(si) = si {
                    let sf = self.stubs[si].1;
                    match sf(self, st, &name, &av) {
                        Ok(r) => {
                            *self.stats.stubbed.entry(self.stubs[si].2.to_string()).or_default() += 1;
                            done = Some(r);
                        }
                        Err(Stop::Real) => {}
                        Err(e) => return Err(e),
                    }
                }
                let r = if let Some(r) = done {
                    Some(r)
                } else if let Some(g) = target {
                    self.push_call(st, g, av, dst, *next)?;
                    return Ok(None);
                } else if name.starts_with("llvm.") {
                    let r = self.intrinsic(st, &name, &av, ret)?;
                    let count = name.starts_with("llvm.ct");
                    Some(match r {
                        V::T(t) if count => vt(self.pin(st, t)?),
                        r => r,
                    })
                } else {
                    self.external(st, &name, &av, ret, f, ins)?
                };
                match r {
                    Some(r) => {
                        self.set(st, dst, r);
                        if let Some(n) = next {
                            self.jump(st, *n)?;
                            return Ok(None);
                        }
                        st.frames.last_mut().unwrap().ip += 1;
                        return Ok(None);
                    }
                    None => return Ok(None),
                }
            }
            I::AtomicRmw(o, p, v) => {
                let q = self.opd(st, p)?;
                let x = self.opd(st, v)?;
                let old = self.load(st, &q, v.ty)?;
                let new = match o.as_str() {
                    "xchg" => x,
                    "add" | "sub" | "and" | "or" | "xor" => self.bin(o, &old, &x)?,
                    _ => return Err(Stop::Unsup(format!("atomicrmw {}", o))),
                };
                self.store(st, &q, &new, v.ty)?;
                old
            }
            I::CmpXchg(p, a, b) => {
                let q = self.opd(st, p)?;
                let x = self.opd(st, a)?;
                let y = self.opd(st, b)?;
                let old = self.load(st, &q, a.ty)?;
                let e = self.icmp(st, "eq", &old, &x)?.t()?;
                let ok = self.decide(st, e)?;
                if ok {
                    self.store(st, &q, &y, a.ty)?;
                }
                agg(vec![old, vt(if ok { tru() } else { fls() })])
            }
            I::Fence => V::U,
            I::Unreachable => return Err(Stop::Bad("unreachable", "unreachable code reached".into())),
            I::FNeg => return Err(Stop::Unsup("float".into())),
            I::Unsup(s) => return Err(Stop::Unsup(format!("instruction {}", s))),
        };
        self.set(st, dst, v);
        st.frames.last_mut().unwrap().ip += 1;
        Ok(None)
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, a: &[V], ret: TyR) -> R<V> {
        let n = &name[5..];
        let lanewise2 = |f: &dyn Fn(T, T) -> T| -> R<V> {
            match (&a[0], &a[1]) {
                (V::A(x), V::A(y)) => {
                    let mut r = vec![];
                    for (p, q) in x.iter().zip(y.iter()) {
                        r.push(vt(f(p.t()?, q.t()?)));
                    }
                    Ok(agg(r))
                }
                (x, y) => Ok(vt(f(x.t()?, y.t()?))),
            }
        };
        let lanewise1 = |f: &dyn Fn(T) -> T| -> R<V> {
            match &a[0] {
                V::A(x) => {
                    let mut r = vec![];
                    for p in x.iter() {
                        r.push(vt(f(p.t()?)));
                    }
                    Ok(agg(r))
                }
                x => Ok(vt(f(x.t()?))),
            }
        };
        if n.starts_with("lifetime.") || n.starts_with("dbg.") || n.starts_with("experimental.noalias") || n.starts_with("prefetch") {
            return Ok(V::U);
        }
        if n.starts_with("assume") {
            return Ok(V::U);
        }
        if n.starts_with("expect.") {
            return Ok(a[0].clone());
        }
        if n.starts_with("is.constant") {
            return Ok(vt(fls()));
        }
        if n.starts_with("objectsize") {
            return Ok(vt(c(u64::MAX as u128, 64)));
        }
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let k = zext64(a[2].t()?);
            self.memcpy(st, &a[0], &a[1], k)?;
            return Ok(V::U);
        }
        if n.starts_with("memset") {
            let k = zext64(a[2].t()?);
            match &a[1] {
                V::U => {}
                b => {
                    let b = b.t()?;
                    self.memset(st, &a[0], b, k)?;
                }
            }
            return Ok(V::U);
        }
        if n.contains(".with.overflow") {
            let (x, y) = (a[0].t()?, a[1].t()?);
            let ww = w(x);
            let kind = &n[..4];
            let (r, o) = match kind {
                "uadd" => {
                    let r = add(x, y);
                    let of = match cst(y).or(cst(x)) {
                        // x + k overflows iff x > max - k
                        Some(k) if cst(y).is_some() => ult(c(mask(ww) - k, ww), x),
                        Some(k) => ult(c(mask(ww) - k, ww), y),
                        None => {
                            if hi(x).checked_add(hi(y)).map_or(false, |s| s <= mask(ww)) {
                                fls()
                            } else {
                                ult(r, x)
                            }
                        }
                    };
                    (r, of)
                }
                "usub" => (sub(x, y), ult(x, y)),
                "umul" => {
                    let r = mul(x, y);
                    let of = if hi(x).checked_mul(hi(y)).map_or(false, |p| p <= mask(ww)) {
                        fls()
                    } else if let Some(k) = cst(y) {
                        if k == 0 {
                            fls()
                        } else {
                            ult(c(mask(ww) / k, ww), x)
                        }
                    } else if let Some(k) = cst(x) {
                        if k == 0 {
                            fls()
                        } else {
                            ult(c(mask(ww) / k, ww), y)
                        }
                    } else if ww <= 64 {
                        let p = mul(zext(x, 2 * ww), zext(y, 2 * ww));
                        ne(ext(p, ww, ww), c(0, ww))
                    } else {
                        return Err(Stop::Unsup("umul".into()));
                    };
                    (r, of)
                }
                "sadd" | "ssub" => {
                    let xs = sext(x, ww + 1);
                    let ys = sext(y, ww + 1);
                    let rs = if kind == "sadd" { add(xs, ys) } else { sub(xs, ys) };
                    let r = trunc(rs, ww);
                    (r, ne(sext(r, ww + 1), rs))
                }
                "smul" => {
                    if ww > 64 {
                        return Err(Stop::Unsup("smul".into()));
                    }
                    let xs = sext(x, 2 * ww);
                    let ys = sext(y, 2 * ww);
                    let rs = mul(xs, ys);
                    let r = trunc(rs, ww);
                    (r, ne(sext(r, 2 * ww), rs))
                }
                _ => return Err(Stop::Unsup(name.into())),
            };
            return Ok(agg(vec![vt(r), vt(o)]));
        }
        if n.starts_with("fshl") || n.starts_with("fshr") {
            let left = n.starts_with("fshl");
            let one = |x: &V, y: &V, s: &V| -> R<V> {
                if matches!(x, V::U) || matches!(y, V::U) {
                    return Ok(V::U);
                }
                let (x, y, s) = (x.t()?, y.t()?, s.t()?);
                let ww = w(x);
                if let Some(k) = cst(s) {
                    let k = (k % ww as u128) as u32;
                    return Ok(vt(if left { fshl(x, y, k) } else { fshr(x, y, k) }));
                }
                // symbolic rotate amount
                let m = urem(s, c(ww as u128, ww));
                let inv = sub(c(ww as u128, ww), m);
                let z = eq(m, c(0, ww));
                let r = if left {
                    ite(z, x, or2(shl(x, m), lshr(y, inv)))
                } else {
                    ite(z, y, or2(shl(x, inv), lshr(y, m)))
                };
                Ok(vt(r))
            };
            if let (V::A(x), V::A(y), V::A(s)) = (&a[0], &a[1], &a[2]) {
                let mut r = vec![];
                for i in 0..x.len() {
                    r.push(one(&x[i], &y[i], &s[i])?);
                }
                return Ok(agg(r));
            }
            return one(&a[0], &a[1], &a[2]);
        }
        if n.starts_with("ctpop") {
            return lanewise1(&popcnt);
        }
        if n.starts_with("ctlz") {
            return lanewise1(&ctlz);
        }
        if n.starts_with("cttz") {
            return lanewise1(&cttz);
        }
        if n.starts_with("bswap") {
            return lanewise1(&bswap);
        }
        if n.starts_with("umin") {
            return lanewise2(&umin);
        }
        if n.starts_with("umax") {
            return lanewise2(&umax);
        }
        if n.starts_with("smin") {
            return lanewise2(&|x, y| ite(slt(y, x), y, x));
        }
        if n.starts_with("smax") {
            return lanewise2(&|x, y| ite(slt(x, y), y, x));
        }
        if n.starts_with("abs.") {
            return lanewise1(&|x| ite(slt(x, c(0, w(x))), neg(x), x));
        }
        if n.starts_with("usub.sat") {
            return lanewise2(&|x, y| ite(ult(x, y), c(0, w(x)), sub(x, y)));
        }
        if n.starts_with("uadd.sat") {
            return lanewise2(&|x, y| {
                let r = add(x, y);
                ite(ult(r, x), c(mask(w(x)), w(x)), r)
            });
        }
        if n.starts_with("ucmp") || n.starts_with("scmp") {
            let Ty::Int(rw) = ret else { return Err(Stop::Unsup(name.into())) };
            let (x, y) = (a[0].t()?, a[1].t()?);
            let l = if n.starts_with("ucmp") { ult(x, y) } else { slt(x, y) };
            return Ok(vt(ite(l, c(mask(*rw), *rw), ite(eq(x, y), c(0, *rw), c(1, *rw)))));
        }
        if n.starts_with("trap") || n.starts_with("ubsantrap") {
            return Err(Stop::Panic("trap".into()));
        }
        if n.starts_with("threadlocal.address") {
            let V::P(o, off) = &a[0] else { return Err(Stop::Unsup(name.into())) };
            if st.thread == 0 || !self.tls.contains_key(o) {
                return Ok(a[0].clone());
            }
            if let Some(q) = self.tls_copy.get(&(*o, st.thread)) {
                return Ok(V::P(*q, *off));
            }
            let id = self.next_gid;
            self.next_gid += 1;
            let g = self.globals.get(o).cloned().ok_or(Stop::Unsup(name.into()))?;
            self.globals.insert(id, g);
            self.tls.insert(id, ());
            self.tls_copy.insert((*o, st.thread), id);
            return Ok(V::P(id, *off));
        }
        if n.starts_with("launder") || n.starts_with("strip") {
            return Ok(a[0].clone());
        }
        if n.starts_with("stacksave") {
            return Ok(V::P(0, c64(0)));
        }
        if n.starts_with("stackrestore") {
            return Ok(V::U);
        }
        if n.starts_with("vector.reduce.") {
            let l = a[0].lanes()?;
            let mut r = l[0].t()?;
            for x in &l[1..] {
                let x = x.t()?;
                r = if n.contains(".or.") {
                    or2(r, x)
                } else if n.contains(".and.") {
                    and2(r, x)
                } else if n.contains(".xor.") {
                    xor2(r, x)
                } else if n.contains(".add.") {
                    add(r, x)
                } else {
                    return Err(Stop::Unsup(name.into()));
                };
            }
            return Ok(vt(r));
        }
        crate::x86::intrinsic(n, a)
    }

    /// Library functions that are not part of the loaded IR.
    /// Whether a path wrote to thread-local storage.
    pub fn tls_used(&self, st: &State) -> bool {
        st.mem.keys().any(|o| self.tls.contains_key(o))
    }
    /// Allocation never fails.
    pub fn heap(&mut self, st: &mut State, n: T, al: T, zeroed: bool) -> R<V> {
        let (n, al) = (self.pin(st, n)?, self.pin(st, al)?);
        let (Some(n), Some(al)) = (cst(n), cst(al)) else { return Err(Stop::Unsup("size of an allocation".into())) };
        let o = self.new_obj(st, "heap", n as u64, al as u64);
        if zeroed {
            for x in &mut Rc::make_mut(st.mem.get_mut(&o).unwrap()).cells {
                *x = Cell::B(c(0, 8), 0);
            }
        }
        Ok(V::P(o, c64(0)))
    }
    pub fn free(&mut self, st: &mut State, p: &V) -> R<V> {
        match p {
            V::P(0, _) => Ok(V::U),
            V::P(o, off) if cst(*off) == Some(0) && &*self.obj(st, *o)?.name == "heap" => {
                st.mem.remove(o);
                Ok(V::U)
            }
            _ => Err(Stop::Bad("dangling", "free of something not allocated".into())),
        }
    }
    pub fn realloc(&mut self, st: &mut State, a: &[V]) -> R<V> {
        let (old, new) = (a[1].t()?, a[3].t()?);
        let (old, new) = (self.pin(st, old)?, self.pin(st, new)?);
        let q = self.heap(st, new, a[2].t()?, false)?;
        let (Some(x), Some(y)) = (cst(old), cst(new)) else { return Err(Stop::Unsup("size of an allocation".into())) };
        self.memcpy(st, &q, &a[0], c64(x.min(y) as u64))?;
        self.free(st, &a[0])?;
        Ok(q)
    }
    fn external(&mut self, st: &mut State, name: &str, a: &[V], _ret: TyR, f: &'static Func, _ins: &Inst) -> R<Option<V>> {
        match name {
            "memcpy" | "memmove" => {
                self.memcpy(st, &a[0], &a[1], a[2].t()?)?;
                return Ok(Some(a[0].clone()));
            }
            "memset" => {
                let b = trunc(a[1].t()?, 8);
                self.memset(st, &a[0], b, a[2].t()?)?;
                return Ok(Some(a[0].clone()));
            }
            "memcmp" | "bcmp" => {
                let n = match cst(a[2].t()?) {
                    Some(n) => n as u64,
                    None => return Err(Stop::Unsup("memcmp of symbolic length".into())),
                };
                let mut r = c(0, 32);
                let mut first = c64(n);
                for i in (0..n).rev() {
                    let p = self.padd(&a[0], i)?;
                    let q = self.padd(&a[1], i)?;
                    let x = self.load(st, &p, &Ty::Int(8))?.t()?;
                    let y = self.load(st, &q, &Ty::Int(8))?.t()?;
                    let d = if name == "bcmp" { c(1, 32) } else { ite(ult(x, y), c(mask(32), 32), c(1, 32)) };
                    r = ite(eq(x, y), r, d);
                    if self.track_leaks {
                        first = ite(eq(x, y), first, c64(i));
                    }
                }
                // it may stop at the first difference
                if self.track_leaks && secret(first) {
                    let l = st.pc.len();
                    let wh = self.wher(st);
                    st.leaks.push((first, l, format!("early-exit comparison {} at {}", name, wh)));
                }
                return Ok(Some(vt(r)));
            }
            "malloc" | "calloc" => {
                let mut n = c(1, 64);
                for v in a {
                    n = mul(n, v.t()?);
                }
                return self.heap(st, n, c64(16), name == "calloc").map(Some);
            }
            "free" => return self.free(st, &a[0]).map(Some),
            "__cxa_thread_atexit_impl" => return Ok(Some(vt(c(0, 32)))),
            "__assert_fail" => return Err(Stop::Panic(format!("assert in {}", f.name))),
            "abort" => return Err(Stop::Panic("abort".into())),
            _ => {}
        }
        if name.starts_with("_R") {
            if name.ends_with("___rust_no_alloc_shim_is_unstable_v2") {
                return Ok(Some(V::U));
            }
            // destructors of thread-local values run when the thread ends
            if name.contains("12thread_local") && name.contains("destructors") && name.ends_with("8register") {
                return Ok(Some(V::U));
            }
            let z = name.ends_with("___rust_alloc_zeroed");
            if z || name.ends_with("12___rust_alloc") {
                return self.heap(st, a[0].t()?, a[1].t()?, z).map(Some);
            }
            if name.ends_with("___rust_dealloc") {
                return self.free(st, &a[0]).map(Some);
            }
            if name.ends_with("___rust_realloc") {
                return self.realloc(st, a).map(Some);
            }
        }
        // A call that the compiler knows cannot return: a panic entry point.
        let fr = st.frames.last().unwrap();
        let blk = &f.blocks[fr.bb as usize];
        if let Some(nx) = blk.insts.get(fr.ip as usize + 1) {
            if matches!(nx.i, I::Unreachable) {
                return Err(Stop::Panic(format!("{} called from {}:{}", name, f.name, blk.insts[fr.ip as usize].line)));
            }
        }
        Err(Stop::Unsup(format!("external function {}", name)))
    }
}

pub fn zext64(x: T) -> T {
    if w(x) < 64 {
        zext(x, 64)
    } else {
        x
    }
}

/// Does the term involve memory contents or uninterpreted results?
pub fn opaque(x: T) -> bool {
    node(x).opq
}

fn undef(ty: TyR) -> V {
    match ty {
        Ty::Vec(n, e) => agg(vec![undef(e); *n as usize]),
        Ty::Struct(es, _) => agg(es.iter().map(|e| undef(e)).collect()),
        Ty::Arr(n, e) if *n <= 4096 => agg(vec![undef(e); *n as usize]),
        _ => V::U,
    }
}
fn zero(ty: TyR) -> R<V> {
    Ok(match ty {
        Ty::Int(w) => vt(c(0, *w)),
        Ty::Ptr => V::P(0, c64(0)),
        Ty::Vec(n, e) => agg(vec![zero(e)?; *n as usize]),
        Ty::Arr(n, e) => agg(vec![zero(e)?; *n as usize]),
        Ty::Struct(es, _) => {
            let mut v = vec![];
            for e in es.iter() {
                v.push(zero(e)?);
            }
            agg(v)
        }
        _ => return Err(Stop::Unsup("zero".into())),
    })
}
fn ins_val(x: &V, ty: TyR, y: &V, ix: &[u32]) -> R<V> {
    if ix.is_empty() {
        return Ok(y.clone());
    }
    let mut l: Vec<V> = match x {
        V::U => match undef(ty) {
            V::A(l) => l.to_vec(),
            _ => return Err(Stop::Unsup("insertvalue".into())),
        },
        x => x.lanes()?.to_vec(),
    };
    let k = ix[0] as usize;
    let et: TyR = match ty {
        Ty::Struct(es, _) => es[k],
        Ty::Arr(_, e) => e,
        _ => return Err(Stop::Unsup("insertvalue".into())),
    };
    l[k] = ins_val(&l[k], et, y, &ix[1..])?;
    Ok(agg(l))
}

pub fn cell_byte(x: Cell) -> R<T> {
    match x {
        Cell::B(t, k) => Ok(if w(t) == 8 { t } else { ext(t, 8 * k, 8) }),
        Cell::U => Err(Stop::Bad("uninit", "read of an uninitialised byte".into())),
        Cell::P(..) => Err(Stop::Unsup("byte of a pointer".into())),
    }
}
fn ite_cell(cnd: T, a: Cell, b: Cell) -> R<Cell> {
    if is_true(cnd) || a == b {
        return Ok(a);
    }
    if is_false(cnd) {
        return Ok(b);
    }
    match (a, b) {
        (Cell::U, _) | (_, Cell::U) => Ok(Cell::U),
        (Cell::P(..), _) | (_, Cell::P(..)) => Err(Stop::Unsup("symbolic copy of pointers".into())),
        _ => Ok(Cell::B(ite(cnd, cell_byte(a)?, cell_byte(b)?), 0)),
    }
}
fn ite_cell_guard(x: &mut Exec, st: &mut State, cnd: T, a: Cell, b: Cell) -> R<Cell> {
    if (matches!(a, Cell::U) || matches!(b, Cell::U)) && a != b {
        // only matters if both are possible
        if x.implied(st, cnd)? {
            return Ok(a);
        }
        if x.implied(st, not(cnd))? {
            return Ok(b);
        }
    }
    ite_cell(cnd, a, b)
}

fn join_cells(cs: &[Cell], ty: TyR) -> R<V> {
    match ty {
        Ty::Ptr => match cs[0] {
            Cell::P(o, off, 0) => {
                for (i, x) in cs.iter().enumerate() {
                    if *x != Cell::P(o, off, i as u8) {
                        return Ok(V::U);
                    }
                }
                Ok(V::P(o, off))
            }
            Cell::U => Ok(V::U),
            _ => {
                // an integer that was stored as bytes (null or dangling)
                let mut parts = vec![];
                for x in cs {
                    match x {
                        Cell::B(..) => parts.push(cell_byte(*x)?),
                        _ => return Ok(V::U),
                    }
                }
                let v = cat(&parts);
                Ok(V::P(0, v))
            }
        },
        Ty::Int(n) => {
            if let Cell::B(t0, 0) = cs[0] {
                if w(t0) as usize == 8 * cs.len() && cs.iter().enumerate().all(|(i, x)| *x == Cell::B(t0, i as u16)) {
                    return Ok(vt(trunc(t0, *n)));
                }
            }
            let mut parts = Vec::with_capacity(cs.len());
            for x in cs {
                match x {
                    Cell::U => return Ok(V::U),
                    Cell::P(..) => return Err(Stop::Unsup("integer load of a pointer".into())),
                    b => parts.push(cell_byte(*b)?),
                }
            }
            let x = cat(&parts);
            Ok(vt(trunc(x, *n)))
        }
        _ => Err(Stop::Unsup(format!("load of {:?}", ty))),
    }
}

fn put_cells(cells: &mut [Cell], off: usize, v: &V, ty: TyR) -> R<()> {
    match (ty, v) {
        (_, V::U) => {
            for x in &mut cells[off..off + store_size(ty) as usize] {
                *x = Cell::U;
            }
        }
        (Ty::Ptr, V::P(0, k)) => {
            for i in 0..8 {
                cells[off + i] = Cell::B(*k, i as u16);
            }
        }
        (Ty::Ptr, V::P(o, k)) => {
            for i in 0..8 {
                cells[off + i] = Cell::P(*o, *k, i as u8);
            }
        }
        (Ty::Int(_), V::T(x)) => {
            let n = store_size(ty) as usize;
            let x = if w(*x) as usize == 8 * n { *x } else { zext(*x, 8 * n as u16) };
            for i in 0..n {
                cells[off + i] = Cell::B(x, i as u16);
            }
        }
        (Ty::Vec(n, e), V::A(l)) => {
            let es = size_bits(e);
            if es % 8 != 0 {
                return Err(Stop::Unsup("sub-byte vector store".into()));
            }
            for i in 0..*n as usize {
                put_cells(cells, off + i * es as usize / 8, &l[i], e)?;
            }
        }
        (Ty::Struct(es, _), V::A(l)) => {
            for i in 0..es.len() {
                let (fo, ft) = field_off(ty, i);
                put_cells(cells, off + fo as usize, &l[i], ft)?;
            }
        }
        (Ty::Arr(_, _), V::A(l)) => {
            for i in 0..l.len() {
                let (fo, ft) = field_off(ty, i);
                put_cells(cells, off + fo as usize, &l[i], ft)?;
            }
        }
        _ => return Err(Stop::Unsup(format!("store of {:?} as {:?}", v, ty))),
    }
    Ok(())
}

pub fn bitcast(v: &V, from: TyR, to: TyR) -> R<V> {
    match (from, to) {
        (Ty::Ptr, Ty::Ptr) => return Ok(v.clone()),
        (Ty::Vec(n, fe), Ty::Vec(m, te)) => {
            let (fb, tb) = (size_bits(fe) as u16, size_bits(te) as u16);
            let l = v.lanes()?;
            if fb == tb {
                return Ok(v.clone());
            }
            let mut r = vec![];
            if fb > tb {
                let k = fb / tb;
                for i in 0..*m as usize {
                    let src = &l[i / k as usize];
                    r.push(match src {
                        V::U => V::U,
                        x => vt(ext(x.t()?, (i as u16 % k) * tb, tb)),
                    });
                }
            } else {
                let k = (tb / fb) as usize;
                for i in 0..*m as usize {
                    let mut ps = vec![];
                    let mut u = false;
                    for j in 0..k {
                        match &l[i * k + j] {
                            V::U => u = true,
                            x => ps.push(x.t()?),
                        }
                    }
                    r.push(if u { V::U } else { vt(cat(&ps)) });
                }
            }
            let _ = n;
            return Ok(agg(r));
        }
        (Ty::Vec(_, _), Ty::Int(_)) => {
            let mut ps = vec![];
            for x in v.lanes()?.iter() {
                match x {
                    V::U => return Ok(V::U),
                    x => ps.push(x.t()?),
                }
            }
            return Ok(vt(cat(&ps)));
        }
        (Ty::Int(_), Ty::Vec(n, e)) => {
            let x = v.t()?;
            let b = size_bits(e) as u16;
            return Ok(agg((0..*n as u16).map(|i| vt(ext(x, i * b, b))).collect()));
        }
        (Ty::Int(a), Ty::Int(b)) if a == b => return Ok(v.clone()),
        _ => {}
    }
    Err(Stop::Unsup(format!("bitcast {:?} to {:?}", from, to)))
}

#[allow(unused)]
fn _use() {
    let _ = t::tru;
}
