//! Parser for textual LLVM IR (the subset rustc and clang emit here).
//! Everything is leaked: a module lives as long as the process and is shared
//! read-only between threads.
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float(u16),
    Vec(u32, TyR),
    Arr(u64, TyR),
    Struct(&'static [TyR], bool),
    Opaque,
    Label,
    Meta,
    Func,
}
pub type TyR = &'static Ty;

pub fn mk(t: Ty) -> TyR {
    Box::leak(Box::new(t))
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Null,
    Undef,
    Zero,
    Splat(Box<Const>, TyR),
    Agg(Vec<(TyR, Const)>),
    Bytes(Vec<u8>),
    Global(String),
    Gep(TyR, Box<(TyR, Const)>, Vec<(TyR, Const)>),
    Cast(String, Box<(TyR, Const)>, TyR),
    Bin(String, Box<(TyR, Const)>, Box<(TyR, Const)>),
    Float(String),
    Meta,
}

#[derive(Clone, Debug)]
pub enum Val {
    Local(u32),
    C(Const),
    Asm(String),
}
#[derive(Clone, Debug)]
pub struct Opd {
    pub ty: TyR,
    pub v: Val,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(&'static str, Opd, Val),
    Icmp(&'static str, Opd, Val),
    Alloca(TyR, Option<Opd>, u64),
    /// with the alignment the instruction relies on
    Load(TyR, Opd, u64),
    Store(Opd, Opd, u64),
    Gep(TyR, Opd, Vec<Opd>),
    Cast(&'static str, Opd, TyR),
    Select(Opd, Opd, Opd),
    Phi(TyR, Vec<(Val, u32)>),
    Call { ret: TyR, callee: Val, args: Vec<(Opd, Option<TyR>)>, next: Option<u32> },
    ExtElem(Opd, Opd),
    InsElem(Opd, Opd, Opd),
    Shuffle(Opd, Opd, Opd),
    ExtVal(Opd, Vec<u32>),
    InsVal(Opd, Opd, Vec<u32>),
    Freeze(Opd),
    FNeg,
    Ret(Option<Opd>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, Vec<(u128, u32)>),
    AtomicRmw(String, Opd, Opd),
    CmpXchg(Opd, Opd, Opd),
    Fence,
    Unreachable,
    Unsup(String),
}

#[derive(Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub i: I,
    pub line: u32,
}

#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub ret: TyR,
    pub params: Vec<(TyR, u32)>,
    pub nlocals: u32,
    pub lnames: Vec<String>,
    pub blocks: Vec<Block>,
    pub attrs: Option<u32>,
    pub inline_attrs: String,
    pub module: usize,
    pub features: Vec<String>,
    pub internal: bool,
    pub vararg: bool,
}
#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub ty: TyR,
    pub init: Option<Const>,
    pub constant: bool,
    pub align: u64,
    pub internal: bool,
    pub tls: bool,
    pub module: usize,
}

#[derive(Default)]
pub struct Module {
    pub path: String,
    pub funcs: HashMap<String, &'static Func>,
    pub decls: HashMap<String, (TyR, bool)>,
    pub globals: HashMap<String, &'static Global>,
    pub aliases: HashMap<String, String>,
}

pub struct Program {
    pub modules: Vec<Module>,
    /// externally visible symbol -> module
    pub ext_f: HashMap<String, usize>,
    pub ext_g: HashMap<String, usize>,
}
impl Program {
    pub fn load(paths: &[String]) -> Result<Program, String> {
        let mut p = Program { modules: vec![], ext_f: HashMap::new(), ext_g: HashMap::new() };
        for f in paths {
            let txt = std::fs::read_to_string(f).map_err(|e| format!("{}: {}", f, e))?;
            let idx = p.modules.len();
            let m = parse(&txt, f, idx)?;
            for (n, f) in &m.funcs {
                if !f.internal && !p.ext_f.contains_key(n) {
                    p.ext_f.insert(n.clone(), idx);
                }
            }
            for (n, g) in &m.globals {
                if !g.internal && g.init.is_some() && !p.ext_g.contains_key(n) {
                    p.ext_g.insert(n.clone(), idx);
                }
            }
            p.modules.push(m);
        }
        Ok(p)
    }
    pub fn func(&self, module: usize, name: &str) -> Option<&'static Func> {
        let m = &self.modules[module];
        if let Some(f) = m.funcs.get(name) {
            return Some(f);
        }
        if let Some(a) = m.aliases.get(name) {
            return self.func(module, a);
        }
        self.ext_f.get(name).map(|i| self.modules[*i].funcs[name])
    }
    pub fn global(&self, module: usize, name: &str) -> Option<&'static Global> {
        if let Some(g) = self.modules[module].globals.get(name) {
            if g.init.is_some() {
                return Some(g);
            }
        }
        if let Some(i) = self.ext_g.get(name) {
            return Some(self.modules[*i].globals[name]);
        }
        self.modules[module].globals.get(name).copied()
    }
    pub fn find(&self, name: &str) -> Option<&'static Func> {
        if let Some(i) = self.ext_f.get(name) {
            return Some(self.modules[*i].funcs[name]);
        }
        for m in &self.modules {
            if let Some(f) = m.funcs.get(name) {
                return Some(f);
            }
        }
        None
    }
}

// ------------------------------------------------------------ lexer

#[derive(Clone, Debug, PartialEq)]
enum Tk {
    W(String),
    L(String),
    G(String),
    M(String),
    S(Vec<u8>),
    P(char),
}

fn lex(s: &str, out: &mut Vec<Tk>) -> Result<(), String> {
    let b = s.as_bytes();
    let mut i = 0;
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let quoted = |i: &mut usize| -> Vec<u8> {
        let mut v = vec![];
        *i += 1;
        while b[*i] != b'"' {
            if b[*i] == b'\\' {
                if b[*i + 1] == b'\\' {
                    v.push(b'\\');
                    *i += 2;
                } else {
                    v.push(u8::from_str_radix(std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap(), 16).unwrap());
                    *i += 3;
                }
            } else {
                v.push(b[*i]);
                *i += 1;
            }
        }
        *i += 1;
        v
    };
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
        } else if c == b';' {
            break;
        } else if c == b'%' || c == b'@' || c == b'$' && false {
            i += 1;
            let name = if i < b.len() && b[i] == b'"' {
                String::from_utf8_lossy(&quoted(&mut i)).into_owned()
            } else {
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                s[st..i].to_string()
            };
            out.push(if c == b'%' { Tk::L(name) } else { Tk::G(name) });
        } else if c == b'!' {
            i += 1;
            let st = i;
            while i < b.len() && idc(b[i]) {
                i += 1;
            }
            out.push(Tk::M(s[st..i].to_string()));
        } else if c == b'"' {
            out.push(Tk::S(quoted(&mut i)));
        } else if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' {
            i += 1;
            out.push(Tk::S(quoted(&mut i)));
        } else if idc(c) {
            let st = i;
            while i < b.len() && idc(b[i]) {
                i += 1;
            }
            out.push(Tk::W(s[st..i].to_string()));
        } else {
            out.push(Tk::P(c as char));
            i += 1;
        }
    }
    Ok(())
}

// ------------------------------------------------------------ parser

struct P<'a> {
    t: &'a [Tk],
    i: usize,
    named: &'a HashMap<String, TyR>,
}
type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a Tk> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<&'a Tk> {
        let r = self.t.get(self.i).ok_or_else(|| "unexpected end".to_string())?;
        self.i += 1;
        Ok(r)
    }
    fn is_w(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tk::W(x)) if x == s)
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tk::P(x)) if *x == c)
    }
    fn eat_w(&mut self, s: &str) -> bool {
        if self.is_w(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?} in {:?}", c, self.peek(), &self.t[..self.t.len().min(30)]))
        }
    }
    fn word(&mut self) -> R<&'a str> {
        match self.next()? {
            Tk::W(s) => Ok(s),
            x => Err(format!("expected word, got {:?}", x)),
        }
    }
    fn num(&mut self) -> R<u64> {
        let w = self.word()?;
        w.parse().map_err(|_| format!("number {:?}", w))
    }
    fn skip_parens(&mut self) -> R<()> {
        self.exp('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tk::P('(') => d += 1,
                Tk::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn ty(&mut self) -> R<TyR> {
        let t: TyR = match self.next()? {
            Tk::W(s) => match s.as_str() {
                "void" => &Ty::Void,
                "ptr" => {
                    if self.is_w("addrspace") {
                        self.i += 1;
                        self.skip_parens()?;
                    }
                    &Ty::Ptr
                }
                "half" | "bfloat" => &Ty::Int(16),
                "float" => &Ty::Int(32),
                "double" => &Ty::Int(64),
                "x86_fp80" => &Ty::Float(80),
                "fp128" => &Ty::Float(128),
                "label" => &Ty::Label,
                "metadata" => &Ty::Meta,
                "opaque" => &Ty::Opaque,
                _ if s.starts_with('i') && s[1..].parse::<u16>().is_ok() => mk(Ty::Int(s[1..].parse().unwrap())),
                _ => return Err(format!("type {:?}", s)),
            },
            Tk::L(n) => self.named.get(n).copied().unwrap_or(&Ty::Opaque),
            Tk::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let v = self.ty_list('}')?;
                    self.exp('>')?;
                    mk(Ty::Struct(Box::leak(v.into_boxed_slice()), true))
                } else {
                    let n = self.num()?;
                    if !self.eat_w("x") {
                        return Err("vector type".into());
                    }
                    let e = self.ty()?;
                    self.exp('>')?;
                    mk(Ty::Vec(n as u32, e))
                }
            }
            Tk::P('{') => {
                let v = self.ty_list('}')?;
                mk(Ty::Struct(Box::leak(v.into_boxed_slice()), false))
            }
            Tk::P('[') => {
                let n = self.num()?;
                if !self.eat_w("x") {
                    return Err("array type".into());
                }
                let e = self.ty()?;
                self.exp(']')?;
                mk(Ty::Arr(n, e))
            }
            x => return Err(format!("type {:?}", x)),
        };
        Ok(t)
    }
    fn ty_list(&mut self, end: char) -> R<Vec<TyR>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(end) {
                return Ok(v);
            }
            self.exp(',')?;
        }
    }
    fn is_value_start(&self) -> bool {
        match self.peek() {
            Some(Tk::L(_)) | Some(Tk::G(_)) | Some(Tk::S(_)) | Some(Tk::M(_)) => true,
            Some(Tk::P(c)) => "<[{".contains(*c),
            Some(Tk::W(s)) => {
                matches!(
                    s.as_str(),
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "splat" | "asm" | "add" | "sub" | "xor" | "none"
                ) || s.starts_with(|c: char| c.is_ascii_digit() || c == '-')
            }
            None => false,
        }
    }
    /// Skip parameter attributes; returns the byval type if there is one.
    fn attrs(&mut self) -> R<Option<TyR>> {
        let mut byval = None;
        loop {
            match self.peek() {
                Some(Tk::S(_)) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                Some(Tk::W(s)) if !self.is_value_start() => {
                    self.i += 1;
                    if s == "align" && !self.is_p('(') {
                        self.i += 1;
                    } else if s == "byval" && self.is_p('(') {
                        self.i += 1;
                        byval = Some(self.ty()?);
                        self.exp(')')?;
                    } else if self.is_p('(') {
                        self.skip_parens()?;
                    }
                }
                Some(Tk::P('#')) => {
                    self.i += 2;
                }
                _ => return Ok(byval),
            }
        }
    }
    fn cst(&mut self, ty: TyR) -> R<Const> {
        Ok(match self.next()? {
            Tk::G(n) => Const::Global(n.clone()),
            Tk::S(b) => Const::Bytes(b.clone()),
            Tk::M(_) => {
                if self.is_p('(') {
                    self.skip_parens()?;
                } else if self.is_p('{') {
                    while !self.eat('}') {
                        self.i += 1;
                    }
                } else if matches!(self.peek(), Some(Tk::S(_))) {
                    self.i += 1;
                }
                Const::Meta
            }
            Tk::P('<') => {
                if self.eat('{') {
                    let v = self.agg('}')?;
                    self.exp('>')?;
                    v
                } else {
                    self.agg('>')?
                }
            }
            Tk::P('{') => self.agg('}')?,
            Tk::P('[') => self.agg(']')?,
            Tk::W(s) => match s.as_str() {
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "null" => Const::Null,
                "none" => Const::Null,
                "undef" | "poison" => Const::Undef,
                "zeroinitializer" => Const::Zero,
                "splat" => {
                    self.exp('(')?;
                    let t = self.ty()?;
                    let c = self.cst(t)?;
                    self.exp(')')?;
                    Const::Splat(Box::new(c), t)
                }
                "getelementptr" => {
                    while let Some(Tk::W(_)) = self.peek() {
                        self.i += 1;
                        if self.is_p('(') && matches!(self.t.get(self.i - 1), Some(Tk::W(s)) if s == "inrange") {
                            self.skip_parens()?;
                        }
                    }
                    self.exp('(')?;
                    let bt = self.ty()?;
                    self.exp(',')?;
                    let pt = self.ty()?;
                    let p = self.cst(pt)?;
                    let mut ix = vec![];
                    while self.eat(',') {
                        let t = self.ty()?;
                        ix.push((t, self.cst(t)?));
                    }
                    self.exp(')')?;
                    Const::Gep(bt, Box::new((pt, p)), ix)
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" => {
                    self.exp('(')?;
                    let t = self.ty()?;
                    let c = self.cst(t)?;
                    if !self.eat_w("to") {
                        return Err("const cast".into());
                    }
                    let d = self.ty()?;
                    self.exp(')')?;
                    Const::Cast(s.clone(), Box::new((t, c)), d)
                }
                "add" | "sub" | "xor" => {
                    while self.is_w("nuw") || self.is_w("nsw") {
                        self.i += 1;
                    }
                    self.exp('(')?;
                    let t = self.ty()?;
                    let a = self.cst(t)?;
                    self.exp(',')?;
                    let t2 = self.ty()?;
                    let b = self.cst(t2)?;
                    self.exp(')')?;
                    Const::Bin(s.clone(), Box::new((t, a)), Box::new((t2, b)))
                }
                _ => {
                    if matches!(ty, Ty::Float(_)) {
                        return Ok(Const::Float(s.clone()));
                    }
                    if let Some(n) = s.strip_prefix('-') {
                        let v: u128 = n.parse().map_err(|_| format!("const {:?}", s))?;
                        Const::Int(v.wrapping_neg())
                    } else {
                        Const::Int(s.parse().map_err(|_| format!("const {:?} of {:?}", s, ty))?)
                    }
                }
            },
            x => return Err(format!("const {:?}", x)),
        })
    }
    fn agg(&mut self, end: char) -> R<Const> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(Const::Agg(v));
        }
        loop {
            let t = self.ty()?;
            v.push((t, self.cst(t)?));
            if self.eat(end) {
                return Ok(Const::Agg(v));
            }
            self.exp(',')?;
        }
    }
}

struct Fx<'a> {
    locals: HashMap<String, u32>,
    lnames: Vec<String>,
    blocks: HashMap<String, u32>,
    nblocks: u32,
    ph: std::marker::PhantomData<&'a ()>,
}
impl<'a> Fx<'a> {
    fn local(&mut self, n: &str) -> u32 {
        if let Some(i) = self.locals.get(n) {
            return *i;
        }
        let i = self.lnames.len() as u32;
        self.locals.insert(n.to_string(), i);
        self.lnames.push(n.to_string());
        i
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(i) = self.blocks.get(n) {
            return *i;
        }
        let i = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), i);
        i
    }
    fn val(&mut self, p: &mut P, ty: TyR) -> R<Val> {
        if let Some(Tk::L(n)) = p.peek() {
            p.i += 1;
            return Ok(Val::Local(self.local(n)));
        }
        if p.is_w("asm") {
            p.i += 1;
            let mut s = String::new();
            while !p.is_p('(') {
                if let Tk::S(b) = p.next()? {
                    s = String::from_utf8_lossy(b).into_owned() + "|" + &s;
                }
            }
            return Ok(Val::Asm(s));
        }
        Ok(Val::C(p.cst(ty)?))
    }
    fn opd(&mut self, p: &mut P) -> R<Opd> {
        let ty = p.ty()?;
        p.attrs()?;
        if matches!(ty, Ty::Meta) {
            // skip the metadata operand
            while !(p.is_p(',') || p.is_p(')')) {
                if p.is_p('(') {
                    p.skip_parens()?;
                } else {
                    p.i += 1;
                }
            }
            return Ok(Opd { ty, v: Val::C(Const::Meta) });
        }
        let v = self.val(p, ty)?;
        Ok(Opd { ty, v })
    }
    fn label(&mut self, p: &mut P) -> R<u32> {
        if !p.eat_w("label") {
            return Err("label".into());
        }
        match p.next()? {
            Tk::L(n) => Ok(self.block(n)),
            x => Err(format!("label {:?}", x)),
        }
    }
}

const BINS: &[&str] = &[
    "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
];
const CASTS: &[&str] = &["zext", "sext", "trunc", "ptrtoint", "ptrtoaddr", "inttoptr", "bitcast", "addrspacecast"];
const PREDS: &[&str] = &["eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"];

fn inst(f: &mut Fx, p: &mut P, line: u32) -> R<Inst> {
    let mut dst = None;
    if let (Some(Tk::L(n)), Some(Tk::P('='))) = (p.t.get(0), p.t.get(1)) {
        dst = Some(f.local(n));
        p.i = 2;
    }
    while p.is_w("tail") || p.is_w("musttail") || p.is_w("notail") {
        p.i += 1;
    }
    let opw = p.word()?.to_string();
    let align = |p: &mut P| -> u64 {
        for i in p.i..p.t.len().saturating_sub(1) {
            if p.t[i] == Tk::W("align".into()) {
                if let Tk::W(x) = &p.t[i + 1] {
                    return x.parse().unwrap_or(1);
                }
            }
        }
        1
    };
    let flags = |p: &mut P| {
        while let Some(Tk::W(s)) = p.peek() {
            if matches!(s.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "fast" | "nnan") {
                p.i += 1;
            } else {
                break;
            }
        }
    };
    let i = if let Some(b) = BINS.iter().find(|b| **b == opw) {
        flags(p);
        let a = f.opd(p)?;
        p.exp(',')?;
        let v = f.val(p, a.ty)?;
        I::Bin(b, a, v)
    } else if let Some(cn) = CASTS.iter().find(|b| **b == opw) {
        flags(p);
        let a = f.opd(p)?;
        if !p.eat_w("to") {
            return Err("cast".into());
        }
        let t = p.ty()?;
        I::Cast(cn, a, t)
    } else {
        match opw.as_str() {
            "icmp" => {
                flags(p);
                let w = p.word()?;
                let pr = PREDS.iter().find(|x| **x == w).ok_or("pred")?;
                let a = f.opd(p)?;
                p.exp(',')?;
                let v = f.val(p, a.ty)?;
                I::Icmp(pr, a, v)
            }
            "alloca" => {
                p.eat_w("inalloca");
                let t = p.ty()?;
                let mut cnt = None;
                let mut al = 1;
                while p.eat(',') {
                    if p.eat_w("align") {
                        al = p.num()?;
                    } else if matches!(p.peek(), Some(Tk::M(_))) {
                        break;
                    } else if p.is_w("addrspace") {
                        p.i += 1;
                        p.skip_parens()?;
                    } else {
                        cnt = Some(f.opd(p)?);
                    }
                }
                I::Alloca(t, cnt, al)
            }
            "load" => {
                p.eat_w("atomic");
                flags(p);
                let t = p.ty()?;
                p.exp(',')?;
                let q = f.opd(p)?;
                I::Load(t, q, align(p))
            }
            "store" => {
                p.eat_w("atomic");
                flags(p);
                let v = f.opd(p)?;
                p.exp(',')?;
                let q = f.opd(p)?;
                I::Store(v, q, align(p))
            }
            "getelementptr" => {
                flags(p);
                if p.is_w("inrange") {
                    p.i += 1;
                    p.skip_parens()?;
                }
                let t = p.ty()?;
                p.exp(',')?;
                let b = f.opd(p)?;
                let mut ix = vec![];
                while p.eat(',') {
                    if matches!(p.peek(), Some(Tk::M(_))) {
                        break;
                    }
                    ix.push(f.opd(p)?);
                }
                I::Gep(t, b, ix)
            }
            "select" => {
                flags(p);
                let a = f.opd(p)?;
                p.exp(',')?;
                let b = f.opd(p)?;
                p.exp(',')?;
                let c = f.opd(p)?;
                I::Select(a, b, c)
            }
            "phi" => {
                flags(p);
                let t = p.ty()?;
                let mut v = vec![];
                loop {
                    p.exp('[')?;
                    let x = f.val(p, t)?;
                    p.exp(',')?;
                    let b = match p.next()? {
                        Tk::L(n) => f.block(n),
                        x => return Err(format!("phi {:?}", x)),
                    };
                    p.exp(']')?;
                    v.push((x, b));
                    if !p.eat(',') || matches!(p.peek(), Some(Tk::M(_))) {
                        break;
                    }
                }
                I::Phi(t, v)
            }
            "call" | "invoke" => {
                // calling convention, fast-math flags, return attributes
                loop {
                    if let Some(Tk::W(s)) = p.peek() {
                        if s == "void" || s == "ptr" || s == "float" || s == "double" || (s.starts_with('i') && s[1..].parse::<u16>().is_ok()) {
                            break;
                        }
                        p.i += 1;
                        if s == "align" && !p.is_p('(') {
                            p.i += 1;
                        } else if p.is_p('(') {
                            p.skip_parens()?;
                        }
                    } else {
                        break;
                    }
                }
                let ret = p.ty()?;
                if p.is_p('(') {
                    p.skip_parens()?;
                }
                let callee = f.val(p, &Ty::Ptr)?;
                p.exp('(')?;
                let mut args = vec![];
                if !p.eat(')') {
                    loop {
                        let ty = p.ty()?;
                        let bv = p.attrs()?;
                        if matches!(ty, Ty::Meta) {
                            while !(p.is_p(',') || p.is_p(')')) {
                                if p.is_p('(') {
                                    p.skip_parens()?;
                                } else {
                                    p.i += 1;
                                }
                            }
                            args.push((Opd { ty, v: Val::C(Const::Meta) }, None));
                        } else {
                            let v = f.val(p, ty)?;
                            args.push((Opd { ty, v }, bv));
                        }
                        if p.eat(')') {
                            break;
                        }
                        p.exp(',')?;
                    }
                }
                let mut next = None;
                if opw == "invoke" {
                    while !p.is_w("to") {
                        p.next()?;
                    }
                    p.i += 1;
                    next = Some(f.label(p)?);
                }
                I::Call { ret, callee, args, next }
            }
            "extractelement" => {
                let a = f.opd(p)?;
                p.exp(',')?;
                I::ExtElem(a, f.opd(p)?)
            }
            "insertelement" => {
                let a = f.opd(p)?;
                p.exp(',')?;
                let b = f.opd(p)?;
                p.exp(',')?;
                I::InsElem(a, b, f.opd(p)?)
            }
            "shufflevector" => {
                let a = f.opd(p)?;
                p.exp(',')?;
                let b = f.opd(p)?;
                p.exp(',')?;
                I::Shuffle(a, b, f.opd(p)?)
            }
            "extractvalue" => {
                let a = f.opd(p)?;
                let mut ix = vec![];
                while p.eat(',') {
                    if matches!(p.peek(), Some(Tk::M(_))) {
                        break;
                    }
                    ix.push(p.num()? as u32);
                }
                I::ExtVal(a, ix)
            }
            "insertvalue" => {
                let a = f.opd(p)?;
                p.exp(',')?;
                let b = f.opd(p)?;
                let mut ix = vec![];
                while p.eat(',') {
                    if matches!(p.peek(), Some(Tk::M(_))) {
                        break;
                    }
                    ix.push(p.num()? as u32);
                }
                I::InsVal(a, b, ix)
            }
            "freeze" => I::Freeze(f.opd(p)?),
            "ret" => {
                if p.eat_w("void") {
                    I::Ret(None)
                } else {
                    I::Ret(Some(f.opd(p)?))
                }
            }
            "br" => {
                if p.is_w("label") {
                    I::Br(f.label(p)?)
                } else {
                    let c = f.opd(p)?;
                    p.exp(',')?;
                    let a = f.label(p)?;
                    p.exp(',')?;
                    let b = f.label(p)?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let v = f.opd(p)?;
                p.exp(',')?;
                let d = f.label(p)?;
                p.exp('[')?;
                let mut cs = vec![];
                while !p.eat(']') {
                    let t = p.ty()?;
                    let c = match p.cst(t)? {
                        Const::Int(v) => v,
                        _ => return Err("switch".into()),
                    };
                    p.exp(',')?;
                    cs.push((c, f.label(p)?));
                }
                I::Switch(v, d, cs)
            }
            "atomicrmw" => {
                flags(p);
                let o = p.word()?.to_string();
                let a = f.opd(p)?;
                p.exp(',')?;
                I::AtomicRmw(o, a, f.opd(p)?)
            }
            "cmpxchg" => {
                p.eat_w("weak");
                flags(p);
                let a = f.opd(p)?;
                p.exp(',')?;
                let b = f.opd(p)?;
                p.exp(',')?;
                I::CmpXchg(a, b, f.opd(p)?)
            }
            "fence" => I::Fence,
            "unreachable" => I::Unreachable,
            "fneg" => I::FNeg,
            _ => I::Unsup(opw.clone()),
        }
    };
    Ok(Inst { dst, i, line })
}

fn parse(txt: &str, path: &str, midx: usize) -> R<Module> {
    let mut m = Module { path: path.to_string(), ..Default::default() };
    let lines: Vec<&str> = txt.lines().collect();
    // attribute groups and named types first
    let mut feats: HashMap<u32, Vec<String>> = HashMap::new();
    let mut named: HashMap<String, TyR> = HashMap::new();
    let mut pending: Vec<(String, Vec<Tk>)> = vec![];
    for l in &lines {
        if let Some(r) = l.strip_prefix("attributes #") {
            let n: u32 = r[..r.find(' ').unwrap_or(0)].parse().unwrap_or(0);
            if let Some(k) = r.find("\"target-features\"=\"") {
                let s = &r[k + 19..];
                let s = &s[..s.find('"').unwrap()];
                feats.insert(n, s.split(',').map(|x| x.to_string()).collect());
            }
        } else if l.starts_with('%') && l.contains(" = type ") {
            let mut v = vec![];
            lex(l, &mut v)?;
            if let Tk::L(n) = &v[0] {
                pending.push((n.clone(), v[3..].to_vec()));
            }
        }
    }
    // resolve by repetition (types may refer to later ones)
    let mut round = 0;
    while !pending.is_empty() && round < 64 {
        let mut rest = vec![];
        for (n, t) in pending {
            let ready = t.iter().all(|x| match x {
                Tk::L(k) => named.contains_key(k),
                _ => true,
            });
            if ready {
                let mut p = P { t: &t, i: 0, named: &named };
                let ty = p.ty()?;
                named.insert(n, ty);
            } else {
                rest.push((n, t));
            }
        }
        pending = rest;
        round += 1;
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            let mut v = vec![];
            lex(l, &mut v)?;
            global(&mut m, &v, &named, midx).map_err(|e| format!("{}:{}: {}", path, i + 1, e))?;
        } else if l.starts_with("declare ") {
            let mut v = vec![];
            lex(l, &mut v)?;
            let mut p = P { t: &v, i: 1, named: &named };
            while !matches!(p.peek(), Some(Tk::G(_))) {
                if p.i >= v.len() {
                    break;
                }
                p.i += 1;
            }
            if let Some(Tk::G(n)) = p.peek() {
                m.decls.insert(n.clone(), (&Ty::Void, false));
            }
        } else if l.starts_with("define ") {
            let start = i;
            let mut v = vec![];
            lex(l, &mut v)?;
            let mut j = i + 1;
            while lines[j] != "}" {
                j += 1;
            }
            let f = func(&v, &lines[start + 1..j], start as u32 + 2, &named, midx)
                .map_err(|e| format!("{}:{} {}", path, start + 1, e))?;
            let mut f = f;
            if let Some(a) = f.attrs {
                if let Some(x) = feats.get(&a) {
                    f.features = x.clone();
                }
            }
            m.funcs.insert(f.name.clone(), Box::leak(Box::new(f)));
            i = j;
        }
        i += 1;
    }
    Ok(m)
}

fn global(m: &mut Module, v: &[Tk], named: &HashMap<String, TyR>, midx: usize) -> R<()> {
    let mut p = P { t: v, i: 0, named };
    let name = match p.next()? {
        Tk::G(n) => n.clone(),
        _ => return Err("global".into()),
    };
    p.exp('=')?;
    let mut ext = false;
    let mut internal = false;
    let mut tls = false;
    let constant;
    loop {
        match p.peek() {
            Some(Tk::W(s)) if s == "thread_local" => {
                tls = true;
                p.i += 1;
                if p.is_p('(') {
                    p.skip_parens()?;
                }
            }
            Some(Tk::W(s)) => match s.as_str() {
                "global" => {
                    constant = false;
                    p.i += 1;
                    break;
                }
                "constant" => {
                    constant = true;
                    p.i += 1;
                    break;
                }
                "alias" | "ifunc" => {
                    p.i += 1;
                    // last global token is the aliasee
                    let tgt = v.iter().rev().find_map(|t| if let Tk::G(n) = t { Some(n.clone()) } else { None });
                    m.aliases.insert(name, tgt.unwrap_or_default());
                    return Ok(());
                }
                "private" | "internal" => {
                    internal = true;
                    p.i += 1
                }
                "external" | "extern_weak" => {
                    ext = true;
                    p.i += 1
                }
                _ => {
                    p.i += 1;
                    if p.is_p('(') {
                        p.skip_parens()?;
                    }
                }
            },
            _ => return Err(format!("global {:?}", p.peek())),
        }
    }
    let ty = p.ty()?;
    let init = if ext || p.peek().is_none() || p.is_p(',') { None } else { Some(p.cst(ty)?) };
    let mut align = 1;
    while p.i < v.len() {
        if p.eat_w("align") {
            align = p.num()?;
        } else {
            p.i += 1;
        }
    }
    m.globals.insert(
        name.clone(),
        Box::leak(Box::new(Global { name, ty, init, constant, align, internal, tls, module: midx })),
    );
    Ok(())
}

fn func(head: &[Tk], body: &[&str], line0: u32, named: &HashMap<String, TyR>, midx: usize) -> R<Func> {
    let mut p = P { t: head, i: 1, named };
    let mut f = Fx { locals: HashMap::new(), lnames: vec![], blocks: HashMap::new(), nblocks: 0, ph: Default::default() };
    let mut internal = false;
    loop {
        match p.peek() {
            Some(Tk::W(s)) if s == "internal" || s == "private" => {
                internal = true;
                p.i += 1;
            }
            Some(Tk::W(s)) => {
                if s == "void" || s == "ptr" || s == "float" || s == "double" || (s.starts_with('i') && s[1..].parse::<u16>().is_ok()) {
                    break;
                }
                p.i += 1;
                if s == "align" && !p.is_p('(') {
                    p.i += 1;
                } else if p.is_p('(') {
                    p.skip_parens()?;
                }
            }
            _ => break,
        }
    }
    let ret = p.ty()?;
    let name = match p.next()? {
        Tk::G(n) => n.clone(),
        x => return Err(format!("function name {:?}", x)),
    };
    p.exp('(')?;
    let mut params = vec![];
    let mut vararg = false;
    if !p.eat(')') {
        loop {
            if p.is_w("...") {
                vararg = true;
                p.i += 1;
                p.exp(')')?;
                break;
            }
            let ty = p.ty()?;
            p.attrs()?;
            let ln = match p.peek() {
                Some(Tk::L(n)) => {
                    p.i += 1;
                    n.clone()
                }
                _ => format!("{}", params.len()),
            };
            params.push((ty, f.local(&ln)));
            if p.eat(')') {
                break;
            }
            p.exp(',')?;
        }
    }
    let mut attrs = None;
    while p.i < head.len() {
        if p.eat('#') {
            if let Ok(n) = p.num() {
                attrs = Some(n as u32);
            }
        } else {
            p.i += 1;
        }
    }
    // first block's implicit name
    let mut blocks: Vec<Block> = vec![];
    let mut order: Vec<u32> = vec![];
    let mut cur: Option<usize> = None;
    let mut i = 0;
    while i < body.len() {
        let l = body[i];
        let ln = line0 + i as u32;
        let t = l.trim_start();
        if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") {
            i += 1;
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let mut v = vec![];
            lex(l, &mut v)?;
            let n = match &v[0] {
                Tk::W(s) => s.clone(),
                Tk::S(b) => String::from_utf8_lossy(b).into_owned(),
                x => return Err(format!("{}: label {:?}", ln, x)),
            };
            order.push(f.block(&n));
            blocks.push(Block { name: n, insts: vec![] });
            cur = Some(blocks.len() - 1);
            i += 1;
            continue;
        }
        if cur.is_none() {
            let n = format!("{}", params.len());
            order.push(f.block(&n));
            blocks.push(Block { name: n, insts: vec![] });
            cur = Some(blocks.len() - 1);
        }
        let mut v = vec![];
        lex(l, &mut v)?;
        // multi-line instructions
        if t.contains("switch ") && t.trim_end().ends_with('[') {
            while !body[i].trim_start().starts_with(']') {
                i += 1;
                lex(body[i], &mut v)?;
            }
        } else if t.contains("invoke ") {
            i += 1;
            lex(body[i], &mut v)?;
        } else if t.contains("landingpad") {
            while i + 1 < body.len() && matches!(body[i + 1].trim_start().split(' ').next(), Some("cleanup" | "catch" | "filter")) {
                i += 1;
            }
        }
        let mut p = P { t: &v, i: 0, named };
        let ins = inst(&mut f, &mut p, ln).map_err(|e| format!("line {}: {} in {:?}", ln, e, l))?;
        blocks[cur.unwrap()].insts.push(ins);
        i += 1;
    }
    // reorder blocks by id
    let n = f.nblocks as usize;
    let mut out: Vec<Option<Block>> = (0..n).map(|_| None).collect();
    for (b, id) in blocks.into_iter().zip(&order) {
        out[*id as usize] = Some(b);
    }
    let entry = order[0];
    let mut blocks: Vec<Block> = vec![];
    for b in out {
        blocks.push(b.ok_or("missing block")?);
    }
    if entry != 0 {
        // entry is registered first unless phi/labels referenced others before; keep index 0
        return Err("entry block is not first".into());
    }
    Ok(Func {
        name,
        ret,
        params,
        nlocals: f.lnames.len() as u32,
        lnames: f.lnames,
        blocks,
        attrs,
        inline_attrs: String::new(),
        module: midx,
        features: vec![],
        internal,
        vararg,
    })
}

// ------------------------------------------------------------ layout

pub fn size_bits(t: TyR) -> u64 {
    match t {
        Ty::Int(n) => *n as u64,
        Ty::Float(n) => *n as u64,
        Ty::Ptr => 64,
        Ty::Vec(n, e) => *n as u64 * size_bits(e),
        _ => alloc_size(t) * 8,
    }
}
pub fn store_size(t: TyR) -> u64 {
    (size_bits(t) + 7) / 8
}
pub fn align_of(t: TyR) -> u64 {
    match t {
        Ty::Int(n) => {
            let b = (*n as u64 + 7) / 8;
            b.next_power_of_two().min(16).max(1)
        }
        Ty::Float(n) => ((*n as u64 + 7) / 8).next_power_of_two().min(16),
        Ty::Ptr => 8,
        Ty::Vec(..) => store_size(t).next_power_of_two(),
        Ty::Arr(_, e) => align_of(e),
        Ty::Struct(es, packed) => {
            if *packed {
                1
            } else {
                es.iter().map(|e| align_of(e)).max().unwrap_or(1)
            }
        }
        _ => 1,
    }
}
pub fn alloc_size(t: TyR) -> u64 {
    match t {
        Ty::Arr(n, e) => n * alloc_size(e),
        Ty::Struct(es, packed) => {
            let mut o = 0u64;
            for e in es.iter() {
                if !packed {
                    o = o.next_multiple_of(align_of(e));
                }
                o += alloc_size(e);
            }
            if !packed {
                o = o.next_multiple_of(align_of(t));
            }
            o
        }
        Ty::Void | Ty::Opaque | Ty::Label | Ty::Meta | Ty::Func => 0,
        _ => store_size(t).next_multiple_of(align_of(t)),
    }
}
pub fn field_off(t: TyR, i: usize) -> (u64, TyR) {
    match t {
        Ty::Struct(es, packed) => {
            let mut o = 0u64;
            for (k, e) in es.iter().enumerate() {
                if !packed {
                    o = o.next_multiple_of(align_of(e));
                }
                if k == i {
                    return (o, e);
                }
                o += alloc_size(e);
            }
            panic!("field")
        }
        Ty::Arr(_, e) => (i as u64 * alloc_size(e), e),
        Ty::Vec(_, e) => (i as u64 * store_size(e), e),
        _ => panic!("field_off"),
    }
}
