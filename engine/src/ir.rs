//! Parser for the textual LLVM IR rustc emits, into a compact executable form.
use std::collections::HashMap;
use std::sync::Arc as Rc;

pub type R<T> = Result<T, String>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    /// IEEE float of the given width (16, 32, 64, 128); 80 is x86_fp80
    Float(u32),
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Named(Rc<str>),
    Label,
    Metadata,
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub big_endian: bool,
    pub ptr_bits: u32,
    int_align: Vec<(u32, u32)>,
    float_align: Vec<(u32, u32)>,
    vec_align: Vec<(u32, u32)>,
}

impl Layout {
    fn parse(s: &str) -> R<Layout> {
        let mut l = Layout {
            big_endian: false,
            ptr_bits: 64,
            int_align: vec![(1, 1), (8, 1), (16, 2), (32, 4), (64, 4)],
            float_align: vec![(16, 2), (32, 4), (64, 8), (128, 16)],
            vec_align: vec![(64, 8), (128, 16)],
        };
        for f in s.split('-') {
            let num = |x: &str| x.parse::<u32>().map_err(|_| format!("datalayout {f}"));
            if f == "E" {
                l.big_endian = true
            } else if f == "e" {
                l.big_endian = false
            } else if let Some(r) = f.strip_prefix("p:") {
                l.ptr_bits = num(r.split(':').next().unwrap())?;
            } else if f.starts_with('i') || f.starts_with('f') || f.starts_with('v') {
                let mut it = f[1..].split(':');
                let (Some(w), Some(a)) = (it.next(), it.next()) else { continue };
                let (Ok(w), Ok(a)) = (w.parse::<u32>(), a.parse::<u32>()) else { continue };
                let t = match &f[..1] {
                    "i" => &mut l.int_align,
                    "f" => &mut l.float_align,
                    _ => &mut l.vec_align,
                };
                t.retain(|x| x.0 != w);
                t.push((w, a / 8));
            }
        }
        l.int_align.sort();
        Ok(l)
    }
    pub fn ptr_bytes(&self) -> u64 {
        (self.ptr_bits / 8) as u64
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ord_ {
    Na,
    Unordered,
    Rlx,
    Acq,
    Rel,
    AcqRel,
    Sc,
}
impl Ord_ {
    pub fn acq(self) -> bool {
        matches!(self, Ord_::Acq | Ord_::AcqRel | Ord_::Sc)
    }
    pub fn rel(self) -> bool {
        matches!(self, Ord_::Rel | Ord_::AcqRel | Ord_::Sc)
    }
    pub fn sc(self) -> bool {
        self == Ord_::Sc
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Nand,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
    FAdd,
    FSub,
    FMax,
    FMin,
    /// bit clear: mem & !val (LDCLR)
    Clr,
}

/// Concrete constant or slot.
#[derive(Clone, Debug)]
pub enum Opd {
    Slot(u32),
    Const(Cv),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Cv {
    Int(u128),
    Agg(Rc<Vec<Cv>>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    BitCast,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
    FOeq,
    FOgt,
    FOge,
    FOlt,
    FOle,
    FOne,
    FOrd,
    FUeq,
    FUgt,
    FUge,
    FUlt,
    FUle,
    FUne,
    FUno,
    FTrue,
    FFalse,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ind(Opd),
    Asm(u32),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { dst: u32, size: u64, align: u64 },
    Load { dst: u32, ty: Ty, ptr: Opd, ord: Ord_, volatile: bool, singlethread: bool },
    Store { ty: Ty, val: Opd, ptr: Opd, ord: Ord_, volatile: bool, singlethread: bool },
    Rmw { dst: u32, op: RmwOp, bits: u32, ptr: Opd, val: Opd, ord: Ord_, singlethread: bool },
    CmpXchg { dst: u32, bits: u32, ptr: Opd, cmp: Opd, new: Opd, succ: Ord_, fail: Ord_, weak: bool, singlethread: bool },
    Fence { ord: Ord_, singlethread: bool },
    /// base + const + sum(scale * sext(idx))
    Gep { dst: u32, base: Opd, off: u64, idx: Vec<(Opd, u32, u64)> },
    Bin { dst: u32, op: Bin, ty: Ty, a: Opd, b: Opd },
    FNeg { dst: u32, bits: u32, a: Opd },
    Icmp { dst: u32, pred: Pred, ty: Ty, a: Opd, b: Opd },
    Fcmp { dst: u32, pred: Pred, bits: u32, a: Opd, b: Opd },
    Select { dst: u32, c: Opd, a: Opd, b: Opd },
    Cast { dst: u32, op: Cast, from: Ty, to: Ty, a: Opd },
    Freeze { dst: u32, a: Opd },
    ExtractValue { dst: u32, a: Opd, path: Vec<u32> },
    InsertValue { dst: u32, a: Opd, v: Opd, path: Vec<u32> },
    ExtractElement { dst: u32, a: Opd, i: Opd },
    InsertElement { dst: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, a: Opd, b: Opd, mask: Vec<u32>, n: u32 },
    Call { dst: Option<u32>, callee: Callee, args: Vec<Opd>, argtys: Vec<Ty>, ret: Ty },
    Br { to: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { c: Opd, default: u32, cases: Vec<(u128, u32)> },
    Ret { v: Option<Opd> },
    Unreachable,
    Nop,
}

#[derive(Clone, Debug)]
pub struct Block {
    /// (dst, incoming (pred block, value))
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nslots: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub varargs: bool,
    pub ret: Ty,
    /// live-in slots for each block (bitset words), filled by liveness()
    pub live_in: Vec<Vec<u64>>,
    pub features: String,
}

#[derive(Clone, Debug)]
pub struct AsmSite {
    pub template: String,
    pub constraints: String,
    pub sideeffect: bool,
    /// memory effects the compiler may assume
    pub reads: bool,
    pub writes: bool,
    pub attr: String,
    pub intel: bool,
    pub ret: Ty,
    pub argtys: Vec<Ty>,
    pub func: String,
}

#[derive(Clone, Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<GInit>,
    pub align: u64,
    pub constant: bool,
    pub external: bool,
    pub alias_of: Option<String>,
}
#[derive(Clone, Debug)]
pub enum GInit {
    Zero,
    Undef,
    Int(u128),
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, GInit)>),
    Sym(String, i64),
}

pub struct Program {
    pub layout: Layout,
    pub triple: String,
    pub types: HashMap<Rc<str>, Ty>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    pub asms: Vec<AsmSite>,
    /// base address of each global, parallel to `globals`
    pub gaddr: Vec<u64>,
    pub gend: u64,
    pub image: Vec<u8>,
    pub gbase: u64,
}

pub struct AddrMap {
    pub func_base: u64,
    pub func_step: u64,
    pub global_base: u64,
    pub obj_base: u64,
    pub stack_base: u64,
    pub stack_size: u64,
}
pub fn addr_map(ptr_bits: u32) -> AddrMap {
    if ptr_bits == 16 {
        AddrMap { func_base: 0x100, func_step: 1, global_base: 0x4000, obj_base: 0x9000, stack_base: 0xA000, stack_size: 0x1000 }
    } else {
        AddrMap { func_base: 0x1_0000, func_step: 16, global_base: 0x20_0000, obj_base: 0x80_0000, stack_base: 0x100_0000, stack_size: 0x4000 }
    }
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),     // bare word
    Local(String),  // %x
    Global(String), // @x
    Meta(String),   // !x
    Attr(String),   // #n
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Dots,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1].is_ascii_hexdigit() && s[i + 2].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(std::str::from_utf8(&s[i + 1..i + 3]).unwrap(), 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

fn lex(line: &str, out: &mut Vec<Tok>) -> R<()> {
    let b = line.as_bytes();
    let mut i = 0;
    let is_id = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => break,
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(unescape(&b[i + 1..j])));
                i = j + 1;
            }
            b'%' | b'@' | b'!' | b'#' => {
                let mut j = i + 1;
                let name;
                if j < b.len() && b[j] == b'"' && c != b'!' {
                    let mut k = j + 1;
                    while b[k] != b'"' {
                        k += 1;
                    }
                    name = String::from_utf8_lossy(&b[j + 1..k]).to_string();
                    j = k + 1;
                } else {
                    while j < b.len() && is_id(b[j]) {
                        j += 1;
                    }
                    name = line[i + 1..j].to_string();
                }
                out.push(match c {
                    b'%' => Tok::Local(name),
                    b'@' => Tok::Global(name),
                    b'#' => Tok::Attr(name),
                    _ => Tok::Meta(name),
                });
                i = j;
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || ((b[j] == b'+' || b[j] == b'-') && (b[j - 1] == b'e'))) {
                    j += 1;
                }
                out.push(Tok::Num(line[i..j].to_string()));
                i = j;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::CStr(unescape(&b[i + 2..j])));
                i = j + 1;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let mut j = i + 1;
                while j < b.len() && is_id(b[j]) {
                    j += 1;
                }
                out.push(Tok::Id(line[i..j].to_string()));
                i = j;
            }
            b'.' if b[i..].starts_with(b"...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            b'(' | b')' | b'{' | b'}' | b'[' | b']' | b'<' | b'>' | b',' | b'=' | b'*' | b':' | b'|' => {
                out.push(Tok::P(c as char));
                i += 1;
            }
            _ => return Err(format!("lex: unexpected {:?} in {line}", c as char)),
        }
    }
    Ok(())
}

/// A parsed value before slot/global resolution.
#[derive(Clone, Debug)]
enum Pv {
    Local(String),
    Sym(String, i64),
    Int(u128),
    Bytes(Vec<u8>),
    Zero,
    Undef,
    Agg(Vec<(Ty, Pv)>),
    Splat(Box<(Ty, Pv)>),
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    types: &'a HashMap<Rc<str>, Ty>,
    ctx: &'a str,
    layout: &'a Layout,
}

const FLOATS: &[(&str, u32)] = &[("half", 16), ("float", 32), ("double", 64), ("fp128", 128), ("x86_fp80", 80), ("bfloat", 17)];

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        Err(format!("{m} at token {} in: {}", self.i, self.ctx))
    }
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<&'a Tok> {
        let t = self.t.get(self.i).ok_or_else(|| format!("unexpected end: {}", self.ctx))?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            self.err(&format!("expected {c:?}, found {:?}", self.peek()))
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn id(&mut self) -> R<String> {
        match self.next()? {
            Tok::Id(s) => Ok(s.clone()),
            t => Err(format!("expected word, found {t:?} in {}", self.ctx)),
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.expect('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::Id(s)) => {
                s == "void" || s == "ptr" || s == "label" || s == "metadata" || s == "token" || FLOATS.iter().any(|f| f.0 == s) || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::Local(n)) => self.types.contains_key(n.as_str()),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.is_id("addrspace") {
                        self.i += 1;
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "label" => Ty::Label,
                "metadata" | "token" => Ty::Metadata,
                _ => {
                    if let Some(f) = FLOATS.iter().find(|f| f.0 == s) {
                        Ty::Float(f.1)
                    } else if let Some(n) = s.strip_prefix('i').and_then(|n| n.parse::<u32>().ok()) {
                        Ty::Int(n)
                    } else {
                        return self.err(&format!("unknown type {s}"));
                    }
                }
            },
            Tok::Local(n) => Ty::Named(n.as_str().into()),
            Tok::P('{') => Ty::Struct(Rc::new(self.ty_list('}')?), false),
            Tok::P('[') => {
                let n = self.num()?;
                if !self.eat_id("x") {
                    return self.err("expected x");
                }
                let e = self.ty()?;
                self.expect(']')?;
                Ty::Array(n as u64, Rc::new(e))
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let l = self.ty_list('}')?;
                    self.expect('>')?;
                    Ty::Struct(Rc::new(l), true)
                } else {
                    if self.eat_id("vscale") {
                        return self.err("scalable vector");
                    }
                    let n = self.num()?;
                    if !self.eat_id("x") {
                        return self.err("expected x");
                    }
                    let e = self.ty()?;
                    self.expect('>')?;
                    Ty::Vector(n as u64, Rc::new(e))
                }
            }
            t => return Err(format!("expected type, found {t:?} in {}", self.ctx)),
        };
        Ok(t)
    }
    fn ty_list(&mut self, close: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(close) {
                return Ok(v);
            }
            self.expect(',')?;
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Num(s) => s.parse::<i128>().map_err(|_| format!("bad number {s} in {}", self.ctx)),
            t => Err(format!("expected number, found {t:?} in {}", self.ctx)),
        }
    }
    fn resolve(&self, t: &Ty) -> Ty {
        let mut t = t.clone();
        while let Ty::Named(n) = &t {
            t = self.types.get(n).cloned().unwrap_or(Ty::Void);
        }
        t
    }
    /// value of known type
    fn val(&mut self, ty: &Ty) -> R<Pv> {
        let tok = self.next()?;
        Ok(match tok {
            Tok::Local(n) => Pv::Local(n.clone()),
            Tok::Global(n) => Pv::Sym(n.clone(), 0),
            Tok::CStr(b) => Pv::Bytes(b.clone()),
            Tok::Num(s) => match self.resolve(ty) {
                Ty::Int(w) => Pv::Int(mask(parse_int(s).ok_or_else(|| format!("bad int {s}: {}", self.ctx))?, w)),
                Ty::Float(w) => Pv::Int(parse_float(s, w).ok_or_else(|| format!("bad float {s}: {}", self.ctx))?),
                t => return self.err(&format!("number for type {t:?}")),
            },
            Tok::Id(s) => match s.as_str() {
                "true" => Pv::Int(1),
                "false" => Pv::Int(0),
                "null" | "none" => Pv::Zero,
                "zeroinitializer" => Pv::Zero,
                "undef" | "poison" => Pv::Undef,
                "splat" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let v = self.val(&t)?;
                    self.expect(')')?;
                    Pv::Splat(Box::new((t, v)))
                }
                "getelementptr" => {
                    while let Some(Tok::Id(_)) = self.peek() {
                        let inr = self.is_id("inrange");
                        self.i += 1;
                        if inr {
                            self.skip_parens()?;
                        }
                    }
                    self.expect('(')?;
                    let et = self.ty()?;
                    self.expect(',')?;
                    let pt = self.ty()?;
                    let base = self.val(&pt)?;
                    let mut idx = vec![];
                    while self.eat(',') {
                        let it = self.ty()?;
                        let v = self.val(&it)?;
                        idx.push((it, v));
                    }
                    self.expect(')')?;
                    let mut off: i64 = 0;
                    let mut cur = et.clone();
                    for (k, (it, v)) in idx.iter().enumerate() {
                        let n = match v {
                            Pv::Int(n) => match it {
                                Ty::Int(w) => sext(*n, *w) as i64,
                                _ => *n as i64,
                            },
                            Pv::Zero => 0,
                            _ => return self.err("constant gep index"),
                        };
                        if k == 0 {
                            off += n * size_of(&et, self.types, self.layout) as i64;
                        } else {
                            match self.resolve(&cur) {
                                Ty::Array(_, e) | Ty::Vector(_, e) => {
                                    off += n * size_of(&e, self.types, self.layout) as i64;
                                    cur = (*e).clone();
                                }
                                Ty::Struct(f, p) => {
                                    off += field_off(&f, p, n as usize, self.types, self.layout) as i64;
                                    cur = f[n as usize].clone();
                                }
                                _ => return self.err("gep into scalar"),
                            }
                        }
                    }
                    match base {
                        Pv::Sym(s, o) => Pv::Sym(s, o + off),
                        Pv::Int(n) => Pv::Int(n.wrapping_add(off as i128 as u128)),
                        Pv::Zero => Pv::Int(off as u128),
                        _ => return self.err("gep base"),
                    }
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" | "addrspacecast" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let v = self.val(&t)?;
                    if !self.eat_id("to") {
                        return self.err("expected to");
                    }
                    let tt = self.ty()?;
                    self.expect(')')?;
                    match v {
                        Pv::Int(n) => match self.resolve(&tt) {
                            Ty::Int(w) => Pv::Int(mask(n, w)),
                            _ => Pv::Int(n),
                        },
                        v => v,
                    }
                }
                "add" | "sub" | "xor" => {
                    let op = s.clone();
                    while let Some(Tok::Id(_)) = self.peek() {
                        self.i += 1;
                    }
                    self.expect('(')?;
                    let t = self.ty()?;
                    let a = self.val(&t)?;
                    self.expect(',')?;
                    let t2 = self.ty()?;
                    let b = self.val(&t2)?;
                    self.expect(')')?;
                    match (a, b, op.as_str()) {
                        (Pv::Sym(s, o), Pv::Int(n), "add") => Pv::Sym(s, o + n as i64),
                        (Pv::Sym(s, o), Pv::Int(n), "sub") => Pv::Sym(s, o - n as i64),
                        (Pv::Int(a), Pv::Int(b), "add") => Pv::Int(a.wrapping_add(b)),
                        (Pv::Int(a), Pv::Int(b), "sub") => Pv::Int(a.wrapping_sub(b)),
                        _ => return self.err("constant expression"),
                    }
                }
                "dso_local_equivalent" | "no_cfi" => {
                    let t = Ty::Ptr;
                    return self.val(&t);
                }
                // new-style hexadecimal integers: u0x.., s0x.. ; floats f0x..
                _ if s.starts_with("u0x") || s.starts_with("s0x") => Pv::Int(u128::from_str_radix(&s[3..], 16).map_err(|e| e.to_string())?),
                _ if s.starts_with("f0x") => Pv::Int(u128::from_str_radix(&s[3..], 16).map_err(|e| e.to_string())?),
                _ => return self.err(&format!("unknown value {s}")),
            },
            Tok::P('{') => Pv::Agg(self.val_list('}')?),
            Tok::P('[') => Pv::Agg(self.val_list(']')?),
            Tok::P('<') => {
                if self.eat('{') {
                    let l = self.val_list('}')?;
                    self.expect('>')?;
                    Pv::Agg(l)
                } else {
                    Pv::Agg(self.val_list('>')?)
                }
            }
            t => return Err(format!("expected value, found {t:?} in {}", self.ctx)),
        })
    }
    fn val_list(&mut self, close: char) -> R<Vec<(Ty, Pv)>> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            let x = self.val(&t)?;
            v.push((t, x));
            if self.eat(close) {
                return Ok(v);
            }
            self.expect(',')?;
        }
    }
    /// skip attribute words (with optional parenthesised arguments) before a value or comma
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    let s = s.as_str();
                    const VALS: &[&str] = &[
                        "true", "false", "null", "none", "zeroinitializer", "undef", "poison", "splat", "getelementptr", "ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "ptrtoaddr", "addrspacecast", "add", "sub", "xor", "asm", "dso_local_equivalent", "no_cfi",
                    ];
                    if VALS.contains(&s) || s.starts_with("u0x") || s.starts_with("s0x") || s.starts_with("f0x") {
                        return Ok(());
                    }
                    if self.at_type() {
                        return Ok(());
                    }
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens()?;
                    } else if s == "align" || s == "dereferenceable" {
                        if let Some(Tok::Num(_)) = self.peek() {
                            self.i += 1;
                        }
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                Some(Tok::Attr(_)) => self.i += 1,
                _ => return Ok(()),
            }
        }
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 || w == 0 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
fn parse_int(s: &str) -> Option<u128> {
    if let Some(r) = s.strip_prefix('-') {
        r.parse::<u128>().ok().map(|x| (x as i128).wrapping_neg() as u128)
    } else {
        s.parse::<u128>().ok()
    }
}
fn parse_float(s: &str, w: u32) -> Option<u128> {
    if let Some(h) = s.strip_prefix("0x") {
        let (h, kind) = match h.as_bytes()[0] {
            b'H' | b'R' | b'K' | b'M' => (&h[1..], h.as_bytes()[0]),
            b'L' => (&h[1..], b'L'),
            _ => (h, b'D'),
        };
        let n = u128::from_str_radix(h, 16).ok()?;
        return Some(match (kind, w) {
            (b'D', 32) => (f64::from_bits(n as u64) as f32).to_bits() as u128,
            (b'L', _) => (n << 64) | (n >> 64),
            _ => n,
        });
    }
    let d: f64 = s.parse().ok()?;
    Some(match w {
        32 => (d as f32).to_bits() as u128,
        64 => d.to_bits() as u128,
        16 => crate::fp::f32_to_f16(d as f32) as u128,
        128 => crate::fp::f64_to_f128(d),
        _ => return None,
    })
}

fn int_abi_align(w: u32, l: &Layout) -> u64 {
    for &(k, a) in &l.int_align {
        if k >= w {
            return a as u64;
        }
    }
    l.int_align.last().unwrap().1 as u64
}

pub fn align_of(t: &Ty, types: &HashMap<Rc<str>, Ty>, l: &Layout) -> u64 {
    match t {
        Ty::Int(w) => int_abi_align(*w, l),
        Ty::Ptr => (l.ptr_bits / 8) as u64,
        Ty::Float(w) => l.float_align.iter().find(|x| x.0 == *w).map_or((*w / 8).next_power_of_two() as u64, |x| x.1 as u64),
        Ty::Array(_, e) => align_of(e, types, l),
        Ty::Vector(n, e) => {
            let b = bits_of(e, l) as u64 * n;
            l.vec_align.iter().find(|x| x.0 as u64 == b).map_or((b / 8).max(1).next_power_of_two(), |x| x.1 as u64)
        }
        Ty::Struct(f, p) => {
            if *p {
                1
            } else {
                f.iter().map(|x| align_of(x, types, l)).max().unwrap_or(1)
            }
        }
        Ty::Named(n) => align_of(types.get(n).expect("type"), types, l),
        _ => 1,
    }
}
pub fn bits_of(t: &Ty, l: &Layout) -> u32 {
    match t {
        Ty::Int(w) | Ty::Float(w) => *w,
        Ty::Ptr => l.ptr_bits,
        Ty::Vector(n, e) => bits_of(e, l) * *n as u32,
        _ => 0,
    }
}
pub fn size_of(t: &Ty, types: &HashMap<Rc<str>, Ty>, l: &Layout) -> u64 {
    match t {
        Ty::Int(w) => round_up(((*w + 7) / 8) as u64, int_abi_align(*w, l)),
        Ty::Ptr => (l.ptr_bits / 8) as u64,
        Ty::Float(w) => {
            if *w == 80 {
                16
            } else {
                (*w / 8) as u64
            }
        }
        Ty::Array(n, e) => n * size_of(e, types, l),
        Ty::Vector(n, e) => ((bits_of(e, l) as u64 * n) + 7) / 8,
        Ty::Struct(f, p) => {
            let mut o = 0;
            for x in f.iter() {
                if !*p {
                    o = round_up(o, align_of(x, types, l));
                }
                o += size_of(x, types, l);
            }
            if *p {
                o
            } else {
                round_up(o, align_of(t, types, l))
            }
        }
        Ty::Named(n) => size_of(types.get(n).expect("type"), types, l),
        _ => 0,
    }
}
pub fn field_off(f: &[Ty], packed: bool, i: usize, types: &HashMap<Rc<str>, Ty>, l: &Layout) -> u64 {
    let mut o = 0;
    for (k, x) in f.iter().enumerate() {
        if !packed {
            o = round_up(o, align_of(x, types, l));
        }
        if k == i {
            return o;
        }
        o += size_of(x, types, l);
    }
    o
}
pub fn round_up(v: u64, a: u64) -> u64 {
    (v + a - 1) / a * a
}

// ---------------------------------------------------------------- module linking

struct RawFunc {
    header: String,
    body: Vec<String>,
}
struct RawMod {
    prefix: usize,
    types: HashMap<Rc<str>, Ty>,
    funcs: Vec<RawFunc>,
    attrs: HashMap<String, String>,
}

fn lower_init(pv: &Pv, ren: &dyn Fn(&str) -> String) -> GInit {
    match pv {
        Pv::Int(n) => GInit::Int(*n),
        Pv::Zero => GInit::Zero,
        Pv::Undef => GInit::Undef,
        Pv::Bytes(b) => GInit::Bytes(b.clone()),
        Pv::Sym(s, o) => GInit::Sym(ren(s), *o),
        Pv::Agg(v) => GInit::Agg(v.iter().map(|(t, x)| (t.clone(), lower_init(x, ren))).collect()),
        Pv::Splat(_) | Pv::Local(_) => GInit::Undef,
    }
}

pub fn load_modules(texts: &[String]) -> R<Program> {
    let mut prog: Option<Program> = None;
    let mut raws: Vec<RawMod> = vec![];
    // (module, local name) of internal symbols -> renamed
    let mut renames: Vec<HashMap<String, String>> = vec![];
    let mut aliases: Vec<(String, String)> = vec![];
    for (mi, text) in texts.iter().enumerate() {
        let lines: Vec<&str> = text.lines().collect();
        let dl = lines.iter().find(|l| l.starts_with("target datalayout")).ok_or("no datalayout")?;
        let dl = dl.split('"').nth(1).unwrap();
        let triple = lines.iter().find(|l| l.starts_with("target triple")).and_then(|l| l.split('"').nth(1)).unwrap_or("");
        if prog.is_none() {
            prog = Some(Program {
                layout: Layout::parse(dl)?,
                triple: triple.to_string(),
                types: HashMap::new(),
                funcs: vec![],
                fidx: HashMap::new(),
                globals: vec![],
                gidx: HashMap::new(),
                asms: vec![],
                gaddr: vec![],
                gend: 0,
                image: vec![],
                gbase: 0,
            });
        }
        let prog = prog.as_mut().unwrap();
        // types first
        let mut types: HashMap<Rc<str>, Ty> = HashMap::new();
        let mut names = vec![];
        for l in &lines {
            if l.starts_with('%') && l.contains(" = type ") {
                let mut t = vec![];
                lex(l, &mut t)?;
                if let Tok::Local(n) = &t[0] {
                    types.insert(n.as_str().into(), Ty::Void);
                    names.push((n.clone(), t));
                }
            }
        }
        for (n, t) in names {
            if matches!(t.get(3), Some(Tok::Id(s)) if s == "opaque") {
                continue;
            }
            let ty = P { t: &t, i: 3, types: &types, ctx: &n, layout: &prog.layout }.ty()?;
            types.insert(n.as_str().into(), ty);
        }
        let mut ren: HashMap<String, String> = HashMap::new();
        for l in &lines {
            let internal = l.contains(" internal ") || l.contains(" private ");
            if internal && (l.starts_with('@') || l.starts_with("define ")) {
                let at = l.find('@').unwrap();
                let mut t = vec![];
                let rest = &l[at..];
                let end = if rest.as_bytes()[1] == b'"' { 2 + rest[2..].find('"').unwrap() + 1 } else { rest.find(|c: char| c == ' ' || c == '(').unwrap_or(rest.len()) };
                lex(&rest[..end], &mut t)?;
                if let Tok::Global(n) = &t[0] {
                    ren.insert(n.clone(), format!("{n}${mi}"));
                }
            }
        }
        let r = |s: &str| ren.get(s).cloned().unwrap_or_else(|| s.to_string());
        let mut funcs = vec![];
        let mut attrs = HashMap::new();
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with('@') {
                let mut t = vec![];
                lex(l, &mut t)?;
                let Tok::Global(name) = &t[0] else { return Err(format!("global {l}")) };
                let mut p = P { t: &t, i: 2, types: &types, ctx: l, layout: &prog.layout };
                let mut external = false;
                let mut constant = false;
                let mut is_alias = false;
                loop {
                    match p.peek() {
                        Some(Tok::Id(s)) => match s.as_str() {
                            "global" => {
                                p.i += 1;
                                break;
                            }
                            "constant" => {
                                p.i += 1;
                                constant = true;
                                break;
                            }
                            "alias" => {
                                p.i += 1;
                                is_alias = true;
                                break;
                            }
                            s => {
                                if s == "external" || s == "extern_weak" {
                                    external = true;
                                }
                                p.i += 1;
                                if p.is_p('(') {
                                    p.skip_parens()?;
                                }
                            }
                        },
                        _ => return p.err("global"),
                    }
                }
                if is_alias {
                    // alias <ty>, ptr @target   (function type: ret (args))
                    let tgt = t.iter().rev().find_map(|x| if let Tok::Global(n) = x { Some(n.clone()) } else { None }).ok_or("alias")?;
                    aliases.push((r(name), r(&tgt)));
                    i += 1;
                    continue;
                }
                let ty = p.ty()?;
                let mut init = None;
                if !external {
                    let v = p.val(&ty)?;
                    init = Some(lower_init(&v, &r));
                }
                let mut align = align_of(&ty, &types, &prog.layout);
                while p.i + 1 < t.len() {
                    if let (Tok::Id(s), Tok::Num(n)) = (&t[p.i], &t[p.i + 1]) {
                        if s == "align" {
                            align = n.parse().unwrap();
                        }
                    }
                    p.i += 1;
                }
                let n = r(name);
                let ty = close(&ty, &types);
                let init = init.map(|x| close_init(x, &types));
                if let Some(&gi) = prog.gidx.get(&n) {
                    if prog.globals[gi].external && !external {
                        prog.globals[gi] = Global { name: n, ty, init, align, constant, external, alias_of: None };
                    }
                } else {
                    prog.gidx.insert(n.clone(), prog.globals.len());
                    prog.globals.push(Global { name: n, ty, init, align, constant, external, alias_of: None });
                }
            } else if l.starts_with("define ") {
                let mut body = vec![];
                i += 1;
                while lines[i] != "}" {
                    let mut s = lines[i].to_string();
                    // join multi-line switch
                    if s.trim_start().starts_with("switch ") && s.trim_end().ends_with('[') {
                        while !lines[i].trim_start().starts_with(']') {
                            i += 1;
                            s.push(' ');
                            s.push_str(lines[i].trim());
                        }
                    }
                    body.push(s);
                    i += 1;
                }
                funcs.push(RawFunc { header: l.to_string(), body });
            } else if l.starts_with("declare ") {
                funcs.push(RawFunc { header: l.to_string(), body: vec![] });
            } else if l.starts_with("attributes #") {
                let k: String = l["attributes #".len()..].chars().take_while(|c| c.is_ascii_digit()).collect();
                attrs.insert(k, l.to_string());
            } else if l.starts_with("module asm") {
                return Err("module-level asm is not supported".into());
            }
            i += 1;
        }
        raws.push(RawMod { prefix: mi, types, funcs, attrs });
        renames.push(ren);
    }
    let mut prog = prog.ok_or("no modules")?;
    // declare functions
    struct Hdr {
        name: String,
        params: Vec<(Ty, Option<String>)>,
        ret: Ty,
        varargs: bool,
        attr: Option<String>,
    }
    let mut hdrs: Vec<Vec<Hdr>> = vec![];
    for (mi, rm) in raws.iter().enumerate() {
        let mut hs = vec![];
        for f in &rm.funcs {
            let mut t = vec![];
            lex(&f.header, &mut t)?;
            let mut p = P { t: &t, i: 1, types: &rm.types, ctx: &f.header, layout: &prog.layout };
            // linkage, cc, ret attrs
            loop {
                if p.at_type() {
                    break;
                }
                match p.peek() {
                    Some(Tok::Id(s)) => {
                        let is_cc = s == "cc";
                        let al = s == "align";
                        p.i += 1;
                        if p.is_p('(') {
                            p.skip_parens()?;
                        } else if is_cc || al {
                            p.i += 1;
                        }
                    }
                    Some(Tok::Str(_)) => p.i += 1,
                    _ => return p.err("function header"),
                }
            }
            let ret = p.ty()?;
            let Tok::Global(name) = p.next()? else { return p.err("function name") };
            let name = renames[mi].get(name).cloned().unwrap_or_else(|| name.clone());
            p.expect('(')?;
            let mut params = vec![];
            let mut varargs = false;
            if !p.eat(')') {
                loop {
                    if p.peek() == Some(&Tok::Dots) {
                        p.i += 1;
                        varargs = true;
                        p.expect(')')?;
                        break;
                    }
                    let ty = p.ty()?;
                    p.skip_attrs()?;
                    let mut nm = None;
                    if let Some(Tok::Local(n)) = p.peek() {
                        nm = Some(n.clone());
                        p.i += 1;
                    }
                    params.push((ty, nm));
                    if p.eat(')') {
                        break;
                    }
                    p.expect(',')?;
                }
            }
            let attr = t[p.i..].iter().find_map(|x| if let Tok::Attr(n) = x { Some(n.clone()) } else { None });
            let defined = f.header.starts_with("define");
            let idx = match prog.fidx.get(&name) {
                Some(&i) => i,
                None => {
                    let i = prog.funcs.len() as u32;
                    prog.fidx.insert(name.clone(), i);
                    prog.funcs.push(Func { name: name.clone(), params: vec![], nslots: 0, blocks: vec![], defined: false, varargs, ret: close(&ret, &rm.types), live_in: vec![], features: String::new() });
                    i
                }
            };
            let _ = (idx, defined);
            hs.push(Hdr { name, params, ret, varargs, attr });
        }
        hdrs.push(hs);
    }
    // what the crate may look up at run time with dlsym
    for n in ["getauxval", "elf_aux_info"] {
        if !prog.fidx.contains_key(n) {
            prog.fidx.insert(n.into(), prog.funcs.len() as u32);
            prog.funcs.push(Func { name: n.into(), params: vec![], nslots: 0, blocks: vec![], defined: false, varargs: false, ret: Ty::Int(if n == "getauxval" { prog.layout.ptr_bits as u32 } else { 32 }), live_in: vec![], features: String::new() });
        }
    }
    for (a, t) in &aliases {
        if let Some(&i) = prog.fidx.get(t) {
            prog.fidx.insert(a.clone(), i);
        } else if let Some(&g) = prog.gidx.get(t) {
            prog.gidx.insert(a.clone(), g);
        } else {
            return Err(format!("alias {a} of unknown {t}"));
        }
    }
    // assign global addresses
    let am = addr_map(prog.layout.ptr_bits);
    prog.gbase = am.global_base;
    let mut a = am.global_base;
    for g in &prog.globals {
        let al = g.align.max(1);
        a = round_up(a, al);
        prog.gaddr.push(a);
        let sz = size_of(&g.ty, &HashMap::new(), &prog.layout).max(1);
        a += sz;
    }
    prog.gend = round_up(a, 16);
    if prog.gend > am.obj_base {
        return Err("globals too large".into());
    }
    prog.image = vec![0; (prog.gend - prog.gbase) as usize];
    for gi in 0..prog.globals.len() {
        let g = prog.globals[gi].clone();
        if let Some(init) = &g.init {
            let off = (prog.gaddr[gi] - prog.gbase) as usize;
            write_init(&mut prog, off, &g.ty, init)?;
        }
    }
    // bodies
    for (mi, rm) in raws.iter().enumerate() {
        for (fi, f) in rm.funcs.iter().enumerate() {
            if !f.header.starts_with("define") {
                continue;
            }
            let h = &hdrs[mi][fi];
            let idx = prog.fidx[&h.name];
            if prog.funcs[idx as usize].defined {
                continue;
            }
            let features = h.attr.as_ref().and_then(|a| rm.attrs.get(a)).and_then(|l| l.split("\"target-features\"=\"").nth(1)).and_then(|x| x.split('"').next()).unwrap_or("").to_string();
            let first = prog.asms.len();
            let func = parse_body(&mut prog, rm, &renames[mi], &h.name, &h.params, &f.body).map_err(|e| format!("{}: {e}", h.name))?;
            for site in &mut prog.asms[first..] {
                if let Some(l) = rm.attrs.get(&site.attr) {
                    (site.reads, site.writes) = memory_effects(l);
                }
            }
            let slot = &mut prog.funcs[idx as usize];
            let _ = rm.prefix;
            *slot = Func { name: h.name.clone(), defined: true, varargs: h.varargs, ret: close(&h.ret, &rm.types), features, ..func };
        }
    }
    for f in &mut prog.funcs {
        liveness(f);
    }
    Ok(prog)
}

/// Whether a call with these attributes may read and may write memory that the rest of the program can see.
fn memory_effects(attrs: &str) -> (bool, bool) {
    let Some(m) = attrs.split(" memory(").nth(1).and_then(|x| x.split(')').next()) else { return (true, true) };
    let (mut r, mut w) = (false, false);
    for part in m.split(',') {
        let (loc, eff) = part.rsplit_once(':').unwrap_or(("", part));
        if loc.trim() == "inaccessiblemem" {
            continue;
        }
        r |= eff.contains("read");
        w |= eff.contains("write");
    }
    (r, w)
}

fn close(t: &Ty, types: &HashMap<Rc<str>, Ty>) -> Ty {
    match t {
        Ty::Named(n) => close(types.get(n).unwrap_or(&Ty::Void), types),
        Ty::Array(n, e) => Ty::Array(*n, Rc::new(close(e, types))),
        Ty::Vector(n, e) => Ty::Vector(*n, Rc::new(close(e, types))),
        Ty::Struct(f, p) => Ty::Struct(Rc::new(f.iter().map(|x| close(x, types)).collect()), *p),
        t => t.clone(),
    }
}
fn close_init(i: GInit, types: &HashMap<Rc<str>, Ty>) -> GInit {
    match i {
        GInit::Agg(v) => GInit::Agg(v.into_iter().map(|(t, x)| (close(&t, types), close_init(x, types))).collect()),
        x => x,
    }
}

fn write_init(prog: &mut Program, off: usize, ty: &Ty, init: &GInit) -> R<()> {
    let none = HashMap::new();
    match init {
        GInit::Zero | GInit::Undef => {}
        GInit::Bytes(b) => prog.image[off..off + b.len()].copy_from_slice(b),
        GInit::Int(n) => {
            let sz = size_of(ty, &none, &prog.layout) as usize;
            let be = prog.layout.big_endian;
            for k in 0..sz {
                let sh = if be { (sz - 1 - k) * 8 } else { k * 8 };
                prog.image[off + k] = (n >> sh) as u8;
            }
        }
        GInit::Sym(s, o) => {
            let a = sym_addr(prog, s).ok_or_else(|| format!("unknown symbol {s}"))?;
            let n = a.wrapping_add(*o as u64) as u128;
            let sz = size_of(ty, &none, &prog.layout) as usize;
            let be = prog.layout.big_endian;
            for k in 0..sz {
                let sh = if be { (sz - 1 - k) * 8 } else { k * 8 };
                prog.image[off + k] = (n >> sh) as u8;
            }
        }
        GInit::Agg(v) => {
            let mut o = off as u64;
            let packed = matches!(ty, Ty::Struct(_, true));
            for (t, x) in v {
                if !packed {
                    let al = align_of(t, &none, &prog.layout);
                    o = off as u64 + round_up(o - off as u64, al);
                }
                write_init(prog, o as usize, t, x)?;
                o += size_of(t, &none, &prog.layout);
            }
        }
    }
    Ok(())
}

pub fn sym_addr(prog: &Program, s: &str) -> Option<u64> {
    if let Some(&g) = prog.gidx.get(s) {
        return Some(prog.gaddr[g]);
    }
    let am = addr_map(prog.layout.ptr_bits);
    prog.fidx.get(s).map(|&f| am.func_base + am.func_step * f as u64)
}
pub fn func_at(prog: &Program, a: u64) -> Option<u32> {
    let am = addr_map(prog.layout.ptr_bits);
    if a < am.func_base {
        return None;
    }
    let i = (a - am.func_base) / am.func_step;
    if (i as usize) < prog.funcs.len() && (a - am.func_base) % am.func_step == 0 {
        Some(i as u32)
    } else {
        None
    }
}

fn parse_ord(s: &str) -> Option<Ord_> {
    Some(match s {
        "unordered" => Ord_::Unordered,
        "monotonic" => Ord_::Rlx,
        "acquire" => Ord_::Acq,
        "release" => Ord_::Rel,
        "acq_rel" => Ord_::AcqRel,
        "seq_cst" => Ord_::Sc,
        _ => return None,
    })
}

struct Fctx {
    slots: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl Fctx {
    fn slot(&mut self, n: &str) -> u32 {
        let k = self.slots.len() as u32;
        *self.slots.entry(n.to_string()).or_insert(k)
    }
}

fn pv_const(prog: &Program, pv: &Pv, ty: &Ty, types: &HashMap<Rc<str>, Ty>, ren: &HashMap<String, String>) -> R<Cv> {
    let ty = close(ty, types);
    Ok(match pv {
        Pv::Int(n) => Cv::Int(*n),
        Pv::Sym(s, o) => {
            let s = ren.get(s).unwrap_or(s);
            let a = sym_addr(prog, s).ok_or_else(|| format!("unknown symbol {s}"))?;
            Cv::Int(mask(a.wrapping_add(*o as u64) as u128, prog.layout.ptr_bits))
        }
        Pv::Zero | Pv::Undef => zero_of(&ty),
        Pv::Bytes(b) => Cv::Agg(Rc::new(b.iter().map(|x| Cv::Int(*x as u128)).collect())),
        Pv::Agg(v) => Cv::Agg(Rc::new(v.iter().map(|(t, x)| pv_const(prog, x, t, types, ren)).collect::<R<_>>()?)),
        Pv::Splat(b) => {
            let e = pv_const(prog, &b.1, &b.0, types, ren)?;
            match ty {
                Ty::Vector(n, _) | Ty::Array(n, _) => Cv::Agg(Rc::new(vec![e; n as usize])),
                _ => e,
            }
        }
        Pv::Local(_) => return Err("local in constant".into()),
    })
}
pub fn zero_of(ty: &Ty) -> Cv {
    match ty {
        Ty::Array(n, e) | Ty::Vector(n, e) => Cv::Agg(Rc::new(vec![zero_of(e); *n as usize])),
        Ty::Struct(f, _) => Cv::Agg(Rc::new(f.iter().map(zero_of).collect())),
        _ => Cv::Int(0),
    }
}

fn parse_body(prog: &mut Program, rm: &RawMod, ren: &HashMap<String, String>, fname: &str, params: &[(Ty, Option<String>)], body: &[String]) -> R<Func> {
    let types = &rm.types;
    let mut fc = Fctx { slots: HashMap::new(), blocks: HashMap::new() };
    let mut ps = vec![];
    // unnamed parameters take numbers 0..
    let mut unnamed = 0;
    for (_, n) in params {
        let n = match n {
            Some(n) => n.clone(),
            None => {
                let s = unnamed.to_string();
                unnamed += 1;
                s
            }
        };
        ps.push(fc.slot(&n));
    }
    // block labels
    let mut toks: Vec<(usize, Vec<Tok>)> = vec![];
    let mut first_label: Option<String> = None;
    for (li, l) in body.iter().enumerate() {
        if l.is_empty() || l.starts_with(';') {
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let name = if let Some(r) = l.strip_prefix('"') { r.split('"').next().unwrap().to_string() } else { l.split(':').next().unwrap().to_string() };
            let k = fc.blocks.len() as u32;
            if first_label.is_none() && toks.is_empty() {
                first_label = Some(name.clone());
            }
            fc.blocks.insert(name, k);
            toks.push((li, vec![Tok::P(':')]));
        } else {
            if fc.blocks.is_empty() {
                fc.blocks.insert("<entry>".into(), 0);
                toks.push((li, vec![Tok::P(':')]));
            }
            let tl = l.trim_start();
            if tl.starts_with('#') {
                continue; // debug records
            }
            let mut t = vec![];
            lex(l, &mut t)?;
            if !t.is_empty() {
                toks.push((li, t));
            }
        }
    }
    let mut blocks: Vec<Block> = vec![];
    for (li, t) in &toks {
        if t.len() == 1 && t[0] == Tok::P(':') {
            blocks.push(Block { phis: vec![], insts: vec![] });
            continue;
        }
        let bi = blocks.len() - 1;
        let mut p = P { t, i: 0, types, ctx: &body[*li], layout: &prog.layout.clone() };
        let inst = parse_inst(prog, types, ren, &mut fc, &mut p, fname)?;
        match inst {
            Pi::Phi(d, inc) => blocks[bi].phis.push((d, inc)),
            Pi::I(i) => blocks[bi].insts.push(i),
        }
    }
    Ok(Func { name: fname.to_string(), params: ps, nslots: fc.slots.len() as u32, blocks, defined: true, varargs: false, ret: Ty::Void, live_in: vec![], features: String::new() })
}

enum Pi {
    Phi(u32, Vec<(u32, Opd)>),
    I(Inst),
}

fn parse_inst(prog: &mut Program, types: &HashMap<Rc<str>, Ty>, ren: &HashMap<String, String>, fc: &mut Fctx, p: &mut P, fname: &str) -> R<Pi> {
    let mut dst = None;
    if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (p.t.first(), p.t.get(1)) {
        dst = Some(fc.slot(n));
        p.i = 2;
    }
    macro_rules! opd {
        ($ty:expr) => {{
            let ty: &Ty = &$ty;
            let pv = p.val(ty)?;
            match pv {
                Pv::Local(n) => Opd::Slot(fc.slot(&n)),
                pv => Opd::Const(pv_const(prog, &pv, ty, types, ren)?),
            }
        }};
    }
    macro_rules! tyval {
        () => {{
            let ty = p.ty()?;
            p.skip_attrs()?;
            let o = opd!(ty);
            (ty, o)
        }};
    }
    let label = |fc: &Fctx, p: &mut P| -> R<u32> {
        if !p.eat_id("label") {
            return p.err("expected label");
        }
        match p.next()? {
            Tok::Local(n) => fc.blocks.get(n).copied().or_else(|| if n.chars().all(|c| c.is_ascii_digit()) { fc.blocks.get("<entry>").copied() } else { None }).ok_or_else(|| format!("unknown label {n}")),
            _ => p.err("label"),
        }
    };
    let op = p.id()?;
    let d = |dst: Option<u32>, p: &P| -> R<u32> { dst.ok_or_else(|| format!("no destination: {}", p.ctx)) };
    macro_rules! tail_attrs {
        () => {{
            // syncscope, ordering(s), align
            let mut ords = vec![];
            let mut st = false;
            while let Some(t) = p.peek() {
                match t {
                    Tok::Id(s) => {
                        if s == "syncscope" {
                            p.i += 1;
                            p.expect('(')?;
                            if let Tok::Str(b) = p.next()? {
                                st = b == b"singlethread";
                            }
                            p.expect(')')?;
                            continue;
                        }
                        if let Some(o) = parse_ord(s) {
                            ords.push(o);
                        }
                        p.i += 1;
                    }
                    _ => break,
                }
            }
            (ords, st)
        }};
    }
    let i = match op.as_str() {
        "alloca" => {
            let _ = p.eat_id("inalloca");
            let ty = p.ty()?;
            let mut count = 1;
            let mut align = align_of(&ty, types, &prog.layout);
            while p.eat(',') {
                if p.eat_id("align") {
                    align = p.num()? as u64;
                } else if p.at_type() {
                    let (_, o) = tyval!();
                    match o {
                        Opd::Const(Cv::Int(n)) => count = n as u64,
                        _ => return p.err("dynamic alloca"),
                    }
                } else {
                    break;
                }
            }
            Inst::Alloca { dst: d(dst, p)?, size: size_of(&ty, types, &prog.layout) * count, align }
        }
        "load" => {
            let atomic = p.eat_id("atomic");
            let volatile = p.eat_id("volatile");
            let ty = p.ty()?;
            p.expect(',')?;
            let (_, ptr) = tyval!();
            let (ords, st) = tail_attrs!();
            let ord = if atomic { *ords.first().ok_or("load ordering")? } else { Ord_::Na };
            Inst::Load { dst: d(dst, p)?, ty: close(&ty, types), ptr, ord, volatile, singlethread: st }
        }
        "store" => {
            let atomic = p.eat_id("atomic");
            let volatile = p.eat_id("volatile");
            let (ty, val) = tyval!();
            p.expect(',')?;
            let (_, ptr) = tyval!();
            let (ords, st) = tail_attrs!();
            let ord = if atomic { *ords.first().ok_or("store ordering")? } else { Ord_::Na };
            Inst::Store { ty: close(&ty, types), val, ptr, ord, volatile, singlethread: st }
        }
        "atomicrmw" => {
            p.eat_id("volatile");
            let k = p.id()?;
            let op = match k.as_str() {
                "xchg" => RmwOp::Xchg,
                "add" => RmwOp::Add,
                "sub" => RmwOp::Sub,
                "and" => RmwOp::And,
                "nand" => RmwOp::Nand,
                "or" => RmwOp::Or,
                "xor" => RmwOp::Xor,
                "max" => RmwOp::Max,
                "min" => RmwOp::Min,
                "umax" => RmwOp::UMax,
                "umin" => RmwOp::UMin,
                "fadd" => RmwOp::FAdd,
                "fsub" => RmwOp::FSub,
                "fmaximumnum" => RmwOp::FMax,
                "fminimumnum" => RmwOp::FMin,
                _ => return p.err("atomicrmw op"),
            };
            let (_, ptr) = tyval!();
            p.expect(',')?;
            let (ty, val) = tyval!();
            let (ords, st) = tail_attrs!();
            Inst::Rmw { dst: d(dst, p)?, op, bits: bits_of(&close(&ty, types), &prog.layout), ptr, val, ord: *ords.first().ok_or("rmw ordering")?, singlethread: st }
        }
        "cmpxchg" => {
            let weak = p.eat_id("weak");
            p.eat_id("volatile");
            let (_, ptr) = tyval!();
            p.expect(',')?;
            let (ty, cmp) = tyval!();
            p.expect(',')?;
            let (_, new) = tyval!();
            let (ords, st) = tail_attrs!();
            if ords.len() < 2 {
                return p.err("cmpxchg orderings");
            }
            Inst::CmpXchg { dst: d(dst, p)?, bits: bits_of(&close(&ty, types), &prog.layout), ptr, cmp, new, succ: ords[0], fail: ords[1], weak, singlethread: st }
        }
        "fence" => {
            let (ords, st) = tail_attrs!();
            Inst::Fence { ord: *ords.first().ok_or("fence ordering")?, singlethread: st }
        }
        "getelementptr" => {
            while let Some(Tok::Id(s)) = p.peek() {
                if p.at_type() {
                    break;
                }
                let inr = s == "inrange";
                p.i += 1;
                if inr {
                    p.skip_parens()?;
                }
            }
            let et = p.ty()?;
            p.expect(',')?;
            let (_, base) = tyval!();
            let mut off: i64 = 0;
            let mut idx = vec![];
            let mut cur = close(&et, types);
            let mut k = 0;
            while p.eat(',') {
                if !p.at_type() {
                    break;
                }
                let (it, o) = tyval!();
                let w = bits_of(&it, &prog.layout);
                let scale;
                if k == 0 {
                    scale = size_of(&cur, types, &prog.layout);
                } else {
                    match cur.clone() {
                        Ty::Array(_, e) | Ty::Vector(_, e) => {
                            scale = size_of(&e, types, &prog.layout);
                            cur = (*e).clone();
                        }
                        Ty::Struct(f, pk) => {
                            let Opd::Const(Cv::Int(n)) = &o else { return p.err("struct index") };
                            off += field_off(&f, pk, *n as usize, types, &prog.layout) as i64;
                            cur = f[*n as usize].clone();
                            k += 1;
                            continue;
                        }
                        _ => return p.err("gep into scalar"),
                    }
                }
                match &o {
                    Opd::Const(Cv::Int(n)) => off = off.wrapping_add((sext(*n, w) as i64).wrapping_mul(scale as i64)),
                    _ => idx.push((o, w, scale)),
                }
                k += 1;
            }
            Inst::Gep { dst: d(dst, p)?, base, off: off as u64, idx }
        }
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            while let Some(Tok::Id(_)) = p.peek() {
                if p.at_type() {
                    break;
                }
                p.i += 1;
            }
            let ty = p.ty()?;
            let a = opd!(ty);
            p.expect(',')?;
            let b = opd!(ty);
            let op = match op.as_str() {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                "fadd" => Bin::FAdd,
                "fsub" => Bin::FSub,
                "fmul" => Bin::FMul,
                "fdiv" => Bin::FDiv,
                _ => Bin::FRem,
            };
            Inst::Bin { dst: d(dst, p)?, op, ty: close(&ty, types), a, b }
        }
        "fneg" => {
            while !p.at_type() {
                p.i += 1;
            }
            let ty = p.ty()?;
            let a = opd!(ty);
            Inst::FNeg { dst: d(dst, p)?, bits: bits_of(&ty, &prog.layout), a }
        }
        "icmp" | "fcmp" => {
            let is_f = op == "fcmp";
            // flags such as samesign / fast-math before the predicate
            let mut pr = p.id()?;
            loop {
                if p.at_type() {
                    break;
                }
                pr = p.id()?;
            }
            let ty = close(&p.ty()?, types);
            let a = opd!(ty);
            p.expect(',')?;
            let b = opd!(ty);
            if is_f {
                let pred = match pr.as_str() {
                    "oeq" => Pred::FOeq,
                    "ogt" => Pred::FOgt,
                    "oge" => Pred::FOge,
                    "olt" => Pred::FOlt,
                    "ole" => Pred::FOle,
                    "one" => Pred::FOne,
                    "ord" => Pred::FOrd,
                    "ueq" => Pred::FUeq,
                    "ugt" => Pred::FUgt,
                    "uge" => Pred::FUge,
                    "ult" => Pred::FUlt,
                    "ule" => Pred::FUle,
                    "une" => Pred::FUne,
                    "uno" => Pred::FUno,
                    "true" => Pred::FTrue,
                    "false" => Pred::FFalse,
                    _ => return p.err("fcmp predicate"),
                };
                Inst::Fcmp { dst: d(dst, p)?, pred, bits: bits_of(&ty, &prog.layout), a, b }
            } else {
                let pred = match pr.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return p.err("icmp predicate"),
                };
                Inst::Icmp { dst: d(dst, p)?, pred, ty, a, b }
            }
        }
        "select" => {
            while !p.at_type() {
                p.i += 1;
            }
            let (_, c) = tyval!();
            p.expect(',')?;
            let (_, a) = tyval!();
            p.expect(',')?;
            let (_, b) = tyval!();
            Inst::Select { dst: d(dst, p)?, c, a, b }
        }
        "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "addrspacecast" => {
            while !p.at_type() {
                p.i += 1;
            }
            let from = close(&p.ty()?, types);
            let a = opd!(from);
            if !p.eat_id("to") {
                return p.err("expected to");
            }
            let to = close(&p.ty()?, types);
            let (bf, bt) = (bits_of(&from, &prog.layout), bits_of(&to, &prog.layout));
            let c = match op.as_str() {
                "trunc" => Cast::Trunc,
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "bitcast" | "addrspacecast" => Cast::BitCast,
                "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                    if bt < bf {
                        Cast::Trunc
                    } else {
                        Cast::ZExt
                    }
                }
                "fptrunc" => Cast::FpTrunc,
                "fpext" => Cast::FpExt,
                "fptoui" => Cast::FpToUi,
                "fptosi" => Cast::FpToSi,
                "uitofp" => Cast::UiToFp,
                _ => Cast::SiToFp,
            };
            Inst::Cast { dst: d(dst, p)?, op: c, from, to, a }
        }
        "freeze" => {
            let (_, a) = tyval!();
            Inst::Freeze { dst: d(dst, p)?, a }
        }
        "extractvalue" => {
            let (_, a) = tyval!();
            let mut path = vec![];
            while p.eat(',') {
                if let Some(Tok::Num(_)) = p.peek() {
                    path.push(p.num()? as u32);
                } else {
                    break;
                }
            }
            Inst::ExtractValue { dst: d(dst, p)?, a, path }
        }
        "insertvalue" => {
            let (_, a) = tyval!();
            p.expect(',')?;
            let (_, v) = tyval!();
            let mut path = vec![];
            while p.eat(',') {
                if let Some(Tok::Num(_)) = p.peek() {
                    path.push(p.num()? as u32);
                } else {
                    break;
                }
            }
            Inst::InsertValue { dst: d(dst, p)?, a, v, path }
        }
        "extractelement" => {
            let (_, a) = tyval!();
            p.expect(',')?;
            let (_, i) = tyval!();
            Inst::ExtractElement { dst: d(dst, p)?, a, i }
        }
        "insertelement" => {
            let (_, a) = tyval!();
            p.expect(',')?;
            let (_, v) = tyval!();
            p.expect(',')?;
            let (_, i) = tyval!();
            Inst::InsertElement { dst: d(dst, p)?, a, v, i }
        }
        "shufflevector" => {
            let (ta, a) = tyval!();
            p.expect(',')?;
            let (_, b) = tyval!();
            p.expect(',')?;
            let (_, m) = tyval!();
            let n = match close(&ta, types) {
                Ty::Vector(n, _) => n as u32,
                _ => return p.err("shuffle"),
            };
            let Opd::Const(Cv::Agg(m)) = m else { return p.err("shuffle mask") };
            let mask = m.iter().map(|x| if let Cv::Int(n) = x { *n as u32 } else { 0 }).collect();
            Inst::Shuffle { dst: d(dst, p)?, a, b, mask, n }
        }
        "phi" => {
            while !p.at_type() {
                p.i += 1;
            }
            let ty = p.ty()?;
            let mut inc = vec![];
            loop {
                p.expect('[')?;
                let v = opd!(ty);
                p.expect(',')?;
                let Tok::Local(n) = p.next()? else { return p.err("phi label") };
                let b = fc.blocks.get(n).copied().or_else(|| fc.blocks.get("<entry>").copied()).ok_or_else(|| format!("label {n}"))?;
                p.expect(']')?;
                inc.push((b, v));
                if !p.eat(',') {
                    break;
                }
                if !p.is_p('[') {
                    break;
                }
            }
            return Ok(Pi::Phi(d(dst, p)?, inc));
        }
        "br" => {
            if p.is_id("label") {
                Inst::Br { to: label(fc, p)? }
            } else {
                let (_, c) = tyval!();
                p.expect(',')?;
                let t = label(fc, p)?;
                p.expect(',')?;
                let f = label(fc, p)?;
                Inst::CondBr { c, t, f }
            }
        }
        "switch" => {
            let (ty, c) = tyval!();
            let _ = ty;
            p.expect(',')?;
            let default = label(fc, p)?;
            p.expect('[')?;
            let mut cases = vec![];
            while !p.eat(']') {
                let ty = p.ty()?;
                let o = opd!(ty);
                let Opd::Const(Cv::Int(n)) = o else { return p.err("switch case") };
                p.expect(',')?;
                cases.push((n, label(fc, p)?));
            }
            Inst::Switch { c, default, cases }
        }
        "ret" => {
            if p.eat_id("void") {
                Inst::Ret { v: None }
            } else {
                let (_, v) = tyval!();
                Inst::Ret { v: Some(v) }
            }
        }
        "unreachable" => Inst::Unreachable,
        "tail" | "musttail" | "notail" | "call" => {
            if op != "call" {
                if !p.eat_id("call") {
                    return p.err("expected call");
                }
            }
            // flags, cc, ret attrs
            loop {
                if p.at_type() {
                    break;
                }
                match p.peek() {
                    Some(Tok::Id(s)) => {
                        let num = s == "cc" || s == "align";
                        p.i += 1;
                        if p.is_p('(') {
                            p.skip_parens()?;
                        } else if num {
                            p.i += 1;
                        }
                    }
                    _ => return p.err("call"),
                }
            }
            let ret = close(&p.ty()?, types);
            if p.is_p('(') {
                p.skip_parens()?; // explicit function type
            }
            let callee;
            let mut is_meta = false;
            match p.next()? {
                Tok::Global(n) => {
                    let n = ren.get(n).unwrap_or(n);
                    if n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") {
                        is_meta = true;
                    }
                    let f = prog.fidx.get(n).copied().ok_or_else(|| format!("unknown function {n}"))?;
                    callee = Callee::Func(f);
                }
                Tok::Local(n) => callee = Callee::Ind(Opd::Slot(fc.slot(n))),
                Tok::Id(s) if s == "asm" => {
                    let mut side = false;
                    let mut intel = false;
                    while let Some(Tok::Id(w)) = p.peek() {
                        match w.as_str() {
                            "sideeffect" => side = true,
                            "inteldialect" => intel = true,
                            _ => {}
                        }
                        p.i += 1;
                    }
                    let Tok::Str(tm) = p.next()? else { return p.err("asm template") };
                    p.expect(',')?;
                    let Tok::Str(cs) = p.next()? else { return p.err("asm constraints") };
                    let id = prog.asms.len() as u32;
                    prog.asms.push(AsmSite {
                        template: String::from_utf8_lossy(tm).to_string(),
                        constraints: String::from_utf8_lossy(cs).to_string(),
                        sideeffect: side,
                        reads: true,
                        writes: true,
                        attr: String::new(),
                        intel,
                        ret: ret.clone(),
                        argtys: vec![],
                        func: fname.to_string(),
                    });
                    callee = Callee::Asm(id);
                }
                Tok::Id(s) if s == "inttoptr" => {
                    p.i -= 1;
                    callee = Callee::Ind(opd!(Ty::Ptr));
                }
                t => return Err(format!("call target {t:?}: {}", p.ctx)),
            }
            if is_meta {
                return Ok(Pi::I(Inst::Nop));
            }
            p.expect('(')?;
            let mut args = vec![];
            let mut argtys = vec![];
            if !p.eat(')') {
                loop {
                    let ty = p.ty()?;
                    if ty == Ty::Metadata {
                        // skip to , or )
                        while !p.is_p(',') && !p.is_p(')') {
                            p.i += 1;
                            if p.is_p('(') {
                                p.skip_parens()?;
                            }
                        }
                    } else {
                        p.skip_attrs()?;
                        let o = opd!(ty);
                        args.push(o);
                        argtys.push(close(&ty, types));
                    }
                    if p.eat(')') {
                        break;
                    }
                    p.expect(',')?;
                }
            }
            if let Callee::Asm(id) = &callee {
                let site = &mut prog.asms[*id as usize];
                site.argtys = argtys.clone();
                while let Some(t) = p.peek() {
                    if let Tok::Attr(n) = t {
                        site.attr = n.clone();
                    }
                    p.i += 1;
                }
            }
            Inst::Call { dst, callee, args, argtys, ret }
        }
        _ => return p.err(&format!("unknown instruction {op}")),
    };
    Ok(Pi::I(i))
}

// ---------------------------------------------------------------- liveness

pub fn uses(i: &Inst, f: &mut dyn FnMut(u32)) {
    let mut o = |x: &Opd| {
        if let Opd::Slot(s) = x {
            f(*s)
        }
    };
    match i {
        Inst::Load { ptr, .. } => o(ptr),
        Inst::Store { val, ptr, .. } => {
            o(val);
            o(ptr)
        }
        Inst::Rmw { ptr, val, .. } => {
            o(ptr);
            o(val)
        }
        Inst::CmpXchg { ptr, cmp, new, .. } => {
            o(ptr);
            o(cmp);
            o(new)
        }
        Inst::Gep { base, idx, .. } => {
            o(base);
            for x in idx {
                o(&x.0)
            }
        }
        Inst::Bin { a, b, .. } | Inst::Icmp { a, b, .. } | Inst::Fcmp { a, b, .. } | Inst::Shuffle { a, b, .. } => {
            o(a);
            o(b)
        }
        Inst::FNeg { a, .. } | Inst::Cast { a, .. } | Inst::Freeze { a, .. } | Inst::ExtractValue { a, .. } => o(a),
        Inst::Select { c, a, b, .. } => {
            o(c);
            o(a);
            o(b)
        }
        Inst::InsertValue { a, v, .. } => {
            o(a);
            o(v)
        }
        Inst::ExtractElement { a, i, .. } => {
            o(a);
            o(i)
        }
        Inst::InsertElement { a, v, i, .. } => {
            o(a);
            o(v);
            o(i)
        }
        Inst::Call { callee, args, .. } => {
            if let Callee::Ind(x) = callee {
                o(x)
            }
            for a in args {
                o(a)
            }
        }
        Inst::CondBr { c, .. } | Inst::Switch { c, .. } => o(c),
        Inst::Ret { v: Some(v) } => o(v),
        _ => {}
    }
}
pub fn def(i: &Inst) -> Option<u32> {
    match i {
        Inst::Alloca { dst, .. }
        | Inst::Load { dst, .. }
        | Inst::Rmw { dst, .. }
        | Inst::CmpXchg { dst, .. }
        | Inst::Gep { dst, .. }
        | Inst::Bin { dst, .. }
        | Inst::FNeg { dst, .. }
        | Inst::Icmp { dst, .. }
        | Inst::Fcmp { dst, .. }
        | Inst::Select { dst, .. }
        | Inst::Cast { dst, .. }
        | Inst::Freeze { dst, .. }
        | Inst::ExtractValue { dst, .. }
        | Inst::InsertValue { dst, .. }
        | Inst::ExtractElement { dst, .. }
        | Inst::InsertElement { dst, .. }
        | Inst::Shuffle { dst, .. } => Some(*dst),
        Inst::Call { dst, .. } => *dst,
        _ => None,
    }
}
pub fn succs(i: &Inst) -> Vec<u32> {
    match i {
        Inst::Br { to } => vec![*to],
        Inst::CondBr { t, f, .. } => vec![*t, *f],
        Inst::Switch { default, cases, .. } => {
            let mut v: Vec<u32> = cases.iter().map(|c| c.1).collect();
            v.push(*default);
            v
        }
        _ => vec![],
    }
}

fn liveness(f: &mut Func) {
    let w = (f.nslots as usize + 63) / 64;
    let n = f.blocks.len();
    let mut live_in = vec![vec![0u64; w]; n];
    loop {
        let mut changed = false;
        for b in (0..n).rev() {
            let mut s = live_out(f, &live_in, b, w);
            for i in f.blocks[b].insts.iter().rev() {
                if let Some(d) = def(i) {
                    s[d as usize / 64] &= !(1 << (d % 64));
                }
                uses(i, &mut |u| s[u as usize / 64] |= 1 << (u % 64));
            }
            for (d, _) in &f.blocks[b].phis {
                s[*d as usize / 64] &= !(1 << (d % 64));
            }
            if s != live_in[b] {
                live_in[b] = s;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    f.live_in = live_in;
}
fn live_out(f: &Func, live_in: &[Vec<u64>], b: usize, w: usize) -> Vec<u64> {
    let mut s = vec![0u64; w];
    if let Some(t) = f.blocks[b].insts.last() {
        for x in succs(t) {
            for (k, v) in live_in[x as usize].iter().enumerate() {
                s[k] |= v;
            }
            for (_, inc) in &f.blocks[x as usize].phis {
                for (pb, o) in inc {
                    if *pb as usize == b {
                        if let Opd::Slot(u) = o {
                            s[*u as usize / 64] |= 1 << (u % 64);
                        }
                    }
                }
            }
        }
    }
    s
}
/// Slots live just before instruction `ip` of block `bb` (excluding its own definition).
pub fn live_before(f: &Func, bb: u32, ip: u32) -> Vec<u64> {
    let w = (f.nslots as usize + 63) / 64;
    let mut s = live_out(f, &f.live_in, bb as usize, w);
    let insts = &f.blocks[bb as usize].insts;
    for i in insts[ip as usize..].iter().rev() {
        if let Some(d) = def(i) {
            s[d as usize / 64] &= !(1 << (d % 64));
        }
        uses(i, &mut |u| s[u as usize / 64] |= 1 << (u % 64));
    }
    s
}
