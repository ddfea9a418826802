//! Textual LLVM IR (LLVM 19, opaque pointers) -> compact internal program.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<StructTy>),
    Other,
}
#[derive(Debug, PartialEq)]
pub struct StructTy {
    pub fields: Vec<Ty>,
    pub offs: Vec<u64>,
    pub size: u64,
    pub align: u64,
}
pub fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}
impl Ty {
    pub fn mk_struct(fields: Vec<Ty>, packed: bool) -> Ty {
        let mut off = 0;
        let mut al = 1;
        let mut offs = vec![];
        for f in &fields {
            let a = if packed { 1 } else { f.align() };
            off = align_up(off, a);
            al = al.max(a);
            offs.push(off);
            off += f.size();
        }
        Ty::Struct(Rc::new(StructTy { fields, offs, size: align_up(off, al), align: al }))
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    /// store size
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let s = ((*w as u64) + 7) / 8;
                align_up(s, self.align())
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => align_up((n * t.bits() as u64 + 7) / 8, 1).next_power_of_two(),
            Ty::Struct(s) => s.size,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => (((*w as u64) + 7) / 8).next_power_of_two().min(16),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().min(16),
            Ty::Struct(s) => s.align,
        }
    }
}

/// Value: concrete bits, symbolic expression, or aggregate/vector of values.
#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(u32),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    V(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast, FpTrunc, FpExt, UiToFp, SiToFp, FpToUi, FpToSi,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp {
    Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Sym(u32),
    Dyn(Opd),
    Asm(Rc<String>),
}

#[derive(Debug)]
pub enum Ins {
    Bin { op: BinOp, ty: Ty, a: Opd, b: Opd, d: u32 },
    ICmp { p: Pred, ty: Ty, a: Opd, b: Opd, d: u32 },
    FCmp { p: Rc<str>, ty: Ty, a: Opd, b: Opd, d: u32 },
    FNeg { ty: Ty, a: Opd, d: u32 },
    Cast { op: CastOp, from: Ty, to: Ty, a: Opd, d: u32 },
    Alloca { size: u64, n: Opd, d: u32 },
    Load { ty: Ty, p: Opd, d: u32, at: u32 },
    Store { ty: Ty, v: Opd, p: Opd, at: u32 },
    Gep { base: Opd, off: i64, idx: Vec<(Opd, u32, u64)>, d: u32 },
    Select { cty: Ty, ty: Ty, c: Opd, a: Opd, b: Opd, d: u32 },
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Call { callee: Callee, args: Vec<(Ty, Opd, u64)>, rty: Ty, d: u32, normal: Option<u32> },
    ExtractValue { a: Opd, idx: Vec<u32>, d: u32 },
    InsertValue { a: Opd, v: Opd, idx: Vec<u32>, d: u32 },
    ExtractElem { a: Opd, i: Opd, d: u32 },
    InsertElem { a: Opd, v: Opd, i: Opd, d: u32 },
    Shuffle { a: Opd, b: Opd, mask: Vec<i64>, n: usize, d: u32 },
    Rmw { op: RmwOp, p: Opd, v: Opd, ty: Ty, d: u32, at: u32 },
    CmpXchg { p: Opd, c: Opd, n: Opd, ty: Ty, d: u32, at: u32 },
    Freeze { a: Opd, d: u32 },
    Nop,
    Unsupported(Rc<str>),
}

#[derive(Debug)]
pub struct Block {
    pub start: u32,
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub sym: u32,
    pub params: Vec<u32>,
    pub param_byval: Vec<u64>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub code: Vec<Ins>,
}
pub struct Global {
    pub sym: u32,
    pub tls: bool,
    pub size: u64,
    pub init: Option<Vec<u8>>,
    pub constant: bool,
}

pub const SYM_BASE: u64 = 1 << 16; // object ids of symbols start here
pub const OBJ_SHIFT: u32 = 24;
pub fn sym_addr(s: u32) -> u64 {
    (SYM_BASE + s as u64) << OBJ_SHIFT
}

pub struct Module {
    pub syms: Vec<String>,
    pub sym_ix: HashMap<String, u32>,
    pub funcs: Vec<Rc<Func>>,
    pub func_of_sym: HashMap<u32, u32>,
    pub globals: Vec<Global>,
    sites: u32,
    types: HashMap<String, Ty>,
    type_defs: HashMap<String, String>,
    alias: HashMap<String, String>,
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() { self.s[self.i] } else { 0 }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' at: {}", c as char, self.rest());
        }
    }
    fn rest(&self) -> String {
        let e = (self.i + 160).min(self.s.len());
        let b = self.i.saturating_sub(80);
        format!("...{} <HERE> {}", String::from_utf8_lossy(&self.s[b..self.i]), String::from_utf8_lossy(&self.s[self.i..e]))
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'.') {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let s = self.i;
        let w = self.word();
        let _ = std::mem::replace(&mut self.i, s);
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let s = self.i;
        if self.word() == w {
            true
        } else {
            self.i = s;
            false
        }
    }
    /// name after % or @ (quoted or not)
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).to_string()
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn uint(&mut self) -> u64 {
        let w = self.word();
        w.parse().unwrap_or_else(|_| panic!("int expected: {}", self.rest()))
    }
}

fn is_type_word(w: &str) -> bool {
    if w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()) {
        return true;
    }
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "metadata" | "label" | "token" | "x86_mmx")
}

struct FCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl FCtx {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self, n: String) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(k)
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

impl Module {
    pub fn sym(&mut self, n: &str) -> u32 {
        let n = match self.alias.get(n) {
            Some(t) => t.clone(),
            None => n.to_string(),
        };
        if let Some(s) = self.sym_ix.get(&n) {
            return *s;
        }
        let k = self.syms.len() as u32;
        self.syms.push(n.clone());
        self.sym_ix.insert(n, k);
        k
    }
    fn ty(&self, p: &mut P) -> Ty {
        let c = p.peek();
        match c {
            b'{' => {
                p.i += 1;
                let mut f = vec![];
                if !p.eat(b'}') {
                    loop {
                        f.push(self.ty(p));
                        if !p.eat(b',') {
                            break;
                        }
                    }
                    p.expect(b'}');
                }
                Ty::mk_struct(f, false)
            }
            b'[' => {
                p.i += 1;
                let n = p.uint();
                assert!(p.eat_word("x"));
                let t = self.ty(p);
                p.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1;
                    let mut f = vec![];
                    if !p.eat(b'}') {
                        loop {
                            f.push(self.ty(p));
                            if !p.eat(b',') {
                                break;
                            }
                        }
                        p.expect(b'}');
                    }
                    p.expect(b'>');
                    Ty::mk_struct(f, true)
                } else {
                    let n = p.uint();
                    assert!(p.eat_word("x"));
                    let t = self.ty(p);
                    p.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                p.i += 1;
                let n = p.name();
                if let Some(t) = self.types.get(&n) {
                    return t.clone();
                }
                if let Some(d) = self.type_defs.get(&n).cloned() {
                    let t = self.ty(&mut P { s: d.as_bytes(), i: 0 });
                    
                    return t;
                }
                panic!("unknown type {n}")
            }
            _ => {
                let w = p.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if p.peek_word() == "addrspace" {
                            p.word();
                            p.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    _ if is_type_word(w) && w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
                    _ if is_type_word(w) => Ty::Other,
                    _ => panic!("type expected, got {:?}: {}", w, p.rest()),
                }
            }
        }
    }
    pub fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Arr(n, t) => Val::A(Rc::new(vec![Self::zero(t); *n as usize])),
            Ty::Vec(n, t) => Val::A(Rc::new(vec![Self::zero(t); *n as usize])),
            Ty::Struct(s) => Val::A(Rc::new(s.fields.iter().map(Self::zero).collect())),
            _ => Val::C(0),
        }
    }
    fn cint(v: &Val) -> u128 {
        match v {
            Val::C(x) => *x,
            _ => panic!("const int expected"),
        }
    }
    /// constant (no registers)
    fn cst(&mut self, p: &mut P, ty: &Ty) -> Val {
        match self.opd(p, ty, None) {
            Opd::V(v) => v,
            _ => panic!("register in constant"),
        }
    }
    fn tcst(&mut self, p: &mut P) -> (Ty, Val) {
        let t = self.ty(p);
        let v = self.cst(p, &t);
        (t, v)
    }
    fn opd(&mut self, p: &mut P, ty: &Ty, fc: Option<&mut FCtx>) -> Opd {
        let c = p.peek();
        match c {
            b'%' => {
                p.i += 1;
                let n = p.name();
                return Opd::R(fc.expect("reg in const").reg(n));
            }
            b'@' => {
                p.i += 1;
                let n = p.name();
                return Opd::V(Val::C(sym_addr(self.sym(&n)) as u128));
            }
            b'{' => {
                p.i += 1;
                let mut f = vec![];
                if !p.eat(b'}') {
                    loop {
                        f.push(self.tcst(p).1);
                        if !p.eat(b',') {
                            break;
                        }
                    }
                    p.expect(b'}');
                }
                return Opd::V(Val::A(Rc::new(f)));
            }
            b'[' => {
                p.i += 1;
                let mut f = vec![];
                if !p.eat(b']') {
                    loop {
                        f.push(self.tcst(p).1);
                        if !p.eat(b',') {
                            break;
                        }
                    }
                    p.expect(b']');
                }
                return Opd::V(Val::A(Rc::new(f)));
            }
            b'<' => {
                p.i += 1;
                let st = p.eat(b'{');
                let mut f = vec![];
                if st && p.eat(b'}') {
                } else {
                    loop {
                        f.push(self.tcst(p).1);
                        if !p.eat(b',') {
                            break;
                        }
                    }
                    if st {
                        p.expect(b'}');
                    }
                }
                p.expect(b'>');
                return Opd::V(Val::A(Rc::new(f)));
            }
            b'-' | b'0'..=b'9' => {
                let st = p.i;
                p.i += 1;
                while p.i < p.s.len() && (p.s[p.i].is_ascii_alphanumeric() || p.s[p.i] == b'.' || ((p.s[p.i] == b'+' || p.s[p.i] == b'-') && (p.s[p.i - 1] | 32) == b'e' && !p.s[st..].starts_with(b"0x"))) {
                    p.i += 1;
                }
                let s = std::str::from_utf8(&p.s[st..p.i]).unwrap();
                return Opd::V(Val::C(match ty {
                    Ty::F64 => {
                        if let Some(h) = s.strip_prefix("0x") {
                            u64::from_str_radix(h, 16).unwrap() as u128
                        } else {
                            s.parse::<f64>().unwrap().to_bits() as u128
                        }
                    }
                    Ty::F32 => {
                        let d = if let Some(h) = s.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                        } else {
                            s.parse::<f64>().unwrap()
                        };
                        (d as f32).to_bits() as u128
                    }
                    Ty::Int(w) => {
                        let v = if let Some(m) = s.strip_prefix('-') {
                            m.parse::<u128>().unwrap().wrapping_neg()
                        } else {
                            s.parse::<u128>().unwrap_or_else(|_| panic!("bad int {s}"))
                        };
                        v & mask(*w)
                    }
                    Ty::Ptr => s.parse::<u128>().unwrap(),
                    _ => panic!("number of type {ty:?}: {}", p.rest()),
                }));
            }
            _ => {}
        }
        if c == b'c' && p.s.get(p.i + 1) == Some(&b'"') {
            p.i += 2;
            let mut v = vec![];
            while p.s[p.i] != b'"' {
                if p.s[p.i] == b'\\' && p.s[p.i + 1] == b'\\' {
                    v.push(Val::C(92));
                    p.i += 2;
                } else if p.s[p.i] == b'\\' {
                    let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                    v.push(Val::C(u8::from_str_radix(h, 16).unwrap() as u128));
                    p.i += 3;
                } else {
                    v.push(Val::C(p.s[p.i] as u128));
                    p.i += 1;
                }
            }
            p.i += 1;
            return Opd::V(Val::A(Rc::new(v)));
        }
        let w = p.word();
        Opd::V(match w {
            "true" => Val::C(1),
            "false" | "null" => Val::C(0),
            "none" => Val::C(0),
            "undef" | "poison" | "zeroinitializer" => Self::zero(ty),
            "splat" => {
                p.expect(b'(');
                let (_, v) = self.tcst(p);
                p.expect(b')');
                match ty {
                    Ty::Vec(n, _) => Val::A(Rc::new(vec![v; *n as usize])),
                    _ => panic!("splat"),
                }
            }
            "getelementptr" => {
                while matches!(p.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                    let w = p.word();
                    if w == "inrange" {
                        p.skip_parens();
                    }
                }
                p.expect(b'(');
                let t = self.ty(p);
                p.expect(b',');
                let (_, b) = self.tcst(p);
                let mut addr = Self::cint(&b) as u64;
                let mut cur = t;
                let mut first = true;
                while p.eat(b',') {
                    let (it, iv) = self.tcst(p);
                    let ix = sext128(Self::cint(&iv), it.bits()) as i64;
                    if first {
                        addr = addr.wrapping_add((ix as u64).wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                addr = addr.wrapping_add((ix as u64).wrapping_mul(t.size()));
                                cur = (*t).clone();
                            }
                            Ty::Struct(s) => {
                                addr = addr.wrapping_add(s.offs[ix as usize]);
                                cur = s.fields[ix as usize].clone();
                            }
                            _ => panic!("gep"),
                        }
                    }
                }
                p.expect(b')');
                Val::C(addr as u128)
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                p.expect(b'(');
                let (_, v) = self.tcst(p);
                assert!(p.eat_word("to"));
                let t = self.ty(p);
                p.expect(b')');
                match t {
                    Ty::Int(w) => Val::C(Self::cint(&v) & mask(w)),
                    _ => v,
                }
            }
            "sub" | "add" | "mul" | "xor" | "and" | "or" => {
                while matches!(p.peek_word(), "nuw" | "nsw") {
                    p.word();
                }
                p.expect(b'(');
                let (t, a) = self.tcst(p);
                p.expect(b',');
                let (_, b) = self.tcst(p);
                p.expect(b')');
                let (a, b) = (Self::cint(&a), Self::cint(&b));
                let r = match w {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    "mul" => a.wrapping_mul(b),
                    "xor" => a ^ b,
                    "and" => a & b,
                    _ => a | b,
                };
                Val::C(r & mask(t.bits()))
            }
            _ => panic!("operand? {:?} {}", w, p.rest()),
        })
    }
    fn topd(&mut self, p: &mut P, fc: &mut FCtx) -> (Ty, Opd) {
        let t = self.ty(p);
        let v = self.opd(p, &t, Some(fc));
        (t, v)
    }
    fn skip_attrs(&self, p: &mut P) -> u64 {
        // parameter/return attributes before a value; returns byval size
        let mut byval = 0;
        loop {
            let c = p.peek();
            if c == b'"' {
                p.i += 1;
                while p.s[p.i] != b'"' {
                    p.i += 1;
                }
                p.i += 1;
                if p.eat(b'=') {
                    p.peek();
                    p.i += 1;
                    while p.s[p.i] != b'"' {
                        p.i += 1;
                    }
                    p.i += 1;
                }
                continue;
            }
            if !c.is_ascii_lowercase() {
                return byval;
            }
            if c == b'c' && p.s.get(p.i + 1) == Some(&b'"') {
                return byval;
            }
            let st = p.i;
            let w = p.word();
            if matches!(
                w,
                "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sub" | "add" | "mul" | "xor" | "and" | "or" | "asm"
            ) || is_type_word(w)
            {
                p.i = st;
                return byval;
            }
            if w == "align" && p.peek() != b'(' {
                p.uint();
            } else if w == "cc" {
                p.uint();
            } else if p.i < p.s.len() && p.s[p.i] == b'(' {
                if w == "byval" {
                    p.i += 1;
                    let t = self.ty(p);
                    byval = t.size();
                    p.expect(b')');
                } else {
                    p.skip_parens();
                }
            }
        }
    }

    pub fn parse(text: &str) -> Module {
        let mut m = Module {
            syms: vec![],
            sym_ix: HashMap::new(),
            funcs: vec![],
            sites: 0,
            func_of_sym: HashMap::new(),
            globals: vec![],
            types: HashMap::new(),
            type_defs: HashMap::new(),
            alias: HashMap::new(),
        };
        let lines: Vec<&str> = text.lines().collect();
        // aliases first
        for l in &lines {
            if l.starts_with('@') && l.contains(" alias ") {
                let mut p = P { s: l.as_bytes(), i: 1 };
                let n = p.name();
                // target is last @name
                let at = l.rfind('@').unwrap();
                let mut q = P { s: l.as_bytes(), i: at + 1 };
                let t = q.name();
                m.alias.insert(n, t);
            }
            if l.starts_with('%') && l.contains(" = type ") {
                let mut p = P { s: l.as_bytes(), i: 1 };
                let n = p.name();
                let at = l.find(" = type ").unwrap() + 8;
                let mut q = P { s: l.as_bytes(), i: at };
                if q.peek_word() == "opaque" {
                    m.types.insert(n, Ty::Other);
                } else {
                    m.type_defs.insert(n, l[q.i..].to_string());
                }
            }
        }
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with('@') && !l.contains(" alias ") {
                m.parse_global(l);
            } else if l.starts_with("define ") {
                let st = i;
                while lines[i] != "}" {
                    i += 1;
                }
                m.parse_func(&lines[st..i]);
            }
            i += 1;
        }
        m
    }

    /// number of an atomic instruction in textual order (0: not atomic)
    fn site(&mut self, atomic: bool) -> u32 {
        if !atomic {
            return 0;
        }
        self.sites += 1;
        self.sites
    }
    fn parse_global(&mut self, l: &str) {
        let mut p = P { s: l.as_bytes(), i: 1 };
        let n = p.name();
        p.expect(b'=');
        let mut external = false;
        let mut tls = false;
        let constant;
        loop {
            let w = p.word();
            match w {
                "global" => {
                    constant = false;
                    break;
                }
                "constant" => {
                    constant = true;
                    break;
                }
                "external" | "extern_weak" => external = true,
                "thread_local" => {
                    tls = true;
                    if p.i < p.s.len() && p.s[p.i] == b'(' {
                        p.skip_parens();
                    }
                }
                "" => panic!("global {}", p.rest()),
                _ => {
                    if p.i < p.s.len() && p.s[p.i] == b'(' {
                        p.skip_parens();
                    }
                }
            }
        }
        let t = self.ty(&mut p);
        let sym = self.sym(&n);
        let init = if external {
            None
        } else {
            let v = self.cst(&mut p, &t);
            let mut b = vec![0u8; t.size() as usize];
            Self::flatten(&t, &v, &mut b, 0);
            Some(b)
        };
        self.globals.push(Global { sym, tls, size: t.size(), init, constant });
    }
    fn flatten(t: &Ty, v: &Val, out: &mut [u8], off: u64) {
        match (t, v) {
            (Ty::Arr(_, et), Val::A(xs)) => {
                let s = et.size();
                for (i, x) in xs.iter().enumerate() {
                    Self::flatten(et, x, out, off + i as u64 * s);
                }
            }
            (Ty::Vec(_, et), Val::A(xs)) => {
                let s = et.bits() as u64 / 8;
                for (i, x) in xs.iter().enumerate() {
                    Self::flatten(et, x, out, off + i as u64 * s);
                }
            }
            (Ty::Struct(st), Val::A(xs)) => {
                for (i, x) in xs.iter().enumerate() {
                    Self::flatten(&st.fields[i], x, out, off + st.offs[i]);
                }
            }
            (t, Val::C(x)) => {
                let n = t.store_size() as usize;
                out[off as usize..off as usize + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            _ => panic!("flatten {t:?} {v:?}"),
        }
    }

    fn parse_func(&mut self, lines: &[&str]) {
        let mut fc = FCtx { regs: HashMap::new(), labels: HashMap::new() };
        let mut p = P { s: lines[0].as_bytes(), i: 7 };
        // skip linkage etc until type
        loop {
            let c = p.peek();
            if c == b'{' || c == b'[' || c == b'<' || c == b'%' {
                break;
            }
            let st = p.i;
            let w = p.word();
            if is_type_word(w) {
                p.i = st;
                break;
            }
            if (w == "cc" || w == "align") && p.peek() != b'(' {
                p.uint();
            } else if p.s[p.i] == b'(' {
                p.skip_parens();
            }
        }
        let _rt = self.ty(&mut p);
        p.expect(b'@');
        let name = p.name();
        let sym = self.sym(&name);
        p.expect(b'(');
        let mut params = vec![];
        let mut byv = vec![];
        if !p.eat(b')') {
            let mut k = 0;
            loop {
                if p.peek() == b'.' {
                    p.i += 3;
                    break;
                }
                let _t = self.ty(&mut p);
                let bv = self.skip_attrs(&mut p);
                byv.push(bv);
                if p.peek() == b'%' {
                    p.i += 1;
                    let n = p.name();
                    params.push(fc.reg(n));
                } else {
                    params.push(fc.reg(format!("{k}")));
                }
                k += 1;
                if !p.eat(b',') {
                    break;
                }
            }
            p.expect(b')');
        }
        // logical lines
        struct L {
            label: Option<String>,
            text: String,
        }
        let mut ls: Vec<L> = vec![];
        let mut j = 1;
        while j < lines.len() {
            let l = lines[j];
            j += 1;
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let mut q = P { s: l.as_bytes(), i: 0 };
                let n = q.name();
                ls.push(L { label: Some(n), text: String::new() });
                continue;
            }
            let tl = l.trim_start();
            if tl.starts_with(';') {
                continue;
            }
            let mut text = tl.to_string();
            if tl.starts_with("switch ") && tl.ends_with('[') {
                while !lines[j].trim_start().starts_with(']') {
                    text.push(' ');
                    text.push_str(lines[j].trim());
                    j += 1;
                }
                text.push_str(" ]");
                j += 1;
            } else if tl.starts_with("invoke ") || tl.contains(" = invoke ") {
                text.push(' ');
                text.push_str(lines[j].trim());
                j += 1;
            } else if tl.contains(" = landingpad ") {
                while j < lines.len() {
                    let t = lines[j].trim_start();
                    if t.starts_with("catch ") || t.starts_with("cleanup") || t.starts_with("filter ") {
                        j += 1;
                    } else {
                        break;
                    }
                }
            }
            ls.push(L { label: None, text });
        }
        // entry label
        let mut bi: HashMap<u32, u32> = HashMap::new(); // label id -> block index
        let mut blocks: Vec<Block> = vec![];
        let mut code: Vec<Ins> = vec![];
        if ls.first().map_or(true, |l| l.label.is_none()) {
            // implicit entry name = number of params (unnamed) -- never referenced except in phis
            let n = format!("{}", params.len());
            let id = fc.label(n);
            bi.insert(id, 0);
            blocks.push(Block { start: 0, phis: vec![] });
        }
        let mut phis_raw: Vec<(usize, u32, Vec<(u32, Opd)>)> = vec![];
        for l in &ls {
            if let Some(n) = &l.label {
                let id = fc.label(n.clone());
                bi.insert(id, blocks.len() as u32);
                blocks.push(Block { start: code.len() as u32, phis: vec![] });
                continue;
            }
            let mut p = P { s: l.text.as_bytes(), i: 0 };
            let mut d = u32::MAX;
            if p.peek() == b'%' {
                p.i += 1;
                let n = p.name();
                d = fc.reg(n);
                p.expect(b'=');
            }
            if p.peek_word() == "phi" {
                p.word();
                while matches!(p.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    p.word();
                }
                let t = self.ty(&mut p);
                let mut inc = vec![];
                loop {
                    p.expect(b'[');
                    let v = self.opd(&mut p, &t, Some(&mut fc));
                    p.expect(b',');
                    p.expect(b'%');
                    let n = p.name();
                    inc.push((fc.label(n), v));
                    p.expect(b']');
                    if !p.eat(b',') {
                        break;
                    }
                    if p.peek() != b'[' {
                        break;
                    }
                }
                phis_raw.push((blocks.len() - 1, d, inc));
                continue;
            }
            let ins = self.parse_ins(&mut p, d, &mut fc, &l.text);
            code.push(ins);
        }
        for (b, d, inc) in phis_raw {
            let inc = inc.into_iter().filter_map(|(l, v)| bi.get(&l).map(|b| (*b, v))).collect();
            blocks[b].phis.push((d, inc));
        }
        // label ids -> block indexes
        let fx = |x: &mut u32| *x = *bi.get(x).unwrap_or(&u32::MAX);
        for ins in &mut code {
            match ins {
                Ins::Br(t) => fx(t),
                Ins::CondBr { t, f, .. } => {
                    fx(t);
                    fx(f);
                }
                Ins::Switch { def, cases, .. } => {
                    fx(def);
                    for c in cases {
                        fx(&mut c.1);
                    }
                }
                Ins::Call { normal: Some(n), .. } => fx(n),
                _ => {}
            }
        }
        let ix = self.funcs.len() as u32;
        self.funcs.push(Rc::new(Func { name, sym, params, param_byval: byv, nregs: fc.regs.len() as u32, blocks, code }));
        self.func_of_sym.insert(sym, ix);
    }

    fn parse_ins(&mut self, p: &mut P, d: u32, fc: &mut FCtx, text: &str) -> Ins {
        let mut w = p.word();
        if matches!(w, "tail" | "musttail" | "notail") {
            w = p.word();
        }
        let flags = |p: &mut P| {
            while matches!(
                p.peek_word(),
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak" | "inalloca"
            ) {
                p.word();
            }
        };
        let bop = match w {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(op) = bop {
            flags(p);
            let (ty, a) = self.topd(p, fc);
            p.expect(b',');
            let b = self.opd(p, &ty, Some(fc));
            return Ins::Bin { op, ty, a, b, d };
        }
        let cop = match w {
            "trunc" => Some(CastOp::Trunc),
            "zext" => Some(CastOp::ZExt),
            "sext" => Some(CastOp::SExt),
            "ptrtoint" => Some(CastOp::PtrToInt),
            "inttoptr" => Some(CastOp::IntToPtr),
            "bitcast" | "addrspacecast" => Some(CastOp::Bitcast),
            "fptrunc" => Some(CastOp::FpTrunc),
            "fpext" => Some(CastOp::FpExt),
            "uitofp" => Some(CastOp::UiToFp),
            "sitofp" => Some(CastOp::SiToFp),
            "fptoui" => Some(CastOp::FpToUi),
            "fptosi" => Some(CastOp::FpToSi),
            _ => None,
        };
        if let Some(op) = cop {
            flags(p);
            let (from, a) = self.topd(p, fc);
            assert!(p.eat_word("to"));
            let to = self.ty(p);
            return Ins::Cast { op, from, to, a, d };
        }
        match w {
            "icmp" => {
                flags(p);
                let pr = match p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("pred {x}"),
                };
                let (ty, a) = self.topd(p, fc);
                p.expect(b',');
                let b = self.opd(p, &ty, Some(fc));
                Ins::ICmp { p: pr, ty, a, b, d }
            }
            "fcmp" => {
                flags(p);
                let pr: Rc<str> = p.word().into();
                let (ty, a) = self.topd(p, fc);
                p.expect(b',');
                let b = self.opd(p, &ty, Some(fc));
                Ins::FCmp { p: pr, ty, a, b, d }
            }
            "fneg" => {
                flags(p);
                let (ty, a) = self.topd(p, fc);
                Ins::FNeg { ty, a, d }
            }
            "alloca" => {
                flags(p);
                let t = self.ty(p);
                let mut n = Opd::V(Val::C(1));
                if p.eat(b',') && p.peek_word() != "align" && p.peek() == b'i' {
                    n = self.topd(p, fc).1;
                }
                Ins::Alloca { size: t.size(), n, d }
            }
            "load" => {
                let at = self.site(p.peek_word() == "atomic");
                flags(p);
                let ty = self.ty(p);
                p.expect(b',');
                let (_, a) = self.topd(p, fc);
                Ins::Load { ty, p: a, d, at }
            }
            "store" => {
                let at = self.site(p.peek_word() == "atomic");
                flags(p);
                let (ty, v) = self.topd(p, fc);
                p.expect(b',');
                let (_, a) = self.topd(p, fc);
                Ins::Store { ty, v, p: a, at }
            }
            "getelementptr" => {
                flags(p);
                let mut cur = self.ty(p);
                p.expect(b',');
                let (_, base) = self.topd(p, fc);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut first = true;
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    let (it, iv) = self.topd(p, fc);
                    let w = it.bits();
                    let scale;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                scale = t.size();
                                cur = (*t).clone();
                            }
                            Ty::Struct(s) => {
                                let Opd::V(Val::C(k)) = iv else { panic!("struct idx") };
                                off += s.offs[k as usize] as i64;
                                cur = s.fields[k as usize].clone();
                                continue;
                            }
                            _ => panic!("gep: {text}"),
                        }
                    }
                    match iv {
                        Opd::V(Val::C(k)) => off = off.wrapping_add((sext128(k, w) as i64).wrapping_mul(scale as i64)),
                        _ => idx.push((iv, w, scale)),
                    }
                }
                Ins::Gep { base, off, idx, d }
            }
            "select" => {
                flags(p);
                let (cty, c) = self.topd(p, fc);
                p.expect(b',');
                let (ty, a) = self.topd(p, fc);
                p.expect(b',');
                let (_, b) = self.topd(p, fc);
                Ins::Select { cty, ty, c, a, b, d }
            }
            "br" => {
                if p.eat_word("label") {
                    p.expect(b'%');
                    let n = p.name();
                    Ins::Br(fc.label(n))
                } else {
                    let (_, c) = self.topd(p, fc);
                    p.expect(b',');
                    p.eat_word("label");
                    p.expect(b'%');
                    let n = p.name();
                    let t = fc.label(n);
                    p.expect(b',');
                    p.eat_word("label");
                    p.expect(b'%');
                    let n = p.name();
                    let f = fc.label(n);
                    Ins::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (ty, v) = self.topd(p, fc);
                p.expect(b',');
                p.eat_word("label");
                p.expect(b'%');
                let n = p.name();
                let def = fc.label(n);
                p.expect(b'[');
                let mut cases = vec![];
                while !p.eat(b']') {
                    let (_, c) = self.tcst(p);
                    p.expect(b',');
                    p.eat_word("label");
                    p.expect(b'%');
                    let n = p.name();
                    cases.push((Self::cint(&c), fc.label(n)));
                }
                Ins::Switch { w: ty.bits(), v, def, cases }
            }
            "ret" => {
                if p.eat_word("void") {
                    Ins::Ret(None)
                } else {
                    Ins::Ret(Some(self.topd(p, fc).1))
                }
            }
            "unreachable" | "landingpad" | "resume" => Ins::Unreachable,
            "call" | "invoke" => {
                // flags, cc, ret attrs
                loop {
                    let c = p.peek();
                    if c == b'{' || c == b'[' || c == b'<' || c == b'%' {
                        break;
                    }
                    let st = p.i;
                    let ww = p.word();
                    if ww.is_empty() {
                        panic!("call: {text}");
                    }
                    if is_type_word(ww) {
                        p.i = st;
                        break;
                    }
                    if (ww == "cc" || ww == "align") && p.peek() != b'(' {
                        p.uint();
                    } else if p.s[p.i] == b'(' {
                        p.skip_parens();
                    }
                }
                let rty = self.ty(p);
                if p.peek() == b'(' {
                    p.skip_parens();
                }
                let callee = if p.peek_word() == "asm" {
                    p.word();
                    while p.peek() != b'"' {
                        p.word();
                    }
                    let t = p.name();
                    p.expect(b',');
                    p.peek();
                    let _c = p.name();
                    Callee::Asm(Rc::new(t))
                } else if p.peek() == b'@' {
                    p.i += 1;
                    let n = p.name();
                    Callee::Sym(self.sym(&n))
                } else {
                    Callee::Dyn(self.opd(p, &Ty::Ptr, Some(fc)))
                };
                p.expect(b'(');
                let mut args = vec![];
                let meta = matches!(&callee, Callee::Sym(s) if self.syms[*s as usize].starts_with("llvm.dbg") || self.syms[*s as usize].starts_with("llvm.experimental.noalias") || self.syms[*s as usize].starts_with("llvm.lifetime"));
                if meta {
                    return Ins::Nop;
                }
                if !p.eat(b')') {
                    loop {
                        let t = self.ty(p);
                        let bv = self.skip_attrs(p);
                        if t == Ty::Other {
                            // metadata argument
                            return Ins::Unsupported(text.into());
                        }
                        let v = self.opd(p, &t, Some(fc));
                        args.push((t, v, bv));
                        if !p.eat(b',') {
                            break;
                        }
                    }
                    p.expect(b')');
                }
                let normal = if w == "invoke" {
                    let at = text.rfind(" to label %").unwrap();
                    let mut q = P { s: text.as_bytes(), i: at + 11 };
                    let n = q.name();
                    Some(fc.label(n))
                } else {
                    None
                };
                Ins::Call { callee, args, rty, d, normal }
            }
            "extractvalue" => {
                let (_, a) = self.topd(p, fc);
                let mut idx = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    idx.push(p.uint() as u32);
                }
                Ins::ExtractValue { a, idx, d }
            }
            "insertvalue" => {
                let (_, a) = self.topd(p, fc);
                p.expect(b',');
                let (_, v) = self.topd(p, fc);
                let mut idx = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    idx.push(p.uint() as u32);
                }
                Ins::InsertValue { a, v, idx, d }
            }
            "extractelement" => {
                let (_, a) = self.topd(p, fc);
                p.expect(b',');
                let (_, i) = self.topd(p, fc);
                Ins::ExtractElem { a, i, d }
            }
            "insertelement" => {
                let (_, a) = self.topd(p, fc);
                p.expect(b',');
                let (_, v) = self.topd(p, fc);
                p.expect(b',');
                let (_, i) = self.topd(p, fc);
                Ins::InsertElem { a, v, i, d }
            }
            "shufflevector" => {
                let (t, a) = self.topd(p, fc);
                p.expect(b',');
                let (_, b) = self.topd(p, fc);
                p.expect(b',');
                let (_, mk) = self.tcst(p);
                let Val::A(mk) = mk else { panic!() };
                let n = match t {
                    Ty::Vec(n, _) => n as usize,
                    _ => panic!(),
                };
                Ins::Shuffle { a, b, mask: mk.iter().map(|v| Self::cint(v) as i64).collect(), n, d }
            }
            "atomicrmw" => {
                let at = self.site(true);
                flags(p);
                let op = match p.word() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "nand" => RmwOp::Nand,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    x => panic!("rmw {x}"),
                };
                let (_, a) = self.topd(p, fc);
                p.expect(b',');
                let (ty, v) = self.topd(p, fc);
                Ins::Rmw { op, p: a, v, ty, d, at }
            }
            "cmpxchg" => {
                let at = self.site(true);
                flags(p);
                let (_, a) = self.topd(p, fc);
                p.expect(b',');
                let (ty, c) = self.topd(p, fc);
                p.expect(b',');
                let (_, n) = self.topd(p, fc);
                Ins::CmpXchg { p: a, c, n, ty, d, at }
            }
            "fence" => Ins::Nop,
            "freeze" => {
                let (_, a) = self.topd(p, fc);
                Ins::Freeze { a, d }
            }
            _ => Ins::Unsupported(text.into()),
        }
    }
}

pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    ((v << (128 - w)) as i128) >> (128 - w)
}
