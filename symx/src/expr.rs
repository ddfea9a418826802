//! Hash-consed bit-vector expressions with a simplifier, intervals and an evaluator.
use crate::ir::{mask, sext128};
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Slt, Ite, Concat, Extract, ZExt, SExt,
    // IEEE floats carried as bit patterns; width of operands is 32 or 64
    FAdd, FSub, FMul, FDiv, FRem, FEq, FLt, FLe, FUno, UiToFp, SiToFp, FpToUi, FpToSi, FpToFp, FRound,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Key {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub val: u128,
}
pub struct Node {
    pub k: Key,
    pub lo: u128,
    pub hi: u128,
    pub fp: bool,
}

pub struct VarInfo {
    pub name: String,
    pub e: E,
    pub w: u16,
    pub lo: u128,
    pub hi: u128,
}

pub struct Ctx {
    pub n: Vec<Node>,
    ix: HashMap<Key, E>,
    pub vars: Vec<VarInfo>,
    var_ix: HashMap<(String, u16, u128, u128), u32>,
    varsets: Vec<Option<Rc<Vec<u32>>>>,
    /// small-range subterms that were used as table indices (see `source_of`)
    sources: std::collections::HashSet<E>,
    src_memo: HashMap<E, Option<E>>,
    fold_memo: HashMap<E, E>,
    /// terms in the canonical form of an affine function over GF(2) (see `Affine`)
    lin: HashMap<E, Rc<Affine>>,
    aff_memo: HashMap<E, Option<Rc<Affine>>>,
}

/// c ^ (the columns of the source bits that are set); sorted by source, no zero columns
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Affine {
    pub c: u128,
    pub cols: Vec<(E, u128)>,
}
impl Affine {
    fn xor(&self, o: &Affine) -> Affine {
        let (a, b) = (&self.cols, &o.cols);
        let (mut i, mut j, mut cols) = (0, 0, Vec::with_capacity(a.len() + b.len()));
        while i < a.len() || j < b.len() {
            if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
                cols.push(a[i]);
                i += 1;
            } else if i == a.len() || b[j].0 < a[i].0 {
                cols.push(b[j]);
                j += 1;
            } else {
                if a[i].1 != b[j].1 {
                    cols.push((a[i].0, a[i].1 ^ b[j].1));
                }
                i += 1;
                j += 1;
            }
        }
        Affine { c: self.c ^ o.c, cols }
    }
    fn map(&self, f: impl Fn(u128) -> u128) -> Affine {
        Affine { c: f(self.c), cols: self.cols.iter().map(|(s, v)| (*s, f(*v))).filter(|x| x.1 != 0).collect() }
    }
}

#[derive(Clone, Default)]
pub struct Model(pub Vec<u128>);
impl Model {
    pub fn get(&self, v: u32) -> Option<u128> {
        self.0.get(v as usize).copied()
    }
    pub fn set(&mut self, v: u32, x: u128) {
        while self.0.len() <= v as usize {
            self.0.push(0);
        }
        self.0[v as usize] = x;
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx { n: vec![], ix: HashMap::new(), vars: vec![], var_ix: HashMap::new(), varsets: vec![], sources: Default::default(), src_memo: HashMap::new(), fold_memo: HashMap::new(), lin: HashMap::new(), aff_memo: HashMap::new() };
        // index 0 reserved as "none"
        c.n.push(Node { k: Key { op: Op::Const, w: 0, a: 0, b: 0, c: 0, val: 0 }, lo: 0, hi: 0, fp: false });
        c
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].k.w as u32
    }
    pub fn k(&self, e: E) -> Key {
        self.n[e as usize].k
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        let k = &self.n[e as usize].k;
        if k.op == Op::Const { Some(k.val) } else { None }
    }
    fn hi(&self, e: E) -> u128 {
        self.n[e as usize].hi
    }
    fn lo(&self, e: E) -> u128 {
        self.n[e as usize].lo
    }
    pub fn interval(&self, e: E) -> (u128, u128) {
        (self.lo(e), self.hi(e))
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, val: u128) -> E {
        let k = Key { op, w: w as u16, a, b, c, val };
        if let Some(e) = self.ix.get(&k) {
            return *e;
        }
        let (lo, hi) = self.range(&k);
        let e = self.n.len() as E;
        let own = matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FEq | Op::FLt | Op::FLe | Op::FUno | Op::UiToFp | Op::SiToFp | Op::FpToUi | Op::FpToSi | Op::FpToFp | Op::FRound);
        self.n.push(Node { k, lo, hi, fp: own });
        if !own {
            let fp = self.kids(e).into_iter().flatten().any(|x| self.n[x as usize].fp);
            self.n[e as usize].fp = fp;
        }
        self.ix.insert(k, e);
        e
    }
    fn range(&self, k: &Key) -> (u128, u128) {
        let w = k.w as u32;
        let m = mask(w);
        let full = (0, m);
        match k.op {
            Op::Const => (k.val, k.val),
            Op::Var => (self.vars[k.a as usize].lo, self.vars[k.a as usize].hi),
            Op::Add => {
                let (h, o) = self.hi(k.a).overflowing_add(self.hi(k.b));
                if !o && h <= m {
                    (self.lo(k.a) + self.lo(k.b), h)
                } else if let Some(c) = self.cv(k.b) {
                    // x + c wrapping for the entire range (subtraction of a constant)
                    let (l, lo_o) = self.lo(k.a).overflowing_add(c);
                    if (lo_o || l > m) && w < 128 {
                        ((l & m), (self.hi(k.a).wrapping_add(c)) & m)
                    } else {
                        full
                    }
                } else {
                    full
                }
            }
            Op::Sub => {
                if self.lo(k.a) >= self.hi(k.b) {
                    (self.lo(k.a) - self.hi(k.b), self.hi(k.a) - self.lo(k.b))
                } else {
                    full
                }
            }
            Op::Mul => match self.hi(k.a).checked_mul(self.hi(k.b)) {
                Some(h) if h <= m => (self.lo(k.a) * self.lo(k.b), h),
                _ => full,
            },
            Op::UDiv => {
                if self.lo(k.b) > 0 {
                    (self.lo(k.a) / self.hi(k.b), self.hi(k.a) / self.lo(k.b))
                } else {
                    full
                }
            }
            Op::URem => {
                if self.lo(k.b) > 0 {
                    (0, self.hi(k.a).min(self.hi(k.b) - 1))
                } else {
                    full
                }
            }
            Op::And => (0, self.hi(k.a).min(self.hi(k.b))),
            Op::Or | Op::Xor => {
                let h = self.hi(k.a) | self.hi(k.b);
                let bits = 128 - h.leading_zeros();
                let l = if k.op == Op::Or { self.lo(k.a).max(self.lo(k.b)) } else { 0 };
                (l, mask(bits) & m)
            }
            Op::Ite => (self.lo(k.b).min(self.lo(k.c)), self.hi(k.b).max(self.hi(k.c))),
            Op::Concat => {
                let wb = self.w(k.b);
                ((self.lo(k.a) << wb) | self.lo(k.b), (self.hi(k.a) << wb) | self.hi(k.b))
            }
            Op::Extract => {
                let h = self.hi(k.a);
                if k.c == 0 && h <= m {
                    (self.lo(k.a), h)
                } else if k.c as u32 + w == self.w(k.a) {
                    (self.lo(k.a) >> k.c, h >> k.c)
                } else if (h >> k.c) <= m {
                    (self.lo(k.a) >> k.c, h >> k.c)
                } else {
                    full
                }
            }
            Op::ZExt => (self.lo(k.a), self.hi(k.a)),
            Op::SExt => {
                let wa = self.w(k.a);
                if self.hi(k.a) <= mask(wa - 1) { (self.lo(k.a), self.hi(k.a)) } else { full }
            }
            Op::LShr => (0, self.hi(k.a)),
            Op::Shl => full,
            _ => full,
        }
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.mk(Op::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn var(&mut self, name: &str, w: u32, lo: u128, hi: u128) -> (E, u32) {
        let key = (name.to_string(), w as u16, lo, hi);
        let id = match self.var_ix.get(&key) {
            Some(i) => *i,
            None => {
                let i = self.vars.len() as u32;
                self.vars.push(VarInfo { name: name.to_string(), e: 0, w: w as u16, lo, hi });
                self.var_ix.insert(key, i);
                let e = self.mk(Op::Var, w, i, 0, 0, 0);
                self.vars[i as usize].e = e;
                i
            }
        };
        (self.mk(Op::Var, w, id, 0, 0, 0), id)
    }
    pub fn t(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn f(&mut self) -> E {
        self.c(0, 1)
    }
    pub fn not1(&mut self, a: E) -> E {
        let o = self.c(1, 1);
        self.xor(a, o)
    }
    fn swap_const(&self, a: E, b: E) -> (E, E) {
        if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) { (b, a) } else { (a, b) }
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = self.swap_const(a, b);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c(x.wrapping_add(y), w);
            }
            if y == 0 {
                return a;
            }
            let k = self.k(a);
            if k.op == Op::Add {
                if let Some(z) = self.cv(k.b) {
                    let s = self.c(y.wrapping_add(z), w);
                    return self.add(k.a, s);
                }
            }
            if k.op == Op::Sub {
                if let Some(z) = self.cv(k.a) {
                    let s = self.c(y.wrapping_add(z), w);
                    return self.sub(s, k.b);
                }
            }
            if k.op == Op::Ite && self.cv(k.b).is_some() && self.cv(k.c).is_some() {
                let x = self.add(k.b, b);
                let y = self.add(k.c, b);
                return self.ite(k.a, x, y);
            }
            return self.mk(Op::Add, w, a, b, 0, 0);
        }
        // pull constants outwards
        let (ka, kb) = (self.k(a), self.k(b));
        if ka.op == Op::Add && self.cv(ka.b).is_some() {
            let s = self.add(ka.a, b);
            return self.add(s, ka.b);
        }
        if kb.op == Op::Add && self.cv(kb.b).is_some() {
            let s = self.add(a, kb.a);
            return self.add(s, kb.b);
        }
        if kb.op == Op::Sub && kb.b == a {
            return kb.a;
        }
        if ka.op == Op::Sub && ka.b == b {
            return ka.a;
        }
        self.mk(Op::Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        if let Some(y) = self.cv(b) {
            let s = self.c(y.wrapping_neg(), w);
            return self.add(a, s);
        }
        let (ka, kb) = (self.k(a), self.k(b));
        if ka.op == Op::Add {
            if ka.a == b {
                return ka.b;
            }
            if ka.b == b {
                return ka.a;
            }
            if self.cv(ka.b).is_some() {
                let s = self.sub(ka.a, b);
                return self.add(s, ka.b);
            }
        }
        if kb.op == Op::Add {
            if let Some(y) = self.cv(kb.b) {
                let s = self.sub(a, kb.a);
                let n = self.c(y.wrapping_neg(), w);
                return self.add(s, n);
            }
            if kb.a == a {
                let z = self.c(0, w);
                return self.sub(z, kb.b);
            }
            if kb.b == a {
                let z = self.c(0, w);
                return self.sub(z, kb.a);
            }
        }
        if kb.op == Op::Sub && kb.a == a {
            return kb.b;
        }
        self.mk(Op::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = self.swap_const(a, b);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c(x.wrapping_mul(y), w);
            }
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let s = self.c(y.trailing_zeros() as u128, w);
                return self.shl(a, s);
            }
            let k = self.k(a);
            if k.op == Op::Mul {
                if let Some(z) = self.cv(k.b) {
                    let s = self.c(y.wrapping_mul(z), w);
                    return self.mul(k.a, s);
                }
            }
        }
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 1 {
                return a;
            }
            if y != 0 {
                if let Some(x) = self.cv(a) {
                    return self.c(x / y, w);
                }
                if y.is_power_of_two() {
                    let s = self.c(y.trailing_zeros() as u128, w);
                    return self.lshr(a, s);
                }
                if self.hi(a) < y {
                    return self.c(0, w);
                }
                let k = self.k(a);
                if k.op == Op::ZExt && y <= mask(self.w(k.a)) {
                    let wi = self.w(k.a);
                    let c = self.c(y, wi);
                    let d = self.udiv(k.a, c);
                    return self.zext(d, w);
                }
            }
        }
        self.mk(Op::UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y != 0 {
                if let Some(x) = self.cv(a) {
                    return self.c(x % y, w);
                }
                if y.is_power_of_two() {
                    let s = self.c(y - 1, w);
                    return self.and(a, s);
                }
                if self.hi(a) < y {
                    return a;
                }
                let k = self.k(a);
                if k.op == Op::ZExt && y <= mask(self.w(k.a)) {
                    let wi = self.w(k.a);
                    let c = self.c(y, wi);
                    let d = self.urem(k.a, c);
                    return self.zext(d, w);
                }
            }
        }
        self.mk(Op::URem, w, a, b, 0, 0)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.hi(a) <= mask(w - 1) && self.hi(b) <= mask(w - 1) {
            return self.udiv(a, b);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.c(sext128(x, w).wrapping_div(sext128(y, w)) as u128, w);
            }
        }
        self.mk(Op::SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.hi(a) <= mask(w - 1) && self.hi(b) <= mask(w - 1) {
            return self.urem(a, b);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.c(sext128(x, w).wrapping_rem(sext128(y, w)) as u128, w);
            }
        }
        self.mk(Op::SRem, w, a, b, 0, 0)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = self.swap_const(a, b);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c(x & y, w);
            }
            if y == 0 {
                return b;
            }
            if y == mask(w) {
                return a;
            }
            // single run of ones -> extract
            let lo = y.trailing_zeros();
            let run = (y >> lo).trailing_ones();
            if (y >> lo) == mask(run) {
                let x = self.extract(a, lo, run);
                let r = if lo > 0 {
                    let z = self.c(0, lo);
                    self.concat(x, z)
                } else {
                    x
                };
                return self.zext(r, w);
            }
            let k = self.k(a);
            if k.op == Op::And {
                if let Some(z) = self.cv(k.b) {
                    let m = self.c(y & z, w);
                    return self.and(k.a, m);
                }
            }
            if k.op == Op::ZExt {
                let wi = self.w(k.a);
                let m = self.c(y, wi);
                let r = self.and(k.a, m);
                return self.zext(r, w);
            }
            if k.op == Op::Concat {
                let wl = self.w(k.b);
                let mh = self.c(y >> wl, w - wl);
                let ml = self.c(y, wl);
                let h = self.and(k.a, mh);
                let l = self.and(k.b, ml);
                return self.concat(h, l);
            }
        }
        if w == 1 {
            let (ka, kb) = (self.k(a), self.k(b));
            // x & !x
            if (kb.op == Op::Xor && kb.a == a && self.cv(kb.b).is_some()) || (ka.op == Op::Xor && ka.a == b && self.cv(ka.b).is_some()) {
                return self.c(0, 1);
            }
            if ka.op == Op::And && (ka.a == b || ka.b == b) {
                return a;
            }
            if kb.op == Op::And && (kb.a == a || kb.b == a) {
                return b;
            }
        }
        self.mk(Op::And, w, a, b, 0, 0)
    }
    fn pieces(&self, e: E, out: &mut Vec<(u32, Option<E>, u32)>) {
        // from LSB: (width, Some(expr)/None for zero, lo offset into expr)
        let k = self.k(e);
        match k.op {
            Op::Concat => {
                self.pieces(k.b, out);
                self.pieces(k.a, out);
            }
            Op::ZExt => {
                self.pieces(k.a, out);
                out.push((k.w as u32 - self.w(k.a), None, 0));
            }
            Op::Const if k.val == 0 => out.push((k.w as u32, None, 0)),
            _ => out.push((k.w as u32, Some(e), 0)),
        }
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = self.swap_const(a, b);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c(x | y, w);
            }
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
        }
        if w > 1 {
            let (ka, kb) = (self.k(a).op, self.k(b).op);
            if matches!(ka, Op::Concat | Op::ZExt) && matches!(kb, Op::Concat | Op::ZExt | Op::Const) {
                let (mut pa, mut pb) = (vec![], vec![]);
                self.pieces(a, &mut pa);
                if kb == Op::Const {
                    // split at single byte run boundaries is not needed: treat as one piece
                    pb.push((w, Some(b), 0));
                } else {
                    self.pieces(b, &mut pb);
                }
                let (mut i, mut j, mut oi, mut oj) = (0, 0, 0, 0);
                let mut res: Vec<(u32, Option<E>, u32)> = vec![];
                let mut ok = true;
                while i < pa.len() && j < pb.len() {
                    let l = (pa[i].0 - oi).min(pb[j].0 - oj);
                    let bz = |s: &Self, p: &(u32, Option<E>, u32), o: u32| match p.1 {
                        None => true,
                        Some(e) => s.cv(e).map_or(false, |v| (v >> o) & mask(l) == 0),
                    };
                    let za = bz(self, &pa[i], oi);
                    let zb = bz(self, &pb[j], oj);
                    if za && zb {
                        res.push((l, None, 0));
                    } else if zb {
                        res.push((l, pa[i].1, oi));
                    } else if za {
                        res.push((l, pb[j].1, oj));
                    } else {
                        ok = false;
                        break;
                    }
                    oi += l;
                    oj += l;
                    if oi == pa[i].0 {
                        i += 1;
                        oi = 0;
                    }
                    if oj == pb[j].0 {
                        j += 1;
                        oj = 0;
                    }
                }
                if ok {
                    let mut acc: Option<E> = None;
                    for (l, e, o) in res {
                        let x = match e {
                            None => self.c(0, l),
                            Some(e) => self.extract(e, o, l),
                        };
                        acc = Some(match acc {
                            None => x,
                            Some(lo) => self.concat(x, lo),
                        });
                    }
                    return acc.unwrap();
                }
            }
        } else {
            let (ka, kb) = (self.k(a), self.k(b));
            if (kb.op == Op::Xor && kb.a == a && self.cv(kb.b).is_some()) || (ka.op == Op::Xor && ka.a == b && self.cv(ka.b).is_some()) {
                return self.c(1, 1);
            }
            if ka.op == Op::Or && (ka.a == b || ka.b == b) {
                return a;
            }
            if kb.op == Op::Or && (kb.a == a || kb.b == a) {
                return b;
            }
        }
        self.mk(Op::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        if let Some((x, y)) = self.lin2(a, b) {
            return self.aff_build(x.xor(&y), w);
        }
        let (a, b) = self.swap_const(a, b);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c(x ^ y, w);
            }
            if y == 0 {
                return a;
            }
            let k = self.k(a);
            if k.op == Op::Xor {
                if let Some(z) = self.cv(k.b) {
                    let s = self.c(y ^ z, w);
                    return self.xor(k.a, s);
                }
            }
            if k.op == Op::Ite && (self.cv(k.b).is_some() || self.cv(k.c).is_some()) {
                let x = self.xor(k.b, b);
                let y = self.xor(k.c, b);
                return self.ite(k.a, x, y);
            }
            if k.op == Op::ZExt && y <= mask(self.w(k.a)) {
                let wi = self.w(k.a);
                let m = self.c(y, wi);
                let r = self.xor(k.a, m);
                return self.zext(r, w);
            }
        }
        self.mk(Op::Xor, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return a;
            }
            if y >= w as u128 {
                return self.c(0, w);
            }
            let s = y as u32;
            let x = self.extract(a, 0, w - s);
            let z = self.c(0, s);
            return self.concat(x, z);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.mk(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return a;
            }
            if y >= w as u128 {
                return self.c(0, w);
            }
            let s = y as u32;
            let x = self.extract(a, s, w - s);
            return self.zext(x, w);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.mk(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.hi(a) <= mask(w - 1) {
            return self.lshr(a, b);
        }
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return a;
            }
            let s = (y as u32).min(w - 1);
            if y > w as u128 {
                // poison; use sign fill
            }
            let x = self.extract(a, s, w - s);
            return self.sext(x, w);
        }
        self.mk(Op::AShr, w, a, b, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa, "extract {lo}+{w} of {wa}");
        if lo == 0 && w == wa {
            return a;
        }
        if self.lin1(a) {
            let x = self.lin[&a].clone();
            return self.aff_build(x.map(|v| v >> lo & mask(w)), w);
        }
        let k = self.k(a);
        match k.op {
            Op::Const => return self.c(k.val >> lo, w),
            Op::Extract => return self.extract(k.a, lo + k.c, w),
            Op::Concat => {
                let wl = self.w(k.b);
                if lo >= wl {
                    return self.extract(k.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(k.b, lo, w);
                }
                let l = self.extract(k.b, lo, wl - lo);
                let h = self.extract(k.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wi = self.w(k.a);
                if lo >= wi {
                    return self.c(0, w);
                }
                if lo + w <= wi {
                    return self.extract(k.a, lo, w);
                }
                let x = self.extract(k.a, lo, wi - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(k.a);
                if lo + w <= wi {
                    return self.extract(k.a, lo, w);
                }
                if lo < wi {
                    let x = self.extract(k.a, lo, wi - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(k.a, wi - 1, 1);
                return self.sext(x, w);
            }
            Op::Ite if self.cv(k.b).is_some() || self.cv(k.c).is_some() => {
                let x = self.extract(k.b, lo, w);
                let y = self.extract(k.c, lo, w);
                return self.ite(k.a, x, y);
            }
            Op::And | Op::Or | Op::Xor if self.cv(k.b).is_some() => {
                let x = self.extract(k.a, lo, w);
                let y = self.extract(k.b, lo, w);
                return match k.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && w != 8 => {
                // low bits depend only on low bits
                let x = self.extract(k.a, 0, w);
                let y = self.extract(k.b, 0, w);
                return match k.op {
                    Op::Add => self.add(x, y),
                    Op::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                };
            }
            _ => {}
        }
        if lo > 0 && self.hi(a) >> lo == 0 {
            return self.c(0, w);
        }
        self.mk(Op::Extract, w, a, 0, lo, 0)
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        assert!(w <= 128, "concat too wide");
        let (ka, kb) = (self.k(a), self.k(b));
        if ka.op == Op::Const && kb.op == Op::Const {
            return self.c((ka.val << wb) | kb.val, w);
        }
        if ka.op == Op::Const && ka.val == 0 {
            return self.zext(b, w);
        }
        if ka.op != Op::Const && kb.op != Op::Const {
            if let Some((x, y)) = self.lin2(a, b) {
                return self.aff_build(x.map(|v| v << wb).xor(&y), w);
            }
        }
        if ka.op == Op::ZExt {
            let x = self.concat(ka.a, b);
            return self.zext(x, w);
        }
        if ka.op == Op::Concat {
            let l = self.concat(ka.b, b);
            return self.concat(ka.a, l);
        }
        // adjacent slices
        if let Some(m) = self.join(a, b) {
            return m;
        }
        if kb.op == Op::Concat {
            if let Some(m) = self.join(a, kb.a) {
                return self.concat(m, kb.b);
            }
        }
        // sext: top part all copies of sign is not recognised
        self.mk(Op::Concat, w, a, b, 0, 0)
    }
    fn join(&mut self, a: E, b: E) -> Option<E> {
        let (ka, kb) = (self.k(a), self.k(b));
        if ka.op == Op::Const && kb.op == Op::Const {
            let w = ka.w as u32 + kb.w as u32;
            return Some(self.c((ka.val << kb.w) | kb.val, w));
        }
        let (xa, la) = if ka.op == Op::Extract { (ka.a, ka.c) } else { (a, 0) };
        let (xb, lb) = if kb.op == Op::Extract { (kb.a, kb.c) } else { (b, 0) };
        if xa == xb && la == lb + kb.w as u32 && ka.op == Op::Extract {
            return Some(self.extract(xa, lb, ka.w as u32 + kb.w as u32));
        }
        // ite with same condition and constants
        if ka.op == Op::Ite && kb.op == Op::Ite && ka.a == kb.a && self.cv(ka.b).is_some() && self.cv(ka.c).is_some() && self.cv(kb.b).is_some() && self.cv(kb.c).is_some() {
            let x = self.concat(ka.b, kb.b);
            let y = self.concat(ka.c, kb.c);
            return Some(self.ite(ka.a, x, y));
        }
        None
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let k = self.k(a);
        match k.op {
            Op::Const => return self.c(k.val, w),
            Op::ZExt => return self.zext(k.a, w),
            Op::Ite if self.cv(k.b).is_some() && self.cv(k.c).is_some() => {
                let x = self.zext(k.b, w);
                let y = self.zext(k.c, w);
                return self.ite(k.a, x, y);
            }
            _ => {}
        }
        self.mk(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let k = self.k(a);
        if self.hi(a) <= mask(wa - 1) {
            return self.zext(a, w);
        }
        match k.op {
            Op::Const => return self.c(sext128(k.val, wa) as u128, w),
            Op::SExt => return self.sext(k.a, w),
            Op::Ite if self.cv(k.b).is_some() && self.cv(k.c).is_some() => {
                let x = self.sext(k.b, w);
                let y = self.sext(k.c, w);
                return self.ite(k.a, x, y);
            }
            _ => {}
        }
        if wa == 1 {
            let x = self.c(u128::MAX, w);
            let y = self.c(0, w);
            return self.ite(a, x, y);
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    // ---- affine functions over GF(2): checksums computed through linear tables stay in one canonical form ----
    fn aff(&mut self, e: E) -> Option<Rc<Affine>> {
        if let Some(a) = self.lin.get(&e) {
            return Some(a.clone());
        }
        if let Some(a) = self.aff_memo.get(&e) {
            return a.clone();
        }
        let k = self.k(e);
        let w = self.w(e);
        let m = mask(w);
        let r = match k.op {
            Op::Const => Some(Affine { c: k.val, cols: vec![] }),
            Op::Xor => match (self.aff(k.a), self.aff(k.b)) {
                (Some(a), Some(b)) => Some(a.xor(&b)),
                _ => None,
            },
            Op::Concat => match (self.aff(k.a), self.aff(k.b)) {
                (Some(a), Some(b)) => {
                    let wl = self.w(k.b);
                    Some(a.map(|v| v << wl).xor(&b))
                }
                _ => None,
            },
            Op::Extract => self.aff(k.a).map(|a| a.map(|v| v >> k.c & m)),
            Op::ZExt => self.aff(k.a).map(|a| (*a).clone()),
            Op::And => match self.cv(k.b) {
                Some(y) => self.aff(k.a).map(|a| a.map(|v| v & y)),
                None => None,
            },
            Op::Ite => match (self.cv(k.b), self.cv(k.c)) {
                (Some(x), Some(y)) => Some(Affine { c: y, cols: if x == y { vec![] } else { vec![(k.a, x ^ y)] } }),
                _ => None,
            },
            _ => None,
        };
        let r = match r {
            Some(r) if r.cols.len() <= 512 => Some(r),
            Some(_) => None,
            None if w == 1 => Some(Affine { c: 0, cols: vec![(e, 1)] }),
            None if w <= 64 && (k.op == Op::Var || w <= 8) => {
                let mut cols: Vec<(E, u128)> = (0..w).map(|i| (self.extract(e, i, 1), 1u128 << i)).collect();
                cols.sort();
                Some(Affine { c: 0, cols })
            }
            None => None,
        };
        let r = r.map(Rc::new);
        self.aff_memo.insert(e, r.clone());
        r
    }
    fn aff_build(&mut self, a: Affine, w: u32) -> E {
        let mut acc = None;
        for (s, v) in &a.cols {
            let (c, z) = (self.c(*v, w), self.c(0, w));
            let t = self.ite(*s, c, z);
            acc = Some(match acc {
                None => t,
                Some(x) => self.mk(Op::Xor, w, x, t, 0, 0),
            });
        }
        let c = self.c(a.c, w);
        let Some(e) = acc else { return c };
        let e = if a.cols.len() == 1 && a.c != 0 {
            let x = self.c(a.c ^ a.cols[0].1, w);
            self.ite(a.cols[0].0, x, c)
        } else if a.c != 0 {
            self.mk(Op::Xor, w, e, c, 0, 0)
        } else {
            e
        };
        if a.cols.len() > 1 {
            self.lin.insert(e, Rc::new(a));
        }
        e
    }
    /// the value of a table that is linear over GF(2) (entry of bit k: basis[k]) at index s
    pub fn lin_lookup(&mut self, s: E, basis: &[u128], w: u32) -> E {
        let f = |v: u128| basis.iter().enumerate().filter(|(k, _)| v >> k & 1 == 1).fold(0, |x, (_, b)| x ^ b);
        match self.aff(s) {
            Some(a) => self.aff_build(a.map(f), w),
            None => {
                let mut cols = vec![];
                for (k, v) in basis.iter().enumerate() {
                    cols.push((self.extract(s, k as u32, 1), *v));
                }
                cols.sort();
                self.aff_build(Affine { c: 0, cols }, w)
            }
        }
    }
    fn linish(&self, a: E) -> bool {
        let k = self.k(a);
        self.lin.contains_key(&a) || (k.op == Op::ZExt && self.linish(k.a)) || (k.op == Op::Concat && (self.linish(k.a) || self.linish(k.b)))
    }
    fn lin1(&self, a: E) -> bool {
        !self.lin.is_empty() && self.lin.contains_key(&a)
    }
    fn lin2(&mut self, a: E, b: E) -> Option<(Rc<Affine>, Rc<Affine>)> {
        if self.lin.is_empty() || !(self.linish(a) || self.linish(b)) {
            return None;
        }
        Some((self.aff(a)?, self.aff(b)?))
    }
    /// a == 0, by Gaussian elimination: a conjunction of independent parities
    fn aff_zero(&mut self, a: Affine, w: u32) -> E {
        let n = a.cols.len();
        let words = n / 64 + 1;
        // one row per bit: which sources it depends on; the last bit is the constant
        let mut rows: Vec<Vec<u64>> = vec![];
        for i in 0..w {
            let mut r = vec![0u64; words];
            for (j, (_, v)) in a.cols.iter().enumerate() {
                r[j / 64] |= ((v >> i & 1) as u64) << (j % 64);
            }
            r[n / 64] |= ((a.c >> i & 1) as u64) << (n % 64);
            rows.push(r);
        }
        let bit = |r: &[u64], j: usize| r[j / 64] >> (j % 64) & 1 == 1;
        let mut rank = 0;
        for j in 0..n {
            let Some(p) = (rank..rows.len()).find(|i| bit(&rows[*i], j)) else { continue };
            rows.swap(rank, p);
            let pr = rows[rank].clone();
            for i in 0..rows.len() {
                if i != rank && bit(&rows[i], j) {
                    for (x, y) in rows[i].iter_mut().zip(&pr) {
                        *x ^= y;
                    }
                }
            }
            rank += 1;
        }
        if rows[rank..].iter().any(|r| bit(r, n)) {
            return self.f();
        }
        let mut acc = self.t();
        for r in &rows[..rank] {
            let mut x: Option<E> = None;
            for j in 0..n {
                if bit(r, j) {
                    let s = a.cols[j].0;
                    x = Some(match x {
                        None => s,
                        Some(x) => self.mk(Op::Xor, 1, x, s, 0, 0),
                    });
                }
            }
            let x = x.unwrap();
            let q = if bit(r, n) { x } else { self.not1(x) };
            acc = self.and(acc, q);
        }
        acc
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.t();
        }
        if let Some((x, y)) = self.lin2(a, b) {
            let w = self.w(a);
            return self.aff_zero(x.xor(&y), w);
        }
        let (a, b) = self.swap_const(a, b);
        let w = self.w(a);
        if self.hi(a) < self.lo(b) || self.hi(b) < self.lo(a) {
            return self.f();
        }
        let ka = self.k(a);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c((x == y) as u128, 1);
            }
            if w == 1 {
                return if y == 1 { a } else { self.not1(a) };
            }
            match ka.op {
                Op::ZExt => {
                    let wi = self.w(ka.a);
                    if y > mask(wi) {
                        return self.f();
                    }
                    let c = self.c(y, wi);
                    return self.eq(ka.a, c);
                }
                Op::SExt => {
                    let wi = self.w(ka.a);
                    if (sext128(y & mask(wi), wi) as u128) & mask(w) != y {
                        return self.f();
                    }
                    let c = self.c(y, wi);
                    return self.eq(ka.a, c);
                }
                Op::Concat => {
                    let wl = self.w(ka.b);
                    let ch = self.c(y >> wl, w - wl);
                    let cl = self.c(y, wl);
                    let h = self.eq(ka.a, ch);
                    if self.cv(h) == Some(0) {
                        return h;
                    }
                    let l = self.eq(ka.b, cl);
                    return self.and(h, l);
                }
                Op::Add => {
                    if let Some(z) = self.cv(ka.b) {
                        let c = self.c(y.wrapping_sub(z), w);
                        return self.eq(ka.a, c);
                    }
                }
                Op::Sub => {
                    if let Some(z) = self.cv(ka.a) {
                        let c = self.c(z.wrapping_sub(y), w);
                        return self.eq(ka.b, c);
                    }
                    if y == 0 {
                        return self.eq(ka.a, ka.b);
                    }
                }
                Op::Xor => {
                    if let Some(z) = self.cv(ka.b) {
                        let c = self.c(y ^ z, w);
                        return self.eq(ka.a, c);
                    }
                    if y == 0 {
                        return self.eq(ka.a, ka.b);
                    }
                }
                Op::Ite => {
                    let (bc, cc) = (self.cv(ka.b), self.cv(ka.c));
                    if bc.is_some() || cc.is_some() {
                        let x = self.eq(ka.b, b);
                        let z = self.eq(ka.c, b);
                        return self.ite(ka.a, x, z);
                    }
                }
                _ => {}
            }
            return self.mk(Op::Eq, 1, a, b, 0, 0);
        }
        let kb = self.k(b);
        if (ka.op == Op::ZExt && kb.op == Op::ZExt || ka.op == Op::SExt && kb.op == Op::SExt) && self.w(ka.a) == self.w(kb.a) {
            return self.eq(ka.a, kb.a);
        }
        if ka.op == Op::ZExt && kb.op == Op::ZExt {
            let m = self.w(ka.a).max(self.w(kb.a));
            if m < w {
                let x = self.zext(ka.a, m);
                let y = self.zext(kb.a, m);
                return self.eq(x, y);
            }
        }
        if ka.op == Op::Add && kb.op == Op::Add {
            if ka.b == kb.b {
                return self.eq(ka.a, kb.a);
            }
            if ka.a == kb.a {
                return self.eq(ka.b, kb.b);
            }
        }
        if kb.op == Op::Add && kb.a == a {
            let z = self.c(0, w);
            return self.eq(kb.b, z);
        }
        if ka.op == Op::Add && ka.a == b {
            let z = self.c(0, w);
            return self.eq(ka.b, z);
        }
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f();
        }
        if self.hi(a) < self.lo(b) {
            return self.t();
        }
        if self.lo(a) >= self.hi(b) {
            return self.f();
        }
        let w = self.w(a);
        let (ka, kb) = (self.k(a), self.k(b));
        if let Some(y) = self.cv(b) {
            if y == 1 {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            if y == mask(w) {
                let q = self.eq(a, b);
                return self.not1(q);
            }
            if ka.op == Op::ZExt {
                let wi = self.w(ka.a);
                let c = self.c(y, wi);
                return self.ult(ka.a, c);
            }
            if ka.op == Op::Ite && (self.cv(ka.b).is_some() || self.cv(ka.c).is_some()) {
                let x = self.ult(ka.b, b);
                let z = self.ult(ka.c, b);
                return self.ite(ka.a, x, z);
            }
        }
        if let Some(x) = self.cv(a) {
            if x == 0 {
                let q = self.eq(b, a);
                return self.not1(q);
            }
            if kb.op == Op::ZExt {
                let wi = self.w(kb.a);
                let c = self.c(x, wi);
                return self.ult(c, kb.a);
            }
            if kb.op == Op::Ite && (self.cv(kb.b).is_some() || self.cv(kb.c).is_some()) {
                let x = self.ult(a, kb.b);
                let z = self.ult(a, kb.c);
                return self.ite(kb.a, x, z);
            }
        }
        if ka.op == Op::ZExt && kb.op == Op::ZExt {
            let m = self.w(ka.a).max(self.w(kb.a));
            if m < w {
                let x = self.zext(ka.a, m);
                let y = self.zext(kb.a, m);
                return self.ult(x, y);
            }
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not1(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f();
        }
        let w = self.w(a);
        let m = mask(w - 1);
        if self.hi(a) <= m && self.hi(b) <= m {
            return self.ult(a, b);
        }
        if self.lo(a) > m && self.lo(b) > m {
            return self.ult(a, b);
        }
        if self.hi(a) <= m && self.lo(b) > m {
            return self.f();
        }
        if self.lo(a) > m && self.hi(b) <= m {
            return self.t();
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c((sext128(x, w) < sext128(y, w)) as u128, 1);
        }
        if self.cv(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.cv(a) == Some(mask(w)) {
            // -1 < b
            let s = self.extract(b, w - 1, 1);
            return self.not1(s);
        }
        let (ka, kb) = (self.k(a), self.k(b));
        if ka.op == Op::SExt && kb.op == Op::SExt && self.w(ka.a) == self.w(kb.a) {
            return self.slt(ka.a, kb.a);
        }
        if kb.op == Op::Const && ka.op == Op::Ite && (self.cv(ka.b).is_some() || self.cv(ka.c).is_some()) {
            let x = self.slt(ka.b, b);
            let z = self.slt(ka.c, b);
            return self.ite(ka.a, x, z);
        }
        if ka.op == Op::Const && kb.op == Op::Ite && (self.cv(kb.b).is_some() || self.cv(kb.c).is_some()) {
            let x = self.slt(a, kb.b);
            let z = self.slt(a, kb.c);
            return self.ite(kb.a, x, z);
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not1(x)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(x) = self.cv(c) {
            return if x == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let kc = self.k(c);
        if kc.op == Op::Xor && self.cv(kc.b) == Some(1) {
            return self.ite(kc.a, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let ka = self.k(a);
        if ka.op == Op::Ite && ka.a == c {
            return self.ite(c, ka.b, b);
        }
        let kb = self.k(b);
        if kb.op == Op::Ite && kb.a == c {
            return self.ite(c, a, kb.c);
        }
        if ka.op == Op::ZExt && kb.op == Op::ZExt && self.w(ka.a) == self.w(kb.a) {
            let x = self.ite(c, ka.a, kb.a);
            return self.zext(x, w);
        }
        // nested same results
        if kb.op == Op::Ite && kb.b == a {
            let cc = self.or(c, kb.a);
            return self.ite(cc, a, kb.c);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    /// generic float/other op with concrete folding done by evaluating
    pub fn fop(&mut self, op: Op, w: u32, a: E, b: E, c: u32) -> E {
        let ca = self.cv(a);
        let cb = if b == 0 { Some(0) } else { self.cv(b) };
        if let (Some(x), Some(y)) = (ca, cb) {
            let wa = self.w(a);
            let r = feval(op, w, wa, x, y, c);
            return self.c(r, w);
        }
        self.mk(op, w, a, b, c, 0)
    }

    pub fn vars_of(&mut self, e: E) -> Rc<Vec<u32>> {
        while self.varsets.len() < self.n.len() {
            self.varsets.push(None);
        }
        if let Some(r) = &self.varsets[e as usize] {
            return r.clone();
        }
        let k = self.k(e);
        let r: Rc<Vec<u32>> = match k.op {
            Op::Const => Rc::new(vec![]),
            Op::Var => Rc::new(vec![k.a]),
            _ => {
                let kids = self.kids(e);
                let mut acc: Option<Rc<Vec<u32>>> = None;
                for x in kids.into_iter().flatten() {
                    let s = self.vars_of(x);
                    acc = Some(match acc {
                        None => s,
                        Some(a) => {
                            if s.is_empty() || Rc::ptr_eq(&a, &s) {
                                a
                            } else if a.is_empty() {
                                s
                            } else {
                                let mut v: Vec<u32> = a.iter().chain(s.iter()).copied().collect();
                                v.sort_unstable();
                                v.dedup();
                                if v.len() == a.len() {
                                    a
                                } else if v.len() == s.len() {
                                    s
                                } else {
                                    Rc::new(v)
                                }
                            }
                        }
                    });
                }
                acc.unwrap_or_default()
            }
        };
        self.varsets[e as usize] = Some(r.clone());
        r
    }
    /// the one subterm with at most 256 values that e is a function of, if there is one
    pub fn source_of(&mut self, e: E, create: bool) -> Option<E> {
        if let Some(r) = self.src_memo.get(&e) {
            if r.is_some() || !create {
                return *r;
            }
        }
        let mut r = self.frontier(e, &|x, n| x.sources.contains(&n));
        if r.is_none() && create {
            r = self.frontier(e, &|x, n| x.n[n as usize].hi - x.n[n as usize].lo < 256);
            if let Some(s) = r {
                self.sources.insert(s);
                self.src_memo.clear();
                self.fold_memo.clear();
            }
        }
        self.src_memo.insert(e, r);
        r
    }
    fn frontier(&self, e: E, stop: &dyn Fn(&Ctx, E) -> bool) -> Option<E> {
        let mut found = None;
        let mut seen = std::collections::HashSet::new();
        let mut todo = vec![e];
        while let Some(n) = todo.pop() {
            if !seen.insert(n) {
                continue;
            }
            if seen.len() > 600 {
                return None;
            }
            let k = self.k(n);
            if k.op == Op::Const {
                continue;
            }
            if stop(self, n) {
                if found.is_some_and(|f| f != n) {
                    return None;
                }
                found = Some(n);
                continue;
            }
            if k.op == Op::Var {
                return None;
            }
            todo.extend(self.kids(n).into_iter().flatten());
        }
        let s: E = found?;
        (self.hi(s) - self.lo(s) < 256).then_some(s)
    }
    /// the 8-bit term (0..=255) an address is computed from, if it is the only thing the address depends on
    pub fn index_byte(&self, e: E) -> Option<E> {
        let s = self.frontier(e, &|x, n| x.n[n as usize].hi - x.n[n as usize].lo < 256)?;
        (self.w(s) >= 8 && self.lo(s) == 0 && self.hi(s) == 255).then_some(s)
    }
    /// values of e for every value of its source s
    pub fn table(&self, e: E, s: E) -> Vec<u128> {
        let m = Model::default();
        (self.lo(s)..=self.hi(s))
            .map(|v| {
                let mut memo = HashMap::new();
                memo.insert(s, v);
                self.eval_m(e, &m, &mut memo)
            })
            .collect()
    }
    /// the function of s with these values, as a chain of constant and linear pieces
    pub fn from_table(&mut self, s: E, vals: &[u128], w: u32) -> E {
        let lo = self.lo(s);
        let ws = self.w(s);
        let mk = mask(w);
        let n = vals.len();
        let mut segs: Vec<(usize, bool)> = vec![]; // end (exclusive), linear
        let mut i = 0;
        while i < n {
            let mut c = i + 1;
            while c < n && vals[c] == vals[i] {
                c += 1;
            }
            let mut l = i + 1;
            while l < n && vals[l] == vals[l - 1].wrapping_add(1) & mk {
                l += 1;
            }
            if w >= 6 && l > c && l > i + 1 {
                segs.push((l, true));
                i = l;
            } else {
                segs.push((c, false));
                i = c;
            }
        }
        let sw = if ws < w {
            self.zext(s, w)
        } else if ws > w {
            self.extract(s, 0, w)
        } else {
            s
        };
        let mut acc: Option<E> = None;
        for i in (0..segs.len()).rev() {
            let start = if i == 0 { 0 } else { segs[i - 1].0 };
            let leaf = if segs[i].1 {
                let d = vals[start].wrapping_sub(lo + start as u128) & mk;
                let d = self.c(d, w);
                self.add(sw, d)
            } else {
                self.c(vals[start], w)
            };
            acc = Some(match acc {
                None => leaf,
                Some(r) => {
                    let b = self.c(lo + segs[i].0 as u128, ws);
                    let q = if segs[i].0 == start + 1 {
                        let one = self.c(lo + start as u128, ws);
                        self.eq(s, one)
                    } else {
                        self.ult(s, b)
                    };
                    self.ite(q, leaf, r)
                }
            });
        }
        acc.unwrap()
    }
    /// a condition over one table index, decided or rewritten over that index
    pub fn fold1(&mut self, e: E) -> E {
        if self.sources.is_empty() {
            return e;
        }
        if let Some(r) = self.fold_memo.get(&e) {
            return *r;
        }
        let r = match self.source_of(e, false) {
            Some(s) if s != e => {
                let t = self.table(e, s);
                self.from_table(s, &t, 1)
            }
            _ => e,
        };
        self.fold_memo.insert(e, r);
        r
    }
    pub fn kids(&self, e: E) -> [Option<E>; 3] {
        let k = self.k(e);
        match k.op {
            Op::Const | Op::Var => [None, None, None],
            Op::Ite => [Some(k.a), Some(k.b), Some(k.c)],
            Op::Extract | Op::ZExt | Op::SExt | Op::UiToFp | Op::SiToFp | Op::FpToUi | Op::FpToSi | Op::FpToFp | Op::FRound => [Some(k.a), None, None],
            _ => [Some(k.a), Some(k.b), None],
        }
    }

    pub fn eval(&self, e: E, m: &Model) -> u128 {
        let mut memo = HashMap::new();
        self.eval_m(e, m, &mut memo)
    }
    pub fn eval_m(&self, e: E, m: &Model, memo: &mut HashMap<E, u128>) -> u128 {
        let k = self.n[e as usize].k;
        if k.op == Op::Const {
            return k.val;
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        if k.op == Op::Var {
            return m.get(k.a).unwrap_or(self.vars[k.a as usize].lo);
        }
        let w = k.w as u32;
        let mk = mask(w);
        let r = match k.op {
            Op::Ite => {
                if self.eval_m(k.a, m, memo) == 1 {
                    self.eval_m(k.b, m, memo)
                } else {
                    self.eval_m(k.c, m, memo)
                }
            }
            Op::ZExt => self.eval_m(k.a, m, memo),
            Op::SExt => sext128(self.eval_m(k.a, m, memo), self.w(k.a)) as u128 & mk,
            Op::Extract => (self.eval_m(k.a, m, memo) >> k.c) & mk,
            Op::UiToFp | Op::SiToFp | Op::FpToUi | Op::FpToSi | Op::FpToFp | Op::FRound => {
                let x = self.eval_m(k.a, m, memo);
                feval(k.op, w, self.w(k.a), x, 0, k.c)
            }
            _ => {
                let x = self.eval_m(k.a, m, memo);
                let y = self.eval_m(k.b, m, memo);
                let wa = self.w(k.a);
                match k.op {
                    Op::Add => x.wrapping_add(y) & mk,
                    Op::Sub => x.wrapping_sub(y) & mk,
                    Op::Mul => x.wrapping_mul(y) & mk,
                    Op::UDiv => if y == 0 { mk } else { x / y },
                    Op::URem => if y == 0 { x } else { x % y },
                    Op::SDiv => {
                        let (a, b) = (sext128(x, w), sext128(y, w));
                        if b == 0 { if a < 0 { 1 } else { mk } } else { a.wrapping_div(b) as u128 & mk }
                    }
                    Op::SRem => {
                        let (a, b) = (sext128(x, w), sext128(y, w));
                        if b == 0 { x } else { a.wrapping_rem(b) as u128 & mk }
                    }
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    Op::Shl => if y >= w as u128 { 0 } else { (x << y) & mk },
                    Op::LShr => if y >= w as u128 { 0 } else { x >> y },
                    Op::AShr => (sext128(x, w) >> (y.min(w as u128 - 1))) as u128 & mk,
                    Op::Eq => (x == y) as u128,
                    Op::Ult => (x < y) as u128,
                    Op::Slt => (sext128(x, wa) < sext128(y, wa)) as u128,
                    Op::Concat => (x << self.w(k.b)) | y,
                    _ => feval(k.op, w, wa, x, y, k.c),
                }
            }
        };
        memo.insert(e, r);
        r
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let k = self.k(e);
        match k.op {
            Op::Const => format!("{:#x}", k.val),
            Op::Var => self.vars[k.a as usize].name.clone(),
            _ if d == 0 => "..".into(),
            _ => {
                let s: Vec<String> = self.kids(e).into_iter().flatten().map(|x| self.show(x, d - 1)).collect();
                if k.op == Op::Extract {
                    format!("{:?}{}[{}+:{}]({})", k.op, k.w, k.c, k.w, s.join(","))
                } else {
                    format!("{:?}{}({})", k.op, k.w, s.join(","))
                }
            }
        }
    }
}

fn f_of(bits: u128, w: u32) -> f64 {
    if w == 32 { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits as u64) }
}
/// c: for FRound 0=floor 1=ceil 2=trunc 3=rint 4=round-away
pub fn feval(op: Op, w: u32, wa: u32, x: u128, y: u128, c: u32) -> u128 {
    macro_rules! ar {
        ($o:tt) => {
            if wa == 32 { (f32::from_bits(x as u32) $o f32::from_bits(y as u32)).to_bits() as u128 } else { (f64::from_bits(x as u64) $o f64::from_bits(y as u64)).to_bits() as u128 }
        };
    }
    match op {
        Op::FAdd => ar!(+),
        Op::FSub => ar!(-),
        Op::FMul => ar!(*),
        Op::FDiv => ar!(/),
        Op::FRem => ar!(%),
        Op::FEq => (f_of(x, wa) == f_of(y, wa)) as u128,
        Op::FLt => (f_of(x, wa) < f_of(y, wa)) as u128,
        Op::FLe => (f_of(x, wa) <= f_of(y, wa)) as u128,
        Op::FUno => (f_of(x, wa).is_nan() || f_of(y, wa).is_nan()) as u128,
        Op::UiToFp => if w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 },
        Op::SiToFp => {
            let v = sext128(x, wa);
            if w == 32 { (v as f32).to_bits() as u128 } else { (v as f64).to_bits() as u128 }
        }
        Op::FpToUi => {
            let f = f_of(x, wa);
            let v = f as u128;
            v.min(mask(w))
        }
        Op::FpToSi => {
            let f = f_of(x, wa);
            let v = f as i128;
            let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
            v.clamp(lo, hi) as u128 & mask(w)
        }
        Op::FpToFp => if w == 32 { (f_of(x, wa) as f32).to_bits() as u128 } else { f_of(x, wa).to_bits() as u128 },
        Op::FRound => {
            let f = f_of(x, wa);
            let r = match c {
                0 => f.floor(),
                1 => f.ceil(),
                2 => f.trunc(),
                3 => f.round_ties_even(),
                _ => f.round(),
            };
            if w == 32 { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 }
        }
        _ => panic!("feval {op:?}"),
    }
}
