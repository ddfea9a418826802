//! The symbolic interpreter.
use crate::expr::*;
use crate::ext::{self, Ext, Fs};
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub stack_mark: u32,
    pub ret: u32,
    pub normal: Option<u32>,
    pub crash_mark: bool,
    pub blk: u32,
}

#[derive(Clone)]
pub struct Input {
    pub name: Rc<str>,
    pub e: Val,
}

/// One of the threads of a parallel section; thread 0 is the harness waiting for the others.
#[derive(Clone)]
pub struct Thr {
    pub frames: Vec<Rc<Frame>>,
    pub next_stack: u32,
    pub tls: Rc<HashMap<u32, u32>>,
    /// futex wait: address, has a timeout, register for the result
    pub blocked: Option<(u64, bool, u32)>,
    pub done: bool,
    pub occ: Rc<HashMap<u32, u32>>,
    pub last: (u32, u64, u128),
}
#[derive(Clone)]
pub struct Par {
    pub cur: usize,
    pub thr: Vec<Thr>,
    /// the current thread may execute its next scheduling point without asking
    pub granted: bool,
    /// the thread to continue with after the current instruction, if it stops running: reason (site)
    pub leave: Option<u32>,
    pub pre: u32,
    pub queue: Vec<usize>,
    pub idle: u32,
}
pub const SITE_BLOCK: u32 = 0xffffffe;
pub const SITE_END: u32 = 0xffffffd;
pub const SITE_YIELD: u32 = 0xffffffc;
pub const SITE_FUTEX: u32 = 0xffffffb;

#[derive(Clone)]
pub struct State {
    pub par: Option<Box<Par>>,
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pcs: Vec<E>,
    pub model: Rc<Model>,
    pub conc: Rc<HashMap<E, u128>>,
    pub fixed: Rc<HashSet<u32>>,
    pub inputs: Vec<Input>,
    pub outs: Vec<Val>,
    pub nvar: u32,
    pub fs: Rc<Fs>,
    pub clock: [Val; 4], // mono s, mono ns, real s, real ns
    pub tls: Rc<BTreeMap<u64, u64>>,
    pub env: Rc<BTreeMap<String, u64>>,
    pub watch: Option<u32>, // object id of the watched crash region
    pub crash_depth: usize,
    pub crash_stores: u32,
    pub crash_go: bool,
    pub crash_image: Option<Rc<Vec<Val>>>,
    pub steps: u64,
    pub forks: u32,
    pub rng: u64,
    /// object whose latest symbolic-address stores are kept in `slog` instead of being merged into its bytes
    pub slog_id: u32,
    pub slog: Vec<LogEnt>,
}

/// a store through a symbolic address, already shown to stay inside the object
#[derive(Clone)]
pub struct LogEnt {
    pub addr: E,
    pub n: u64,
    pub val: Val,
    pub lo: u64, // proven lower bound of the offset
}

pub enum Stop {
    Viol { kind: &'static str, msg: String },
    End,
    Infeasible,
    Unsup(String),
    Limit(String),
}
pub type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(String, u128)>,
    pub image: Option<Vec<u8>>,
    pub stack: Vec<String>,
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_viol: usize,
    pub deadline: std::time::Instant,
    pub ptr_cap: usize,
    pub val_cap: usize,
    pub trace: bool,
    pub profile: bool,
    pub samples: usize,
    pub forks_first: bool,
    pub preempt: u64,
    pub params: std::collections::HashMap<String, u64>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub forks: u64,
    pub reach: BTreeSet<String>,
    pub asserts: BTreeMap<String, u64>,
    pub fns: HashSet<u32>,
    pub viols: Vec<Viol>,
    pub errors: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<(String, u128)>, Vec<u128>, Option<Vec<u8>>)>,
    pub branch_queries: u64,
    pub ite_reads: u64,
    pub cut_debug: u64,
    pub ite_writes: u64,
    pub crash_points: u64,
    pub preemptions: u64,
    pub sites: BTreeMap<String, u64>,
}

#[derive(Clone, Copy)]
pub enum Target {
    Fn(u32),
    Ext(Ext),
    /// escaping of a string for `{:?}`: left out when the text is symbolic (it only feeds messages)
    StrDebug(u32, u64),
    Missing,
}

pub struct Exec {
    lin_memo: HashMap<(u64, u64, u64), Option<Vec<u128>>>,
    pub m: Module,
    pub targets: Vec<Target>,
    pub x: Ctx,
    pub s: Solver,
    pub work: Vec<State>,
    pub cfg: Cfg,
    pub st: Stats,
    pub errno: u64,
}

macro_rules! cc {
    ($v:expr) => {
        match $v {
            Val::C(x) => x,
            _ => unreachable!(),
        }
    };
}

impl Exec {
    pub fn new(m: Module, cfg: Cfg, rlimit: u32) -> Exec {
        let mut targets: Vec<Target> = vec![];
        for (i, n) in m.syms.iter().enumerate() {
            let t = if let Some(e) = ext::lookup(n) {
                Target::Ext(e)
            } else if let Some(f) = m.func_of_sym.get(&(i as u32)) {
                if n.starts_with("_ZN40_$LT$str$u20$as$u20$core..fmt..Debug$GT$3fmt17h") {
                    Target::StrDebug(*f, 0)
                } else if n.starts_with("_ZN58_$LT$alloc..string..String$u20$as$u20$core..fmt..Debug$GT$3fmt17h") {
                    Target::StrDebug(*f, 8)
                } else {
                    Target::Fn(*f)
                }
            } else {
                Target::Missing
            };
            targets.push(t);
        }
        Exec { lin_memo: HashMap::new(), m, targets, x: Ctx::new(), s: Solver::new(rlimit), work: vec![], cfg, st: Stats::default(), errno: 0 }
    }

    pub fn init_state(&mut self, entry: &str) -> State {
        let mut mem = Mem::new();
        for g in &self.m.globals {
            let data = match &g.init {
                Some(b) => b.clone(),
                None => vec![0; g.size.max(8) as usize],
            };
            if g.size >= (1 << OBJ_SHIFT) {
                panic!("global too big");
            }
            mem.put(SYM_BASE as u32 + g.sym, Some(Rc::new(Obj { data, sym: vec![], ro: g.constant, watched: false })));
        }
        self.errno = mem.alloc_heap(8, 0);
        let sym = *self.m.sym_ix.get(entry).unwrap_or_else(|| panic!("no entry {entry}"));
        let fi = *self.m.func_of_sym.get(&sym).unwrap_or_else(|| panic!("entry {entry} not defined"));
        let f = self.m.funcs[fi as usize].clone();
        let fr = Frame { regs: vec![Val::C(0); f.nregs as usize], f, pc: 0, stack_mark: STACK0, ret: u32::MAX, normal: None, crash_mark: false, blk: 0 };
        State {
            par: None,
            frames: vec![Rc::new(fr)],
            mem,
            pcs: vec![],
            model: Rc::new(Model::default()),
            conc: Rc::new(HashMap::new()),
            fixed: Rc::new(HashSet::new()),
            inputs: vec![],
            outs: vec![],
            nvar: 0,
            fs: Rc::new(Fs::default()),
            clock: [Val::C(1000), Val::C(0), Val::C(1_700_000_000), Val::C(0)],
            tls: Rc::new(BTreeMap::new()),
            env: Rc::new(BTreeMap::new()),
            watch: None,
            crash_depth: 0,
            crash_stores: 0,
            crash_go: false,
            crash_image: None,
            steps: 0,
            forks: 0,
            rng: 0,
            slog_id: 0,
            slog: vec![],
        }
    }

    // ---------- values ----------
    pub fn mk(&self, e: E) -> Val {
        match self.x.cv(e) {
            Some(v) => Val::C(v),
            None => Val::S(e),
        }
    }
    pub fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(x) => self.x.c(*x, w),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate as expr"),
        }
    }
    fn resolve(&mut self, st: &State, e: E) -> Val {
        if let Some(v) = st.conc.get(&e) {
            return Val::C(*v);
        }
        if !st.fixed.is_empty() {
            let vs = self.x.vars_of(e);
            if vs.iter().all(|v| st.fixed.contains(v)) {
                return Val::C(self.x.eval(e, &st.model));
            }
        }
        Val::S(e)
    }
    pub fn rv(&mut self, st: &State, v: Val) -> Val {
        match v {
            Val::S(e) => self.resolve(st, e),
            v => v,
        }
    }
    #[inline]
    fn val(&mut self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::V(v) => {
                if let (Some(p), Val::C(x)) = (&st.par, v) {
                    if p.cur != 0 && *x >= (SYM_BASE as u128) << OBJ_SHIFT && *x < (HEAP0 as u128) << OBJ_SHIFT {
                        let (id, off) = split(*x as u64);
                        if let Some(n) = p.thr[p.cur].tls.get(&id) {
                            return Val::C(((*n as u128) << OBJ_SHIFT) + off as u128);
                        }
                    }
                }
                v.clone()
            }
            Opd::R(r) => {
                let v = &st.frames.last().unwrap().regs[*r as usize];
                match v {
                    Val::C(x) => Val::C(*x),
                    Val::S(e) => self.resolve(st, *e),
                    a => a.clone(),
                }
            }
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) {
        if d != u32::MAX {
            Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v;
        }
    }

    // ---------- constraints ----------
    fn note_true(&mut self, st: &mut State, e: E) {
        Rc::make_mut(&mut st.conc).insert(e, 1);
        let k = self.x.k(e);
        match k.op {
            Op::Xor if self.x.cv(k.b) == Some(1) => self.note_false(st, k.a),
            Op::And => {
                self.note_true(st, k.a);
                self.note_true(st, k.b);
            }
            Op::Eq => {
                if let Some(v) = self.x.cv(k.b) {
                    self.note_val(st, k.a, v);
                }
            }
            Op::Var => {
                Rc::make_mut(&mut st.fixed).insert(k.a);
            }
            Op::Extract => self.note_val(st, e, 1),
            _ => {}
        }
    }
    fn note_false(&mut self, st: &mut State, e: E) {
        Rc::make_mut(&mut st.conc).insert(e, 0);
        let k = self.x.k(e);
        match k.op {
            Op::Xor if self.x.cv(k.b) == Some(1) => self.note_true(st, k.a),
            Op::Or => {
                self.note_false(st, k.a);
                self.note_false(st, k.b);
            }
            Op::Var => {
                Rc::make_mut(&mut st.fixed).insert(k.a);
            }
            _ => {}
        }
    }
    fn note_val(&mut self, st: &mut State, e: E, v: u128) {
        Rc::make_mut(&mut st.conc).insert(e, v);
        let k = self.x.k(e);
        let w = k.w as u32;
        match k.op {
            Op::Var => {
                Rc::make_mut(&mut st.fixed).insert(k.a);
            }
            Op::ZExt | Op::SExt => {
                let wi = self.x.w(k.a);
                self.note_val(st, k.a, v & mask(wi))
            }
            Op::Concat => {
                let wl = self.x.w(k.b);
                self.note_val(st, k.a, v >> wl);
                self.note_val(st, k.b, v & mask(wl));
            }
            Op::Add => {
                if let Some(c) = self.x.cv(k.b) {
                    self.note_val(st, k.a, v.wrapping_sub(c) & mask(w));
                }
            }
            Op::Sub => {
                if let Some(c) = self.x.cv(k.a) {
                    self.note_val(st, k.b, c.wrapping_sub(v) & mask(w));
                }
            }
            Op::Xor => {
                if let Some(c) = self.x.cv(k.b) {
                    self.note_val(st, k.a, v ^ c);
                }
            }
            _ => {}
        }
    }
    /// add a constraint known to be satisfied by st.model
    fn add_pc(&mut self, st: &mut State, c: E) {
        if self.x.cv(c).is_some() {
            return;
        }
        if st.conc.get(&c) == Some(&1) {
            return;
        }
        st.pcs.push(c);
        self.note_true(st, c);
    }
    fn slice(&mut self, st: &State, c: E) -> Vec<E> {
        let mut vs: HashSet<u32> = self.x.vars_of(c).iter().copied().collect();
        let mut out = vec![];
        let mut rest: Vec<(E, Rc<Vec<u32>>)> = st.pcs.iter().map(|e| (*e, self.x.vars_of(*e))).collect();
        loop {
            let mut changed = false;
            rest.retain(|(e, v)| {
                if v.iter().any(|x| vs.contains(x)) {
                    for x in v.iter() {
                        vs.insert(*x);
                    }
                    out.push(*e);
                    changed = true;
                    false
                } else {
                    true
                }
            });
            if !changed {
                break;
            }
        }
        out
    }
    /// is c satisfiable together with the path condition? returns a full model if so
    fn sat(&mut self, st: &State, c: E) -> R<Option<Rc<Model>>> {
        match self.x.cv(c) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(st.model.clone())),
            None => {}
        }
        if self.x.eval(c, &st.model) == 1 {
            return Ok(Some(st.model.clone()));
        }
        let mut q = self.slice(st, c);
        q.push(c);
        match self.s.check(&mut self.x, &q) {
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Limit("solver resource limit".into())),
            Res::Sat(m) => {
                let mut n = (*st.model).clone();
                // variables that were never given a value take their lower bound
                for i in n.0.len()..self.x.vars.len() {
                    let lo = self.x.vars[i].lo;
                    n.set(i as u32, lo);
                }
                for (v, x) in m {
                    n.set(v, x);
                }
                Ok(Some(Rc::new(n)))
            }
        }
    }
    fn push_fork(&mut self, mut o: State) {
        self.st.forks += 1;
        if self.cfg.profile {
            let t = o.frames.iter().rev().take(5).map(|f| format!("{}@{}", crate::demangle(&f.f.name), f.pc)).collect::<Vec<_>>().join(" < ");
            *self.st.sites.entry(t).or_default() += 1;
        }
        o.forks += 1;
        self.work.push(o);
    }
    /// Decide a 1-bit condition: forks if both sides are feasible. The instruction is re-executed
    /// by the other side, so nothing may have been changed yet.
    pub fn decide(&mut self, st: &mut State, v: &Val) -> R<bool> {
        let e = match v {
            Val::C(x) => return Ok(*x & 1 == 1),
            Val::S(e) => *e,
            _ => panic!("decide"),
        };
        if let Some(x) = st.conc.get(&e) {
            return Ok(*x == 1);
        }
        let e0 = e;
        let e = self.x.fold1(e);
        if let Some(x) = self.x.cv(e) {
            let t = if x == 1 { e0 } else { self.x.not1(e0) };
            self.note_true(st, t);
            return Ok(x == 1);
        }
        if let Some(x) = st.conc.get(&e) {
            return Ok(*x == 1);
        }
        self.st.branch_queries += 1;
        let n = self.x.not1(e);
        let here = self.x.eval(e, &st.model) == 1;
        let (mine, other) = if here { (e, n) } else { (n, e) };
        match self.sat(st, other)? {
            Some(m) => {
                let mut o = st.clone();
                o.model = m;
                self.add_pc(&mut o, other);
                self.push_fork(o);
                self.add_pc(st, mine);
            }
            None => {
                // implied: remember, no need to extend the path condition
                self.note_true(st, mine);
            }
        }
        Ok(here)
    }
    pub fn assume(&mut self, st: &mut State, v: &Val) -> R<()> {
        let e = match v {
            Val::C(x) => return if *x & 1 == 1 { Ok(()) } else { Err(Stop::Infeasible) },
            Val::S(e) => *e,
            _ => panic!(),
        };
        if let Some(x) = st.conc.get(&e) {
            return if *x == 1 { Ok(()) } else { Err(Stop::Infeasible) };
        }
        match self.sat(st, e)? {
            Some(m) => {
                st.model = m;
                self.add_pc(st, e);
                Ok(())
            }
            None => Err(Stop::Infeasible),
        }
    }
    /// feasible values (with models) of e, at most cap+1
    pub fn values(&mut self, st: &State, e: E, cap: usize) -> R<Vec<(u128, Rc<Model>)>> {
        let w = self.x.w(e);
        let mut out: Vec<(u128, Rc<Model>)> = vec![(self.x.eval(e, &st.model), st.model.clone())];
        let mut ex = self.x.t();
        loop {
            let last = out.last().unwrap().0;
            let c = self.x.c(last, w);
            let q = self.x.eq(e, c);
            let q = self.x.not1(q);
            ex = self.x.and(ex, q);
            match self.sat(st, ex)? {
                None => break,
                Some(m) => {
                    let v = self.x.eval(e, &m);
                    out.push((v, m));
                    if out.len() > cap {
                        break;
                    }
                }
            }
        }
        Ok(out)
    }
    /// addresses an access through `e` may use: the feasible ones if they are few, otherwise every offset of the
    /// object once the solver has shown that the access stays inside it
    fn addresses(&mut self, st: &mut State, e: E, n: u64, write: bool, what: &str) -> R<Vec<u128>> {
        const FEW: usize = 6;
        let cap = self.cfg.ptr_cap;
        let mut vals = self.values(st, e, FEW.min(cap))?;
        if vals.len() > FEW {
            let (id, _) = split(vals[0].0 as u64);
            let len = st.mem.get(id).map_or(0, |o| if write && o.ro { 0 } else { o.data.len() as u64 });
            if len >= n && len - n < 96 {
                let base = (id as u128) << crate::ir::OBJ_SHIFT;
                let b = self.x.c(base, 64);
                let off = self.x.sub(e, b);
                let top = self.x.c((len - n) as u128, 64);
                let out = self.x.ult(top, off);
                match self.sat(st, out)? {
                    None => return Ok((0..=(len - n) as u128).map(|i| base + i).collect()),
                    Some(m) => {
                        let a = self.x.eval(e, &m);
                        if let Err(s) = self.check_range(st, a as u64, n, write) {
                            st.model = m;
                            return Err(s);
                        }
                    }
                }
            }
            vals = self.values(st, e, cap)?;
            if vals.len() > cap {
                return Err(Stop::Limit(format!("symbolic {what} address with more than {cap} values: {}", self.x.show(e, 4))));
            }
        }
        for (a, m) in &vals {
            if let Err(s) = self.check_range(st, *a as u64, n, write) {
                st.model = m.clone();
                return Err(s);
            }
        }
        Ok(vals.into_iter().map(|x| x.0).collect())
    }
    /// make a value concrete by forking over all feasible values
    pub fn concretize(&mut self, st: &mut State, v: &Val, w: u32, what: &str) -> R<u128> {
        let v = self.rv(st, v.clone());
        let e = match v {
            Val::C(x) => return Ok(x),
            Val::S(e) => e,
            _ => panic!("concretize aggregate"),
        };
        let cap = self.cfg.val_cap;
        let vals = self.values(st, e, cap)?;
        if vals.len() > cap {
            return Err(Stop::Limit(format!("more than {cap} values for {what}: {}", self.x.show(e, 4))));
        }
        for (v, m) in vals.iter().skip(1).rev() {
            let c = self.x.c(*v, w);
            let q = self.x.eq(e, c);
            let mut o = st.clone();
            o.model = m.clone();
            self.add_pc(&mut o, q);
            self.note_val(&mut o, e, *v);
            self.push_fork(o);
        }
        let c = self.x.c(vals[0].0, w);
        let q = self.x.eq(e, c);
        self.add_pc(st, q);
        self.note_val(st, e, vals[0].0);
        Ok(vals[0].0)
    }
    pub fn conc_ptr(&mut self, st: &mut State, v: &Val) -> R<u64> {
        Ok(self.concretize(st, v, 64, "pointer")? as u64)
    }

    // ---------- memory ----------
    pub fn memerr(&self, what: &str, addr: u64, n: u64, st: &State) -> Stop {
        let (id, off) = split(addr);
        let d = match st.mem.get(id) {
            Some(o) => format!("object of {} bytes, offset {}", o.data.len(), off),
            None => "no live object".into(),
        };
        Stop::Viol { kind: "memory", msg: format!("{what} of {n} bytes at invalid address ({d})") }
    }
    pub fn check_range(&self, st: &State, addr: u64, n: u64, write: bool) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (id, off) = split(addr);
        match st.mem.get(id) {
            Some(o) if off + n <= o.data.len() as u64 && !(write && o.ro) => Ok(()),
            _ => Err(self.memerr(if write { "write" } else { "read" }, addr, n, st)),
        }
    }
    pub fn load_int(&mut self, st: &State, addr: u64, n: u64, w: u32) -> R<Val> {
        self.check_range(st, addr, n, false)?;
        let (id, off) = split(addr);
        let o = st.mem.get(id).unwrap();
        let off = off as usize;
        let n = n as usize;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(Val::C(u128::from_le_bytes(b) & mask(w)));
        }
        let mut acc: Option<E> = None;
        let o = o.clone();
        for i in 0..n {
            let b = if o.sym[off + i] != 0 { o.sym[off + i] } else { self.x.c(o.data[off + i] as u128, 8) };
            acc = Some(match acc {
                None => b,
                Some(l) => self.x.concat(b, l),
            });
        }
        let mut r = acc.unwrap();
        if w < 8 * n as u32 {
            r = self.x.extract(r, 0, w);
        }
        let v = self.mk(r);
        Ok(self.rv(st, v))
    }
    pub fn store_int(&mut self, st: &mut State, addr: u64, n: u64, v: &Val) -> R<()> {
        self.check_range(st, addr, n, true)?;
        let (id, off) = split(addr);
        let off = off as usize;
        let n = n as usize;
        match v {
            Val::C(x) => {
                let o = st.mem.get_mut(id).unwrap();
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(0);
                }
            }
            Val::S(e) => {
                let w = self.x.w(*e);
                let e = if w < 8 * n as u32 { self.x.zext(*e, 8 * n as u32) } else { *e };
                let mut parts = [0u32; 16];
                for (i, p) in parts.iter_mut().enumerate().take(n) {
                    *p = self.x.extract(e, 8 * i as u32, 8);
                }
                let o = st.mem.get_mut(id).unwrap();
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for (i, p) in parts.iter().enumerate().take(n) {
                    match self.x.cv(*p) {
                        Some(c) => {
                            o.data[off + i] = c as u8;
                            o.sym[off + i] = 0;
                        }
                        None => o.sym[off + i] = *p,
                    }
                }
            }
            Val::A(_) => panic!("store_int aggregate"),
        }
        Ok(())
    }
    pub fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = ty.bits();
                if w > 128 {
                    return Err(Stop::Unsup(format!("load i{w}")));
                }
                self.load_int(st, addr, ty.store_size(), w)
            }
            Ty::Arr(n, t) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, addr + i * t.size(), t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vec(n, t) => {
                let b = t.bits() as u64;
                if b % 8 != 0 {
                    let all = self.load_int(st, addr, (n * b + 7) / 8, (n * b) as u32)?;
                    let e = self.e(&all, (n * b) as u32);
                    let mut v = vec![];
                    for i in 0..*n {
                        let q = self.x.extract(e, (i * b) as u32, b as u32);
                        v.push(self.mk(q));
                    }
                    return Ok(Val::A(Rc::new(v)));
                }
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, addr + i * b / 8, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(s) => {
                let mut v = vec![];
                for (f, o) in s.fields.iter().zip(&s.offs) {
                    v.push(self.load(st, addr + o, f)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(Stop::Unsup(format!("load {ty:?}"))),
        }
    }
    pub fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64, _) => {
                if ty.bits() > 128 {
                    return Err(Stop::Unsup("store wide".into()));
                }
                self.store_int(st, addr, ty.store_size(), v)
            }
            (Ty::Arr(_, t), Val::A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    self.store(st, addr + i as u64 * t.size(), t, x)?;
                }
                Ok(())
            }
            (Ty::Vec(n, t), Val::A(vs)) => {
                let b = t.bits() as u64;
                if b % 8 != 0 {
                    let mut acc = self.x.c(0, 0x80.min((n * b) as u32));
                    for (i, x) in vs.iter().enumerate() {
                        let e = self.e(x, b as u32);
                        let z = self.x.zext(e, (n * b) as u32);
                        let sh = self.x.c((i as u64 * b) as u128, (n * b) as u32);
                        let s = self.x.shl(z, sh);
                        acc = self.x.or(acc, s);
                    }
                    let v = self.mk(acc);
                    return self.store_int(st, addr, (n * b + 7) / 8, &v);
                }
                for (i, x) in vs.iter().enumerate() {
                    self.store(st, addr + i as u64 * b / 8, t, x)?;
                }
                Ok(())
            }
            (Ty::Struct(s), Val::A(vs)) => {
                for ((f, o), x) in s.fields.iter().zip(&s.offs).zip(vs.iter()) {
                    self.store(st, addr + o, f, x)?;
                }
                Ok(())
            }
            _ => Err(Stop::Unsup(format!("store {ty:?}"))),
        }
    }
    fn scalar(ty: &Ty) -> bool {
        matches!(ty, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    /// Shows with one query that every access of `n` bytes through `e` stays inside the object the current model
    /// points to; the object's id if so.
    fn inside(&mut self, st: &mut State, e: E, n: u64, write: bool) -> R<Option<u32>> {
        let at = self.x.eval(e, &st.model);
        let (id, _) = split(at as u64);
        let len = st.mem.get(id).map_or(0, |o| if write && o.ro { 0 } else { o.data.len() as u64 });
        if len < n || (len > 4096 && write) {
            return Ok(None);
        }
        let b = self.x.c((id as u128) << crate::ir::OBJ_SHIFT, 64);
        let off = self.x.sub(e, b);
        let top = self.x.c((len - n) as u128, 64);
        let out = self.x.ult(top, off);
        match self.sat(st, out)? {
            None => Ok(Some(id)),
            Some(m) => {
                let a = self.x.eval(e, &m);
                if let Err(s) = self.check_range(st, a as u64, n, write) {
                    st.model = m;
                    return Err(s);
                }
                Ok(None)
            }
        }
    }
    /// merge the logged stores into the object's bytes
    #[track_caller]
    pub fn flush(&mut self, st: &mut State) -> R<()> {
        if st.slog_id != 0 && self.cfg.trace { eprintln!("flush from {} {:?}", std::panic::Location::caller(), self.stack(st).iter().take(3).collect::<Vec<_>>()); }
        if st.slog_id == 0 {
            return Ok(());
        }
        let id = std::mem::take(&mut st.slog_id);
        let log = std::mem::take(&mut st.slog);
        let base = (id as u64) << crate::ir::OBJ_SHIFT;
        let len = st.mem.get(id).map_or(0, |o| o.data.len() as u64);
        for l in log {
            let ty = Ty::Int(8 * l.n as u32);
            if let Some(a) = self.x.cv(l.addr) {
                self.store(st, a as u64, &ty, &l.val)?;
                continue;
            }
            self.st.ite_writes += 1;
            let ve = self.e(&l.val, ty.bits());
            for off in l.lo..=len - l.n {
                let a = base + off;
                let old = self.load(st, a, &ty)?;
                let oe = self.e(&old, ty.bits());
                let c = self.x.c(a as u128, 64);
                let q = self.x.eq(l.addr, c);
                let nv = self.x.ite(q, ve, oe);
                let nv = self.mk(nv);
                self.store(st, a, &ty, &nv)?;
            }
        }
        Ok(())
    }
    /// may the access (e, n) overlap log entry i?
    fn overlaps(&mut self, st: &mut State, e: E, n: u64, i: usize) -> R<bool> {
        let l = st.slog[i].clone();
        let base = (st.slog_id as u64) << crate::ir::OBJ_SHIFT;
        if let Some(c) = self.x.cv(e) {
            let end = c as u64 - base + n;
            if end <= l.lo {
                return Ok(false);
            }
            if self.x.cv(l.addr).is_none() {
                // stronger: is the entry always beyond this access?
                let t = self.x.c((base + end) as u128, 64);
                let q = self.x.ult(l.addr, t);
                if self.sat(st, q)?.is_none() {
                    st.slog[i].lo = end;
                    return Ok(false);
                }
            }
        }
        let d = self.x.sub(e, l.addr);
        let k = self.x.c((n - 1) as u128, 64);
        let d = self.x.add(d, k);
        let m = self.x.c((n + l.n - 1) as u128, 64);
        let q = self.x.ult(d, m);
        match self.x.cv(q) {
            Some(x) => Ok(x == 1),
            None => Ok(self.sat(st, q)?.is_some()),
        }
    }
    /// What the log says about a read of (e, n): None: merge first; Some((conditional values, newest first, the
    /// value if none of them applies, or None for the object's bytes)).
    #[allow(clippy::type_complexity)]
    fn log_read(&mut self, st: &mut State, e: E, n: u64, w: u32) -> R<Option<(Vec<(E, E)>, Option<E>)>> {
        let mut cond = vec![];
        for i in (0..st.slog.len()).rev() {
            if !self.overlaps(st, e, n, i)? {
                continue;
            }
            let l = st.slog[i].clone();
            let ve = self.e(&l.val, 8 * l.n as u32);
            let d = self.x.sub(e, l.addr);
            match self.x.cv(d) {
                Some(d) if d as u64 + n <= l.n && (d as u64) < l.n => return Ok(Some((cond, Some(self.x.extract(ve, 8 * d as u32, w))))),
                Some(_) => return Ok(None),
                None => {
                    if n > l.n {
                        return Ok(None);
                    }
                    let q = self.x.eq(e, l.addr);
                    let nq = self.x.not1(q);
                    let v = self.x.extract(ve, 0, w);
                    if self.sat(st, nq)?.is_none() {
                        return Ok(Some((cond, Some(v))));
                    }
                    if n != l.n {
                        return Ok(None);
                    }
                    if n > 1 {
                        // the same place or nothing in common?
                        let k = self.x.c((n - 1) as u128, 64);
                        let d = self.x.add(d, k);
                        let m = self.x.c((n + l.n - 1) as u128, 64);
                        let o = self.x.ult(d, m);
                        let part = self.x.and(o, nq);
                        if self.sat(st, part)?.is_some() {
                            return Ok(None);
                        }
                    }
                    cond.push((q, v));
                }
            }
        }
        Ok(Some((cond, None)))
    }
    fn log_value(&mut self, st: &State, cond: Vec<(E, E)>, base: E) -> Val {
        let mut r = base;
        for (q, v) in cond.into_iter().rev() {
            r = self.x.ite(q, v, r);
        }
        let v = self.mk(r);
        self.rv(st, v)
    }
    pub fn logged(&self, st: &State, addr: u64) -> bool {
        st.slog_id != 0 && split(addr).0 == st.slog_id
    }
    pub fn load_at(&mut self, st: &mut State, p: &Val, ty: &Ty) -> R<Val> {
        match p {
            Val::C(a) => {
                if self.logged(st, *a as u64) {
                    let r = if Self::scalar(ty) && ty.bits() == 8 * ty.store_size() as u32 {
                        self.check_range(st, *a as u64, ty.store_size(), false)?;
                        let e = self.x.c(*a, 64);
                        self.log_read(st, e, ty.store_size(), ty.bits())?
                    } else {
                        None
                    };
                    match r {
                        Some((c, Some(v))) => return Ok(self.log_value(st, c, v)),
                        Some((c, None)) => {
                            let v = self.load(st, *a as u64, ty)?;
                            let v = self.e(&v, ty.bits());
                            return Ok(self.log_value(st, c, v));
                        }
                        None => self.flush(st)?,
                    }
                }
                self.load(st, *a as u64, ty)
            }
            Val::S(e) if Self::scalar(ty) => {
                let n = ty.store_size();
                let mut cond = vec![];
                if st.slog_id != 0 {
                    match self.inside(st, *e, n, false)? {
                        Some(id) if id == st.slog_id => {
                            let r = if ty.bits() == 8 * n as u32 { self.log_read(st, *e, n, ty.bits())? } else { None };
                            match r {
                                Some((c, Some(v))) => return Ok(self.log_value(st, c, v)),
                                Some((c, None)) => cond = c,
                                None => self.flush(st)?,
                            }
                        }
                        Some(_) => {}
                        None => self.flush(st)?,
                    }
                }
                if !cond.is_empty() {
                    // the bytes below the log, with the log's values on top
                    let (id, log) = (std::mem::take(&mut st.slog_id), std::mem::take(&mut st.slog));
                    let r = self.load_at(st, p, ty);
                    st.slog_id = id;
                    st.slog = log;
                    let v = self.e(&r?, ty.bits());
                    return Ok(self.log_value(st, cond, v));
                }
                if let Some(v) = self.linear_read(st, *e, ty)? {
                    return Ok(v);
                }
                if let Some(v) = self.table_read(st, *e, ty)? {
                    return Ok(v);
                }
                let vals = self.addresses(st, *e, n, false, "read")?;
                if vals.len() == 1 {
                    self.note_val(st, *e, vals[0]);
                    return self.load(st, vals[0] as u64, ty);
                }
                self.st.ite_reads += 1;
                let w = ty.bits();
                let mut vs = vals;
                vs.sort();
                let mut acc: Option<E> = None;
                for a in vs.iter().rev() {
                    let v = self.load(st, *a as u64, ty)?;
                    let ve = self.e(&v, w);
                    acc = Some(match acc {
                        None => ve,
                        Some(r) => {
                            let c = self.x.c(*a, 64);
                            let q = self.x.eq(*e, c);
                            self.x.ite(q, ve, r)
                        }
                    });
                }
                Ok(self.mk(acc.unwrap()))
            }
            Val::S(_) => {
                let a = self.conc_ptr(st, p)?;
                if self.logged(st, a) {
                    self.flush(st)?;
                }
                self.load(st, a, ty)
            }
            _ => panic!("load addr"),
        }
    }
    /// a read from a constant 256-entry table that is linear over GF(2) in its index (CRC tables): xor of the
    /// entries of the index's set bits
    fn linear_read(&mut self, st: &mut State, e: E, ty: &Ty) -> R<Option<Val>> {
        let w = ty.bits();
        let Some(s) = self.x.index_byte(e) else { return Ok(None) };
        let a0 = {
            let mut memo = HashMap::new();
            memo.insert(s, 0);
            self.x.eval_m(e, &st.model, &mut memo) as u64
        };
        match st.mem.get(split(a0).0) {
            Some(o) if o.ro && o.sym.is_empty() => {}
            _ => return Ok(None),
        }
        let at = self.x.table(e, s);
        let n = ty.store_size();
        let key = (a0, at[1] as u64, n);
        if at.iter().enumerate().any(|(i, a)| *a != at[0].wrapping_add(i as u128 * at[1].wrapping_sub(at[0])) & mask(64)) {
            return Ok(None);
        }
        let basis = match self.lin_memo.get(&key) {
            Some(b) => b.clone(),
            None => {
                let mut vals = vec![];
                for a in &at {
                    if self.check_range(st, *a as u64, n, false).is_err() {
                        return Ok(None);
                    }
                    match self.load(st, *a as u64, ty)? {
                        Val::C(v) => vals.push(v),
                        _ => return Ok(None),
                    }
                }
                let b: Vec<u128> = (0..8).map(|k| vals[1 << k]).collect();
                let ok = vals.iter().enumerate().all(|(i, v)| *v == (0..8).filter(|k| i >> k & 1 == 1).fold(0, |x, k| x ^ b[k]));
                let r = if ok { Some(b) } else { None };
                self.lin_memo.insert(key, r.clone());
                r
            }
        };
        let Some(b) = basis else { return Ok(None) };
        let acc = self.x.lin_lookup(s, &b, w);
        self.st.ite_reads += 1;
        Ok(Some(self.mk(acc)))
    }
    /// a read of constant data whose address is a function of one small-range term
    fn table_read(&mut self, st: &mut State, e: E, ty: &Ty) -> R<Option<Val>> {
        let Some(s) = self.x.source_of(e, true) else { return Ok(None) };
        let at = self.x.table(e, s);
        let n = ty.store_size();
        let mut vals = Vec::with_capacity(at.len());
        for a in at {
            if self.check_range(st, a as u64, n, false).is_err() {
                return Ok(None);
            }
            match self.load(st, a as u64, ty)? {
                Val::C(v) => vals.push(v),
                _ => return Ok(None),
            }
        }
        self.st.ite_reads += 1;
        let r = self.x.from_table(s, &vals, ty.bits());
        Ok(Some(self.mk(r)))
    }
    pub fn store_at(&mut self, st: &mut State, p: &Val, ty: &Ty, v: &Val) -> R<()> {
        match p {
            Val::C(a) => {
                self.crash_point(st, *a as u64)?;
                if self.logged(st, *a as u64) {
                    let n = ty.store_size();
                    self.check_range(st, *a as u64, n, true)?;
                    let e = self.x.c(*a, 64);
                    let mut clear = true;
                    for i in 0..st.slog.len() {
                        if self.overlaps(st, e, n, i)? {
                            clear = false;
                            break;
                        }
                    }
                    if !clear {
                        if Self::scalar(ty) && ty.bits() == 8 * n as u32 {
                            st.slog.push(LogEnt { addr: e, n, val: v.clone(), lo: split(*a as u64).1 });
                            return Ok(());
                        }
                        self.flush(st)?;
                    }
                }
                self.store(st, *a as u64, ty, v)
            }
            Val::S(e) if Self::scalar(ty) => {
                let n = ty.store_size();
                if ty.bits() == 8 * n as u32 {
                    let few = self.values(st, *e, 3)?;
                    if few.len() > 3 {
                        if let Some(id) = self.inside(st, *e, n, true)? {
                            self.crash_point(st, (id as u64) << crate::ir::OBJ_SHIFT)?;
                            if st.slog_id != id {
                                self.flush(st)?;
                                st.slog_id = id;
                            }
                            st.slog.retain(|l| l.addr != *e || l.n > n);
                            st.slog.push(LogEnt { addr: *e, n, val: v.clone(), lo: 0 });
                            return Ok(());
                        }
                    }
                }
                self.flush(st)?;
                let vals = self.addresses(st, *e, n, true, "write")?;
                if vals.len() == 1 {
                    self.note_val(st, *e, vals[0]);
                    return self.store_at(st, &Val::C(vals[0]), ty, v);
                }
                self.crash_point(st, vals[0] as u64)?;
                self.st.ite_writes += 1;
                let w = ty.bits();
                let ve = self.e(v, w);
                for a in &vals {
                    let old = self.load(st, *a as u64, ty)?;
                    let oe = self.e(&old, w);
                    let c = self.x.c(*a, 64);
                    let q = self.x.eq(*e, c);
                    let nv = self.x.ite(q, ve, oe);
                    let nv = self.mk(nv);
                    self.store(st, *a as u64, ty, &nv)?;
                }
                Ok(())
            }
            Val::S(_) => {
                let a = self.conc_ptr(st, p)?;
                self.store_at(st, &Val::C(a as u128), ty, v)
            }
            _ => panic!("store addr"),
        }
    }
    /// before a store into the watched (file backed) object: fork a state that crashes here
    pub fn crash_point(&mut self, st: &mut State, addr: u64) -> R<()> {
        let Some(w) = st.watch else { return Ok(()) };
        if split(addr).0 != w {
            return Ok(());
        }
        st.crash_stores += 1;
        self.st.crash_points += 1;
        let o = st.clone();
        let o = self.crash_now(o);
        self.push_fork(o);
        Ok(())
    }
    pub fn crash_now(&mut self, mut o: State) -> State {
        let _ = self.flush(&mut o);
        let w = o.watch.take().unwrap();
        let ob = o.mem.get(w).unwrap();
        let mut im = vec![];
        for i in 0..ob.data.len() {
            im.push(if !ob.sym.is_empty() && ob.sym[i] != 0 { Val::S(ob.sym[i]) } else { Val::C(ob.data[i] as u128) });
        }
        o.crash_image = Some(Rc::new(im));
        o.inputs.push(Input { name: "crash".into(), e: Val::C(1) });
        let depth = o.crash_depth;
        o.frames.truncate(depth + 1);
        let fr = o.frames.pop().unwrap();
        o.mem.pop_stack(fr.stack_mark);
        let c = Rc::make_mut(o.frames.last_mut().unwrap());
        if fr.ret != u32::MAX {
            c.regs[fr.ret as usize] = Val::C(1);
        }
        if let Some(n) = fr.normal {
            let mut tmp = o;
            let _ = self.goto(&mut tmp, n);
            return tmp;
        }
        o
    }

    // ---------- scalar ops ----------
    pub fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            return Ok(Val::C(match op {
                BinOp::Add => x.wrapping_add(y) & m,
                BinOp::Sub => x.wrapping_sub(y) & m,
                BinOp::Mul => x.wrapping_mul(y) & m,
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
                BinOp::LShr => if y >= w as u128 { 0 } else { x >> y },
                BinOp::AShr => (sext128(x, w) >> y.min(w as u128 - 1)) as u128 & m,
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                    if y == 0 {
                        return Err(Stop::Viol { kind: "panic", msg: "division by zero".into() });
                    }
                    match op {
                        BinOp::UDiv => x / y,
                        BinOp::URem => x % y,
                        BinOp::SDiv => sext128(x, w).wrapping_div(sext128(y, w)) as u128 & m,
                        _ => sext128(x, w).wrapping_rem(sext128(y, w)) as u128 & m,
                    }
                }
                BinOp::FAdd => feval(Op::FAdd, w, w, x, y, 0),
                BinOp::FSub => feval(Op::FSub, w, w, x, y, 0),
                BinOp::FMul => feval(Op::FMul, w, w, x, y, 0),
                BinOp::FDiv => feval(Op::FDiv, w, w, x, y, 0),
                BinOp::FRem => feval(Op::FRem, w, w, x, y, 0),
            }));
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let c = &mut self.x;
        let r = match op {
            BinOp::Add => c.add(x, y),
            BinOp::Sub => c.sub(x, y),
            BinOp::Mul => c.mul(x, y),
            BinOp::And => c.and(x, y),
            BinOp::Or => c.or(x, y),
            BinOp::Xor => c.xor(x, y),
            BinOp::Shl => c.shl(x, y),
            BinOp::LShr => c.lshr(x, y),
            BinOp::AShr => c.ashr(x, y),
            BinOp::UDiv => c.udiv(x, y),
            BinOp::URem => c.urem(x, y),
            BinOp::SDiv => c.sdiv(x, y),
            BinOp::SRem => c.srem(x, y),
            BinOp::FAdd => c.fop(Op::FAdd, w, x, y, 0),
            BinOp::FSub => c.fop(Op::FSub, w, x, y, 0),
            BinOp::FMul => c.fop(Op::FMul, w, x, y, 0),
            BinOp::FDiv => c.fop(Op::FDiv, w, x, y, 0),
            BinOp::FRem => return Err(Stop::Unsup("symbolic frem".into())),
        };
        Ok(self.mk(r))
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext128(x, w), sext128(y, w));
            return Val::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            } as u128);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let c = &mut self.x;
        let r = match p {
            Pred::Eq => c.eq(x, y),
            Pred::Ne => {
                let q = c.eq(x, y);
                c.not1(q)
            }
            Pred::Ugt => c.ult(y, x),
            Pred::Uge => c.ule(y, x),
            Pred::Ult => c.ult(x, y),
            Pred::Ule => c.ule(x, y),
            Pred::Sgt => c.slt(y, x),
            Pred::Sge => c.sle(y, x),
            Pred::Slt => c.slt(x, y),
            Pred::Sle => c.sle(x, y),
        };
        self.mk(r)
    }
    pub fn fcmp(&mut self, p: &str, w: u32, a: &Val, b: &Val) -> Val {
        let x = self.e(a, w);
        let y = self.e(b, w);
        let c = &mut self.x;
        let un = c.fop(Op::FUno, 1, x, y, 0);
        let ord = c.not1(un);
        let base = match &p[1..] {
            "eq" => c.fop(Op::FEq, 1, x, y, 0),
            "ne" => {
                let q = c.fop(Op::FEq, 1, x, y, 0);
                c.not1(q)
            }
            "lt" => c.fop(Op::FLt, 1, x, y, 0),
            "le" => c.fop(Op::FLe, 1, x, y, 0),
            "gt" => c.fop(Op::FLt, 1, y, x, 0),
            "ge" => c.fop(Op::FLe, 1, y, x, 0),
            "rd" => ord,
            "no" => un,
            "rue" => c.t(),
            _ => c.f(),
        };
        let r = match p {
            "one" => c.and(ord, base),
            "ueq" | "ult" | "ule" | "ugt" | "uge" => c.or(un, base),
            _ => base,
        };
        self.mk(r)
    }
    fn cast(&mut self, op: CastOp, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if op == CastOp::Bitcast {
            return self.bitcast(from, to, v);
        }
        if let (Ty::Vec(_, f), Ty::Vec(_, t), Val::A(vs)) = (from, to, v) {
            let mut out = vec![];
            for x in vs.iter() {
                out.push(self.cast(op, f, t, x)?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        let (wf, wt) = (from.bits(), to.bits());
        let e = match v {
            Val::C(x) => {
                return Ok(Val::C(match op {
                    CastOp::Trunc => x & mask(wt),
                    CastOp::ZExt => *x,
                    CastOp::PtrToInt | CastOp::IntToPtr => x & mask(wt),
                    CastOp::SExt => sext128(*x, wf) as u128 & mask(wt),
                    CastOp::FpTrunc | CastOp::FpExt => feval(Op::FpToFp, wt, wf, *x, 0, 0),
                    CastOp::UiToFp => feval(Op::UiToFp, wt, wf, *x, 0, 0),
                    CastOp::SiToFp => feval(Op::SiToFp, wt, wf, *x, 0, 0),
                    CastOp::FpToUi => feval(Op::FpToUi, wt, wf, *x, 0, 0),
                    CastOp::FpToSi => feval(Op::FpToSi, wt, wf, *x, 0, 0),
                    CastOp::Bitcast => unreachable!(),
                }))
            }
            Val::S(e) => *e,
            _ => panic!("cast aggregate"),
        };
        let c = &mut self.x;
        let r = match op {
            CastOp::Trunc => c.extract(e, 0, wt),
            CastOp::ZExt => c.zext(e, wt),
            CastOp::SExt => c.sext(e, wt),
            CastOp::PtrToInt | CastOp::IntToPtr => {
                if wt < wf {
                    c.extract(e, 0, wt)
                } else {
                    c.zext(e, wt)
                }
            }
            CastOp::FpTrunc | CastOp::FpExt => c.fop(Op::FpToFp, wt, e, 0, 0),
            CastOp::UiToFp => c.fop(Op::UiToFp, wt, e, 0, 0),
            CastOp::SiToFp => c.fop(Op::SiToFp, wt, e, 0, 0),
            CastOp::FpToUi => c.fop(Op::FpToUi, wt, e, 0, 0),
            CastOp::FpToSi => c.fop(Op::FpToSi, wt, e, 0, 0),
            CastOp::Bitcast => unreachable!(),
        };
        Ok(self.mk(r))
    }
    fn bitcast(&mut self, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        let to_vec = matches!(to, Ty::Vec(..));
        let fr_vec = matches!(from, Ty::Vec(..));
        if !to_vec && !fr_vec {
            return Ok(v.clone());
        }
        // pack
        let (all, w) = match (from, v) {
            (Ty::Vec(n, t), Val::A(vs)) => {
                let b = t.bits();
                let w = *n as u32 * b;
                if w > 128 {
                    return Err(Stop::Unsup("wide bitcast".into()));
                }
                let mut acc: Option<E> = None;
                for x in vs.iter() {
                    let e = self.e(x, b);
                    acc = Some(match acc {
                        None => e,
                        Some(l) => self.x.concat(e, l),
                    });
                }
                (acc.unwrap(), w)
            }
            _ => {
                let w = from.bits();
                (self.e(v, w), w)
            }
        };
        match to {
            Ty::Vec(n, t) => {
                let b = t.bits();
                let mut out = vec![];
                for i in 0..*n as u32 {
                    let q = self.x.extract(all, i * b, b);
                    out.push(self.mk(q));
                }
                let _ = w;
                Ok(Val::A(Rc::new(out)))
            }
            _ => Ok(self.mk(all)),
        }
    }
    pub fn select(&mut self, ty: &Ty, c: E, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut out = vec![];
                for (i, (p, q)) in x.iter().zip(y.iter()).enumerate() {
                    let t = match ty {
                        Ty::Struct(s) => s.fields[i].clone(),
                        Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
                        _ => panic!(),
                    };
                    out.push(self.select(&t, c, p, q));
                }
                Val::A(Rc::new(out))
            }
            _ => {
                let w = ty.bits();
                let x = self.e(a, w);
                let y = self.e(b, w);
                let r = self.x.ite(c, x, y);
                self.mk(r)
            }
        }
    }

    // ---------- control ----------
    fn goto(&mut self, st: &mut State, b: u32) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let from = fr.blk;
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals = vec![];
            for (d, inc) in &blk.phis {
                let o = inc.iter().find(|(p, _)| *p == from).unwrap_or_else(|| panic!("phi without incoming {} in {}", from, f.name));
                let v = self.val(st, &o.1);
                vals.push((*d, v));
            }
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.pc = blk.start;
        fr.blk = b;
        Ok(())
    }
    pub fn call_fn(&mut self, st: &mut State, fi: u32, args: Vec<Val>, d: u32, normal: Option<u32>) -> R<()> {
        let f = self.m.funcs[fi as usize].clone();
        self.st.fns.insert(fi);
        if st.frames.len() > 2000 {
            return Err(Stop::Viol { kind: "stack", msg: "call depth exceeds 2000 frames".into() });
        }
        let mark = st.mem.next_stack;
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.params.len() {
                regs[f.params[i] as usize] = a;
            }
        }
        st.frames.push(Rc::new(Frame { regs, f, pc: 0, stack_mark: mark, ret: d, normal, crash_mark: false, blk: 0 }));
        Ok(())
    }
    pub fn do_ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        st.mem.pop_stack(fr.stack_mark);
        if st.frames.is_empty() {
            if let Some(p) = &mut st.par {
                let c = p.cur;
                p.thr[c].done = true;
                p.leave = Some(SITE_END);
                return Ok(());
            }
            return Err(Stop::End);
        }
        if fr.crash_mark {
            st.watch = None;
            st.inputs.push(Input { name: "crash".into(), e: Val::C(0) });
            self.set(st, fr.ret, Val::C(0));
        } else if let Some(v) = v {
            self.set(st, fr.ret, v);
        }
        if let Some(n) = fr.normal {
            self.goto(st, n)?;
        }
        Ok(())
    }

    pub fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(40).map(|f| crate::demangle(&f.f.name)).collect()
    }
    pub fn inputs(&self, st: &State) -> Vec<(String, u128)> {
        let mut memo = HashMap::new();
        st.inputs
            .iter()
            .map(|i| {
                let v = match &i.e {
                    Val::C(x) => *x,
                    Val::S(e) => self.x.eval_m(*e, &st.model, &mut memo),
                    _ => 0,
                };
                (i.name.to_string(), v)
            })
            .collect()
    }
    pub fn image(&self, st: &State) -> Option<Vec<u8>> {
        let im = st.crash_image.as_ref()?;
        let mut memo = HashMap::new();
        Some(
            im.iter()
                .map(|v| match v {
                    Val::C(x) => *x as u8,
                    Val::S(e) => self.x.eval_m(*e, &st.model, &mut memo) as u8,
                    _ => 0,
                })
                .collect(),
        )
    }
    pub fn report(&mut self, st: &State, kind: &str, msg: String) {
        if self.st.viols.iter().any(|v| v.kind == kind && v.msg == msg) {
            return;
        }
        let v = Viol { kind: kind.into(), msg, inputs: self.inputs(st), image: self.image(st), stack: self.stack(st) };
        self.st.viols.push(v);
    }

    /// run one state until it ends; forks are pushed on self.work
    pub fn run_path(&mut self, mut st: State) {
        loop {
            match self.step(&mut st) {
                Ok(()) => {
                    if st.steps & 0xffff == 0 && std::time::Instant::now() > self.cfg.deadline {
                        *self.st.errors.entry("time limit".into()).or_default() += 1;
                        self.work.clear();
                        return;
                    }
                }
                Err(s) => {
                    self.st.steps += st.steps;
                    match s {
                        Stop::End => {
                            self.st.paths += 1;
                            if self.st.samples.len() < self.cfg.samples {
                                let ins = self.inputs(&st);
                                let im = self.image(&st);
                                let mut memo = HashMap::new();
                                let outs = st
                                    .outs
                                    .iter()
                                    .map(|v| match v {
                                        Val::C(x) => *x,
                                        Val::S(e) => self.x.eval_m(*e, &st.model, &mut memo),
                                        _ => 0,
                                    })
                                    .collect();
                                self.st.samples.push((ins, outs, im));
                            }
                        }
                        Stop::Infeasible => self.st.infeasible += 1,
                        Stop::Viol { kind, msg } => {
                            self.st.paths += 1;
                            self.report(&st, kind, msg);
                        }
                        Stop::Unsup(m) | Stop::Limit(m) => {
                            let tr = self.stack(&st);
                            let k = format!("{m} [in {}]", tr.iter().take(12).cloned().collect::<Vec<_>>().join(" < "));
                            *self.st.errors.entry(k).or_default() += 1;
                        }
                    }
                    return;
                }
            }
        }
    }

    fn lanes2(&mut self, a: &Val, b: &Val, mut f: impl FnMut(&mut Self, &Val, &Val) -> R<Val>) -> R<Val> {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut out = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) {
                    out.push(f(self, p, q)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            _ => f(self, a, b),
        }
    }

    // ---------- threads ----------
    pub fn par_start(&mut self, st: &mut State, fi: u32, arg: Val, n: usize) -> R<()> {
        if st.par.is_some() {
            return Err(Stop::Unsup("nested parallel section".into()));
        }
        let mut thr = vec![Thr {
            frames: vec![],
            next_stack: 0,
            tls: Rc::new(HashMap::new()),
            blocked: None,
            done: false,
            occ: Rc::new(HashMap::new()),
            last: (0, 0, 0),
        }];
        let tl: Vec<(u32, u64, Option<Vec<u8>>)> = self.m.globals.iter().filter(|g| g.tls).map(|g| (g.sym, g.size, g.init.clone())).collect();
        let f = self.m.funcs[fi as usize].clone();
        self.st.fns.insert(fi);
        for i in 0..n {
            let mut map = HashMap::new();
            for (sym, size, init) in &tl {
                let a = st.mem.alloc_heap((*size).max(8), 0);
                let id = split(a).0;
                if let Some(b) = init {
                    st.mem.get_mut(id).unwrap().data[..b.len()].copy_from_slice(b);
                }
                map.insert(SYM_BASE as u32 + sym, id);
            }
            let base = 32768 + 8192 * i as u32;
            let mut regs = vec![Val::C(0); f.nregs as usize];
            regs[f.params[0] as usize] = arg.clone();
            regs[f.params[1] as usize] = Val::C(i as u128);
            let fr = Frame { regs, f: f.clone(), pc: 0, stack_mark: base, ret: u32::MAX, normal: None, crash_mark: false, blk: 0 };
            thr.push(Thr {
                frames: vec![Rc::new(fr)],
                next_stack: base,
                tls: Rc::new(map),
                blocked: None,
                done: false,
                occ: Rc::new(HashMap::new()),
                last: (0, 0, 0),
            });
        }
        st.par = Some(Box::new(Par { cur: 0, thr, granted: true, leave: Some(SITE_END), pre: 0, queue: vec![], idle: 0 }));
        Ok(())
    }
    /// gives the processor to thread `to`; records it for the replay
    fn switch(&mut self, st: &mut State, to: usize, site: u32) {
        let p = st.par.as_mut().unwrap();
        let c = p.cur;
        let occ = p.thr[c].occ.get(&site).copied().unwrap_or(0);
        st.inputs.push(Input { name: "sw".into(), e: Val::C(((to as u128) << 56) | ((occ as u128 & 0xfffffff) << 28) | site as u128) });
        p.thr[c].frames = std::mem::take(&mut st.frames);
        p.thr[c].next_stack = st.mem.next_stack;
        p.cur = to;
        st.frames = std::mem::take(&mut p.thr[to].frames);
        st.mem.next_stack = p.thr[to].next_stack;
        p.granted = true;
        p.leave = None;
        p.idle = 0;
        if to == 0 {
            st.par = None;
        }
    }
    fn runnable(p: &Par) -> Vec<usize> {
        let mut v: Vec<usize> = (1..p.thr.len()).filter(|t| *t != p.cur && !p.thr[*t].done && p.thr[*t].blocked.is_none()).collect();
        if (1..p.thr.len()).all(|t| p.thr[t].done) {
            v.push(0);
        }
        v
    }
    /// before a scheduling point: other threads may go first
    pub fn sched_point(&mut self, st: &mut State, site: u32) {
        let p = st.par.as_ref().unwrap();
        if p.granted || p.cur == 0 {
            return;
        }
        if (p.pre as u64) < self.cfg.preempt {
            for t in Self::runnable(p) {
                let mut o = st.clone();
                o.par.as_mut().unwrap().pre += 1;
                self.switch(&mut o, t, site);
                self.st.preemptions += 1;
                self.push_fork(o);
            }
        }
        st.par.as_mut().unwrap().granted = true;
    }
    pub fn sched_done(&mut self, st: &mut State, site: u32) {
        let p = st.par.as_mut().unwrap();
        p.granted = false;
        let c = p.cur;
        *Rc::make_mut(&mut p.thr[c].occ).entry(site).or_default() += 1;
    }
    /// the current thread stops running (blocked, ended, yielding)
    fn leave(&mut self, st: &mut State, site: u32) -> R<()> {
        let p = st.par.as_mut().unwrap();
        let c = p.cur;
        let mut r = Self::runnable(p);
        if site == SITE_YIELD {
            if r.is_empty() {
                p.leave = None;
                p.idle += 1;
                if p.idle > 500 {
                    return Err(Stop::Viol { kind: "hang", msg: "waits for something no thread will do".into() });
                }
                return Ok(());
            }
            let t = r.iter().copied().find(|t| *t > c).unwrap_or(r[0]);
            self.switch(st, t, site);
            return Ok(());
        }
        if r.is_empty() {
            // nothing can run: a timed wait expires
            r = (1..p.thr.len()).filter(|t| !p.thr[*t].done && p.thr[*t].blocked.map_or(false, |b| b.1)).collect();
            if r.is_empty() {
                p.leave = None;
                return Err(Stop::Viol { kind: "deadlock", msg: "all threads are blocked".into() });
            }
        }
        for t in r.iter().skip(1).rev() {
            let mut o = st.clone();
            self.wake_into(&mut o, *t, site);
            self.push_fork(o);
        }
        self.wake_into(st, r[0], site);
        Ok(())
    }
    fn wake_into(&mut self, st: &mut State, t: usize, site: u32) {
        let p = st.par.as_mut().unwrap();
        let timed_out = p.thr[t].blocked.take();
        p.queue.retain(|x| *x != t);
        self.switch(st, t, site);
        if let Some((_, _, d)) = timed_out {
            let _ = self.store_int(st, self.errno, 4, &Val::C(110));
            self.set(st, d, Val::C(u64::MAX as u128));
        }
    }
    pub fn step(&mut self, st: &mut State) -> R<()> {
        if st.par.is_none() {
            self.step1(st)?;
            if let Some(p) = &st.par {
                if let Some(s) = p.leave {
                    return self.leave(st, s);
                }
            }
            return Ok(());
        }
        let mut site = 0;
        if let Some(fr) = st.frames.last() {
            match &fr.f.code[fr.pc as usize] {
                Ins::Load { at, p, ty, .. } => {
                    site = *at;
                    if site != 0 {
                        // looking again at a value that has not changed: nothing new can come of waiting here
                        let a = self.val(st, p);
                        if let Val::C(a) = a {
                            if let Ok(Val::C(v)) = self.load(st, a as u64, ty) {
                                let p = st.par.as_mut().unwrap();
                                let c = p.cur;
                                if p.thr[c].last == (site, a as u64, v) {
                                    p.granted = true;
                                }
                                p.thr[c].last = (site, a as u64, v);
                            }
                        }
                    }
                }
                Ins::Store { at, .. } | Ins::Rmw { at, .. } | Ins::CmpXchg { at, .. } => {
                    site = *at;
                    if site != 0 {
                        let p = st.par.as_mut().unwrap();
                        let c = p.cur;
                        p.thr[c].last = (0, 0, 0);
                    }
                }
                _ => {}
            }
            if site != 0 {
                self.sched_point(st, site);
            }
            self.step1(st)?;
        }
        if st.par.is_some() {
            if site != 0 {
                self.sched_done(st, site);
            }
            if let Some(s) = st.par.as_ref().unwrap().leave {
                self.leave(st, s)?;
            }
        }
        Ok(())
    }
    fn step1(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        if st.steps > self.cfg.max_steps {
            return Err(Stop::Limit(format!("more than {} steps on one path", self.cfg.max_steps)));
        }
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let pc = fr.pc;
        let ins = &f.code[pc as usize];
        macro_rules! next {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.regs[$d as usize] = v;
                fr.pc = pc + 1;
            }};
        }
        macro_rules! adv {
            () => {
                Rc::make_mut(st.frames.last_mut().unwrap()).pc = pc + 1
            };
        }
        match ins {
            Ins::Bin { op, ty, a, b, d } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let r = match ty {
                    Ty::Vec(_, t) => {
                        let w = t.bits();
                        let op = *op;
                        self.lanes2(&x, &y, |s, p, q| s.bin(op, w, p, q))?
                    }
                    _ => self.bin(*op, ty.bits(), &x, &y)?,
                };
                next!(*d, r);
            }
            Ins::ICmp { p, ty, a, b, d } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let r = match ty {
                    Ty::Vec(_, t) => {
                        let w = t.bits();
                        let p = *p;
                        self.lanes2(&x, &y, |s, u, v| Ok(s.icmp(p, w, u, v)))?
                    }
                    _ => self.icmp(*p, ty.bits(), &x, &y),
                };
                next!(*d, r);
            }
            Ins::FCmp { p, ty, a, b, d } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let r = self.fcmp(p, ty.bits(), &x, &y);
                next!(*d, r);
            }
            Ins::FNeg { ty, a, d } => {
                let x = self.val(st, a);
                let w = ty.bits();
                let r = self.bin(BinOp::Xor, w, &x, &Val::C(1u128 << (w - 1)))?;
                next!(*d, r);
            }
            Ins::Cast { op, from, to, a, d } => {
                let x = self.val(st, a);
                let r = self.cast(*op, from, to, &x)?;
                next!(*d, r);
            }
            Ins::Alloca { size, n, d } => {
                let n = self.val(st, n);
                let n = cc!(n) as u64;
                let a = st.mem.alloc_stack(size * n);
                next!(*d, Val::C(a as u128));
            }
            Ins::Load { ty, p, d, .. } => {
                let a = self.val(st, p);
                let v = self.load_at(st, &a, ty)?;
                next!(*d, v);
            }
            Ins::Store { ty, v, p, .. } => {
                let a = self.val(st, p);
                let x = self.val(st, v);
                self.store_at(st, &a, ty, &x)?;
                adv!();
            }
            Ins::Gep { base, off, idx, d } => {
                let b = self.val(st, base);
                let mut acc = match b {
                    Val::C(x) => Val::C((x as u64).wrapping_add(*off as u64) as u128),
                    Val::S(e) => {
                        let c = self.x.c(*off as u64 as u128, 64);
                        let r = self.x.add(e, c);
                        self.mk(r)
                    }
                    _ => return Err(Stop::Unsup("vector gep".into())),
                };
                for (o, w, scale) in idx {
                    let i = self.val(st, o);
                    let t = match i {
                        Val::C(x) => Val::C((sext128(x, *w) as u64).wrapping_mul(*scale) as u128),
                        Val::S(e) => {
                            let e = self.x.sext(e, 64);
                            let c = self.x.c(*scale as u128, 64);
                            let r = self.x.mul(e, c);
                            self.mk(r)
                        }
                        _ => return Err(Stop::Unsup("vector gep".into())),
                    };
                    acc = self.bin(BinOp::Add, 64, &acc, &t)?;
                }
                next!(*d, acc);
            }
            Ins::Select { cty, ty, c, a, b, d } => {
                let c = self.val(st, c);
                let (x, y) = (self.val(st, a), self.val(st, b));
                let r = match (cty, &c) {
                    (Ty::Vec(..), Val::A(cs)) => {
                        let Ty::Vec(_, t) = ty else { panic!() };
                        let (Val::A(xs), Val::A(ys)) = (&x, &y) else { panic!() };
                        let mut out = vec![];
                        for i in 0..cs.len() {
                            let ce = self.e(&cs[i], 1);
                            out.push(self.select(t, ce, &xs[i], &ys[i]));
                        }
                        Val::A(Rc::new(out))
                    }
                    (_, Val::C(v)) => {
                        if *v & 1 == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    (_, Val::S(e)) => self.select(ty, *e, &x, &y),
                    _ => panic!(),
                };
                next!(*d, r);
            }
            Ins::Br(t) => self.goto(st, *t)?,
            Ins::CondBr { c, t, f } => {
                let c = self.val(st, c);
                let b = self.decide(st, &c)?;
                self.goto(st, if b { *t } else { *f })?;
            }
            Ins::Switch { w, v, def, cases } => {
                let x = self.val(st, v);
                match x {
                    Val::C(x) => {
                        let t = cases.iter().find(|(c, _)| *c == x).map_or(*def, |c| c.1);
                        self.goto(st, t)?;
                    }
                    Val::S(e) => {
                        // decide one case at a time, cases with the same target together
                        let mut tg: Vec<u32> = vec![];
                        for c in cases {
                            if !tg.contains(&c.1) {
                                tg.push(c.1);
                            }
                        }
                        for t in tg {
                            let mut q = self.x.f();
                            for (c, tt) in cases {
                                if *tt == t {
                                    let k = self.x.c(*c, *w);
                                    let z = self.x.eq(e, k);
                                    q = self.x.or(q, z);
                                }
                            }
                            let qv = self.mk(q);
                            let qv = self.rv(st, qv);
                            if self.decide(st, &qv)? {
                                return self.goto(st, t);
                            }
                        }
                        self.goto(st, *def)?;
                    }
                    _ => panic!(),
                }
            }
            Ins::Ret(v) => {
                let v = v.as_ref().map(|o| self.val(st, o));
                self.do_ret(st, v)?;
            }
            Ins::Unreachable => return Err(Stop::Viol { kind: "unreachable", msg: format!("reached unreachable code in {}", crate::demangle(&f.name)) }),
            Ins::Call { callee, args, rty, d, normal } => {
                let sym = match callee {
                    Callee::Sym(s) => *s,
                    Callee::Dyn(o) => {
                        let v = self.val(st, o);
                        let a = self.conc_ptr(st, &v)?;
                        let (id, off) = split(a);
                        if off != 0 || (id as u64) < SYM_BASE || id as u64 - SYM_BASE >= self.targets.len() as u64 {
                            return Err(Stop::Viol { kind: "memory", msg: "call through an invalid function pointer".into() });
                        }
                        id - SYM_BASE as u32
                    }
                    Callee::Asm(t) => {
                        let n = match rty {
                            Ty::Struct(_) => Module::zero(rty),
                            Ty::Void => Val::C(0),
                            _ => Val::C(0),
                        };
                        if t.contains("syscall") {
                            return Err(Stop::Unsup("inline syscall".into()));
                        }
                        let a0 = if t.is_empty() && args.len() == 1 && *rty == args[0].0 { Some(self.val(st, &args[0].1)) } else { None };
                        adv!();
                        self.set(st, *d, a0.unwrap_or(n));
                        return Ok(());
                    }
                };
                let mut av = Vec::with_capacity(args.len());
                for (_, a, _) in args {
                    av.push(self.val(st, a));
                }
                let mut target = self.targets[sym as usize];
                if let Target::StrDebug(fi, k) = target {
                    self.flush(st)?;
                    target = Target::Fn(fi);
                    let (p, n) = if k == 8 {
                        let s = self.conc_ptr(st, &av[0])?;
                        (self.load_int(st, s + 8, 8, 64)?, self.load_int(st, s + 16, 8, 64)?)
                    } else {
                        (av[0].clone(), av[1].clone())
                    };
                    if let (Val::C(p), Val::C(n)) = (p, n) {
                        let p = p as u64;
                        let ok = self.check_range(st, p, n as u64, false).is_ok();
                        let mut symbolic = false;
                        for i in 0..if ok { n as u64 } else { 0 } {
                            if matches!(self.load_int(st, p + i, 1, 8)?, Val::S(_)) {
                                symbolic = true;
                                break;
                            }
                        }
                        if symbolic {
                            self.st.cut_debug += 1;
                            adv!();
                            self.set(st, *d, Val::C(0));
                            if let Some(n) = normal {
                                self.goto(st, *n)?;
                            }
                            return Ok(());
                        }
                    }
                }
                match target {
                    Target::StrDebug(..) => unreachable!(),
                    Target::Fn(fi) => {
                        for (i, (_, _, bv)) in args.iter().enumerate() {
                            if *bv > 0 {
                                // by-value aggregate: callee gets its own copy
                                let src = self.conc_ptr(st, &av[i])?;
                                let dst = st.mem.alloc_heap(*bv, 0);
                                ext::copy(self, st, dst, src, *bv)?;
                                av[i] = Val::C(dst as u128);
                            }
                        }
                        adv!();
                        self.call_fn(st, fi, av, *d, *normal)?;
                    }
                    Target::Ext(x) => {
                        let tys: Vec<&Ty> = args.iter().map(|a| &a.0).collect();
                        if st.slog_id != 0 && !ext::keeps_log(x) {
                            match (x, &av[..]) {
                                (ext::Ext::RustDealloc | ext::Ext::Free, [Val::C(a), ..]) => {
                                    if self.logged(st, *a as u64) {
                                        st.slog_id = 0;
                                        st.slog.clear();
                                    }
                                }
                                (ext::Ext::RustRealloc | ext::Ext::Realloc, [Val::C(a), ..]) if !self.logged(st, *a as u64) => {}
                                _ if ext::through_args(x) && av.iter().all(|a| matches!(a, Val::C(a) if !self.logged(st, *a as u64))) && !(x == ext::Ext::Open && matches!(av[1], Val::C(f) if f & 0x200 != 0)) => {}
                                _ => self.flush(st)?,
                            }
                        }
                        let r = ext::call(self, st, x, sym, &av, &tys, rty, *d, *normal)?;
                        if let Some(v) = r {
                            Rc::make_mut(st.frames.last_mut().unwrap()).pc = pc + 1;
                            self.set(st, *d, v);
                            if let Some(n) = normal {
                                self.goto(st, *n)?;
                            }
                        }
                    }
                    Target::Missing => return Err(Stop::Unsup(format!("external function {}", self.m.syms[sym as usize]))),
                }
            }
            Ins::ExtractValue { a, idx, d } => {
                let mut v = self.val(st, a);
                for i in idx {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                let v = self.rv(st, v);
                next!(*d, v);
            }
            Ins::InsertValue { a, v, idx, d } => {
                let mut base = self.val(st, a);
                let v = self.val(st, v);
                fn ins(b: &mut Val, idx: &[u32], v: Val) {
                    if idx.is_empty() {
                        *b = v;
                    } else if let Val::A(x) = b {
                        ins(&mut Rc::make_mut(x)[idx[0] as usize], &idx[1..], v);
                    }
                }
                ins(&mut base, idx, v);
                next!(*d, base);
            }
            Ins::ExtractElem { a, i, d } => {
                let v = self.val(st, a);
                let i = self.val(st, i);
                let i = self.concretize(st, &i, 64, "lane")? as usize;
                let Val::A(x) = v else { panic!() };
                let r = x[i].clone();
                let r = self.rv(st, r);
                next!(*d, r);
            }
            Ins::InsertElem { a, v, i, d } => {
                let mut b = self.val(st, a);
                let v = self.val(st, v);
                let i = self.val(st, i);
                let i = self.concretize(st, &i, 64, "lane")? as usize;
                if let Val::A(x) = &mut b {
                    Rc::make_mut(x)[i] = v;
                }
                next!(*d, b);
            }
            Ins::Shuffle { a, b, mask, n, d } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let (Val::A(x), Val::A(y)) = (x, y) else { panic!() };
                let mut out = vec![];
                for m in mask {
                    let m = *m as u32 as usize;
                    out.push(if m < *n { x[m].clone() } else { y.get(m - n).cloned().unwrap_or(Val::C(0)) });
                }
                next!(*d, Val::A(Rc::new(out)));
            }
            Ins::Rmw { op, p, v, ty, d, .. } => {
                let a = self.val(st, p);
                let a = Val::C(self.conc_ptr(st, &a)? as u128);
                let v = self.val(st, v);
                let w = ty.bits();
                let old = self.load_at(st, &a, ty)?;
                let nv = match op {
                    RmwOp::Xchg => v,
                    RmwOp::Add => self.bin(BinOp::Add, w, &old, &v)?,
                    RmwOp::Sub => self.bin(BinOp::Sub, w, &old, &v)?,
                    RmwOp::And => self.bin(BinOp::And, w, &old, &v)?,
                    RmwOp::Or => self.bin(BinOp::Or, w, &old, &v)?,
                    RmwOp::Xor => self.bin(BinOp::Xor, w, &old, &v)?,
                    RmwOp::Nand => {
                        let t = self.bin(BinOp::And, w, &old, &v)?;
                        self.bin(BinOp::Xor, w, &t, &Val::C(mask(w)))?
                    }
                    RmwOp::Max | RmwOp::Min | RmwOp::UMax | RmwOp::UMin => {
                        let p = match op {
                            RmwOp::Max => Pred::Sgt,
                            RmwOp::Min => Pred::Slt,
                            RmwOp::UMax => Pred::Ugt,
                            _ => Pred::Ult,
                        };
                        let c = self.icmp(p, w, &old, &v);
                        let ce = self.e(&c, 1);
                        self.select(ty, ce, &old, &v)
                    }
                };
                self.store_at(st, &a, ty, &nv)?;
                next!(*d, old);
            }
            Ins::CmpXchg { p, c, n, ty, d, .. } => {
                let a = self.val(st, p);
                let a = Val::C(self.conc_ptr(st, &a)? as u128);
                let (c, n) = (self.val(st, c), self.val(st, n));
                let old = self.load_at(st, &a, ty)?;
                let q = self.icmp(Pred::Eq, ty.bits(), &old, &c);
                let q = self.rv(st, q);
                let ok = self.decide(st, &q)?;
                if ok {
                    self.store_at(st, &a, ty, &n)?;
                }
                next!(*d, Val::A(Rc::new(vec![old, Val::C(ok as u128)])));
            }
            Ins::Freeze { a, d } => {
                let v = self.val(st, a);
                next!(*d, v);
            }
            Ins::Nop => adv!(),
            Ins::Unsupported(t) => return Err(Stop::Unsup(format!("instruction {t}"))),
        }
        Ok(())
    }
}
