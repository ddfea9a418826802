//! Intrinsics, libc models and the harness API.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ext {
    // llvm
    Memcpy, Memmove, Memset, Nop, Assume, Expect, WithOv(u8), Sat(u8), MinMax(u8), Ctlz, Cttz, Ctpop, Bswap, BitReverse, Fshl, Fshr, Abs, LoadRel, TlsAddr, IsConst, Trap, ObjSize, ReduceAdd, ReduceOr, ReduceAnd, PtrMask,
    FAbs, FRound(u8), FpToUiSat, FpToSiSat, CopySign, FMinMax(u8), FMul3, Movmsk, Psad, ScmpUcmp(bool),
    // alloc
    Malloc, Calloc, Realloc, Free, PosixMemalign, AlignedAlloc, RustAlloc, RustAllocZ, RustDealloc, RustRealloc,
    Bcmp, Memcmp, Strlen, Memchr, Memrchr,
    Panic(u8), Abort, Exit,
    // libc
    Zero, MinusOne, Errno, Getenv, Setenv, Unsetenv, KeyCreate, KeySet, KeyGet, ClockGettime, Getrandom, Syscall, Sysconf, Write, Nanosleep, Getpid, RetArg0,
    Open, Close, Read, Pread, Lseek, Fstat, Stat, Ftruncate, Mmap, Unlink, Rename, Mkdir, RemoveDirAll, Fcntl, StrError,
    // harness
    SVar, SChoose, SConc, SAssume, SAssert, SReach, SOut, SClock, SBytes, SCrashRun, SDisk, Gettid, SPar, Yield, SFail, SDone, SUnsup, SIsSym, SParam,
}

/// calls that neither read nor write program memory, or do so through the symbolic-store log
pub fn keeps_log(x: Ext) -> bool {
    use Ext::*;
    matches!(
        x,
        Memcpy | Memmove | Memset | Nop | Assume | Expect | WithOv(_) | Sat(_) | MinMax(_) | Ctlz | Cttz | Ctpop | Bswap | BitReverse | Fshl | Fshr | Abs | TlsAddr | IsConst | ObjSize | RetArg0
            | Malloc | RustAlloc | RustAllocZ | Panic(_) | Zero | Errno | KeyCreate | KeySet | KeyGet | Getpid | Gettid | SVar | SChoose | SConc | SAssume | SAssert | SReach | SOut | SClock | SIsSym | SParam
    )
}

/// calls that touch only memory their arguments point to (and file contents: not Read, Write, Ftruncate)
pub fn through_args(x: Ext) -> bool {
    use Ext::*;
    matches!(x, Bcmp | Memcmp | Strlen | Memchr | Memrchr | ClockGettime | Calloc | Getenv | Open | Close | Lseek | Fstat | Stat | Mmap | Unlink | Mkdir | Fcntl | SDone | SFail | Exit | Abort)
}

#[derive(Clone, Default)]
pub struct Fs {
    pub names: BTreeMap<String, u32>, // path -> object id of the content
    pub dirs: std::collections::BTreeSet<String>,
    pub fds: BTreeMap<u64, (u32, u64)>, // fd -> (object, position)
    pub next_fd: u64,
    /// what is left of the disk (None: no limit): bytes that can be written, and, if `dead`, changes of names too
    pub budget: Option<u64>,
    pub dead: bool,
}
impl Fs {
    /// a change other than writing bytes: possible?
    fn change(this: &mut Rc<Fs>) -> bool {
        if !this.dead {
            return true;
        }
        let f = Rc::make_mut(this);
        match &mut f.budget {
            Some(0) => false,
            Some(n) => {
                *n -= 1;
                true
            }
            None => true,
        }
    }
}

pub fn lookup(n: &str) -> Option<Ext> {
    use Ext::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        return Some(if p("memcpy.") {
            Memcpy
        } else if p("memmove.") {
            Memmove
        } else if p("memset.") {
            Memset
        } else if p("lifetime.") || p("dbg.") || p("experimental.noalias") || p("x86.sse2.pause") || p("invariant.") || p("prefetch") || p("donothing") || p("va_") || p("x86.sse2.mfence") || p("x86.sse2.lfence") || p("stackrestore") {
            Nop
        } else if p("assume") {
            Assume
        } else if p("expect") {
            Expect
        } else if p("uadd.with") {
            WithOv(0)
        } else if p("usub.with") {
            WithOv(1)
        } else if p("umul.with") {
            WithOv(2)
        } else if p("sadd.with") {
            WithOv(3)
        } else if p("ssub.with") {
            WithOv(4)
        } else if p("smul.with") {
            WithOv(5)
        } else if p("uadd.sat") {
            Sat(0)
        } else if p("usub.sat") {
            Sat(1)
        } else if p("sadd.sat") {
            Sat(2)
        } else if p("ssub.sat") {
            Sat(3)
        } else if p("umin.") {
            MinMax(0)
        } else if p("umax.") {
            MinMax(1)
        } else if p("smin.") {
            MinMax(2)
        } else if p("smax.") {
            MinMax(3)
        } else if p("ctlz") {
            Ctlz
        } else if p("cttz") {
            Cttz
        } else if p("ctpop") {
            Ctpop
        } else if p("bswap") {
            Bswap
        } else if p("bitreverse") {
            BitReverse
        } else if p("fshl") {
            Fshl
        } else if p("fshr") {
            Fshr
        } else if p("abs.") {
            Abs
        } else if p("load.relative") {
            LoadRel
        } else if p("threadlocal.address") {
            TlsAddr
        } else if p("is.constant") {
            IsConst
        } else if p("trap") || p("ubsantrap") || p("debugtrap") {
            Trap
        } else if p("objectsize") {
            ObjSize
        } else if p("vector.reduce.add") {
            ReduceAdd
        } else if p("vector.reduce.or") {
            ReduceOr
        } else if p("vector.reduce.and") {
            ReduceAnd
        } else if p("ptrmask") {
            PtrMask
        } else if p("fabs.") {
            FAbs
        } else if p("floor.") {
            FRound(0)
        } else if p("ceil.") {
            FRound(1)
        } else if p("trunc.") {
            FRound(2)
        } else if p("rint.") || p("nearbyint.") || p("roundeven.") {
            FRound(3)
        } else if p("round.") {
            FRound(4)
        } else if p("fptoui.sat") {
            FpToUiSat
        } else if p("fptosi.sat") {
            FpToSiSat
        } else if p("copysign") {
            CopySign
        } else if p("minnum") {
            FMinMax(0)
        } else if p("maxnum") {
            FMinMax(1)
        } else if p("x86.sse2.pmovmskb.128") {
            Movmsk
        } else if p("x86.sse2.psad.bw") {
            Psad
        } else if p("scmp.") {
            ScmpUcmp(true)
        } else if p("ucmp.") {
            ScmpUcmp(false)
        } else {
            return None;
        });
    }
    if n.starts_with("_ZN4core9panicking") || n.starts_with("_ZN3std9panicking") || n.starts_with("_ZN3std7process5abort") {
        let tail = &n[3..];
        for (k, v) in [("panic_fmt17h", 0u8), ("panic_nounwind_fmt17h", 1), ("panic_cannot_unwind", 2), ("begin_panic", 3), ("rust_panic_with_hook", 3), ("7process5abort17h", 4)] {
            if tail.contains(k) && !tail.contains("$u7b$$u7b$closure") {
                return Some(Panic(v));
            }
        }
    }
    Some(match n {
        "rust_begin_unwind" => Panic(3),
        "rust_panic" => Panic(3),
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "aligned_alloc" | "memalign" => AlignedAlloc,
        "__rust_alloc" | "__rdl_alloc" => RustAlloc,
        "__rust_alloc_zeroed" | "__rdl_alloc_zeroed" => RustAllocZ,
        "__rust_dealloc" | "__rdl_dealloc" => RustDealloc,
        "__rust_realloc" | "__rdl_realloc" => RustRealloc,
        "memcpy" => Memcpy,
        "memmove" => Memmove,
        "memset" => Memset,
        "bcmp" => Bcmp,
        "memcmp" => Memcmp,
        "strlen" => Strlen,
        "memchr" => Memchr,
        "memrchr" => Memrchr,
        "abort" => Abort,
        "exit" | "_exit" => Exit,
        "__errno_location" => Errno,
        "getenv" => Getenv,
        "setenv" => Setenv,
        "unsetenv" => Unsetenv,
        "pthread_key_create" => KeyCreate,
        "pthread_setspecific" => KeySet,
        "pthread_getspecific" => KeyGet,
        "clock_gettime" => ClockGettime,
        "getrandom" => Getrandom,
        "syscall" => Syscall,
        "sysconf" => Sysconf,
        "write" | "writev" | "pwrite64" => Write,
        "nanosleep" | "clock_nanosleep" => Nanosleep,
        "getpid" => Getpid,
        "gettid" | "pthread_self" => Gettid,
        "open64" | "open" => Open,
        "close" => Close,
        "read" => Read,
        "pread64" => Pread,
        "lseek64" => Lseek,
        "fstat64" | "fstat" => Fstat,
        "stat64" | "stat" | "lstat64" | "lstat" => Stat,
        "ftruncate64" | "ftruncate" => Ftruncate,
        "mmap64" | "mmap" => Mmap,
        "unlink" => Unlink,
        "rename" => Rename,
        "mkdir" => Mkdir,
        _ if n.starts_with("_ZN3std3sys3pal4unix2fs15remove_dir_impl14remove_dir_all17h") => RemoveDirAll,
        "fcntl" | "fcntl64" => Fcntl,
        "__xpg_strerror_r" | "strerror_r" => StrError,
        "pthread_key_delete" | "munmap" | "msync" | "flock" | "fsync" | "fdatasync" | "madvise" | "__cxa_thread_atexit_impl" | "pthread_attr_init" | "pthread_attr_destroy" | "sigaction" | "signal" | "getauxval" | "isatty" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_rwlock_rdlock" | "pthread_rwlock_unlock" | "gnu_get_libc_version" | "dlsym" | "mprotect" | "pthread_setname_np" | "pthread_atfork" | "chmod" | "tzset" => Zero,
        "sched_getaffinity" | "statx" | "poll" | "prctl" | "readlink" | "getcwd" => MinusOne,
        "sched_yield" => Yield,
        "symx_par" => SPar,
        "symx_var" => SVar,
        "symx_choose" => SChoose,
        "symx_concrete" => SConc,
        "symx_assume" => SAssume,
        "symx_assert" => SAssert,
        "symx_reach" => SReach,
        "symx_out" => SOut,
        "symx_clock" => SClock,
        "symx_bytes" => SBytes,
        "symx_crash_run" => SCrashRun,
        "symx_disk" => SDisk,
        "symx_fail" => SFail,
        "symx_done" => SDone,
        "symx_unsupported" => SUnsup,
        "symx_is_symbolic" => SIsSym,
        "symx_param" => SParam,
        _ => return None,
    })
}

pub fn rd_bytes(ex: &mut Exec, st: &State, addr: u64, n: u64) -> R<Vec<Val>> {
    let mut v = vec![];
    ex.check_range(st, addr, n, false)?;
    if n == 0 {
        return Ok(v);
    }
    let (id, off) = split(addr);
    let o = st.mem.get(id).unwrap().clone();
    for i in off as usize..(off + n) as usize {
        if !o.sym.is_empty() && o.sym[i] != 0 {
            let r = Val::S(o.sym[i]);
            v.push(ex.rv(st, r));
        } else {
            v.push(Val::C(o.data[i] as u128));
        }
    }
    Ok(v)
}
pub fn rd_conc(ex: &mut Exec, st: &State, addr: u64, n: u64) -> R<Vec<u8>> {
    let v = rd_bytes(ex, st, addr, n)?;
    let mut out = vec![];
    for b in v {
        match b {
            Val::C(x) => out.push(x as u8),
            Val::S(e) => out.push(ex.x.eval(e, &st.model) as u8),
            _ => unreachable!(),
        }
    }
    Ok(out)
}
pub fn rd_str(ex: &mut Exec, st: &State, addr: u64, n: u64) -> String {
    match rd_conc(ex, st, addr, n) {
        Ok(b) => String::from_utf8_lossy(&b).to_string(),
        Err(_) => "<unreadable>".into(),
    }
}
fn rd_cstr(ex: &mut Exec, st: &State, addr: u64) -> R<String> {
    let (id, off) = split(addr);
    let o = st.mem.get(id).ok_or_else(|| Stop::Unsup("cstr".into()))?.clone();
    let mut v = vec![];
    let mut i = off as usize;
    loop {
        if i >= o.data.len() {
            return Err(ex.memerr("read", addr, 1, st));
        }
        let b = if !o.sym.is_empty() && o.sym[i] != 0 {
            match ex.rv(st, Val::S(o.sym[i])) {
                Val::C(x) => x as u8,
                _ => return Err(Stop::Unsup("symbolic C string".into())),
            }
        } else {
            o.data[i]
        };
        if b == 0 {
            break;
        }
        v.push(b);
        i += 1;
    }
    Ok(String::from_utf8_lossy(&v).to_string())
}

pub fn copy(ex: &mut Exec, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
    if n == 0 {
        return Ok(());
    }
    ex.check_range(st, src, n, false)?;
    ex.check_range(st, dst, n, true)?;
    let (si, so) = split(src);
    let (di, dof) = split(dst);
    let (so, dof, n) = (so as usize, dof as usize, n as usize);
    let s = st.mem.get(si).unwrap();
    let data = s.data[so..so + n].to_vec();
    let sym = if s.sym.is_empty() || s.sym[so..so + n].iter().all(|x| *x == 0) { vec![] } else { s.sym[so..so + n].to_vec() };
    let d = st.mem.get_mut(di).unwrap();
    d.data[dof..dof + n].copy_from_slice(&data);
    if !sym.is_empty() {
        if d.sym.is_empty() {
            d.sym = vec![0; d.data.len()];
        }
        d.sym[dof..dof + n].copy_from_slice(&sym);
    } else if !d.sym.is_empty() {
        d.sym[dof..dof + n].fill(0);
    }
    Ok(())
}

fn bits(t: &Ty) -> u32 {
    match t {
        Ty::Vec(_, t) => t.bits(),
        t => t.bits(),
    }
}

fn with_ov(ex: &mut Exec, k: u8, w: u32, a: &Val, b: &Val) -> R<(Val, Val)> {
    let op = [BinOp::Add, BinOp::Sub, BinOp::Mul][(k % 3) as usize];
    let r = ex.bin(op, w, a, b)?;
    if let (Val::C(x), Val::C(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let m = mask(w);
        let o = match k {
            0 => x.checked_add(y).map_or(true, |s| s > m),
            1 => x < y,
            2 => x.checked_mul(y).map_or(true, |s| s > m),
            _ => {
                let (sx, sy) = (sext128(x, w), sext128(y, w));
                let s = match k {
                    3 => sx.checked_add(sy),
                    4 => sx.checked_sub(sy),
                    _ => sx.checked_mul(sy),
                };
                match s {
                    None => true,
                    Some(s) => w < 128 && (s < -(1i128 << (w - 1)) || s >= (1i128 << (w - 1))),
                }
            }
        };
        return Ok((r, Val::C(o as u128)));
    }
    let x = ex.e(a, w);
    let y = ex.e(b, w);
    let c = &mut ex.x;
    let (xl, xh) = c.interval(x);
    let (yl, yh) = c.interval(y);
    let m = mask(w);
    let ov = match k {
        0 => {
            if xh.checked_add(yh).map_or(false, |s| s <= m) {
                c.f()
            } else {
                let s = c.add(x, y);
                c.ult(s, x)
            }
        }
        1 => {
            let _ = (xl, yl);
            c.ult(x, y)
        }
        2 => {
            if xh.checked_mul(yh).map_or(false, |s| s <= m) {
                c.f()
            } else if w <= 64 {
                if let Some(k) = c.cv(y) {
                    // x * k overflows iff x > m / k
                    if k == 0 {
                        c.f()
                    } else {
                        let l = c.c(m / k, w);
                        c.ult(l, x)
                    }
                } else {
                    let p = c.zext(x, 2 * w);
                    let q = c.zext(y, 2 * w);
                    let r = c.mul(p, q);
                    let h = c.extract(r, w, w);
                    let z = c.c(0, w);
                    let q = c.eq(h, z);
                    c.not1(q)
                }
            } else if let Some(k) = c.cv(y) {
                if k == 0 {
                    c.f()
                } else {
                    let l = c.c(m / k, w);
                    c.ult(l, x)
                }
            } else {
                return Err(Stop::Unsup("umul overflow i128".into()));
            }
        }
        3 | 4 => {
            // sign-based overflow
            let half = mask(w - 1);
            if k == 3 && xh <= half && yh <= half && xh + yh <= half {
                c.f()
            } else {
                let s = if k == 3 { c.add(x, y) } else { c.sub(x, y) };
                let sx = c.extract(x, w - 1, 1);
                let sy = c.extract(y, w - 1, 1);
                let ss = c.extract(s, w - 1, 1);
                let q = c.xor(sx, sy);
                let same = if k == 3 { c.not1(q) } else { q };
                let d = c.xor(sx, ss);
                c.and(same, d)
            }
        }
        _ => {
            let half = mask(w - 1);
            if xh <= half && yh <= half && xh.checked_mul(yh).map_or(false, |s| s <= half) {
                c.f()
            } else if w <= 64 {
                let p = c.sext(x, 2 * w);
                let q = c.sext(y, 2 * w);
                let r = c.mul(p, q);
                let lo = c.extract(r, 0, w);
                let back = c.sext(lo, 2 * w);
                let q = c.eq(back, r);
                c.not1(q)
            } else if let Some(k) = c.cv(y) {
                let ks = sext128(k, w);
                if ks == 0 || ks == 1 {
                    c.f()
                } else if ks > 1 {
                    let hi = i128::MAX / ks;
                    let lo = i128::MIN / ks;
                    let h = c.c(hi as u128, w);
                    let l = c.c(lo as u128, w);
                    let a = c.slt(h, x);
                    let b = c.slt(x, l);
                    c.or(a, b)
                } else {
                    return Err(Stop::Unsup("smul overflow i128".into()));
                }
            } else {
                return Err(Stop::Unsup("smul overflow i128".into()));
            }
        }
    };
    let ov = ex.mk(ov);
    Ok((r, ov))
}

fn ext1(ex: &mut Exec, x: Ext, w: u32, a: &[Val]) -> R<Val> {
    use Ext::*;
    Ok(match x {
        WithOv(_) => unreachable!(),
        MinMax(k) => {
            let p = [Pred::Ult, Pred::Ugt, Pred::Slt, Pred::Sgt][k as usize];
            let c = ex.icmp(p, w, &a[0], &a[1]);
            let c = ex.e(&c, 1);
            ex.select(&Ty::Int(w), c, &a[0], &a[1])
        }
        Sat(k) => {
            let kk = [0u8, 1, 3, 4][k as usize];
            let (r, o) = with_ov(ex, kk, w, &a[0], &a[1])?;
            let o = ex.e(&o, 1);
            let lim = match k {
                0 => Val::C(mask(w)),
                1 => Val::C(0),
                _ => {
                    let n = ex.icmp(Pred::Slt, w, &a[0], &Val::C(0));
                    let n = ex.e(&n, 1);
                    ex.select(&Ty::Int(w), n, &Val::C(1u128 << (w - 1)), &Val::C(mask(w - 1)))
                }
            };
            ex.select(&Ty::Int(w), o, &lim, &r)
        }
        Ctpop | Ctlz | Cttz => match &a[0] {
            Val::C(v) => Val::C(match x {
                Ctpop => v.count_ones() as u128,
                Ctlz => (v.leading_zeros() - (128 - w)) as u128,
                _ => (v.trailing_zeros().min(w)) as u128,
            }),
            Val::S(e) => {
                let e = *e;
                let c = &mut ex.x;
                let mut r;
                if x == Ctpop {
                    r = c.c(0, w);
                    for i in 0..w {
                        let b = c.extract(e, i, 1);
                        let z = c.zext(b, w);
                        r = c.add(r, z);
                    }
                } else {
                    r = c.c(w as u128, w);
                    for j in 0..w {
                        let i = if x == Ctlz { j } else { w - 1 - j };
                        let b = c.extract(e, i, 1);
                        let n = c.c((if x == Ctlz { w - 1 - i } else { i }) as u128, w);
                        r = c.ite(b, n, r);
                    }
                }
                ex.mk(r)
            }
            _ => panic!(),
        },
        Bswap => match &a[0] {
            Val::C(v) => Val::C((v.swap_bytes() >> (128 - w)) & mask(w)),
            Val::S(e) => {
                let n = w / 8;
                let mut acc = ex.x.extract(*e, 0, 8);
                for i in 1..n {
                    let b = ex.x.extract(*e, 8 * i, 8);
                    acc = ex.x.concat(acc, b);
                }
                ex.mk(acc)
            }
            _ => panic!(),
        },
        BitReverse => match &a[0] {
            Val::C(v) => Val::C((v.reverse_bits() >> (128 - w)) & mask(w)),
            _ => return Err(Stop::Unsup("symbolic bitreverse".into())),
        },
        Fshl | Fshr => {
            let s = ex.bin(BinOp::URem, w, &a[2], &Val::C(w as u128))?;
            let Val::C(s) = s else { return Err(Stop::Unsup("symbolic funnel shift".into())) };
            let s = if x == Fshl { s } else { w as u128 - s };
            if s == 0 || s == w as u128 {
                if s == 0 { a[0].clone() } else { if x == Fshl { a[0].clone() } else { a[1].clone() } }
            } else {
                let h = ex.bin(BinOp::Shl, w, &a[0], &Val::C(s))?;
                let l = ex.bin(BinOp::LShr, w, &a[1], &Val::C(w as u128 - s))?;
                ex.bin(BinOp::Or, w, &h, &l)?
            }
        }
        Abs => {
            let n = ex.icmp(Pred::Slt, w, &a[0], &Val::C(0));
            let n = ex.e(&n, 1);
            let m = ex.bin(BinOp::Sub, w, &Val::C(0), &a[0])?;
            ex.select(&Ty::Int(w), n, &m, &a[0])
        }
        FAbs => ex.bin(BinOp::And, w, &a[0], &Val::C(mask(w - 1)))?,
        FRound(k) => {
            let e = ex.e(&a[0], w);
            let r = ex.x.fop(Op::FRound, w, e, 0, k as u32);
            ex.mk(r)
        }
        CopySign => {
            let p = ex.bin(BinOp::And, w, &a[0], &Val::C(mask(w - 1)))?;
            let q = ex.bin(BinOp::And, w, &a[1], &Val::C(1 << (w - 1)))?;
            ex.bin(BinOp::Or, w, &p, &q)?
        }
        FMinMax(k) => {
            let lt = ex.fcmp("olt", w, &a[0], &a[1]);
            let bn = ex.fcmp("uno", w, &a[1], &a[1]);
            let an = ex.fcmp("uno", w, &a[0], &a[0]);
            let (lt, bn, an) = (ex.e(&lt, 1), ex.e(&bn, 1), ex.e(&an, 1));
            let r = if k == 0 { ex.select(&Ty::Int(w), lt, &a[0], &a[1]) } else { ex.select(&Ty::Int(w), lt, &a[1], &a[0]) };
            let r = ex.select(&Ty::Int(w), bn, &a[0], &r);
            ex.select(&Ty::Int(w), an, &a[1], &r)
        }
        _ => return Err(Stop::Unsup(format!("{x:?}"))),
    })
}

fn norm(p: &str) -> String {
    let mut s = p.trim_end_matches('/').to_string();
    while s.contains("//") {
        s = s.replace("//", "/");
    }
    while s.contains("/./") {
        s = s.replace("/./", "/");
    }
    while let Some(r) = s.strip_prefix("./") {
        s = r.to_string();
    }
    s
}

/// Whether the directory a path lies in exists.
fn has_parent(fs: &Fs, p: &str) -> bool {
    match p.rsplit_once('/') {
        None => true,
        Some((d, _)) => d.is_empty() || d == "/tmp" || fs.dirs.contains(d),
    }
}

#[allow(clippy::too_many_arguments)]
pub fn call(ex: &mut Exec, st: &mut State, x: Ext, sym: u32, a: &[Val], t: &[&Ty], rty: &Ty, d: u32, normal: Option<u32>) -> R<Option<Val>> {
    use Ext::*;
    let some = |v: Val| Ok(Some(v));
    let c = |v: u64| Ok(Some(Val::C(v as u128)));
    macro_rules! con {
        ($i:expr, $w:expr, $what:expr) => {
            ex.concretize(st, &a[$i], $w, $what)? as u64
        };
    }
    macro_rules! errno {
        ($e:expr) => {{
            let ea = ex.errno;
            ex.store_int(st, ea, 4, &Val::C($e))?;
            return Ok(Some(Val::C(mask(rty.bits()))));
        }};
    }
    match x {
        Nop => some(Val::C(0)),
        Assume => some(Val::C(0)),
        Expect | TlsAddr | RetArg0 => some(a[0].clone()),
        IsConst => c(0),
        ObjSize => some(Val::C(mask(rty.bits()))),
        Trap => Err(Stop::Viol { kind: "abort", msg: "trap".into() }),
        WithOv(k) => {
            let w = t[0].bits();
            let (r, o) = with_ov(ex, k, w, &a[0], &a[1])?;
            let o = ex.rv(st, o);
            some(Val::A(Rc::new(vec![r, o])))
        }
        Sat(_) | MinMax(_) | Ctlz | Cttz | Ctpop | Bswap | BitReverse | Fshl | Fshr | Abs | FAbs | FRound(_) | CopySign | FMinMax(_) => {
            let w = bits(t[0]);
            if let Val::A(v0) = &a[0] {
                let mut out = vec![];
                for i in 0..v0.len() {
                    let la: Vec<Val> = a
                        .iter()
                        .map(|v| match v {
                            Val::A(q) => q[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    out.push(ext1(ex, x, w, &la)?);
                }
                return some(Val::A(Rc::new(out)));
            }
            let v = ext1(ex, x, w, a)?;
            some(v)
        }
        ScmpUcmp(s) => {
            let w = t[0].bits();
            let lt = ex.icmp(if s { Pred::Slt } else { Pred::Ult }, w, &a[0], &a[1]);
            let gt = ex.icmp(if s { Pred::Sgt } else { Pred::Ugt }, w, &a[0], &a[1]);
            let (lt, gt) = (ex.e(&lt, 1), ex.e(&gt, 1));
            let rw = rty.bits();
            let r = ex.select(&Ty::Int(rw), gt, &Val::C(1), &Val::C(0));
            let r = ex.select(&Ty::Int(rw), lt, &Val::C(mask(rw)), &r);
            some(r)
        }
        FpToUiSat | FpToSiSat => {
            let wf = t[0].bits();
            let e = ex.e(&a[0], wf);
            let r = ex.x.fop(if x == FpToUiSat { Op::FpToUi } else { Op::FpToSi }, rty.bits(), e, 0, 0);
            some(ex.mk(r))
        }
        FMul3 => Err(Stop::Unsup("fma".into())),
        PtrMask => some(ex.bin(BinOp::And, 64, &a[0], &a[1])?),
        LoadRel => {
            let p = con!(0, 64, "pointer");
            let o = con!(1, 64, "offset");
            let v = ex.load_int(st, p.wrapping_add(o), 4, 32)?;
            let Val::C(v) = v else { return Err(Stop::Unsup("load.relative".into())) };
            c(p.wrapping_add(sext128(v, 32) as u64))
        }
        ReduceAdd | ReduceOr | ReduceAnd => {
            let Val::A(v) = &a[0] else { panic!() };
            let w = bits(t[0]);
            let op = match x {
                ReduceAdd => BinOp::Add,
                ReduceOr => BinOp::Or,
                _ => BinOp::And,
            };
            let mut acc = v[0].clone();
            for q in &v[1..] {
                acc = ex.bin(op, w, &acc, q)?;
            }
            some(acc)
        }
        Movmsk => {
            let Val::A(v) = &a[0] else { panic!() };
            let mut acc = ex.x.c(0, 32);
            for (i, q) in v.iter().enumerate() {
                let e = ex.e(q, 8);
                let b = ex.x.extract(e, 7, 1);
                let z = ex.x.zext(b, 32);
                let k = ex.x.c(i as u128, 32);
                let s = ex.x.shl(z, k);
                acc = ex.x.or(acc, s);
            }
            some(ex.mk(acc))
        }
        Psad => Err(Stop::Unsup("psadbw".into())),
        Memcpy | Memmove => {
            let n = con!(2, t[2].bits(), "copy length");
            if n == 0 {
                return some(a[0].clone());
            }
            let (pd, ps) = (ex.rv(st, a[0].clone()), ex.rv(st, a[1].clone()));
            let logged = |v: &Val| matches!(v, Val::C(a) if ex.logged(st, *a as u64));
            if n <= 16 && (matches!(pd, Val::S(_)) || matches!(ps, Val::S(_)) || logged(&pd) || logged(&ps)) {
                let ty = Ty::Int(8 * n as u32);
                let v = ex.load_at(st, &ps, &ty)?;
                ex.store_at(st, &pd, &ty, &v)?;
                return some(a[0].clone());
            }
            let dst = ex.conc_ptr(st, &a[0])?;
            let src = ex.conc_ptr(st, &a[1])?;
            if ex.logged(st, dst) || ex.logged(st, src) {
                ex.flush(st)?;
            }
            if st.watch == Some(split(dst).0) {
                // crash before, and (for a longer copy) with only the first half written
                ex.crash_point(st, dst)?;
                if n > 1 {
                    let mut o = st.clone();
                    copy(ex, &mut o, dst, src, n / 2)?;
                    let o = ex.crash_now(o);
                    ex.st.crash_points += 1;
                    ex.work.push(o);
                }
            }
            copy(ex, st, dst, src, n)?;
            some(a[0].clone())
        }
        Memset => {
            let n = con!(2, t[2].bits(), "set length");
            if n == 0 {
                return some(a[0].clone());
            }
            let (pd, fill) = (ex.rv(st, a[0].clone()), ex.rv(st, a[1].clone()));
            let logged = matches!(pd, Val::C(a) if ex.logged(st, a as u64));
            if let (true, Val::C(b), true) = (logged || matches!(pd, Val::S(_)), &fill, n <= 16) {
                let v = (0..n).fold(0u128, |x, _| (x << 8) | (b & 0xff));
                ex.store_at(st, &pd, &Ty::Int(8 * n as u32), &Val::C(v))?;
                return some(a[0].clone());
            }
            let dst = ex.conc_ptr(st, &a[0])?;
            if ex.logged(st, dst) {
                ex.flush(st)?;
            }
            ex.crash_point(st, dst)?;
            ex.check_range(st, dst, n, true)?;
            let v = ex.rv(st, a[1].clone());
            match v {
                Val::C(b) => {
                    let (id, off) = split(dst);
                    let o = st.mem.get_mut(id).unwrap();
                    o.data[off as usize..(off + n) as usize].fill(b as u8);
                    if !o.sym.is_empty() {
                        o.sym[off as usize..(off + n) as usize].fill(0);
                    }
                }
                Val::S(e) => {
                    let w = ex.x.w(e);
                    let b = if w > 8 { ex.x.extract(e, 0, 8) } else { e };
                    for i in 0..n {
                        ex.store_int(st, dst + i, 1, &Val::S(b))?;
                    }
                }
                _ => panic!(),
            }
            some(a[0].clone())
        }
        Malloc => {
            let n = con!(0, 64, "allocation size");
            if n >= 1 << OBJ_SHIFT {
                return Err(Stop::Limit(format!("allocation of {n} bytes")));
            }
            c(st.mem.alloc_heap(n, 0xCD))
        }
        RustAlloc | RustAllocZ => {
            let n = con!(0, 64, "allocation size");
            if n >= 1 << OBJ_SHIFT {
                return Err(Stop::Viol { kind: "alloc", msg: format!("allocation of more than {} bytes", 1 << OBJ_SHIFT) });
            }
            c(st.mem.alloc_heap(n, if x == RustAllocZ { 0 } else { 0xCD }))
        }
        Calloc => {
            let n = con!(0, 64, "n") * con!(1, 64, "n");
            c(st.mem.alloc_heap(n, 0))
        }
        AlignedAlloc => {
            let n = con!(1, 64, "n");
            c(st.mem.alloc_heap(n, 0xCD))
        }
        PosixMemalign => {
            let n = con!(2, 64, "n");
            let p = con!(0, 64, "p");
            let q = st.mem.alloc_heap(n, 0xCD);
            ex.store_int(st, p, 8, &Val::C(q as u128))?;
            c(0)
        }
        Realloc | RustRealloc => {
            let p = con!(0, 64, "ptr");
            let n = con!(if x == Realloc { 1 } else { 3 }, 64, "allocation size");
            if n >= 1 << OBJ_SHIFT {
                return Err(Stop::Viol { kind: "alloc", msg: format!("allocation of more than {} bytes", 1 << OBJ_SHIFT) });
            }
            let q = st.mem.alloc_heap(n, 0xCD);
            if p != 0 {
                let (id, off) = split(p);
                let old = match st.mem.get(id) {
                    Some(o) if off == 0 && id >= HEAP0 => o.data.len() as u64,
                    _ => return Err(Stop::Viol { kind: "memory", msg: "realloc of an invalid pointer".into() }),
                };
                copy(ex, st, q, p, old.min(n))?;
                st.mem.put(id, None);
            }
            c(q)
        }
        Free | RustDealloc => {
            let p = con!(0, 64, "ptr");
            if p != 0 {
                let (id, off) = split(p);
                if off != 0 || st.mem.get(id).is_none() || id < HEAP0 {
                    return Err(Stop::Viol { kind: "memory", msg: "free of an invalid or already freed pointer".into() });
                }
                st.mem.put(id, None);
            }
            c(0)
        }
        Bcmp | Memcmp => {
            let n = con!(2, 64, "compare length");
            let p = ex.conc_ptr(st, &a[0])?;
            let q = ex.conc_ptr(st, &a[1])?;
            let u = rd_bytes(ex, st, p, n)?;
            let v = rd_bytes(ex, st, q, n)?;
            if x == Bcmp {
                let mut acc = ex.x.t();
                for (i, j) in u.iter().zip(&v) {
                    let r = ex.icmp(Pred::Eq, 8, i, j);
                    let r = ex.e(&r, 1);
                    acc = ex.x.and(acc, r);
                    if ex.x.cv(acc) == Some(0) {
                        break;
                    }
                }
                let nz = ex.x.not1(acc);
                let r = ex.x.zext(nz, 32);
                return some(ex.mk(r));
            }
            let mut acc = Val::C(0);
            for (i, j) in u.iter().zip(&v).rev() {
                let lt = ex.icmp(Pred::Ult, 8, i, j);
                let gt = ex.icmp(Pred::Ugt, 8, i, j);
                let (lt, gt) = (ex.e(&lt, 1), ex.e(&gt, 1));
                let r = ex.select(&Ty::Int(32), gt, &Val::C(1), &acc);
                acc = ex.select(&Ty::Int(32), lt, &Val::C(0xffff_ffff), &r);
            }
            some(acc)
        }
        Strlen => {
            let p = con!(0, 64, "ptr");
            let mut n = 0u64;
            loop {
                let b = ex.load_int(st, p + n, 1, 8)?;
                if let Val::C(v) = b {
                    if v == 0 {
                        break;
                    }
                } else {
                    let z = ex.icmp(Pred::Eq, 8, &b, &Val::C(0));
                    if ex.decide(st, &z)? {
                        break;
                    }
                }
                n += 1;
            }
            c(n)
        }
        Memchr | Memrchr => {
            let p = con!(0, 64, "ptr");
            let n = con!(2, 64, "len");
            let b = rd_bytes(ex, st, p, n)?;
            let ch = ex.bin(BinOp::And, 32, &a[1], &Val::C(255))?;
            let mut acc = Val::C(0);
            let ix: Vec<usize> = if x == Memchr { (0..b.len()).rev().collect() } else { (0..b.len()).collect() };
            for i in ix {
                let be = ex.e(&b[i], 8);
                let z = ex.x.zext(be, 32);
                let z = ex.mk(z);
                let q = ex.icmp(Pred::Eq, 32, &z, &ch);
                let q = ex.e(&q, 1);
                acc = ex.select(&Ty::Ptr, q, &Val::C((p + i as u64) as u128), &acc);
            }
            some(acc)
        }
        Panic(k) => {
            // location argument is the last one for panic_fmt(args, loc)
            let mut msg = String::new();
            if k <= 1 {
                if let Some(Val::C(p)) = a.first() {
                    if let (Ok(Val::C(pp)), Ok(Val::C(np))) = (ex.load_int(st, *p as u64, 8, 64), ex.load_int(st, *p as u64 + 8, 8, 64)) {
                        for i in 0..(np as u64).min(4) {
                            if let (Ok(Val::C(sp)), Ok(Val::C(sl))) = (ex.load_int(st, pp as u64 + 16 * i, 8, 64), ex.load_int(st, pp as u64 + 16 * i + 8, 8, 64)) {
                                if i > 0 {
                                    msg.push_str("{}");
                                }
                                if sl < 300 {
                                    msg.push_str(&rd_str(ex, st, sp as u64, sl as u64));
                                }
                            }
                        }
                    }
                }
            }
            let mut loc = String::new();
            if let Some(Val::C(p)) = a.last() {
                if let (Ok(Val::C(fp)), Ok(Val::C(fl)), Ok(Val::C(line))) = (ex.load_int(st, *p as u64, 8, 64), ex.load_int(st, *p as u64 + 8, 8, 64), ex.load_int(st, *p as u64 + 16, 4, 32)) {
                    if fl < 400 {
                        loc = format!("{}:{}", rd_str(ex, st, fp as u64, fl as u64), line);
                    }
                }
            }
            if k == 4 {
                msg = "process abort".into();
            }
            Err(Stop::Viol { kind: "panic", msg: format!("{msg} @ {loc}") })
        }
        Abort => Err(Stop::Viol { kind: "abort", msg: "abort() called".into() }),
        Exit => Err(Stop::Viol { kind: "abort", msg: "process exit".into() }),
        Zero => c(0),
        MinusOne => errno!(38),
        Errno => c(ex.errno),
        Getenv => {
            let p = con!(0, 64, "ptr");
            let n = rd_cstr(ex, st, p)?;
            c(st.env.get(&n).copied().unwrap_or(0))
        }
        Setenv => {
            let p = con!(0, 64, "ptr");
            let n = rd_cstr(ex, st, p)?;
            // copy the value up to and including its terminator; bytes may be symbolic but non-zero
            let v = con!(1, 64, "ptr");
            let (id, off) = split(v);
            let Some(o) = st.mem.get(id) else { return Err(ex.memerr("read", v, 1, st)) };
            let len = o.data.len() as u64 - off;
            let q = st.mem.alloc_heap(len, 0);
            copy(ex, st, q, v, len)?;
            Rc::make_mut(&mut st.env).insert(n, q);
            c(0)
        }
        Unsetenv => {
            let p = con!(0, 64, "ptr");
            let n = rd_cstr(ex, st, p)?;
            Rc::make_mut(&mut st.env).remove(&n);
            c(0)
        }
        KeyCreate => {
            let p = con!(0, 64, "ptr");
            let m = Rc::make_mut(&mut st.tls);
            let k = 1 + m.keys().filter(|k| **k >> 32 == 0).count() as u64;
            m.insert(k, 0);
            ex.store_int(st, p, 4, &Val::C(k as u128))?;
            c(0)
        }
        KeySet => {
            let k = con!(0, 32, "key");
            let v = con!(1, 64, "ptr");
            let k = k | (st.par.as_ref().map_or(0, |p| p.cur as u64) << 32);
            Rc::make_mut(&mut st.tls).insert(k, v);
            c(0)
        }
        KeyGet => {
            let k = con!(0, 32, "key");
            let k = k | (st.par.as_ref().map_or(0, |p| p.cur as u64) << 32);
            c(st.tls.get(&k).copied().unwrap_or(0))
        }
        ClockGettime => {
            let k = con!(0, 32, "clock");
            let p = con!(1, 64, "ptr");
            let (s, n) = if k == 0 { (st.clock[2].clone(), st.clock[3].clone()) } else { (st.clock[0].clone(), st.clock[1].clone()) };
            let (s, n) = (ex.rv(st, s), ex.rv(st, n));
            ex.store_int(st, p, 8, &s)?;
            ex.store_int(st, p + 8, 8, &n)?;
            c(0)
        }
        Getrandom => {
            let p = con!(0, 64, "ptr");
            let n = con!(1, 64, "len");
            random(ex, st, p, n)?;
            c(n)
        }
        Syscall => {
            let k = con!(0, 64, "syscall");
            match k {
                202 => {
                    let op = con!(2, 64, "futex op") & 0x7f;
                    if st.par.is_some() {
                        ex.sched_point(st, SITE_FUTEX);
                        let p = con!(1, 64, "ptr");
                        let r = match op {
                            1 | 10 => {
                                let n = con!(3, 64, "futex val") & 0xffff_ffff;
                                let par = st.par.as_mut().unwrap();
                                let mut k = 0;
                                let q = par.queue.clone();
                                for t in q {
                                    if k < n && par.thr[t].blocked.map_or(false, |b| b.0 == p) {
                                        par.thr[t].blocked = None;
                                        par.queue.retain(|x| *x != t);
                                        k += 1;
                                    }
                                }
                                k
                            }
                            0 | 9 => {
                                let want = con!(3, 64, "futex val") & 0xffff_ffff;
                                let cur = ex.load_int(st, p, 4, 32)?;
                                let cur = ex.concretize(st, &cur, 32, "futex word")? as u64;
                                if cur != want {
                                    ex.sched_done(st, SITE_FUTEX);
                                    errno!(11);
                                }
                                let tm = con!(4, 64, "ptr");
                                let par = st.par.as_mut().unwrap();
                                let i = par.cur;
                                par.thr[i].blocked = Some((p, tm != 0, d));
                                par.queue.push(i);
                                par.leave = Some(SITE_BLOCK);
                                0
                            }
                            _ => return Err(Stop::Unsup("futex operation".into())),
                        };
                        ex.sched_done(st, SITE_FUTEX);
                        return c(r);
                    }
                    match op {
                        1 | 10 => c(0),
                        0 | 9 => {
                            let p = con!(1, 64, "ptr");
                            let want = con!(3, 64, "futex val") & 0xffff_ffff;
                            let cur = ex.load_int(st, p, 4, 32)?;
                            let cur = ex.concretize(st, &cur, 32, "futex word")? as u64;
                            if cur != want {
                                errno!(11);
                            }
                            let tm = con!(4, 64, "ptr");
                            if tm != 0 {
                                errno!(110);
                            }
                            Err(Stop::Viol { kind: "deadlock", msg: "thread would block forever".into() })
                        }
                        _ => errno!(38),
                    }
                }
                318 => {
                    let p = con!(1, 64, "ptr");
                    let n = con!(2, 64, "len");
                    random(ex, st, p, n)?;
                    c(n)
                }
                186 => c(1 + st.par.as_ref().map_or(0, |p| p.cur as u64)),
                _ => errno!(38),
            }
        }
        Sysconf => {
            let k = con!(0, 32, "name");
            c(match k {
                30 => 4096,
                84 | 83 => 4,
                _ => 64,
            })
        }
        Write => {
            let fd = con!(0, 32, "fd");
            if ex.m.syms[sym as usize] == "writev" {
                // stderr only
                let iov = con!(1, 64, "ptr");
                let n = con!(2, 32, "n");
                let mut tot = 0u64;
                for i in 0..n {
                    let l = ex.load_int(st, iov + 16 * i + 8, 8, 64)?;
                    tot += ex.concretize(st, &l, 64, "len")? as u64;
                }
                return c(tot);
            }
            let p = con!(1, 64, "ptr");
            let n = con!(2, 64, "len");
            if fd <= 2 {
                if ex.cfg.trace {
                    eprint!("{}", rd_str(ex, st, p, n));
                }
                return c(n);
            }
            let Some((id, pos)) = st.fs.fds.get(&fd).copied() else { errno!(9) };
            let mut n = n;
            if let (Some(b), true) = (st.fs.budget, n > 0) {
                if b == 0 {
                    errno!(if st.fs.dead { 5 } else { 28 });
                }
                n = n.min(b);
                Rc::make_mut(&mut st.fs).budget = Some(b - n);
            }
            let o = st.mem.get_mut(id).unwrap();
            let end = (pos + n) as usize;
            if o.data.len() < end {
                o.data.resize(end, 0);
                if !o.sym.is_empty() {
                    o.sym.resize(end, 0);
                }
            }
            copy(ex, st, ((id as u64) << OBJ_SHIFT) + pos, p, n)?;
            Rc::make_mut(&mut st.fs).fds.insert(fd, (id, pos + n));
            c(n)
        }
        Getpid => c(1),
        Gettid => c(1 + st.par.as_ref().map_or(0, |p| p.cur as u64)),
        Open => {
            let p = con!(0, 64, "path");
            let path = norm(&rd_cstr(ex, st, p)?);
            let fl = con!(1, 32, "flags");
            let id = match st.fs.names.get(&path).copied() {
                Some(i) => {
                    if fl & 0o200 != 0 && fl & 0o100 != 0 {
                        errno!(17);
                    }
                    i
                }
                None => {
                    if fl & 0o100 == 0 || !has_parent(&st.fs, &path) {
                        errno!(2);
                    }
                    if !Fs::change(&mut st.fs) {
                        errno!(5);
                    }
                    let ad = st.mem.alloc_heap(0, 0);
                    let i = split(ad).0;
                    Rc::make_mut(&mut st.fs).names.insert(path, i);
                    i
                }
            };
            if fl & 0o1000 != 0 {
                if st.mem.get(id).unwrap().data.len() > 0 && !Fs::change(&mut st.fs) {
                    errno!(5);
                }
                let o = st.mem.get_mut(id).unwrap();
                o.data.clear();
                o.sym.clear();
            }
            let fs = Rc::make_mut(&mut st.fs);
            fs.next_fd = fs.next_fd.max(3);
            let fd = fs.next_fd;
            fs.next_fd += 1;
            fs.fds.insert(fd, (id, 0));
            c(fd)
        }
        Close => {
            let fd = con!(0, 32, "fd");
            Rc::make_mut(&mut st.fs).fds.remove(&fd);
            c(0)
        }
        Read | Pread => {
            let fd = con!(0, 32, "fd");
            let p = con!(1, 64, "ptr");
            let n = con!(2, 64, "len");
            let Some((id, mut pos)) = st.fs.fds.get(&fd).copied() else { errno!(9) };
            if x == Pread {
                pos = con!(3, 64, "off");
            }
            let len = st.mem.get(id).unwrap().data.len() as u64;
            let k = n.min(len.saturating_sub(pos));
            copy(ex, st, p, ((id as u64) << OBJ_SHIFT) + pos, k)?;
            if x == Read {
                Rc::make_mut(&mut st.fs).fds.insert(fd, (id, pos + k));
            }
            c(k)
        }
        Lseek => {
            let fd = con!(0, 32, "fd");
            let off = con!(1, 64, "off");
            let wh = con!(2, 32, "whence");
            let Some((id, pos)) = st.fs.fds.get(&fd).copied() else { errno!(9) };
            let len = st.mem.get(id).unwrap().data.len() as u64;
            let np = match wh {
                0 => off,
                1 => pos.wrapping_add(off),
                _ => len.wrapping_add(off),
            };
            Rc::make_mut(&mut st.fs).fds.insert(fd, (id, np));
            c(np)
        }
        Fstat | Stat => {
            let id;
            let mut dir = false;
            if x == Fstat {
                let fd = con!(0, 32, "fd");
                let Some((i, _)) = st.fs.fds.get(&fd).copied() else { errno!(9) };
                id = i;
            } else {
                let p = con!(0, 64, "path");
                let path = norm(&rd_cstr(ex, st, p)?);
                match st.fs.names.get(&path).copied() {
                    Some(i) => id = i,
                    None => {
                        if st.fs.dirs.contains(&path) {
                            dir = true;
                            id = 0;
                        } else {
                            errno!(2)
                        }
                    }
                }
            }
            let b = con!(1, 64, "ptr");
            for i in 0..144 {
                ex.store_int(st, b + i, 1, &Val::C(0))?;
            }
            let len = if dir { 0 } else { st.mem.get(id).unwrap().data.len() };
            ex.store_int(st, b + 24, 4, &Val::C(if dir { 0o040755 } else { 0o100644 }))?;
            ex.store_int(st, b + 48, 8, &Val::C(len as u128))?;
            ex.store_int(st, b + 56, 8, &Val::C(4096))?;
            c(0)
        }
        Ftruncate => {
            let fd = con!(0, 32, "fd");
            let n = con!(1, 64, "len");
            let Some((id, _)) = st.fs.fds.get(&fd).copied() else { errno!(9) };
            if n >= 1 << OBJ_SHIFT {
                return Err(Stop::Limit(format!("file of {n} bytes")));
            }
            if !Fs::change(&mut st.fs) {
                errno!(5);
            }
            let o = st.mem.get_mut(id).unwrap();
            o.data.resize(n as usize, 0);
            if !o.sym.is_empty() {
                o.sym.resize(n as usize, 0);
            }
            c(0)
        }
        Mmap => {
            let len = con!(1, 64, "len");
            let fd = con!(4, 32, "fd");
            if fd == 0xffff_ffff {
                return c(st.mem.alloc_heap(len, 0));
            }
            let off = con!(5, 64, "off");
            let Some((id, _)) = st.fs.fds.get(&fd).copied() else { errno!(9) };
            if off != 0 {
                return Err(Stop::Unsup("mmap offset".into()));
            }
            c((id as u64) << OBJ_SHIFT)
        }
        Unlink => {
            let p = con!(0, 64, "path");
            let path = norm(&rd_cstr(ex, st, p)?);
            if !st.fs.names.contains_key(&path) {
                errno!(2);
            }
            if !Fs::change(&mut st.fs) {
                errno!(5);
            }
            Rc::make_mut(&mut st.fs).names.remove(&path);
            c(0)
        }
        Rename => {
            let p = con!(0, 64, "path");
            let q = con!(1, 64, "path");
            let (p, q) = (norm(&rd_cstr(ex, st, p)?), norm(&rd_cstr(ex, st, q)?));
            if !has_parent(&st.fs, &q) {
                errno!(2);
            }
            if !st.fs.names.contains_key(&p) {
                errno!(2);
            }
            if !Fs::change(&mut st.fs) {
                errno!(5);
            }
            let fs = Rc::make_mut(&mut st.fs);
            match fs.names.remove(&p) {
                Some(i) => {
                    fs.names.insert(q, i);
                    c(0)
                }
                None => errno!(2),
            }
        }
        Mkdir => {
            let p = con!(0, 64, "path");
            let path = norm(&rd_cstr(ex, st, p)?);
            if !has_parent(&st.fs, &path) {
                errno!(2);
            }
            if st.fs.dirs.contains(&path) {
                errno!(17);
            }
            if !Fs::change(&mut st.fs) {
                errno!(5);
            }
            Rc::make_mut(&mut st.fs).dirs.insert(path);
            c(0)
        }
        // std's remove_dir_all(path: &Path) -> io::Result<()>
        RemoveDirAll => {
            let p = con!(0, 64, "path");
            let n = con!(1, 64, "len");
            let path = norm(&rd_str(ex, st, p, n));
            if !st.fs.dirs.contains(&path) {
                return c(2 << 32 | 2);
            }
            let under = format!("{path}/");
            let mut all: Vec<String> = st.fs.names.keys().filter(|n| n.starts_with(&under)).cloned().collect();
            all.extend(st.fs.dirs.iter().rev().filter(|n| n.starts_with(&under)).cloned());
            all.push(path);
            for n in all {
                if !Fs::change(&mut st.fs) {
                    return c(5 << 32 | 2);
                }
                let fs = Rc::make_mut(&mut st.fs);
                fs.names.remove(&n);
                fs.dirs.remove(&n);
            }
            c(0)
        }
        Fcntl => c(0),
        StrError => c(0),

        // ---- harness API ----
        SVar => {
            // (name, len, bits, lo, hi) -> u64
            let (np, nl) = (con!(0, 64, "p"), con!(1, 64, "n"));
            let name = rd_str(ex, st, np, nl);
            let w = con!(2, 32, "bits") as u32;
            let (lo, hi) = (con!(3, 64, "lo"), con!(4, 64, "hi"));
            let full = format!("{name}#{}", st.nvar);
            st.nvar += 1;
            if lo > hi {
                return Err(Stop::Infeasible);
            }
            if lo == hi {
                st.inputs.push(Input { name: name.into(), e: Val::C(lo as u128) });
                return c(lo);
            }
            let need = 64 - hi.leading_zeros();
            let vw = need.min(w).max(1);
            let (e, _) = ex.x.var(&full, vw, lo as u128, hi as u128);
            let z = ex.x.zext(e, 64);
            let v = ex.mk(z);
            st.inputs.push(Input { name: name.into(), e: v.clone() });
            some(v)
        }
        SChoose => {
            let (np, nl) = (con!(0, 64, "p"), con!(1, 64, "n"));
            let name = rd_str(ex, st, np, nl);
            let n = con!(2, 64, "n");
            let full = format!("{name}#{}", st.nvar);
            if n <= 1 {
                st.nvar += 1;
                st.inputs.push(Input { name: name.into(), e: Val::C(0) });
                return c(0);
            }
            let vw = 64 - (n - 1).leading_zeros();
            let (e, _) = ex.x.var(&full, vw, 0, n as u128 - 1);
            let v = ex.concretize(st, &Val::S(e), vw, "choice")?;
            st.nvar += 1;
            st.inputs.push(Input { name: name.into(), e: Val::C(v) });
            some(Val::C(v))
        }
        SConc => {
            let v = ex.concretize(st, &a[0], 64, "concretised value")?;
            some(Val::C(v))
        }
        SParam => {
            let (np, nl) = (con!(0, 64, "p"), con!(1, 64, "n"));
            let name = rd_str(ex, st, np, nl);
            let d = con!(2, 64, "default");
            c(ex.cfg.params.get(&name).copied().unwrap_or(d))
        }
        SIsSym => c(matches!(a[0], Val::S(_)) as u64),
        SAssume => {
            let v = ex.bin(BinOp::And, 32, &a[0], &Val::C(1))?;
            let q = ex.icmp(Pred::Ne, 32, &v, &Val::C(0));
            ex.assume(st, &q)?;
            c(0)
        }
        SAssert => {
            let (np, nl) = (con!(1, 64, "p"), con!(2, 64, "n"));
            let name = rd_str(ex, st, np, nl);
            let v = ex.bin(BinOp::And, 32, &a[0], &Val::C(1))?;
            let q = ex.icmp(Pred::Ne, 32, &v, &Val::C(0));
            *ex.st.asserts.entry(name.clone()).or_default() += 1;
            let q = ex.rv(st, q);
            match q {
                Val::C(1) => {}
                Val::C(_) => return Err(Stop::Viol { kind: "assert", msg: name }),
                _ => {
                    if !ex.decide(st, &q)? {
                        return Err(Stop::Viol { kind: "assert", msg: name });
                    }
                }
            }
            c(0)
        }
        SReach => {
            let (np, nl) = (con!(0, 64, "p"), con!(1, 64, "n"));
            let name = rd_str(ex, st, np, nl);
            ex.st.reach.insert(name);
            c(0)
        }
        SOut => {
            st.outs.push(a[0].clone());
            c(0)
        }
        SClock => {
            for i in 0..4 {
                st.clock[i] = a[i].clone();
            }
            c(0)
        }
        SBytes => {
            let (np, nl) = (con!(2, 64, "p"), con!(3, 64, "n"));
            let name = rd_str(ex, st, np, nl);
            let p = con!(0, 64, "p");
            let n = con!(1, 64, "n");
            for i in 0..n {
                let full = format!("{name}#{}", st.nvar);
                st.nvar += 1;
                let (e, _) = ex.x.var(&full, 8, 0, 255);
                st.inputs.push(Input { name: name.as_str().into(), e: Val::S(e) });
                ex.store_int(st, p + i, 1, &Val::S(e))?;
            }
            c(0)
        }
        Yield | Nanosleep => {
            if let Some(p) = &mut st.par {
                p.leave = Some(SITE_YIELD);
            }
            c(0)
        }
        SPar => {
            let f = con!(0, 64, "fn");
            let (fid, _) = split(f);
            let s = (fid as u64 - SYM_BASE) as usize;
            let Target::Fn(fi) = ex.targets[s] else { return Err(Stop::Unsup("par target".into())) };
            let n = con!(2, 64, "threads") as usize;
            ex.par_start(st, fi, a[1].clone(), n)?;
            c(0)
        }
        SDisk => {
            // (mode, n): 0 no limit, 1 n bytes of space left, 2 stops working after n changes
            let mode = con!(0, 32, "mode");
            let n = con!(1, 64, "n");
            let fs = Rc::make_mut(&mut st.fs);
            fs.budget = if mode == 0 { None } else { Some(n) };
            fs.dead = mode == 2;
            c(0)
        }
        SCrashRun => {
            // (fn, arg, region, len) -> 0 completed / 1 crashed
            let f = con!(0, 64, "fn");
            let (fid, _) = split(f);
            let region = con!(2, 64, "p");
            let (oid, _) = split(region);
            let s = (fid as u64 - SYM_BASE) as usize;
            let Target::Fn(fi) = ex.targets[s] else { return Err(Stop::Unsup("crash_run target".into())) };
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            fr.pc += 1;
            st.watch = Some(oid);
            st.crash_stores = 0;
            ex.call_fn(st, fi, vec![a[1].clone()], d, normal)?;
            st.crash_depth = st.frames.len() - 1;
            Rc::make_mut(st.frames.last_mut().unwrap()).crash_mark = true;
            Ok(None)
        }
        SFail => {
            let (np, nl) = (con!(0, 64, "p"), con!(1, 64, "n"));
            let name = rd_str(ex, st, np, nl);
            *ex.st.asserts.entry(name.clone()).or_default() += 1;
            Err(Stop::Viol { kind: "assert", msg: name })
        }
        SDone => Err(Stop::End),
        SUnsup => {
            let (np, nl) = (con!(0, 64, "p"), con!(1, 64, "n"));
            let name = rd_str(ex, st, np, nl);
            Err(Stop::Unsup(name))
        }
    }
}

/// random bytes: an arbitrary but fixed stream (never the same bytes twice)
fn random(ex: &mut Exec, st: &mut State, p: u64, n: u64) -> R<()> {
    for i in 0..n {
        st.rng += 1;
        let mut z = st.rng.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        ex.store_int(st, p + i, 1, &Val::C(((z ^ (z >> 31)) & 0xff) as u128))?;
    }
    Ok(())
}
