//! symx: symbolic execution of LLVM IR. See DESIGN.md.
mod exec;
mod expr;
mod ext;
mod ir;
mod mem;
mod solver;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut u8;
}

pub fn demangle(s: &str) -> String {
    // legacy rust mangling
    if let Some(r) = s.strip_prefix("_ZN") {
        let b = r.as_bytes();
        let mut i = 0;
        let mut parts = vec![];
        while i < b.len() && b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let n: usize = r[st..i].parse().unwrap_or(0);
            if i + n > b.len() {
                break;
            }
            parts.push(r[i..i + n].to_string());
            i += n;
        }
        if parts.last().map_or(false, |p| p.len() == 17 && p.starts_with('h')) {
            parts.pop();
        }
        let mut out = parts.join("::");
        for (a, c) in [("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$C$", ","), ("$RF$", "&"), ("$u7b$", "{"), ("$u7d$", "}"), ("$LP$", "("), ("$RP$", ")"), ("$BP$", "*"), ("$u5b$", "["), ("$u5d$", "]"), ("$u27$", "'"), ("..", "::")] {
            out = out.replace(a, c);
        }
        return out;
    }
    s.to_string()
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn inputs_json(v: &[(String, u128)]) -> String {
    let s: Vec<String> = v.iter().map(|(n, x)| format!("[{},{}]", jstr(n), x)).collect();
    format!("[{}]", s.join(","))
}

struct Args {
    ll: String,
    entry: String,
    out: String,
    jobs: u32,
    time: u64,
    max_steps: u64,
    trace: bool,
    profile: bool,
    rlimit: u32,
    ptr_cap: usize,
    val_cap: usize,
    samples: usize,
    max_viol: usize,
    preempt: u64,
    params: std::collections::HashMap<String, u64>,
}

fn worker_result(ex: &Exec, path: &str) {
    let mut o = String::new();
    let s = &ex.st;
    o += &format!("n\tpaths\t{}\n", s.paths);
    o += &format!("n\tinfeasible\t{}\n", s.infeasible);
    o += &format!("n\tsteps\t{}\n", s.steps);
    o += &format!("n\tforks\t{}\n", s.forks);
    o += &format!("n\tbranch_decisions\t{}\n", s.branch_queries);
    o += &format!("n\tcut_debug_texts\t{}\n", s.cut_debug);
    o += &format!("n\tsymbolic_reads\t{}\n", s.ite_reads);
    o += &format!("n\tsymbolic_writes\t{}\n", s.ite_writes);
    o += &format!("n\tcrash_points\t{}\n", s.crash_points);
    o += &format!("n\tpreemptions\t{}\n", s.preemptions);
    o += &format!("n\tqueries\t{}\n", ex.s.queries);
    o += &format!("n\tcached_queries\t{}\n", ex.s.cached);
    o += &format!("n\tunknown\t{}\n", ex.s.unknown);
    o += &format!("f\tsolver_s\t{}\n", ex.s.time);
    o += &format!("m\tmax_query_s\t{}\n", ex.s.max_time);
    for r in &s.reach {
        o += &format!("reach\t{r}\n");
    }
    for (t, n) in &s.sites {
        eprintln!("forks {n} at {t}");
    }
    for (a, n) in &s.asserts {
        o += &format!("assert\t{a}\t{n}\n");
    }
    for f in &s.fns {
        o += &format!("fn\t{}\n", ex.m.funcs[*f as usize].name);
    }
    for (e, n) in &s.errors {
        o += &format!("err\t{n}\t{}\n", e.replace(['\n', '\t'], " "));
    }
    for v in &s.viols {
        let j = format!(
            "{{\"kind\":{},\"msg\":{},\"inputs\":{},\"image\":{},\"stack\":[{}]}}",
            jstr(&v.kind),
            jstr(&v.msg),
            inputs_json(&v.inputs),
            v.image.as_ref().map_or("null".into(), |i| jstr(&hex(i))),
            v.stack.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")
        );
        o += &format!("viol\t{}|{}\t{}\n", v.kind, v.msg.replace(['\n', '\t'], " "), j);
    }
    for (i, outs, im) in &s.samples {
        let j = format!("{{\"inputs\":{},\"outs\":[{}],\"image\":{}}}", inputs_json(i), outs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), im.as_ref().map_or("null".into(), |i| jstr(&hex(i))));
        o += &format!("sample\t{j}\n");
    }
    std::fs::File::create(path).unwrap().write_all(o.as_bytes()).unwrap();
}

fn run(a: Args) {
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&a.ll).expect("read ll");
    let m = ir::Module::parse(&text);
    drop(text);
    let parse_s = t0.elapsed().as_secs_f64();
    let nfun = m.funcs.len();
    let cfg = Cfg { max_steps: a.max_steps, max_viol: a.max_viol, deadline: t0 + Duration::from_secs(a.time), ptr_cap: a.ptr_cap, val_cap: a.val_cap, trace: a.trace, profile: a.profile, samples: a.samples, forks_first: false, preempt: a.preempt, params: a.params.clone() };
    let mut ex = Exec::new(m, cfg, a.rlimit);
    let st = ex.init_state(&a.entry);
    ex.work.push(st);
    let shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const [AtomicU32; 16]) };
    shared[0].store(1, Ordering::SeqCst);
    let dir = format!("{}.parts", a.out);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut children: Vec<i32> = vec![];
    let mut root = true;
    let mut my_id = 0u32;
    let mut nviol = 0;
    while let Some(s) = ex.work.pop() {
        if Instant::now() > ex.cfg.deadline {
            *ex.st.errors.entry("time limit".into()).or_default() += 1;
            break;
        }
        if shared[2].load(Ordering::Relaxed) as usize >= ex.cfg.max_viol {
            ex.st.errors.entry("stopped: violation limit".into()).or_insert(1);
            break;
        }
        ex.work.push(s);
        if ex.work.len() >= 2 && shared[0].load(Ordering::Relaxed) < a.jobs {
            let prev = shared[0].fetch_add(1, Ordering::SeqCst);
            if prev >= a.jobs {
                shared[0].fetch_sub(1, Ordering::SeqCst);
            } else {
                let id = shared[1].fetch_add(1, Ordering::SeqCst) + 1;
                let all = std::mem::take(&mut ex.work);
                let (mut mine, mut theirs) = (vec![], vec![]);
                for (i, s) in all.into_iter().enumerate() {
                    if i % 2 == 0 {
                        theirs.push(s);
                    } else {
                        mine.push(s);
                    }
                }
                let p = unsafe { fork() };
                if p == 0 {
                    root = false;
                    my_id = id;
                    children.clear();
                    ex.st = Stats::default();
                    ex.s.queries = 0;
                    ex.s.cached = 0;
                    ex.s.time = 0.0;
                    ex.s.unknown = 0;
                    ex.s.max_time = 0.0;
                    ex.work = theirs;
                    nviol = 0;
                    continue;
                } else if p > 0 {
                    children.push(p);
                    ex.work = mine;
                } else {
                    shared[0].fetch_sub(1, Ordering::SeqCst);
                    ex.work = theirs;
                    ex.work.extend(mine);
                }
            }
        }
        let s = ex.work.pop().unwrap();
        ex.run_path(s);
        if ex.st.viols.len() > nviol {
            shared[2].fetch_add((ex.st.viols.len() - nviol) as u32, Ordering::Relaxed);
            nviol = ex.st.viols.len();
        }
    }
    worker_result(&ex, &format!("{dir}/{my_id}"));
    shared[0].fetch_sub(1, Ordering::SeqCst);
    let mut bad = 0;
    for c in children {
        let mut s = 0;
        unsafe { waitpid(c, &mut s, 0) };
        if s != 0 {
            bad += 1;
        }
    }
    if !root {
        unsafe { _exit(if bad > 0 { 1 } else { 0 }) };
    }
    // merge
    let mut n: BTreeMap<String, u64> = BTreeMap::new();
    let mut f: BTreeMap<String, f64> = BTreeMap::new();
    let (mut reach, mut fns) = (BTreeSet::new(), BTreeSet::new());
    let mut asserts: BTreeMap<String, u64> = BTreeMap::new();
    let mut errs: BTreeMap<String, u64> = BTreeMap::new();
    let mut viols: BTreeMap<String, String> = BTreeMap::new();
    let mut samples = vec![];
    for e in std::fs::read_dir(&dir).unwrap() {
        let t = std::fs::read_to_string(e.unwrap().path()).unwrap();
        for l in t.lines() {
            let p: Vec<&str> = l.splitn(3, '\t').collect();
            match p[0] {
                "n" => *n.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap(),
                "f" => *f.entry(p[1].into()).or_default() += p[2].parse::<f64>().unwrap(),
                "m" => {
                    let v = p[2].parse::<f64>().unwrap();
                    let q = f.entry(p[1].into()).or_default();
                    *q = q.max(v);
                }
                "reach" => {
                    reach.insert(p[1].to_string());
                }
                "assert" => *asserts.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap(),
                "fn" => {
                    fns.insert(p[1].to_string());
                }
                "err" => *errs.entry(p[2].into()).or_default() += p[1].parse::<u64>().unwrap(),
                "viol" => {
                    viols.entry(p[1].into()).or_insert(p[2].into());
                }
                "sample" => samples.push(p[1].to_string()),
                _ => {}
            }
        }
    }
    let nparts = std::fs::read_dir(&dir).unwrap().count() as u32;
    let workers = shared[1].load(Ordering::SeqCst) + 1;
    if nparts != workers || bad > 0 {
        errs.insert(format!("{} worker(s) died", (workers - nparts.min(workers)).max(bad)), 1);
    }
    std::fs::remove_dir_all(&dir).unwrap();
    let mut o = String::from("{");
    o += &format!("\"entry\":{},\"wall_s\":{:.2},\"parse_s\":{:.2},\"module_functions\":{},\"workers\":{}", jstr(&a.entry), t0.elapsed().as_secs_f64(), parse_s, nfun, workers);
    for (k, v) in &n {
        o += &format!(",\"{k}\":{v}");
    }
    for (k, v) in &f {
        o += &format!(",\"{k}\":{v:.3}");
    }
    let list = |s: &BTreeSet<String>| s.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",");
    o += &format!(",\"reach\":[{}]", list(&reach));
    o += &format!(",\"asserts\":{{{}}}", asserts.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    o += &format!(",\"errors\":{{{}}}", errs.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    let dem: BTreeSet<String> = fns.iter().map(|x| demangle(x)).collect();
    o += &format!(",\"functions\":[{}]", list(&dem));
    o += &format!(",\"violations\":[{}]", viols.values().cloned().collect::<Vec<_>>().join(","));
    o += &format!(",\"samples\":[{}]}}\n", samples.join(","));
    std::fs::File::create(&a.out).unwrap().write_all(o.as_bytes()).unwrap();
    unsafe { _exit(0) };
}

fn main() {
    let mut a = Args { ll: String::new(), entry: String::new(), out: "/dev/stdout".into(), jobs: 8, time: 600, max_steps: 50_000_000, trace: false, profile: false, rlimit: 400_000_000, ptr_cap: 300, val_cap: 300, samples: 3, max_viol: 6, preempt: 2, params: Default::default() };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("value");
        match x.as_str() {
            "--entry" => a.entry = v(),
            "--out" => a.out = v(),
            "--jobs" => a.jobs = v().parse().unwrap(),
            "--time" => a.time = v().parse().unwrap(),
            "--max-steps" => a.max_steps = v().parse().unwrap(),
            "--rlimit" => a.rlimit = v().parse().unwrap(),
            "--ptr-cap" => a.ptr_cap = v().parse().unwrap(),
            "--val-cap" => a.val_cap = v().parse().unwrap(),
            "--samples" => a.samples = v().parse().unwrap(),
            "--preempt" => a.preempt = v().parse().unwrap(),
            "--max-viol" => a.max_viol = v().parse().unwrap(),
            "--param" => {
                let t = v();
                let (k, n) = t.split_once('=').expect("--param k=v");
                a.params.insert(k.to_string(), n.parse().unwrap());
            }
            "--trace" => a.trace = true,
            "--profile" => a.profile = true,
            _ => a.ll = x,
        }
    }
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(move || run(a)).unwrap();
    h.join().unwrap();
}
