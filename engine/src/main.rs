//! symex: bounded symbolic execution of LLVM IR with Z3.
//!
//! usage: symex --ll FILE --out DIR --harness h1,h2,.. [options]
//!
//! Every harness is a zero-argument exported function.  A harness may call
//! `sym_case(n)` to split itself into n independently explored cases; cases run
//! in parallel (one forked process each).

mod exec;
mod expr;
mod ir;
mod z3;

use exec::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn alarm(seconds: u32) -> u32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn usleep(us: u32) -> i32;
    fn getpid() -> i32;
}

/// State shared by the scheduler and all exploring processes.
struct Shared {
    /// unused processor slots
    free: std::sync::atomic::AtomicI64,
    /// cases not yet started
    queued: std::sync::atomic::AtomicI64,
}

static mut SHARED: *const Shared = std::ptr::null();
static mut IS_CHILD: bool = false;
static mut SPLIT_TICK: u32 = 0;

fn shared() -> &'static Shared {
    unsafe { &*SHARED }
}

fn take_slot() -> bool {
    let f = &shared().free;
    let mut v = f.load(SeqCst);
    while v > 0 {
        match f.compare_exchange(v, v - 1, SeqCst, SeqCst) {
            Ok(_) => return true,
            Err(n) => v = n,
        }
    }
    false
}

/// Called by an exploration with pending work: fork if a processor is idle.
fn split() -> Split {
    unsafe {
        SPLIT_TICK += 1;
        if SPLIT_TICK < 16 {
            return Split::No;
        }
        SPLIT_TICK = 0;
    }
    if shared().queued.load(SeqCst) > 0 || !take_slot() {
        return Split::No;
    }
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe { IS_CHILD = true };
        watchdog();
        Split::Child
    } else if pid < 0 {
        shared().free.fetch_add(1, SeqCst);
        Split::No
    } else {
        Split::Parent
    }
}

static mut LATEST: Option<Instant> = None;

/// End this process if it does not notice its deadline.
fn watchdog() {
    unsafe {
        if let Some(t) = LATEST {
            alarm(t.saturating_duration_since(Instant::now()).as_secs() as u32 + 110);
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn nums<T: std::fmt::Display>(v: &[T]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}

#[derive(Clone)]
struct Cfg {
    ll: String,
    out: String,
    harness: Vec<String>,
    jobs: usize,
    job_time: f64,
    total_time: f64,
    seed: u64,
    z3_every: u64,
    z3_all: bool,
    z3_timeout: u32,
    max_steps: u64,
    max_depth: usize,
    samples: usize,
    only_case: Option<u64>,
    prof: bool,
    script: Option<Vec<u64>>,
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let r = h.join().unwrap_or(70);
    std::process::exit(r);
}

fn real_main() -> i32 {
    let mut cfg = Cfg {
        ll: String::new(),
        out: "out".into(),
        harness: vec![],
        jobs: 8,
        job_time: 600.0,
        total_time: 840.0,
        seed: 1,
        z3_every: 4096,
        z3_all: false,
        z3_timeout: 60_000,
        max_steps: 200_000_000,
        max_depth: 600,
        samples: 3,
        only_case: None,
        prof: false,
        script: None,
    };
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < args.len() {
        let a = args[i].as_str();
        let mut nxt = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--ll" => cfg.ll = nxt(),
            "--out" => cfg.out = nxt(),
            "--harness" => cfg.harness = nxt().split(',').map(|s| s.to_string()).collect(),
            "--jobs" => cfg.jobs = nxt().parse().unwrap(),
            "--job-time" => cfg.job_time = nxt().parse().unwrap(),
            "--total-time" => cfg.total_time = nxt().parse().unwrap(),
            "--seed" => cfg.seed = nxt().parse().unwrap(),
            "--z3-every" => cfg.z3_every = nxt().parse().unwrap(),
            "--z3-all" => cfg.z3_all = true,
            "--z3-timeout" => cfg.z3_timeout = nxt().parse().unwrap(),
            "--max-steps" => cfg.max_steps = nxt().parse().unwrap(),
            "--max-depth" => cfg.max_depth = nxt().parse().unwrap(),
            "--samples" => cfg.samples = nxt().parse().unwrap(),
            "--case" => cfg.only_case = Some(nxt().parse().unwrap()),
            "--inputs" => cfg.script = Some(nxt().split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()),
            "--prof" => cfg.prof = true,
            _ => {
                eprintln!("unknown option {}", a);
                return 64;
            }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&cfg.ll).expect("read ll");
    let mut m = ir::Module::parse(text);
    // addresses: constants first, then mutable globals
    let nconst = m.globals.iter().filter(|g| g.constant && !g.external).count() as u64;
    let (mut ci, mut mi) = (0u64, 0u64);
    for g in m.globals.iter_mut() {
        if g.constant && !g.external {
            ci += 1;
            g.addr = ci << 32;
        } else {
            mi += 1;
            g.addr = (nconst + mi) << 32;
        }
    }
    let mut consts = vec![];
    let mut init_mem = vec![];
    for g in &m.globals {
        let o = Rc::new(Obj { data: m.global_bytes(g), sym: vec![], stack: false });
        if g.constant && !g.external {
            consts.push(o);
        } else {
            init_mem.push(Some(o));
        }
    }
    eprintln!(
        "symex: loaded {} functions, {} globals in {:.2}s",
        m.funcs.len(),
        m.globals.len(),
        t0.elapsed().as_secs_f64()
    );
    std::fs::create_dir_all(&cfg.out).unwrap();

    // start from an empty result directory
    for e in std::fs::read_dir(&cfg.out).unwrap().flatten() {
        if e.path().extension().is_some_and(|x| x == "json") {
            let _ = std::fs::remove_file(e.path());
        }
    }
    unsafe {
        SHARED = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared;
    }
    shared().free.store(cfg.jobs as i64, SeqCst);

    // job scheduling
    let mut queue: VecDeque<(String, Option<u64>)> = cfg.harness.iter().map(|h| (h.clone(), cfg.only_case)).collect();
    let mut running: HashMap<i32, (String, Option<u64>, Instant)> = HashMap::new();
    let mut failed = 0;
    while !queue.is_empty() || !running.is_empty() {
        shared().queued.store(queue.len() as i64, SeqCst);
        while !queue.is_empty() && take_slot() {
            let (h, c) = queue.pop_front().unwrap();
            shared().queued.store(queue.len() as i64, SeqCst);
            let path = job_path(&cfg, &h, c);
            std::io::stdout().flush().ok();
            let pid = unsafe { fork() };
            if pid == 0 {
                let code = job(&cfg, &m, consts.clone(), init_mem.clone(), &h, c, &path, t0);
                shared().free.fetch_add(1, SeqCst);
                // wait for the copies this exploration was split into
                let mut bad = code;
                let mut status = 0i32;
                while unsafe { waitpid(-1, &mut status, 0) } > 0 {
                    if status != 0 {
                        bad = 66;
                    }
                }
                unsafe { _exit(bad) }
            }
            running.insert(pid, (h, c, Instant::now()));
        }
        let mut status = 0i32;
        let pid = unsafe { waitpid(-1, &mut status, if queue.is_empty() { 0 } else { 1 }) };
        if pid == 0 {
            unsafe { usleep(2000) };
            continue;
        }
        if pid < 0 {
            break;
        }
        if let Some((h, c, t)) = running.remove(&pid) {
            let code = if status & 0x7f == 0 { (status >> 8) & 0xff } else { 128 + (status & 0x7f) };
            if code >= 128 {
                shared().free.fetch_add(1, SeqCst);
            }
            let path = job_path(&cfg, &h, c);
            match code {
                0 => {
                    if std::env::var("SYMEX_VERBOSE").is_ok() {
                        eprintln!("done {} {:?} {:.1}s", h, c, t.elapsed().as_secs_f64());
                    }
                }
                10 => {
                    // discovered cases
                    let n: u64 = std::fs::read_to_string(&path).unwrap().trim().parse().unwrap();
                    let _ = std::fs::remove_file(&path);
                    for k in 0..n {
                        queue.push_back((h.clone(), Some(k)));
                    }
                }
                _ => {
                    failed += 1;
                    eprintln!("symex: job {} {:?} failed with status {}", h, c, code);
                    std::fs::write(
                        format!("{}.crash.json", path),
                        format!(
                            "{{\"harness\":\"{}\",\"case\":{},\"crash\":{},\"wall_s\":{:.3}}}",
                            h,
                            c.map(|k| k as i64).unwrap_or(-1),
                            code,
                            t.elapsed().as_secs_f64()
                        ),
                    )
                    .unwrap();
                }
            }
        }
    }
    let mut results: Vec<String> = vec![];
    for e in std::fs::read_dir(&cfg.out).unwrap().flatten() {
        let p = e.path();
        if p.extension().is_some_and(|x| x == "json") {
            results.push(p.to_string_lossy().into_owned());
        }
    }
    results.sort();
    let mut f = std::fs::File::create(format!("{}/index.json", cfg.out)).unwrap();
    let l: Vec<String> = results.iter().map(|r| format!("\"{}\"", esc(r))).collect();
    write!(f, "[{}]", l.join(",\n")).unwrap();
    if failed > 0 {
        return 3;
    }
    0
}

fn job_path(cfg: &Cfg, h: &str, c: Option<u64>) -> String {
    match c {
        Some(c) => format!("{}/{}.{}.json", cfg.out, h, c),
        None => format!("{}/{}.json", cfg.out, h),
    }
}

#[allow(clippy::too_many_arguments)]
fn job(
    cfg: &Cfg,
    m: &ir::Module,
    consts: Vec<Rc<Obj>>,
    init_mem: Vec<Option<Rc<Obj>>>,
    h: &str,
    case: Option<u64>,
    path: &str,
    t_start: Instant,
) -> i32 {
    let t0 = Instant::now();
    let dl = (t0 + Duration::from_secs_f64(cfg.job_time)).min(t_start + Duration::from_secs_f64(cfg.total_time));
    unsafe { LATEST = Some(dl) };
    watchdog();
    let limits = Limits {
        max_steps_path: cfg.max_steps,
        max_depth: cfg.max_depth,
        deadline: Some(dl),
        max_paths: u64::MAX,
        z3_every: cfg.z3_every,
    };
    let mut e = Engine::new(m, consts, limits, cfg.z3_timeout);
    e.case = case;
    e.sample_max = cfg.samples;
    e.z3_all = cfg.z3_all;
    e.prof_on = cfg.prof;
    e.script = cfg.script.clone();
    e.rng ^= cfg.seed.wrapping_mul(0x2545F4914F6CDD1D) ^ case.unwrap_or(0).wrapping_mul(0x9E3779B97F4A7C15);
    if e.rng == 0 {
        e.rng = 1;
    }
    if !m.fmap.contains_key(h) {
        eprintln!("symex: no harness {}", h);
        return 65;
    }
    if cfg.jobs > 1 && cfg.script.is_none() {
        e.splitter = Some(split);
    }
    let st = e.initial(h, init_mem);
    e.explore(st);
    let mut t0 = t0;
    let mut path = path.to_string();
    let child = unsafe { IS_CHILD };
    if child {
        t0 = e.split_at.unwrap_or(t0);
        path = format!("{}.s{}.json", path, unsafe { getpid() });
    }
    let path = &path;
    if let Some(n) = e.cases_discovered {
        std::fs::write(path, format!("{}\n", n)).unwrap();
        return 10;
    }
    if cfg.prof {
        let mut p: Vec<_> = e.prof.iter().collect();
        p.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b), n) in p.into_iter().take(25) {
            eprintln!("{:8} forks in {} bb{}", n, m.funcs[*f as usize].name, b);
        }
    }
    let s = &e.stats;
    let mut o = String::new();
    o.push_str(&format!("{{\"harness\":\"{}\",\"case\":{},", h, case.map(|k| k as i64).unwrap_or(-1)));
    o.push_str(&format!("\"wall_s\":{:.3},", t0.elapsed().as_secs_f64()));
    o.push_str(&format!(
        "\"paths\":{},\"completed\":{},\"assumed_away\":{},\"forks\":{},\"instructions\":{},\"branch_queries\":{},\"dom_unsat\":{},\"dom_sat\":{},\"model_sat\":{},\"enumerated\":{},\"range_unsat\":{},\"z3_branch\":{},\"crosschecked\":{},\"checks\":{},\"check_z3\":{},\"check_static\":{},\"max_depth\":{},\"max_path_steps\":{},\"max_inputs\":{},\"concretizations\":{},",
        s.paths, s.completed, s.assumed_away, s.forks, s.steps, s.branch_queries, s.dom_unsat, s.dom_sat, s.model_sat, s.enumerated, s.range_unsat, s.z3_branch, s.crosschecked, s.checks, s.check_z3, s.check_static, s.max_depth, s.max_path_steps, s.max_vars, s.max_conc
    ));
    o.push_str(&format!(
        "\"z3_queries\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_unknown\":{},\"z3_time\":{:.3},\"z3_max\":{:.3},\"exprs\":{},",
        e.z3.queries, e.z3.sat, e.z3.unsat, e.z3.unknown, e.z3.time, e.z3.max_time, e.x.nodes.len()
    ));
    let reach: BTreeMap<u64, u64> = e.reach.clone();
    let r: Vec<String> = reach
        .iter()
        .map(|(k, v)| {
            if *k >> 40 == 1 {
                format!("\"c{}\":{}", k & 0xffff_ffff, v)
            } else {
                format!("\"r{}\":{}", k, v)
            }
        })
        .collect();
    o.push_str(&format!("\"reach\":{{{}}},", r.join(",")));
    let inc: Vec<String> = e.incomplete.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
    o.push_str(&format!("\"incomplete\":{{{}}},", inc.join(",")));
    let mut fs: Vec<&str> = e.funcs_seen.iter().map(|f| m.funcs[*f as usize].name.as_str()).collect();
    fs.sort_unstable();
    let fl: Vec<String> = fs.iter().map(|f| format!("\"{}\"", esc(f))).collect();
    o.push_str(&format!("\"functions\":[{}],", fl.join(",")));
    let sm: Vec<String> = e
        .samples
        .iter()
        .map(|s| {
            let tr: Vec<String> = s.trace.iter().map(|(k, l)| format!("[{},{}]", k, l)).collect();
            format!("{{\"inputs\":{},\"trace\":[{}]}}", nums(&s.inputs), tr.join(","))
        })
        .collect();
    o.push_str(&format!("\"samples\":[{}],", sm.join(",")));
    let vs: Vec<String> = e
        .violations
        .iter()
        .map(|v| {
            let st: Vec<String> = v.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect();
            format!(
                "{{\"kind\":\"{}\",\"label\":{},\"msg\":\"{}\",\"inputs\":{},\"stack\":[{}]}}",
                v.kind,
                v.label,
                esc(&v.msg),
                nums(&v.inputs),
                st.join(",")
            )
        })
        .collect();
    o.push_str(&format!("\"violations\":[{}]}}", vs.join(",")));
    std::fs::write(path, o).unwrap();
    if child {
        shared().free.fetch_add(1, SeqCst);
        let mut bad = 0;
        let mut status = 0i32;
        while unsafe { waitpid(-1, &mut status, 0) } > 0 {
            if status != 0 {
                bad = 66;
            }
        }
        unsafe { _exit(bad) }
    }
    0
}
