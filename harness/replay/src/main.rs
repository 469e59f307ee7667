//! Native replay: `vreplay <harness> <inputs-file>`.
//!
//! Runs one harness of the real code with recorded input values and prints the
//! trace of reach/observe/check events.  Exit codes: 0 completed, 1 a check
//! failed, 3 an assumption was not satisfied, 4 inputs exhausted or bad usage;
//! a panic aborts the process.
use std::io::Write;
use std::sync::Mutex;

static INPUTS: Mutex<(Vec<u64>, usize)> = Mutex::new((Vec::new(), 0));

fn next() -> u64 {
    let mut g = INPUTS.lock().unwrap();
    let i = g.1;
    if i >= g.0.len() {
        println!("EXHAUSTED");
        std::process::exit(4);
    }
    g.1 += 1;
    g.0[i]
}

#[no_mangle]
extern "C" fn sym_u8() -> u8 {
    next() as u8
}
#[no_mangle]
extern "C" fn sym_u16() -> u16 {
    next() as u16
}
#[no_mangle]
extern "C" fn sym_u32() -> u32 {
    next() as u32
}
#[no_mangle]
extern "C" fn sym_u64() -> u64 {
    next()
}
#[no_mangle]
extern "C" fn sym_choice(_n: u32) -> u32 {
    next() as u32
}
#[no_mangle]
extern "C" fn sym_case(_n: u32) -> u32 {
    next() as u32
}
#[no_mangle]
extern "C" fn sym_assume(b: bool) {
    if !b {
        println!("ASSUME");
        std::process::exit(3);
    }
}
#[no_mangle]
extern "C" fn sym_check(b: bool, label: u32) {
    println!("T 2 {}", label);
    if !b {
        println!("CHECKFAIL {}", label);
        std::io::stdout().flush().ok();
        std::process::exit(1);
    }
}
#[no_mangle]
extern "C" fn sym_reach(label: u32) {
    println!("T 0 {}", label);
}
#[no_mangle]
extern "C" fn sym_observe(v: u64) {
    println!("T 1 {}", v);
}
#[no_mangle]
extern "C" fn sym_note(p: *const u8, n: usize) {
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    let s: String = b.iter().flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect();
    println!("N {}", s);
}

static THREAD: Mutex<Option<std::thread::JoinHandle<()>>> = Mutex::new(None);

#[no_mangle]
extern "C" fn sym_arm(g: extern "C" fn()) {
    let go = std::sync::Arc::new(std::sync::Barrier::new(2));
    let b = go.clone();
    *THREAD.lock().unwrap() = Some(std::thread::spawn(move || {
        b.wait();
        g()
    }));
    go.wait();
}
#[no_mangle]
extern "C" fn sym_disarm() -> bool {
    THREAD.lock().unwrap().take().unwrap().join().unwrap();
    true
}
#[no_mangle]
extern "C" fn sym_swap_thread() {}
#[no_mangle]
extern "C" fn sym_scale() -> u32 {
    20000
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 3 {
        eprintln!("usage: vreplay HARNESS INPUTS");
        std::process::exit(4);
    }
    let txt = std::fs::read_to_string(&a[2]).expect("inputs");
    let v: Vec<u64> = txt
        .split(|c: char| !c.is_ascii_digit())
        .filter(|s| !s.is_empty())
        .map(|s| s.parse().unwrap())
        .collect();
    INPUTS.lock().unwrap().0 = v;
    match vharness::lookup(&a[1]) {
        Some(f) => {
            f();
            println!("DONE");
        }
        None => {
            eprintln!("no harness {}", a[1]);
            std::process::exit(4);
        }
    }
}
