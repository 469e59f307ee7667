//! Interface to the symbolic executor (and, natively, to the replayer).

extern "C" {
    fn sym_u8() -> u8;
    fn sym_u16() -> u16;
    fn sym_u32() -> u32;
    fn sym_u64() -> u64;
    fn sym_choice(n: u32) -> u32;
    fn sym_case(n: u32) -> u32;
    fn sym_assume(b: bool);
    fn sym_check(b: bool, label: u32);
    fn sym_reach(label: u32);
    fn sym_observe(v: u64);
    fn sym_note(p: *const u8, n: usize);
    fn sym_arm(g: extern "C" fn());
    fn sym_disarm() -> bool;
    fn sym_swap_thread();
    fn sym_scale() -> u32;
}

/// Runs `f` while another thread runs `g`: in the executor, `g` runs as a whole before any access of `f` to shared
/// memory, or after it; natively, in a thread.
pub fn race(g: extern "C" fn(), f: impl FnOnce()) {
    unsafe {
        sym_arm(g);
        f();
        if !sym_disarm() {
            g();
        }
    }
}
/// At the beginning and the end of `g` of `race`.
pub fn other_thread() {
    unsafe { sym_swap_thread() }
}
/// How often to repeat what races: once in the executor, which chooses the schedule, and often natively.
pub fn scale() -> u32 {
    unsafe { sym_scale() }
}

/// An unconstrained byte.
pub fn byte() -> u8 {
    unsafe { sym_u8() }
}
pub fn u16_() -> u16 {
    unsafe { sym_u16() }
}
pub fn u32_() -> u32 {
    unsafe { sym_u32() }
}
pub fn u64_() -> u64 {
    unsafe { sym_u64() }
}
/// A choice in `0..n`, explored exhaustively.
pub fn choice(n: u32) -> u32 {
    unsafe { sym_choice(n) }
}
/// As `choice`, each alternative is a separate exploration job.
pub fn case(n: u32) -> u32 {
    unsafe { sym_case(n) }
}
pub fn assume(b: bool) {
    unsafe { sym_assume(b) }
}
#[inline(never)]
pub fn check(b: bool, label: u32) {
    unsafe { sym_check(b, label) }
}
pub fn reach(label: u32) {
    unsafe { sym_reach(label) }
}
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
/// Human-readable output of the replayer; ignored by the executor.
pub fn note(b: &[u8]) {
    unsafe { sym_note(b.as_ptr(), b.len()) }
}
/// `n` unconstrained bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        v.push(byte());
        i += 1;
    }
    v
}
/// Unconstrained bytes with every length in `min..=max`.
pub fn bytes_upto(min: usize, max: usize) -> Vec<u8> {
    let n = min + choice((max - min + 1) as u32) as usize;
    bytes(n)
}
/// A result that the harness restricts itself to.
pub fn need<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(v) => v,
        Err(_) => {
            assume(false);
            loop {}
        }
    }
}
pub fn need_some<T>(r: Option<T>) -> T {
    match r {
        Some(v) => v,
        None => {
            assume(false);
            loop {}
        }
    }
}
/// Branch-free byte comparison, so that an equality becomes one formula.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}
