//! Plain-loop equivalents of two std/memchr routines whose optimised versions use
//! CPU feature detection or word tricks; the engine redirects calls to these.

#[no_mangle]
pub fn sym_stub_memchr_raw(n: u8, start: *const u8, end: *const u8) -> Option<*const u8> {
    let mut p = start;
    while p != end {
        if unsafe { *p } == n {
            return Some(p);
        }
        p = unsafe { p.add(1) };
    }
    None
}

#[no_mangle]
pub fn sym_stub_memchr(x: u8, text: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < text.len() {
        if text[i] == x {
            return Some(i);
        }
        i += 1;
    }
    None
}
