//! Character classes of RFC 3501 (and extensions), written down independently of
//! imap-types.

pub fn is_ctl(b: u8) -> bool {
    b <= 0x1f || b == 0x7f
}
/// CHAR = %x01-7F
pub fn is_char(b: u8) -> bool {
    b >= 1 && b <= 0x7f
}
/// atom-specials without resp-specials
fn is_atom_special_base(b: u8) -> bool {
    b == b'(' || b == b')' || b == b'{' || b == b' ' || is_ctl(b) || b == b'%' || b == b'*' || b == b'"' || b == b'\\'
}
/// ATOM-CHAR = any CHAR except atom-specials
pub fn atom_char(b: u8) -> bool {
    is_char(b) && !is_atom_special_base(b) && b != b']'
}
/// ASTRING-CHAR = ATOM-CHAR / resp-specials
pub fn astring_char(b: u8) -> bool {
    atom_char(b) || b == b']'
}
/// any ASTRING-CHAR except "+"
pub fn tag_char(b: u8) -> bool {
    astring_char(b) && b != b'+'
}
/// list-char = ATOM-CHAR / list-wildcards / resp-specials
pub fn list_char(b: u8) -> bool {
    atom_char(b) || b == b'%' || b == b'*' || b == b']'
}
/// TEXT-CHAR = any CHAR except CR and LF
pub fn text_char(b: u8) -> bool {
    is_char(b) && b != b'\r' && b != b'\n'
}
/// CHAR8 = any octet except NUL
pub fn char8(b: u8) -> bool {
    b != 0
}
pub fn all(x: &[u8], f: fn(u8) -> bool) -> bool {
    // branch-free over the data
    let mut ok = true;
    let mut i = 0;
    while i < x.len() {
        ok &= f(x[i]);
        i += 1;
    }
    ok
}
pub fn all1(x: &[u8], f: fn(u8) -> bool) -> bool {
    !x.is_empty() && all(x, f)
}
