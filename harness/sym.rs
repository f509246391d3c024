//! Interface between harnesses and the symbolic executor (or the native replayer).
extern "C" {
    fn sx_sym(p: *const u8, n: usize, bits: u32) -> u64;
    fn sx_ascii(p: *const u8, n: usize, dst: *mut u8, len: usize, bits: u32);
    fn sx_conc(v: u64) -> u64;
    fn sx_assume(b: u8);
    fn sx_assert(b: u8, p: *const u8, n: usize);
    fn sx_reach(p: *const u8, n: usize);
    fn sx_obs(p: *const u8, n: usize, v: u64);
    fn sx_obs_bytes(p: *const u8, n: usize, d: *const u8, len: usize);
    fn sx_streq(a: *const u8, n: usize, b: *const u8, m: usize) -> u8;
}
/// a fresh symbolic value of `bits` bits (zero extended)
#[inline(never)]
pub fn sym(name: &str, bits: u32) -> u64 { unsafe { sx_sym(name.as_ptr(), name.len(), bits) } }
pub fn conc(v: u64) -> u64 { unsafe { sx_conc(v) } }
#[inline(never)]
pub fn assume(b: bool) { unsafe { sx_assume(b as u8) } }
pub fn assume8(b: u8) { unsafe { sx_assume(b) } }
#[inline(never)]
pub fn check(b: bool, id: &str) { unsafe { sx_assert(b as u8, id.as_ptr(), id.len()) } }
#[inline(never)]
pub fn check8(b: u8, id: &str) { unsafe { sx_assert(b, id.as_ptr(), id.len()) } }
#[inline(never)]
pub fn reach(id: &str) { unsafe { sx_reach(id.as_ptr(), id.len()) } }
#[inline(never)]
pub fn obs(id: &str, v: u64) { unsafe { sx_obs(id.as_ptr(), id.len(), v) } }
#[inline(never)]
pub fn obs_str(id: &str, s: &str) { unsafe { sx_obs_bytes(id.as_ptr(), id.len(), s.as_ptr(), s.len()) } }
/// equality of two strings as one condition, without splitting the path
#[inline(never)]
pub fn streq(a: &str, b: &str) -> u8 { unsafe { sx_streq(a.as_ptr(), a.len(), b.as_ptr(), b.len()) } }
/// symbolic choice of one of n alternatives; the path splits
#[inline(never)]
pub fn choose(name: &str, n: usize) -> usize {
    if n <= 1 { return 0; }
    let mut b = 1; while (1usize << b) < n { b += 1; }
    let v = sym(name, b);
    assume(v < n as u64);
    conc(v) as usize
}
pub fn any_bool(name: &str) -> bool { sym(name, 1) != 0 }
pub fn any_i64(name: &str) -> i64 { sym(name, 64) as i64 }
/// any finite double
pub fn any_f64(name: &str) -> f64 { let b = sym(name, 64); assume((b >> 52) & 0x7ff != 0x7ff); f64::from_bits(b) }
/// string of n symbolic 7-bit characters
#[inline(never)]
pub fn ascii(name: &str, n: usize) -> String {
    let mut v = Vec::<u8>::with_capacity(n + 1);
    unsafe { if n > 0 { sx_ascii(name.as_ptr(), name.len(), v.as_mut_ptr(), n, 7); v.set_len(n); } String::from_utf8_unchecked(v) }
}
/// string of symbolic two-byte characters (U+0080..U+07FF), n of them, after one ASCII character
#[inline(never)]
pub fn nonascii(name: &str, n: usize) -> String {
    let mut v = Vec::<u8>::with_capacity(2 * n + 2);
    v.push(sym(name, 7) as u8);
    for _ in 0..n {
        let a = sym(name, 5); assume(a >= 2);
        v.push(0xC0 | a as u8); v.push(0x80 | sym(name, 6) as u8);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// string of n symbolic four-byte characters (U+1F600..U+1F63F)
#[inline(never)]
pub fn wide(name: &str, n: usize) -> String {
    let mut v = Vec::<u8>::with_capacity(4 * n + 1);
    for _ in 0..n { v.push(0xF0); v.push(0x9F); v.push(0x98); v.push(0x80 | sym(name, 6) as u8); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// one symbolic non-ASCII character: any of two, three or four bytes
#[inline(never)]
pub fn scalar(name: &str) -> String {
    let mut v = Vec::<u8>::with_capacity(5);
    match choose("bytes", 3) {
        0 => { let a = sym(name, 5); assume(a >= 2); v.push(0xC0 | a as u8); }
        1 => { let a = sym(name, 4); let b = sym(name, 6); // neither overlong nor a surrogate
            assume8(((a != 0) | (b >= 0x20)) as u8 & ((a != 13) | (b < 0x20)) as u8); v.push(0xE0 | a as u8); v.push(0x80 | b as u8); }
        _ => { let a = sym(name, 3); let b = sym(name, 6); // U+10000..U+10FFFF
            assume8((a < 5) as u8 & ((a != 0) | (b >= 0x10)) as u8 & ((a != 4) | (b < 0x10)) as u8); v.push(0xF0 | a as u8); v.push(0x80 | b as u8); v.push(0x80 | sym(name, 6) as u8); }
    }
    v.push(0x80 | sym(name, 6) as u8);
    unsafe { String::from_utf8_unchecked(v) }
}
/// the text with one symbolic non-ASCII character before or after it
#[inline(never)]
pub fn odd(name: &str, s: &str) -> String { let c = scalar(name); let mut r = String::new(); if choose("end", 2) == 0 { r.push_str(s); r.push_str(&c); } else { r.push_str(&c); r.push_str(s); } r }
