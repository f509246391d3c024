//! Native replay: dlopen the same harness library and run harnesses with recorded inputs.
use std::ffi::{c_char, c_int, c_void, CString};
use std::io::Write;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
    fn fork() -> c_int;
    fn waitpid(p: c_int, st: *mut c_int, o: c_int) -> c_int;
    fn _exit(c: c_int) -> !;
    fn alarm(s: u32) -> u32;
    fn dup2(a: c_int, b: c_int) -> c_int;
}
static mut INPUTS: Vec<Vec<u64>> = Vec::new();
static mut POS: usize = 0;
static mut OUT: Option<std::fs::File> = None;
#[allow(static_mut_refs)]
fn next() -> Vec<u64> { unsafe { let p = POS; POS += 1; match INPUTS.get(p) { Some(v) => v.clone(), None => { say("X inputs exhausted"); _exit(9) } } } }
#[allow(static_mut_refs)]
fn say(s: &str) { unsafe { if let Some(f) = &mut OUT { let _ = writeln!(f, "{}", s); } } }
unsafe fn st(p: *const u8, n: usize) -> String { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() }

#[no_mangle] pub unsafe extern "C" fn sx_sym(_p: *const u8, _n: usize, _bits: u32) -> u64 { next()[0] }
#[no_mangle] pub unsafe extern "C" fn sx_ascii(_p: *const u8, _n: usize, d: *mut u8, len: usize, _bits: u32) { let v = next(); if v.len() != len { say("X length mismatch"); _exit(9) } for i in 0..len { *d.add(i) = v[i] as u8; } }
#[no_mangle] pub unsafe extern "C" fn sx_conc(v: u64) -> u64 { v }
#[no_mangle] pub unsafe extern "C" fn sx_assume(b: u8) { if b & 1 == 0 { say("D assumption"); _exit(0) } }
#[no_mangle] pub unsafe extern "C" fn sx_assert(b: u8, p: *const u8, n: usize) { if b & 1 == 0 { say(&format!("F {}", st(p, n))); _exit(0) } }
#[no_mangle] pub unsafe extern "C" fn sx_reach(_p: *const u8, _n: usize) {}
#[no_mangle] pub unsafe extern "C" fn sx_obs(p: *const u8, n: usize, v: u64) { say(&format!("O {} {}", st(p, n), v)); }
#[no_mangle] pub unsafe extern "C" fn sx_obs_bytes(p: *const u8, n: usize, d: *const u8, len: usize) { let h: String = std::slice::from_raw_parts(d, len).iter().map(|b| format!("{:02x}", b)).collect(); say(&format!("B {} {}", st(p, n), h)); }
#[no_mangle] pub unsafe extern "C" fn sx_streq(a: *const u8, n: usize, b: *const u8, m: usize) -> u8 { (std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, m)) as u8 }

#[used] static KEEP: [unsafe extern "C" fn(u64) -> u64; 1] = [sx_conc];

/// JOBS file: lines "harness|v,v;v;..." ; output per job: "J k", observation lines, "E status"
pub fn main(a: &[String]) {
    let _ = [sx_sym as *const () as usize, sx_ascii as *const () as usize, sx_assume as *const () as usize, sx_assert as *const () as usize, sx_reach as *const () as usize, sx_obs as *const () as usize, sx_obs_bytes as *const () as usize, sx_streq as *const () as usize];
    unsafe {
        let so = CString::new(a[0].as_str()).unwrap();
        let h = dlopen(so.as_ptr(), 2);
        if h.is_null() { eprintln!("dlopen: {}", std::ffi::CStr::from_ptr(dlerror()).to_string_lossy()); std::process::exit(3); }
        let jobs = std::fs::read_to_string(&a[1]).unwrap();
        let mut out = std::fs::File::create(&a[2]).unwrap();
        for (k, line) in jobs.lines().enumerate() {
            let (name, ins) = line.split_once('|').unwrap();
            let cn = CString::new(name).unwrap();
            let f = dlsym(h, cn.as_ptr());
            writeln!(out, "J {}", k).unwrap();
            if f.is_null() { writeln!(out, "E nosym").unwrap(); continue; }
            let p = fork();
            if p == 0 {
                alarm(20);
                if let Ok(n) = std::fs::OpenOptions::new().write(true).open("/dev/null") { use std::os::fd::AsRawFd; dup2(n.as_raw_fd(), 1); if a.get(3).is_none() { dup2(n.as_raw_fd(), 2); } std::mem::forget(n); }
                INPUTS = if ins.is_empty() { vec![] } else { ins.split(';').map(|x| x.split(',').filter(|s| !s.is_empty()).map(|s| s.parse::<u64>().unwrap()).collect()).collect() };
                OUT = Some(out);
                let g: extern "C" fn() = std::mem::transmute(f);
                g();
                _exit(0);
            }
            let mut s = 0;
            waitpid(p, &mut s, 0);
            writeln!(out, "E {}", if s & 0x7f != 0 { format!("signal {}", s & 0x7f) } else { format!("exit {}", (s >> 8) & 0xff) }).unwrap();
        }
    }
}
