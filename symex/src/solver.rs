//! Z3 binding (C API) with constraint slicing and a query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_config(c: P);
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_gt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_rem(c: P, a: P, b: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(_: P, e: c_int) { eprintln!("z3 error code {}", e); std::process::abort(); }

pub fn z3_version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

pub enum Ans { Sat(Rc<Vec<(u32, u128)>>), Unsat, Unknown }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub cache_hits: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub retried: u64, pub ms: f64, pub max_ms: f64 }

pub struct Solver {
    c: P,
    s: P,
    bv: HashMap<E, P>,
    bo: HashMap<E, P>,
    cache: HashMap<Vec<E>, Option<Rc<Vec<(u32, u128)>>>>,
    pub stats: Stats,
}

impl Drop for Solver {
    fn drop(&mut self) { unsafe { Z3_solver_dec_ref(self.c, self.s); Z3_del_context(self.c); } }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new(timeout_ms.to_string()).unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            // reference counting stays automatic (plain context): all terms live as long as the harness run
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            Solver { c, s, bv: HashMap::new(), bo: HashMap::new(), cache: HashMap::new(), stats: Stats::default() }
        }
    }
    fn num(&self, w: u16, v: u128) -> P {
        unsafe {
            let so = Z3_mk_bv_sort(self.c, w as c_uint);
            if w <= 64 { Z3_mk_unsigned_int64(self.c, v as u64, so) }
            else { let s = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.c, s.as_ptr(), so) }
        }
    }
    fn fsort(&self, w: u16) -> P { unsafe { if w == 32 { Z3_mk_fpa_sort(self.c, 8, 24) } else { Z3_mk_fpa_sort(self.c, 11, 53) } } }
    fn fp(&mut self, x: &Ctx, e: E) -> P { let w = x.w(e); let b = self.tv(x, e); unsafe { Z3_mk_fpa_to_fp_bv(self.c, b, self.fsort(w)) } }

    pub fn tb(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.bo.get(&e) { return p; }
        let n = x.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => if x.as_const(e) == Some(1) { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Eq => if x.w(n.a) == 1 { let a = self.tb(x, n.a); let b = self.tb(x, n.b); Z3_mk_eq(c, a, b) } else { let a = self.tv(x, n.a); let b = self.tv(x, n.b); Z3_mk_eq(c, a, b) },
                Op::Ult => { let a = self.tv(x, n.a); let b = self.tv(x, n.b); Z3_mk_bvult(c, a, b) }
                Op::Ule => { let a = self.tv(x, n.a); let b = self.tv(x, n.b); Z3_mk_bvule(c, a, b) }
                Op::Slt => { let a = self.tv(x, n.a); let b = self.tv(x, n.b); Z3_mk_bvslt(c, a, b) }
                Op::Sle => { let a = self.tv(x, n.a); let b = self.tv(x, n.b); Z3_mk_bvsle(c, a, b) }
                Op::And => { let v = [self.tb(x, n.a), self.tb(x, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Op::Or => { let v = [self.tb(x, n.a), self.tb(x, n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Op::Xor => { let a = self.tb(x, n.a); if x.as_const(n.b) == Some(1) { Z3_mk_not(c, a) } else { let b = self.tb(x, n.b); Z3_mk_xor(c, a, b) } }
                Op::Ite => { let a = self.tb(x, n.a); let b = self.tb(x, n.b); let d = self.tb(x, n.c); Z3_mk_ite(c, a, b, d) }
                Op::FCmp => {
                    let a = self.fp(x, n.a); let b = self.fp(x, n.b);
                    let mut v = vec![Z3_mk_false(c)];
                    if n.c & 1 != 0 { v.push(Z3_mk_fpa_eq(c, a, b)); }
                    if n.c & 2 != 0 { v.push(Z3_mk_fpa_gt(c, a, b)); }
                    if n.c & 4 != 0 { v.push(Z3_mk_fpa_lt(c, a, b)); }
                    if n.c & 8 != 0 { v.push(Z3_mk_fpa_is_nan(c, a)); v.push(Z3_mk_fpa_is_nan(c, b)); }
                    Z3_mk_or(c, v.len() as c_uint, v.as_ptr())
                }
                _ => { let b = self.tv(x, e); Z3_mk_eq(c, b, self.num(1, 1)) }
            }
        };
        unsafe { Z3_inc_ref(c, r); }
        self.bo.insert(e, r);
        r
    }
    pub fn tv(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) { return p; }
        let n = x.n(e);
        let c = self.c;
        macro_rules! b2 { ($f:ident) => {{ let a = self.tv(x, n.a); let b = self.tv(x, n.b); $f(c, a, b) }} }
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.w, x.as_const(e).unwrap()),
                Op::Sym => Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), Z3_mk_bv_sort(c, n.w as c_uint)),
                Op::Add => b2!(Z3_mk_bvadd),
                Op::Sub => b2!(Z3_mk_bvsub),
                Op::Mul => b2!(Z3_mk_bvmul),
                Op::UDiv => b2!(Z3_mk_bvudiv),
                Op::SDiv => b2!(Z3_mk_bvsdiv),
                Op::URem => b2!(Z3_mk_bvurem),
                Op::SRem => b2!(Z3_mk_bvsrem),
                Op::Shl => b2!(Z3_mk_bvshl),
                Op::LShr => b2!(Z3_mk_bvlshr),
                Op::AShr => b2!(Z3_mk_bvashr),
                Op::And => b2!(Z3_mk_bvand),
                Op::Or => b2!(Z3_mk_bvor),
                Op::Xor => b2!(Z3_mk_bvxor),
                Op::Concat => b2!(Z3_mk_concat),
                Op::Extract => { let a = self.tv(x, n.a); Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, a) }
                Op::ZExt => { let a = self.tv(x, n.a); Z3_mk_zero_ext(c, (n.w - x.w(n.a)) as c_uint, a) }
                Op::SExt => { let a = self.tv(x, n.a); Z3_mk_sign_ext(c, (n.w - x.w(n.a)) as c_uint, a) }
                Op::Ite => { let a = self.tb(x, n.a); let b = self.tv(x, n.b); let d = self.tv(x, n.c); Z3_mk_ite(c, a, b, d) }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
                    let a = self.fp(x, n.a); let b = self.fp(x, n.b); let rm = Z3_mk_fpa_rne(c);
                    let f = match n.op { Op::FAdd => Z3_mk_fpa_add(c, rm, a, b), Op::FSub => Z3_mk_fpa_sub(c, rm, a, b), Op::FMul => Z3_mk_fpa_mul(c, rm, a, b), Op::FDiv => Z3_mk_fpa_div(c, rm, a, b), _ => Z3_mk_fpa_rem(c, a, b) };
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::SiToFp => { let a = self.tv(x, n.a); Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, self.fsort(n.w))) }
                Op::UiToFp => { let a = self.tv(x, n.a); Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, self.fsort(n.w))) }
                Op::FpToSi => { let a = self.fp(x, n.a); Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), a, n.w as c_uint) }
                Op::FpToUi => { let a = self.fp(x, n.a); Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), a, n.w as c_uint) }
                Op::FRound => { let a = self.fp(x, n.a); let rm = match n.c { 0 => Z3_mk_fpa_rtn(c), 1 => Z3_mk_fpa_rtp(c), 2 => Z3_mk_fpa_rtz(c), 3 => Z3_mk_fpa_rne(c), _ => Z3_mk_fpa_rna(c) }; Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, a)) }
                Op::FpCast => { let a = self.fp(x, n.a); Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, self.fsort(n.w))) }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FCmp => { let b = self.tb(x, e); Z3_mk_ite(c, b, self.num(1, 1), self.num(1, 0)) }
            }
        };
        unsafe { Z3_inc_ref(c, r); }
        self.bv.insert(e, r);
        r
    }

    /// Is `pc /\ cond` satisfiable?  Only the constraints that share symbols with `cond`
    /// (transitively) are sent; the rest of `pc` is satisfiable by itself (path invariant).
    pub fn check(&mut self, x: &Ctx, pc: &[E], cond: E) -> Ans {
        if let Some(k) = x.as_const(cond) { return if k == 1 { Ans::Sat(Rc::new(vec![])) } else { Ans::Unsat }; }
        let mut inset = vec![false; x.syms.len()];
        for &s in x.symsets[cond as usize].iter() { inset[s as usize] = true; }
        let mut used = vec![false; pc.len()];
        let mut key: Vec<E> = vec![cond];
        loop {
            let mut ch = false;
            for (i, &p) in pc.iter().enumerate() {
                if used[i] { continue; }
                let ss = &x.symsets[p as usize];
                if ss.iter().any(|&s| inset[s as usize]) {
                    used[i] = true; ch = true;
                    key.push(p);
                    for &s in ss.iter() { inset[s as usize] = true; }
                }
            }
            if !ch { break; }
        }
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return match r { Some(m) => Ans::Sat(m.clone()), None => Ans::Unsat };
        }
        let t = Instant::now();
        let ans = unsafe {
            // terms are built at scope level 0, so that they outlive the pop below
            let ts: Vec<P> = key.iter().map(|&k| self.tb(x, k)).collect();
            Z3_solver_push(self.c, self.s);
            for &b in &ts { Z3_solver_assert(self.c, self.s, b); }
            let mut r = Z3_solver_check(self.c, self.s);
            let mut who = self.s;
            if r == 0 { // once more, preprocessed and not incremental, with more time
                who = Z3_mk_solver(self.c);
                Z3_solver_inc_ref(self.c, who);
                let p = Z3_mk_params(self.c);
                Z3_params_inc_ref(self.c, p);
                Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, b"timeout\0".as_ptr() as *const _), 90_000);
                Z3_solver_set_params(self.c, who, p);
                Z3_params_dec_ref(self.c, p);
                for &b in &ts { Z3_solver_assert(self.c, who, b); }
                r = Z3_solver_check(self.c, who);
                self.stats.retried += 1;
            }
            let a = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, who);
                    Z3_model_inc_ref(self.c, m);
                    let mut v = vec![];
                    for (i, &b) in inset.iter().enumerate() {
                        if !b { continue; }
                        let w = x.syms[i].w;
                        let cst = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i as c_int), Z3_mk_bv_sort(self.c, w as c_uint));
                        let mut out: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, cst, true, &mut out) {
                            let s = CStr::from_ptr(Z3_get_numeral_string(self.c, out)).to_str().unwrap();
                            v.push((i as u32, s.parse::<u128>().unwrap()));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Ans::Sat(Rc::new(v))
                }
                -1 => Ans::Unsat,
                _ => Ans::Unknown,
            };
            if who != self.s { Z3_solver_dec_ref(self.c, who); }
            Z3_solver_pop(self.c, self.s, 1);
            a
        };
        let ms = t.elapsed().as_secs_f64() * 1e3;

        self.stats.queries += 1;
        self.stats.ms += ms;
        if ms > self.stats.max_ms { self.stats.max_ms = ms; }
        match &ans {
            Ans::Sat(m) => { self.stats.sat += 1; self.cache.insert(key, Some(m.clone())); }
            Ans::Unsat => { self.stats.unsat += 1; self.cache.insert(key, None); }
            Ans::Unknown => { self.stats.unknown += 1; }
        }
        ans
    }
}
