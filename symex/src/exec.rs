//! The symbolic executor proper.
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val { K(u64), S(E), W([u64; 2]), A(Rc<[Val]>) }
use Val::*;

fn wide(v: u128) -> Val { W([v as u64, (v >> 64) as u64]) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Normal, Extern,
    Malloc, Alloc, AllocZ, Dealloc, Free, Calloc, Realloc, CRealloc, Memalign,
    Memcpy, Memset, Memcmp, Strlen, Memchr,
    Nop, Assume, Trap, Panic, Abort,
    UMin, UMax, SMin, SMax, Abs, UAddO, USubO, UMulO, SAddO, SSubO, SMulO, UAddS, USubS, SAddS, SSubS,
    FshL, FshR, Ctpop, Cttz, Ctlz, Bswap, Bitrev, IsConst, Expect, UCmp, SCmp, TlsAddr, FAbs, CopySign, FloorLike(u8), FpSat(bool), VecRed(u8), PtrMask,
    RandKeys, HashZero, FMinMax(bool), StrDebug, MakeErr, Position, NlFind, SkipEsc,
    SxSym, SxAscii, SxConc, SxAssume, SxAssert, SxReach, SxObs, SxObsBytes, SxStrEq,
}

pub fn kind_of(name: &str, has_body: bool) -> Kind {
    use Kind::*;
    if let Some(r) = name.strip_prefix("llvm.") {
        let b = r.split('.').next().unwrap();
        return match b {
            "memcpy" | "memmove" => Memcpy,
            "memset" => Memset,
            "lifetime" | "experimental" | "dbg" | "donothing" | "prefetch" | "invariant" | "va_start" | "va_end" => Nop,
            "x86" => if r.contains("pause") || r.contains("xgetbv") { Nop } else { Extern },
            "assume" => Assume,
            "trap" | "ubsantrap" | "debugtrap" => Trap,
            "umin" => UMin, "umax" => UMax, "smin" => SMin, "smax" => SMax, "abs" => Abs,
            "uadd" => if r.contains("overflow") { UAddO } else { UAddS },
            "usub" => if r.contains("overflow") { USubO } else { USubS },
            "sadd" => if r.contains("overflow") { SAddO } else { SAddS },
            "ssub" => if r.contains("overflow") { SSubO } else { SSubS },
            "umul" => UMulO, "smul" => SMulO,
            "fshl" => FshL, "fshr" => FshR, "ctpop" => Ctpop, "cttz" => Cttz, "ctlz" => Ctlz, "bswap" => Bswap, "bitreverse" => Bitrev,
            "is" => IsConst, "expect" => Expect, "ucmp" => UCmp, "scmp" => SCmp, "threadlocal" => TlsAddr,
            "fabs" => FAbs, "maximumnum" | "maxnum" => FMinMax(true), "minimumnum" | "minnum" => FMinMax(false), "copysign" => CopySign, "floor" => FloorLike(0), "ceil" => FloorLike(1), "trunc" => FloorLike(2), "rint" | "nearbyint" | "roundeven" => FloorLike(3), "round" => FloorLike(4), "sqrt" => FloorLike(5),
            "fptosi" => FpSat(true), "fptoui" => FpSat(false),
            "vector" => if r.contains("reduce.or") { VecRed(0) } else if r.contains("reduce.and") { VecRed(1) } else if r.contains("reduce.add") { VecRed(2) } else { Extern },
            "ptrmask" => PtrMask,
            _ => Extern,
        };
    }
    match name {
        "malloc" => return Malloc, "free" => return Free, "calloc" => return Calloc, "realloc" => return CRealloc, "posix_memalign" => return Memalign,
        "memcmp" | "bcmp" => return Memcmp, "strlen" => return Strlen, "memcpy" | "memmove" => return Memcpy, "memset" => return Memset, "memchr" => return Memchr,
        "abort" | "_Exit" | "exit" => return Abort,
        "sx_sym" => return SxSym, "sx_ascii" => return SxAscii, "sx_conc" => return SxConc, "sx_assume" => return SxAssume, "sx_assert" => return SxAssert,
        "sx_reach" => return SxReach, "sx_obs" => return SxObs, "sx_obs_bytes" => return SxObsBytes, "sx_streq" => return SxStrEq,
        _ => {}
    }
    if name.ends_with("___rust_alloc") { return Alloc; }
    if name.ends_with("___rust_alloc_zeroed") { return AllocZ; }
    if name.ends_with("___rust_dealloc") { return Dealloc; }
    if name.ends_with("___rust_realloc") { return Realloc; }
    if name.contains("no_alloc_shim_is_unstable") { return Nop; }
    if name.contains("4core9panicking") || name.ends_with("6option13unwrap_failed") || name.ends_with("6option13expect_failed") || name.contains("6result13unwrap_failed") || name.contains("9panicking18panic_count") && false
        || name.contains("3std9panicking15begin_panic") || name.ends_with("10rust_panic") || name.ends_with("18handle_alloc_error") || name.contains("7raw_vec12handle_error") || name.contains("7raw_vec17capacity_overflow") || name.contains("5slice5index16slice_index_fail") || name.contains("3str16slice_error_fail") { return Panic; }
    if has_body && name.contains("10serde_json5error10make_error") { return MakeErr; }
    // line and column of a parse error: only printed in its text
    if has_body && name.contains("10serde_json4read") && (name.ends_with("8position") || name.ends_with("13peek_position") || name.ends_with("17position_of_index")) { return Position; }
    if has_body && name.contains("9SliceRead14skip_to_escape") { return SkipEsc; }
    if has_body && name.contains("6memchr4arch6x86_646memchr") && name.ends_with("6detect") { return NlFind; }
    if name.contains("hashmap_random_keys") { return RandKeys; }
    // hash values of std's hash maps: all keys share one bucket, found by their equality
    if has_body && name.contains("6random") && name.contains("13DefaultHasher") && name.contains("4hash6Hasher") {
        if name.ends_with("6Hasher6finish") || name.contains("6Hasher6finishC") { return HashZero; }
        if name.contains("6Hasher5writeC") || name.contains("6Hasher9write_strC") || name.ends_with("6Hasher5write") || name.ends_with("6Hasher9write_str") { return Nop; }
    }
    // text of "invalid type: ..." diagnostics: not modelled (nothing is written)
    if has_body && name.ends_with("7Display3fmt") && (name.contains("14JsonUnexpected") || name.contains("2de10Unexpected")) { return StrDebug; }
    if has_body { Normal } else { Extern }
}

#[derive(Clone)]
pub struct Frame { f: &'static Func, ip: u32, regs: Vec<Val>, fobj: u64, ret: u32, edge: Option<&'static Edge> }

#[derive(Clone, Debug)]
pub struct Input { pub name: Rc<str>, pub ascii: bool, pub e: Vec<E> }
#[derive(Clone, Debug)]
pub struct Obs { pub name: Rc<str>, pub bytes: bool, pub v: Vec<E> }

#[derive(Clone)]
pub struct State { frames: Vec<Frame>, mem: Mem, pc: Vec<E>, model: Rc<Vec<u128>>, inputs: Vec<Input>, obs: Vec<Obs>, nsym: u32, instrs: u64 }

pub enum Stop { End, Dead, Err(String), Panic(String) }
type R<T> = Result<T, Stop>;
impl From<MemErr> for Stop { fn from(e: MemErr) -> Stop { Stop::Err(e.0) } }
fn err<T>(s: impl Into<String>) -> R<T> { Err(Stop::Err(s.into())) }

#[derive(Clone, Debug)]
pub struct Trace { pub inputs: Vec<(String, bool, Vec<u128>)>, pub obs: Vec<(String, bool, Vec<u128>)>, pub id: String }

#[derive(Default, Clone, Debug)]
pub struct AssertStat { pub evaluated: u64, pub by_solver: u64, pub syntactic: u64, pub violated: u64 }

pub struct Report {
    pub harness: String, pub paths: u64, pub dead: u64, pub forks: u64, pub instrs: u64, pub incomplete: bool,
    pub asserts: BTreeMap<String, AssertStat>, pub reach: BTreeMap<String, u64>,
    pub violations: Vec<Trace>, pub undecided: Vec<String>, pub samples: Vec<Trace>,
    pub fns: HashSet<u32>, pub solver: Stats, pub wall_ms: f64, pub nodes: usize, pub stubs: BTreeMap<String, u64>, pub max_path: u64,
}

pub struct Cfg { pub fuel: u64, pub max_paths: u64, pub time: Duration, pub samples: usize, pub seed: u64, pub trace: bool, pub deadline: Option<Instant> }

pub struct Engine<'m> {
    m: &'m Module, kinds: &'m [Kind], x: Ctx, sol: Solver, stack: Vec<State>, cfg: &'m Cfg, rep: Report,
    symcache: HashMap<(u32, u16), E>, rng: u64, memo: HashMap<E, u128>, memo_model: *const Vec<u128>, memo_keep: Option<Rc<Vec<u128>>>,
    names: HashMap<Vec<u8>, Rc<str>>,
}

fn m64(w: u16) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
fn sx(v: u64, w: u16) -> i64 { if w >= 64 { v as i64 } else { let s = 64 - w as u32; ((v << s) as i64) >> s } }

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, kinds: &'m [Kind], cfg: &'m Cfg, harness: &str) -> Self {
        Engine {
            m, kinds, x: Ctx::new(), sol: Solver::new(std::env::var("SX_Q").ok().and_then(|x| x.parse().ok()).unwrap_or(12000)), stack: vec![], cfg,
            rep: Report { harness: harness.into(), paths: 0, dead: 0, forks: 0, instrs: 0, incomplete: false, asserts: Default::default(), reach: Default::default(), violations: vec![], undecided: vec![], samples: vec![], fns: Default::default(), solver: Default::default(), wall_ms: 0.0, nodes: 0, stubs: Default::default(), max_path: 0 },
            symcache: HashMap::new(), rng: cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ harness.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)), memo: HashMap::new(), memo_model: std::ptr::null(), memo_keep: None, names: HashMap::new(),
        }
    }
    fn rand(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }

    // ---- values -------------------------------------------------------------------------------
    fn get(&self, fr: &Frame, o: &Opd) -> Val {
        match o { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::C(v) => K(*v), Opd::W(v) => wide(*v), Opd::Agg(v) => A(v.iter().map(|x| self.get(fr, x)).collect()) }
    }
    fn ex(&mut self, v: &Val, w: u16) -> E {
        match v { K(k) => self.x.cst(w, *k as u128), S(e) => { debug_assert_eq!(self.x.w(*e), w); *e } W(p) => self.x.cst(w, p[0] as u128 | (p[1] as u128) << 64), A(_) => panic!("aggregate as scalar") }
    }
    fn val(&self, e: E) -> Val { match self.x.as_const(e) { Some(v) => if self.x.w(e) > 64 { wide(v) } else { K(v as u64) }, None => S(e) } }
    fn conc(v: &Val) -> Option<u128> { match v { K(k) => Some(*k as u128), W(p) => Some(p[0] as u128 | (p[1] as u128) << 64), _ => None } }
    fn mkval(v: u128, w: u16) -> Val { let v = v & mask(w); if w > 64 { wide(v) } else { K(v as u64) } }

    fn bin(&mut self, op: Bop, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (K(x), K(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            let r = match op {
                Bop::Add => x.wrapping_add(y) & m, Bop::Sub => x.wrapping_sub(y) & m, Bop::Mul => x.wrapping_mul(y) & m,
                Bop::And => x & y, Bop::Or => x | y, Bop::Xor => x ^ y,
                Bop::Shl => if y >= w as u64 { 0 } else { (x << y) & m }, Bop::LShr => if y >= w as u64 { 0 } else { x >> y },
                Bop::AShr => { let s = sx(x, w); ((if y >= w as u64 { s >> 63 } else { s >> y }) as u64) & m }
                Bop::UDiv => { if y == 0 { return err("division by zero"); } x / y } Bop::URem => { if y == 0 { return err("division by zero"); } x % y }
                Bop::SDiv => { if y == 0 { return err("division by zero"); } (sx(x, w).wrapping_div(sx(y, w)) as u64) & m } Bop::SRem => { if y == 0 { return err("division by zero"); } (sx(x, w).wrapping_rem(sx(y, w)) as u64) & m }
                Bop::FAdd | Bop::FSub | Bop::FMul | Bop::FDiv | Bop::FRem => {
                    let o = match op { Bop::FAdd => Op::FAdd, Bop::FSub => Op::FSub, Bop::FMul => Op::FMul, Bop::FDiv => Op::FDiv, _ => Op::FRem };
                    fp_eval(Node { op: o, w, a: 0, b: 0, c: 0 }, w, x as u128, y as u128) as u64
                }
            };
            return Ok(K(r));
        }
        let (p, q) = (self.ex(a, w), self.ex(b, w));
        let o = match op {
            Bop::Add => Op::Add, Bop::Sub => Op::Sub, Bop::Mul => Op::Mul, Bop::UDiv => Op::UDiv, Bop::SDiv => Op::SDiv, Bop::URem => Op::URem, Bop::SRem => Op::SRem,
            Bop::And => Op::And, Bop::Or => Op::Or, Bop::Xor => Op::Xor, Bop::Shl => Op::Shl, Bop::LShr => Op::LShr, Bop::AShr => Op::AShr,
            Bop::FAdd => Op::FAdd, Bop::FSub => Op::FSub, Bop::FMul => Op::FMul, Bop::FDiv => Op::FDiv, Bop::FRem => Op::FRem,
        };
        if op == Bop::FRem { return if self.x.as_const(q) == Some(of_f(w, 1.0)) { let e = self.x.fmod1(p); Ok(self.val(e)) } else { err("remainder of a symbolic float") }; }
        if matches!(op, Bop::FAdd | Bop::FSub | Bop::FMul | Bop::FDiv | Bop::FRem) { let e = self.x.raw(o, w, p, q, 0); return Ok(self.val(e)); }
        let e = self.x.bin(o, p, q);
        Ok(self.val(e))
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        if let (K(x), K(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (s, t) = (sx(x, w), sx(y, w));
            return K(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => s > t, Pred::Sge => s >= t, Pred::Slt => s < t, Pred::Sle => s <= t } as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match p {
            Pred::Eq => self.x.bin(Op::Eq, x, y), Pred::Ne => { let e = self.x.bin(Op::Eq, x, y); self.x.not(e) }
            Pred::Ugt => self.x.bin(Op::Ult, y, x), Pred::Uge => self.x.bin(Op::Ule, y, x), Pred::Ult => self.x.bin(Op::Ult, x, y), Pred::Ule => self.x.bin(Op::Ule, x, y),
            Pred::Sgt => self.x.bin(Op::Slt, y, x), Pred::Sge => self.x.bin(Op::Sle, y, x), Pred::Slt => self.x.bin(Op::Slt, x, y), Pred::Sle => self.x.bin(Op::Sle, x, y),
        };
        self.val(e)
    }
    fn cast(&mut self, k: Cast, w1: u16, w2: u16, a: &Val) -> Val {
        if let Some(v) = Self::conc(a) {
            let r = match k {
                Cast::Trunc | Cast::ZExt | Cast::Bit => v, Cast::SExt => sext(v, w1) as u128,
                Cast::FpToSi => fp_eval(Node { op: Op::FpToSi, w: w2, a: 0, b: 0, c: 0 }, w1, v, 0), Cast::FpToUi => fp_eval(Node { op: Op::FpToUi, w: w2, a: 0, b: 0, c: 0 }, w1, v, 0),
                Cast::SiToFp => fp_eval(Node { op: Op::SiToFp, w: w2, a: 0, b: 0, c: 0 }, w1, v, 0), Cast::UiToFp => fp_eval(Node { op: Op::UiToFp, w: w2, a: 0, b: 0, c: 0 }, w1, v, 0),
                Cast::FpCast => fp_eval(Node { op: Op::FpCast, w: w2, a: 0, b: 0, c: 0 }, w1, v, 0),
            };
            return Self::mkval(r, w2);
        }
        let e = self.ex(a, w1);
        let r = match k {
            Cast::Trunc => self.x.trunc(e, w2), Cast::ZExt => self.x.zext(e, w2), Cast::SExt => self.x.sext(e, w2), Cast::Bit => e,
            Cast::FpToSi => self.x.raw(Op::FpToSi, w2, e, 0, 0), Cast::FpToUi => self.x.raw(Op::FpToUi, w2, e, 0, 0),
            Cast::SiToFp => self.x.raw(Op::SiToFp, w2, e, 0, 0), Cast::UiToFp => self.x.raw(Op::UiToFp, w2, e, 0, 0), Cast::FpCast => self.x.raw(Op::FpCast, w2, e, 0, 0),
        };
        self.val(r)
    }

    // ---- solver interface ---------------------------------------------------------------------
    fn ev(&mut self, model: &Rc<Vec<u128>>, e: E) -> u128 {
        if self.memo_model != Rc::as_ptr(model) { self.memo.clear(); self.memo_model = Rc::as_ptr(model); self.memo_keep = Some(model.clone()); }
        self.x.eval(e, model, &mut self.memo)
    }
    fn upd(model: &Rc<Vec<u128>>, m: &[(u32, u128)], nsyms: usize) -> Rc<Vec<u128>> {
        let mut v = (**model).clone();
        if v.len() < nsyms { v.resize(nsyms, 0); }
        for &(s, k) in m { v[s as usize] = k; }
        Rc::new(v)
    }
    /// May `c` be false/true on this path?  Forks the state for the side the model does not take
    /// (the fork re-executes the current instruction with the added constraint).
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.x.as_const(c) { return Ok(k == 1); }
        let nc = self.x.not(c);
        if st.pc.contains(&c) { return Ok(true); }
        if st.pc.contains(&nc) { return Ok(false); }
        let taken = self.ev(&st.model.clone(), c) == 1;
        let (lit, other) = if taken { (c, nc) } else { (nc, c) };
        match self.sol.check(&self.x, &st.pc, other) {
            Ans::Unsat => {}
            Ans::Sat(m) => {
                let mut s2 = st.clone();
                s2.model = Self::upd(&st.model, &m, self.x.syms.len());
                s2.pc.push(other);
                self.rep.forks += 1;
                self.stack.push(s2);
                st.pc.push(lit);
            }
            Ans::Unknown => return err("solver gave no answer (branch)"),
        }
        Ok(taken)
    }
    fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(k) = self.x.as_const(e) { return Ok(k); }
        let v = self.ev(&st.model.clone(), e);
        let k = self.x.cst(self.x.w(e), v);
        let c = self.x.bin(Op::Eq, e, k);
        self.decide(st, c)?;
        Ok(v)
    }
    fn cv(&mut self, st: &mut State, v: &Val) -> R<u64> { match v { K(k) => Ok(*k), S(e) => Ok(self.concretize(st, *e)? as u64), W(p) => Ok(p[0]), A(_) => err("aggregate where a scalar is needed") } }

    // ---- memory -------------------------------------------------------------------------------
    fn load_bytes_at(&mut self, st: &State, a: u64, n: usize, bits: u16) -> R<Val> {
        let o = match st.mem.obj(self.m, a, n as u64)? { Ref::O(o) => o, Ref::G(g) => { let s = Mem::off(a); return Ok(Self::le(&g[s..s + n], bits)); } };
        let s = Mem::off(a);
        match &o.sym {
            Some(v) if v[s..s + n].iter().any(|&x| x != 0) => {
                let parts: Vec<(u8, u32)> = (s..s + n).map(|i| (o.data[i], v[i])).collect();
                let mut e = None;
                for (b, y) in parts {
                    let p = if y == 0 { self.x.cst(8, b as u128) } else { y - 1 };
                    e = Some(match e { None => p, Some(l) => self.x.concat(p, l) });
                }
                let e = self.x.trunc(e.unwrap(), bits);
                Ok(self.val(e))
            }
            _ => Ok(Self::le(&o.data[s..s + n], bits)),
        }
    }
    fn le(b: &[u8], bits: u16) -> Val {
        if b.len() <= 8 { let mut k = [0u8; 8]; k[..b.len()].copy_from_slice(b); K(u64::from_le_bytes(k) & m64(bits)) }
        else { let mut k = [0u8; 16]; k[..b.len()].copy_from_slice(b); Self::mkval(u128::from_le_bytes(k), bits) }
    }
    fn loadi(&mut self, st: &mut State, p: &Val, n: usize, bits: u16) -> R<Val> {
        match p {
            K(a) => self.load_bytes_at(st, *a, n, bits),
            S(e) => {
                // table lookup: every feasible address lies inside one small object
                let e = *e;
                let a0 = self.ev(&st.model.clone(), e) as u64;
                let size = st.mem.size_of(self.m, a0).unwrap_or(0);
                let mut stride = 1u64;
                let nd = self.x.n(e);
                if nd.op == Op::Add { let i = self.x.n(nd.a); if i.op == Op::Concat { if let Some(0) = self.x.as_const(i.b) { stride = 1u64 << self.x.w(i.b).min(6); } } }
                if size >= n as u64 && size / stride <= 600 {
                    let base = (a0 & !0xffff_ffff) + BASE;
                    let (lo, hi) = (self.x.cst(64, base as u128), self.x.cst(64, (base + size - n as u64) as u128));
                    let c1 = self.x.bin(Op::Ult, e, lo); let c2 = self.x.bin(Op::Ult, hi, e); let c = self.x.bin(Op::Or, c1, c2);
                    if let Ans::Unsat = self.sol.check(&self.x, &st.pc, c) {
                        let first = (a0 - base) % stride;
                        let mut r: Option<E> = None;
                        let mut o = first;
                        while o + n as u64 <= size {
                            let v = self.load_bytes_at(st, base + o, n, bits)?; let v = self.ex(&v, bits);
                            r = Some(match r { None => v, Some(x) => { let k = self.x.cst(64, (base + o) as u128); let c = self.x.bin(Op::Eq, e, k); self.x.ite(c, v, x) } });
                            o += stride;
                        }
                        return Ok(self.val(r.unwrap()));
                    }
                }
                let a = self.concretize(st, e)? as u64;
                self.load_bytes_at(st, a, n, bits)
            }
            _ => err("load address"),
        }
    }
    fn storei(&mut self, st: &mut State, a: u64, n: usize, bits: u16, v: &Val) -> R<()> {
        match v {
            K(_) | W(_) => {
                let k = Self::conc(v).unwrap();
                let o = st.mem.obj_mut(self.m, a, n as u64)?;
                let s = Mem::off(a);
                o.data[s..s + n].copy_from_slice(&k.to_le_bytes()[..n]);
                if let Some(y) = &mut o.sym { y[s..s + n].fill(0); }
                Ok(())
            }
            S(e) => {
                let full = self.x.zext(*e, (n * 8) as u16);
                let _ = bits;
                let parts: Vec<E> = (0..n).map(|i| self.x.extract(full, (i * 8) as u16, 8)).collect();
                let cs: Vec<Option<u128>> = parts.iter().map(|&p| self.x.as_const(p)).collect();
                let o = st.mem.obj_mut(self.m, a, n as u64)?;
                let s = Mem::off(a);
                let len = o.data.len();
                let y = o.sym.get_or_insert_with(|| vec![0; len]);
                for i in 0..n { match cs[i] { Some(k) => { o.data[s + i] = k as u8; y[s + i] = 0; } None => { o.data[s + i] = 0; y[s + i] = parts[i] + 1; } } }
                Ok(())
            }
            A(_) => err("store of aggregate as scalar"),
        }
    }
    fn load_ty(&mut self, st: &mut State, a: u64, t: Ty) -> R<Val> {
        let (k, bits) = { let ty = self.m.types(); (ty.k[t as usize].clone(), ty.bits(t)) };
        match k {
            TyK::Int(_) | TyK::Ptr | TyK::F32 | TyK::F64 => self.load_bytes_at(st, a, ((bits + 7) / 8) as usize, bits),
            TyK::Vec(n, e) if self.m.types().bits(e) < 8 => {
                let nb = (n as usize + 7) / 8; let v = self.load_bytes_at(st, a, nb, n as u16)?;
                let e1 = self.ex(&v, n as u16);
                let mut r = vec![]; for i in 0..n { let b = self.x.extract(e1, i as u16, 1); r.push(self.val(b)); } let _ = e;
                Ok(A(r.into()))
            }
            _ => {
                let n = match &k { TyK::Arr(n, _) => *n as usize, TyK::Vec(n, _) => *n as usize, TyK::Struct(f, _) => f.len(), _ => return err("load type") };
                let mut r = Vec::with_capacity(n);
                for i in 0..n { let (o, ft) = self.m.types().field_off(t, i); r.push(self.load_ty(st, a + o, ft)?); }
                Ok(A(r.into()))
            }
        }
    }
    fn store_ty(&mut self, st: &mut State, a: u64, t: Ty, v: &Val) -> R<()> {
        let (k, bits) = { let ty = self.m.types(); (ty.k[t as usize].clone(), ty.bits(t)) };
        match k {
            TyK::Int(_) | TyK::Ptr | TyK::F32 | TyK::F64 => self.storei(st, a, ((bits + 7) / 8) as usize, bits, v),
            TyK::Vec(n, e) if self.m.types().bits(e) < 8 => { let e1 = self.flat(v, 1)?; let v1 = self.val(e1); self.storei(st, a, (n as usize + 7) / 8, n as u16, &v1) }
            _ => {
                let A(vs) = v else { return err("store of scalar as aggregate") };
                for (i, x) in vs.iter().enumerate() { let (o, ft) = self.m.types().field_off(t, i); self.store_ty(st, a + o, ft, x)?; }
                Ok(())
            }
        }
    }
    fn flat(&mut self, v: &Val, ew: u16) -> R<E> {
        match v {
            A(vs) => { let mut r = None; for x in vs.iter() { let p = self.ex(x, ew); r = Some(match r { None => p, Some(l) => { if self.x.w(l) + ew > 128 { return err("vector wider than 128 bits"); } self.x.concat(p, l) } }); } Ok(r.unwrap()) }
            _ => Ok(self.ex(v, ew)),
        }
    }
    fn lanes(&mut self, e: E, n: u32, ew: u16) -> Val { let mut r = vec![]; for i in 0..n { let p = self.x.extract(e, i as u16 * ew, ew); r.push(self.val(p)); } A(r.into()) }

    // ---- execution ----------------------------------------------------------------------------
    pub fn run(mut self, entry: &str) -> Report {
        let t0 = Instant::now();
        let Some(&id) = self.m.fn_by_name.get(entry) else { self.rep.undecided.push(format!("no function {}", entry)); return self.rep };
        let f = match self.m.func(id) { Ok(f) => f, Err(e) => { self.rep.undecided.push(format!("{}: {}", entry, e)); return self.rep } };
        let mut st = State { frames: vec![], mem: Mem::new(), pc: vec![], model: Rc::new(vec![]), inputs: vec![], obs: vec![], nsym: 0, instrs: 0 };
        self.push_frame(&mut st, f, vec![], u32::MAX, None);
        self.stack.push(st);
        while let Some(mut st) = self.stack.pop() {
            let late = self.cfg.deadline.map(|d| Instant::now() > d).unwrap_or(false);
            if self.rep.paths >= self.cfg.max_paths || t0.elapsed() > self.cfg.time || late { self.rep.incomplete = true; break; }
            let before = st.instrs;
            let r = self.path(&mut st);
            self.rep.instrs += st.instrs - before;
            self.rep.max_path = self.rep.max_path.max(st.instrs);
            match r {
                Stop::End => { self.rep.paths += 1; self.sample(&st); }
                Stop::Dead => self.rep.dead += 1,
                Stop::Panic(p) => {
                    self.rep.paths += 1;
                    let id = format!("panic:{}", p);
                    let m = st.model.clone();
                    self.violation(&st, &id, &m);
                }
                Stop::Err(e) => {
                    self.rep.paths += 1;
                    if self.rep.undecided.len() < 20 {
                        let bt: Vec<String> = st.frames.iter().rev().take(6).map(|f| f.f.name.clone()).collect();
                        self.rep.undecided.push(format!("{} in {}", e, bt.join(" < ")));
                    }
                }
            }
        }
        self.rep.solver = self.sol.stats.clone();
        self.rep.nodes = self.x.nodes.len();
        self.rep.wall_ms = t0.elapsed().as_secs_f64() * 1e3;
        self.rep
    }
    fn trace_of(&mut self, st: &State, model: &Rc<Vec<u128>>, id: &str) -> Trace {
        let inputs = st.inputs.iter().map(|i| (i.name.to_string(), i.ascii, i.e.iter().map(|&e| self.ev(model, e)).collect())).collect();
        let obs = st.obs.iter().map(|o| (o.name.to_string(), o.bytes, o.v.iter().map(|&e| self.ev(model, e)).collect())).collect();
        Trace { inputs, obs, id: id.into() }
    }
    fn violation(&mut self, st: &State, id: &str, model: &Rc<Vec<u128>>) {
        let n = self.rep.asserts.entry(id.to_string()).or_default();
        n.violated += 1;
        if n.violated <= 2 { let t = self.trace_of(st, model, id); self.rep.violations.push(t); }
    }
    fn sample(&mut self, st: &State) {
        // reservoir sample of completed paths, replayed natively by the driver
        let k = self.cfg.samples;
        if k == 0 { return; }
        let n = self.rep.paths;
        let slot = if self.rep.samples.len() < k { None } else { let j = self.rand() % n; if j as usize >= k { return; } Some(j as usize) };
        let m = st.model.clone();
        let t = self.trace_of(st, &m, "");
        match slot { None => self.rep.samples.push(t), Some(j) => self.rep.samples[j] = t }
    }
    fn push_frame(&mut self, st: &mut State, f: &'static Func, args: Vec<Val>, ret: u32, edge: Option<&'static Edge>) {
        self.rep.fns.insert(f.id);
        let mut regs = vec![K(0); f.nregs as usize];
        for (p, a) in f.params.iter().zip(args) { regs[*p as usize] = a; }
        let fobj = if f.frame > 0 { st.mem.alloc(f.frame) } else { 0 };
        st.frames.push(Frame { f, ip: 0, regs, fobj, ret, edge });
    }
    fn path(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) { Ok(()) => {} Err(s) => return s }
            st.instrs += 1;
            if st.instrs > self.cfg.fuel { return Stop::Err(format!("instruction budget of {} exceeded", self.cfg.fuel)); }
        }
    }
    fn go(&mut self, fr: &mut Frame, e: &'static Edge) {
        match e.copies.len() {
            0 => {}
            1 => { let (d, o) = &e.copies[0]; let v = self.get(fr, o); fr.regs[*d as usize] = v; }
            _ => { let vs: Vec<Val> = e.copies.iter().map(|(_, o)| self.get(fr, o)).collect(); for ((d, _), v) in e.copies.iter().zip(vs) { fr.regs[*d as usize] = v; } }
        }
        fr.ip = e.to;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let n = st.frames.len() - 1;
        let f: &'static Func = st.frames[n].f;
        let ins: &'static I = &f.code[st.frames[n].ip as usize];
        macro_rules! g { ($o:expr) => { self.get(&st.frames[n], $o) } }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; let fr = &mut st.frames[n]; fr.regs[*$d as usize] = v; fr.ip += 1; }} }
        match ins {
            I::Bin(op, w, d, a, b) => {
                let (a, b) = (g!(a), g!(b));
                if matches!(op, Bop::UDiv | Bop::SDiv | Bop::URem | Bop::SRem) { if let S(e) = &b { let z = self.x.cst(*w, 0); let c = self.x.bin(Op::Eq, *e, z); if self.decide(st, c)? { return err("division by zero"); } } }
                let r = self.bin(*op, *w, &a, &b)?; set!(d, r)
            }
            I::Icmp(p, w, d, a, b) => { let (a, b) = (g!(a), g!(b)); let r = self.icmp(*p, *w, &a, &b); set!(d, r) }
            I::LoadI(bits, nb, d, p) => { let p = g!(p); let v = self.loadi(st, &p, *nb as usize, *bits)?; set!(d, v) }
            I::StoreI(bits, nb, v, p) => { let (v, p) = (g!(v), g!(p)); let a = self.cv(st, &p)?; self.storei(st, a, *nb as usize, *bits, &v)?; st.frames[n].ip += 1; }
            I::Gep(d, b, k, terms) => {
                let base = g!(b);
                if let K(a) = base {
                    let mut a = a.wrapping_add(*k);
                    let mut sym = None;
                    for (i, t) in terms.iter().enumerate() { match g!(&t.0) { K(v) => a = a.wrapping_add((sx(v, t.1).wrapping_mul(t.2 as i64)) as u64), _ => { sym = Some(i); break; } } }
                    if sym.is_none() { set!(d, K(a)); return Ok(()); }
                }
                let mut e = self.ex(&base, 64);
                // constant part last, so that the symbolic index stays visible
                let mut kk = *k;
                for t in terms { match g!(&t.0) { K(v) => kk = kk.wrapping_add((sx(v, t.1).wrapping_mul(t.2 as i64)) as u64), v => {
                    let x = self.ex(&v, t.1); let x = if t.1 < 64 { self.x.sext(x, 64) } else { x }; let s = self.x.cst(64, t.2 as u128); let x = self.x.bin(Op::Mul, x, s); e = self.x.bin(Op::Add, x, e); } } }
                let c = self.x.cst(64, kk as u128); let e = self.x.bin(Op::Add, e, c);
                let r = self.val(e); set!(d, r)
            }
            I::Alloca(d, off) => { let a = st.frames[n].fobj + off; set!(d, K(a)) }
            I::Cast(k, w1, w2, d, a) => { let a = g!(a); let r = self.cast(*k, *w1, *w2, &a); set!(d, r) }
            I::Br(e) => { let fr = &mut st.frames[n]; match e.copies.len() { 0 => fr.ip = e.to, _ => { let mut t = std::mem::replace(&mut st.frames[n], Frame { f, ip: 0, regs: vec![], fobj: 0, ret: 0, edge: None }); self.go(&mut t, e); st.frames[n] = t; } } }
            I::CondBr(c, a, b) => {
                let t = match g!(c) { K(k) => k & 1 == 1, S(e) => self.decide(st, e)?, _ => return err("branch condition") };
                let e = if t { a } else { b };
                let mut fr = std::mem::replace(&mut st.frames[n], Frame { f, ip: 0, regs: vec![], fobj: 0, ret: 0, edge: None }); self.go(&mut fr, e); st.frames[n] = fr;
            }
            I::Switch(w, v, cs, dflt) => {
                let e = match g!(v) {
                    K(k) => cs.iter().find(|c| c.0 == k).map(|c| &c.1).unwrap_or(dflt),
                    S(e) => {
                        let k = self.ev(&st.model.clone(), e) as u64;
                        // fork one state per other feasible case (and the default)
                        let mut taken = None;
                        let mut alts: Vec<(E, &'static Edge)> = vec![];
                        let mut nodef = self.x.tru();
                        for c in cs.iter() {
                            let kc = self.x.cst(*w, c.0 as u128); let q = self.x.bin(Op::Eq, e, kc);
                            let nq = self.x.not(q); nodef = self.x.bin(Op::And, nodef, nq);
                            if c.0 == k { taken = Some((q, &c.1)); } else { alts.push((q, &c.1)); }
                        }
                        let (lit, edge) = match taken { Some(t) => { alts.push((nodef, dflt)); t } None => (nodef, dflt) };
                        let mut forked = false;
                        for (q, ed) in alts {
                            if self.x.as_const(q) == Some(0) { continue; }
                            match self.sol.check(&self.x, &st.pc, q) {
                                Ans::Unsat => {}
                                Ans::Unknown => return err("solver gave no answer (switch)"),
                                Ans::Sat(m) => {
                                    let mut s2 = st.clone();
                                    s2.model = Self::upd(&st.model, &m, self.x.syms.len());
                                    s2.pc.push(q);
                                    let mut fr = s2.frames.pop().unwrap(); self.go(&mut fr, ed); s2.frames.push(fr);
                                    self.rep.forks += 1; self.stack.push(s2); forked = true;
                                }
                            }
                        }
                        if forked { st.pc.push(lit); }
                        edge
                    }
                    _ => return err("switch"),
                };
                let mut fr = std::mem::replace(&mut st.frames[n], Frame { f, ip: 0, regs: vec![], fobj: 0, ret: 0, edge: None }); self.go(&mut fr, e); st.frames[n] = fr;
            }
            I::Call(d, c, args, tys, rt) => { let a: Vec<Val> = args.iter().map(|o| self.get(&st.frames[n], o)).collect(); self.call(st, *d, c, a, tys, *rt, None)? }
            I::Invoke(d, c, args, tys, rt, e) => { let a: Vec<Val> = args.iter().map(|o| self.get(&st.frames[n], o)).collect(); self.call(st, *d, c, a, tys, *rt, Some(e))? }
            I::Ret(o) => {
                let v = o.as_ref().map(|o| g!(o));
                let fr = st.frames.pop().unwrap();
                if fr.fobj != 0 { st.mem.release(fr.fobj)?; }
                if st.frames.is_empty() { return Err(Stop::End); }
                let m = st.frames.len() - 1;
                if let Some(v) = v { if fr.ret != u32::MAX { st.frames[m].regs[fr.ret as usize] = v; } }
                if let Some(e) = fr.edge { let mut t = st.frames.pop().unwrap(); self.go(&mut t, e); st.frames.push(t); }
            }
            I::Select(merge, d, c, a, b) => {
                let r = match g!(c) {
                    K(k) => if k & 1 == 1 { g!(a) } else { g!(b) },
                    S(e) => {
                        let (p, q) = (g!(a), g!(b));
                        if *merge != 0 { let (x, y) = (self.ex(&p, *merge), self.ex(&q, *merge)); let r = self.x.ite(e, x, y); self.val(r) }
                        else if self.decide(st, e)? { p } else { q }
                    }
                    _ => return err("select"),
                };
                set!(d, r)
            }
            I::ExtractValue(d, a, ix) => { let mut v = g!(a); for i in ix { let A(x) = &v else { return err("extractvalue") }; v = x[*i as usize].clone(); } set!(d, v) }
            I::InsertValue(d, a, v, ix) => { let (a, v) = (g!(a), g!(v)); let r = Self::insert(&a, &v, ix)?; set!(d, r) }
            I::Copy(d, a) => { let v = g!(a); set!(d, v) }
            I::Load(t, d, p) => { let p = g!(p); let a = self.cv(st, &p)?; let v = self.load_ty(st, a, *t)?; set!(d, v) }
            I::Store(t, v, p) => { let (v, p) = (g!(v), g!(p)); let a = self.cv(st, &p)?; self.store_ty(st, a, *t, &v)?; st.frames[n].ip += 1; }
            I::VBin(op, w, d, a, b) => { let (A(a), A(b)) = (g!(a), g!(b)) else { return err("vector op") }; let mut r = vec![]; for (x, y) in a.iter().zip(b.iter()) { r.push(self.bin(*op, *w, x, y)?); } set!(d, A(r.into())) }
            I::VIcmp(p, w, d, a, b) => { let (A(a), A(b)) = (g!(a), g!(b)) else { return err("vector icmp") }; let mut r = vec![]; for (x, y) in a.iter().zip(b.iter()) { r.push(self.icmp(*p, *w, x, y)); } set!(d, A(r.into())) }
            I::VCast(k, w1, w2, d, a) => { let A(a) = g!(a) else { return err("vector cast") }; let mut r = vec![]; for x in a.iter() { r.push(self.cast(*k, *w1, *w2, x)); } set!(d, A(r.into())) }
            I::VSelect(d, c, a, b) => {
                let (A(c), A(a), A(b)) = (g!(c), g!(a), g!(b)) else { return err("vector select") };
                let mut r = vec![];
                for i in 0..c.len() { r.push(match &c[i] { K(k) => if k & 1 == 1 { a[i].clone() } else { b[i].clone() }, S(e) => { let w = match (&a[i], &b[i]) { (S(x), _) | (_, S(x)) => self.x.w(*x), _ => return err("vector select of constants on a symbolic lane") }; let (x, y) = (self.ex(&a[i], w), self.ex(&b[i], w)); let z = self.x.ite(*e, x, y); self.val(z) } _ => return err("vselect") }); }
                set!(d, A(r.into()))
            }
            I::BitCast(t1, t2, d, a) => {
                let v = g!(a);
                let (k1, k2) = { let ty = self.m.types(); (ty.k[*t1 as usize].clone(), ty.k[*t2 as usize].clone()) };
                let w1 = match k1 { TyK::Vec(_, e) => self.m.types().bits(e), _ => self.m.types().bits(*t1) };
                let r = match (k1, k2) {
                    (TyK::Vec(n1, e1), TyK::Vec(n2, e2)) if n1 == n2 && self.m.types().bits(e1) == self.m.types().bits(e2) => v,
                    (_, k2) => { let e = self.flat(&v, w1)?; match k2 { TyK::Vec(n2, e2) => { let w2 = self.m.types().bits(e2); self.lanes(e, n2, w2) } _ => self.val(e) } }
                };
                set!(d, r)
            }
            I::ExtractEl(d, a, i) => { let (a, i) = (g!(a), g!(i)); let i = self.cv(st, &i)?; let A(a) = a else { return err("extractelement") }; let v = a.get(i as usize).cloned().unwrap_or(K(0)); set!(d, v) }
            I::InsertEl(d, a, v, i) => { let (a, v, i) = (g!(a), g!(v), g!(i)); let i = self.cv(st, &i)?; let A(a) = a else { return err("insertelement") }; let mut r: Vec<Val> = a.to_vec(); r[i as usize] = v; set!(d, A(r.into())) }
            I::Shuffle(d, a, b, m, _) => { let (A(a), A(b)) = (g!(a), g!(b)) else { return err("shuffle") }; let r: Vec<Val> = m.iter().map(|&i| if i < 0 { K(0) } else if (i as usize) < a.len() { a[i as usize].clone() } else { b[i as usize - a.len()].clone() }).collect(); set!(d, A(r.into())) }
            I::Fcmp(p, w, d, a, b) => {
                let (a, b) = (g!(a), g!(b));
                let r = match (&a, &b) { (K(x), K(y)) => K(fcmp(*p, to_f(*w, *x as u128), to_f(*w, *y as u128)) as u64), _ => { let (x, y) = (self.ex(&a, *w), self.ex(&b, *w)); let e = self.x.raw(Op::FCmp, 1, x, y, *p); self.val(e) } };
                set!(d, r)
            }
            I::FNeg(w, d, a) => { let a = g!(a); let k = K(1u64 << (*w - 1)); let r = self.bin(Bop::Xor, *w, &a, &k)?; set!(d, r) }
            I::Rmw(op, kind, w, d, p, v) => {
                let (p, v) = (g!(p), g!(v)); let a = self.cv(st, &p)?; let nb = ((*w + 7) / 8) as usize;
                let old = self.load_bytes_at(st, a, nb, *w)?;
                let new = match kind { 0 => self.bin(*op, *w, &old, &v)?, 1 => v, _ => return err("atomicrmw kind") };
                self.storei(st, a, nb, *w, &new)?; set!(d, old)
            }
            I::CmpXchg(t, d, p, c, nw) => {
                let (p, c, nw) = (g!(p), g!(c), g!(nw)); let a = self.cv(st, &p)?; let w = self.m.types().bits(*t);
                let old = self.load_bytes_at(st, a, ((w + 7) / 8) as usize, w)?;
                let q = self.icmp(Pred::Eq, w, &old, &c);
                let ok = match q { K(k) => k == 1, S(e) => self.decide(st, e)?, _ => false };
                if ok { self.storei(st, a, ((w + 7) / 8) as usize, w, &nw)?; }
                set!(d, A(vec![old, K(ok as u64)].into()))
            }
            I::Unreachable => return err("reached 'unreachable'"),
            I::Resume => return err("resume"),
            I::Bad(s) => return err(format!("unsupported: {}", s)),
        }
        Ok(())
    }
    fn insert(a: &Val, v: &Val, ix: &[u32]) -> R<Val> {
        if ix.is_empty() { return Ok(v.clone()); }
        let A(x) = a else { return err("insertvalue") };
        let mut r: Vec<Val> = x.to_vec();
        r[ix[0] as usize] = Self::insert(&r[ix[0] as usize], v, &ix[1..])?;
        Ok(A(r.into()))
    }
    fn finish(&mut self, st: &mut State, d: u32, v: Option<Val>, edge: Option<&'static Edge>) {
        let n = st.frames.len() - 1;
        if let Some(v) = v { if d != u32::MAX { st.frames[n].regs[d as usize] = v; } }
        match edge { None => st.frames[n].ip += 1, Some(e) => { let mut t = st.frames.pop().unwrap(); self.go(&mut t, e); st.frames.push(t); } }
    }
    fn cstr(&mut self, st: &State, p: &Val, n: &Val) -> R<Rc<str>> {
        let (K(p), K(n)) = (p, n) else { return err("symbolic name") };
        let b: Vec<u8> = st.mem.bytes(self.m, *p, *n)?.iter().map(|x| x.0).collect();
        if let Some(r) = self.names.get(&b) { return Ok(r.clone()); }
        let s: Rc<str> = String::from_utf8_lossy(&b).into_owned().into();
        self.names.insert(b, s.clone());
        Ok(s)
    }
    fn fresh(&mut self, st: &mut State, w: u16) -> E {
        let k = st.nsym; st.nsym += 1;
        if let Some(&e) = self.symcache.get(&(k, w)) { return e; }
        let e = self.x.sym(&format!("s{}", k), w);
        self.symcache.insert((k, w), e);
        e
    }
    fn location(&self, st: &State, args: &[Val]) -> String {
        for a in args.iter().rev() {
            if let K(p) = a {
                if let Ok(b) = st.mem.bytes(self.m, *p, 24) {
                    let rd = |i: usize, n: usize| (0..n).fold(0u64, |s, k| s | (b[i + k].0 as u64) << (8 * k));
                    let (fp, fl, line) = (rd(0, 8), rd(8, 8), rd(16, 4));
                    if fl > 0 && fl < 400 { if let Ok(f) = st.mem.bytes(self.m, fp, fl) { let s: Vec<u8> = f.iter().map(|x| x.0).collect(); let s = String::from_utf8_lossy(&s).into_owned(); if s.ends_with(".rs") { return format!("{}:{}", s, line); } } }
                }
            }
        }
        "?".into()
    }
    fn call(&mut self, st: &mut State, d: u32, c: &'static Callee, args: Vec<Val>, tys: &[Ty], rt: Ty, edge: Option<&'static Edge>) -> R<()> {
        let id = match c {
            Callee::Fn(i) => *i,
            Callee::Ind(o) => { let v = { let fr = st.frames.last().unwrap(); self.get(fr, o) }; let a = self.cv(st, &v)?; if a >> 32 != FN_ID { return err(format!("indirect call to {:#x}", a)); } (((a & 0xffff_ffff) - BASE) / 16) as u32 }
            Callee::Asm(0) => { self.finish(st, d, None, edge); return Ok(()); }
            Callee::Asm(1) => { let v = args[0].clone(); self.finish(st, d, Some(v), edge); return Ok(()); }
            Callee::Asm(_) => return err("inline assembly"),
        };
        let k = self.kinds[id as usize];
        match k {
            Kind::Normal | Kind::MakeErr => {
                if k == Kind::MakeErr { self.blank_message(st, &args)?; }
                let f = match self.m.func(id) { Ok(f) => f, Err(e) => return err(format!("cannot parse {}: {}", self.m.fns[id as usize].name, e)) };
                if st.frames.len() > 4000 { return err("call depth"); }
                if edge.is_none() { st.frames.last_mut().unwrap().ip += 1; }
                self.push_frame(st, f, args, d, edge);
                return Ok(());
            }
            _ => {}
        }
        let v = self.builtin(st, k, id, &args, tys, rt)?;
        self.finish(st, d, v, edge);
        Ok(())
    }
    /// serde_json scans the text of a new error for a position; bytes of it that depend on symbolic
    /// input are replaced by '?' first, because the text of diagnostics is not part of any property
    fn blank_message(&mut self, st: &mut State, args: &[Val]) -> R<()> {
        let s = self.cv(st, &args[0])?;
        let p = self.loadi(st, &K(s + 8), 8, 64)?; let p = self.cv(st, &p)?;
        let n = self.loadi(st, &K(s + 16), 8, 64)?; let n = self.cv(st, &n)?;
        if n > 1 << 20 { return err("make_error: unexpected string layout"); }
        let b = st.mem.bytes(self.m, p, n)?;
        let mut any = false;
        for (i, (_, e)) in b.iter().enumerate() { if *e != 0 { any = true; st.mem.write_byte(self.m, p + i as u64, b'?', None)?; } }
        if any { *self.rep.stubs.entry("symbolic bytes in serde_json error texts -> '?'".into()).or_default() += 1; }
        Ok(())
    }
    fn lanewise(&mut self, args: &[Val], w: u16, f: &mut dyn FnMut(&mut Self, &[Val], u16) -> R<Val>) -> R<Val> {
        if let A(a) = &args[0] {
            let mut r = vec![];
            for i in 0..a.len() { let xs: Vec<Val> = args.iter().map(|v| match v { A(q) => q[i].clone(), o => o.clone() }).collect(); r.push(f(self, &xs, w)?); }
            return Ok(A(r.into()));
        }
        f(self, args, w)
    }
    fn builtin(&mut self, st: &mut State, k: Kind, id: u32, args: &[Val], tys: &[Ty], rt: Ty) -> R<Option<Val>> {
        let w = if tys.is_empty() { 0 } else { let ty = self.m.types(); match ty.k[tys[0] as usize] { TyK::Vec(_, e) => ty.bits(e), _ => ty.bits(tys[0]) } };
        match k {
            Kind::Nop => { if rt == T_VOID { Ok(None) } else { Ok(Some(K(0))) } }
            Kind::Assume | Kind::Expect | Kind::TlsAddr => Ok(args.first().cloned()),
            Kind::Trap | Kind::Abort => Err(Stop::Panic(format!("abort in {}", st.frames.last().unwrap().f.name))),
            Kind::Panic => { let l = self.location(st, args); let n = &self.m.fns[id as usize].name; let short = n.rsplit(|c: char| c.is_ascii_digit()).next().unwrap_or(n).to_string(); Err(Stop::Panic(format!("{} at {}", short, l))) }
            Kind::Malloc | Kind::Alloc | Kind::AllocZ => { let n = self.cv(st, &args[0])?; if n > 1 << 28 { return err("huge allocation"); } Ok(Some(K(st.mem.alloc(n)))) }
            Kind::Calloc => { let n = self.cv(st, &args[0])? * self.cv(st, &args[1])?; Ok(Some(K(st.mem.alloc(n)))) }
            Kind::Memalign => { let n = self.cv(st, &args[2])?; let a = st.mem.alloc(n); let p = self.cv(st, &args[0])?; self.storei(st, p, 8, 64, &K(a))?; Ok(Some(K(0))) }
            Kind::Dealloc | Kind::Free => { let p = self.cv(st, &args[0])?; if p != 0 { st.mem.release(p)?; } Ok(None) }
            Kind::Realloc | Kind::CRealloc => {
                let p = self.cv(st, &args[0])?; let n = self.cv(st, if k == Kind::Realloc { &args[3] } else { &args[1] })?;
                let a = st.mem.alloc(n);
                if p != 0 { let old = st.mem.size_of(self.m, p).unwrap_or(0); st.mem.copy(self.m, a, p, old.min(n))?; st.mem.release(p)?; }
                Ok(Some(K(a)))
            }
            Kind::Memcpy => { let n = self.cv(st, &args[2])?; let dp = self.cv(st, &args[0])?; let sp = self.cv(st, &args[1])?; st.mem.copy(self.m, dp, sp, n)?; Ok(if rt == T_VOID { None } else { Some(K(dp)) }) }
            Kind::Memset => {
                let n = self.cv(st, &args[2])?; let dp = self.cv(st, &args[0])?;
                if n > 0 { match &args[1] {
                    K(b) => { let o = st.mem.obj_mut(self.m, dp, n)?; let s = Mem::off(dp); o.data[s..s + n as usize].fill(*b as u8); if let Some(y) = &mut o.sym { y[s..s + n as usize].fill(0); } }
                    S(e) => { let b = self.x.trunc(*e, 8); for i in 0..n { st.mem.write_byte(self.m, dp + i, 0, Some(b))?; } }
                    _ => return err("memset"),
                } }
                Ok(if rt == T_VOID { None } else { Some(K(dp)) })
            }
            Kind::Memcmp => {
                let n = self.cv(st, &args[2])?; let (a, b) = (self.cv(st, &args[0])?, self.cv(st, &args[1])?);
                let (x, y) = (st.mem.bytes(self.m, a, n)?, st.mem.bytes(self.m, b, n)?);
                // r = first difference's sign, built from the end
                let mut stop = n as usize; let mut tail = 0i32;
                for i in 0..n as usize { if x[i].1 == 0 && y[i].1 == 0 && x[i].0 != y[i].0 { stop = i; tail = if x[i].0 < y[i].0 { -1 } else { 1 }; break; } }
                let mut r = self.x.cst(32, tail as u32 as u128);
                let bcmp = self.m.fns[id as usize].name == "bcmp";
                for i in (0..stop).rev() {
                    if x[i].1 == 0 && y[i].1 == 0 { continue; }
                    let p = if x[i].1 == 0 { self.x.cst(8, x[i].0 as u128) } else { x[i].1 - 1 };
                    let q = if y[i].1 == 0 { self.x.cst(8, y[i].0 as u128) } else { y[i].1 - 1 };
                    if p == q { continue; }
                    let eq = self.x.bin(Op::Eq, p, q);
                    let one = self.x.cst(32, 1);
                    let df = if bcmp { one } else { let lt = self.x.bin(Op::Ult, p, q); let m1 = self.x.cst(32, 0xffff_ffff); self.x.ite(lt, m1, one) };
                    r = self.x.ite(eq, r, df);
                }
                Ok(Some(self.val(r)))
            }
            Kind::Strlen => { let a = self.cv(st, &args[0])?; let mut n = 0; loop { let b = st.mem.bytes(self.m, a + n, 1)?; if b[0].1 != 0 { return err("strlen of symbolic data"); } if b[0].0 == 0 { break; } n += 1; } Ok(Some(K(n))) }
            Kind::Memchr => {
                let a = self.cv(st, &args[0])?; let c = self.cv(st, &args[1])? as u8; let n = self.cv(st, &args[2])?;
                for i in 0..n { let b = st.mem.bytes(self.m, a + i, 1)?[0]; let hit = if b.1 == 0 { b.0 == c } else { let k = self.x.cst(8, c as u128); let e = self.x.bin(Op::Eq, b.1 - 1, k); self.decide(st, e)? }; if hit { return Ok(Some(K(a + i))); } }
                Ok(Some(K(0)))
            }
            Kind::UMin | Kind::UMax | Kind::SMin | Kind::SMax => {
                let p = match k { Kind::UMin => Pred::Ult, Kind::UMax => Pred::Ugt, Kind::SMin => Pred::Slt, _ => Pred::Sgt };
                Ok(Some(self.lanewise(args, w, &mut |s, a, w| { let c = s.icmp(p, w, &a[0], &a[1]); Ok(match c { K(1) => a[0].clone(), K(_) => a[1].clone(), S(e) => { let (x, y) = (s.ex(&a[0], w), s.ex(&a[1], w)); let r = s.x.ite(e, x, y); s.val(r) } _ => K(0) }) })?))
            }
            Kind::Abs => { let z = Self::mkval(0, w); let c = self.icmp(Pred::Slt, w, &args[0], &z); let ng = self.bin(Bop::Sub, w, &z, &args[0])?; Ok(Some(match c { K(1) => ng, K(_) => args[0].clone(), S(e) => { let (x, y) = (self.ex(&ng, w), self.ex(&args[0], w)); let r = self.x.ite(e, x, y); self.val(r) } _ => return err("abs") })) }
            Kind::UAddO | Kind::USubO | Kind::UMulO | Kind::SAddO | Kind::SSubO | Kind::SMulO => {
                let signed = matches!(k, Kind::SAddO | Kind::SSubO | Kind::SMulO);
                let op = match k { Kind::UAddO | Kind::SAddO => Op::Add, Kind::USubO | Kind::SSubO => Op::Sub, _ => Op::Mul };
                let mul = op == Op::Mul;
                if w > 64 || (mul && w > 63) {
                    // wide concrete arithmetic only
                    if let (Some(x), Some(y)) = (Self::conc(&args[0]), Self::conc(&args[1])) {
                        let r = Ctx::conc_bin(op, w, x, y).unwrap();
                        let o = if signed { let (a, b) = (sext(x, w), sext(y, w)); let q = match op { Op::Add => a.checked_add(b), Op::Sub => a.checked_sub(b), _ => a.checked_mul(b) }; q.map(|q| sext((q as u128) & mask(w), w) != q).unwrap_or(true) }
                            else { let q = match op { Op::Add => x.checked_add(y), Op::Sub => x.checked_sub(y), _ => x.checked_mul(y) }; q.map(|q| q > mask(w)).unwrap_or(true) };
                        return Ok(Some(A(vec![Self::mkval(r, w), K(o as u64)].into())));
                    }
                }
                if w > 64 { return err("wide symbolic overflow arithmetic"); }
                let w2 = if mul { 2 * w } else { w + 1 };
                let (x, y) = (self.ex(&args[0], w), self.ex(&args[1], w));
                let r = self.x.bin(op, x, y);
                let (x2, y2, r2) = if signed { (self.x.sext(x, w2), self.x.sext(y, w2), self.x.sext(r, w2)) } else { (self.x.zext(x, w2), self.x.zext(y, w2), self.x.zext(r, w2)) };
                let q = self.x.bin(op, x2, y2);
                let same = self.x.bin(Op::Eq, q, r2); let o = self.x.not(same);
                let (rv, ov) = (self.val(r), self.val(o));
                Ok(Some(A(vec![rv, ov].into())))
            }
            Kind::UAddS | Kind::USubS | Kind::SAddS | Kind::SSubS => {
                let signed = matches!(k, Kind::SAddS | Kind::SSubS);
                let add = matches!(k, Kind::UAddS | Kind::SAddS);
                Ok(Some(self.lanewise(args, w, &mut |s, a, w| {
                    let (x, y) = (s.ex(&a[0], w), s.ex(&a[1], w));
                    let op = if add { Op::Add } else { Op::Sub };
                    let r = s.x.bin(op, x, y);
                    let e = if !signed {
                        if add { let o = s.x.bin(Op::Ult, r, x); let m = s.x.cst(w, mask(w)); s.x.ite(o, m, r) } else { let o = s.x.bin(Op::Ult, x, y); let z = s.x.cst(w, 0); s.x.ite(o, z, r) }
                    } else {
                        let (x2, y2, r2) = (s.x.sext(x, w + 1), s.x.sext(y, w + 1), s.x.sext(r, w + 1)); let q = s.x.bin(op, x2, y2); let ok = s.x.bin(Op::Eq, q, r2);
                        let z = s.x.cst(w, 0); let neg = s.x.bin(Op::Slt, x, z); let (mn, mx) = (s.x.cst(w, 1u128 << (w - 1)), s.x.cst(w, mask(w - 1))); let sat = s.x.ite(neg, mn, mx); s.x.ite(ok, r, sat)
                    };
                    Ok(s.val(e))
                })?))
            }
            Kind::FshL | Kind::FshR => {
                Ok(Some(self.lanewise(args, w, &mut |s, a, w| {
                    let (x, y) = (s.ex(&a[0], w), s.ex(&a[1], w));
                    let sh = match &a[2] { K(v) => *v as u16 % w, W(v) => (v[0] % w as u64) as u16, _ => return err("symbolic funnel shift") };
                    let e = if k == Kind::FshL { if sh == 0 { x } else { let h = s.x.extract(x, 0, w - sh); let l = s.x.extract(y, w - sh, sh); s.x.concat(h, l) } }
                        else if sh == 0 { y } else { let h = s.x.extract(x, 0, sh); let l = s.x.extract(y, sh, w - sh); s.x.concat(h, l) };
                    Ok(s.val(e))
                })?))
            }
            Kind::Ctpop | Kind::Cttz | Kind::Ctlz | Kind::Bitrev | Kind::Bswap => {
                Ok(Some(self.lanewise(&args[..1], w, &mut |s, a, w| {
                    if let Some(v) = Self::conc(&a[0]) {
                        return Ok(Self::mkval(match k {
                            Kind::Ctpop => v.count_ones() as u128, Kind::Cttz => if v == 0 { w as u128 } else { v.trailing_zeros() as u128 }, Kind::Ctlz => (v.leading_zeros() - (128 - w as u32)) as u128,
                            Kind::Bitrev => v.reverse_bits() >> (128 - w), _ => v.swap_bytes() >> (128 - w),
                        }, w));
                    }
                    let x = s.ex(&a[0], w);
                    let e = match k {
                        Kind::Bswap => { let mut r = s.x.extract(x, 0, 8); for i in 1..w / 8 { let b = s.x.extract(x, i * 8, 8); r = s.x.concat(r, b); } r }
                        Kind::Bitrev => { let mut r = s.x.extract(x, 0, 1); for i in 1..w { let b = s.x.extract(x, i, 1); r = s.x.concat(r, b); } r }
                        Kind::Ctpop => { let mut r = s.x.cst(w, 0); for i in 0..w { let b = s.x.extract(x, i, 1); let b = s.x.zext(b, w); r = s.x.bin(Op::Add, r, b); } r }
                        _ => { let mut r = s.x.cst(w, w as u128); for j in 0..w { let i = if k == Kind::Cttz { w - 1 - j } else { j }; let b = s.x.extract(x, i, 1); let v = s.x.cst(w, if k == Kind::Cttz { i as u128 } else { (w - 1 - i) as u128 }); r = s.x.ite(b, v, r); } r }
                    };
                    Ok(s.val(e))
                })?))
            }
            Kind::IsConst => Ok(Some(K(0))),
            Kind::UCmp | Kind::SCmp => {
                let rw = self.m.types().bits(rt);
                let (lt, gt) = if k == Kind::UCmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let (l, g) = (self.icmp(lt, w, &args[0], &args[1]), self.icmp(gt, w, &args[0], &args[1]));
                let (l, g) = (self.ex(&l, 1), self.ex(&g, 1));
                let (m1, one, z) = (self.x.cst(rw, mask(rw)), self.x.cst(rw, 1), self.x.cst(rw, 0));
                let r = self.x.ite(g, one, z); let r = self.x.ite(l, m1, r);
                Ok(Some(self.val(r)))
            }
            Kind::FAbs => Ok(Some(self.bin(Bop::And, w, &args[0], &K(m64(w - 1)))?)),
            Kind::CopySign => { let a = self.bin(Bop::And, w, &args[0], &K(m64(w - 1)))?; let b = self.bin(Bop::And, w, &args[1], &K(1u64 << (w - 1)))?; Ok(Some(self.bin(Bop::Or, w, &a, &b)?)) }
            Kind::FloorLike(m) => match &args[0] { K(v) => { let f = to_f(w, *v as u128); let r = match m { 0 => f.floor(), 1 => f.ceil(), 2 => f.trunc(), 3 => f.round_ties_even(), 4 => f.round(), _ => f.sqrt() }; Ok(Some(K(of_f(w, r) as u64))) } _ if m < 5 => { let a = self.ex(&args[0], w); let r = self.x.fround(a, m as u32); Ok(Some(self.val(r))) } _ => err("square root of a symbolic float") },
            Kind::FpSat(s) => match &args[0] { K(v) => { let f = to_f(w, *v as u128); let rw = self.m.types().bits(rt); let r = if s { let lim = 1i128 << (rw - 1); (f as i128).clamp(-lim, lim - 1) as u128 } else { (f as u128).min(mask(rw)) }; Ok(Some(Self::mkval(r, rw))) } _ => { let rw = self.m.types().bits(rt); let a = self.ex(&args[0], w); let r = self.x.fpsat(a, rw, s); Ok(Some(self.val(r))) } },
            Kind::VecRed(m) => { let A(a) = &args[0] else { return err("vector.reduce") }; let mut r = a[0].clone(); for x in &a[1..] { r = self.bin(match m { 0 => Bop::Or, 1 => Bop::And, _ => Bop::Add }, w, &r, x)?; } Ok(Some(r)) }
            Kind::PtrMask => Ok(Some(self.bin(Bop::And, 64, &args[0], &args[1])?)),
            Kind::HashZero => { *self.rep.stubs.entry("hash values of hash maps -> 0".into()).or_default() += 1; Ok(Some(K(0))) }
            Kind::FMinMax(max) => {
                let (a, b) = (self.ex(&args[0], w), self.ex(&args[1], w));
                let eq = self.x.bin(if max { Op::And } else { Op::Or }, a, b);   // equal values differ at most in the sign of zero
                let c = self.x.raw(Op::FCmp, 1, a, b, if max { 2 } else { 4 }); let r = self.x.ite(c, a, eq);
                let c = self.x.raw(Op::FCmp, 1, a, b, if max { 4 } else { 2 }); let r = self.x.ite(c, b, r);
                let c = self.x.raw(Op::FCmp, 1, b, b, 8); let r = self.x.ite(c, a, r);
                let c = self.x.raw(Op::FCmp, 1, a, a, 8); let r = self.x.ite(c, b, r);
                Ok(Some(self.val(r)))
            }
            Kind::RandKeys => { *self.rep.stubs.entry("hashmap_random_keys -> (1,2)".into()).or_default() += 1; Ok(Some(A(vec![K(1), K(2)].into()))) }
            Kind::NlFind => {
                if self.cv(st, &args[0])? != 10 { return err("byte search"); }
                *self.rep.stubs.entry("newlines before a parse error -> none".into()).or_default() += 1;
                Ok(Some(if matches!(self.m.types().k[rt as usize], TyK::Int(_)) { K(0) } else { A(vec![K(0), K(0)].into()) }))
            }
            Kind::SkipEsc => {
                // serde_json's search for the next quote, backslash or (if forbidden) control character: same
                // result, one byte at a time instead of eight (the reader is {ptr, len, index})
                let r = self.cv(st, &args[0])?; let ctl = self.cv(st, &args[1])? != 0;
                let l = self.loadi(st, &K(r), 8, 64)?; let p = self.cv(st, &l)?;
                let l = self.loadi(st, &K(r + 8), 8, 64)?; let n = self.cv(st, &l)?;
                let l = self.loadi(st, &K(r + 16), 8, 64)?; let mut i = self.cv(st, &l)?;
                if i > n || n > 1 << 20 { return err("skip_to_escape: unexpected reader layout"); }
                while i < n {
                    let b = st.mem.bytes(self.m, p + i, 1)?[0];
                    let hit = if b.1 == 0 { b.0 == b'"' || b.0 == b'\\' || (ctl && b.0 < 32) } else {
                        let e = b.1 - 1; let (q, s, c) = (self.x.cst(8, b'"' as u128), self.x.cst(8, b'\\' as u128), self.x.cst(8, 32));
                        let (q, s) = (self.x.bin(Op::Eq, e, q), self.x.bin(Op::Eq, e, s));
                        let mut h = self.x.bin(Op::Or, q, s);
                        if ctl { let c = self.x.bin(Op::Ult, e, c); h = self.x.bin(Op::Or, h, c); }
                        self.decide(st, h)?
                    };
                    if hit { break; }
                    i += 1;
                }
                *self.rep.stubs.entry("serde_json skip_to_escape: one byte at a time".into()).or_default() += 1;
                self.storei(st, r + 16, 8, 64, &K(i))?;
                Ok(None)
            }
            Kind::Position => { *self.rep.stubs.entry("line and column of parse errors -> (1,1)".into()).or_default() += 1; Ok(Some(A(vec![K(1), K(1)].into()))) }
            Kind::StrDebug => { *self.rep.stubs.entry(format!("{} writes nothing", self.m.fns[id as usize].name)).or_default() += 1; Ok(Some(K(0))) }
            // ---- harness interface
            Kind::SxSym => { let name = self.cstr(st, &args[0], &args[1])?; let bits = self.cv(st, &args[2])? as u16; let e = self.fresh(st, bits); st.inputs.push(Input { name, ascii: false, e: vec![e] }); let z = self.x.zext(e, 64); Ok(Some(self.val(z))) }
            Kind::SxAscii => {
                let name = self.cstr(st, &args[0], &args[1])?; let p = self.cv(st, &args[2])?; let n = self.cv(st, &args[3])?; let bits = self.cv(st, &args[4])? as u16;
                let mut v = vec![];
                for i in 0..n { let e = self.fresh(st, bits); let b = self.x.zext(e, 8); v.push(e); st.mem.write_byte(self.m, p + i, 0, Some(b))?; }
                st.inputs.push(Input { name, ascii: true, e: v });
                Ok(None)
            }
            Kind::SxConc => { let v = self.cv(st, &args[0])?; Ok(Some(K(v))) }
            Kind::SxStrEq => {
                // equality of two byte strings as one condition (no fork): lengths concrete
                let (n1, n2) = (self.cv(st, &args[1])?, self.cv(st, &args[3])?);
                if n1 != n2 { return Ok(Some(K(0))); }
                let (a, b) = (self.cv(st, &args[0])?, self.cv(st, &args[2])?);
                let (x, y) = (st.mem.bytes(self.m, a, n1)?, st.mem.bytes(self.m, b, n1)?);
                let mut r = self.x.tru();
                for i in 0..n1 as usize {
                    let p = if x[i].1 == 0 { self.x.cst(8, x[i].0 as u128) } else { x[i].1 - 1 };
                    let q = if y[i].1 == 0 { self.x.cst(8, y[i].0 as u128) } else { y[i].1 - 1 };
                    let e = self.x.bin(Op::Eq, p, q); r = self.x.bin(Op::And, r, e);
                }
                let z = self.x.zext(r, 8);
                Ok(Some(self.val(z)))
            }
            Kind::SxAssume => {
                match &args[0] {
                    K(k) => if k & 1 == 0 { return Err(Stop::Dead); },
                    S(e) => {
                        let e = self.x.trunc(*e, 1);
                        if let Some(k) = self.x.as_const(e) { if k == 0 { return Err(Stop::Dead); } return Ok(None); }
                        if self.ev(&st.model.clone(), e) != 1 { match self.sol.check(&self.x, &st.pc, e) { Ans::Sat(m) => st.model = Self::upd(&st.model, &m, self.x.syms.len()), Ans::Unsat => return Err(Stop::Dead), Ans::Unknown => return err("solver gave no answer (assume)") } }
                        st.pc.push(e);
                    }
                    _ => return err("assume"),
                }
                Ok(None)
            }
            Kind::SxAssert => {
                let name = self.cstr(st, &args[1], &args[2])?;
                let s = self.rep.asserts.entry(name.to_string()).or_default();
                s.evaluated += 1;
                match &args[0] {
                    K(k) => if k & 1 == 0 { let m = st.model.clone(); self.violation(st, &name, &m); return Err(Stop::Dead); } else { s.syntactic += 1; },
                    S(e) => {
                        let e = self.x.trunc(*e, 1);
                        if self.x.as_const(e) == Some(1) { self.rep.asserts.get_mut(&*name).unwrap().syntactic += 1; return Ok(None); }
                        let ne = self.x.not(e);
                        self.rep.asserts.get_mut(&*name).unwrap().by_solver += 1;
                        match self.sol.check(&self.x, &st.pc, ne) {
                            Ans::Unsat => {}
                            Ans::Unknown => return err("solver gave no answer (assert)"),
                            Ans::Sat(m) => {
                                let bad = Self::upd(&st.model, &m, self.x.syms.len());
                                self.violation(st, &name, &bad);
                                match self.sol.check(&self.x, &st.pc, e) { Ans::Sat(m) => { st.model = Self::upd(&st.model, &m, self.x.syms.len()); st.pc.push(e); } _ => return Err(Stop::Dead) }
                            }
                        }
                    }
                    _ => return err("assert"),
                }
                Ok(None)
            }
            Kind::SxReach => { let name = self.cstr(st, &args[0], &args[1])?; *self.rep.reach.entry(name.to_string()).or_default() += 1; Ok(None) }
            Kind::SxObs => { let name = self.cstr(st, &args[0], &args[1])?; let e = self.ex(&args[2], 64); st.obs.push(Obs { name, bytes: false, v: vec![e] }); Ok(None) }
            Kind::SxObsBytes => {
                let name = self.cstr(st, &args[0], &args[1])?; let p = self.cv(st, &args[2])?; let n = self.cv(st, &args[3])?;
                let b = st.mem.bytes(self.m, p, n)?; let mut v = vec![];
                for (k, e) in b { v.push(if e == 0 { self.x.cst(8, k as u128) } else { e - 1 }); }
                st.obs.push(Obs { name, bytes: true, v }); Ok(None)
            }
            Kind::Extern | Kind::Normal | Kind::MakeErr => err(format!("call of unmodelled function {}", self.m.fns[id as usize].name)),
        }
    }
}
