//! Hash-consed bit-vector expressions with on-the-fly simplification.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Sym,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Concat, Extract, ZExt, SExt, Ite,
    FCmp, FAdd, FSub, FMul, FDiv, FRem, FRound,
    SiToFp, UiToFp, FpToSi, FpToUi, FpCast,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32 }

#[derive(Clone)]
pub struct SymInfo { pub name: String, pub w: u16 }

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub consts: Vec<u128>,
    cmap: HashMap<(u16, u128), E>,
    map: HashMap<Node, E>,
    pub syms: Vec<SymInfo>,
    /// per node: sorted list of symbols it mentions
    pub symsets: Vec<std::rc::Rc<Vec<u32>>>,
    empty: std::rc::Rc<Vec<u32>>,
}

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx { nodes: vec![], consts: vec![], cmap: HashMap::new(), map: HashMap::new(), syms: vec![], symsets: vec![], empty: std::rc::Rc::new(vec![]) };
        c.cst(1, 0); c.cst(1, 1);
        c
    }
    pub fn w(&self, e: E) -> u16 { self.nodes[e as usize].w }
    pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None }
    }
    pub fn cst(&mut self, w: u16, v: u128) -> E {
        let v = v & mask(w);
        if let Some(&e) = self.cmap.get(&(w, v)) { return e; }
        let i = self.consts.len() as u32;
        self.consts.push(v);
        let e = self.nodes.len() as E;
        self.nodes.push(Node { op: Op::Const, w, a: i, b: 0, c: 0 });
        self.symsets.push(self.empty.clone());
        self.cmap.insert((w, v), e);
        e
    }
    pub fn sym(&mut self, name: &str, w: u16) -> E {
        let i = self.syms.len() as u32;
        self.syms.push(SymInfo { name: name.to_string(), w });
        let e = self.nodes.len() as E;
        self.nodes.push(Node { op: Op::Sym, w, a: i, b: 0, c: 0 });
        self.symsets.push(std::rc::Rc::new(vec![i]));
        e
    }
    fn mk(&mut self, op: Op, w: u16, a: u32, b: u32, c: u32) -> E {
        let n = Node { op, w, a, b, c };
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.nodes.len() as E;
        let ch: Vec<E> = match op {
            Op::Extract | Op::ZExt | Op::SExt | Op::SiToFp | Op::UiToFp | Op::FRound | Op::FpToSi | Op::FpToUi | Op::FpCast => vec![a],
            Op::Ite => vec![a, b, c],
            _ => vec![a, b],
        };
        let mut best = self.symsets[ch[0] as usize].clone();
        for &x in &ch[1..] {
            let s = self.symsets[x as usize].clone();
            if s.is_empty() || std::rc::Rc::ptr_eq(&s, &best) { continue; }
            if best.is_empty() { best = s; continue; }
            let mut r = Vec::with_capacity(best.len() + s.len());
            let (mut i, mut j) = (0, 0);
            while i < best.len() || j < s.len() {
                if j >= s.len() || (i < best.len() && best[i] < s[j]) { r.push(best[i]); i += 1; }
                else if i >= best.len() || s[j] < best[i] { r.push(s[j]); j += 1; }
                else { r.push(s[j]); i += 1; j += 1; }
            }
            if r.len() == best.len() { } else if r.len() == s.len() { best = s; } else { best = std::rc::Rc::new(r); }
        }
        self.nodes.push(n);
        self.symsets.push(best);
        self.map.insert(n, e);
        e
    }
    pub fn tru(&mut self) -> E { self.cst(1, 1) }
    pub fn fals(&mut self) -> E { self.cst(1, 0) }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.cst(w, mask(w));
        self.bin(Op::Xor, a, m)
    }
    pub fn conc_bin(op: Op, w: u16, x: u128, y: u128) -> Option<u128> {
        let m = mask(w);
        Some(match op {
            Op::Add => x.wrapping_add(y) & m,
            Op::Sub => x.wrapping_sub(y) & m,
            Op::Mul => x.wrapping_mul(y) & m,
            Op::UDiv => { if y == 0 { return None; } x / y }
            Op::URem => { if y == 0 { return None; } x % y }
            Op::SDiv => { if y == 0 { return None; } (sext(x, w).wrapping_div(sext(y, w)) as u128) & m }
            Op::SRem => { if y == 0 { return None; } (sext(x, w).wrapping_rem(sext(y, w)) as u128) & m }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
            Op::LShr => if y >= w as u128 { 0 } else { x >> y },
            Op::AShr => { let s = sext(x, w); ((if y >= w as u128 { if s < 0 { -1 } else { 0 } } else { s >> y }) as u128) & m }
            Op::Eq => (x == y) as u128,
            Op::Ult => (x < y) as u128,
            Op::Ule => (x <= y) as u128,
            Op::Slt => (sext(x, w) < sext(y, w)) as u128,
            Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
            _ => return None,
        })
    }
    fn is_cmp(op: Op) -> bool { matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) }

    /// number of leading zero bits known syntactically
    fn klz(&self, e: E) -> u16 {
        let n = self.n(e);
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; n.w - (128 - v.leading_zeros() as u16).min(n.w) }
            Op::ZExt => n.w - self.w(n.a) + self.klz(n.a),
            Op::Concat => { let h = self.klz(n.a); if h == self.w(n.a) { h + self.klz(n.b) } else { h } }
            Op::Ite => self.klz(n.b).min(self.klz(n.c)),
            Op::And => self.klz(n.a).max(self.klz(n.b)),
            _ => 0,
        }
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if Self::is_cmp(op) { 1 } else { w };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = Self::conc_bin(op, w, x, y) { return self.cst(rw, r); }
        }
        let m = mask(w);
        let (mut a, mut b, ca, cb) = match op {
            // constants to the right for commutative operators
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq if ca.is_some() => (b, a, cb, ca),
            _ => (a, b, ca, cb),
        };
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    let n = self.n(a);
                    if n.op == Op::Add { if let Some(x) = self.as_const(n.b) { let k = self.cst(w, x.wrapping_add(y)); return self.bin(Op::Add, n.a, k); } }
                }
            }
            Op::Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.cst(w, 0); }
                if let Some(y) = cb { let k = self.cst(w, (0u128).wrapping_sub(y)); return self.bin(Op::Add, a, k); }
            }
            Op::Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.cst(w, y.trailing_zeros() as u128); return self.bin(Op::Shl, a, k); } }
            }
            Op::UDiv => { if cb == Some(1) { return a; } if let Some(y) = cb { if y.is_power_of_two() { let k = self.cst(w, y.trailing_zeros() as u128); return self.bin(Op::LShr, a, k); } } }
            Op::URem => { if let Some(y) = cb { if y.is_power_of_two() { let k = self.cst(w, y - 1); return self.bin(Op::And, a, k); } } }
            Op::And => {
                if cb == Some(0) { return b; }
                if cb == Some(m) || a == b { return a; }
                if let Some(y) = cb {
                    if (y & (y + 1)) == 0 {
                        let k = (128 - y.leading_zeros()) as u16;
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                    if w > 8 {
                        // contiguous mask not at zero
                        let lo = y.trailing_zeros() as u16;
                        let s = y >> lo;
                        if (s & (s + 1)) == 0 {
                            let k = (128 - s.leading_zeros()) as u16;
                            let x = self.extract(a, lo, k);
                            let z = self.cst(lo, 0);
                            let c = self.concat(x, z);
                            return self.zext(c, w);
                        }
                    }
                }
                if w == 1 { let nb = self.not_if_simple(b); if nb == Some(a) { return self.cst(1, 0); } }
            }
            Op::Or => {
                if cb == Some(0) { return a; }
                if cb == Some(m) || a == b { return b; }
                // disjoint concat merge
                for _ in 0..2 {
                    let n = self.n(a);
                    let (hi, lo, lw) = if n.op == Op::Concat { (n.a, n.b, self.w(n.b)) } else if n.op == Op::ZExt && self.n(n.a).op == Op::Concat {
                        let i = self.n(n.a); let h = self.zext(i.a, w - self.w(i.b)); (h, i.b, self.w(i.b)) } else { (0, 0, 0) };
                    if lw > 0 && self.as_const(lo) == Some(0) && self.klz(b) >= w - lw {
                        let l = self.extract(b, 0, lw);
                        return self.concat(hi, l);
                    }
                    std::mem::swap(&mut a, &mut b);
                }
                if w == 1 { let nb = self.not_if_simple(b); if nb == Some(a) { return self.cst(1, 1); } }
            }
            Op::Xor => {
                if cb == Some(0) { return a; }
                if a == b { return self.cst(w, 0); }
                if let Some(y) = cb {
                    let n = self.n(a);
                    if n.op == Op::Xor { if let Some(x) = self.as_const(n.b) { let k = self.cst(w, x ^ y); return self.bin(Op::Xor, n.a, k); } }
                    if n.op == Op::Ite && (self.as_const(n.b).is_some() || self.as_const(n.c).is_some()) {
                        let t = self.bin(Op::Xor, n.b, b); let f = self.bin(Op::Xor, n.c, b); return self.ite(n.a, t, f);
                    }
                    if w == 1 && y == 1 {
                        // negated comparisons
                        match n.op {
                            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
                            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
                            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
                            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    if y >= w as u128 { return self.cst(w, 0); }
                    let y = y as u16;
                    let x = self.extract(a, 0, w - y);
                    let z = self.cst(y, 0);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    if y >= w as u128 { return self.cst(w, 0); }
                    let y = y as u16;
                    let x = self.extract(a, y, w - y);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    let y = (y.min(w as u128 - 1)) as u16;
                    let x = self.extract(a, y, w - y);
                    return self.sext(x, w);
                }
            }
            Op::Eq => {
                if a == b { return self.cst(1, 1); }
                if w == 1 {
                    if let Some(y) = cb { return if y == 1 { a } else { self.not(a) }; }
                }
                if let Some(y) = cb {
                    let n = self.n(a);
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            if y >> iw != 0 { return self.cst(1, 0); }
                            let k = self.cst(iw, y);
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            if (sext(y & mask(iw), iw) as u128) & m != y { return self.cst(1, 0); }
                            let k = self.cst(iw, y);
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::Concat => {
                            let lw = self.w(n.b); let hw = self.w(n.a);
                            let kl = self.cst(lw, y); let kh = self.cst(hw, y >> lw);
                            let h = self.bin(Op::Eq, n.a, kh);
                            if self.as_const(h) == Some(0) { return h; }
                            let l = self.bin(Op::Eq, n.b, kl);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Ite => {
                            let (t, f) = (self.as_const(n.b), self.as_const(n.c));
                            if t.is_some() || f.is_some() {
                                let x = self.bin(Op::Eq, n.b, b); let z = self.bin(Op::Eq, n.c, b);
                                return self.ite(n.a, x, z);
                            }
                        }
                        Op::Add => if let Some(x) = self.as_const(n.b) { let k = self.cst(w, y.wrapping_sub(x)); return self.bin(Op::Eq, n.a, k); },
                        Op::Xor => if let Some(x) = self.as_const(n.b) { let k = self.cst(w, y ^ x); return self.bin(Op::Eq, n.a, k); },
                        _ => {}
                    }
                } else {
                    let (na, nb) = (self.n(a), self.n(b));
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
                        let h = self.bin(Op::Eq, na.a, nb.a);
                        if self.as_const(h) == Some(0) { return h; }
                        let l = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, h, l);
                    }
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
                    if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
                    if a > b { std::mem::swap(&mut a, &mut b); }
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) { return self.cst(1, 0); }
                if ca == Some(m) { return self.cst(1, 0); }
                if cb == Some(1) { let z = self.cst(w, 0); return self.bin(Op::Eq, a, z); }
                if ca == Some(0) { let z = self.cst(w, 0); let e = self.bin(Op::Eq, b, z); return self.not(e); }
                if let Some(y) = cb {
                    let lz = self.klz(a);
                    if lz > 0 {
                        if y > mask(w - lz) { return self.cst(1, 1); }
                        let x = self.extract(a, 0, w - lz); let k = self.cst(w - lz, y); return self.bin(Op::Ult, x, k);
                    }
                }
                if let Some(x) = ca {
                    let lz = self.klz(b);
                    if lz > 0 {
                        if x >= mask(w - lz) { return self.cst(1, 0); }
                        let y = self.extract(b, 0, w - lz); let k = self.cst(w - lz, x); return self.bin(Op::Ult, k, y);
                    }
                }
            }
            Op::Ule => {
                if a == b || ca == Some(0) || cb == Some(m) { return self.cst(1, 1); }
                if cb == Some(0) { let z = self.cst(w, 0); return self.bin(Op::Eq, a, z); }
                if let Some(y) = cb {
                    let lz = self.klz(a);
                    if lz > 0 {
                        if y >= mask(w - lz) { return self.cst(1, 1); }
                        let x = self.extract(a, 0, w - lz); let k = self.cst(w - lz, y); return self.bin(Op::Ule, x, k);
                    }
                }
                if let Some(x) = ca {
                    let lz = self.klz(b);
                    if lz > 0 {
                        if x > mask(w - lz) { return self.cst(1, 0); }
                        let y = self.extract(b, 0, w - lz); let k = self.cst(w - lz, x); return self.bin(Op::Ule, k, y);
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.cst(1, (op == Op::Sle) as u128); }
                // both non-negative: unsigned comparison
                if self.klz(a) > 0 && self.klz(b) > 0 { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
            }
            _ => {}
        }
        self.mk(op, rw, a, b, 0)
    }
    fn not_if_simple(&self, b: E) -> Option<E> {
        let n = self.n(b);
        if n.op == Op::Xor && n.w == 1 && self.as_const(n.b) == Some(1) { Some(n.a) } else { None }
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.n(a);
        if lo == 0 && w == n.w { return a; }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize] >> lo; return self.cst(w, v); }
            Op::Extract => return self.extract(n.a, n.b as u16 + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.cst(w, 0); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo < iw { let x = self.extract(n.a, lo, iw - lo); return self.sext(x, w); }
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
                    let t = self.extract(n.b, lo, w); let f = self.extract(n.c, lo, w); return self.ite(n.a, t, f);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if w <= 8 || self.as_const(n.b).is_some() {
                    let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); return self.bin(n.op, x, y);
                }
            }
            // higher bits of the operands do not matter
            Op::Add | Op::Sub | Op::Mul if lo > 0 && w <= 8 && lo + w < n.w => {
                let x = self.extract(n.a, 0, lo + w); let y = self.extract(n.b, 0, lo + w); let r = self.bin(n.op, x, y); return self.extract(r, lo, w);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, lo as u32, 0)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hn, ln) = (self.n(hi), self.n(lo));
        let w = hn.w + ln.w;
        if hn.op == Op::Const {
            let hv = self.consts[hn.a as usize];
            if ln.op == Op::Const { let v = (hv << ln.w) | self.consts[ln.a as usize]; return self.cst(w, v); }
            if hv == 0 { return self.zext(lo, w); }
        }
        // adjacent extracts of the same value
        if hn.op == Op::Extract {
            if ln.op == Op::Extract && hn.a == ln.a && hn.b == ln.b + ln.w as u32 { return self.extract(hn.a, ln.b as u16, w); }
        }
        // concat(extract(x,hi part), concat(extract(x, lower), rest))
        if ln.op == Op::Concat && hn.op == Op::Extract {
            let ih = self.n(ln.a);
            if ih.op == Op::Extract && ih.a == hn.a && hn.b == ih.b + ih.w as u32 {
                let m = self.extract(hn.a, ih.b as u16, hn.w + ih.w);
                return self.concat(m, ln.b);
            }
        }
        if hn.op == Op::ZExt && hn.w > self.w(hn.a) {
            let x = self.concat(hn.a, lo);
            return self.zext(x, w);
        }
        // extract(x, top) . (low half that is x's lowest part)
        if hn.op == Op::Extract && hn.a == lo && hn.b == 0 { /* unusual */ }
        if hn.op == Op::Concat {
            // right-associate so that adjacent pieces meet
            let inner = self.concat(hn.b, lo);
            return self.concat(hn.a, inner);
        }
        self.mk(Op::Concat, w, hi, lo, 0)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w { return a; }
        debug_assert!(w > n.w);
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; return self.cst(w, v); }
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        self.mk(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w { return a; }
        match n.op {
            Op::Const => { let v = sext(self.consts[n.a as usize], n.w) as u128; return self.cst(w, v); }
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        if self.klz(a) > 0 { return self.zext(a, w); }
        self.mk(Op::SExt, w, a, 0, 0)
    }
    pub fn trunc(&mut self, a: E, w: u16) -> E { self.extract(a, 0, w) }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(k) = self.as_const(c) { return if k == 1 { t } else { f }; }
        if t == f { return t; }
        let w = self.w(t);
        if let Some(x) = self.not_if_simple(c) { return self.ite(x, f, t); }
        if w == 1 {
            match (self.as_const(t), self.as_const(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, f); }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, t); }
                _ => {}
            }
        }
        self.mk(Op::Ite, w, c, t, f)
    }
    pub fn raw(&mut self, op: Op, w: u16, a: E, b: E, c: u32) -> E {
        // floating-point operators; folded when constant
        let n = Node { op, w, a, b, c };
        let un = matches!(op, Op::SiToFp | Op::UiToFp | Op::FpToSi | Op::FpToUi | Op::FpCast | Op::FRound);
        let x = self.as_const(a);
        let y = if un { Some(0) } else { self.as_const(b) };
        if let (Some(x), Some(y)) = (x, y) {
            let wa = self.w(a);
            let v = fp_eval(n, wa, x, y);
            return self.cst(w, v);
        }
        if op == Op::FCmp && self.w(a) == 64 {
            // converted integers are finite numbers; predicates: 1 eq, 2 gt, 4 lt, 8 unordered
            let inf = 0x7FF0_0000_0000_0000u128; let ninf = 0xFFF0_0000_0000_0000u128;
            let r = if self.finite(a) && y == Some(inf) || x == Some(ninf) && self.finite(b) { Some(c & 4 != 0) }
                else if self.finite(a) && y == Some(ninf) || x == Some(inf) && self.finite(b) { Some(c & 2 != 0) }
                else if a == b && self.finite(a) { Some(c & 1 != 0) }
                else if c == 8 && self.finite(a) && self.finite(b) { Some(false) } else { None };
            if let Some(r) = r { return self.cst(1, r as u128); }
        }
        self.mk(op, w, a, if un { 0 } else { b }, c)
    }
    /// rounding to an integral value: 0 down, 1 up, 2 towards zero, 3 to even, 4 away from zero
    pub fn fround(&mut self, a: E, mode: u32) -> E {
        if matches!(self.n(a).op, Op::SiToFp | Op::UiToFp | Op::FRound) { return a; }
        let w = self.w(a); self.raw(Op::FRound, w, a, 0, mode)
    }
    /// conversion to an integer of `rw` bits that saturates; 0 for NaN
    pub fn fpsat(&mut self, a: E, rw: u16, signed: bool) -> E {
        let w = self.w(a);
        let p = |x: f64| of_f(w, x);
        let (lo, hi, mn, mx) = if signed { (-(2f64.powi(rw as i32 - 1)), 2f64.powi(rw as i32 - 1), 1u128 << (rw - 1), mask(rw) >> 1) } else { (0.0, 2f64.powi(rw as i32), 0, mask(rw)) };
        let (lo, hi, mn, mx, z) = (self.cst(w, p(lo)), self.cst(w, p(hi)), self.cst(rw, mn), self.cst(rw, mx), self.cst(rw, 0));
        let r = self.raw(if signed { Op::FpToSi } else { Op::FpToUi }, rw, a, 0, 0);
        let c = self.raw(Op::FCmp, 1, a, hi, 3); let r = self.ite(c, mx, r);
        let c = self.raw(Op::FCmp, 1, a, lo, 5); let r = self.ite(c, mn, r);
        let c = self.raw(Op::FCmp, 1, a, a, 8); self.ite(c, z, r)
    }
    /// remainder by one (fmod)
    pub fn fmod1(&mut self, a: E) -> E {
        let w = self.w(a); let t = self.fround(a, 2); let d = self.raw(Op::FSub, w, a, t, 0);
        let (m, s) = (self.cst(w, mask(w) >> 1), self.cst(w, 1u128 << (w - 1)));
        let d = self.bin(Op::And, d, m); let s = self.bin(Op::And, a, s); self.bin(Op::Or, d, s)
    }
    fn finite(&self, e: E) -> bool {
        let n = self.n(e);
        match n.op {
            Op::SiToFp | Op::UiToFp => n.w == 64 && self.w(n.a) <= 64,
            Op::Const => self.consts[n.a as usize] >> 52 & 0x7FF != 0x7FF,
            Op::And => [(n.a, n.b), (n.b, n.a)].iter().any(|&(p, q)| self.as_const(p) == Some(0x7FFF_FFFF_FFFF_FFFF) && self.finite(q)),
            Op::ZExt => { let m = self.n(n.a); n.w == 64 && m.op == Op::Extract && m.b == 0 && m.w == 63 && self.finite(m.a) }
            _ => false,
        }
    }

    /// Evaluate under an assignment (missing symbols are 0).
    pub fn eval(&self, e: E, model: &[u128], memo: &mut HashMap<E, u128>) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Sym => return model.get(n.a as usize).copied().unwrap_or(0) & mask(n.w),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) { return v; }
        let v = match n.op {
            Op::Extract => (self.eval(n.a, model, memo) >> n.b) & mask(n.w),
            Op::ZExt => self.eval(n.a, model, memo),
            Op::SExt => { let iw = self.w(n.a); (sext(self.eval(n.a, model, memo), iw) as u128) & mask(n.w) }
            Op::Concat => { let lw = self.w(n.b); (self.eval(n.a, model, memo) << lw) | self.eval(n.b, model, memo) }
            Op::Ite => if self.eval(n.a, model, memo) == 1 { self.eval(n.b, model, memo) } else { self.eval(n.c, model, memo) },
            Op::FCmp | Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
                let x = self.eval(n.a, model, memo); let y = self.eval(n.b, model, memo);
                fp_eval(n, self.w(n.a), x, y)
            }
            Op::SiToFp | Op::UiToFp | Op::FpToSi | Op::FpToUi | Op::FpCast | Op::FRound => { let x = self.eval(n.a, model, memo); fp_eval(n, self.w(n.a), x, 0) }
            _ => {
                let x = self.eval(n.a, model, memo); let y = self.eval(n.b, model, memo);
                // SMT-LIB semantics for division by zero
                match Self::conc_bin(n.op, self.w(n.a), x, y) { Some(v) => v, None => match n.op { Op::UDiv => mask(n.w), Op::URem | Op::SRem => x, Op::SDiv => if sext(x, n.w) < 0 { 1 } else { mask(n.w) }, _ => 0 } }
            }
        };
        memo.insert(e, v);
        v
    }
}

/// fcmp predicates: bit0 = eq, bit1 = gt, bit2 = lt, bit3 = unordered
pub fn fcmp(p: u32, x: f64, y: f64) -> bool {
    (x.is_nan() || y.is_nan()) && p & 8 != 0 || x == y && p & 1 != 0 || x > y && p & 2 != 0 || x < y && p & 4 != 0
}
pub fn to_f(w: u16, v: u128) -> f64 { if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) } }
pub fn of_f(w: u16, v: f64) -> u128 { if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 } }
pub fn fp_eval(n: Node, wa: u16, x: u128, y: u128) -> u128 {
    match n.op {
        Op::FCmp => fcmp(n.c, to_f(wa, x), to_f(wa, y)) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
            if wa == 32 {
                let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                let r = match n.op { Op::FAdd => p + q, Op::FSub => p - q, Op::FMul => p * q, Op::FDiv => p / q, _ => p % q };
                r.to_bits() as u128
            } else {
                let (p, q) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                let r = match n.op { Op::FAdd => p + q, Op::FSub => p - q, Op::FMul => p * q, Op::FDiv => p / q, _ => p % q };
                r.to_bits() as u128
            }
        }
        Op::SiToFp => { let s = sext(x, wa); if n.w == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 } }
        Op::UiToFp => if n.w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 },
        Op::FpToSi => (to_f(wa, x) as i128 as u128) & mask(n.w),
        Op::FpToUi => (to_f(wa, x) as u128) & mask(n.w),
        Op::FRound => { let f = to_f(wa, x); of_f(wa, match n.c { 0 => f.floor(), 1 => f.ceil(), 2 => f.trunc(), 3 => f.round_ties_even(), _ => f.round() }) }
        Op::FpCast => of_f(n.w, to_f(wa, x)),
        _ => unreachable!(),
    }
}
