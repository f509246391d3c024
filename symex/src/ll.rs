//! Parser for textual LLVM IR (as written by rustc --emit=llvm-ir).
use std::collections::HashMap;
use std::sync::OnceLock;

pub type Ty = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TyK { Void, Int(u16), Ptr, F32, F64, Arr(u64, Ty), Vec(u32, Ty), Struct(Vec<Ty>, bool), Other }

pub const T_VOID: Ty = 0;
pub const T_PTR: Ty = 1;

#[derive(Default)]
pub struct Types { pub k: Vec<TyK>, map: HashMap<TyK, Ty>, pub size: Vec<u64>, pub align: Vec<u64> }

impl Types {
    pub fn get(&mut self, k: TyK) -> Ty {
        if let Some(&t) = self.map.get(&k) { return t; }
        let (s, a) = match &k {
            TyK::Void | TyK::Other => (0, 1),
            TyK::Int(w) => { let b = ((*w as u64) + 7) / 8; let p = b.next_power_of_two(); (p, p.min(16)) }
            TyK::Ptr | TyK::F64 => (8, 8),
            TyK::F32 => (4, 4),
            TyK::Arr(n, t) => (n * self.size[*t as usize], self.align[*t as usize]),
            TyK::Vec(n, t) => { let b = match self.k[*t as usize] { TyK::Int(w) => (*n as u64 * w as u64 + 7) / 8, _ => *n as u64 * self.size[*t as usize] }; let p = b.next_power_of_two(); (p, p) }
            TyK::Struct(f, packed) => {
                let (mut o, mut al) = (0u64, 1u64);
                for &t in f { let a = if *packed { 1 } else { self.align[t as usize] }; o = (o + a - 1) / a * a; o += self.size[t as usize]; al = al.max(a); }
                ((o + al - 1) / al * al, al)
            }
        };
        let i = self.k.len() as Ty;
        self.k.push(k.clone()); self.size.push(s); self.align.push(a); self.map.insert(k, i);
        i
    }
    pub fn field_off(&self, t: Ty, idx: usize) -> (u64, Ty) {
        match &self.k[t as usize] {
            TyK::Struct(f, packed) => {
                let mut o = 0u64;
                for (i, &x) in f.iter().enumerate() {
                    let a = if *packed { 1 } else { self.align[x as usize] };
                    o = (o + a - 1) / a * a;
                    if i == idx { return (o, x); }
                    o += self.size[x as usize];
                }
                panic!("field")
            }
            TyK::Arr(_, e) | TyK::Vec(_, e) => (idx as u64 * self.size[*e as usize], *e),
            _ => panic!("field_off of scalar"),
        }
    }
    /// bit width of a scalar type
    pub fn bits(&self, t: Ty) -> u16 { match self.k[t as usize] { TyK::Int(w) => w, TyK::Ptr | TyK::F64 => 64, TyK::F32 => 32, _ => 0 } }
    pub fn is_scalar(&self, t: Ty) -> bool { matches!(self.k[t as usize], TyK::Int(_) | TyK::Ptr | TyK::F32 | TyK::F64) }
}

#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), C(u64), W(u128), Agg(Box<[Opd]>) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bop { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast { Trunc, ZExt, SExt, Bit, FpToSi, FpToUi, SiToFp, UiToFp, FpCast }

#[derive(Clone, Debug, Default)]
pub struct Edge { pub to: u32, pub copies: Vec<(u32, Opd)> }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ind(Opd), Asm(u8) }

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bop, u16, u32, Opd, Opd),
    VBin(Bop, u16, u32, Opd, Opd),
    Icmp(Pred, u16, u32, Opd, Opd),
    VIcmp(Pred, u16, u32, Opd, Opd),
    Fcmp(u32, u16, u32, Opd, Opd),
    Cast(Cast, u16, u16, u32, Opd),
    VCast(Cast, u16, u16, u32, Opd),
    BitCast(Ty, Ty, u32, Opd),
    Load(Ty, u32, Opd),
    Store(Ty, Opd, Opd),
    /// scalar forms: bits, bytes
    LoadI(u16, u8, u32, Opd),
    StoreI(u16, u8, Opd, Opd),
    Gep(u32, Opd, u64, Vec<(Opd, u16, u64)>),
    Alloca(u32, u64),
    Select(u16, u32, Opd, Opd, Opd), // width if the operands may be merged into one expression, else 0
    VSelect(u32, Opd, Opd, Opd),
    Call(u32, Callee, Vec<Opd>, Vec<Ty>, Ty),
    Invoke(u32, Callee, Vec<Opd>, Vec<Ty>, Ty, Edge),
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Opd, Opd, Vec<u32>),
    ExtractEl(u32, Opd, Opd),
    InsertEl(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<i32>, Ty),
    Copy(u32, Opd),
    Rmw(Bop, u8, u16, u32, Opd, Opd), // kind: 0 = bop, 1 = xchg, 2 = nand, 3.. min/max unsupported
    CmpXchg(Ty, u32, Opd, Opd, Opd),
    FNeg(u16, u32, Opd),
    Br(Edge),
    CondBr(Opd, Edge, Edge),
    Switch(u16, Opd, Vec<(u64, Edge)>, Edge),
    Ret(Option<Opd>),
    Unreachable,
    Resume,
    Bad(String),
}

pub struct Func { pub name: String, pub id: u32, pub nregs: u32, pub params: Vec<u32>, pub code: Vec<I>, pub blocks: Vec<u32>, pub frame: u64 }

pub struct FnDecl { pub name: String, pub body: Option<(usize, usize)>, pub parsed: OnceLock<Result<&'static Func, String>> }

pub struct Global { pub name: String, pub constant: bool, pub data: Vec<u8>, pub defined: bool, src: (usize, usize) }

pub struct Module {
    text: Vec<u8>,
    types: std::sync::RwLock<Types>,
    named: HashMap<Vec<u8>, (usize, usize)>,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    gmap: HashMap<String, Sym>,
}

#[derive(Clone, Copy, Debug)]
enum Sym { F(u32), G(u32), Alias(usize, usize) }

pub const BASE: u64 = 0x10000;
pub const FN_ID: u64 = 0x7000_0000;
pub fn fn_addr(i: u32) -> u64 { (FN_ID << 32) + BASE + (i as u64) * 16 }
pub fn glob_addr(i: u32) -> u64 { ((i as u64 + 1) << 32) + BASE }

struct Lx<'a> { t: &'a [u8], p: usize, end: usize }

fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Lx<'a> {
    fn ws(&mut self) {
        while self.p < self.end {
            match self.t[self.p] {
                b' ' | b'\t' | b'\n' | b'\r' => self.p += 1,
                b';' => { while self.p < self.end && self.t[self.p] != b'\n' { self.p += 1; } }
                _ => break,
            }
        }
    }
    fn peek(&mut self) -> u8 { self.ws(); if self.p < self.end { self.t[self.p] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.p += 1; true } else { false } }
    fn exp(&mut self, c: u8) -> Result<(), String> { if self.eat(c) { Ok(()) } else { Err(format!("expected '{}' at: {}", c as char, self.ctx())) } }
    fn ctx(&self) -> String { String::from_utf8_lossy(&self.t[self.p..(self.p + 80).min(self.end)]).into_owned() }
    fn word(&mut self) -> &'a [u8] {
        self.ws();
        let s = self.p;
        while self.p < self.end && is_id(self.t[self.p]) { self.p += 1; }
        &self.t[s..self.p]
    }
    fn peek_word(&mut self) -> &'a [u8] { self.ws(); let s = self.p; let w = self.word(); self.p = s; w }
    fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w.as_bytes() { self.p += w.len(); true } else { false } }
    fn exp_word(&mut self, w: &str) -> Result<(), String> { if self.eat_word(w) { Ok(()) } else { Err(format!("expected {} at: {}", w, self.ctx())) } }
    /// name after % or @ (already consumed)
    fn name(&mut self) -> &'a [u8] {
        if self.p < self.end && self.t[self.p] == b'"' {
            self.p += 1; let s = self.p;
            while self.t[self.p] != b'"' { self.p += 1; }
            self.p += 1;
            &self.t[s..self.p - 1]
        } else { let s = self.p; while self.p < self.end && is_id(self.t[self.p]) { self.p += 1; } &self.t[s..self.p] }
    }
    fn int(&mut self) -> Result<u64, String> { let w = self.word(); std::str::from_utf8(w).unwrap().parse().map_err(|_| format!("int at {}", self.ctx())) }
    fn skip_balanced(&mut self) {
        // at an opening bracket
        let mut d = 0;
        loop {
            let c = self.t[self.p]; self.p += 1;
            match c {
                b'(' | b'[' | b'{' | b'<' => d += 1,
                b')' | b']' | b'}' | b'>' => { d -= 1; if d == 0 { return; } }
                b'"' => { while self.t[self.p] != b'"' { self.p += 1; } self.p += 1; }
                _ => {}
            }
        }
    }
    /// parameter / return attributes
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.p += 1; while self.t[self.p] != b'"' { self.p += 1; } self.p += 1;
                if self.p < self.end && self.t[self.p] == b'=' { self.p += 2; while self.t[self.p] != b'"' { self.p += 1; } self.p += 1; }
                continue;
            }
            if c == b'#' { self.p += 1; self.word(); continue; }
            if !c.is_ascii_lowercase() { return; }
            let s = self.p;
            let w = self.word();
            match w {
                b"noundef" | b"zeroext" | b"signext" | b"noalias" | b"nocapture" | b"readonly" | b"writeonly" | b"readnone" | b"nonnull" | b"immarg" | b"nofree" | b"nest" | b"returned" | b"inreg" | b"dead_on_unwind" | b"writable" | b"dead_on_return" | b"allocalign" | b"allocptr" | b"swiftself" | b"noext" => {}
                b"align" => { if self.peek() == b'(' { self.skip_balanced(); } else { self.word(); } }
                b"dereferenceable" | b"dereferenceable_or_null" | b"sret" | b"byval" | b"range" | b"captures" | b"initializes" | b"nofpclass" | b"elementtype" | b"memory" | b"inalloca" | b"preallocated" | b"byref" => { if self.peek() == b'(' { self.skip_balanced(); } }
                _ => { self.p = s; return; }
            }
        }
    }
}

impl Module {
    pub fn load(text: Vec<u8>) -> Result<Module, String> {
        let mut m = Module { text: vec![], types: Default::default(), named: HashMap::new(), fns: vec![], fn_by_name: HashMap::new(), globals: vec![], gmap: HashMap::new() };
        {
            let mut ty = m.types.write().unwrap();
            ty.get(TyK::Void); ty.get(TyK::Ptr);
        }
        let mut p = 0;
        let n = text.len();
        while p < n {
            let e = memchr(b'\n', &text, p);
            match text[p] {
                b'@' => {
                    let mut l = Lx { t: &text, p: p + 1, end: e };
                    let name = String::from_utf8_lossy(l.name()).into_owned();
                    l.exp(b'=')?;
                    let s = l.p;
                    // linkage words up to constant / global / alias
                    loop {
                        let w = l.word();
                        if w == b"constant" || w == b"global" {
                            let ext = { let head = &text[s..l.p]; find(head, b"external ").is_some() || find(head, b"extern_weak").is_some() };
                            let id = m.globals.len() as u32;
                            m.globals.push(Global { name: name.clone(), constant: w == b"constant", data: vec![], defined: !ext, src: (l.p, e) });
                            m.gmap.insert(name, Sym::G(id));
                            break;
                        }
                        if w == b"alias" { m.gmap.insert(name, Sym::Alias(l.p, e)); break; }
                        if w.is_empty() {
                            if l.peek() == b'(' { l.skip_balanced(); } else { return Err(format!("global: {}", l.ctx())); }
                        }
                    }
                }
                b'%' => {
                    let mut l = Lx { t: &text, p: p + 1, end: e };
                    let name = l.name().to_vec();
                    l.exp(b'=')?; l.exp_word("type")?;
                    m.named.insert(name, (l.p, e));
                }
                b'd' if text[p..].starts_with(b"define ") || text[p..].starts_with(b"declare ") => {
                    let def = text[p + 2] == b'f';
                    let at = { let mut q = p; let mut inq = false; while q < e { if text[q] == b'"' { inq = !inq; } if text[q] == b'@' && !inq { break; } q += 1; } q };
                    let mut l = Lx { t: &text, p: at + 1, end: e };
                    let name = String::from_utf8_lossy(l.name()).into_owned();
                    let id = m.fns.len() as u32;
                    let mut body = None;
                    if def {
                        let mut q = e;
                        loop { q = memchr(b'\n', &text, q) ; if q + 1 < n && text[q + 1] == b'}' { break; } q += 1; }
                        body = Some((p, q + 1));
                        p = q + 2;
                    }
                    m.fns.push(FnDecl { name: name.clone(), body, parsed: OnceLock::new() });
                    m.fn_by_name.insert(name.clone(), id);
                    m.gmap.insert(name, Sym::F(id));
                    if def { let e = memchr(b'\n', &text, p); p = e + 1; continue; }
                }
                _ => {}
            }
            p = e + 1;
        }
        m.text = text;
        for i in 0..m.globals.len() {
            if !m.globals[i].defined { m.globals[i].data = vec![0; 16]; continue; }
            let (s, e) = m.globals[i].src;
            let d = {
                let mut l = Lx { t: &m.text, p: s, end: e };
                let t = m.ty(&mut l)?;
                let size = { m.types.read().unwrap().size[t as usize] };
                let mut d = vec![0u8; size as usize];
                m.init(&mut l, t, &mut d, 0)?;
                d
            };
            m.globals[i].data = d;
        }
        Ok(m)
    }
    pub fn size(&self, t: Ty) -> u64 { self.types.read().unwrap().size[t as usize] }
    pub fn types(&self) -> std::sync::RwLockReadGuard<'_, Types> { self.types.read().unwrap() }
    fn tk(&self, k: TyK) -> Ty {
        { let t = self.types.read().unwrap(); if let Some(&x) = t.map.get(&k) { return x; } }
        self.types.write().unwrap().get(k)
    }
    fn kind(&self, t: Ty) -> TyK { self.types.read().unwrap().k[t as usize].clone() }

    fn ty(&self, l: &mut Lx) -> Result<Ty, String> {
        let c = l.peek();
        let t = match c {
            b'[' => { l.p += 1; let n = l.int()?; l.exp_word("x")?; let e = self.ty(l)?; l.exp(b']')?; self.tk(TyK::Arr(n, e)) }
            b'{' => { l.p += 1; let f = self.tylist(l, b'}')?; self.tk(TyK::Struct(f, false)) }
            b'<' => {
                l.p += 1;
                if l.peek() == b'{' { l.p += 1; let f = self.tylist(l, b'}')?; l.exp(b'>')?; self.tk(TyK::Struct(f, true)) }
                else { let n = l.int()?; l.exp_word("x")?; let e = self.ty(l)?; l.exp(b'>')?; self.tk(TyK::Vec(n as u32, e)) }
            }
            b'%' => {
                l.p += 1;
                let n = l.name();
                let &(s, e) = self.named.get(n).ok_or_else(|| format!("type {}", String::from_utf8_lossy(n)))?;
                let mut k = Lx { t: if self.text.is_empty() { l.t } else { &self.text }, p: s, end: e };
                self.ty(&mut k)?
            }
            _ => {
                let w = l.word();
                match w {
                    b"void" => T_VOID,
                    b"ptr" => { if l.peek() == b'a' && l.peek_word() == b"addrspace" { l.word(); l.skip_balanced(); } T_PTR }
                    b"float" => self.tk(TyK::F32),
                    b"double" => self.tk(TyK::F64),
                    b"opaque" | b"metadata" | b"label" | b"token" | b"half" | b"x86_fp80" | b"fp128" => self.tk(TyK::Other),
                    _ if w.first() == Some(&b'i') => { let n: u16 = std::str::from_utf8(&w[1..]).unwrap().parse().map_err(|_| format!("type {}", String::from_utf8_lossy(w)))?; self.tk(TyK::Int(n)) }
                    _ => return Err(format!("type {:?} at {}", String::from_utf8_lossy(w), l.ctx())),
                }
            }
        };
        Ok(t)
    }
    fn tylist(&self, l: &mut Lx, close: u8) -> Result<Vec<Ty>, String> {
        let mut f = vec![];
        if l.eat(close) { return Ok(f); }
        loop { f.push(self.ty(l)?); if l.eat(b',') { continue; } l.exp(close)?; return Ok(f); }
    }
    fn symaddr(&self, name: &[u8]) -> Result<u64, String> {
        let n = std::str::from_utf8(name).unwrap();
        match self.gmap.get(n) {
            Some(Sym::F(i)) => Ok(fn_addr(*i)),
            Some(Sym::G(i)) => Ok(glob_addr(*i)),
            Some(Sym::Alias(s, e)) => { let mut l = Lx { t: &self.text, p: *s, end: *e }; self.ty(&mut l)?; l.exp(b',')?; let t = self.ty(&mut l)?; match self.opd(&mut l, t, None)? { Opd::C(v) => Ok(v), _ => Err("alias".into()) } }
            None => Err(format!("unknown symbol @{}", n)),
        }
    }
    fn cbytes(l: &mut Lx) -> Vec<u8> {
        // at the opening quote of c"..."
        l.p += 1;
        let mut v = vec![];
        loop {
            let c = l.t[l.p];
            if c == b'"' { l.p += 1; return v; }
            if c == b'\\' {
                if l.t[l.p + 1] == b'\\' { v.push(b'\\'); l.p += 2; continue; }
                let h = std::str::from_utf8(&l.t[l.p + 1..l.p + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap()); l.p += 3; continue;
            }
            v.push(c); l.p += 1;
        }
    }
    /// write the initializer that follows into d
    fn init(&self, l: &mut Lx, t: Ty, d: &mut [u8], off: usize) -> Result<(), String> {
        let c = l.peek();
        let k = self.kind(t);
        match k {
            TyK::Arr(..) | TyK::Vec(..) | TyK::Struct(..) => {
                if c == b'c' && l.t[l.p + 1] == b'"' { l.p += 1; let b = Self::cbytes(l); d[off..off + b.len()].copy_from_slice(&b); return Ok(()); }
                let w = l.peek_word();
                if w == b"zeroinitializer" || w == b"undef" || w == b"poison" { l.word(); return Ok(()); }
                if w == b"splat" { return Err("splat init".into()); }
                let close: &[u8] = match c { b'[' => b"]", b'{' => b"}", b'<' => if l.t[l.p + 1] == b'{' { b"}>" } else { b">" }, _ => return Err(format!("init at {}", l.ctx())) };
                l.p += close.len();
                let mut i = 0;
                if l.peek() != close[0] {
                    loop {
                        let et = self.ty(l)?;
                        let (o, _) = { self.types.read().unwrap().field_off(t, i) };
                        self.init(l, et, d, off + o as usize)?;
                        i += 1;
                        if !l.eat(b',') { break; }
                    }
                }
                l.exp(close[0])?;
                if close.len() == 2 { l.exp(b'>')?; }
                Ok(())
            }
            _ => {
                let n = self.size(t) as usize;
                let bits = { self.types.read().unwrap().bits(t) };
                match self.opd(l, t, None)? {
                    Opd::C(v) => { let nb = n.min(8).min((bits as usize + 7) / 8); d[off..off + nb].copy_from_slice(&v.to_le_bytes()[..nb]); }
                    Opd::W(v) => d[off..off + 16].copy_from_slice(&v.to_le_bytes()),
                    _ => return Err("init".into()),
                }
                Ok(())
            }
        }
    }
    fn zero(&self, t: Ty) -> Opd {
        match self.kind(t) {
            TyK::Arr(n, e) => Opd::Agg((0..n).map(|_| self.zero(e)).collect()),
            TyK::Vec(n, e) => Opd::Agg((0..n).map(|_| self.zero(e)).collect()),
            TyK::Struct(f, _) => Opd::Agg(f.iter().map(|&x| self.zero(x)).collect()),
            TyK::Int(w) if w > 64 => Opd::W(0),
            _ => Opd::C(0),
        }
    }
    fn typed(&self, l: &mut Lx, fc: Option<&mut FnCx>) -> Result<(Ty, Opd), String> { let t = self.ty(l)?; l.attrs(); let o = self.opd(l, t, fc)?; Ok((t, o)) }

    fn cval(&self, l: &mut Lx) -> Result<(Ty, u64), String> {
        let t = self.ty(l)?; l.attrs();
        match self.opd(l, t, None)? { Opd::C(v) => Ok((t, v)), _ => Err(format!("constant expected at {}", l.ctx())) }
    }
    fn opd(&self, l: &mut Lx, t: Ty, mut fc: Option<&mut FnCx>) -> Result<Opd, String> {
        let c = l.peek();
        match c {
            b'%' => { l.p += 1; let n = l.name(); match fc { Some(f) => Ok(Opd::Reg(f.reg(n))), None => Err("register in constant".into()) } }
            b'@' => { l.p += 1; let n = l.name(); Ok(Opd::C(self.symaddr(n)?)) }
            b'{' | b'[' | b'<' => {
                let two = c == b'<' && l.t[l.p + 1] == b'{';
                l.p += if two { 2 } else { 1 };
                let close = if two { b'}' } else { match c { b'{' => b'}', b'[' => b']', _ => b'>' } };
                let mut v = vec![];
                if l.peek() != close { loop { let (_, o) = self.typed(l, fc.as_deref_mut())?; v.push(o); if !l.eat(b',') { break; } } }
                l.exp(close)?; if two { l.exp(b'>')?; }
                Ok(Opd::Agg(v.into()))
            }
            b'c' if l.t[l.p + 1] == b'"' => { l.p += 1; let b = Self::cbytes(l); Ok(Opd::Agg(b.into_iter().map(|x| Opd::C(x as u64)).collect())) }
            b'-' | b'+' | b'0'..=b'9' => {
                let s = l.p; if c == b'-' || c == b'+' { l.p += 1; }
                // numbers: integers, 0x hex floats, decimal floats
                while l.p < l.end && (l.t[l.p].is_ascii_alphanumeric() || l.t[l.p] == b'.' || ((l.t[l.p] == b'+' || l.t[l.p] == b'-') && l.t[l.p - 1] == b'e')) { l.p += 1; }
                let s = std::str::from_utf8(&l.t[s..l.p]).unwrap();
                let s = match s { "+qnan" => "NaN", "-qnan" => "-NaN", s => s };
                if s.ends_with("snan") { return Err("signalling NaN constant".into()); }
                match self.kind(t) {
                    TyK::F64 => Ok(Opd::C(if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { s.parse::<f64>().unwrap().to_bits() })),
                    TyK::F32 => Ok(Opd::C((if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32 } else { s.parse::<f32>().unwrap() }).to_bits() as u64)),
                    TyK::Int(w) => {
                        let v: i128 = if let Ok(x) = s.parse::<i128>() { x } else { s.parse::<u128>().map_err(|_| format!("number {}", s))? as i128 };
                        if w > 64 { Ok(Opd::W(v as u128 & crate::expr::mask(w))) } else { Ok(Opd::C((v as u128 & crate::expr::mask(w)) as u64)) }
                    }
                    k => Err(format!("number of type {:?}", k)),
                }
            }
            _ => {
                let w = l.word();
                if w.starts_with(b"f0x") { return u64::from_str_radix(std::str::from_utf8(&w[3..]).unwrap(), 16).map(Opd::C).map_err(|e| e.to_string()); }
                match w {
                    b"true" => Ok(Opd::C(1)),
                    b"false" => Ok(Opd::C(0)),
                    b"null" | b"none" => Ok(Opd::C(0)),
                    b"undef" | b"poison" | b"zeroinitializer" => Ok(self.zero(t)),
                    b"splat" => { l.exp(b'(')?; let (_, o) = self.typed(l, None)?; l.exp(b')')?; match self.kind(t) { TyK::Vec(n, _) => Ok(Opd::Agg((0..n).map(|_| o.clone()).collect())), _ => Err("splat".into()) } }
                    b"ptrtoint" | b"inttoptr" | b"bitcast" | b"trunc" | b"ptrtoaddr" => {
                        l.exp(b'(')?; let (_, v) = self.cval(l)?; l.exp_word("to")?; let t2 = self.ty(l)?; l.exp(b')')?;
                        let b = { self.types.read().unwrap().bits(t2) };
                        Ok(Opd::C((v as u128 & crate::expr::mask(b)) as u64))
                    }
                    b"getelementptr" => {
                        while { let x = l.peek_word(); x == b"inbounds" || x == b"nuw" || x == b"nusw" || x == b"inrange" } { l.word(); if l.peek() == b'(' && l.t[l.p - 1] == b'e' { l.skip_balanced(); } }
                        l.exp(b'(')?;
                        let bt = self.ty(l)?; l.exp(b',')?;
                        let (_, mut a) = self.cval(l)?;
                        let mut cur = bt; let mut first = true;
                        while l.eat(b',') {
                            l.eat_word("inrange");
                            let (it, v) = self.cval(l)?;
                            let ib = { self.types.read().unwrap().bits(it) };
                            let sv = crate::expr::sext(v as u128, ib) as i64;
                            if first { a = a.wrapping_add((sv.wrapping_mul(self.size(cur) as i64)) as u64); first = false; }
                            else { let (o, ft) = self.step(cur, sv); a = a.wrapping_add(o as u64); cur = ft; }
                        }
                        l.exp(b')')?;
                        Ok(Opd::C(a))
                    }
                    b"add" | b"sub" | b"xor" | b"mul" => {
                        while { let x = l.peek_word(); x == b"nuw" || x == b"nsw" } { l.word(); }
                        l.exp(b'(')?; let (t1, x) = self.cval(l)?; l.exp(b',')?; let (_, y) = self.cval(l)?; l.exp(b')')?;
                        let b = { self.types.read().unwrap().bits(t1) };
                        let r = match w { b"add" => x.wrapping_add(y), b"sub" => x.wrapping_sub(y), b"xor" => x ^ y, _ => x.wrapping_mul(y) };
                        Ok(Opd::C((r as u128 & crate::expr::mask(b)) as u64))
                    }
                    _ => Err(format!("operand {:?} at {}", String::from_utf8_lossy(w), l.ctx())),
                }
            }
        }
    }
    fn step(&self, t: Ty, idx: i64) -> (i64, Ty) {
        let ty = self.types.read().unwrap();
        match &ty.k[t as usize] {
            TyK::Struct(..) => { let (o, f) = ty.field_off(t, idx as usize); (o as i64, f) }
            TyK::Arr(_, e) | TyK::Vec(_, e) => (idx * ty.size[*e as usize] as i64, *e),
            _ => panic!("gep step"),
        }
    }

    pub fn func(&self, i: u32) -> Result<&'static Func, String> {
        self.fns[i as usize].parsed.get_or_init(|| self.parse_fn(i).map(|f| &*Box::leak(Box::new(f)))).clone()
    }

    fn parse_fn(&self, id: u32) -> Result<Func, String> {
        let d = &self.fns[id as usize];
        let (s, e) = d.body.ok_or("no body")?;
        let mut l = Lx { t: &self.text, p: s, end: e };
        let mut fc = FnCx { regs: HashMap::new(), n: 0, labels: HashMap::new(), frame: 0, phis: vec![] };
        // header: find '@name('
        { let mut inq = false; while !(l.t[l.p] == b'@' && !inq) { if l.t[l.p] == b'"' { inq = !inq; } l.p += 1; } }
        l.p += 1; l.name(); l.exp(b'(')?;
        let mut params = vec![];
        let mut anon = 0;
        if !l.eat(b')') {
            loop {
                if l.peek() == b'.' { l.p += 3; }
                else {
                    self.ty(&mut l)?; l.attrs();
                    if l.peek() == b'%' { l.p += 1; let n = l.name(); params.push(fc.reg(n)); }
                    else { let n = anon.to_string(); anon += 1; params.push(fc.reg(n.as_bytes())); }
                }
                if l.eat(b',') { continue; }
                l.exp(b')')?; break;
            }
        }
        // skip to end of header line
        while l.t[l.p] != b'\n' { l.p += 1; }
        l.p += 1;
        let mut code: Vec<I> = vec![];
        let mut blocks: Vec<u32> = vec![];
        let mut labels: Vec<Vec<u8>> = vec![];
        let _ = &mut labels;
        let mut bidx: HashMap<Vec<u8>, u32> = HashMap::new();
        let mut first = true;
        let mut cur: u32 = 0;
        loop {
            // a label?
            let c = l.peek();
            if c == 0 { break; }
            let save = l.p;
            let lab = if c == b'"' { let mut k = Lx { t: l.t, p: l.p, end: l.end }; let n = k.name(); if k.p < k.end && k.t[k.p] == b':' { l.p = k.p + 1; Some(n.to_vec()) } else { None } }
                else { let w = l.word(); if !w.is_empty() && l.p < l.end && l.t[l.p] == b':' { l.p += 1; Some(w.to_vec()) } else { l.p = save; None } };
            if let Some(n) = lab { bidx.insert(n.clone(), blocks.len() as u32); cur = blocks.len() as u32; blocks.push(code.len() as u32); first = false; let _ = n; continue; }
            if first { bidx.insert(b"\0entry".to_vec(), 0); blocks.push(0); cur = 0; first = false; }
            self.instr(&mut l, &mut fc, &mut code, cur)?;
        }
        // resolve labels and phis
        let lab: Vec<(Vec<u8>, u32)> = fc.labels.iter().map(|(k, v)| (k.clone(), *v)).collect();
        let mut lmap = vec![u32::MAX; lab.len()];
        for (n, i) in lab { lmap[i as usize] = *bidx.get(&n).or_else(|| None).unwrap_or(&u32::MAX); }
        // implicit numbered entry label may be referenced by phis
        for x in lmap.iter_mut() { if *x == u32::MAX { *x = 0; } }
        let mut byedge: HashMap<(u32, u32), Vec<(u32, Opd)>> = HashMap::new();
        for (blk, dst, inc) in &fc.phis { for (o, from) in inc { byedge.entry((lmap[*from as usize], *blk)).or_default().push((*dst, o.clone())); } }
        // which block is each instruction in
        let mut bi = 0usize;
        for (i, ins) in code.iter_mut().enumerate() {
            while bi + 1 < blocks.len() && blocks[bi + 1] as usize <= i { bi += 1; }
            let fix = |e: &mut Edge| { let to = lmap[e.to as usize]; e.to = blocks[to as usize]; if let Some(v) = byedge.get(&(bi as u32, to)) { e.copies = v.clone(); } };
            match ins {
                I::Br(e) => fix(e),
                I::CondBr(_, a, b) => { fix(a); fix(b) }
                I::Switch(_, _, v, d) => { for (_, e) in v.iter_mut() { fix(e) } fix(d) }
                I::Invoke(.., e) => fix(e),
                _ => {}
            }
        }
        Ok(Func { name: d.name.clone(), id, nregs: fc.n, params, code, blocks, frame: fc.frame })
    }

    fn label(&self, l: &mut Lx, fc: &mut FnCx) -> Result<u32, String> { l.exp_word("label")?; l.exp(b'%')?; let n = l.name(); Ok(fc.label(n)) }

    fn instr(&self, l: &mut Lx, fc: &mut FnCx, code: &mut Vec<I>, blk: u32) -> Result<(), String> {
        let start = l.p;
        let mut dst = u32::MAX;
        if l.peek() == b'%' { l.p += 1; let n = l.name(); dst = fc.reg(n); l.exp(b'=')?; }
        if l.peek() == b'#' { while l.t[l.p] != b'\n' { l.p += 1; } return Ok(()); }
        let mut w = l.word();
        while matches!(w, b"tail" | b"musttail" | b"notail") { w = l.word(); }
        let vecinfo = |t: Ty| -> (bool, u16) { let ty = self.types.read().unwrap(); match ty.k[t as usize] { TyK::Vec(_, e) => (true, ty.bits(e)), _ => (false, ty.bits(t)) } };
        match w {
            b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"and" | b"or" | b"xor" | b"shl" | b"lshr" | b"ashr" | b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
                while matches!(l.peek_word(), b"nuw" | b"nsw" | b"exact" | b"disjoint" | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"contract" | b"reassoc" | b"arcp" | b"afn") { l.word(); }
                let op = match w { b"add" => Bop::Add, b"sub" => Bop::Sub, b"mul" => Bop::Mul, b"udiv" => Bop::UDiv, b"sdiv" => Bop::SDiv, b"urem" => Bop::URem, b"srem" => Bop::SRem, b"and" => Bop::And, b"or" => Bop::Or, b"xor" => Bop::Xor, b"shl" => Bop::Shl, b"lshr" => Bop::LShr, b"ashr" => Bop::AShr, b"fadd" => Bop::FAdd, b"fsub" => Bop::FSub, b"fmul" => Bop::FMul, b"fdiv" => Bop::FDiv, _ => Bop::FRem };
                let t = self.ty(l)?; let a = self.opd(l, t, Some(fc))?; l.exp(b',')?; let b = self.opd(l, t, Some(fc))?;
                let (v, bits) = vecinfo(t);
                code.push(if v { I::VBin(op, bits, dst, a, b) } else { I::Bin(op, bits, dst, a, b) });
            }
            b"icmp" => {
                l.eat_word("samesign");
                let p = match l.word() { b"eq" => Pred::Eq, b"ne" => Pred::Ne, b"ugt" => Pred::Ugt, b"uge" => Pred::Uge, b"ult" => Pred::Ult, b"ule" => Pred::Ule, b"sgt" => Pred::Sgt, b"sge" => Pred::Sge, b"slt" => Pred::Slt, b"sle" => Pred::Sle, x => return Err(format!("icmp {:?}", x)) };
                let t = self.ty(l)?; let a = self.opd(l, t, Some(fc))?; l.exp(b',')?; let b = self.opd(l, t, Some(fc))?;
                let (v, bits) = vecinfo(t);
                code.push(if v { I::VIcmp(p, bits, dst, a, b) } else { I::Icmp(p, bits, dst, a, b) });
            }
            b"fcmp" => {
                while matches!(l.peek_word(), b"fast" | b"nnan" | b"ninf" | b"nsz" | b"contract" | b"reassoc" | b"arcp" | b"afn") { l.word(); }
                let p = match l.word() { b"false" => 0, b"oeq" => 1, b"ogt" => 2, b"oge" => 3, b"olt" => 4, b"ole" => 5, b"one" => 6, b"ord" => 7, b"uno" => 8, b"ueq" => 9, b"ugt" => 10, b"uge" => 11, b"ult" => 12, b"ule" => 13, b"une" => 14, _ => 15 };
                let t = self.ty(l)?; let a = self.opd(l, t, Some(fc))?; l.exp(b',')?; let b = self.opd(l, t, Some(fc))?;
                let (v, bits) = vecinfo(t);
                code.push(if v { I::Bad("vector fcmp".into()) } else { I::Fcmp(p, bits, dst, a, b) });
            }
            b"fneg" => { let t = self.ty(l)?; let a = self.opd(l, t, Some(fc))?; let (_, bits) = vecinfo(t); code.push(I::FNeg(bits, dst, a)); }
            b"trunc" | b"zext" | b"sext" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"fptosi" | b"fptoui" | b"sitofp" | b"uitofp" | b"fpext" | b"fptrunc" | b"ptrtoaddr" | b"addrspacecast" => {
                while matches!(l.peek_word(), b"nuw" | b"nsw" | b"nneg" | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"contract" | b"reassoc") { l.word(); }
                let t = self.ty(l)?; let a = self.opd(l, t, Some(fc))?; l.exp_word("to")?; let t2 = self.ty(l)?;
                let (v, b1) = vecinfo(t); let (v2, b2) = vecinfo(t2);
                if w == b"bitcast" && (v || v2) { code.push(I::BitCast(t, t2, dst, a)); }
                else {
                    let k = match w {
                        b"trunc" => Cast::Trunc, b"zext" => Cast::ZExt, b"sext" => Cast::SExt, b"fptosi" => Cast::FpToSi, b"fptoui" => Cast::FpToUi, b"sitofp" => Cast::SiToFp, b"uitofp" => Cast::UiToFp, b"fpext" | b"fptrunc" => Cast::FpCast,
                        _ => if b2 < b1 { Cast::Trunc } else if b2 > b1 { Cast::ZExt } else { Cast::Bit },
                    };
                    code.push(if v { I::VCast(k, b1, b2, dst, a) } else { I::Cast(k, b1, b2, dst, a) });
                }
            }
            b"load" => {
                while matches!(l.peek_word(), b"atomic" | b"volatile") { l.word(); }
                let t = self.ty(l)?; l.exp(b',')?; let (_, p) = self.typed(l, Some(fc))?;
                let ty = self.types(); if ty.is_scalar(t) { code.push(I::LoadI(ty.bits(t), ((ty.bits(t) + 7) / 8) as u8, dst, p)); } else { code.push(I::Load(t, dst, p)); }
            }
            b"store" => {
                while matches!(l.peek_word(), b"atomic" | b"volatile") { l.word(); }
                let (t, v) = self.typed(l, Some(fc))?; l.exp(b',')?; let (_, p) = self.typed(l, Some(fc))?;
                let ty = self.types(); if ty.is_scalar(t) { code.push(I::StoreI(ty.bits(t), ((ty.bits(t) + 7) / 8) as u8, v, p)); } else { code.push(I::Store(t, v, p)); }
            }
            b"getelementptr" => {
                while matches!(l.peek_word(), b"inbounds" | b"nuw" | b"nusw") { l.word(); }
                let bt = self.ty(l)?; l.exp(b',')?;
                let (_, base) = self.typed(l, Some(fc))?;
                let mut cur = bt; let mut first = true; let mut k = 0u64; let mut terms = vec![];
                while l.eat(b',') {
                    if l.peek() == b'!' { break; }
                    let (it, v) = self.typed(l, Some(fc))?;
                    let ib = { self.types.read().unwrap().bits(it) };
                    let scale; let next;
                    if first { scale = self.size(cur); next = cur; first = false; }
                    else {
                        match self.kind(cur) {
                            TyK::Struct(..) => { let Opd::C(i) = v else { return Err("struct gep".into()) }; let (o, f) = { self.types.read().unwrap().field_off(cur, i as usize) }; k = k.wrapping_add(o); cur = f; continue; }
                            TyK::Arr(_, e) | TyK::Vec(_, e) => { scale = self.size(e); next = e; }
                            _ => return Err("gep".into()),
                        }
                    }
                    match v { Opd::C(i) => { let s = crate::expr::sext(i as u128, ib) as i64; k = k.wrapping_add(s.wrapping_mul(scale as i64) as u64); } o => terms.push((o, ib, scale)) }
                    cur = next;
                }
                code.push(I::Gep(dst, base, k, terms));
            }
            b"alloca" => {
                let t = self.ty(l)?;
                let mut n = 1;
                let mut al = 16u64.min(self.types.read().unwrap().align[t as usize].max(1));
                while l.eat(b',') {
                    if l.eat_word("align") { al = l.int()?; }
                    else if l.peek() == b'!' { break; }
                    else { let (_, v) = self.typed(l, Some(fc))?; match v { Opd::C(x) => n = x, _ => return Err("dynamic alloca".into()) } }
                }
                // red zone between slots so that an overrun is noticed
                fc.frame = (fc.frame + al - 1) / al * al;
                code.push(I::Alloca(dst, fc.frame));
                fc.frame += self.size(t) * n;
            }
            b"select" => {
                while matches!(l.peek_word(), b"fast" | b"nnan" | b"ninf" | b"nsz" | b"contract" | b"reassoc") { l.word(); }
                let (ct, c) = self.typed(l, Some(fc))?; l.exp(b',')?; let (t, a) = self.typed(l, Some(fc))?; l.exp(b',')?; let (_, b) = self.typed(l, Some(fc))?;
                let (v, _) = vecinfo(ct);
                let merge = match self.kind(t) { TyK::Int(w) => w, TyK::F32 => 32, TyK::F64 => 64, _ => 0 };
                code.push(if v { I::VSelect(dst, c, a, b) } else { I::Select(merge, dst, c, a, b) });
            }
            b"extractvalue" => { let (_, a) = self.typed(l, Some(fc))?; let mut ix = vec![]; while l.eat(b',') { if l.peek() == b'!' { break; } ix.push(l.int()? as u32); } code.push(I::ExtractValue(dst, a, ix)); }
            b"insertvalue" => { let (_, a) = self.typed(l, Some(fc))?; l.exp(b',')?; let (_, v) = self.typed(l, Some(fc))?; let mut ix = vec![]; while l.eat(b',') { if l.peek() == b'!' { break; } ix.push(l.int()? as u32); } code.push(I::InsertValue(dst, a, v, ix)); }
            b"extractelement" => { let (_, a) = self.typed(l, Some(fc))?; l.exp(b',')?; let (_, i) = self.typed(l, Some(fc))?; code.push(I::ExtractEl(dst, a, i)); }
            b"insertelement" => { let (_, a) = self.typed(l, Some(fc))?; l.exp(b',')?; let (_, v) = self.typed(l, Some(fc))?; l.exp(b',')?; let (_, i) = self.typed(l, Some(fc))?; code.push(I::InsertEl(dst, a, v, i)); }
            b"shufflevector" => {
                let (t, a) = self.typed(l, Some(fc))?; l.exp(b',')?; let (_, b) = self.typed(l, Some(fc))?; l.exp(b',')?;
                let mt = self.ty(l)?; let m = self.opd(l, mt, None)?;
                let Opd::Agg(m) = m else { return Err("shuffle mask".into()) };
                code.push(I::Shuffle(dst, a, b, m.iter().map(|x| match x { Opd::C(v) => *v as u32 as i32, _ => 0 }).collect(), t));
            }
            b"freeze" => { let (_, a) = self.typed(l, Some(fc))?; code.push(I::Copy(dst, a)); }
            b"phi" => {
                while matches!(l.peek_word(), b"fast" | b"nnan" | b"ninf" | b"nsz" | b"contract" | b"reassoc") { l.word(); }
                let t = self.ty(l)?;
                let mut inc = vec![];
                loop {
                    l.exp(b'[')?; let o = self.opd(l, t, Some(fc))?; l.exp(b',')?; l.exp(b'%')?; let n = l.name(); let lb = fc.label(n); l.exp(b']')?;
                    inc.push((o, lb));
                    if l.peek() == b',' { let s = l.p; l.p += 1; if l.peek() != b'[' { l.p = s; break; } } else { break; }
                }
                fc.phis.push((blk, dst, inc));
            }
            b"br" => {
                if l.peek_word() == b"label" { let t = self.label(l, fc)?; code.push(I::Br(Edge { to: t, copies: vec![] })); }
                else { let (_, c) = self.typed(l, Some(fc))?; l.exp(b',')?; let a = self.label(l, fc)?; l.exp(b',')?; let b = self.label(l, fc)?; code.push(I::CondBr(c, Edge { to: a, copies: vec![] }, Edge { to: b, copies: vec![] })); }
            }
            b"switch" => {
                let (t, v) = self.typed(l, Some(fc))?; l.exp(b',')?; let d = self.label(l, fc)?; l.exp(b'[')?;
                let mut cs = vec![];
                while !l.eat(b']') { let (_, c) = self.typed(l, Some(fc))?; l.exp(b',')?; let lb = self.label(l, fc)?; let Opd::C(k) = c else { return Err("wide switch".into()) }; cs.push((k, Edge { to: lb, copies: vec![] })); }
                let (_, bits) = vecinfo(t);
                code.push(I::Switch(bits, v, cs, Edge { to: d, copies: vec![] }));
            }
            b"ret" => { let t = self.ty(l)?; if t == T_VOID { code.push(I::Ret(None)); } else { let o = self.opd(l, t, Some(fc))?; code.push(I::Ret(Some(o))); } }
            b"unreachable" => code.push(I::Unreachable),
            b"resume" => { code.push(I::Resume); }
            b"landingpad" => { let t = self.ty(l)?; let z = self.zero(t); while matches!(l.peek_word(), b"cleanup" | b"catch" | b"filter") { if l.word() != b"cleanup" { self.typed(l, Some(fc))?; } } code.push(I::Copy(dst, z)); }
            b"fence" => {}
            b"atomicrmw" => {
                l.eat_word("volatile");
                let k = l.word().to_vec(); let (_, p) = self.typed(l, Some(fc))?; l.exp(b',')?; let (t, v) = self.typed(l, Some(fc))?;
                let (_, bits) = vecinfo(t);
                let (op, kind) = match &k[..] { b"add" => (Bop::Add, 0), b"sub" => (Bop::Sub, 0), b"and" => (Bop::And, 0), b"or" => (Bop::Or, 0), b"xor" => (Bop::Xor, 0), b"xchg" => (Bop::Add, 1), _ => (Bop::Add, 3) };
                code.push(I::Rmw(op, kind, bits, dst, p, v));
            }
            b"cmpxchg" => {
                while matches!(l.peek_word(), b"weak" | b"volatile") { l.word(); }
                let (_, p) = self.typed(l, Some(fc))?; l.exp(b',')?; let (t, c) = self.typed(l, Some(fc))?; l.exp(b',')?; let (_, n) = self.typed(l, Some(fc))?;
                code.push(I::CmpXchg(t, dst, p, c, n));
            }
            b"call" | b"invoke" => {
                while matches!(l.peek_word(), b"fast" | b"nnan" | b"ninf" | b"nsz" | b"contract" | b"reassoc" | b"arcp" | b"afn" | b"fastcc" | b"coldcc" | b"ccc" | b"tailcc" | b"preserve_mostcc" | b"cc") { if l.word() == b"cc" { l.word(); } }
                l.attrs();
                let rt = self.ty(l)?;
                if l.peek() == b'(' { l.skip_balanced(); }
                let c = l.peek();
                let callee = if c == b'@' {
                    l.p += 1; let n = l.name();
                    match self.gmap.get(std::str::from_utf8(n).unwrap()) { Some(Sym::F(i)) => Callee::Fn(*i), Some(_) => Callee::Ind(Opd::C(self.symaddr(n)?)), None => return Err(format!("callee {}", String::from_utf8_lossy(n))) }
                } else if c == b'%' { l.p += 1; let n = l.name(); Callee::Ind(Opd::Reg(fc.reg(n))) }
                else if l.eat_word("asm") {
                    while matches!(l.peek_word(), b"sideeffect" | b"inteldialect" | b"alignstack" | b"unwind") { l.word(); }
                    // understood: no instructions at all, with the result being the (first) operand; 0: no result, 1: identity, 2: unknown
                    l.peek(); let t = l.name().to_vec(); l.exp(b',')?; l.peek(); let c = l.name().to_vec();
                    let empty = t.is_empty() || (t.starts_with(b"/*") && t.ends_with(b"*/") && find(&t[2..t.len() - 2], b"*/").is_none());
                    Callee::Asm(if !empty { 2 } else if rt == T_VOID { 0 } else if c.starts_with(b"=&r,0,") || c.starts_with(b"=r,0,") || c == b"=&r,0" || c == b"=r,0" { 1 } else { 2 })
                } else { let o = self.opd(l, T_PTR, Some(fc))?; Callee::Ind(o) };
                l.exp(b'(')?;
                let mut args = vec![]; let mut tys = vec![];
                if !l.eat(b')') {
                    loop {
                        let t = self.ty(l)?;
                        if self.kind(t) == TyK::Other {
                            // metadata operand
                            let mut d = 0; loop { let c = l.peek(); match c { b'(' | b'{' => d += 1, b')' if d == 0 => break, b'}' | b')' => d -= 1, b',' if d == 0 => break, b'"' => { l.name(); continue; } _ => {} } l.p += 1; }
                            args.push(Opd::C(0)); tys.push(t);
                        } else { l.attrs(); args.push(self.opd(l, t, Some(fc))?); tys.push(t); }
                        if l.eat(b',') { continue; }
                        l.exp(b')')?; break;
                    }
                }
                if w == b"invoke" {
                    l.attrs();
                    if l.peek() == b'[' { l.skip_balanced(); }
                    l.exp_word("to")?; let a = self.label(l, fc)?; l.exp_word("unwind")?; let _ = self.label(l, fc)?;
                    code.push(I::Invoke(dst, callee, args, tys, rt, Edge { to: a, copies: vec![] }));
                } else { code.push(I::Call(dst, callee, args, tys, rt)); }
            }
            _ => return Err(format!("instruction {:?} in: {}", String::from_utf8_lossy(w), String::from_utf8_lossy(&l.t[start..(start + 120).min(l.end)]))),
        }
        // rest of the line: alignment, metadata, attribute groups (switch bodies etc. are consumed already);
        // look-ahead may have crossed the line end, so step back over white space first
        while l.p > start && matches!(l.t[l.p - 1], b' ' | b'\n' | b'\t') { l.p -= 1; }
        while l.p < l.end && l.t[l.p] != b'\n' { l.p += 1; }
        Ok(())
    }
}

struct FnCx { regs: HashMap<Vec<u8>, u32>, n: u32, labels: HashMap<Vec<u8>, u32>, frame: u64, phis: Vec<(u32, u32, Vec<(Opd, u32)>)> }
impl FnCx {
    fn reg(&mut self, n: &[u8]) -> u32 { if let Some(&r) = self.regs.get(n) { return r; } let r = self.n; self.n += 1; self.regs.insert(n.to_vec(), r); r }
    fn label(&mut self, n: &[u8]) -> u32 { let k = self.labels.len() as u32; *self.labels.entry(n.to_vec()).or_insert(k) }
}

fn memchr(c: u8, t: &[u8], p: usize) -> usize { t[p..].iter().position(|&x| x == c).map(|i| i + p).unwrap_or(t.len()) }
fn find(h: &[u8], n: &[u8]) -> Option<usize> { h.windows(n.len()).position(|w| w == n) }
