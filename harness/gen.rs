//! Builds symbolic JSON documents that conform to a definition of the official schema.
use crate::sym::*;
use serde_json::{Map, Number, Value};

pub enum N {
    Str, Const(&'static str), Enum(&'static [&'static str]),
    Int, IntMin0, CInt(i64), Num, Num01, Bool, Null, Any, AnyObj,
    Arr(&'static N, usize),
    Obj(&'static [(&'static str, bool, &'static N)], bool),
    Map(&'static N),
    Union(&'static [&'static N]),
    Ref(&'static N),
}

#[derive(Clone, Copy)]
pub struct G {
    /// optional members are present by default
    pub full: bool,
    /// how many choices may still deviate from the default
    pub dev: u32,
    /// deviations only down to this object depth
    pub devdepth: u32,
    /// optional members by default only down to this depth
    pub fulldepth: u32,
    /// string shape
    pub prof: u8,
    pub depth: u32,
    /// number of the rotating configuration, index in the innermost array
    pub rot: usize,
    pub item: usize,
    /// symbolic numbers so far (in rotating configurations there are two, the others are fixed)
    pub nums: usize,
    /// a member name was left symbolic
    pub keyed: bool,
}

/// lengths of the strings of rotating configurations: n symbolic ASCII characters, or 1000 + n for n two-byte
/// characters after one ASCII character, or 2000 + n for n four-byte characters
pub const LENS: [usize; 49] = [2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 34, 35, 36, 37, 38, 39, 40, 64, 65, 100, 129, 257, 1002, 1003, 1010, 1070, 1130, 2001, 2003];
/// lengths of the arrays and maps of rotating configurations
pub const SIZES: [usize; 7] = [2, 3, 4, 5, 7, 9, 12];

/// a number depending on the name
fn tag(name: &str) -> usize { let mut r = 0; for b in name.bytes() { r += b as usize; } r }

impl G {
    pub fn new(full: bool, dev: u32, prof: u8) -> G { G { full, dev, devdepth: 2, fulldepth: 3, prof, depth: 0, rot: 0, item: 0, nums: 0, keyed: false } }
    /// the configurations every document harness ranges over
    pub fn any(k: usize) -> G {
        match k {
            0 => G::new(true, crate::DEV, 0),
            1 => G::new(false, crate::DEV, 5),
            2 => G::new(true, 0, 1),
            3 => G::new(false, 0, 2),
            4 => G::new(true, 0, 3),
            5 => G::new(true, 0, 4),
            6 => { let mut g = G::new(true, 0, 8); g.fulldepth = 2; g }
            _ => { let mut g = G::new(true, 0, 7); g.rot = k - 7; g }
        }
    }
    /// documents with fixed leaf values (and, where asked, structural deviations)
    pub fn fixed(full: bool, dev: u32) -> G { G::new(full, dev, 6) }
    /// any configuration
    pub fn pick() -> G {
        let k = choose("cfg", 8); unsafe { crate::CFG = k; }
        if k < 7 { return G::any(k); }
        let mut r = choose("rotation", crate::ROT);
        if crate::ROT < LENS.len() { r = r * LENS.len() / crate::ROT; }
        G::any(7 + r)
    }
    /// any configuration but the dictionary
    pub fn some() -> G { let g = G::pick(); assume(g.prof != 8); g }
    fn fixnum(&mut self) -> bool { if self.prof != 7 { return false; } self.nums += 1; self.nums > 2 }
    fn size(&self) -> usize { if self.prof == 7 && self.depth < 2 { SIZES[(self.rot + self.item) % SIZES.len()] } else { 1 } }
    fn key(&mut self, i: usize) -> String {
        if self.prof == 7 && !self.keyed { self.keyed = true; return self.string("key"); }
        self.keyname(i)
    }
    fn keyname(&self, i: usize) -> String {
        String::from(["k1", "io.x/k2", "a", "Z", "", "k_", "k-6", "zz", "\u{e9}", "k/9", "10", "k 11"][i])
    }
    pub fn alt(&mut self, name: &str, n: usize, dflt: usize) -> usize {
        if self.prof == 7 && n > 1 && self.depth <= self.devdepth {
            // optional members are now and then absent; unions and enumerations rotate
            return if n == 2 && dflt == 1 { (self.rot % 4 == 0 || (self.rot * 3 + tag(name) + self.depth as usize) % 4 != 0) as usize } else { (self.rot + self.item) % n };
        }
        if n <= 1 || self.dev == 0 || self.depth > self.devdepth { return dflt; }
        if choose("dev", 2) == 0 { return dflt; }
        self.dev -= 1;
        let k = choose(name, n - 1);
        if k >= dflt { k + 1 } else { k }
    }
    pub fn string(&mut self, name: &str) -> String {
        if self.prof == 7 {
            let l = LENS[(self.rot + tag(name) + self.item) % LENS.len()];
            return if l < 1000 { ascii(name, l) } else if l < 2000 { nonascii(name, l - 1000) } else { wide(name, l - 2000) };
        }
        match self.prof { 8 => String::from("\u{e8}"), 0 => ascii(name, 3), 1 => String::new(), 2 => ascii(name, 1), 3 => ascii(name, 33), 4 => nonascii(name, 5), 6 => { let mut t = String::from("v\u{e9}"); t.push_str(name); t } _ => nonascii(name, 1) }
    }
    pub fn gen(&mut self, n: &'static N, name: &'static str) -> Value {
        match n {
            N::Ref(r) => self.gen(r, name),
            N::Str => Value::String(self.string(name)),
            N::Const(s) => Value::String(String::from(*s)),
            N::Enum(v) => { let k = self.alt(name, v.len(), 0); Value::String(String::from(v[k])) }
            N::Int | N::IntMin0 if self.prof == 6 || self.prof == 8 || self.fixnum() => Value::Number(Number::from(7)),
            N::Num | N::Num01 if self.prof == 6 || self.prof == 8 || self.fixnum() => match Number::from_f64(0.5) { Some(n) => Value::Number(n), None => Value::Null },
            N::Bool if self.prof == 6 || self.prof == 8 => Value::Bool(true),
            N::Int => Value::Number(Number::from(any_i64(name))),
            N::IntMin0 => Value::Number(Number::from(sym(name, 63))),
            N::CInt(k) => Value::Number(Number::from(*k)),
            // a number member may be written as an integer; those beyond 2^53 are not representable in the crate's doubles
            N::Num if self.prof == 1 || self.prof == 5 || (self.prof == 7 && self.rot & 1 == 1) => { let m = sym(name, 53) as i64; Value::Number(Number::from(if any_bool("negative") { -m } else { m })) }
            N::Num01 if self.prof == 1 || self.prof == 5 || (self.prof == 7 && self.rot & 1 == 1) => Value::Number(Number::from(sym(name, 1))),
            N::Num => match Number::from_f64(any_f64(name)) { Some(n) => Value::Number(n), None => { assume(false); Value::Null } },
            N::Num01 => { let b = sym(name, 62); assume(b <= 0x3FF0_0000_0000_0000); match Number::from_f64(f64::from_bits(b)) { Some(n) => Value::Number(n), None => { assume(false); Value::Null } } }
            N::Bool => Value::Bool(any_bool(name)),
            N::Null => Value::Null,
            N::Any if self.prof == 8 => if self.depth < 3 { self.dict() } else { Value::Bool(false) },
            N::Any if self.prof == 7 => { self.any_rot(name) }
            N::Any => match self.alt(name, if self.prof == 6 { 1 } else { 6 }, 0) {
                0 => Value::String(self.string(name)),
                1 => Value::Number(Number::from(any_i64(name))),
                2 => Value::Bool(any_bool(name)),
                3 => Value::Array(vec![Value::Null, Value::String(self.string(name))]),
                4 => self.anyobj(name),
                _ => match Number::from_f64(any_f64(name)) { Some(n) => Value::Number(n), None => { assume(false); Value::Null } },
            },
            N::AnyObj => self.anyobj(name),
            N::Arr(e, max) => {
                let d = if self.full && self.depth < self.fulldepth { if *max < 2 { 1 } else { self.size() } } else { 0 };
                let len = if self.prof == 7 { d } else { self.alt(name, *max + 1, d) };
                let mut v = Vec::with_capacity(len);
                self.depth += 1;
                let it = self.item; for i in 0..len { self.item = it + i; v.push(self.gen(e, name)); } self.item = it;
                self.depth -= 1;
                Value::Array(v)
            }
            N::Map(e) => {
                if self.prof == 8 && self.depth < 3 && !matches!(e, N::Ref(_) | N::Union(_) | N::Obj(_, _) | N::Map(_)) { // one member per name of the dictionary
                    let mut m = Map::new(); self.depth += 1; self.prof = 6;
                    for k in crate::spec::DICT { let v = self.gen(e, name); m.insert(String::from(*k), v); }
                    self.depth -= 1; self.prof = 8; return Value::Object(m);
                }
                let d = if self.full && self.depth < self.fulldepth { if self.rot & 1 == 0 { 1 } else { self.size() } } else { 0 };
                let len = if self.prof == 7 { d } else { self.alt(name, 3, d) };
                let mut m = Map::new();
                self.depth += 1;
                for i in 0..len { let v = self.gen(e, name); let k = if len == 1 { self.key(i) } else { self.keyname(i) }; m.insert(k, v); }
                self.depth -= 1;
                Value::Object(m)
            }
            N::Obj(ps, extra) => {
                let mut m = Map::new();
                for (k, req, e) in ps.iter() {
                    let on = *req || self.alt(k, 2, (self.full && self.depth < self.fulldepth) as usize) == 1;
                    if on {
                        self.depth += 1;
                        let v = self.gen(e, k);
                        self.depth -= 1;
                        m.insert(String::from(*k), v);
                    }
                }
                if *extra && self.prof == 8 && self.depth < 2 {
                    for k in crate::spec::DICT { if member(ps, k).is_none() { m.insert(String::from(*k), Value::Array(vec![Value::Null])); } }
                }
                else if *extra && self.prof == 7 && self.depth < 2 && self.rot % 3 == 1 {
                    let v = self.any_rot("extra");
                    let k = if self.keyed || self.depth > 0 { String::from("xExtra") } else { let k = self.key(0); for (q, _, _) in ps.iter() { assume8(streq(&k, q) ^ 1); } k };
                    m.insert(k, v);
                }
                else if *extra && self.alt("extra", 2, 0) == 1 { let v = Value::String(self.string("extra")); m.insert(String::from("xExtra"), v); }
                Value::Object(m)
            }
            N::Union(v) => { let k = self.alt(name, v.len(), 0); self.gen(v[k], name) }
        }
    }
    /// a free-form value whose kind depends on the rotation
    fn any_rot(&mut self, name: &'static str) -> Value {
        match (self.rot + tag(name)) % 7 {
            0 => Value::String(self.string(name)),
            1 | 5 | 6 if self.fixnum() => Value::Number(Number::from(-3)),
            1 => Value::Number(Number::from(any_i64(name))),
            2 => Value::Bool(any_bool(name)),
            3 => { let n = self.size(); let mut v = vec![Value::Null]; for i in 0..n { v.push(Value::Number(Number::from(i as u64))); } v.push(Value::String(self.string(name))); Value::Array(v) }
            4 => { let mut m = Map::new(); let mut x = Map::new(); x.insert(String::from("b"), Value::Array(vec![Value::Object(Map::new()), Value::Bool(any_bool(name))])); let k = self.key(0); m.insert(k, Value::Object(x)); Value::Object(m) }
            5 => Value::Number(Number::from(sym(name, 64))),
            _ => match Number::from_f64(any_f64(name)) { Some(n) => Value::Number(n), None => { assume(false); Value::Null } },
        }
    }
    /// an object with one member per name of the dictionary
    fn dict(&self) -> Value {
        let mut m = Map::new();
        for (i, k) in crate::spec::DICT.iter().enumerate() { m.insert(String::from(*k), match i % 4 { 0 => Value::Null, 1 => Value::Number(Number::from(i)), 2 => Value::String(String::from(*k)), _ => Value::Bool(true) }); }
        Value::Object(m)
    }
    fn anyobj(&mut self, name: &'static str) -> Value {
        if self.prof == 8 { return self.dict(); }
        let mut m = Map::new();
        if self.prof == 7 {
            let k = self.key(0);
            let v = self.any_rot(name);
            m.insert(k, v);
            return Value::Object(m);
        }
        match self.alt(name, if self.prof == 6 { 2 } else { 3 }, 1) {
            0 => {}
            1 => { m.insert(String::from("a"), Value::String(self.string(name))); }
            _ => { m.insert(String::from("a"), Value::Null); m.insert(String::from("z"), Value::Number(Number::from(any_i64(name)))); }
        }
        Value::Object(m)
    }
}

fn numeq(a: &Number, b: &Number) -> u8 {
    match (a.as_i64(), b.as_i64()) {
        (Some(x), Some(y)) => (x == y) as u8,
        _ => match (a.as_u64(), b.as_u64()) {
            (Some(x), Some(y)) => (x == y) as u8,
            _ => match (a.as_f64(), b.as_f64()) { (Some(x), Some(y)) => (x.to_bits() == y.to_bits()) as u8 | (x == y) as u8, _ => 0 },
        },
    }
}
/// JSON equality (numbers by value) as one condition
pub fn veq(a: &Value, b: &Value) -> u8 {
    match (a, b) {
        (Value::Null, Value::Null) => 1,
        (Value::Bool(x), Value::Bool(y)) => (*x as u8 ^ *y as u8) ^ 1,
        (Value::Number(x), Value::Number(y)) => numeq(x, y),
        (Value::String(x), Value::String(y)) => streq(x, y),
        (Value::Array(x), Value::Array(y)) => { if x.len() != y.len() { return 0; } let mut r = 1; let mut i = 0; while i < x.len() { r &= veq(&x[i], &y[i]); i += 1; } r }
        (Value::Object(x), Value::Object(y)) => {
            if x.len() != y.len() { return 0; }
            let mut r = 1;
            let mut j = y.iter();
            for (k, v) in x.iter() { match j.next() { Some((k2, w)) => { r &= streq(k, k2); r &= veq(v, w); } None => return 0 } }
            r
        }
        _ => 0,
    }
}
fn blank(v: &Value) -> bool { match v { Value::Null => true, Value::Array(z) => z.is_empty(), Value::Object(z) => z.is_empty(), _ => false } }
/// `b` is the document `a` (an instance of `n`), except that members optional in `n` which hold null or
/// an empty array or object may be left out of `b`
pub fn veq_n(n: &'static N, a: &Value, b: &Value) -> u8 {
    match (n, a, b) {
        (N::Ref(r), _, _) => veq_n(r, a, b),
        (N::Union(alts), _, _) => { let mut r = 0; let mut i = 0; while i < alts.len() { r |= veq_n(alts[i], a, b); i += 1; } r }
        (N::Arr(e, _), Value::Array(x), Value::Array(y)) => { if x.len() != y.len() { return 0; } let mut r = 1; let mut i = 0; while i < x.len() { r &= veq_n(e, &x[i], &y[i]); i += 1; } r }
        (N::Map(e), Value::Object(x), Value::Object(y)) => {
            if x.len() != y.len() { return 0; }
            let mut r = 1;
            for (k, v) in x.iter() { match y.get(k) { Some(w) => r &= veq_n(e, v, w), None => return 0 } }
            r
        }
        (N::Obj(ps, _), Value::Object(x), Value::Object(y)) => {
            let mut r = 1; let mut seen = 0;
            for (k, v) in x.iter() {
                let p = member(ps, k);
                match (y.get(k), p) {
                    (Some(w), Some((_, e))) => { seen += 1; r &= veq_n(e, v, w); }
                    (Some(w), None) => { seen += 1; r &= veq(v, w); }
                    (None, Some((req, _))) => if req || !blank(v) { return 0; },
                    (None, None) => return 0,
                }
            }
            if seen != y.len() { return 0; }
            r
        }
        _ => veq(a, b),
    }
}
fn member(ps: &'static [(&'static str, bool, &'static N)], k: &str) -> Option<(bool, &'static N)> {
    for (n, req, e) in ps.iter() { if *n == k { return Some((*req, e)); } }
    None
}
/// the members an object definition declares (merged definitions have no other form)
pub fn members(n: &'static N) -> &'static [(&'static str, bool, &'static N)] {
    match n { N::Ref(r) => members(r), N::Obj(ps, _) => ps, _ => &[] }
}
/// JSON kinds a node admits: null 1, bool 2, integer 4, other number 8, string 16, array 32, object 64
pub fn kinds(n: &'static N) -> u32 {
    match n {
        N::Ref(r) => kinds(r), N::Str | N::Const(_) | N::Enum(_) => 16, N::Int | N::IntMin0 | N::CInt(_) => 4, N::Num | N::Num01 => 12, N::Bool => 2, N::Null => 1,
        N::Any => 127, N::AnyObj | N::Map(_) | N::Obj(..) => 64, N::Arr(..) => 32,
        N::Union(v) => { let mut r = 0; for x in v.iter() { r |= kinds(x); } r }
    }
}
/// a value of the given kind (bit number of `kinds`)
pub fn of_kind(k: u32) -> Value {
    match k {
        0 => Value::Null, 1 => Value::Bool(any_bool("wrong")), 2 => Value::Number(Number::from(any_i64("wrong"))), 3 => Number::from_f64(any_int_frac("wrong")).map(Value::Number).unwrap_or(Value::Null),
        4 => Value::String(ascii("wrong", 3)), 5 => Value::Array(Vec::new()), _ => Value::Object(Map::new()),
    }
}
/// some non-integral double between 0 and 1, exclusive
fn any_int_frac(name: &str) -> f64 { f64::from_bits(0x3FE0_0000_0000_0000 | sym(name, 52)) }
/// reports every leaf of a document, so that a native run can be compared with the encoding
pub fn vobs(v: &Value) {
    match v {
        Value::Null => obs("null", 0),
        Value::Bool(b) => obs("bool", *b as u64),
        Value::Number(n) => match n.as_i64() { Some(i) => obs("int", i as u64), None => match n.as_u64() { Some(u) => obs("uint", u), None => obs("num", n.as_f64().unwrap_or(0.0).to_bits()) } },
        Value::String(s) => obs_str("str", s),
        Value::Array(a) => { obs("array", a.len() as u64); for x in a { vobs(x); } }
        Value::Object(m) => { obs("object", m.len() as u64); for (k, x) in m { obs_str("key", k); vobs(x); } }
    }
}

/// the same document with the members of every object in reverse order
pub struct Rev<'a>(pub &'a Value);
struct RevMap<'a>(std::iter::Rev<serde_json::map::Iter<'a>>, Option<&'a Value>);
struct RevSeq<'a>(std::slice::Iter<'a, Value>);
impl<'de> serde::de::MapAccess<'de> for RevMap<'de> {
    type Error = serde_json::Error;
    fn next_key_seed<K: serde::de::DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Self::Error> {
        match self.0.next() { Some((k, v)) => { self.1 = Some(v); match seed.deserialize(serde::de::value::BorrowedStrDeserializer::<Self::Error>::new(k)) { Ok(k) => Ok(Some(k)), Err(e) => Err(e) } } None => Ok(None) }
    }
    fn next_value_seed<V: serde::de::DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Self::Error> { match self.1.take() { Some(v) => seed.deserialize(Rev(v)), None => loop {} } }
}
impl<'de> serde::de::SeqAccess<'de> for RevSeq<'de> {
    type Error = serde_json::Error;
    fn next_element_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Self::Error> {
        match self.0.next() { Some(v) => match seed.deserialize(Rev(v)) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) }, None => Ok(None) }
    }
}
impl<'de> serde::Deserializer<'de> for Rev<'de> {
    type Error = serde_json::Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        match self.0 { Value::Object(m) => v.visit_map(RevMap(m.iter().rev(), None)), Value::Array(l) => v.visit_seq(RevSeq(l.iter())), x => serde::Deserializer::deserialize_any(x, v) }
    }
    fn deserialize_option<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> { match self.0 { Value::Null => v.visit_none(), _ => v.visit_some(self) } }
    fn deserialize_newtype_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Self::Error> { v.visit_newtype_struct(self) }
    fn deserialize_enum<V: serde::de::Visitor<'de>>(self, n: &'static str, vs: &'static [&'static str], v: V) -> Result<V::Value, Self::Error> { serde::Deserializer::deserialize_enum(self.0, n, vs, v) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any }
}
