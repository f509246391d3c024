#!/usr/bin/env python3
"""Self-test of the executor: standard library functions that changed code may use, on symbolic values.
Every path's outcome is compared with a native run.  Not a check: python3 tools/zoo.py [name...]"""
import sys
from base import *
import driver
T = '''
use std::collections::*; use std::fmt::Write as W; use std::rc::Rc; use std::sync::Arc; use std::cell::*; use std::borrow::Cow; use std::str::FromStr;
fn o(s: &str) { obs_str("s", s); }
fn ou(v: u64) { obs("v", v); }
fn a(n: usize) -> String { ascii("a", n) }
fn b(n: usize) -> String { ascii("b", n) }
fn na() -> String { nonascii("n", 1) }
fn done() { reach("end"); check(true, "end"); }
static LAZY: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
static LL: std::sync::LazyLock<HashMap<&'static str, u32>> = std::sync::LazyLock::new(|| { let mut m = HashMap::new(); m.insert("abc", 1); m.insert("xyz", 2); m });
thread_local! { static TL: Cell<u32> = Cell::new(3); }
static CNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(5);
static MX: std::sync::Mutex<u32> = std::sync::Mutex::new(1);
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] enum E { A, B(String), C { x: i64 } }
'''
Z = dict(
 lower='o(&a(3).to_lowercase());', upper='o(&a(2).to_uppercase());', alower='o(&a(4).to_ascii_lowercase());', lower_na='let s = na(); ou((s.to_lowercase().len() == s.len()) as u64);',
 eqic='ou(a(4).eq_ignore_ascii_case("Ping") as u64);', trim='o(a(3).trim());', trimm='o(a(3).trim_start_matches(\'/\')); o(b(3).trim_end_matches("/"));', strip='o(a(4).strip_prefix("ab").unwrap_or("-"));',
 starts='ou(a(4).starts_with("abc") as u64 + a(3).ends_with(\'x\') as u64);', contains='ou(a(3).contains("ab") as u64);', containsc='ou(a(3).contains(\'/\') as u64);', contains33='ou(a(33).contains("needle") as u64);', find='ou(a(3).find(\'/\').unwrap_or(9) as u64);', rfind='ou(a(3).rfind("/x").unwrap_or(9) as u64);',
 find_long='ou(a(20).find(\'/\').unwrap_or(99) as u64);', finds='ou(a(5).find("ab").unwrap_or(9) as u64);', split='for p in a(4).split(\'/\') { o(p); }', splitn='for p in a(4).splitn(2, "::") { o(p); }', once='match a(4).split_once(\'/\') { Some((x, y)) => { o(x); o(y) } None => o("none") }', rsplit='o(a(4).rsplit(\'/\').next().unwrap());',
 ws='for p in a(3).split_whitespace() { o(p); }', lines='for p in a(3).lines() { o(p); }', rev='o(&a(4).chars().rev().collect::<String>());', rev_na='o(&na().chars().rev().collect::<String>());', ci='for (i, c) in na().char_indices() { ou(i as u64); ou(c as u64); }', alnum='ou(a(3).chars().all(|c| c.is_alphanumeric()) as u64);', alnum_na='ou(na().chars().all(|c| c.is_alphanumeric()) as u64);',
 control='ou(na().chars().any(char::is_control) as u64);', wsna='ou(na().chars().any(char::is_whitespace) as u64);', trimna='o(na().trim());', replace='o(&a(3).replace("/", "::"));', replacen='o(&a(3).replacen(\'/\', ".", 1));', repeat='o(&a(2).repeat(3));', parse='match a(3).parse::<i64>() { Ok(x) => ou(x as u64), Err(_) => o("err") }', parseu='match a(2).parse::<u8>() { Ok(x) => ou(x as u64), Err(_) => o("err") }', parsef='match a(2).parse::<f64>() { Ok(x) => ou(x.to_bits()), Err(_) => o("err") }',
 parseb='ou(a(4).parse::<bool>().unwrap_or(false) as u64);', parse128='match a(2).parse::<u128>() { Ok(x) => ou(x as u64), Err(_) => o("err") }', radix='ou(u32::from_str_radix(&a(2), 16).unwrap_or(7) as u64);', utf8='match std::str::from_utf8(a(3).as_bytes()) { Ok(s) => o(s), _ => {} }', lossy='o(&String::from_utf8_lossy(na().as_bytes()));', utf8v='match String::from_utf8(na().into_bytes()) { Ok(s) => o(&s), _ => {} }',
 fdebug='o(&format!("{:?}", a(1)));', fpad='o(&format!("{:>8}|{:<5}|{:^7}", a(2), b(1), 3));', fint='o(&format!("{}", sym("x", 8) as i64));', fneg='o(&format!("{:05}", -(sym("x", 6) as i64)));', fhex='o(&format!("{:#x} {:X} {:b}", sym("x", 8), 255u8, 5));', ffloat='o(&format!("{} {:.2} {:e}", 1.5f64, 2.0f64, 1e30f64));', ffloat_s='let k = choose("k", 4); o(&format!("{}", [0.1f64, 1e21, -2.0, 3.25e-7][k]));', fdbg='o(&format!("{:?} {:?}", E::B(String::from("q")), E::C { x: sym("x", 4) as i64 }));', fdbgp='o(&format!("{:#?}", vec![Some(1), None]));', fjson='o(&serde_json::json!({"a": a(1), "b": [1, null, true]}).to_string());',
 cmp='ou(a(3).cmp(&b(3)) as i8 as u64);', lt='ou((a(4) < b(3)) as u64);', sort='let mut v = vec![a(1), b(1), String::from("m")]; v.sort(); for s in v { o(&s); }', sortu='let mut v = vec![sym("x", 4), sym("y", 4), sym("z", 4), 7]; v.sort_unstable(); for s in v { ou(s); }', sortk='let mut v = vec![a(2), b(1), String::new()]; v.sort_by_key(|s| s.len()); for s in v { o(&s); }', sort_big='let mut v: Vec<u64> = (0..40).map(|i| (i * 7919) % 41).collect(); v.sort(); for s in v { ou(s); }', dedup='let mut v = vec![a(1), b(1), String::from("m")]; v.dedup(); for s in v { o(&s); }',
 hset='let mut h = HashSet::new(); h.insert(a(1)); ou(h.insert(b(1)) as u64); ou(h.contains("m") as u64); ou(h.len() as u64);', hmap='let mut h: HashMap<String, u64> = HashMap::new(); *h.entry(a(1)).or_insert(1) += 1; *h.entry(b(1)).or_insert(1) += 1; ou(h.len() as u64); ou(h.get("k").copied().unwrap_or(9)); h.remove("k"); ou(h.values().sum());', hbig='let mut h: HashMap<u64, u64> = HashMap::new(); for i in 0..50 { h.insert(i * 3, i); } ou(h.get(&sym("x", 3)).copied().unwrap_or(99));', bset='let mut h = BTreeSet::new(); h.insert(a(1)); h.insert(b(1)); for x in &h { o(x); }', bmap='let mut h = BTreeMap::new(); h.insert(a(1), 1u64); h.insert(b(1), 2); h.retain(|k, _| k != "k"); for (k, v) in h.range(String::from("a")..) { o(k); ou(*v); }',
 deque='let mut d: VecDeque<u64> = VecDeque::new(); d.push_back(sym("x", 8)); d.push_front(2); d.rotate_left(1); for x in d.iter() { ou(*x); }', heap='let mut d = BinaryHeap::new(); d.push(sym("x", 4)); d.push(3); d.push(9); while let Some(x) = d.pop() { ou(x); }', iter='let v = [sym("x", 8), 2, 3]; ou(v.iter().zip(1..).map(|(x, y)| x * y).sum()); ou(v.iter().copied().max().unwrap()); ou(v.iter().position(|x| *x == 3).unwrap() as u64); for w in v.windows(2) { ou(w[0] ^ w[1]); } for w in v.chunks(2) { ou(w.len() as u64); } ou(v.iter().rev().skip(1).step_by(2).count() as u64); ou(v.iter().filter(|x| **x > 2).count() as u64);', fold='ou(a(3).bytes().fold(7u64, |h, x| h.wrapping_mul(31) ^ x as u64));',
 checked='let x = sym("x", 64); ou(x.checked_add(5).unwrap_or(1)); ou(x.saturating_sub(9)); ou(x.checked_mul(3).unwrap_or(2)); ou(x.leading_zeros() as u64); ou(x.count_ones() as u64); ou(x.rotate_left(7)); ou(x.swap_bytes());', signed='let x = sym("x", 64) as i64; ou(x.saturating_add(5) as u64); ou(x.checked_abs().unwrap_or(1) as u64); ou(x.rem_euclid(7) as u64); ou(x.clamp(-5, 9) as u64); ou(x.signum() as u64); ou(x.wrapping_neg() as u64); ou(x.unsigned_abs());', tryfrom='let x = sym("x", 64) as i64; ou(u8::try_from(x).unwrap_or(7) as u64); ou(i32::try_from(x).unwrap_or(8) as u64); ou(u64::try_from(x).unwrap_or(9)); ou(usize::try_from(x).is_ok() as u64);', i128_='let x = sym("x", 64) as i128; let y = x * x; ou((y >> 64) as u64); ou((y / 3) as u64);',
 ff='let x = any_f64("f"); ou((x.fract() == 0.0) as u64); ou(x.trunc().to_bits()); ou(x.floor().to_bits()); ou((x as i64) as u64); ou(x.abs().to_bits()); ou(x.max(1.0).to_bits());', frem='let x = any_f64("f"); ou((x % 1.0 == 0.0) as u64); ou((x % 1.0).to_bits());', fints='let x = any_f64("f"); if x.fract() == 0.0 && x.abs() < 9e15 { ou(x as i64 as u64); } else { o("f"); }', fround='let x = f64::from_bits(0x3FE0_0000_0000_0000 | sym("f", 53)); ou(x.round().to_bits()); ou((x * 2.0 + 1.0).to_bits());', fcmp='let x = any_f64("f"); let y = any_f64("g"); ou(x.partial_cmp(&y).map(|o| o as i8 as u64).unwrap_or(9)); ou((x == y) as u64); ou(x.total_cmp(&y) as i8 as u64);', fconv='let x = sym("x", 64) as i64; ou((x as f64).to_bits()); ou(((x as f64) as i64) as u64); ou((x as f32).to_bits() as u64);',
 rc='let r = Rc::new(RefCell::new(a(2))); let q = r.clone(); q.borrow_mut().push(\'!\'); o(&r.borrow()); ou(Rc::strong_count(&r) as u64);', arc='let r: Arc<str> = Arc::from(a(2)); o(&r); let q = Arc::new(5u64); ou(Arc::strong_count(&q) as u64); ou(Arc::try_unwrap(q).unwrap_or(0));', once_='ou(LAZY.get_or_init(|| vec![String::from("abc")]).len() as u64);', lazy='ou(LL.get(a(3).as_str()).copied().unwrap_or(0) as u64);', tl='TL.with(|c| { c.set(c.get() + 1); ou(c.get() as u64) });', atom='ou(CNT.fetch_add(1, std::sync::atomic::Ordering::SeqCst) as u64); ou(CNT.load(std::sync::atomic::Ordering::Relaxed) as u64);', mutex='{ let mut g = MX.lock().unwrap(); *g += 1; ou(*g as u64); }',
 cow='let s = a(2); let c: Cow<str> = if s.contains(\'x\') { Cow::Owned(s.replace(\'x\', "yy")) } else { Cow::Borrowed(&s) }; o(&c);', dynf='let k = sym("x", 8); let f: Box<dyn Fn(u64) -> u64> = if choose("c", 2) == 0 { Box::new(move |x| x + k) } else { Box::new(|x| x * 2) }; ou(f(3));', fptr='let t: [(&str, fn(&str) -> u64); 2] = [("ab", |s| s.len() as u64), ("cd", |_| 7)]; let s = a(2); for (k, f) in t.iter() { if s == *k { ou(f(&s)); } }', take='let mut s = a(2); let t = std::mem::take(&mut s); o(&t); o(&s); let mut q = Some(3u64); ou(q.take().unwrap_or(1)); ou(q.is_none() as u64);', join='o(&[a(1), b(1)].join(", ")); o(&vec!["x", "y"].concat());', chr='ou(std::char::from_digit(sym("x", 3) as u32, 10).unwrap() as u64); ou(a(1).chars().next().unwrap().to_digit(16).unwrap_or(99) as u64); ou(std::char::from_u32(sym("u", 17) as u32).map(|c| c.len_utf8()).unwrap_or(9) as u64);', esc='o(&a(1).escape_default().to_string());',
 insert='let mut s = a(2); s.insert(0, \'q\'); s.insert_str(1, "zz"); s.remove(0); s.truncate(3); s.pop(); o(&s); s.retain(|c| c != \'z\'); o(&s); s.clear(); ou(s.is_empty() as u64);', drain='let mut v = vec![1u64, 2, 3, 4]; let w: Vec<u64> = v.drain(1..3).collect(); for x in w { ou(x); } v.extend([9, 8]); v.swap(0, 1); v.reverse(); v.insert(1, 5); v.remove(0); v.retain(|x| *x != 9); for x in v { ou(x); }', partition='let (x, y): (Vec<u64>, Vec<u64>) = [sym("x", 3), 4, 6].into_iter().partition(|v| v % 2 == 0); ou(x.len() as u64); ou(y.len() as u64);', flatmap='let v: Vec<String> = vec![a(1), b(1)]; o(&v.iter().flat_map(|s| s.chars()).filter(|c| *c != \'x\').collect::<String>());', opt='let x = a(2); let y = Some(x).filter(|s| s != "ab").map(|s| s + "!").or_else(|| Some(String::from("none"))).unwrap_or_default(); o(&y);', resq='fn f(s: &str) -> Result<u8, Box<dyn std::error::Error>> { let x: u8 = s.parse()?; Ok(x) } match f(&a(1)) { Ok(x) => ou(x as u64), Err(_) => o("err") }', resd='fn f(s: &str) -> Result<u8, Box<dyn std::error::Error + Send + Sync>> { let x: u8 = s.parse()?; if x > 5 { return Err("big".into()); } Ok(x) } match f(&a(1)) { Ok(x) => ou(x as u64), Err(e) => o(&e.to_string()) }', collect='let r: Result<Vec<u8>, _> = a(3).split(\',\').map(|s| s.parse::<u8>()).collect(); match r { Ok(v) => ou(v.len() as u64), Err(_) => o("err") }', peek='let s = a(3); let mut p = s.chars().peekable(); let mut n = 0; while let Some(c) = p.next() { if c == \'x\' && p.peek() == Some(&\'y\') { n += 1; } } ou(n);', bsearch='let v = ["a", "c", "e", "g"]; match v.binary_search(&a(1).as_str()) { Ok(i) => ou(i as u64), Err(i) => ou(i as u64 + 100) }', anycmp='ou(["ping", "abcd", "wxyz"].contains(&a(4).as_str()) as u64);', matchs='ou(match a(4).as_str() { "ping" => 1, "pong" => 2, s if s.starts_with("pi") => 3, _ => 4 });',
 vparse='match serde_json::from_str::<Value>(&a(2)) { Ok(v) => ou(v.is_number() as u64), Err(_) => o("err") }', vto='o(&serde_json::to_string(&Value::String(a(2))).unwrap_or_default());', vpretty='o(&serde_json::to_string_pretty(&serde_json::json!({"a": [1], "s": a(1)})).unwrap_or_default());', vptr='let v = serde_json::json!({"a": {"b": [1, 2]}}); ou(v.pointer("/a/b/1").and_then(|x| x.as_u64()).unwrap_or(9)); ou(v["a"]["b"][0].as_u64().unwrap_or(8)); ou(v["z"].is_null() as u64);', veq='let v = Value::String(a(2)); ou((v == "ab") as u64); ou((v == Value::Null) as u64);', vmap='let mut m = Map::new(); m.insert(a(1), Value::Null); m.entry("k").or_insert(Value::Bool(true)); let mut w = Map::new(); w.insert(b(1), Value::Bool(false)); m.append(&mut w); m.retain(|_, v| !v.is_null()); for (k, _) in &m { o(k); }', vnum='let n = Number::from_f64(any_f64("f")); ou(n.map(|x| x.is_f64()).unwrap_or(false) as u64);', vsend='let n = any_i64("i"); ou((serde_json::json!(n) == serde_json::json!(5)) as u64);', vfrom='match serde_json::from_value::<Vec<String>>(serde_json::json!([a(1), "x"])) { Ok(v) => o(&v.join("")), Err(_) => o("err") }', vtup='match serde_json::from_value::<(i64, Option<String>)>(serde_json::json!([any_i64("i"), null])) { Ok(v) => ou(v.0 as u64), Err(_) => o("err") }', vmapd='match serde_json::from_value::<HashMap<String, i64>>(serde_json::json!({"k": 1, "l": 2})) { Ok(v) => ou(v.len() as u64), Err(_) => o("err") }', vslice='match serde_json::from_slice::<Value>(b"{\\"a\\": [1, 2.5, \\"x\\"]}") { Ok(v) => ou(v["a"][1].as_f64().unwrap_or(0.0).to_bits()), Err(_) => o("err") }',
 errs='match serde_json::from_value::<u8>(serde_json::json!(sym("x", 12))) { Ok(x) => ou(x as u64), Err(e) => { ou(e.is_data() as u64); } }', panic_ok='let v: Vec<u64> = vec![1, 2, 3]; let i = choose("i", 3); ou(v[i]);', symidx='let v = [5u64, 6, 7, 8]; ou(v[(sym("i", 2)) as usize]);', symtab='const T: &[u8; 16] = b"0123456789abcdef"; ou(T[sym("i", 4) as usize] as u64);', hexenc='let s = a(2); let mut t = String::new(); for c in s.bytes() { t.push(b"0123456789abcdef"[(c >> 4) as usize] as char); t.push(b"0123456789abcdef"[(c & 15) as usize] as char); } o(&t);', memcmp='ou((a(20) == b(20)) as u64);', memcmp_l='ou((a(40).as_bytes() < b(40).as_bytes()) as u64);', asciich='let s = a(3); ou(s.is_ascii() as u64); ou(s.bytes().filter(u8::is_ascii_digit).count() as u64);', asciin='ou(na().is_ascii() as u64);', boundary='let s = na(); ou(s.is_char_boundary(2) as u64); ou(s.get(0..2).is_some() as u64); ou(s.chars().count() as u64);', slicep='let s = a(4); o(&s[1..3]); o(&s[..s.len() / 2]);', copyw='let mut v = [0u64; 4]; v[1..3].copy_from_slice(&[sym("x", 8), 2]); v.fill(3); ou(v.iter().sum());', strfmt='let mut t = String::new(); let _ = write!(t, "{}-{:?}-{}", a(2), 5, true); o(&t);', dbgopt='o(&format!("{:?}", Some(sym("x", 3))));', ordm='ou(std::cmp::max(a(1), b(1)).len() as u64); ou(std::cmp::Reverse(sym("x", 3)).0);', time='let d = std::time::Duration::from_millis(sym("x", 20)); ou(d.as_secs()); ou(d.subsec_millis() as u64);', anyt='let b: Box<dyn std::any::Any> = Box::new(sym("x", 8)); ou(b.downcast_ref::<u64>().copied().unwrap_or(1)); ou(b.is::<String>() as u64);', tyname='o(std::any::type_name::<u64>());', boxs='let b: Box<str> = a(2).into_boxed_str(); o(&b); let v: Vec<u64> = vec![1, 2].into_boxed_slice().into_vec(); ou(v.len() as u64);', zipun='let (x, y): (Vec<u64>, Vec<u64>) = vec![(1, sym("x", 4)), (2, 3)].into_iter().unzip(); ou(x[0] + y[0]);', minby='let v = vec![a(1), b(1)]; o(v.iter().min().unwrap()); o(v.iter().max_by_key(|s| s.len()).unwrap());', arr='let v: [u64; 3] = std::array::from_fn(|i| i as u64 * 2); ou(v.iter().sum()); let w: [u8; 2] = [1, 2]; ou(u16::from_be_bytes(w) as u64);', charset='ou(a(3).chars().map(|c| c.to_ascii_uppercase()).eq("ABC".chars()) as u64);', tou='o(&a(2).chars().flat_map(char::to_uppercase).collect::<String>());', cap='let s = a(3); let mut c = s.chars(); let t = match c.next() { Some(f) => f.to_uppercase().collect::<String>() + c.as_str(), None => String::new() }; o(&t);', nested='let m: BTreeMap<String, Vec<Option<i64>>> = serde_json::from_value(serde_json::json!({"a": [1, null], "b": []})).unwrap_or_default(); ou(m.len() as u64);', urlish='let s = a(9); ou((s.starts_with("https://") || s.starts_with("http://")) as u64);', bytesum='ou(a(8).bytes().map(u64::from).sum());', alloc='let mut v: Vec<u64> = Vec::with_capacity(100); for i in 0..300 { v.push(i); } v.shrink_to_fit(); ou(v[299]); let w = v.clone(); ou((w == v) as u64); ou(v.split_off(100).len() as u64);', linked='let mut l = LinkedList::new(); l.push_back(sym("x", 3)); l.push_front(1); for x in &l { ou(*x); }', pathb='ou(std::path::Path::new("/a/b.txt").extension().is_some() as u64);', wrap='ou(std::num::Wrapping(sym("x", 64)).0); ou(std::num::NonZeroU64::new(sym("y", 2)).is_some() as u64);', scan='ou([1u64, 2, 3].iter().scan(sym("x", 4), |s, x| { *s += x; Some(*s) }).last().unwrap()); ou([1u64, 5].iter().take_while(|x| **x < 3).count() as u64); ou([3u64, 4].iter().try_fold(0u64, |s, x| s.checked_add(*x)).unwrap_or(0));', chain='o(&"ab".chars().chain(a(1).chars()).cycle().take(5).collect::<String>());', group='let mut g: BTreeMap<usize, Vec<String>> = BTreeMap::new(); for s in [a(1), b(2)] { g.entry(s.len()).or_default().push(s); } ou(g.len() as u64);', dropg='struct D(u64); impl Drop for D { fn drop(&mut self) { ou(self.0); } } let d = D(sym("x", 4)); let e = D(2); drop(d); let _ = e;', simd='let x = a(64); let y = x.clone(); ou((x == y) as u64); ou(x.bytes().any(|c| c == 0x80) as u64);', memchr='ou(a(33).bytes().position(|c| c == b\'x\').map(|x| x as u64).unwrap_or(99));', rmatch='for (i, m) in a(3).match_indices("x") { ou(i as u64); o(m); }', trimset='o(a(3).trim_matches(|c: char| c == \'"\' || c.is_whitespace()));', cstr='ou(std::ffi::CString::new(a(2)).is_ok() as u64);', itoa='o(&(sym("x", 7) as u8).to_string());', boolf='ou(any_bool("b").then_some(5u64).unwrap_or(1)); ou(any_bool("c").then(|| 2u64).is_some() as u64);')
def gen(v, tier):
    only = sys.argv[1:]
    return prelude(v, tier) + T + "".join(H(n, b + " done();") for n, b in Z.items() if not only or n in only)
if __name__ == "__main__": sys.exit(driver.run_check("ZOO", gen, "quick", 1, versions=["2025_11_25"], opts=dict(time=60, samples=4)))
