#!/usr/bin/env python3
"""Harness sources per property: PROPS[id] = dict(gen=fn(version, tier) -> Rust source or None, ...)."""
import functools, json, os, re
from mkspec import Spec
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
VS = ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]
def old(v): return v in ("2024_11_05", "2025_03_26", "2025_06_18")
def new(v): return v in ("2026_07_28", "draft")
def has_batch(v): return v == "2025_03_26"

@functools.lru_cache(None)
def spec(v): return Spec(v)
@functools.lru_cache(None)
def api(v): return json.load(open(os.path.join(ROOT, "spec", f"api_{v}.json")))

def prelude(v, tier, dev=None, rot=8):
    """modules shared by every harness crate"""
    d = dev if dev is not None else (1 if tier == "quick" else 2)
    return f'''#![allow(warnings)]
#[path = "{ROOT}/harness/sym.rs"] pub mod sym;
#[path = "{ROOT}/harness/gen.rs"] pub mod gen;
pub const DEV: u32 = {d};
pub const ROT: usize = {rot if tier == "quick" else 49};
pub mod spec {{
{spec(v).rust()}}}
/// per path: texts drawn so far, the document configuration
pub static mut TEXTS: usize = 0;
pub static mut CFG: usize = 99;
use sym::*; use gen::*; use spec::*;
use serde::{{Serialize, Deserialize, de::DeserializeOwned}};
use serde_json::{{Map, Number, Value, to_value, from_value}};
use rust_mcp_schema::mcp_{v} as S;
use rust_mcp_schema::mcp_{v}::schema_utils as U;
fn parse<T: DeserializeOwned>(v: &Value) -> Option<T> {{ match T::deserialize(v) {{ Ok(t) => Some(t), Err(_) => None }} }}
fn parse_rev<T: DeserializeOwned>(v: &Value) -> Option<T> {{ match T::deserialize(Rev(v)) {{ Ok(t) => Some(t), Err(_) => None }} }}
/// parses the document with its members in either order
fn parse_o<T: DeserializeOwned>(v: &Value) -> Option<T> {{ if choose("member order", 2) == 0 {{ parse(v) }} else {{ parse_rev(v) }} }}
fn parse_d<T: DeserializeOwned>(v: &Value, rev: bool) -> Option<T> {{ if rev {{ parse_rev(v) }} else {{ parse(v) }} }}
fn write<T: Serialize>(t: &T) -> Option<Value> {{ match to_value(t) {{ Ok(v) => Some(v), Err(_) => None }} }}
fn get<'a>(v: &'a Value, k: &str) -> &'a Value {{ match v {{ Value::Object(m) => m.get(k).unwrap_or(&Value::Null), _ => &Value::Null }} }}
fn set(v: &mut Value, k: &str, x: Value) {{ if let Value::Object(m) = v {{ m.insert(String::from(k), x); }} }}
/// an arbitrary text; the first one of a path has every short length where the document is the default one
#[inline(never)] fn a_text(name: &str) -> String {{
    let first = unsafe {{ let f = TEXTS == 0; TEXTS += 1; f && (CFG == 0 || CFG == 99) }}; let some = unsafe {{ CFG != 0 && CFG != 99 }};
    let k = choose("shape", if some {{ {5 if tier == "quick" else 13} }} else {{ {13 if tier == "quick" else 14} }} + if first {{ 57 }} else {{ 0 }}); let k = if first {{ if k >= 57 {{ k - 57 }} else {{ k + 100 }} }} else {{ k }};
    match k {{ 0 => ascii(name, 4), 1 => String::new(), 2 => ascii(name, 1), 3 => ascii(name, 40), 4 => nonascii(name, 3), 5 => ascii(name, 7), 6 => ascii(name, 13), 7 => ascii(name, 70), 8 => ascii(name, 150), 9 => nonascii(name, 70), 10 => wide(name, 2), 11 => ascii(name, 300), 12 => odd(name, " "), 13 => ascii(name, 1100), k => ascii(name, k - 100) }}
}}
fn del(v: &mut Value, k: &str) {{ if let Value::Object(m) = v {{ m.remove(k); }} }}
'''

def H(name, body): return f'#[no_mangle] pub extern "C" fn h_{name}() {{ unsafe {{ TEXTS = 0; CFG = 99; }} {body} }}\n'

def obj_defs(v):
    """object definitions with their merged members: name -> [(member, required, node text)]"""
    s = spec(v); out = {}
    for n in sorted(s.defs):
        r = s.resolve(s.defs[n]["schema"])
        if r.get("properties") and n in api(v)["structs"]:
            out[n] = [(k, k in r.get("required", []), x) for k, x in sorted(r["properties"].items())]
    return out

def const_of(v, x):
    s = spec(v); r = s.resolve(x)
    return r.get("const")

@functools.lru_cache(None)
def uapi(v): return json.load(open(os.path.join(ROOT, "spec", f"uapi_{v}.json")))
ASSUME = ["The reference is the official JSON schema fragments committed under /verif/spec (taken from the doc comments of the generated sources at the base commit).",
    "Code is executed from the LLVM IR rustc emits at opt-level 0 with panic=abort; serde and serde_json come in as optimized bitcode and are executed too, not modelled.",
    "The global allocator is modelled (it never fails); hash map keys are fixed; text of JSON type names in serde error messages is not computed (see stubs)."]
DOCB = ["documents: optional members all present or all absent by default, then up to {dev} structural deviations (member toggled, array length 0-2, other union alternative, other JSON kind for free-form values) anywhere down to nesting depth 2 of the definition",
    "strings: 3, 1 or 33 symbolic ASCII characters, the empty string, or 1 ASCII plus 1/5 symbolic two-byte characters; integers: all 64-bit; numbers: all finite doubles and integers up to 2^53",
    "rotating configurations (49 for C01, 8 elsewhere, 5 for C06; thorough 49): every string of the document has a length of its own out of 2-40, 64, 65, 100, 129 and 257 symbolic ASCII characters, 2-130 two-byte or 1-3 four-byte characters, the lengths changing from one configuration to the next; arrays and maps of 2 to 12 elements; union alternatives, enumeration names, kinds of free-form values and absent optional members rotate too; one member name of a free-form map is symbolic, two numbers are symbolic",
    "dictionary configuration: every free-form map and every open object down to depth 1 or 2 holds one member for each member name any definition of the version declares (114-184 names, and _meta, type_, $ref, __proto__ and the like), the values rotating over null, integers, strings and booleans (in open objects: arrays)",
    "other member names of free-form maps are fixed"]
def docb(dq, dt): return [x.replace("{dev}", f"{dq} (quick) / {dt} (thorough)") for x in DOCB]
def ctor_call(v, T, doc="doc", ty=None):
    """T::new(args) with the arguments read from the members of `doc`"""
    a = api(v); f = {x[0]: x for x in a["structs"][T]}
    args = []
    for n, t in a["ctors"][T]:
        n = n.replace("r#", "")
        key = f[n][1] if n in f else None
        if key is None:
            known = [x[1] for x in a["structs"][T] if x[1]]
            args.append("rest(&%s, &[%s])" % (doc, ", ".join(json.dumps(k) for k in known)))
        else: args.append(f"arg(&{doc}, {json.dumps(key)})")
    return f"S::{T}::new({', '.join(args)})"
CTOR_FNS = '''
fn arg<T: DeserializeOwned>(d: &Value, k: &str) -> T {
    match d { Value::Object(m) => if let Some(x) = m.get(k) { if let Some(t) = parse::<T>(x) { return t; } check(false, "part parses"); } _ => {} }
    if let Some(t) = parse::<T>(&Value::Null) { return t; }
    if let Some(t) = parse::<T>(&Value::Array(Vec::new())) { return t; }
    match parse::<T>(&Value::Object(Map::new())) { Some(t) => t, None => { assume(false); loop {} } }
}
fn rest(d: &Value, known: &[&str]) -> Option<Map<String, Value>> {
    let mut m = Map::new();
    if let Value::Object(x) = d { for (k, w) in x { let mut f = false; for q in known { if *q == k { f = true; } } if !f { m.insert(k.clone(), w.clone()); } } }
    if m.is_empty() { None } else { Some(m) }
}
'''
