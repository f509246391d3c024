from base import *
# ---------------------------------------------------------------- C01
def c01(v, tier):
    o = prelude(v, tier, rot=49) + '''
#[inline(never)] fn c01<T: DeserializeOwned + Serialize>(n: &'static N) {
    let mut g = G::pick(); let doc = g.gen(n, "doc"); reach("doc");
    match if g.prof == 7 { parse_d::<T>(&doc, g.rot & 1 == 1) } else if g.dev == DEV { parse_o::<T>(&doc) } else { parse::<T>(&doc) } {
        Some(t) => match write(&t) { Some(o) => { vobs(&o); check8(veq_n(n, &doc, &o), "roundtrip") } None => check(false, "serialize") },
        None => check(false, "accepted"),
    }
}
'''
    return o + "".join(H(n, f"c01::<S::{n}>(&D_{n})") for n in sorted(spec(v).defs))

# ---------------------------------------------------------------- C02
def c02(v, tier):
    o = prelude(v, tier, 0 if tier == "quick" else 1) + f"const DEPTH: u32 = {2 if tier == 'quick' else 3};" + '''
/// (path, member, mutation): 0..6 replaces the member by a value of that kind, 7 removes it
type Mut = (Vec<(&'static str, usize)>, &'static str, u32);
fn muts(n: &'static N, doc: &Value, path: &Vec<(&'static str, usize)>, todo: &mut Vec<Mut>, depth: u32) {
    match (n, doc) {
        (N::Ref(r), _) => muts(r, doc, path, todo, depth),
        (N::Obj(ps, _), Value::Object(m)) => for (k, req, e) in ps.iter() {
            let mut ok = kinds(e);
            if !req { ok |= 1; }                 // a null optional member may count as absent
            if ok & 64 != 0 { ok |= 32; }        // serde also reads a struct from a sequence
            if ok & 8 != 0 { ok |= 4; }
            let mut j = 0;
            while j < 7 { if ok & (1 << j) == 0 { todo.push((path.clone(), k, j)); } j += 1; }
            if *req && ok & 1 == 0 { todo.push((path.clone(), k, 7)); }
            if depth > 0 { if let Some(x) = m.get(*k) { let mut p = path.clone(); p.push((k, 0)); muts(e, x, &p, todo, depth - 1); } }
        },
        (N::Arr(e, _), Value::Array(l)) => if l.len() > 0 { let at = l.len() - 1; let mut p = path.clone(); p.push(("", at)); muts(e, &l[at], &p, todo, depth); },
        _ => {}
    }
}
fn at<'a>(doc: &'a mut Value, p: &[(&'static str, usize)]) -> &'a mut Value {
    let mut d = doc;
    for (k, i) in p { d = match d { Value::Object(m) => match m.get_mut(*k) { Some(x) => x, None => loop {} }, Value::Array(l) => &mut l[*i], _ => loop {} }; }
    d
}
#[inline(never)] fn c02<T: DeserializeOwned>(n: &'static N) {
    let mut g = G::any(choose("cfg", 2)); let mut doc = g.gen(n, "doc");
    let mut todo: Vec<Mut> = Vec::new(); muts(n, &doc, &Vec::new(), &mut todo, DEPTH);
    if todo.is_empty() { check(true, "nothing to mutate"); return; }
    let (p, key, k) = &todo[choose("mutation", todo.len())];
    let d = at(&mut doc, p);
    if *k == 7 { del(d, key); } else { set(d, key, of_kind(*k)); }
    reach("doc");
    check(parse::<T>(&doc).is_none(), if *k == 7 { "missing member rejected" } else { "wrong kind rejected" });
}
'''
    return o + "".join(H(n, f"c02::<S::{n}>(&D_{n})") for n in obj_defs(v))

# ---------------------------------------------------------------- C03
def c03(v, tier):
    o = prelude(v, tier, 0 if tier == "quick" else 1) + CTOR_FNS + '''
#[inline(never)] fn c03<T: DeserializeOwned>(n: &'static N, key: &str, want: &'static str) {
    let mut g = G::any(choose("cfg", 2)); let mut doc = g.gen(n, "doc");
    let n = want.len(); let k = choose("length", n + 12); let len = if k <= n + 8 { k } else { [2 * n, 2 * n + 1, 65][k - n - 9] };
    let s = ascii("const", len);
    let same = streq(&s, want);
    set(&mut doc, key, Value::String(s)); reach("doc");
    let ok = parse::<T>(&doc).is_some();
    check8((ok as u8) ^ same ^ 1, "exactly the constant is accepted");
}
#[inline(never)] fn c03b<T: DeserializeOwned>(n: &'static N, key: &str, want: &'static str) {
    let mut g = G::any(choose("cfg", 2)); let mut doc = g.gen(n, "doc");
    let s = match choose("non-ASCII", 4) { 0 => nonascii("const", 4), 1 => odd("const", want), 2 => { let k = [1, want.len() / 2, want.len() - 1][choose("cut", 3)]; let mut r = String::from(&want[..k]); r.push_str(&scalar("const")); r.push_str(&want[k..]); r } _ => scalar("const") }; set(&mut doc, key, Value::String(s)); reach("doc");
    check(parse::<T>(&doc).is_none(), "exactly the constant is accepted");
}
#[inline(never)] fn carries<T: Serialize>(t: &T, key: &str, want: &'static str) {
    match write(t) { Some(o) => { vobs(&o); match get(&o, key) { Value::String(s) => check8(streq(s, want), "constructor carries the constant"), _ => check(false, "constructor carries the constant") } } None => check(false, "serialize") }
}
'''
    a = api(v); hs = []
    for T, ms in obj_defs(v).items():
        cs = [(k, const_of(v, x)) for k, r, x in ms if isinstance(const_of(v, x), str)]
        for k, c in cs:
            hs.append(H(f"{T}_{k}", f'if choose("text", 2) == 0 {{ c03::<S::{T}>(&D_{T}, {json.dumps(k)}, {json.dumps(c)}) }} else {{ c03b::<S::{T}>(&D_{T}, {json.dumps(k)}, {json.dumps(c)}) }}'))
        if cs and T in a["ctors"]:
            b = f'let mut g = G::any(choose("cfg", 2)); let doc = g.gen(&D_{T}, "doc"); let t = {ctor_call(v, T)}; reach("built");'
            for k, c in cs:
                opt = any(x[1] == k and "Option" in x[2] for x in a["structs"][T])
                if opt and any(n.replace("r#", "") == next(x[0] for x in a["structs"][T] if x[1] == k) for n, _ in a["ctors"][T]): continue
                b += f'carries(&t, {json.dumps(k)}, {json.dumps(c)});'
            hs.append(H(f"{T}__new", b))
        for f, args, ret in a["accessors"].get(T, []):
            base = f.rstrip("_").replace("_value", "").replace("_name", "")
            for k, c in cs:
                if k != base: continue
                if f.endswith(("_value", "_name")): hs.append(H(f"{T}__{f}", f'let s: &str = S::{T}::{f}(); check8(streq(s, {json.dumps(c)}), "constant accessor");'))
                elif "Option" not in ret and T in a["ctors"]:
                    hs.append(H(f"{T}__{f}", f'let mut g = G::any(choose("cfg", 2)); let doc = g.gen(&D_{T}, "doc"); if let Some(t) = parse::<S::{T}>(&doc) {{ check8(streq(t.{f}(), {json.dumps(c)}), "constant accessor"); }} else {{ check(false, "accepted"); }}'))
    return o + "".join(hs)


# ---------------------------------------------------------------- C09
TEXT = '''
/// collects what a value feeds to its hasher
struct Rec(Vec<u8>);
impl std::hash::Hasher for Rec { fn write(&mut self, b: &[u8]) { for x in b { self.0.push(*x); } } fn finish(&self) -> u64 { 0 } }
fn fed<T: std::hash::Hash>(t: &T) -> Vec<u8> { let mut h = Rec(Vec::new()); t.hash(&mut h); h.0 }
fn bytes_eq(a: &[u8], b: &[u8]) -> u8 { if a.len() != b.len() { return 0; } let mut r = 1; let mut i = 0; while i < a.len() { r &= (a[i] == b[i]) as u8; i += 1; } r }
struct Txt(String);
impl std::fmt::Write for Txt { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.push_str(s); Ok(()) } }
fn text<T: std::fmt::Display>(t: &T) -> String { use std::fmt::Write; let mut w = Txt(String::new()); let _ = write!(w, "{}", t); w.0 }
'''
def c09(v, tier):
    q = tier == "quick"
    o = prelude(v, tier) + TEXT + '''
fn a_string(k: usize, name: &str) -> String { match k { 0 => ascii(name, 3), 1 => String::new(), 2 => ascii(name, 1), 3 => nonascii(name, 1), 4 => ascii(name, 20), 5 => nonascii(name, 9), _ => ascii(name, 64) } }
fn is_same(v: &Value, w: &Value) -> u8 { match (v, w) { (Value::String(_), Value::String(_)) | (Value::Number(_), Value::Number(_)) => veq(v, w), _ => 0 } }
#[inline(never)] fn kind<T: DeserializeOwned + Serialize>(is_int: fn(&T) -> Option<i64>, is_str: fn(&T) -> Option<&str>) {
    let (doc, want) = match choose("kind", 9) {
        0 => (Value::Number(Number::from(any_i64("id"))), 1), 1 => (Value::String(a_string(choose("shape", 7), "id")), 2),
        2 => { let u = sym("big", 64); assume(u >> 63 == 1); (Value::Number(Number::from(u)), 0) }
        3 => (Value::Bool(any_bool("b")), 0), 4 => (Value::Null, 0), 5 => (Value::Array(Vec::new()), 0), 6 => (Value::Array(vec![Value::Number(Number::from(any_i64("e")))]), 0),
        7 => (Value::Object(Map::new()), 0),
        _ => match Number::from_f64(any_f64("f")) { Some(n) => (Value::Number(n), 0), None => { assume(false); return } },
    };
    reach("doc");
    match parse::<T>(&doc) {
        Some(t) => { check(want != 0, "only integers and strings are accepted");
            match (want, is_int(&t), is_str(&t), &doc) { (1, Some(i), None, Value::Number(n)) => check(n.as_i64() == Some(i), "the same integer"), (2, None, Some(s), Value::String(w)) => check8(streq(s, w), "the same string"), _ => check(want == 0, "the same JSON kind") }
            match write(&t) { Some(o) => { vobs(&o); check8(is_same(&doc, &o), "written back with the same kind and value") } None => check(false, "serialize") } }
        None => check(want == 0, "integers and strings are accepted"),
    }
}
fn an_id(k: usize, name: &str) -> S::RequestId { if k == 0 { S::RequestId::Integer(any_i64(name)) } else { S::RequestId::String(a_string(k - 1, name)) } }
'''
    ns = 5 if q else 8
    hs = []
    for T in ("RequestId", "ProgressToken"):
        o += f"fn int_{T}(t: &S::{T}) -> Option<i64> {{ match t {{ S::{T}::Integer(i) => Some(*i), _ => None }} }} fn str_{T}(t: &S::{T}) -> Option<&str> {{ match t {{ S::{T}::String(s) => Some(s), _ => None }} }}\n"
        hs.append(H(f"{T}_kind", f"kind::<S::{T}>(int_{T}, str_{T})"))
        hs.append(H(f"{T}_from", f'let i = any_i64("id"); reach("id"); match S::{T}::from(i) {{ S::{T}::Integer(j) => check(i == j, "From<i64> keeps the value"), _ => check(false, "From<i64> keeps the kind") }}'))
    hs.append(H("pairs", f'''let ka = choose("kind a", {ns}); let kb = choose("kind b", {ns}); let a = an_id(ka, "a"); let b = an_id(kb, "b"); reach("ids");
    let want = match (&a, &b) {{ (S::RequestId::Integer(x), S::RequestId::Integer(y)) => (*x == *y) as u8, (S::RequestId::String(x), S::RequestId::String(y)) => streq(x, y), _ => 0 }};
    check8((a == b) as u8 ^ want ^ 1, "equal exactly when kind and value agree"); check8((b == a) as u8 ^ want ^ 1, "equality is symmetric"); check8((a != b) as u8 ^ want, "unequal is the negation");
    check8((&a == b) as u8 ^ want ^ 1, "equality through a reference");
    check8((want ^ 1) | bytes_eq(&fed(&a), &fed(&b)), "equal ids hash equally");'''))
    hs.append(H("reflexive", f'let a = an_id(choose("kind", {ns}), "a"); let b = a.clone(); reach("id"); check(a == a && a == b, "equality is reflexive, clones are equal"); check8(bytes_eq(&fed(&a), &fed(&b)), "a clone hashes equally");'))
    hs.append(H("numeric_text", '''let i = any_i64("a"); let a = S::RequestId::Integer(i); let b = S::RequestId::String(text(&(i as i8))); reach("id"); check(a != b && b != a, "a number is never equal to its text");'''.replace('any_i64("a")', 'sym("a", 8) as i8 as i64')))
    hs.append(H("print_string", f'let s = a_string(choose("shape", {ns - 1}), "a"); let d = s.clone(); let a = S::RequestId::String(s); reach("id"); check8(streq(&text(&a), &d), "a string id prints as itself"); check8(streq(&a.to_string(), &d), "to_string");'))
    hs.append(H("print_integer", f'''let i = match choose("range", 4) {{ 0 => sym("a", {10 if q else 14}) as i64, 1 => -(sym("a", {10 if q else 14}) as i64), 2 => i64::MIN + conc(sym("a", 3)) as i64, _ => i64::MAX - conc(sym("a", 3)) as i64 }};
    let a = S::RequestId::Integer(i); reach("id"); let t = text(&a); obs_str("text", &t);
    let b = t.as_bytes(); let neg = i < 0; let mut k = 0; let mut ok = !b.is_empty(); if neg {{ ok = ok && b[0] == b'-'; k = 1; }}
    ok = ok && k < b.len() && (b.len() == k + 1 || b[k] != b'0');
    let mut n: u64 = 0; while k < b.len() {{ let d = b[k].wrapping_sub(b'0'); if d > 9 {{ ok = false; }} n = n.wrapping_mul(10).wrapping_add(d as u64); k += 1; }}
    check(ok && n == i.unsigned_abs(), "an integer id prints as its decimal text");'''))
    return o + "".join(hs)

# ---------------------------------------------------------------- C10
VTEXT = [("2024-11-05", "V2024_11_05"), ("2025-03-26", "V2025_03_26"), ("2025-06-18", "V2025_06_18"), ("2025-11-25", "V2025_11_25"), ("2026-07-28", "V2026_07_28"), ("DRAFT", "Draft")]
FROMSTR = {"2025_06_18": ["StringSchemaFormat"], "2025_11_25": ["StringSchemaFormat", "Role"], "2026_07_28": ["StringSchemaFormat", "Role"], "draft": ["StringSchemaFormat", "Role"]}
def camel(x): return "".join(w[:1].upper() + w[1:] for w in re.split(r"[-_]", x))
def c10(v, tier):
    o = prelude(v, tier) + TEXT + '''
fn sample(lens: &[usize], names: &[&str]) -> String { let n = lens.len(); let k = choose("length", n + 3 + names.len()); if k < n { ascii("text", lens[k]) } else if k < n + 2 { nonascii("text", if k == n { 1 } else { 4 }) } else if k == n + 2 { scalar("text") } else { odd("text", names[k - n - 3]) } }
fn names_match(s: &str, names: &[&str]) -> u8 { let mut r = 0; for n in names { r |= streq(s, n); } r }
#[inline(never)] fn name<T: DeserializeOwned + Serialize + std::fmt::Display>(t: T, n: &'static str) {
    check8(streq(&text(&t), n), "prints its name"); check8(streq(&t.to_string(), n), "to_string is its name");
    match write(&t) { Some(Value::String(w)) => check8(streq(&w, n), "serializes as its name"), _ => check(false, "serializes as its name") }
    match parse::<T>(&Value::String(String::from(n))) { Some(u) => check(std::mem::discriminant(&u) == std::mem::discriminant(&t), "deserializes from its name"), None => check(false, "deserializes from its name") }
}
#[inline(never)] fn others<T: DeserializeOwned + Serialize + std::fmt::Display>(names: &'static [&'static str], lens: &[usize]) {
    let s = sample(lens, names); let m = names_match(&s, names); let d = s.clone(); reach("text");
    match parse::<T>(&Value::String(s)) { Some(t) => { check8(m, "only the schema's names are accepted"); check8(streq(&text(&t), &d), "prints the name it was read from"); match write(&t) { Some(Value::String(w)) => check8(streq(&w, &d), "written as the name it was read from"), _ => check(false, "serialize") } }
        None => check8(m ^ 1, "every name of the schema is accepted") }
}
#[inline(never)] fn kinds_of<T: DeserializeOwned>() { let k = choose("kind", 6); let d = of_kind(if k >= 4 { k as u32 + 1 } else { k as u32 }); reach("doc"); check(parse::<T>(&d).is_none(), "only strings are accepted"); }
'''
    hs = []
    a = api(v)
    for T, e in sorted(a["enums"].items()):
        vs = e.get("variants", [])
        if not vs or any(x[2] is not None for x in vs): continue
        names = [x[1] for x in vs]
        # the names the official schema lists, where the definition exists under this name
        if T in spec(v).defs:
            r = spec(v).resolve(spec(v).defs[T]["schema"])
            if r.get("enum"): names = sorted(r["enum"])
        by = {x[1]: x[0] for x in vs}
        lens = sorted(set(range(max(map(len, names)) + 4)) | {2 * len(n) for n in names} | {65})
        for n in names:
            if n not in by: raise Exception(f"{v} {T}: no variant for {n}")
            hs.append(H(f"{T}_{by[n]}", f'reach("name"); name(S::{T}::{by[n]}, {json.dumps(n)});'))
        L = ", ".join(json.dumps(n) for n in names); NL = ", ".join(map(str, lens))
        hs.append(H(f"{T}__others", f"others::<S::{T}>(&[{L}], &[{NL}])"))
        hs.append(H(f"{T}__kinds", f"kinds_of::<S::{T}>()"))
        pairs = "".join(f'check(std::mem::discriminant(&S::{T}::{by[x]}) != std::mem::discriminant(&S::{T}::{by[y]}), "distinct names are distinct values");' for i, x in enumerate(names) for y in names[i + 1:])
        hs.append(H(f"{T}__distinct", f'reach("pairs"); {pairs}'))
        if T in FROMSTR.get(v, []):
            arms = "".join(f"Ok(S::{T}::{by[n]}) => {json.dumps(n)}, " for n in names)
            hs.append(H(f"{T}__fromstr", f'''let s = sample(&[{NL}], &[{L}]); let m = names_match(&s, &[{L}]); reach("text"); use std::str::FromStr; let r = S::{T}::from_str(&s);
    let n = match &r {{ {arms} Err(_) => "" }}; if r.is_ok() {{ check8(streq(&s, n), "text parses to the value of its name"); }} else {{ check8(m ^ 1, "the text of every name parses"); }}'''))
        if T == "IconTheme" and ["From", "&str", "IconTheme"] in uapi(v)["conv"]["utils"]:
            hs.append(H("IconTheme__from", f'''let s = sample(&[{NL}], &[{L}]); reach("text"); let t = S::IconTheme::from(s.as_str()); let is_dark = streq(&s, "dark"); check8(matches!(t, S::IconTheme::Dark) as u8 ^ is_dark ^ 1, "text names its theme");'''))
    PV = "rust_mcp_schema::ProtocolVersion"
    for n, V in VTEXT:
        hs.append(H(f"version_{V}", f'''reach("version"); let p = {PV}::{V}; check8(streq(&text(&p), {json.dumps(n)}), "prints its date"); check8(streq(&p.to_string(), {json.dumps(n)}), "to_string"); let s: String = {PV}::{V}.into(); check8(streq(&s, {json.dumps(n)}), "converts into its text");
    match {PV}::try_from({json.dumps(n)}) {{ Ok(q) => check(q == {PV}::{V}, "its text parses back to it"), Err(_) => check(false, "its text parses back to it") }}'''))
    arms = "".join(f"Ok({PV}::{V}) => {json.dumps(n)}, " for n, V in VTEXT)
    hs.append(H("version__others", f'''let s = sample(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 20, 21], &[{", ".join(json.dumps(n) for n, _ in VTEXT)}]); let m = names_match(&s, &[{", ".join(json.dumps(n) for n, _ in VTEXT)}]); reach("text"); let r = {PV}::try_from(s.as_str());
    let n = match &r {{ {arms} Err(_) => "" }}; if r.is_ok() {{ check8(streq(&s, n), "only the text of a version parses, to that version"); }} else {{ check8(m ^ 1, "the text of every version parses"); }}'''))
    hs.append(H("version__order", f'''reach("list"); let d = choose("draft", 2) == 1; let l = {PV}::supported_versions(d); let want = [{", ".join(json.dumps(n) for n, _ in VTEXT)}];
    check(l.len() == if d {{ 6 }} else {{ 5 }}, "all versions are listed, the draft on request"); let mut i = 0; while i < l.len() {{ check8(streq(&text(&l[i]), want[i]), "listed in chronological order"); if i > 0 {{ check(l[i - 1] < l[i] && l[i] > l[i - 1] && l[i] != l[i - 1], "ordered chronologically"); }} i += 1; }}
    if !d {{ check(l.last() == Some(&{PV}::latest()), "latest is the last stable version"); }}'''))
    lv = "2026-07-28" if v == "draft" else v.replace("_", "-")
    hs.append(H("version__const", f'reach("const"); check8(streq(S::LATEST_PROTOCOL_VERSION, {json.dumps(lv)}), "the schema names its version"); check8(streq(S::JSONRPC_VERSION, "2.0"), "JSON-RPC version");'))
    return o + "".join(hs)
