"""Batches and text parsing."""
from base import *
from p_schema import TEXT
from p_msg import *
# ---------------------------------------------------------------- C14
KINDS = ["request", "notification", "response", "error"]
def c14(v, tier):
    q = tier == "quick"
    o = prelude(v, tier, 0) + msg_fns(v) + CTOR_FNS + 'use U::{McpMessage, RpcMessage, FromMessage, ToMessage};\n'
    hs = []
    mx = 3 if q else 4
    for side in SIDES:
        M, MS, P, PS = f"U::{side}Message", f"U::{side}Messages", f"U::MessageFrom{side}", f"U::MessagesFrom{side}"
        one, pay = [], []
        for kind in ("Request", "Notification"):
            ts = std(v, side, kind)
            for T, m in (ts[:1] + ts[-1:] if len(ts) > 1 else ts): one.append((0 if kind == "Request" else 1, T, m))
        res = [T for T in results(v, side) if T != "Result" and T in obj_defs(v) and T not in ("EmptyResult",)]
        res = [res[0], res[-1]] if len(res) > 1 else res
        if not res: res = ["Result"]
        for T in res: o += f'static B_{side}_{T}: N = N::Obj(&[("result", true, &D_{T})], true);\n'
        err = "JSONRPCErrorResponse" if "JSONRPCErrorResponse" in spec(v).defs else "JSONRPCError"
        # messages
        arms = []
        for k, T, m in one: arms.append(f'{{ let mut d = g.gen(&D_{T}, "message"); env(&mut d, {"Some(&id)" if k == 0 else "None"}); (d, &D_{T}, {k}) }}')
        for T in res: arms.append(f'{{ let r = g.gen(&D_{T}, "result"); let mut d = obj1("result", r); env(&mut d, Some(&id)); (d, &B_{side}_{T}, 2) }}')
        arms.append('{ let mut e = obj1("code", Value::Number(Number::from(if g.prof == 6 { -5 } else { any_i64("code") }))); set(&mut e, "message", Value::String(if g.prof == 6 { String::from("t") } else { ascii("text", 3) })); let mut d = obj1("error", e); env(&mut d, Some(&id)); (d, &N::Any, 3) }')
        na = len(arms)
        ks = [x[0] for x in one] + [2] * len(res) + [3]
        lean = [ks.index(k) for k in range(4) if k in ks]  # one alternative of each kind
        o += f'''#[inline(never)] fn item_{side}(i: usize, lean: bool) -> (Value, &'static N, u32) {{ let g = G::any([0, 1, 3, 0][i]); let id = if i == 1 {{ Value::String(ascii("id", 2)) }} else {{ Value::Number(Number::from(any_i64("id"))) }}; make_{side}(g, id, if lean {{ {lean}[choose("item", {len(lean)})] }} else {{ choose("item", {na}) }}) }}
#[inline(never)] fn make_{side}(mut g: G, id: Value, k: usize) -> (Value, &'static N, u32) {{ match k {{ {" ".join(f"{i if i < na - 1 else '_'} => {a}" for i, a in enumerate(arms))} }} }}
/// n messages: the kinds in rotation, or one kind except at one position
#[inline(never)] fn long_{side}(n: usize, at: bool) {{
    let p = choose("pattern", {len(lean)} + 1); let q = if p > 0 {{ choose("other", {len(lean)}) }} else {{ 0 }}; let j = if at && p > 0 {{ choose("at", n) }} else {{ n - 1 }}; let mut ds: Vec<(Value, &'static N, u32)> = Vec::new();
    for i in 0..n {{ let k = if p == 0 {{ (i + i / {len(lean)}) % {len(lean)} }} else if i == j {{ q }} else {{ p - 1 }}; let id = if i % 3 == 2 {{ s("i") }} else {{ Value::Number(Number::from(i)) }}; ds.push(make_{side}(G::fixed(i == j, 0), id, {lean}[k])); }}
    let mut l = Vec::new(); for d in &ds {{ l.push(d.0.clone()); }} reach("doc");
    match parse::<{MS}>(&Value::Array(l)) {{ Some(t) => batch_{side}(t, &ds), None => return check(false, "accepted") }}
    let mut ms: Vec<{M}> = Vec::new(); for d in &ds {{ match parse(&d.0) {{ Some(m) => ms.push(m), None => return check(false, "accepted") }} }} batch_{side}(ms.into(), &ds);
}}
/// the message describes the document
#[inline(never)] fn is_{side}(m: &{M}, d: &(Value, &'static N, u32)) {{ check(m.is_request() == (d.2 == 0) && m.is_notification() == (d.2 == 1) && m.is_response() == (d.2 == 2) && m.is_error() == (d.2 == 3), "the kind of each message"); match write(m) {{ Some(o) => {{ vobs(&o); check8(veq_n(d.1, &d.0, &o), "each message in its place"); }} None => check(false, "serialize") }} }}
#[inline(never)] fn single_{side}(t: {MS}, d: &(Value, &'static N, u32)) {{
    check(!t.is_batch(), "single or batch"); check(t.includes_request() == (d.2 == 0), "whether a request is included");
    match write(&t) {{ Some(o) => check8(veq_n(d.1, &d.0, &o), "writes the message"), None => check(false, "serialize") }}
    check(t.clone().as_batch().is_err(), "the wrong extractor returns an error"); match t.as_single() {{ Ok(m) => is_{side}(&m, d), Err(_) => check(false, "the single message") }}
}}
#[inline(never)] fn batch_{side}(t: {MS}, ds: &[(Value, &'static N, u32)]) {{
    let mut rq = false; for d in ds {{ if d.2 == 0 {{ rq = true; }} }}
    check(t.is_batch(), "single or batch"); check(t.includes_request() == rq, "whether a request is included");
    match write(&t) {{ Some(Value::Array(l)) => {{ check(l.len() == ds.len(), "one element per message"); for i in 0..ds.len() {{ check8(veq_n(ds[i].1, &ds[i].0, &l[i]), "writes each message in its place"); }} }} _ => check(false, "written as an array") }}
    check(t.clone().as_single().is_err(), "the wrong extractor returns an error"); match t.as_batch() {{ Ok(l) => {{ check(l.len() == ds.len(), "one message per element"); for i in 0..ds.len() {{ is_{side}(&l[i], &ds[i]); }} }} Err(_) => check(false, "the messages") }}
}}
'''
        hs.append(H(f"{side}_single", f'let d = item_{side}(choose("cfg", 3), false); reach("doc"); match parse::<{MS}>(&d.0) {{ Some(t) => single_{side}(t, &d), None => return check(false, "accepted") }} match parse::<{M}>(&d.0) {{ Some(m) => single_{side}(m.into(), &d), None => check(false, "accepted") }}'))
        for n in range(mx + 1):
            if n == mx:  # the longest: fewer alternatives by fixing the first item's kind per harness
                for k in range(4): hs.append(H(f"{side}_batch_{n}_{k}", f'batch_of_{side}({n}, {k});'))
            else: hs.append(H(f"{side}_batch_{n}", f'batch_of_{side}({n}, 9);'))
        o += f'''#[inline(never)] fn batch_of_{side}(n: usize, first: usize) {{ let mut ds: Vec<(Value, &'static N, u32)> = Vec::new(); for i in 0..n {{ let d = item_{side}(i, n > 2 || (i > 0 && n > 1)); if i == 0 && first < 4 {{ assume(d.2 == first as u32); }} ds.push(d); }} let mut l = Vec::new(); for d in &ds {{ l.push(d.0.clone()); }} let doc = Value::Array(l); reach("doc");
    match parse::<{MS}>(&doc) {{ Some(t) => batch_{side}(t, &ds), None => return check(false, "accepted") }}
    let mut ms: Vec<{M}> = Vec::new(); for d in &ds {{ match parse(&d.0) {{ Some(m) => ms.push(m), None => return check(false, "accepted") }} }} batch_{side}(ms.into(), &ds);
}}
'''
        for n, at in ((5, True), (9, False), (17, False)) if q else ((5, True), (9, True), (17, True), (40, False)): hs.append(H(f"{side}_long_{n}", f'long_{side}({n}, {str(at).lower()});'))
        hs.append(H(f"{side}_neither", f'let k = choose("kind", 5); let d = of_kind([0, 1, 2, 3, 4][k]); reach("doc"); check(parse::<{MS}>(&d).is_none(), "neither an array nor an object"); let n = choose("n", 3); let at = choose("at", 3); assume(at <= n); let mut l = Vec::new(); for i in 0..n + 1 {{ if i == at {{ l.push(match choose("bad", 3) {{ 0 => of_kind([0, 1, 2, 3, 4][k]), 1 => obj(), _ => obj1("id", Value::Number(Number::from(any_i64("id")))) }}); }} else {{ let mut g = G::any(0); let id = Value::Number(Number::from(i)); let x = {arms[0]}; l.push(x.0); }} }} check(parse::<{MS}>(&Value::Array(l)).is_none(), "an array with an element that is no message");'))
        # payload batches
        pa = []
        for k, T, m in one:
            kind = "Request" if k == 0 else "Notification"
            if old(v): pa.append(f'{{ let mut d = g.gen(&D_{T}, "message"); match parse::<S::{T}>(&d) {{ Some(t) => {P}::{kind}From{side}({payload(v, side, kind, T, "t")}), None => {{ check(false, "accepted"); loop {{}} }} }} }}')
            else:
                pt = payload_types(v, side, kind)[T]; ty = owner(v, pt) if not pt.startswith("Option") else "Option<" + owner(v, pt[7:-1].strip()) + ">"
                pa.append(f'{{ let d = g.gen(&D_{T}, "message"); match parse::<{ty}>(get(&d, "params")) {{ Some(t) => {P}::{kind}From{side}({payload(v, side, kind, T, "t")}), None => {{ check(false, "accepted"); loop {{}} }} }} }}')
        for T in res:
            rp, mp = result_payload(v, side, T, "t"); pa.append(f'{{ let d = g.gen(&D_{T}, "result"); match parse::<{owner(v, T)}>(&d) {{ Some(t) => {mp.format(rp)}, None => {{ check(false, "accepted"); loop {{}} }} }} }}')
        pa.append(f'{P}::Error(S::RpcError {{ code: if g.prof == 6 {{ -5 }} else {{ any_i64("code") }}, message: ascii("text", 3), data: None }})')
        o += f'''#[inline(never)] fn part_{side}(i: usize, lean: bool, k: &mut usize) -> {P} {{ *k = if lean {{ {lean}[choose("item", {len(lean)})] }} else {{ choose("item", {len(pa)}) }}; mkpart_{side}(G::any([0, 1, 3, 0][i]), *k) }}
#[inline(never)] fn mkpart_{side}(mut g: G, k: usize) -> {P} {{ match k {{ {" ".join(f"{i if i < len(pa) - 1 else '_'} => {a}" for i, a in enumerate(pa))} }} }}
const K_{side}: [u32; {len(pa)}] = [{", ".join(map(str, ks))}];
fn kind_of_{side}(m: &{P}) -> u32 {{ if m.is_request() {{ 0 }} else if m.is_notification() {{ 1 }} else if m.is_response() {{ 2 }} else if m.is_error() {{ 3 }} else {{ 9 }} }}
'''
        hs.append(H(f"{side}_payload_single", f'let mut k = 0; let p = part_{side}(choose("cfg", 3), false, &mut k); let want = write(&p); reach("part"); let t: {PS} = p.into(); check(!t.is_batch(), "single or batch"); check(t.includes_request() == (K_{side}[k] == 0), "whether a request is included"); check(t.clone().as_batch().is_err(), "the wrong extractor returns an error"); match t.as_single() {{ Ok(m) => {{ check(kind_of_{side}(&m) == K_{side}[k], "the kind of each message"); match (want, write(&m)) {{ (Some(w), Some(o)) => check8(veq(&w, &o), "each message in its place"), _ => check(false, "serialize") }} }} Err(_) => check(false, "the single message") }}'))
        o += f'''#[inline(never)] fn parts_{side}(ps: Vec<{P}>, ks: Vec<u32>) {{ let n = ks.len(); let mut rq = false; for k in &ks {{ if *k == 0 {{ rq = true; }} }} let mut ws = Vec::new(); for p in &ps {{ match write(p) {{ Some(w) => ws.push(w), None => return check(false, "serialize") }} }} reach("parts");
    let t: {PS} = ps.into(); check(t.is_batch(), "single or batch"); check(t.includes_request() == rq, "whether a request is included"); check(t.clone().as_single().is_err(), "the wrong extractor returns an error");
    match write(&t) {{ Some(Value::Array(l)) => {{ check(l.len() == n, "one element per message"); for i in 0..n {{ check8(veq(&ws[i], &l[i]), "writes each message in its place"); }} }} _ => check(false, "written as an array") }}
    match t.as_batch() {{ Ok(l) => {{ check(l.len() == n, "one message per element"); for i in 0..n {{ check(kind_of_{side}(&l[i]) == ks[i], "the kind of each message"); match write(&l[i]) {{ Some(o) => check8(veq(&ws[i], &o), "each message in its place"), None => check(false, "serialize") }} }} }} Err(_) => check(false, "the messages") }}
}}
'''
        hs.append(H(f"{side}_payload_batch", f'let n = choose("n", {mx}); let mut ks = Vec::new(); let mut ps = Vec::new(); for i in 0..n {{ let mut k = 0; let p = part_{side}(i, n > 2 || i > 0, &mut k); ks.push(K_{side}[k]); ps.push(p); }} parts_{side}(ps, ks);'))
        hs.append(H(f"{side}_payload_long", f'''let n = [4, 5, 9, 17][choose("n", 4)]; let p = choose("pattern", {len(lean)} + 1); let q = if p > 0 {{ choose("other", {len(lean)}) }} else {{ 0 }}; let mut ks = Vec::new(); let mut ps = Vec::new();
    for i in 0..n {{ let k = {lean}[if p == 0 {{ (i + i / {len(lean)}) % {len(lean)} }} else if i == n - 1 {{ q }} else {{ p - 1 }}]; ks.push(K_{side}[k]); ps.push(mkpart_{side}(G::fixed(i == n - 1, 0), k)); }} parts_{side}(ps, ks);'''))
    return o + "".join(hs)
# ---------------------------------------------------------------- C17
def c17(v, tier):
    q = tier == "quick"
    o = prelude(v, tier, 0) + TEXT + msg_fns(v) + '''
use std::str::FromStr;
fn json(v: &Value) -> Option<String> { match serde_json::to_string(v) { Ok(s) => Some(s), Err(_) => None } }
fn value(s: &str) -> Option<Value> { match serde_json::from_str::<Value>(s) { Ok(v) => Some(v), Err(_) => None } }
/// numbers with a fraction or an exponent are left to the shorter texts
fn nofloat(s: &str) { let b = s.as_bytes(); for i in 0..b.len() { assume(b[i] != b'.' && b[i] | 32 != b'e' || i == 0 || b[i - 1].wrapping_sub(b'0') > 9); } }
trait Entry: Serialize + DeserializeOwned + FromStr<Err = S::RpcError> + std::fmt::Display {}
impl<T: Serialize + DeserializeOwned + FromStr<Err = S::RpcError> + std::fmt::Display> Entry for T {}
/// parses `s`; what is accepted is what deserializing the JSON directly gives, and survives printing
#[inline(never)] fn agrees<T: Entry>(s: &str) -> bool {
    match T::from_str(s) {
        Ok(t) => {
            let w = match write(&t) { Some(w) => w, None => { check(false, "serialize"); return true } };
            match value(s) { Some(x) => match parse::<T>(&x) { Some(u) => match write(&u) { Some(o) => check8(veq(&w, &o), "the same value as by direct deserialization"), None => check(false, "serialize") }, None => check(false, "accepted directly as well") }, None => check(false, "only JSON is accepted") }
            prints(&t, &w); true
        }
        Err(e) => { check(e.code == -32700, "refused with the parse error code"); false }
    }
}
#[inline(never)] fn prints<T: Entry>(t: &T, w: &Value) {
    let p = text(t); match value(&p) { Some(x) => check8(veq(w, &x), "printed as its JSON"), None => check(false, "printed as JSON") }
    match T::from_str(&p) { Ok(u) => match write(&u) { Some(o) => check8(veq(w, &o), "printing and parsing gives an equal value"), None => check(false, "serialize") }, Err(_) => check(false, "what is printed parses") }
}
/// a document of the entry point's own kind: accepted
#[inline(never)] fn own<T: Entry>(d: &Value) { let s = match json(d) { Some(s) => s, None => return check(false, "text") }; obs_str("text", &s); let u = parse::<T>(d).is_some(); check(agrees::<T>(&s) == u, "accepted exactly when its JSON is"); }
'''
    hs = []
    entries = []
    for side in SIDES: entries += [f"U::{side}Message", f"U::{side}JsonrpcRequest", f"U::{side}JsonrpcNotification", f"U::{side}JsonrpcResponse"]
    E_ = "S::JsonrpcError" if old(v) else "S::JsonrpcErrorResponse"
    entries += [E_, "S::RpcError"]
    nm = lambda t: t.split("::")[-1]
    # arbitrary short texts
    for T in entries:
        for n in range(0, 4 if q else 5):
            hs.append(H(f"short_{nm(T)}_{n}", f'let s = ascii("text", {n}); {"nofloat(&s);" if n > 2 else ""} reach("text"); check(!agrees::<{T}>(&s), "too short for a message");'))
        hs.append(H(f"short_{nm(T)}_nonascii", f'let s = match choose("shape", 3) {{ 0 => nonascii("text", 1), 1 => scalar("text"), _ => odd("text", "1") }}; reach("text"); check(!agrees::<{T}>(&s), "no JSON");'))
    # documents of every kind, fixed leaves, every structural default
    def docs(side):
        l = []
        for T, m in std(v, side, "Request"): l.append((1, T, f'let mut d = g.gen(&D_{T}, "doc"); env(&mut d, Some(&id));'))
        for T, m in std(v, side, "Notification"): l.append((2, T, f'let mut d = g.gen(&D_{T}, "doc"); env(&mut d, None);'))
        for T in results(v, side):
            if "D_" + T: l.append((4, T, f'let r = g.gen(&D_{T}, "doc"); let mut d = obj1("result", r); env(&mut d, Some(&id));'))
        l.append((8, "error", 'let mut e = obj1("code", Value::Number(Number::from(-32000))); set(&mut e, "message", s("m")); if g.full { set(&mut e, "data", g.gen(&N::Any, "data")); } let mut d = obj1("error", e); env(&mut d, Some(&id));'))
        return l
    for side in SIDES:
        for k, T, b in docs(side):
            own = {1: f"U::{side}JsonrpcRequest", 2: f"U::{side}JsonrpcNotification", 4: f"U::{side}JsonrpcResponse", 8: E_}[k]
            b = f'let mut g = G::fixed(choose("full", 2) == 1, {0 if q else 1}); let id = if choose("id", 2) == 0 {{ s("i") }} else {{ Value::Number(Number::from(-12)) }}; {b} reach("doc"); let z = match json(&d) {{ Some(z) => z, None => return check(false, "text") }}; obs_str("text", &z);'
            b += f' check(agrees::<U::{side}Message>(&z), "every message of its kind is accepted"); check(agrees::<{own}>(&z), "every message of its kind is accepted");'
            b += f' match parse::<U::{side}Message>(&d) {{ Some(m) => {{ let l: U::{side}Messages = m.into(); match (write(&l), value(&text(&l))) {{ (Some(w), Some(x)) => check8(veq(&w, &x), "printed as its JSON"), _ => check(false, "printed as JSON") }} }} None => check(false, "accepted") }}'
            hs.append(H(f"{side}_{T}", b))
    # texts with symbolic characters inside a message
    params = ', "params":{"a":1}'
    base = {"Message": '{"jsonrpc":"2.0","id":%s,"method":"%s"%s}%s'}
    o += '''
fn cat(p: &[&str]) -> String { let mut r = String::new(); for x in p { r.push_str(x); } r }
'''
    n1, n2 = (2, 3) if q else (3, 4)
    E2 = [("request", lambda s_: [f"U::{s_}Message", f"U::{s_}JsonrpcRequest"]), ("error", lambda s_: [f"U::{s_}Message", E_])]
    for side in SIDES:
        for kind, ts in E2:
            if kind == "error" and side == "Server" : ents = [f"U::{side}Message"]
            else: ents = ts(side)
            body = (r'\"method\":\"ping\",\"params\":{\"_meta\":{\"a\":\"b\"}}' if old(v) else r'\"method\":\"x/y\",\"params\":{\"a\":\"b\"}') if kind == "request" else r'\"error\":{\"code\":-5,\"message\":\"m\",\"data\":null}'
            for T in ents:
                N_ = f"{side}_{kind}_{nm(T)}"
                # the id's text: numbers, words, junk
                for n in range(1, n2 + 1): hs.append(H(f"{N_}_id_{n}", f'let x = ascii("id", {n}); {"nofloat(&x);" if n > 2 else ""} let z = cat(&["{{\\"jsonrpc\\":\\"2.0\\",\\"id\\":", &x, ",{body}}}"]); reach("text"); agrees::<{T}>(&z);'))
                # inside a string: quotes, escapes, control characters
                for n in range(1, n1 + 1): hs.append(H(f"{N_}_str_{n}", f'let x = ascii("in string", {n}); let z = cat(&["{{\\"jsonrpc\\":\\"2.0\\",\\"id\\":\\"", &x, "\\",{body}}}"]); reach("text"); agrees::<{T}>(&z);'))
                hs.append(H(f"{N_}_nonascii", f'let x = if choose("shape", 2) == 0 {{ nonascii("in string", 1) }} else {{ scalar("in string") }}; let z = cat(&["{{\\"jsonrpc\\":\\"2.0\\",\\"id\\":\\"", &x, "\\",{body}}}"]); reach("text"); agrees::<{T}>(&z);'))
                # before, after and between
                for n in range(1, n1 + 1):
                    hs.append(H(f"{N_}_after_{n}", f'let x = ascii("after", {n}); let z = cat(&["{{\\"jsonrpc\\":\\"2.0\\",\\"id\\":1,{body}}}", &x]); reach("text"); agrees::<{T}>(&z);'))
                    hs.append(H(f"{N_}_before_{n}", f'let x = ascii("before", {n}); let z = cat(&[&x, "{{\\"jsonrpc\\":\\"2.0\\",\\"id\\":1,{body}}}"]); reach("text"); agrees::<{T}>(&z);'))
                    hs.append(H(f"{N_}_between_{n}", f'let x = ascii("between", {n}); let z = cat(&["{{\\"jsonrpc\\":\\"2.0\\"", &x, "\\"id\\":1,{body}}}"]); reach("text"); agrees::<{T}>(&z);'))
                hs.append(H(f"{N_}_around", f'let x = odd("around", "{{\\"jsonrpc\\":\\"2.0\\",\\"id\\":1,{body}}}"); reach("text"); check(!agrees::<{T}>(&x), "a non-ASCII character before or after a message is refused");'))
                hs.append(H(f"{N_}_inside", f'let x = scalar("between"); let p = choose("place", 3); let y = if p == 0 {{ " " }} else {{ &x[..] }}; let z = match p {{ 0 => cat(&["{{\\"jsonrpc\\":", &x, "\\"2.0\\",\\"id\\":1,{body}}}"]), 1 => cat(&["{{\\"jsonrpc\\":\\"2.0\\",\\"id\\":1", &x, ",{body}}}"]), _ => cat(&["{{\\"jsonrpc\\":\\"2.0\\",\\"id\\":1,{body}", &x, "}}"]) }}; reach("text"); check(!agrees::<{T}>(&z), "a non-ASCII character between members is refused");'))
                # a further member with any name, also one already there
                hs.append(H(f"{N_}_member", f'let k = [2, 5, 6, 7][choose("length", 4)]; let x = ascii("member", k); for c in x.bytes() {{ assume(c >= 97 && c <= 122); }} for p in ["id", "error", "method", "params", "jsonrpc"] {{ assume(x.as_str() != p); }} let z = cat(&["{{\\"jsonrpc\\":\\"2.0\\",\\"id\\":1,\\"", &x, "\\":", ["null", "2", "{{}}", "\\"2.0\\""][choose("value", 4)], ",{body}}}"]); reach("text"); agrees::<{T}>(&z);'))
                # truncated anywhere
                hs.append(H(f"{N_}_cut", f'let z = "{{\\"jsonrpc\\":\\"2.0\\",\\"id\\":1,{body}}}"; let n = choose("length", z.len()); reach("text"); check(!agrees::<{T}>(&z[..n]), "a truncated message is refused");'))
        for kind in ("Request", "Notification"):
            b = r'\"method\":\"x/y\",\"params\":{\"a\":\"b\"}'; i = r'\"id\":1,' if kind == "Request" else ""
            hs.append(H(f"{side}_custom{kind}", f'let z = "{{\\"jsonrpc\\":\\"2.0\\",{i}{b}}}"; reach("text"); ' + (f'agrees::<U::{side}Message>(z);' if not old(v) else
                f'match U::{side}Message::from_str(z) {{ Ok(t) => match (write(&t), U::{side}Message::from_str(&text(&t))) {{ (Some(w), Ok(u)) => match write(&u) {{ Some(o) => check8(veq(&w, &o), "custom message printed with its params not nested"), None => check(false, "serialize") }}, _ => check(false, "what is printed parses") }}, Err(_) => check(false, "accepted") }}')))
    # symbolic strings printed
    for side in SIDES:
        hs.append(H(f"{side}_print", f'let x = match choose("shape", 3) {{ 0 => ascii("id", {n1}), 1 => nonascii("id", 1), _ => scalar("id") }}; let mut d = obj1("error", obj()); let mut e = obj1("code", Value::Number(Number::from(1))); set(&mut e, "message", s("m")); set(&mut d, "error", e); env(&mut d, Some(&Value::String(x))); reach("doc"); match parse::<U::{side}Message>(&d) {{ Some(t) => match write(&t) {{ Some(w) => prints(&t, &w), None => check(false, "serialize") }}, None => check(false, "accepted") }}'))
        # batches are printed as their JSON
        o += f'''fn bmsg_{side}(k: usize, i: usize) -> Value {{ let mut d = obj(); let id = if i == 1 {{ s("i") }} else {{ Value::Number(Number::from(i)) }};
    match k {{ 0 => {{ set(&mut d, "method", s("x/y")); let mut p = obj1("a", s("b")); set(&mut d, "params", p); env(&mut d, Some(&id)); }} 1 => {{ set(&mut d, "method", s("x/z")); set(&mut d, "params", obj1("a", s("\\n\\""))); env(&mut d, None); }}
        2 => {{ let mut r = obj1("q", s("r")); {'set(&mut r, "resultType", s("complete"));' if new(v) else ""} set(&mut d, "result", r); env(&mut d, Some(&id)); }} _ => {{ let mut e = obj1("code", Value::Number(Number::from(-3))); set(&mut e, "message", s("m")); set(&mut d, "error", e); env(&mut d, Some(&id)); }} }} d }}
'''
        hs.append(H(f"{side}_batch_print", f'''let n = choose("n", 4); let mut l = Vec::new(); for i in 0..n {{ match parse::<U::{side}Message>(&bmsg_{side}(choose("kind", 4), i)) {{ Some(m) => l.push(m), None => return check(false, "accepted") }} }} reach("batch");
    let b: U::{side}Messages = l.into(); match (write(&b), value(&text(&b))) {{ (Some(w), Some(x)) => {{ check8(veq(&w, &x), "a batch is printed as its JSON"); check(match &x {{ Value::Array(a) => a.len() == n, _ => false }}, "one element per message"); }} _ => check(false, "a batch is printed as JSON") }}'''))
    hs.append(H("error_print", f'let x = match choose("shape", 3) {{ 0 => ascii("message", {n1}), 1 => nonascii("message", 1), _ => scalar("message") }}; let mut e = obj1("code", Value::Number(Number::from([0i64, -32700, i64::MAX, i64::MIN][choose("code", 4)]))); set(&mut e, "message", Value::String(x.clone())); if choose("data", 2) == 1 {{ set(&mut e, "data", Value::String(x)); }} reach("doc"); own::<S::RpcError>(&e);'))
    return o + "".join(hs)
