"""Messages: dispatch, classification, results, wrapping, narrowing, batches, text."""
from base import *
SIDES = ("Client", "Server")
def jstr(x): return json.dumps(x)

def std(v, side, kind):
    """standard (type, method) pairs of a direction; kind is Request or Notification"""
    e = api(v)["enums"].get(side + kind)
    if e: ts = [x[2] for x in e["variants"]]
    elif side + kind == "ServerRequest": ts = ["CreateMessageRequest", "ListRootsRequest", "ElicitRequest"]
    elif side + kind == "ClientNotification": ts = ["CancelledNotification"]
    else: ts = []
    od = obj_defs(v)
    return [(t, next(const_of(v, x) for k, r, x in od[t] if k == "method")) for t in ts]

def msgpat(v, side, kind, T):
    """pattern for the standard variant T inside a <side>Message (T None: the custom variant)"""
    J = f"U::{side}Jsonrpc{kind}"; M = f"U::{side}Message::{kind}"
    f, F = ("request", f"RequestFrom{side}") if kind == "Request" else ("notification", f"NotificationFrom{side}")
    if old(v):
        inner = f"U::{F}::{side}{kind}(S::{side}{kind}::{T}(_))" if T else f"U::{F}::Custom{kind}(_)"
        return f"{M}({J} {{ {f}: {inner}, .. }})"
    if not new(v): return f"{M}({J}::{T or 'Custom' + kind}(_))"
    if side + kind in ("ClientRequest", "ServerNotification"):
        return f"{M}({J}::Standard(S::{side}{kind}::{T}(_)))" if T else f"{M}({J}::Custom(_))"
    if side + kind == "ServerRequest" and T: return f"{M}({J}::{T} {{ .. }})"
    return f"{M}({J}::{T or 'Custom' + kind}(_))"

def method_expr(v, side, kind, m):
    """method reported by a parsed message"""
    if not old(v): return f"match U::RpcMessage::method({m}) {{ Some(s) => s, None => \"<none>\" }}"
    return f"match {m} {{ U::{side}Message::{kind}(x) => x.method.as_str(), _ => \"<none>\" }}"

def msg_fns(v):
    """std_of_<side>(message): the method constant of the standard variant it holds; is_custom_<side>; method_of_<side>"""
    o = '''
fn any_id() -> Value { match choose("id kind", 4) { 0 => Value::Number(Number::from(any_i64("id"))), 1 => Value::String(ascii("id", 3)), 2 => Value::String(String::new()), _ => Value::String(nonascii("id", 1)) } }
fn some_id() -> Value { if choose("id kind", 2) == 0 { Value::Number(Number::from(any_i64("id"))) } else { Value::String(ascii("id", 3)) } }
fn ideq(id: &S::RequestId, v: &Value) -> u8 { match (id, v) { (S::RequestId::Integer(i), Value::Number(n)) => (n.as_i64() == Some(*i)) as u8, (S::RequestId::String(s), Value::String(t)) => streq(s, t), _ => 0 } }
fn opt_ideq(id: Option<&S::RequestId>, v: Option<&Value>) -> u8 { match (id, v) { (Some(a), Some(b)) => ideq(a, b), (None, None) => 1, _ => 0 } }
fn s(x: &str) -> Value { Value::String(String::from(x)) }
fn obj() -> Value { Value::Object(Map::new()) }
fn obj1(k: &str, x: Value) -> Value { let mut o = obj(); set(&mut o, k, x); o }
/// JSON-RPC members around a body
fn env(d: &mut Value, id: Option<&Value>) { set(d, "jsonrpc", s("2.0")); match id { Some(i) => set(d, "id", i.clone()), None => del(d, "id") } }
fn is_str(v: &Value, w: &str) -> u8 { match v { Value::String(x) => streq(x, w), _ => 0 } }
/// parameters of a custom message
fn some_params(d: &mut Value) { match choose("params", 5) { 0 => {} 3 => set(d, "params", obj()), 4 => { let mut p = obj1("e", obj()); set(&mut p, "l", Value::Array(vec![Value::Null, Value::Bool(false), obj()])); set(&mut p, "n", Value::Null); set(d, "params", p); } 1 => set(d, "params", obj1("a", Value::String(ascii("param", 3)))), _ => { let mut p = obj1("k", Value::Number(Number::from(any_i64("param")))); set(&mut p, "method", Value::String(ascii("param", 2))); set(d, "params", p); } } }
fn none_of(m: &str, std: &[&str]) -> u8 { let mut r = 0; for x in std { r |= streq(m, x); } r ^ 1 }
'''
    for side in SIDES:
        arms = {k: [] for k in ("Request", "Notification")}
        for kind in arms:
            o += f"const {side.upper()}_{kind.upper()}S: &[&str] = &[{', '.join(jstr(m) for _, m in std(v, side, kind))}];\n"
        o += f"fn std_of_{side}(m: &U::{side}Message) -> Option<&'static str> {{ match m {{ " + "".join(f"{msgpat(v, side, kind, T)} => Some({jstr(m)}), " for kind in arms for T, m in std(v, side, kind)) + "_ => None } }\n"
        o += f"fn is_custom_{side}(m: &U::{side}Message) -> bool {{ match m {{ {msgpat(v, side, 'Request', None)} | {msgpat(v, side, 'Notification', None)} => true, _ => false }} }}\n"
        if old(v): o += f"fn method_of_{side}(m: &U::{side}Message) -> Option<&str> {{ match m {{ U::{side}Message::Request(x) => Some(x.method.as_str()), U::{side}Message::Notification(x) => Some(x.method.as_str()), _ => None }} }}\n"
        else: o += f"fn method_of_{side}(m: &U::{side}Message) -> Option<&str> {{ U::RpcMessage::method(m) }}\n"
        # kind predicates: bit 0 request, 1 notification, 2 response, 3 error; message_type as 10 + index
        o += f'''fn kind_{side}(m: &U::{side}Message) -> (u32, u32) {{ use U::McpMessage; let b = (m.is_request() as u32) | (m.is_notification() as u32) << 1 | (m.is_response() as u32) << 2 | (m.is_error() as u32) << 3;
    (b, match m.message_type() {{ U::MessageTypes::Request => 1, U::MessageTypes::Notification => 2, U::MessageTypes::Response => 4, U::MessageTypes::Error => 8 }}) }}
'''
    return o

def dev(tier, dq, dt): return dq if tier == "quick" else dt

# ---------------------------------------------------------------- C04
def c04(v, tier):
    o = prelude(v, tier, dev(tier, 0, 1)) + msg_fns(v)
    hs = []
    unions = []
    for side in SIDES:
        for kind in ("Request", "Notification"):
            n = side + kind
            if n in api(v)["enums"]: unions.append((n, std(v, side, kind)))
    if new(v): unions.append(("InputRequest", std(v, "Server", "Request")))
    for n, ts in unions:
        o += f"fn std_of_{n}(m: &S::{n}) -> &'static str {{ match m {{ " + "".join(f"S::{n}::{T}(_) => {jstr(m)}, " for T, m in ts) + "} }\n"
        o += f'''#[inline(never)] fn typed_{n}(n: &'static N, want: &'static str) {{
    let mut g = G::pick(); let doc = g.gen(n, "doc"); reach("doc");
    match parse::<S::{n}>(&doc) {{
        Some(u) => {{ check(std_of_{n}(&u) == want, "the variant its method names"); check8(streq(u.method(), want), "method() reports the method");
            match write(&u) {{ Some(o) => {{ vobs(&o); check8(veq_n(n, &doc, &o), "written unchanged") }} None => check(false, "serialize") }} }}
        None => check(false, "standard method accepted"),
    }}
}}
#[inline(never)] fn any_{n}(n: &'static N, own: &str) {{
    let cfg = choose("cfg", {2 if tier == "quick" else 3}); let mut g = G::any(cfg % 2); let mut doc = g.gen(n, "doc");
    let m = method_text(&[own], cfg == {1 if tier == "quick" else 2}); let d = m.clone(); set(&mut doc, "method", Value::String(m)); reach("doc");
    match parse::<S::{n}>(&doc) {{ Some(u) => check8(streq(&d, std_of_{n}(&u)), "a standard variant only for its own method"), None => check(true, "rejected") }}
}}
'''
        for T, m in ts:
            hs.append(H(f"{n}_{T}", f"typed_{n}(&D_{T}, {jstr(m)})"))
            hs.append(H(f"{n}_{T}__any", f"any_{n}(&D_{T}, {jstr(m)})"))
    names = sorted({m for side in SIDES for kind in ("Request", "Notification") for _, m in std(v, side, kind)})
    mx = max(map(len, names)) + (3 if tier == "quick" else 12); few = sorted({len(m) for m in names} | {0, 1, 7}); rest = [n for n in range(mx) if n not in few]
    o += f'''/// a method text: any ASCII string of one of these lengths, or a standard method with one non-ASCII character before or after it
fn method_text(own: &[&str], all: bool) -> String {{ if !all {{ return ascii("method", {few}[choose("length", {len(few)})]); }} let k = choose("length", {len(rest)} + own.len()); if k < {len(rest)} {{ ascii("method", {rest}[k]) }} else {{ odd("method", own[k - {len(rest)}]) }} }}
'''
    for side in SIDES:
        M = f"U::{side}Message"
        o += f'''#[inline(never)] fn mtyped_{side}(n: &'static N, want: &'static str, req: bool) {{
    let mut g = G::any(choose("cfg", 3)); let mut doc = g.gen(n, "doc"); let id = some_id();
    env(&mut doc, if req {{ Some(&id) }} else {{ None }}); reach("doc");
    match parse_o::<{M}>(&doc) {{
        Some(u) => {{ check(std_of_{side}(&u) == Some(want), "the variant its method names"); check8(match method_of_{side}(&u) {{ Some(m) => streq(m, want), None => 0 }}, "the message reports its method"); }}
        None => check(false, "standard message accepted"),
    }}
}}
#[inline(never)] fn many_{side}(n: &'static N, own: &str, req: bool) {{
    let cfg = choose("cfg", {2 if tier == "quick" else 3}); let mut g = G::any(cfg % 2); let mut doc = g.gen(n, "doc"); let id = s("i");
    env(&mut doc, if req {{ Some(&id) }} else {{ None }});
    let m = method_text(&[own], cfg == {1 if tier == "quick" else 2}); let d = m.clone(); set(&mut doc, "method", Value::String(m)); reach("doc");
    match parse::<{M}>(&doc) {{
        Some(u) => match std_of_{side}(&u) {{ Some(x) => check8(streq(&d, x), "a standard variant only for its own method"),
            None => {{ check(is_custom_{side}(&u), "custom otherwise"); check8(match method_of_{side}(&u) {{ Some(m) => streq(m, &d), None => 0 }}, "the custom message reports its method"); }} }}
        None => check(false, "a message of any method is accepted"),
    }}
}}
#[inline(never)] fn custom_{side}(req: bool) {{
    let text = choose("text", 3); let id = if text == 1 {{ s("i") }} else {{ any_id() }}; let m = match text {{ 0 => method_text(&[], false), 1 => method_text(if req {{ {side.upper()}_REQUESTS }} else {{ {side.upper()}_NOTIFICATIONS }}, true), _ => nonascii("method", 3) }};
    assume8(none_of(&m, if req {{ {side.upper()}_REQUESTS }} else {{ {side.upper()}_NOTIFICATIONS }}));
    let mut doc = obj(); if text == 1 {{ set(&mut doc, "params", obj1("e", Value::Null)); }} else {{ some_params(&mut doc); }} env(&mut doc, if req {{ Some(&id) }} else {{ None }}); let d = m.clone(); set(&mut doc, "method", Value::String(m)); reach("doc");
    match parse::<{M}>(&doc) {{
        Some(u) => {{ check(is_custom_{side}(&u), "not standard: custom"); check8(match method_of_{side}(&u) {{ Some(m) => streq(m, &d), None => 0 }}, "the custom message reports its method");
            {custom_params_check(v, side)} }}
        None => check(false, "custom message accepted"),
    }}
}}
'''
        for kind in ("Request", "Notification"):
            r = "true" if kind == "Request" else "false"
            for T, m in std(v, side, kind):
                hs.append(H(f"{side}Message_{T}", f"mtyped_{side}(&D_{T}, {jstr(m)}, {r})"))
                hs.append(H(f"{side}Message_{T}__any", f"many_{side}(&D_{T}, {jstr(m)}, {r})"))
            hs.append(H(f"{side}Message__custom{kind}", f"custom_{side}({r})"))
    return o + "".join(hs)

def custom_params_check(v, side):
    """the params a custom message was given are the ones it holds"""
    cmp = '(match (get(&doc, "params"), p) { (Value::Null, None) => 1, (a, Some(b)) => veq(a, b), _ => 0 })'
    arms = ""
    for kind in ("Request", "Notification"):
        M = f"U::{side}Message::{kind}"; f, F = ("request", f"RequestFrom{side}") if kind == "Request" else ("notification", f"NotificationFrom{side}")
        if old(v): arms += f'{M}(x) => match &x.{f} {{ U::{F}::Custom{kind}(w) => {{ let p = match get(w, "params") {{ Value::Null => None, y => Some(y) }}; check8({cmp}, "the custom message holds its params") }} _ => {{}} }},'
        else:
            c = msgpat(v, side, kind, None).replace("(_)", "(x)")
            arms += f'{c} => {{ let q = x.params.as_ref().map(|y| write(y).unwrap_or(Value::Null)); let p = q.as_ref(); check8({cmp}, "the custom message holds its params") }}'
    return f"match &u {{ {arms} _ => {{}} }}"

# ---------------------------------------------------------------- C05
NESTED = '''
/// the known defect of custom messages: method and params are written inside params
fn nested(doc: &Value, o: &Value) -> u8 {
    let mut p = obj1("method", get(doc, "method").clone()); set(&mut p, "params", get(doc, "params").clone());
    let mut w = doc.clone(); set(&mut w, "params", p); let r = veq(&w, o);
    let mut q = obj1("method", get(doc, "method").clone()); if let Value::Null = get(doc, "params") {} else { set(&mut q, "params", get(doc, "params").clone()); }
    set(&mut w, "params", q); r | veq(&w, o)
}
'''
def err_id_optional(v): return not old(v)
def c05(v, tier):
    o = prelude(v, tier) + msg_fns(v) + NESTED
    hs = []
    rt = "JsonrpcError" if old(v) else "JsonrpcErrorResponse"
    for side in SIDES:
        M = f"U::{side}Message"
        o += f'''#[inline(never)] fn cls_{side}(n: &'static N, doc: &Value, id: Option<&Value>, kind: u32, method: Option<&str>, custom: bool) {{
    reach("doc");
    match parse_o::<{M}>(doc) {{
        Some(u) => {{
            let (b, t) = kind_{side}(&u);
            check(b == kind, "exactly the kind predicate of its kind holds"); check(t == kind, "message_type agrees");
            check8(opt_ideq(U::RpcMessage::request_id(&u), id), "request_id is the id of the document");
            check8(streq(U::RpcMessage::jsonrpc(&u), "2.0"), "jsonrpc is the version of the document");
            check8(match (method_of_{side}(&u), method) {{ (Some(a), Some(b)) => streq(a, b), (None, None) => 1, _ => 0 }}, "method is the method of the document");
            match write(&u) {{ Some(o) => {{ vobs(&o); let r = veq_n(n, doc, &o);
                check8(r{" | if custom { nested(doc, &o) } else { 0 }" if old(v) else ""}, "written back unchanged");{' if custom { check8(r, "custom message written back with its params not nested") }' if old(v) else ""} }} None => check(false, "serialize") }}
        }}
        None => check(false, "accepted"),
    }}
}}
#[inline(never)] fn std_{side}(n: &'static N, m: &'static str, req: bool) {{
    let mut g = G::pick(); let mut doc = g.gen(n, "doc"); let i = if g.dev == crate::DEV {{ any_id() }} else {{ some_id() }}; let id = if req {{ Some(&i) }} else {{ None }};
    env(&mut doc, id); cls_{side}(n, &doc, id, if req {{ 1 }} else {{ 2 }}, Some(m), false);
}}
'''
        for kind in ("Request", "Notification"):
            r = "true" if kind == "Request" else "false"
            for T, m in std(v, side, kind): hs.append(H(f"{side}_{T}", f"std_{side}(&D_{T}, {jstr(m)}, {r})"))
            hs.append(H(f"{side}__custom{kind}", f'''let i = any_id(); let id = {"Some(&i)" if kind == "Request" else "None"}; let m = match choose("length", 4) {{ 0 => ascii("method", 0), 1 => ascii("method", 9), 2 => ascii("method", 10), _ => nonascii("method", 2) }};
    assume8(none_of(&m, {side.upper()}_{kind.upper()}S)); let d = m.clone(); let mut doc = obj(); some_params(&mut doc); set(&mut doc, "method", Value::String(m)); env(&mut doc, id);
    cls_{side}(&N::Any, &doc, id, {1 if kind == "Request" else 2}, Some(&d), true);'''))
        hs.append(H(f"{side}__response", f'''let i = any_id(); let mut g = G::pick(); let r = g.gen(&D_Result, "result"); let mut doc = obj1("result", r); env(&mut doc, Some(&i));
    static RN: N = N::Obj(&[("result", true, &D_Result)], true); cls_{side}(&RN, &doc, Some(&i), 4, None, false);'''))
        noid = "choose(\"no id\", 2) == 1" if err_id_optional(v) else "false"
        hs.append(H(f"{side}__error", f'''let i = any_id(); let id = if {noid} {{ None }} else {{ Some(&i) }}; let mut g = G::pick(); let mut e = obj1("code", Value::Number(Number::from(any_i64("code")))); set(&mut e, "message", Value::String(g.string("message")));
    if choose("data", 2) == 1 {{ let d = g.gen(&N::Any, "data"); set(&mut e, "data", d); }} let mut doc = obj1("error", e); env(&mut doc, id);
    cls_{side}(&N::Any, &doc, id, 8, None, false);'''))
        hs.append(H(f"{side}__none", f'''let i = any_id(); let mut doc = obj(); env(&mut doc, if choose("id", 2) == 1 {{ Some(&i) }} else {{ None }}); match choose("extra", 3) {{ 0 => {{}} 1 => set(&mut doc, "params", obj()), _ => set(&mut doc, "payload", obj1("code", Value::Number(Number::from(any_i64("code"))))) }}
    reach("doc"); check(parse::<{M}>(&doc).is_none(), "an object that is none of the kinds is rejected");'''))
    return o + "".join(hs)

# ---------------------------------------------------------------- C06
def results(v, side):
    """result definitions a side may send"""
    ts = [x[2] for x in api(v)["enums"].get(side + "Result", {"variants": []})["variants"]]
    if side == "Client" and not ts: ts = ["CreateMessageResult", "ListRootsResult", "ElicitResult", "Result"]
    if not old(v):
        for e in (f"ResultFrom{side}",):
            for n, p, _ in uapi(v)["enums"].get(e, []):
                if p and p in spec(v).defs and p not in ts: ts.append(p)
    return [t for t in ts if t in spec(v).defs]
def res_alts(v, side):
    """alternatives of the side's result union in order: (pattern type path, definition)"""
    if old(v): return [(f"U::ResultFrom{side}::{side}Result(S::{side}Result::{x[0]}(_))", x[2]) for x in api(v)["enums"][side + "Result"]["variants"]]
    if new(v) and side == "Server": return [(f"S::ServerResult::{x[0]}(_)", x[2]) for x in api(v)["enums"]["ServerResult"]["variants"]]
    return [(f"U::ResultFrom{side}::{n}(_)", p or n) for n, p, _ in uapi(v)["enums"]["ResultFrom" + side]]
def may_fit(v, A, T):
    """could a document of definition T also be one of definition A (judged by member names and constants only)?"""
    od = obj_defs(v)
    if A not in od or T not in od: return True
    t = {k: x for k, r, x in od[T]}
    for k, r, x in od[A]:
        if not r: continue
        if k not in t: return False
        ca, ct = const_of(v, x), const_of(v, t[k])
        if ca is not None and ct is not None and ca != ct: return False
        ka, kt = spec(v).resolve(x).get("type"), spec(v).resolve(t[k]).get("type")
        if isinstance(ka, str) and isinstance(kt, str) and ka != kt: return False
    return True
def own_variant(v, side, T):
    """pattern of T's variant when no other specific alternative may hold T's documents, else None"""
    hit = None
    for pat, A in res_alts(v, side):
        if A == T: hit = pat; break
        if A == "InputRequiredResult": continue    # told apart by its resultType
        if may_fit(v, A, T): return None
    return hit
def c06(v, tier):
    o = prelude(v, tier, rot=5) + msg_fns(v)
    hs = []
    for side in SIDES:
        R = "S::ServerResult" if new(v) and side == "Server" else f"U::ResultFrom{side}"
        tagged = new(v) and side == "Server"
        # resultType: 0 the definition's own, 1 any other text, 2 missing (counts as complete)
        rt_mode = '''
    let mode = choose("resultType", 3); let rt = if ir { "input_required" } else { "complete" };
    if mode == 0 { set(&mut r, "resultType", s(rt)); } else if mode == 1 { let t = ascii("resultType", [8usize, 14, 0][choose("length", 3)]); assume8(streq(&t, "input_required") ^ 1); set(&mut r, "resultType", Value::String(t)); } else if ir { return check(true, "n/a"); } else { del(&mut r, "resultType"); }'''
        rt_missing = '''
    if mode == 2 {
        match parse::<U::ServerMessage>(&doc) { Some(x) => { match &x { U::ServerMessage::Response(y) => check(own(&y.result), "without resultType: the variant of its definition"), _ => check(false, "a response") }
            let mut w = doc; if let Value::Object(m) = &mut w { if let Some(q) = m.get_mut("result") { set(q, "resultType", s("complete")); } }
            match write(&x) { Some(o) => same(n, &w, &o), None => check(false, "serialize") } } None => check(false, "accepted without resultType") }
        return;
    }'''
        o += f'''#[inline(never)] fn res_{side}(n: &'static N, own: fn(&{R}) -> bool{", ir: bool" if tagged else ""}) {{
    let mut g = G::pick(); let {"mut " if tagged else ""}r = g.gen(n, "result"); let id = if choose("id kind", 2) == 0 {{ Value::Number(Number::from(any_i64("id"))) }} else {{ Value::String(ascii("id", 4)) }};
    {rt_mode if tagged else ""}
    let mut doc = obj1("result", r); env(&mut doc, Some(&id)); let rev = if g.prof == 7 {{ g.rot & 1 == 1 }} else {{ g.dev == DEV && choose("member order", 2) == 1 }}; reach("doc");{rt_missing if tagged else ""}
    match parse_d::<U::{side}JsonrpcResponse>(&doc, rev) {{
        Some(x) => match write(&x) {{ Some(o) => same(n, &doc, &o), None => check(false, "serialize") }},
        None => check(false, "accepted as a response"),
    }}
    match parse_d::<U::{side}Message>(&doc, rev) {{
        Some(x) => {{ let (b, _) = kind_{side}(&x); check(b == 4, "classified as a response");
            match &x {{ U::{side}Message::Response(y) => {{ {"if mode == 0 { " if tagged else ""}check(own(&y.result), "the variant of its definition");{" } if mode == 1 { check(!y.result.is_input_required() && y.result.is_complete(), \"another resultType is complete\"); }" if tagged else ""} check8(ideq(&y.id, &id), "the id given") }} _ => check(false, "a response") }}
            match write(&x) {{ Some(o) => same(n, &doc, &o), None => check(false, "serialize") }} }}
        None => check(false, "accepted as a message"),
    }}
}}
'''
        for T in results(v, side): 
            p = own_variant(v, side, T)
            hs.append(H(f"{side}_{T}", f"res_{side}(&D_{T}, |r| {'matches!(r, ' + p + ')' if p else 'true'}{', ' + ('true' if T == 'InputRequiredResult' else 'false') if new(v) and side == 'Server' else ''})"))
    o += '''#[inline(never)] fn same(n: &'static N, doc: &Value, o: &Value) {
    vobs(o);
    let mut r = veq_n(n, get(doc, "result"), get(o, "result"));
    r &= veq(get(doc, "id"), get(o, "id")); r &= is_str(get(o, "jsonrpc"), "2.0");
    match o { Value::Object(m) => r &= (m.len() == 3) as u8, _ => r = 0 }
    check8(r, "same id and result");
}
'''
    return o + "".join(hs)

# ---------------------------------------------------------------- C07
def owner(v, T):
    if T in api(v)["structs"] or T in api(v)["enums"] or T == "GenericResult": return "S::" + T
    return "U::" + T
def payload(v, side, kind, T, val):
    """expression wrapping `val` (old: the typed body; new: its params) into the side's payload enum"""
    F = f"U::{'Notification' if kind == 'Notification' else kind}From{side}"
    if old(v): return f"{F}::{side}{kind}(S::{side}{kind}::{T}({val}))"
    return f"{F}::{T}({val})"
def result_payload(v, side, T, val):
    """(payload expression, message-level expression)"""
    M = f"U::MessageFrom{side}"
    if old(v): p = f"U::ResultFrom{side}::{side}Result(S::{side}Result::{T}({val}))"; return p, f"{M}::ResultFrom{side}({{}})"
    if new(v) and side == "Server": return f"S::ServerResult::{T}({val})", f"{M}::ServerResult({{}})"
    return f"U::ResultFrom{side}::{T}({val})", f"{M}::ResultFrom{side}({{}})"
def payload_types(v, side, kind):
    e = uapi(v)["enums"][("Notification" if kind == "Notification" else kind) + "From" + side]
    return {n: p or n for n, p, _ in e}

def c07(v, tier):
    o = prelude(v, tier) + msg_fns(v) + CTOR_FNS
    hs = []
    opt_err = err_id_optional(v)
    for side in SIDES:
        M = f"U::{side}Message"
        Rq, Nt = f"U::RequestFrom{side}", f"U::NotificationFrom{side}"
        back_req = "write(&q.request)" if old(v) else f"write(&{Rq}::from(q))"
        back_not = "write(&q.notification)" if old(v) else f"write(&{Nt}::from(q))"
        o += f'''/// wraps `p`; `want` is the JSON-RPC document expected when it succeeds (without jsonrpc and id), `body` what unwrapping returns
#[inline(never)] fn wrap_{side}(p: U::MessageFrom{side}, want: &Value, body: &Value, n: &'static N, bn: &'static N, kind: u32, m: Option<&str>) {{
    use U::{{FromMessage, McpMessage}};
    let b = (p.is_request() as u32) | (p.is_notification() as u32) << 1 | (p.is_response() as u32) << 2 | (p.is_error() as u32) << 3;
    check(b == kind, "the payload's kind predicates"); check(match p.message_type() {{ U::MessageTypes::Request => 1, U::MessageTypes::Notification => 2, U::MessageTypes::Response => 4, U::MessageTypes::Error => 8 }} == kind, "the payload's message type");
    let idv = some_id(); let given = choose("id given", 2) == 1; reach("payload");
    let rid: Option<S::RequestId> = if given {{ parse(&idv) }} else {{ None }};
    match {M}::from_message(p, rid) {{
        Ok(u) => {{
            check({"given == (kind != 2) || kind == 8" if opt_err else "given == (kind != 2)"}, "the id rule");
            let mut w = want.clone(); env(&mut w, if given {{ Some(&idv) }} else {{ None }});
            built_{side}(u, &w, if given {{ Some(&idv) }} else {{ None }}, body, n, bn, kind, m);
        }}
        Err(_) => check({"given != (kind != 2) && kind != 8" if opt_err else "given != (kind != 2)"}, "the id rule"),
    }}
}}
#[inline(never)] fn built_{side}(u: {M}, w: &Value, id: Option<&Value>, body: &Value, n: &'static N, bn: &'static N, kind: u32, m: Option<&str>) {{
    let (b, t) = kind_{side}(&u); check(b == kind && t == kind, "the matching kind");
    check8(opt_ideq(U::RpcMessage::request_id(&u), id), "exactly the given id");
    check8(streq(U::RpcMessage::jsonrpc(&u), "2.0"), "JSON-RPC version 2.0");
    check8(match (method_of_{side}(&u), m) {{ (Some(a), Some(b)) => streq(a, b), (None, None) => 1, _ => 0 }}, "the payload's method");
    match write(&u) {{ Some(o) => {{ vobs(&o); let r = veq_n(n, w, &o); check8(r{" | if n_any(n) && kind < 4 { nested(w, &o) } else { 0 }" if old(v) else ""}, "the payload unchanged"); {'if n_any(n) && kind < 4 { check8(r, "custom payload written with its params not nested") }' if old(v) else ''} }} None => check(false, "serialize") }}
    let back = match u {{
        U::{side}Message::Request(q) => {back_req}, U::{side}Message::Notification(q) => {back_not},
        U::{side}Message::Response(q) => write(&q.result), U::{side}Message::Error(q) => write(&q.error),
    }};
    match back {{ Some(x) => check8(veq_n(bn, body, &x), "unwrapping returns the payload"), None => check(false, "serialize the payload") }}
}}
'''
        for kind in ("Request", "Notification"):
            pt = payload_types(v, side, kind)
            for T, m in std(v, side, kind):
                k = 1 if kind == "Request" else 2
                if old(v):
                    pre = f'let mut g = G::pick(); let doc = g.gen(&D_{T}, "doc"); let t: S::{T} = match parse(&doc) {{ Some(t) => t, None => return check(false, "body parses") }};'
                    body, bn, val = "&doc", f"&D_{T}", "t.clone()"
                else:
                    P = pt[T]; opt = P.startswith("Option<"); P = P[7:-1] if opt else P
                    pre = f'let mut g = G::pick(); let mut doc = g.gen(&D_{T}, "doc"); del(&mut doc, "id"); del(&mut doc, "jsonrpc"); let params = get(&doc, "params").clone(); let t: {"Option<S::%s>" % P if opt else "S::" + P} = match parse(&params) {{ Some(t) => t, None => return check(false, "params parse") }};'
                    body, bn, val = "&params", f"if let Value::Null = params {{ &N::Null }} else {{ params_of(&D_{T}) }}", "t.clone()"
                pl = payload(v, side, kind, T, val)
                wrapm = f"U::MessageFrom{side}::{kind}From{side}({pl})"
                b = pre + f'let p = {pl}; check8(streq(p.method(), {jstr(m)}), "the payload reports its method");' if hasm(v, side, kind) else pre
                b += f'if choose("route", 2) == 0 {{ wrap_{side}({wrapm}, &doc, {body}, &D_{T}, {bn}, {k}, Some({jstr(m)})) }} else {{'
                if kind == "Request": b += f'let idv = some_id(); let rid: S::RequestId = match parse(&idv) {{ Some(r) => r, None => return check(false, "id parses") }}; let q = U::{side}JsonrpcRequest::new(rid, {pl}); check8(streq(q.jsonrpc(), "2.0"), "JSON-RPC version 2.0"); env(&mut doc, Some(&idv)); built_{side}({M}::from(q), &doc, Some(&idv), {"&body" if old(v) else body}, &D_{T}, {bn}, {k}, Some({jstr(m)})); }}'
                else: b += f'let q = U::{side}JsonrpcNotification::new({pl}); check8(streq(q.jsonrpc(), "2.0"), "JSON-RPC version 2.0"); env(&mut doc, None); built_{side}({M}::from(q), &doc, None, {"&body" if old(v) else body}, &D_{T}, {bn}, {k}, Some({jstr(m)})); }}'
                if old(v): b = b.replace("let doc = g.gen", "let mut doc = g.gen").replace("let t: S::", "let body = doc.clone(); let t: S::")
                hs.append(H(f"{side}_{T}", b))
                if ["FromMessage", T, side + "Message"] in uapi(v)["conv"]["utils"]: hs.append(H(f"{side}_{T}__direct", direct(v, side, T, k, m)))
            # custom payloads
            mk = f'''let m = match choose("length", 3) {{ 0 => ascii("method", 1), 1 => ascii("method", 9), _ => nonascii("method", 2) }}; assume8(none_of(&m, {side.upper()}_{kind.upper()}S)); let d = m.clone(); let mut doc = obj(); some_params(&mut doc); set(&mut doc, "method", Value::String(m));'''
            if old(v): cv = f"U::{kind}From{side}::Custom{kind}(doc.clone())"; body = "&doc"
            else: cv = f"U::{kind}From{side}::Custom{kind}(c)"; mk += 'let c: U::CustomRequest = match parse(&doc) { Some(c) => c, None => return check(false, "custom parses") };'; body = "&doc"
            hs.append(H(f"{side}__custom{kind}", mk + f'wrap_{side}(U::MessageFrom{side}::{kind}From{side}({cv}), &doc, {body}, &N::Any, {"&N::Any" if True else ""}, {1 if kind == "Request" else 2}, Some(&d));'))
        for T in results(v, side):
            if T not in [x[1] for x in res_alts(v, side)]: continue
            pl, ml = result_payload(v, side, T, "t.clone()")
            pre = f'let mut g = G::pick(); let r = g.gen(&D_{T}, "result"); let t: S::{T} = match parse(&r) {{ Some(t) => t, None => return check(false, "result parses") }}; let want = obj1("result", r.clone()); static RN: N = N::Obj(&[("result", true, &D_{T})], true);'
            hs.append(H(f"{side}_{T}", pre + f'if choose("route", 2) == 0 {{ wrap_{side}({ml.replace("{}", pl)}, &want, &r, &RN, &D_{T}, 4, None) }} else {{ let idv = some_id(); let rid: S::RequestId = match parse(&idv) {{ Some(r) => r, None => return check(false, "id parses") }}; let q = U::{side}JsonrpcResponse::new(rid, {pl}); check8(streq(q.jsonrpc(), "2.0"), "JSON-RPC version 2.0"); let mut w = want; env(&mut w, Some(&idv)); built_{side}({M}::from(q), &w, Some(&idv), &r, &RN, &D_{T}, 4, None); }}'))
            if ["FromMessage", T, side + "Message"] in uapi(v)["conv"]["utils"]: hs.append(H(f"{side}_{T}__direct", direct(v, side, T, 4, None)))
        hs.append(H(f"{side}__error", f'''let mut g = G::pick(); let mut e = obj1("code", Value::Number(Number::from(any_i64("code")))); set(&mut e, "message", Value::String(g.string("message"))); if choose("data", 2) == 1 {{ let d = g.gen(&N::Any, "data"); set(&mut e, "data", d); }}
    let t: S::RpcError = match parse(&e) {{ Some(t) => t, None => return check(false, "error parses") }}; let want = obj1("error", e.clone());
    wrap_{side}(U::MessageFrom{side}::from(t), &want, &e, &N::Any, &N::Any, 8, None);'''))
    o += '''fn params_of(n: &'static N) -> &'static N { for (k, _, e) in members(n) { if *k == "params" { return e; } } &N::Any }
fn n_any(n: &N) -> bool { matches!(n, N::Any) }
''' + NESTED + DIRECT
    # conversions that only re-label a value
    for grp in ("schema", "utils"):
        for k, A, B in uapi(v)["conv"][grp]:
            if k != "From" or A not in spec(v).defs or A == "RpcError": continue
            if A.endswith("Request") and not old(v) and B.startswith("RequestFrom"): continue
            hs.append(H(f"from_{A}__{B}", f"conv::<S::{A}, {owner(v, B)}>(&D_{A}, {1 if old(v) and 'Jsonrpc' in B and 'Item' not in B and B != 'JsonrpcMessage' else 2 if B.startswith('Custom') else 3 if B == 'RpcError' else 0})"))
    for grp in ("schema", "utils"):
        for k, A, B in uapi(v)["conv"][grp]:
            if k != "From" or B in ("ClientMessages", "ServerMessages", "MessagesFromServer", "MessagesFromClient"): continue
            nm = re.sub(r"\W+", "_", A)
            if A in ("i64", "bool"):
                if A == "i64": b = 'let x = any_i64("value"); let w = Value::Number(Number::from(x));'
                else: b = 'let x = any_bool("value"); let w = Value::Bool(x);'
            elif m := re.fullmatch(r"(?:::std::vec::)?Vec<(\w+)>", A):
                E_ = m.group(1)
                if E_ not in spec(v).defs: continue
                b = f'let n = [0, 1, 2, 7][choose("n", 4)]; let mut g = G::any(choose("cfg", 2)); g.dev = 0; if n == 7 {{ g.prof = 6; }} let mut l = Vec::new(); for i in 0..n {{ l.push(g.gen(&D_{E_}, "item")); }} let w = Value::Array(l); let x: Vec<S::{E_}> = match parse(&w) {{ Some(x) => x, None => return check(false, "accepted") }};'
                hs.append(H(f"from_{nm}__{B}", b + f'reach("value"); match write(&{owner(v, B)}::from(x)) {{ Some(o) => {{ vobs(&o); static L: N = N::Arr(&D_{E_}, 0); check8(veq_n(&L, &w, &o), "conversion keeps the value") }} None => check(false, "serialize") }}')); continue
            elif A == "serde_json::Value": b = 'let mut doc = obj1("method", s("x/y")); some_params(&mut doc); let w = match choose("shape", 3) { 0 => doc, 1 => obj(), _ => Value::String(ascii("text", 3)) }; let x = w.clone();'
            else: continue
            hs.append(H(f"from_{nm}__{B}", b + f'reach("value"); match write(&{owner(v, B)}::from(x)) {{ Some(o) => {{ vobs(&o); check8(veq(&w, &o), "conversion keeps the value") }} None => check(false, "serialize") }}'))
    o += '''#[inline(never)] fn conv<A: DeserializeOwned, B: From<A> + Serialize>(n: &'static N, mode: u32) {
    let mut g = G::pick(); let mut doc = g.gen(n, "doc"); reach("doc");
    match parse::<A>(&doc) { Some(a) => match write(&B::from(a)) { Some(o) => { vobs(&o); if mode == 1 { env(&mut doc, None); } if mode == 2 { del(&mut doc, "id"); del(&mut doc, "jsonrpc"); } if mode == 3 { let e = get(&doc, "error").clone(); return check8(veq(&e, &o), "conversion keeps the error"); } check8(veq_n(n, &doc, &o), "conversion keeps the value") } None => check(false, "serialize") }, None => check(false, "accepted") }
}
'''
    return o + "".join(hs)
DIRECT = '''
#[inline(never)] fn direct<T: DeserializeOwned + Clone + U::ToMessage<M>, M: U::FromMessage<T> + U::RpcMessage + Serialize>(n: &'static N, kind: u32) {
    let mut g = G::any(choose("cfg", 3)); let doc = g.gen(n, "doc"); let t: T = match parse(&doc) { Some(t) => t, None => return check(false, "body parses") };
    let idv = some_id(); let given = choose("id given", 2) == 1; reach("payload"); let rid: Option<S::RequestId> = if given { parse(&idv) } else { None };
    let r = if choose("route", 2) == 0 { M::from_message(t, rid) } else { t.to_message(rid) };
    match r {
        Ok(u) => {
            check(given == (kind != 2), "the id rule"); let id = if given { Some(&idv) } else { None };
            check((u.is_request() as u32) | (u.is_notification() as u32) << 1 | (u.is_response() as u32) << 2 | (u.is_error() as u32) << 3 == kind, "the matching kind");
            check8(opt_ideq(u.request_id(), id), "exactly the given id"); check8(streq(u.jsonrpc(), "2.0"), "JSON-RPC version 2.0");
            let mut w = if kind == 4 { obj1("result", doc) } else { doc }; env(&mut w, id);
            match write(&u) { Some(o) => { vobs(&o);
                let r = if kind == 4 { veq_n(n, get(&w, "result"), get(&o, "result")) & veq(get(&w, "id"), get(&o, "id")) } else { veq_n(n, &w, &o) };
                check8(r, "the payload unchanged") } None => check(false, "serialize") }
        }
        Err(_) => check(given != (kind != 2), "the id rule"),
    }
}
'''
def direct(v, side, T, k, m): return f"direct::<S::{T}, U::{side}Message>(&D_{T}, {k})"
def hasm(v, side, kind):
    fns = uapi(v)["fns"].get(f"{kind}From{side}", [])
    return any(f[0] == "method" for f in fns)

# ---------------------------------------------------------------- C08
def c08(v, tier):
    o = prelude(v, tier, dev(tier, 1, 2)) + msg_fns(v) + '''
#[inline(never)] fn took<T: Serialize>(r: Option<T>, want: bool, n: &'static N, doc: &Value) {
    check(r.is_some() == want, "succeeds exactly for its type");
    if let Some(x) = r { match write(&x) { Some(o) => check8(veq_n(n, doc, &o), "returned unchanged"), None => check(false, "serialize") } }
}
fn pickg() -> G { G::pick() }
'''
    hs = []
    tf = {}
    for k, A, B in uapi(v)["conv"]["utils"]:
        if k == "TryFrom" and not A.startswith("&"): tf.setdefault(A, []).append(B)
    # alternatives of each union: name -> (definition, expression building the union from `t: S::<definition>`)
    alts = {}
    for U_ in tf:
        side = "Client" if "Client" in U_ else "Server"
        if U_.startswith(("RequestFrom", "NotificationFrom")):
            kind = "Request" if U_.startswith("Request") else "Notification"
            alts[U_] = [(T, payload(v, side, kind, T, "t.clone()")) for T, _ in std(v, side, kind)] + [(None, f"U::{U_}::Custom{kind}(doc.clone())")]
        else:
            alts[U_] = [(T, result_payload(v, side, T, "t.clone()")[0]) for _, T in res_alts(v, side)]
            if old(v): alts[U_].append((None, f"U::{U_}::CustomResult(doc.clone())"))
    for U_, bs in sorted(tf.items()):
        for A, ex in alts[U_]:
            d = A or "Result"
            b = f'let mut g = pickg(); let doc = g.gen(&D_{d}, "doc"); let t: S::{d} = match parse(&doc) {{ Some(t) => t, None => return check(false, "accepted") }}; let u = {ex}; reach("union");'
            for B in bs:
                nm = "Result" if B == "GenericResult" else B
                ok = nm == A or (B in (f"{s}{k}" for s in SIDES for k in ("Request", "Notification", "Result")) and A is not None) or (B == "GenericResult" and A == "GetTaskPayloadResult") or (B == "ClientTaskResult" and A in ("CreateMessageResult", "ElicitResult"))
                b += f'took::<{owner(v, B)}>({owner(v, B)}::try_from(u.clone()).ok(), {"true" if ok else "false"}, &D_{d}, &doc);'
                if B == "ClientTaskResult" and ok: b += f'if let Ok(x) = U::ClientTaskResult::try_from(u.clone()) {{ let r = U::ResultFromClient::from(x); check(matches!(r, U::ResultFromClient::{A}(_)), "back to the same alternative"); took(Some(r), true, &D_{d}, &doc); }}'
            hs.append(H(f"{U_}__{A or 'custom'}", b))
    # message kinds
    for side in SIDES:
        M = f"U::{side}Message"
        o += f'''#[inline(never)] fn as_{side}(n: &'static N, doc: &Value, kind: u32) {{
    reach("doc"); let u = match parse::<{M}>(doc) {{ Some(u) => u, None => return check(false, "accepted") }};
    took(u.clone().as_request().ok(), kind == 1, n, doc); took(u.clone().as_notification().ok(), kind == 2, n, doc); took(u.clone().as_response().ok(), kind == 4, n, doc); took(u.clone().as_error().ok(), kind == 8, n, doc);
}}
'''
        for kind in ("Request", "Notification"):
            k = 1 if kind == "Request" else 2
            for T, m in std(v, side, kind):
                b = f'let mut g = pickg(); let mut doc = g.gen(&D_{T}, "doc"); let id = some_id(); env(&mut doc, {"Some(&id)" if k == 1 else "None"}); as_{side}(&D_{T}, &doc, {k});'
                if side == "Client":
                    i1, i2 = T == "InitializeRequest", T == "InitializedNotification"
                    f = lambda x: "true" if x else "false"
                    b += f'let u: {M} = match parse(&doc) {{ Some(u) => u, None => return }}; check(u.is_initialize_request() == {f(i1)}, "is_initialize_request"); check(u.is_initialized_notification() == {f(i2)}, "is_initialized_notification");'
                    b += f'match u {{ {M}::Request(q) => {{ let p = {"q.request" if old(v) else "U::RequestFromClient::from(q)"}; check(p.is_initialize_request() == {f(i1)}, "is_initialize_request"); let p = U::MessageFromClient::RequestFromClient(p); check(p.is_initialize_request() == {f(i1)} && p.is_initialized_notification() == {f(i2)}, "predicates of the payload"); }}'
                    inn = 'check(p.is_initialized_notification() == %s, "is_initialized_notification");' % f(i2) if any(x[0] == "is_initialized_notification" for x in uapi(v)["fns"].get("NotificationFromClient", [])) else ""
                    b += f'{M}::Notification(q) => {{ let p = {"q.notification" if old(v) else "U::NotificationFromClient::from(q)"}; {inn} let p = U::MessageFromClient::NotificationFromClient(p); check(p.is_initialize_request() == {f(i1)} && p.is_initialized_notification() == {f(i2)}, "predicates of the payload"); }} _ => {{}} }}'
                hs.append(H(f"{side}Message_{T}", b))
        hs.append(H(f"{side}Message__response", f'let i = some_id(); let mut g = pickg(); let r = g.gen(&D_Result, "result"); let mut doc = obj1("result", r); env(&mut doc, Some(&i)); static RN: N = N::Obj(&[("result", true, &D_Result)], true); as_{side}(&RN, &doc, 4);'
            + (f' if let Some(u) = parse::<{M}>(&doc) {{ check(!u.is_initialize_request() && !u.is_initialized_notification(), "predicates are false for a response"); }}' if side == "Client" else "")))
        hs.append(H(f"{side}Message__error", f'let i = some_id(); let mut g = pickg(); let mut e = obj1("code", Value::Number(Number::from(any_i64("code")))); set(&mut e, "message", Value::String(g.string("message"))); let mut doc = obj1("error", e); env(&mut doc, Some(&i)); as_{side}(&N::Any, &doc, 8);'
            + (f' if let Some(u) = parse::<{M}>(&doc) {{ check(!u.is_initialize_request() && !u.is_initialized_notification(), "predicates are false for an error"); }}' if side == "Client" else "")))
    # content blocks, input requests
    cb = "ContentBlock" if "ContentBlock" in api(v)["enums"] else "CallToolResultContentItem"
    fm = {"as_text_content": "TextContent", "as_image_content": "ImageContent", "as_audio_content": "AudioContent", "as_resource_link": "ResourceLink", "as_embedded_resource": "EmbeddedResource", "as_create_message": "CreateMessageRequest", "as_list_roots": "ListRootsRequest", "as_elicit": "ElicitRequest"}
    od = obj_defs(v)
    for E_, opt in ((cb, ".ok()"), ("InputRequest", "")):
        if E_ not in api(v)["enums"]: continue
        fns = [f[0] for f in uapi(v)["fns"][E_] if f[0].startswith("as_")]
        for n, _, A in api(v)["enums"][E_]["variants"]:
            b = f'let mut g = pickg(); let doc = g.gen(&D_{A}, "doc"); let t: S::{A} = match parse(&doc) {{ Some(t) => t, None => return check(false, "accepted") }}; let u = S::{E_}::{n}(t); reach("union");'
            for f in fns: b += f'took(u.{f}(){opt}, {"true" if fm[f] == A else "false"}, &D_{A}, &doc);'
            if E_ == cb:
                ty = next(const_of(v, x) for k, r, x in od[A] if k == "type")
                b += f'check8(streq(u.content_type(), {jstr(ty)}), "content_type");'
            else:
                m = next(const_of(v, x) for k, r, x in od[A] if k == "method")
                b += f'check8(streq(u.method(), {jstr(m)}), "method");'
            hs.append(H(f"{E_}__{A}", b))
    if new(v):
        for _, T in res_alts(v, "Server"):
            ir = T == "InputRequiredResult"
            hs.append(H(f"ServerResult_pred__{T}", f'let mut g = pickg(); let doc = g.gen(&D_{T}, "doc"); let t: S::{T} = match parse(&doc) {{ Some(t) => t, None => return check(false, "accepted") }}; let u = S::ServerResult::{T}(t); check(u.is_input_required() == {"true" if ir else "false"} && u.is_complete() == {"false" if ir else "true"}, "is_input_required / is_complete"); took(u.as_input_required(), {"true" if ir else "false"}, &D_{T}, &doc);'))
    return o + "".join(hs)
