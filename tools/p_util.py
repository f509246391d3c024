"""Errors, capabilities, form fields, builders, helpers."""
from base import *
from p_schema import TEXT
from p_msg import *

# ---------------------------------------------------------------- C11
RPC = {"PARSE_ERROR": (-32700, "Parse error"), "INVALID_REQUEST": (-32600, "Invalid request"), "METHOD_NOT_FOUND": (-32601, "Method not found"), "INVALID_PARAMS": (-32602, "Invalid params"), "INTERNAL_ERROR": (-32603, "Internal error"),
       "URL_ELICITATION_REQUIRED": (-32042, None), "HEADER_MISMATCH": (-32020, None), "MISSING_REQUIRED_CLIENT_CAPABILITY": (-32021, None), "UNSUPPORTED_PROTOCOL_VERSION": (-32022, None)}
SDK = {"CONNECTION_CLOSED": (-32000, "Connection closed"), "REQUEST_TIMEOUT": (-32001, "Request timeout"), "RESOURCE_NOT_FOUND": (-32002, "Resource not found"), "BAD_REQUEST": (-32015, "Bad request"), "SESSION_NOT_FOUND": (-32016, "Session not found"),
       "INVALID_REQUEST": (-32600, "Invalid request"), "METHOD_NOT_FOUND": (-32601, "Method not found"), "INVALID_PARAMS": (-32602, "Invalid params"), "INTERNAL_ERROR": (-32603, "Internal error"), "PARSE_ERROR": (-32700, "Parse Error"),
       "URL_ELICITATION_REQUIRED": (-32042, None), "MISSING_REQUIRED_CLIENT_CAPABILITY": (-32021, "Missing required client capability"), "UNSUPPORTED_PROTOCOL_VERSION": (-32022, "Unsupported protocol version")}
def c11(v, tier):
    o = prelude(v, tier) + TEXT + msg_fns(v) + '''
fn some_data(g: &mut G) -> Option<Value> { if choose("data given", 2) == 1 { Some(g.gen(&N::Any, "data")) } else { None } }
fn oveq(a: &Option<Value>, b: &Option<Value>) -> u8 { match (a, b) { (None, None) => 1, (Some(x), Some(y)) => veq(x, y), _ => 0 } }
/// no data, or a null in its place
fn no_data(v: &Value) -> bool { matches!(get(v, "data"), Value::Null) }
fn err_json(v: &Value, code: i64, msg: &str, data: &Option<Value>) -> u8 {
    (match get(v, "code") { Value::Number(n) => (n.as_i64() == Some(code)) as u8, _ => 0 }) & is_str(get(v, "message"), msg) & (match data { Some(d) => veq(get(v, "data"), d), None => no_data(v) as u8 })
}
'''
    hs = []
    fns = uapi(v)["fns"]
    for E_, P, table in (("RpcError", "S::RpcError", RPC), ("SdkError", "U::SdkError", SDK)):
        low = E_[:3]
        o += f'''#[inline(never)] fn named_{low}(e: {P}, code: i64, msg: &'static str, data: Option<Value>) {{
    check(e.code == code, "the code reserved for the name"); check8(streq(&e.message, msg), "the message of the name"); check8(oveq(&e.data, &data), "the data of the name");
    match write(&e) {{ Some(o) => {{ vobs(&o); check8(err_json(&o, code, msg, &data), "written with code, message and data"); }} None => check(false, "serialize") }}
    let mut g = G::some(); let m = a_text("message"); let d = some_data(&mut g);
    let a = e.clone().with_message(m.{"clone()" if low == "Rpc" else "as_str()"}); check(a.code == code, "with_message keeps the code"); check8(streq(&a.message, &m), "with_message sets the message"); check8(oveq(&a.data, &data), "with_message keeps the data");
    let b = e.with_data(d.clone()); check(b.code == code, "with_data keeps the code"); check8(streq(&b.message, msg), "with_data keeps the message"); check8(oveq(&b.data, &d), "with_data sets the data");
}}
'''
        cs = [x[0] for x in uapi(v)["enums"][E_[:3] + "ErrorCodes"]]
        for f, args in [(x[0], x[1]) for x in fns[E_]]:
            key = f.upper()
            if f == "request_timeout":
                hs.append(H(f"{low}_{f}", f'let t = sym("ms", 64); reach("error"); named_{low}({P}::request_timeout(t as u128), {table[key][0]}, {jstr(table[key][1])}, Some(obj1("timeout", Value::Number(Number::from(t)))));'))
                hs.append(H(f"{low}_{f}_long", f'let hi = sym("hi", 64); assume(hi != 0); let t = (hi as u128) << 64 | sym("lo", 64) as u128; reach("error"); let e = {P}::request_timeout(t); check(e.code == {table[key][0]}, "the code reserved for the name"); check8(streq(&e.message, {jstr(table[key][1])}), "the message of the name"); check(e.data.is_some(), "the timeout is reported");'))
            elif f == "url_elicit_required":
                hs.append(H(f"{low}_{f}", f'''let mut g = G::pick(); let n = if g.prof == 4 {{ 7 }} else {{ choose("n", 3) }}; let mut ps = Vec::new(); let mut l = Vec::new(); for i in 0..n {{ let d = g.gen(&D_ElicitRequestUrlParams, "params"); match parse::<S::ElicitRequestUrlParams>(&d) {{ Some(p) => ps.push(p), None => return check(false, "params parse") }} l.push(d); }}
    reach("error"); let e = {P}::url_elicit_required(ps); check(e.code == -32042, "the code reserved for the name"); check(e.message.len() > 0, "it has a message");
    let want = obj1("elicitations", Value::Array(l)); static LN: N = N::Obj(&[("elicitations", true, &N::Arr(&D_ElicitRequestUrlParams, 3))], true);
    match &e.data {{ Some(d) => {{ vobs(d); check8(veq_n(&LN, &want, d), "the data describes the elicitations");
        match write(&e) {{ Some(o) => check(parse::<S::UrlElicitError>(&o).is_some(), "it reads as a UrlElicitError"), None => check(false, "serialize") }} }} None => check(false, "the data describes the elicitations") }}'''))
            elif args == "" and key in table:
                hs.append(H(f"{low}_{f}", f'reach("error"); named_{low}({P}::{f}(), {table[key][0]}, {jstr(table[key][1])}, None);'))
        for c in cs:
            hs.append(H(f"{low}_code_{c}", f'''reach("code"); let i: i64 = U::{low}ErrorCodes::{c}.into(); check(i == {table[c][0]}, "the code's number");
    let mut g = G::some(); let m = a_text("message"); let d = some_data(&mut g); let e = {P}::new(U::{low}ErrorCodes::{c}, m.clone(), d.clone());
    check(e.code == {table[c][0]}, "new: the code"); check8(streq(&e.message, &m), "new: the message"); check8(oveq(&e.data, &d), "new: the data");''' + (f' check8(streq(&text(&U::SdkErrorCodes::{c}), {jstr(table[c][1])}), "the code\'s text");' if low == "Sdk" and table[c][1] else "")
                + (f' let t = text(&e); let p = "MCP error {table[c][0]}: "; check8(streq(&t, &(String::from(p) + &m)), "printed with code and message");' if low == "Sdk" else "")))
        hs.append(H(f"{low}_json", f'''let mut g = G::pick(); let c = any_i64("code"); let m = g.string("message"); let mut d = some_data(&mut g); let mut doc = obj1("code", Value::Number(Number::from(c))); set(&mut doc, "message", Value::String(m.clone())); if let Some(x) = &d {{ set(&mut doc, "data", x.clone()); }} reach("doc");
    match parse::<{P}>(&doc) {{ Some(e) => {{ check(e.code == c, "the code is read"); check8(streq(&e.message, &m), "the message is read"); check8(oveq(&e.data, &d), "the data is read"); match write(&e) {{ Some(o) => {{ vobs(&o); check8(err_json(&o, c, &m, &d), "error objects survive JSON"); }} None => check(false, "serialize") }} }} None => check(false, "accepted") }}'''))
    # JSON-RPC error envelopes
    J = "JsonrpcError" if old(v) else "JsonrpcErrorResponse"
    for c in [x[0] for x in uapi(v)["enums"]["RpcErrorCodes"]]:
        ida = "rid.clone().unwrap()" if old(v) else "rid"
        hs.append(H(f"{J}_create_{c}", f'''let idv = some_id(); let given = {"true" if old(v) else 'choose("id given", 2) == 1'}; let rid: Option<S::RequestId> = if given {{ parse(&idv) }} else {{ None }}; let mut g = G::any(choose("cfg", 3)); let m = a_text("message"); let d = some_data(&mut g); reach("error");
    let e = S::{J}::create({ida}, U::RpcErrorCodes::{c}, m.clone(), d.clone()); match write(&e) {{ Some(o) => {{ vobs(&o); check8(err_json(get(&o, "error"), {RPC[c][0]}, &m, &d), "carries code, message and data"); check8(is_str(get(&o, "jsonrpc"), "2.0"), "JSON-RPC version 2.0"); check8(if given {{ veq(get(&o, "id"), &idv) }} else {{ matches!(get(&o, "id"), Value::Null) as u8 }}, "carries the id"); }} None => check(false, "serialize") }}'''))
    # tool failures
    want = 'let mut want = obj1("content", Value::Array(vec![{ let mut b = obj1("type", s("text")); set(&mut b, "text", Value::String(t.clone())); b }])); set(&mut want, "isError", Value::Bool(true));' + (' set(&mut want, "resultType", s("complete"));' if new(v) else "")
    o += f'''#[inline(never)] fn failure(mk: &dyn Fn() -> U::CallToolError, t: String) {{
    reach("failure"); check8(streq(&text(&mk()), &t), "prints its text"); check8(streq(&mk().to_string(), &t), "to_string is its text");
    let e = S::RpcError::from(mk()); check(e.code == -32603, "a tool failure is an internal error"); check8(streq(&e.message, &t), "the RPC error keeps the text"); check(e.data.is_none(), "no data is invented");
    {want}
    match write(&S::CallToolResult::from(mk())) {{ Some(o) => {{ vobs(&o); check8(veq(&want, &o), "the tool result is an error with the text"); }} None => check(false, "serialize") }}
    match write(&S::CallToolResult::with_error(mk())) {{ Some(o) => check8(veq(&want, &o), "with_error: the tool result is an error with the text"), None => check(false, "serialize") }}
}}
'''
    hs.append(H("tool_message", 'let t = a_text("text"); failure(&|| U::CallToolError::from_message(t.clone()), t.clone());'))
    hs.append(H("tool_unknown", 'let n = a_text("name"); let t = String::from("Unknown tool: ") + &n; failure(&|| U::CallToolError::unknown_tool(n.clone()), t);'))
    hs.append(H("tool_new", 'let n = a_text("name"); let t = String::from("Unknown tool: ") + &n; failure(&|| U::CallToolError::new(U::UnknownTool(n.clone())), t);'))
    if any(f[0] == "unsupported_task_augmented_tool_call" for f in fns["CallToolError"]): hs.append(H("tool_task", 'failure(&|| U::CallToolError::unsupported_task_augmented_tool_call(), String::from("Task-augmented tool calls are not supported."));'))
    hs.append(H("tool_arguments", '''let n = match choose("name", 4) { 0 => ascii("name", 3), 1 => String::new(), 2 => ascii("name", 1), _ => String::from("\\u{e9}t\\u{e9}") }; let m = if choose("message given", 2) == 1 { Some(a_text("message")) } else { None };
    let b = n.as_bytes(); let ws = |c: u8| c == 32 || (c >= 9 && c <= 13); let mut i = 0; let mut j = b.len(); while i < j && ws(b[i]) { i += 1; } while j > i && ws(b[j - 1]) { j -= 1; }
    let t = if i == j { String::from("Invalid arguments: tool name cannot be empty") } else { String::from("Invalid arguments for tool '") + &n[i..j] + "': " + match &m { Some(x) => x, None => "no additional details provided" } };
    failure(&|| U::CallToolError::invalid_arguments(n.as_str(), m.clone()), t);'''))
    return o + "".join(hs)

# ---------------------------------------------------------------- C12
def c12(v, tier):
    if old(v): return None
    tasks = not new(v)
    smem = [k for k, r, x in obj_defs(v)["ServerCapabilities"]]; cmem = [k for k, r, x in obj_defs(v)["ClientCapabilities"]]
    o = prelude(v, tier, 0) + TEXT + msg_fns(v) + '''
fn has(v: &Value, k: &str) -> bool { match v { Value::Object(m) => m.contains_key(k), _ => false } }
fn opt(v: &mut Value, k: &str, x: Value) { if choose(k, 2) == 1 { set(v, k, x); } }
/// an object with optional boolean members
fn flags(k: &str) -> Value { match choose(k, 3) { 0 => obj(), 1 => obj1("listChanged", Value::Bool(any_bool("flag"))), _ => obj1("listChanged", Value::Bool(false)) } }
fn no_flags() -> Value { obj() }
'''
    T = "{ let mut t = obj(); opt(&mut t, \"list\", obj()); opt(&mut t, \"cancel\", obj()); match choose(\"requests\", 4) { 0 => {} 1 => set(&mut t, \"requests\", obj()), 2 => set(&mut t, \"requests\", obj1(%s, obj())), _ => set(&mut t, \"requests\", obj1(%s, obj1(%s, obj()))) } t }"
    TC = "{ let mut t = obj(); if on(\"list\", rel, &mut other) { set(&mut t, \"list\", obj()); } if on(\"cancel\", rel, &mut other) { set(&mut t, \"cancel\", obj()); } if choose(\"requests\", 2) == 1 { let mut r = obj(); if on(\"sampling task\", rel, &mut other) { set(&mut r, \"sampling\", if on(\"createMessage\", rel, &mut other) { obj1(\"createMessage\", obj()) } else { obj() }); } if on(\"elicitation task\", rel, &mut other) { set(&mut r, \"elicitation\", if on(\"create\", rel, &mut other) { obj1(\"create\", obj()) } else { obj() }); } set(&mut t, \"requests\", r); } t }"
    FULL = "true" if tier == "thorough" else "false"
    o += f"const FULL: bool = {FULL}; const ALL: &[&str] = &[{chr(44).join(jstr(k) for k in smem + cmem + ["list", "cancel", "sampling task", "createMessage", "elicitation task", "create"])}];\n"
    # members a check does not depend on are all present or all absent in the quick tier
    o += "fn on(k: &str, rel: &[&str], other: &mut u32) -> bool { for r in rel { if *r == k { return choose(k, 2) == 1; } } if FULL { return choose(k, 2) == 1; } if *other == 2 { *other = choose(\"other capabilities\", 2) as u32; } *other == 1 }\n"
    flg = {"prompts": ["listChanged"], "resources": ["listChanged", "subscribe"], "tools": ["listChanged"], "roots": ["listChanged"]}
    def inside(k):
        """what an advertised capability holds: nothing, or all its flags with any value (or contents nobody defined)"""
        if k in flg: sets = "".join(f'set(&mut t, "{f}", Value::Bool(any_bool("{k} {f}")));' for f in flg[k])
        else: sets = 'set(&mut t, "xOther", Value::Bool(any_bool("contents")));' if v not in VS[:0] else ""
        return "{ let mut t = obj(); if detail { " + sets + " } t }"
    ext = lambda mem: "".join(f'if detail {{ set(&mut c, "{k}", obj1("vendor/x", obj1("enabled", Value::Bool(any_bool("enabled"))))); }}' for k in ("experimental", "extensions") if k in mem)
    o += "fn server_caps(rel: &[&str]) -> Value { let mut c = obj(); let mut other = 2; let detail = choose(\"contents\", 2) == 1;\n" + ext(smem)
    for k in smem:
        if k in ("experimental", "extensions"): continue
        val = T % ('"tools"', '"tools"', '"call"') if k == "tasks" else inside(k)
        o += f'    if on("{k}", rel, &mut other) {{ let x = {val}; set(&mut c, "{k}", x); }}\n'
    o += "    c }\nfn client_caps(rel: &[&str]) -> Value { let mut c = obj(); let mut other = 2; let detail = choose(\"contents\", 2) == 1;\n" + ext(cmem)
    for k in cmem:
        if k in ("experimental", "extensions"): continue
        val = TC if k == "tasks" else '{ let mut t = obj(); opt(&mut t, "context", obj()); opt(&mut t, "tools", obj()); t }' if k == "sampling" else '{ let mut t = obj(); match choose("modes", if FULL { 3 } else { 2 }) { 0 => {} 1 => set(&mut t, "url", obj()), _ => set(&mut t, "form", obj()) } t }' if k == "elicitation" else inside(k)
        o += f'    if on("{k}", rel, &mut other) {{ let x = {val}; set(&mut c, "{k}", x); }}\n'
    o += "    c }\n"
    o += '''
fn caps<T: DeserializeOwned + Serialize>(d: &Value) -> Option<T> { let c = parse::<T>(d); check(c.is_some(), "capabilities parse"); c }
fn contains(h: &str, n: &str) -> bool { let (h, n) = (h.as_bytes(), n.as_bytes()); if n.len() > h.len() { return false; } let mut i = 0; while i + n.len() <= h.len() { let mut j = 0; while j < n.len() && h[i + j].to_ascii_lowercase() == n[j].to_ascii_lowercase() { j += 1; } if j == n.len() { return true; } i += 1; } false }
/// the outcome of a capability check; `missing` lists what the request needs and the peer lacks
#[inline(never)] fn verdict(r: Result<(), S::RpcError>, missing: &[&str], peer: &str, method: &str) {
    match r {
        Ok(()) => check(missing.is_empty(), "allowed only if the capability is advertised"),
        Err(e) => { check(!missing.is_empty(), "allowed whenever the capability is advertised"); obs_str("message", &e.message);
            let mut named = false; for m in missing { if contains(&e.message, m) { named = true; } }
            check(named || missing.is_empty(), "the error names the missing capability"); check(contains(&e.message, method), "the error names the method"); check(contains(&e.message, peer), "the error names the peer"); }
    }
}
'''
    allm = sorted({m for sd in SIDES for kd in ("Request", "Notification") for t, m in std(v, sd, kd)}); o += f"const MAXM: usize = {max(map(len, allm))}; const CUSTOM: &[&str] = &[{', '.join(jstr(m) for m in allm)}];\n"
    hs = []
    need = {"logging/setLevel": "logging", "prompts/get": "prompts", "prompts/list": "prompts", "resources/list": "resources", "resources/templates/list": "resources", "resources/read": "resources", "resources/subscribe": "resources", "resources/unsubscribe": "resources",
            "tools/call": "tools", "tools/list": "tools", "completion/complete": "completions", "tasks/get": "tasks", "tasks/result": "tasks", "tasks/cancel": "tasks", "tasks/list": "tasks",
            "initialize": None, "ping": None, "server/discover": None, "subscriptions/listen": None}
    kw = {"logging": "logging", "prompts": "prompt", "resources": "resource", "tools": "tool", "completions": "completion", "tasks": "task", "sampling": "sampling", "roots": "roots", "elicitation": "elicitation"}
    for T_, m in std(v, "Client", "Request"):
        cap = need[m]; TK = ', "tasks"' if tasks and (m == "tools/call" or m.startswith("tasks/")) else ""
        b = f'let mut g = G::any(choose("cfg", 2)); let mut doc = g.gen(&D_{T_}, "doc"); let id = s("i"); env(&mut doc, Some(&id)); let aug = {"false" if m != "tools/call" or not tasks else 'choose("augmented", 2) == 1'};'
        if m == "tools/call" and tasks: b += 'let mut p = get(&doc, "params").clone(); if aug { set(&mut p, "task", obj1("ttl", Value::Number(Number::from(any_i64("ttl"))))); } else { del(&mut p, "task"); } set(&mut doc, "params", p);'
        b += f'reach("request"); let q: U::ClientJsonrpcRequest = match parse(&doc) {{ Some(q) => q, None => return check(false, "request parses") }}; let d = server_caps(&[{jstr(cap or "tools")}{TK}]); let c: S::ServerCapabilities = match caps(&d) {{ Some(c) => c, None => return }}; let mut miss: Vec<&str> = Vec::new();'
        if cap: b += f'if !has(&d, "{cap}") {{ miss.push("{kw[cap]}"); }}'
        if m == "tools/call" and tasks: b += 'if aug && !has(get(get(get(&d, "tasks"), "requests"), "tools"), "call") { miss.push("task"); }'
        if m in ("tasks/list", "tasks/cancel"): b += f'if !has(get(&d, "tasks"), "{m[6:]}") {{ miss.push("task"); }}'
        hs.append(H(f"Client_{T_}", b + f'verdict(c.can_handle_request(&q), &miss, "server", {jstr(m)});'))
    for T_, m in std(v, "Server", "Request"):
        CK = {"sampling/createMessage": '"sampling", "tasks", "sampling task", "createMessage"', "roots/list": '"roots"', "elicitation/create": '"elicitation", "tasks", "elicitation task", "create"'}.get(m, '"tasks", "list", "cancel"')
        b = f'let mut g = G::any({"1" if tasks and m == "sampling/createMessage" and tier == "quick" else 'choose("cfg", 2)'}); let mut doc = g.gen(&D_{T_}, "doc"); let id = s("i"); env(&mut doc, Some(&id)); let mut aug = false; let mut ctx = 0; let mut tl = 0;'
        if tasks and m == "sampling/createMessage":
            b += '''let mut p = get(&doc, "params").clone(); aug = choose("augmented", 2) == 1; if aug { set(&mut p, "task", obj1("ttl", Value::Number(Number::from(any_i64("ttl"))))); } else { del(&mut p, "task"); }
    del(&mut p, "includeContext"); del(&mut p, "tools"); del(&mut p, "toolChoice");
    ctx = choose("context", 4); if ctx > 0 { set(&mut p, "includeContext", s(["", "none", "thisServer", "allServers"][ctx])); }
    tl = choose("tools", 4); if tl & 1 != 0 { set(&mut p, "toolChoice", if tl == 1 { obj() } else { obj1("mode", s("auto")) }); } if tl >= 2 { let t = G::any(1).gen(&D_Tool, "tool"); set(&mut p, "tools", Value::Array(vec![t])); }
    set(&mut doc, "params", p);'''
        if tasks and m == "elicitation/create": b += 'let mut p = if choose("mode", 2) == 0 { G::any(1).gen(&D_ElicitRequestFormParams, "params") } else { G::any(1).gen(&D_ElicitRequestUrlParams, "params") }; aug = choose("augmented", 2) == 1; if aug { set(&mut p, "task", obj1("ttl", Value::Number(Number::from(any_i64("ttl"))))); } else { del(&mut p, "task"); } set(&mut doc, "params", p);'
        b += f'reach("request"); let q: U::ServerJsonrpcRequest = match parse(&doc) {{ Some(q) => q, None => return check(false, "request parses") }}; let d = client_caps(&[{CK}]); let c: S::ClientCapabilities = match caps(&d) {{ Some(c) => c, None => return }}; let mut miss: Vec<&str> = Vec::new();'
        r = 'get(get(&d, "tasks"), "requests")'
        if m == "sampling/createMessage":
            b += 'let sc = get(&d, "sampling"); if !has(&d, "sampling") { miss.push("sampling"); } if ctx >= 2 && !has(sc, "context") { miss.push("context"); } if tl > 0 && !has(sc, "tools") { miss.push("tool"); }'
            b += f'if aug && !has(get({r}, "sampling"), "createMessage") {{ miss.push("sampling task"); }}'
        elif m == "roots/list": b += 'if !has(&d, "roots") { miss.push("roots"); }'
        elif m == "elicitation/create": b += f'if !has(&d, "elicitation") {{ miss.push("elicitation"); }} if aug && !has(get({r}, "elicitation"), "create") {{ miss.push("elicitation task"); }}'
        elif m.startswith("tasks/"):
            b += 'if !has(&d, "tasks") { miss.push("task"); }'
            if m in ("tasks/list", "tasks/cancel"): b += f'if !has(get(&d, "tasks"), "{m[6:]}") {{ miss.push("task"); }}'
        hs.append(H(f"Server_{T_}", b + f'verdict(c.can_handle_request(&q), &miss, "client", {jstr(m)});'))
    for side, peer in (("Client", "Server"), ("Server", "Client")):
        hs.append(H(f"{side}__custom", f'''let d = {peer.lower()}_caps(&[]); let c: S::{peer}Capabilities = match caps(&d) {{ Some(c) => c, None => return }}; let k = choose("length", MAXM + 6); let m = if k < MAXM + 3 {{ ascii("method", k) }} else {{ match k - MAXM - 3 {{ 0 => nonascii("method", 2), 1 => {{ odd("odd", CUSTOM[choose("near", CUSTOM.len())]) }} _ => ascii("method", 65) }} }}; assume8(none_of(&m, {side.upper()}_REQUESTS)); let mut doc = obj1("method", Value::String(m)); let id = s("i"); env(&mut doc, Some(&id)); reach("request");
    let q: U::{side}JsonrpcRequest = match parse(&doc) {{ Some(q) => q, None => return check(false, "request parses") }}; check(c.can_handle_request(&q).is_ok(), "custom requests need no capability");'''))
    # notifications the server (client) may send
    nneed = {"Server": {"notifications/message": "logging", "notifications/resources/updated": "resources", "notifications/resources/list_changed": "resources", "notifications/tools/list_changed": "tools", "notifications/prompts/list_changed": "prompts"},
             "Client": {} if new(v) else {"notifications/roots/list_changed": "roots"}}
    for peer in SIDES:
        gated = nneed[peer]; capsf = peer.lower() + "_caps(ALL)"
        for n, m in [(t, m) for t, m in std(v, peer, "Notification")]:
            b = f'let d = {peer.lower()}_caps(&[{jstr(gated.get(m, "tools"))}]); let c: S::{peer}Capabilities = match caps(&d) {{ Some(c) => c, None => return }}; let mut miss: Vec<&str> = Vec::new(); reach("notification");'
            if m in gated: b += f'if !has(&d, "{gated[m]}") {{ miss.push("{kw[gated[m]]}"); }}'
            if m == "notifications/tasks/status": b += 'if !has(&d, "tasks") { return check(true, "not specified without the tasks capability"); }'
            b += f'verdict(c.can_accept_notification({jstr(m)}), &miss, "{peer.lower()}", {jstr(m)});'
            hs.append(H(f"{peer}_{n}", b))
        lens = sorted({l for m in gated for l in (len(m), len(m) - 1)} | {0, 9})
        G_ = ", ".join(jstr(m) for m in list(gated) + ["notifications/tasks/status"])
        hs.append(H(f"{peer}__other_notification", f'''let d = {'obj()' if tier == 'quick' else capsf}; let c: S::{peer}Capabilities = match caps(&d) {{ Some(c) => c, None => return }}; let k = choose("length", MAXM + 6); let m = if k < MAXM + 3 {{ ascii("method", k) }} else {{ match k - MAXM - 3 {{ 0 => nonascii("method", 3), 1 => {{ odd("odd", CUSTOM[choose("near", CUSTOM.len())]) }} _ => ascii("method", 65) }} }};
    assume8(none_of(&m, &[{G_}])); reach("notification"); check(c.can_accept_notification(&m).is_ok(), "notifications that need no capability are allowed");'''))
        cv = f"let d = {capsf}; let c: S::{peer}Capabilities = match caps(&d) {{ Some(c) => c, None => return }};"
        hs.append(H(f"{peer}Capabilities", cv + ' reach("caps"); match write(&c) { Some(o) => { vobs(&o); check8(veq(&d, &o), "capabilities, empty ones too, survive JSON") } None => check(false, "serialize") }'))
        if tasks:
            preds = [("can_list_tasks", 'has(get(&d, "tasks"), "list")'), ("can_cancel_tasks", 'has(get(&d, "tasks"), "cancel")')]
            r = 'get(get(&d, "tasks"), "requests")'
            if peer == "Server": preds.append(("can_run_task_augmented_tools", f'has(get({r}, "tools"), "call")'))
            else: preds += [("can_accept_elicitation_task", f'has(get({r}, "elicitation"), "create")'), ("can_accept_sampling_task", f'has(get({r}, "sampling"), "createMessage")')]
            b = cv + ' reach("caps");'
            for f, e in preds: b += f'check(c.{f}() == {e}, "{f}"); if let Some(t) = &c.tasks {{ check(t.{f}() == {e}, "{f} of the task capability"); }}'
            hs.append(H(f"{peer}Capabilities_tasks", b))
    return o + "".join(hs)

# ---------------------------------------------------------------- C13
def c13(v, tier):
    if v in VS[:2]: return None
    s_ = spec(v); alts = [x["$ref"].split("/")[-1] for x in s_.defs["PrimitiveSchemaDefinition"]["schema"]["anyOf"]]
    is06 = v == "2025_06_18"
    o = prelude(v, tier) + msg_fns(v) + '''
type F = S::PrimitiveSchemaDefinition;
fn conv(d: &Value) -> Option<F> { match d { Value::Object(m) => match F::try_from(m) { Ok(f) => Some(f), Err(e) => { check(e.code == -32700, "errors are parse errors"); None } }, _ => None } }
fn has(v: &Value, k: &str) -> bool { match v { Value::Object(m) => m.contains_key(k), _ => false } }
/// a value of any JSON kind, with or without content
fn a_value(k: &str) -> Value { match choose(k, 10) { 0 => Value::Null, 1 => Value::Bool(any_bool(k)), 2 => Value::Number(Number::from(any_i64(k))), 3 => Value::Number(Number::from(sym(k, 64))), 4 => match Number::from_f64(any_f64(k)) { Some(n) => Value::Number(n), None => Value::Null },
    5 => Value::String(ascii(k, 4)), 6 => Value::Array(Vec::new()), 7 => Value::Array(vec![Value::String(ascii(k, 2)), Value::Null]), 8 => obj(), _ => obj1("enum", Value::Array(vec![Value::Bool(true)])) } }
'''
    hs = []
    # every conforming map
    for A in alts:
        same = {"LegacyTitledEnumSchema": "UntitledSingleSelectEnumSchema"}
        pat = f"F::{A}(_)"
        kindok = pat
        if A == "LegacyTitledEnumSchema": kindok = f'F::{A}(_) if named => true, F::UntitledSingleSelectEnumSchema(_) if !named => true, {pat}'
        body = f'''let mut g = G::pick(); let mut doc = g.gen(&D_{A}, "field");'''
        if A == "NumberSchema": body += ' if choose("integer", 2) == 1 { set(&mut doc, "type", s("integer")); } else { set(&mut doc, "type", s("number")); }'
        body += f''' let named = has(&doc, "enumNames"); reach("field");
    match conv(&doc) {{ Some(f) => {{ check(match &f {{ {kindok} => true, _ => false }}, "the kind of field its members name"); match write(&f) {{ Some(o) => {{ vobs(&o); check8(veq_n(&D_{A}, &doc, &o), "nothing is lost or changed") }} None => check(false, "serialize") }} }} None => check(false, "conforming fields are converted") }}'''
        hs.append(H(f"field_{A}", body))
        # extra members are ignored
        hs.append(H(f"extra_{A}", f'''let mut g = G::any(choose("cfg", 2)); let doc = g.gen(&D_{A}, "field"); let mut d = doc.clone(); set(&mut d, "xOther", a_value("other")); reach("field"); match conv(&d) {{ Some(f) => match write(&f) {{ Some(o) => check8(veq_n(&D_{A}, &doc, &o), "nothing is lost or changed"), None => check(false, "serialize") }}, None => check(false, "conforming fields are converted") }}'''))
        # required members removed
        req = [k for k, r, x in obj_defs(v)[A] if r]
        hs.append(H(f"missing_{A}", f'''let mut g = G::any(choose("cfg", 2)); let mut doc = g.gen(&D_{A}, "field"); let k = [{", ".join(map(jstr, req))}][choose("member", {len(req)})]; del(&mut doc, k); reach("field");
    match conv(&doc) {{ None => check(true, "a map without a required member is no such field"), Some(f) => check(match &f {{ {pat} => false, _ => {"has(&doc, " + jstr("type") + ")" if A != "UntitledMultiSelectEnumSchema" else "false"} }}, "a map without a required member is no such field") }}'''))
        # any other value in any place
        ms = [k for k, r, x in obj_defs(v)[A]] + ["enum", "oneOf", "items", "enumNames"]
        hs.append(H(f"any_{A}", f'''let mut g = G::any(choose("cfg", 2)); let mut doc = g.gen(&D_{A}, "field"); let ks = [{", ".join(map(jstr, sorted(set(ms))))}]; let k = ks[choose("member", ks.len())]; let x = a_value("value"); set(&mut doc, k, x); reach("field");
    let known = match get(&doc, "type") {{ Value::String(t) => streq(t, "string") | streq(t, "number") | streq(t, "integer") | streq(t, "boolean"){"" if is06 else ' | streq(t, "array")'}, _ => 0 }};
    match conv(&doc) {{ None => check(true, "converted or refused"), Some(f) => {{ {'check8(known | has(&doc, "oneOf") as u8, "unsupported types are refused");' if is06 else 'check8(known, "unsupported types are refused");'} match write(&f) {{ Some(o) => {{ vobs(&o); check8(match (get(&o, "type"), get(&doc, "type")) {{ (Value::String(a), Value::String(b)) => streq(a, b){" | has(&doc, " + jstr("oneOf") + ") as u8" if is06 else ""}, _ => {"has(&doc, " + jstr("oneOf") + ") as u8" if is06 else "0"} }}, "the type is the one named"); }} None => check(false, "serialize") }} }} }}'''))
    # unsupported or missing type
    lens = "[6, 7, 0, 1, 5, 4, 9]"
    sup = ["string", "number", "integer", "boolean"] + ([] if is06 else ["array"])
    hs.append(H("type_names", f'''let k = choose("length", 8); let t = if k < 7 {{ ascii("type", {lens}[k]) }} else {{ nonascii("type", 3) }}; let mut d = obj1("type", Value::String(t.clone())); if choose("titled", 2) == 1 {{ set(&mut d, "title", s("t")); }} reach("field");
    let mut known = 0; for n in [{", ".join(map(jstr, sup[:4]))}] {{ known |= streq(&t, n); }}
    match conv(&d) {{ Some(f) => {{ check8(known, "unsupported types are refused"); match write(&f) {{ Some(o) => match get(&o, "type") {{ Value::String(w) => check8(streq(w, &t), "the type is the one named"), _ => check(false, "the type is the one named") }}, None => check(false, "serialize") }} }} None => check8(known ^ 1, "fields of every supported type are converted") }}'''))
    hs.append(H("no_type", f'''let mut d = obj(); match choose("type", 7) {{ 0 => {{}} k => set(&mut d, "type", of_kind([0, 1, 2, 3, 5, 6][k - 1])) }} if choose("titled", 2) == 1 {{ set(&mut d, "title", s("t")); set(&mut d, "maximum", Value::Number(Number::from(any_i64("max")))); }} {'' if is06 else 'match choose("choices", 3) { 0 => {} 1 => set(&mut d, "enum", Value::Array(vec![s("a")])), _ => { let mut c = obj1("const", s("a")); set(&mut c, "title", s("A")); set(&mut d, "oneOf", Value::Array(vec![c])) } }'} reach("field"); check(conv(&d).is_none(), "maps without a type are refused");'''))
    if is06:
        hs.append(H("one_of", '''let n = choose("n", 3); let mut l = Vec::new(); let mut want = Vec::new(); let mut names = Vec::new();
    for i in 0..n { let x = ascii("choice", 3); let mut vs = vec![Value::String(x.clone())]; if choose("more", 2) == 1 { vs.push(s("more")); } let mut c = obj1("enum", Value::Array(vs)); want.push(Value::String(x.clone())); if choose("titled", 2) == 1 { let t = ascii("title", 2); set(&mut c, "title", Value::String(t.clone())); names.push(Value::String(t)); } else { names.push(Value::String(x)); } l.push(c); }
    let mut d = obj1("oneOf", Value::Array(l)); if choose("type", 2) == 1 { set(&mut d, "type", s("enum")); } let t = if choose("title", 2) == 1 { let t = ascii("t", 3); set(&mut d, "title", Value::String(t.clone())); Some(t) } else { None }; let e = if choose("description", 2) == 1 { let t = ascii("d", 3); set(&mut d, "description", Value::String(t.clone())); Some(t) } else { None }; reach("field");
    match conv(&d) { Some(f) => { check(matches!(f, F::EnumSchema(_)), "the kind of field its members name"); match write(&f) { Some(o) => { vobs(&o); let mut w = obj1("type", s("string")); set(&mut w, "enum", Value::Array(want)); set(&mut w, "enumNames", Value::Array(names)); if let Some(t) = t { set(&mut w, "title", Value::String(t)); } if let Some(e) = e { set(&mut w, "description", Value::String(e)); } check8(veq_n(&D_EnumSchema, &w, &o), "nothing is lost or changed") } None => check(false, "serialize") } } None => check(false, "titled choices are converted") }'''))
        hs.append(H("one_of_bad", '''let mut d = obj(); match choose("bad", 6) { 0 => { let k = of_kind([0, 1, 2, 4, 6][choose("kind", 5)]); set(&mut d, "oneOf", k) } 1 => set(&mut d, "oneOf", Value::Array(vec![s("a")])), 2 => set(&mut d, "oneOf", Value::Array(vec![obj1("title", s("a"))])), 3 => set(&mut d, "oneOf", Value::Array(vec![obj1("enum", s("a"))])), 4 => set(&mut d, "oneOf", Value::Array(vec![obj1("enum", Value::Array(Vec::new()))])), _ => set(&mut d, "oneOf", Value::Array(vec![obj1("enum", Value::Array(vec![Value::Number(Number::from(any_i64("n")))]))])) }
    if choose("type", 2) == 1 { set(&mut d, "type", s("enum")); } reach("field"); check(conv(&d).is_none(), "malformed choices are refused");'''))
        hs.append(H("enum_bad", '''let mut d = obj1("type", s("string")); match choose("bad", 3) { 0 => { let k = of_kind([0, 1, 2, 4, 6][choose("kind", 5)]); set(&mut d, "enum", k) } 1 => set(&mut d, "enum", Value::Array(vec![s("a"), Value::Number(Number::from(any_i64("n")))])), _ => set(&mut d, "enum", Value::Array(vec![Value::Null])) } reach("field"); check(conv(&d).is_none(), "malformed choices are refused");'''))
    else:
        hs.append(H("multi_bad", '''let mut d = obj1("type", s("array")); match choose("bad", 8) { 0 => {} 1 => { let k = of_kind([0, 1, 2, 4, 5][choose("kind", 5)]); set(&mut d, "items", k) } 2 => set(&mut d, "items", obj()), 3 => set(&mut d, "items", obj1("type", s("string"))), 4 => set(&mut d, "items", obj1("anyOf", Value::Array(vec![obj1("const", s("a"))]))), 5 => set(&mut d, "items", obj1("anyOf", Value::Array(vec![s("a")]))), 6 => { let mut i = obj1("type", s("string")); set(&mut i, "enum", Value::Array(vec![Value::Number(Number::from(any_i64("n")))])); set(&mut d, "items", i) } _ => set(&mut d, "items", obj1("oneOf", Value::Array(Vec::new()))) }
    reach("field"); check(conv(&d).is_none(), "malformed choices are refused");'''))
        hs.append(H("enum_bad", '''let mut d = obj1("type", s("string")); match choose("bad", 6) { 0 => { let k = of_kind([0, 1, 2, 4, 6][choose("kind", 5)]); set(&mut d, "enum", k) } 1 => set(&mut d, "enum", Value::Array(vec![s("a"), Value::Number(Number::from(any_i64("n")))])), 2 => set(&mut d, "enum", Value::Array(vec![Value::Null])), 3 => { let k = of_kind([0, 1, 2, 4, 6][choose("kind", 5)]); set(&mut d, "oneOf", k) } 4 => set(&mut d, "oneOf", Value::Array(vec![obj1("const", s("a"))])), _ => set(&mut d, "oneOf", Value::Array(vec![obj1("title", s("a"))])) } reach("field"); check(conv(&d).is_none(), "malformed choices are refused");'''))
        hs.append(H("choice_type", '''let t = ascii("type", [6, 7, 5, 4, 0][choose("length", 5)]); let mut d = obj1("type", Value::String(t.clone())); if choose("titled", 2) == 1 { let mut c = obj1("const", s("a")); set(&mut c, "title", s("A")); set(&mut d, "oneOf", Value::Array(vec![c])); } else { set(&mut d, "enum", Value::Array(vec![s("a")])); } reach("field"); check8(conv(&d).is_some() as u8 ^ streq(&t, "string") ^ 1, "choices are of type string");'''))
    return o + "".join(hs)

# ---------------------------------------------------------------- C15
def c15(v, tier):
    q = tier == "quick"
    a, od = api(v), obj_defs(v)
    fns = uapi(v)["fns"]
    o = prelude(v, tier, 1 if q else 2) + CTOR_FNS + msg_fns(v) + '''
#[inline(never)] fn same<T: Serialize>(t: &T, n: &'static N, want: &Value) { match write(t) { Some(o) => { vobs(&o); check8(veq_n(n, want, &o), "exactly the given parts") } None => check(false, "serialize") } }
/// nothing but the parts: also no empty members
#[inline(never)] fn exact<T: Serialize>(t: &T, want: &Value) { match write(t) { Some(o) => { vobs(&o); check8(veq(want, &o), "exactly the given parts") } None => check(false, "serialize") } }
fn list(x: Vec<Value>) -> Value { Value::Array(x) }
'''
    hs = []
    for T in a["ctors"]:
        if T not in od: continue
        # members no argument of the constructor carries
        f = {x[0]: x for x in a["structs"][T]}
        args = [n.replace("r#", "") for n, _ in a["ctors"][T]]
        given = {f[n][1] for n in args if n in f}
        flat = any(n not in f or f[n][1] is None for n in args)
        drop = [k for k, r, x in od[T] if k not in given and const_of(v, x) is None and not flat]
        b = f'let mut g = G::pick(); let mut doc = g.gen(&D_{T}, "doc"); ' + "".join(f'del(&mut doc, {jstr(k)}); ' for k in drop)
        if any(r for k, r, x in od[T] if k in drop): continue
        # constants of optional members are always written
        for k, r, x in od[T]:
            c = const_of(v, x)
            if c is not None and k not in given and not r: b += f'set(&mut doc, {jstr(k)}, s({jstr(c)})); '
        b += f'let t = {ctor_call(v, T)}; reach("built"); same(&t, &D_{T}, &doc);'
        hs.append(H(f"new_{T}", b))
    item = "CallToolResultContentItem" if v in VS[:2] else "ContentBlock"
    blocks = [("TextContent", "text", ["text"]), ("ImageContent", "image", ["data", "mimeType"])] + ([("AudioContent", "audio", ["data", "mimeType"])] if v != VS[0] else []) + [("EmbeddedResource", "resource", ["resource"])]
    rt = 'set(&mut want, "resultType", s("complete"));' if new(v) else ""
    def parts(T, ms, ann): return f'let mut g = G::pick(); let mut doc = g.gen(&D_{T}, "doc"); del(&mut doc, "_meta"); ' + ("" if ann else 'del(&mut doc, "annotations"); ')
    for T, m, ms in blocks:
        ann = v in VS[:2]; f = {"TextContent": "text_content", "ImageContent": "image_content", "AudioContent": "audio_content", "EmbeddedResource": "embedded_resource"}[T]
        ar = ", ".join([f"arg(&doc, {jstr(k)})" for k in ms] + (['arg(&doc, "annotations")'] if ann else []))
        hs.append(H(f"{item}_{f}", parts(T, ms, ann) + f'let t = S::{item}::{f}({ar}); reach("built"); check8(streq(t.content_type(), {jstr(m)}), "the content type"); same(&t, &D_{T}, &doc);'))
        if ann: hs.append(H(f"CallToolResult_{f}", parts(T, ms, ann) + f'let t = S::CallToolResult::{f}({ar}); reach("built"); let mut want = obj1("content", list(vec![doc])); {rt} same(&t, &D_CallToolResult, &want);'))
    if v not in VS[:2]:
        hs.append(H("ContentBlock_resource_link", 'let mut g = G::pick(); let doc = g.gen(&D_ResourceLink, "doc"); let l: S::ResourceLink = match parse(&doc) { Some(l) => l, None => return check(false, "accepted") }; let t = S::ContentBlock::resource_link(l); reach("built"); check8(streq(t.content_type(), "resource_link"), "the content type"); same(&t, &D_ResourceLink, &doc);'))
        for T, f in (("TextContent", "text_content"), ("ImageContent", "image_content"), ("AudioContent", "audio_content"), ("ResourceLink", "resource_link"), ("EmbeddedResource", "embedded_resource")):
            hs.append(H(f"CallToolResult_{f}", f'let n = [0, 1, 2, 5, 12][choose("n", 5)]; let mut l = Vec::new(); let mut ts: Vec<S::{T}> = Vec::new(); for i in 0..n {{ let mut g = if n > 2 {{ G::fixed(i & 1 == 1, 0) }} else if n == 2 {{ G::any(2 + i) }} else {{ G::pick() }}; let d = g.gen(&D_{T}, "doc"); match parse(&d) {{ Some(t) => ts.push(t), None => return check(false, "accepted") }} l.push(d); }} reach("built"); let mut want = obj1("content", list(l)); {rt} same(&S::CallToolResult::{f}(ts), &D_CallToolResult, &want);'))
        hs.append(H("CallToolResult_from_content", f'let n = [0, 1, 2, 5, 12][choose("n", 5)]; let mut l = Vec::new(); let mut ts: Vec<S::ContentBlock> = Vec::new(); for i in 0..n {{ let mut g = if n > 2 {{ let mut g = G::any(6 + 7 * i); g.depth = 1; g }} else if n == 2 {{ G::any(2 + i) }} else {{ G::pick() }}; let d = g.gen(&D_ContentBlock, "doc"); match parse(&d) {{ Some(t) => ts.push(t), None => return check(false, "accepted") }} l.push(d); }} reach("built"); let mut want = obj1("content", list(l)); {rt} same(&S::CallToolResult::from_content(ts), &D_CallToolResult, &want);'))
        hs.append(H("CallToolResult_add_content", 'let mut g = G::pick(); let doc = g.gen(&D_CallToolResult, "doc"); let r: S::CallToolResult = match parse(&doc) { Some(r) => r, None => return check(false, "accepted") }; let b = g.gen(&D_ContentBlock, "block"); let c: S::ContentBlock = match parse(&b) { Some(c) => c, None => return check(false, "accepted") }; reach("built"); let mut want = doc; if let Value::Object(m) = &mut want { if let Some(Value::Array(l)) = m.get_mut("content") { l.push(b); } } same(&r.add_content(c), &D_CallToolResult, &want);'))
        hs.append(H("CallToolResult_with_structured_content", 'let mut g = G::pick(); let mut doc = g.gen(&D_CallToolResult, "doc"); let r: S::CallToolResult = match parse(&doc) { Some(r) => r, None => return check(false, "accepted") }; let x = g.gen(&N::AnyObj, "structured"); let m = match &x { Value::Object(m) => m.clone(), _ => return }; reach("built"); set(&mut doc, "structuredContent", x); same(&r.with_structured_content(m), &D_CallToolResult, &doc);'))
    meta_ty = "Map<String, Value>" if not new(v) else "S::ResultMetaObject"
    mn = "&D_ResultMetaObject" if new(v) else "&N::AnyObj"
    hs.append(H("CallToolResult_with_meta", f'let mut g = G::pick(); let mut doc = g.gen(&D_CallToolResult, "doc"); let r: S::CallToolResult = match parse(&doc) {{ Some(r) => r, None => return check(false, "accepted") }}; let given = choose("meta given", 2) == 1; let x = g.gen({mn}, "meta"); let m: Option<{meta_ty}> = if given {{ parse(&x) }} else {{ None }}; if given {{ check(m.is_some(), "part parses"); set(&mut doc, "_meta", x); }} else {{ del(&mut doc, "_meta"); }} reach("built"); same(&r.with_meta(m), &D_CallToolResult, &doc);'))
    hs.append(H("CallToolRequest_tool_name", 'let mut g = G::pick(); let mut doc = g.gen(&D_CallToolRequest, "doc"); let n = a_text("name"); let mut p = get(&doc, "params").clone(); set(&mut p, "name", Value::String(n.clone())); set(&mut doc, "params", p); reach("doc"); match parse::<S::CallToolRequest>(&doc) { Some(r) => check8(streq(r.tool_name(), &n), "the tool\'s name"), None => check(false, "accepted") }'))
    hs.append(H("TextContent_from", 'let t = a_text("text"); let mut want = obj1("type", s("text")); set(&mut want, "text", Value::String(t.clone())); reach("built"); exact(&S::TextContent::from(t.clone()), &want); exact(&S::TextContent::from(t.as_str()), &want);'))
    if "TextResourceContents" in fns:
        for T, m in (("TextResourceContents", "text"), ("BlobResourceContents", "blob")):
            b = f'let t = a_text("content"); let u = ascii("uri", 3); let mut want = obj1({jstr(m)}, Value::String(t.clone())); set(&mut want, "uri", Value::String(u.clone())); '
            hs.append(H(f"{T}_new", b + f'reach("built"); exact(&S::{T}::new(t, u), &want);'))
            b = f'let mut g = G::pick(); let mut doc = g.gen(&D_{T}, "doc"); let r: S::{T} = match parse(&doc) {{ Some(r) => r, None => return check(false, "accepted") }}; '
            hs.append(H(f"{T}_with_mime_type", b + f'let x = a_text("mime"); set(&mut doc, "mimeType", Value::String(x.clone())); reach("built"); same(&r.with_mime_type(x), &D_{T}, &doc);'))
            hs.append(H(f"{T}_with_uri", b + f'let x = a_text("uri"); set(&mut doc, "uri", Value::String(x.clone())); reach("built"); same(&r.with_uri(x), &D_{T}, &doc);'))
            mt = "&D_MetaObject" if new(v) and "MetaObject" in spec(v).defs else "&N::AnyObj"
            hs.append(H(f"{T}_with_meta", b + f'let x = g.gen({mt}, "meta"); let m = match parse(&x) {{ Some(m) => m, None => return check(false, "part parses") }}; set(&mut doc, "_meta", x); reach("built"); same(&r.with_meta(m), &D_{T}, &doc);'))
    if v == "2025_11_25":
        for A, ex in (("&str", "t.as_str()"), ("String", "t.clone()")):
            nm = A.strip("&")
            hs.append(H(f"ElicitResultContent_{nm}", f'let t = a_text("text"); reach("built"); let want = Value::String(t.clone()); exact(&S::ElicitResultContent::from({ex}), &want); exact(&S::ElicitResultContentPrimitive::from({ex}), &want);'))
        hs.append(H("ElicitResultContent_i64", 'let i = any_i64("i"); reach("built"); exact(&S::ElicitResultContent::from(i), &Value::Number(Number::from(i))); exact(&S::ElicitResultContentPrimitive::from(i), &Value::Number(Number::from(i)));'))
        hs.append(H("ElicitResultContent_list", 'let n = [0, 1, 2, 3, 8, 20][choose("n", 6)]; let mut l: Vec<String> = Vec::new(); for i in 0..n { l.push(if i % 3 == 1 { ascii("item", i) } else { ascii("item", 3) }); } reach("built"); let mut w = Vec::new(); for x in &l { w.push(Value::String(x.clone())); } let want = list(w); exact(&S::ElicitResultContent::from(l.clone()), &want); let r: Vec<&str> = l.iter().map(|x| x.as_str()).collect(); exact(&S::ElicitResultContent::from(r), &want);'))
        hs.append(H("ElicitResultContent_bool", 'let b = any_bool("b"); reach("built"); exact(&S::ElicitResultContentPrimitive::from(b), &Value::Bool(b));'))
    return o + "".join(hs)
