"""Task metadata, input requests, request metadata."""
from base import *
from p_msg import *
SAME = """
#[inline(never)] fn same<T: Serialize>(t: &T, n: &'static N, want: &Value) { match write(t) { Some(o) => { vobs(&o); check8(veq_n(n, want, &o), "only the named part changes") } None => check(false, "serialize") } }
#[inline(never)] fn exact<T: Serialize>(t: &T, want: &Value) { match write(t) { Some(o) => { vobs(&o); check8(veq(want, &o), "only the named part changes") } None => check(false, "serialize") } }
fn ostreq(a: Option<&str>, b: Option<&str>) -> u8 { match (a, b) { (None, None) => 1, (Some(x), Some(y)) => streq(x, y), _ => 0 } }
fn setp(doc: &mut Value, k: &str, x: Value) { if let Value::Object(m) = doc { if let Some(Value::Object(p)) = m.get_mut("params") { p.insert(String::from(k), x); } } }
fn delp(doc: &mut Value, k: &str) { if let Value::Object(m) = doc { if let Some(Value::Object(p)) = m.get_mut("params") { p.remove(k); } } }
"""
def a_doc(T, more=""): return f'let mut g = G::pick(); let mut doc = g.gen(&D_{T}, "doc"); {more} let t: S::{T} = match parse(&doc) {{ Some(t) => t, None => return check(false, "accepted") }};'
def part(ty, node, x="x"): return f'let {x} = g.gen({node}, "part"); let p: {ty} = match parse(&{x}) {{ Some(p) => p, None => return check(false, "part parses") }};'
# ---------------------------------------------------------------- C16
def c16(v, tier):
    o = prelude(v, tier, dev(tier, 0, 1) if new(v) else dev(tier, 1, 2)) + msg_fns(v) + SAME
    return o + "".join(c16_tasks(v) if v == "2025_11_25" else c16_input(v))
def c16_tasks(v):
    hs = []
    K = '"io.modelcontextprotocol/related-task"'
    # documents with a free-form map that may already name a task
    pre = f"""let mut g = G::pick(); let mut doc = g.gen(&N::AnyObj, "doc"); match choose("entry", 6) {{ 0 | 1 => {{}} 2 => set(&mut doc, {K}, obj1("taskId", Value::String(ascii("before", 4)))), 3 => set(&mut doc, {K}, Value::String(ascii("before", 4))), 4 => set(&mut doc, {K}, obj()), _ => set(&mut doc, {K}, Value::Number(Number::from(any_i64("before")))) }} """
    ma = pre + 'let mut m: Map<String, Value> = match &doc { Value::Object(m) => m.clone(), _ => return }; '
    ins = f'set(&mut doc, {K}, obj1("taskId", Value::String(id.clone())));'
    hs.append(H("meta_set", ma + f'let id = a_text("id"); {ins} use U::McpMetaEx; reach("map"); if choose("by", 2) == 0 {{ m.set_related_task_id(id.clone()); }} else {{ m = m.with_related_task_id(id.as_str()); }} check8(ostreq(m.related_task_id(), Some(&id)), "the task id written is the one read"); exact(&m, &doc); match parse::<Map<String, Value>>(&doc) {{ Some(b) => check8(ostreq(b.related_task_id(), Some(&id)), "also after a trip through JSON"), None => check(false, "accepted") }} let again = ascii("again", 3); m.set_related_task_id(again.clone()); check8(ostreq(m.related_task_id(), Some(&again)), "the last task id wins");'))
    hs.append(H("meta_get", f"""let mut g = G::pick(); let mut doc = g.gen(&N::AnyObj, "doc"); let id = a_text("id"); let c = choose("entry", 4); match c {{ 0 => {{}} 1 => {{ let mut e = obj1("taskId", Value::String(id.clone())); if choose("more", 2) == 1 {{ set(&mut e, "other", s("x")); }} set(&mut doc, {K}, e); }} 2 => set(&mut doc, {K}, obj1("taskId", of_kind([0, 1, 2, 3, 5, 6][choose("kind", 6)]))), _ => set(&mut doc, {K}, of_kind([0, 1, 2, 3, 5][choose("kind", 5)])) }}
    let m: Map<String, Value> = match &doc {{ Value::Object(m) => m.clone(), _ => return }}; use U::McpMetaEx; reach("map"); check8(ostreq(m.related_task_id(), if c == 1 {{ Some(&id) }} else {{ None }}), "the related task's id");
    let mut pd = obj(); if choose("meta", 2) == 1 {{ set(&mut pd, "_meta", doc.clone()); match parse::<S::GetTaskPayloadResult>(&pd) {{ Some(r) => check8(ostreq(r.related_task_id(), if c == 1 {{ Some(&id) }} else {{ None }}), "the result's related task"), None => check(false, "accepted") }} }} else {{ match parse::<S::GetTaskPayloadResult>(&pd) {{ Some(r) => check(r.related_task_id().is_none(), "the result's related task"), None => check(false, "accepted") }} }}"""))
    hs.append(H("payload_set", pre + f'let mut pd = g.gen(&D_GetTaskPayloadResult, "result"); let id = a_text("id"); let has = choose("meta", 2) == 1; if has {{ set(&mut pd, "_meta", doc.clone()); }} else {{ del(&mut pd, "_meta"); doc = obj(); }} let mut r: S::GetTaskPayloadResult = match parse(&pd) {{ Some(r) => r, None => return check(false, "accepted") }}; {ins} reach("result"); r.set_related_task_id(id.clone()); check8(ostreq(r.related_task_id(), Some(&id)), "the task id written is the one read"); set(&mut pd, "_meta", doc); same(&r, &D_GetTaskPayloadResult, &pd);'))
    km = ma + f'let k = a_key("key"); '
    hs.append("""/// a new key, or one the map may already hold
fn a_key(name: &str) -> String { if unsafe { CFG } == 6 { return String::from(["io.modelcontextprotocol/related-task", "progressToken", "x/new"][choose("key", 3)]); } match choose("key", 4) { 0 => ascii(name, 3), 1 => String::new(), 2 => String::from("io.modelcontextprotocol/related-task"), _ => nonascii(name, 2) } }
""")
    for nm, ty, ex, jv in (("text", "String", 'if g.prof == 7 { ascii("value", 5) } else { a_text("value") }', "Value::String(x.clone())"), ("i64", "i64", 'any_i64("value")', "Value::Number(Number::from(x))"), ("bool", "bool", 'any_bool("value")', "Value::Bool(x)"), ("json", "Value", 'g.gen(&N::Any, "value")', "x.clone()")):
        hs.append(H(f"meta_add_{nm}", km + f'let x: {ty} = {ex}; use U::McpMetaEx; reach("map"); let old = doc.clone(); set(&mut doc, &k, {jv}); match choose("by", 3) {{ 0 => exact(&m.add(k, x), &doc), 1 => exact(&m.add_if(true, k.as_str(), x), &doc), _ => exact(&m.add_if(false, k, x), &old) }}'))
    hs.append(H("meta_add_raw", km + 'let x = g.gen(&N::Any, "value"); use U::McpMetaEx; reach("map"); set(&mut doc, &k, x.clone()); exact(&m.add_raw(k, x), &doc);'))
    # terminal states
    st = "[" + ", ".join(map(jstr, ["cancelled", "completed", "failed", "input_required", "working"])) + "]"
    hs.append(H("TaskStatus_is_terminal", f'let k = choose("status", 5); reach("status"); match parse::<S::TaskStatus>(&s({st}[k])) {{ Some(x) => check(x.is_terminal() == (k < 3), "terminal states"), None => check(false, "accepted") }}'))
    for T in ("Task", "GetTaskResult"):
        hs.append(H(f"{T}_is_terminal", f'let k = choose("status", 5); ' + a_doc(T, f'set(&mut doc, "status", s({st}[k]));') + ' reach("task"); check(t.is_terminal() == (k < 3), "terminal states");'))
    # task augmentation
    AUG = {"Client": ["CallToolRequest"], "Server": ["CreateMessageRequest", "ElicitRequest"]}
    task = 'let aug = choose("task", 2) == 1; if aug { let x = g.gen(&D_TaskMetadata, "task"); %s(&mut doc, "task", x); } else { %s(&mut doc, "task"); }'
    for T in ("CallToolRequestParams", "CreateMessageRequestParams"):
        hs.append(H(f"{T}_task", a_doc(T, task % ("set", "del")) + ' reach("params"); check(t.is_task_augmented() == aug, "task augmentation");'))
    for T in ("ElicitRequestUrlParams", "ElicitRequestFormParams"):
        hs.append(H(f"{T}_task", a_doc(T, task % ("set", "del") + ' let m = a_text("message"); set(&mut doc, "message", Value::String(m.clone()));') + ' let e: S::ElicitRequestParams = t.into(); reach("params"); check(e.is_task_augmented() == aug, "task augmentation"); check8(streq(e.message(), &m), "the message");'))
    hs.append(H("CallToolRequest_task", a_doc("CallToolRequest", task % ("setp", "delp") + ' let id = some_id(); env(&mut doc, Some(&id));') + ' reach("request"); check(t.is_task_augmented() == aug, "task augmentation");'))
    for side in SIDES:
        for T, m in std(v, side, "Request"):
            can = T in AUG[side]
            b = f'let mut g = G::pick(); let mut doc = g.gen(&D_{T}, "doc"); let id = some_id(); env(&mut doc, Some(&id)); ' + (task % ("setp", "delp") if can else "let aug = false;")
            b += f' reach("request"); match parse::<U::{side}JsonrpcRequest>(&doc) {{ Some(r) => check(r.is_task_augmented() == aug, "task augmentation"), None => return check(false, "accepted") }}'
            b += f' match parse::<S::{side}Request>(&doc) {{ Some(r) => match write(r.request_id()) {{ Some(i) => check8(veq(&i, &id), "the request\'s id"), None => check(false, "serialize") }}, None => return check(false, "accepted") }}'
            if side == "Server":
                pt = payload_types(v, side, "Request")[T]
                o_ = owner(v, pt) if not pt.startswith("Option") else "Option<" + owner(v, pt[7:-1].strip()) + ">"
                b += f' match parse::<{o_}>(get(&doc, "params")) {{ Some(p) => {{ let r = {payload(v, side, "Request", T, "p")}; check(r.is_task_augmented() == aug, "task augmentation of the body"); check(U::MessageFromServer::RequestFromServer(r).is_task_augmented() == aug, "task augmentation of the message"); }} None => check(false, "params parse") }}'
            hs.append(H(f"{side}_{T}_task", b))
        hs.append(H(f"{side}_custom_task", f'let m = ascii("method", 6); let mut doc = obj1("method", Value::String(m.clone())); let id = some_id(); env(&mut doc, Some(&id)); set(&mut doc, "params", obj1("task", obj())); reach("request"); match parse::<U::{side}JsonrpcRequest>(&doc) {{ Some(r) => check(!r.is_task_augmented(), "task augmentation"), None => return check(false, "accepted") }}'))
    # builders
    def built(T, f, node, ty): return H(f"{T}_{f}", a_doc(T) + part(ty, node) + f' set(&mut doc, {jstr(f[5:])}, x); reach("built"); same(&t.{f}(p), &D_{T}, &doc);')
    for T in ("ElicitRequestUrlParams", "ElicitRequestFormParams", "ElicitRequestParams", "CallToolRequestParams"): hs.append(built(T, "with_task", "&D_TaskMetadata", "S::TaskMetadata"))
    hs.append(built("CallToolRequestParams", "with_arguments", "&N::AnyObj", "Map<String, Value>"))
    hs.append(H("CallToolRequestParams_with_meta", a_doc("CallToolRequestParams") + ' let mut x = obj(); match choose("token", 3) { 0 => {} 1 => set(&mut x, "progressToken", Value::Number(Number::from(any_i64("token")))), _ => set(&mut x, "progressToken", Value::String(ascii("token", 4))) } if choose("more", 2) == 1 { set(&mut x, "io.example/k", s("v")); } let p: S::CallToolMeta = match parse(&x) { Some(p) => p, None => return check(false, "part parses") }; set(&mut doc, "_meta", x); reach("built"); same(&t.with_meta(p), &D_CallToolRequestParams, &doc);'))
    hs.append(H("CallToolRequestParams_new", 'let n = a_text("name"); reach("built"); exact(&S::CallToolRequestParams::new(n.as_str()), &obj1("name", Value::String(n.clone())));'))
    return hs
def c16_input(v):
    hs = []
    # the members of the request's _meta by the schema
    keys = {x[0]: x[1] for x in api(v)["structs"]["RequestMetaObject"]}
    kv, kc, kp = keys["protocol_version"], keys["client_capabilities"], keys["progress_token"]
    hs.append(H("meta_new", 'let mut g = G::pick(); ' + part("S::ClientCapabilities", "&D_ClientCapabilities") + f' let y = a_text("version"); let mut want = obj1({jstr(kv)}, Value::String(y.clone())); set(&mut want, {jstr(kc)}, x); reach("built"); same(&S::RequestMetaObject::new(y.as_str(), p), &D_RequestMetaObject, &want);'))
    for f, key, T in (("with_client_info", keys["client_info"], "Implementation"), ("with_log_level", keys["log_level"], "LoggingLevel"), ("with_progress_token", kp, "ProgressToken")):
        hs.append(H(f"meta_{f}", a_doc("RequestMetaObject") + part("S::" + T, "&D_" + T) + f' set(&mut doc, {jstr(key)}, x); reach("built"); same(&t.{f}(p), &D_RequestMetaObject, &doc);'))
    TR = ("traceparent", "tracestate", "baggage")
    for f in TR:
        others = " ".join(f'check8(ostreq(u.{x}(), match get(&doc, {jstr(x)}) {{ Value::String(s) => Some(s), _ => None }}), "the others stay");' for x in TR if x != f)
        pre = " ".join(f'match choose("{x}", 3) {{ 0 => del(&mut doc, "{x}"), 1 => set(&mut doc, "{x}", Value::String(ascii("{x}", 3))), _ => set(&mut doc, "{x}", Value::Bool(true)) }}' for x in TR)
        hs.append(H(f"meta_{f}", a_doc("RequestMetaObject", pre) + f' let y = a_text("value"); reach("built"); check8(ostreq(t.{f}(), match get(&doc, "{f}") {{ Value::String(s) => Some(s), _ => None }}), "the trace value read"); let u = t.with_{f}(y.clone()); check8(ostreq(u.{f}(), Some(&y)), "the trace value written is the one read"); {others} set(&mut doc, "{f}", Value::String(y)); same(&u, &D_RequestMetaObject, &doc);'))
    # request and response maps
    IR = [("CreateMessageRequest", "sampling/createMessage", "as_create_message"), ("ListRootsRequest", "roots/list", "as_list_roots"), ("ElicitRequest", "elicitation/create", "as_elicit")]
    for T, m, f in IR:
        b = f'let mut g = G::pick(); let doc = g.gen(&D_{T}, "doc"); let t: S::InputRequest = match parse(&doc) {{ Some(t) => t, None => return check(false, "accepted") }}; reach("request"); check8(streq(t.method(), {jstr(m)}), "the wrapped request\'s method");'
        for T2, _, f2 in IR:
            b += f' match t.{f2}() {{ Some(x) => {{ check({"true" if T2 == T else "false"}, "succeeds exactly for its type"); same(x, &D_{T2}, &doc); }} None => check({"false" if T2 == T else "true"}, "succeeds exactly for its type") }}'
        hs.append(H(f"InputRequest_{T}", b))
    hs.append("const IR: [(&str, &'static N); 3] = [%s];\n" % ", ".join(f'({jstr(m)}, &D_{T})' for T, m, _ in IR))
    hs.append(H("InputRequests", '''let n = [0, 1, 2, 3, 6, 12][choose("n", 6)]; let mut doc = obj(); let mut ks: Vec<String> = Vec::new(); let mut ds: Vec<(usize, Value)> = Vec::new(); let sym_keys = n <= 3 && choose("key", 2) == 0; let off = choose("kind", 3); for i in 0..n { let k = if sym_keys { ascii("key", 2) } else { String::from(["a", "k1", "zz", "b", "", "x/y", "A", "k10", "k2", "e9", "m", "z"][i]) }; let j = (i + i / 3 + off) % 3; let mut g = if n > 3 { G::fixed(i & 1 == 1, 0) } else { G::any(i % 3) }; let d = g.gen(IR[j].1, "request"); for q in &ks { assume8(streq(q, &k) ^ 1); } set(&mut doc, &k, d.clone()); ks.push(k); ds.push((j, d)); }
    let t: S::InputRequests = match parse(&doc) { Some(t) => t, None => return check(false, "accepted") }; reach("requests"); check(t.len() == n, "their number"); check(t.is_empty() == (n == 0), "empty without any");
    for i in 0..n { match t.get(&ks[i]) { Some(r) => { check8(streq(r.method(), IR[ds[i].0].0), "the request of the key"); same(r, IR[ds[i].0].1, &ds[i].1); } None => check(false, "every key is found") } }
    let other = ascii("other", 2); let mut known = 0; for q in &ks { known |= streq(q, &other); } check8((t.get(&other).is_some() as u8) ^ known ^ 1, "only those keys are found");
    let mut seen = 0; for k in t.keys() { let mut f = 0; for q in &ks { f |= streq(q, k); } check8(f, "the keys"); seen += 1; } check(seen == n, "each key once"); let mut seen = 0; for (k, r) in t.iter() { let mut f = 0; for i in 0..n { f |= streq(k, &ks[i]) & streq(r.method(), IR[ds[i].0].0); } check8(f, "the pairs"); seen += 1; } check(seen == n, "each pair once");'''))
    RS = ["CreateMessageResult", "ListRootsResult", "ElicitResult"]
    arms = lambda f: " ".join(f'{i if i < 2 else "_"} => {{ let p: S::{T} = match parse(&d) {{ Some(p) => p, None => return check(false, "part parses") }}; t = t.insert({f}, p); }}' for i, T in enumerate(RS))
    hs.append("const RS: [&'static N; 3] = [%s];\n" % ", ".join(f"&D_{T}" for T in RS))
    hs.append(H("InputResponses", f'''let n = [0, 1, 2, 3, 6, 12][choose("n", 6)]; let mut ks: Vec<String> = Vec::new(); let mut t = if choose("default", 2) == 0 {{ S::InputResponses::new() }} else {{ S::InputResponses::default() }}; let mut ds: Vec<(usize, Value)> = Vec::new(); let sym_keys = n <= 3 && choose("key", 2) == 0; let off = choose("kind", 3); reach("responses");
    for i in 0..n {{ let again = i > 0 && (n <= 3 || i == n - 1) && choose("same key", 2) == 1; let k = if again {{ ks[0].clone() }} else if sym_keys {{ ascii("key", 2) }} else {{ String::from(["a", "k1", "zz", "b", "", "x/y", "A", "k10", "k2", "e9", "m", "z"][i]) }}; if !again {{ for q in &ks {{ assume8(streq(q, &k) ^ 1); }} }} let j = (i + i / 3 + off) % 3; let mut g = if n > 3 {{ G::fixed(i & 1 == 1, 0) }} else {{ G::any(i % 3) }}; let d = g.gen(RS[j], "response"); match j {{ {arms("k.as_str()")} }} if again {{ ds[0] = (j, d); }} else {{ ks.push(k); ds.push((j, d)); }} }}
    check(t.len() == ks.len(), "their number"); check(t.is_empty() == (n == 0), "empty without any"); match write(&t) {{ Some(Value::Object(o)) => {{ check(o.len() == ks.len(), "only those keys are written"); for i in 0..ks.len() {{ match o.get(&ks[i]) {{ Some(x) => check8(veq_n(RS[ds[i].0], &ds[i].1, x), "the last response inserted under the key"), None => check(false, "every key is written") }} }} }} _ => check(false, "an object") }}'''))
    hs.append(H("InputResponse_from", 'let k = choose("kind", 3); let mut g = G::pick(); let d = g.gen(RS[k], "response"); reach("response"); ' + f'let r: S::InputResponse = match k {{ ' + " ".join(f'{i if i < 2 else "_"} => {{ let p: S::{T} = match parse(&d) {{ Some(p) => p, None => return check(false, "part parses") }}; p.into() }}' for i, T in enumerate(RS)) + ' }; same(&r, RS[k], &d);'))
    # retries
    resp = 'let mut x = obj(); let n = choose("responses", 3); let off = choose("kind", 3); for i in 0..n { let mut g = G::any(i); let d = g.gen(RS[(i + off) % 3], "response"); set(&mut x, ["k1", "k2"][i], d); } let ir: S::InputResponses = match parse(&x) { Some(p) => p, None => return check(false, "part parses") };'
    RET = ["CallToolRequestParams", "GetPromptRequestParams", "InputResponseRequestParams", "ReadResourceRequestParams"]
    for T in RET:
        hs.append(H(f"{T}_with_input_responses", a_doc(T) + f' {resp} set(&mut doc, "inputResponses", x); reach("built"); same(&t.with_input_responses(ir), &D_{T}, &doc);'))
    for T in RET + ["InputRequiredResult"]:
        hs.append(H(f"{T}_with_request_state", a_doc(T) + f' let y = a_text("state"); set(&mut doc, "requestState", Value::String(y.clone())); reach("built"); same(&t.with_request_state(y), &D_{T}, &doc);'))
    hs.append(H("InputRequiredResult_with_input_requests", a_doc("InputRequiredResult") + part("S::InputRequests", "&D_InputRequests") + ' set(&mut doc, "inputRequests", x); reach("built"); same(&t.with_input_requests(p), &D_InputRequiredResult, &doc);'))
    hs.append(H("CallToolRequestParams_with_arguments", a_doc("CallToolRequestParams") + part("Map<String, Value>", "&N::AnyObj") + ' set(&mut doc, "arguments", x); reach("built"); same(&t.with_arguments(p), &D_CallToolRequestParams, &doc);'))
    hs.append(H("CallToolRequestParams_new", 'let mut g = G::pick(); ' + part("S::RequestMetaObject", "&D_RequestMetaObject") + ' let n = a_text("name"); let mut want = obj1("name", Value::String(n.clone())); set(&mut want, "_meta", x); reach("built"); same(&S::CallToolRequestParams::new(n.as_str(), p), &D_CallToolRequestParams, &want);'))
    for T in ("ElicitRequestUrlParams", "ElicitRequestFormParams"):
        hs.append(H(f"{T}_message", f'let mut g = G::pick(); let mut doc = g.gen(&D_{T}, "doc"); let m = a_text("message"); set(&mut doc, "message", Value::String(m.clone())); reach("params"); match parse::<S::ElicitRequestParams>(&doc) {{ Some(e) => check8(streq(e.message(), &m), "the message"), None => check(false, "accepted") }}'))
    # request bodies
    for T, m in std(v, "Client", "Request"):
        pt = payload_types(v, "Client", "Request")[T]
        b = f'let mut g = G::pick(); let mut doc = g.gen(&D_{T}, "doc"); let mut p = get(&doc, "params").clone(); let t: {owner(v, pt)} = match parse(&p) {{ Some(t) => t, None => return check(false, "params parse") }}; let r = {payload(v, "Client", "Request", T, "t")}; reach("body"); '
        fin = f'set(&mut doc, "params", p); match r {{ U::RequestFromClient::{T}(q) => match write(&q) {{ Some(o) => {{ let mut got = doc.clone(); set(&mut got, "params", o); vobs(&got); check8(veq_n(&D_{T}, &doc, &got), "only the named part changes") }} None => check(false, "serialize") }}, _ => check(false, "the same request") }}'
        hs.append(H(f"body_{T}_meta", b + 'match r.meta() { Some(m) => same(m, &D_RequestMetaObject, get(&p, "_meta")), None => check(false, "every standard request has it") } let mut g = G::any(choose("meta cfg", 3)); ' + part("S::RequestMetaObject", "&D_RequestMetaObject").replace("let p:", "let q:").replace("Some(p) => p", "Some(q) => q") + f' let r = r.with_meta(q); match r.meta() {{ Some(m) => same(m, &D_RequestMetaObject, &x), None => check(false, "the meta written is the one read") }} set(&mut p, "_meta", x); {fin}'))
        if T in ("CallToolRequest", "GetPromptRequest", "ReadResourceRequest"):
            hs.append(H(f"body_{T}_retry", b + f'{resp} let st = if choose("state", 2) == 1 {{ Some(a_text("state")) }} else {{ None }}; set(&mut p, "inputResponses", x); match &st {{ Some(y) => set(&mut p, "requestState", Value::String(y.clone())), None => del(&mut p, "requestState") }} match r.with_input_responses(ir, st) {{ Ok(r) => {{ {fin} }} Err(_) => check(false, "accepts input responses") }}'))
        else:
            hs.append(H(f"body_{T}_retry", b + f'{resp} match r.with_input_responses(ir, if choose("state", 2) == 1 {{ Some(String::from("s")) }} else {{ None }}) {{ Ok(_) => check(false, "does not accept input responses"), Err(e) => check(e.code == -32602, "invalid params") }}'))
    hs.append(H("body_custom", 'let m = ascii("method", 6); let mut c = obj1("method", Value::String(m)); if choose("params", 2) == 1 { let mut p = obj1("a", Value::Number(Number::from(any_i64("a")))); if choose("meta", 2) == 1 { set(&mut p, "_meta", obj1("k", s("v"))); } set(&mut c, "params", p); } let q: U::CustomRequest = match parse(&c) { Some(q) => q, None => return check(false, "accepted") }; let r = U::RequestFromClient::CustomRequest(q); reach("body"); check(r.meta().is_none(), "custom requests have none"); let mut g = G::any(choose("meta cfg", 3)); ' + part("S::RequestMetaObject", "&D_RequestMetaObject") + ' let r = r.with_meta(p); exact(&r, &c); match r.with_input_responses(S::InputResponses::new(), None) { Ok(_) => check(false, "does not accept input responses"), Err(e) => check(e.code == -32602, "invalid params") }'))
    return hs
