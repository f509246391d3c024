#!/usr/bin/env python3
"""Conversions, enums and method signatures of schema_utils.rs (and the conversions and enums' variants of
mcp_schema.rs) -> spec/uapi_<version>.json. Run once by hand at the base commit; committed."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
VS = ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]
def strip(t):
    t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
    t = "\n".join(l for l in (re.sub(r"^\s*//.*", "", x) for x in t.split("\n")) if l.strip())
    return re.sub(r"#\[cfg\(test\)\].*\Z", "", t, flags=re.S)
def split(body):
    out, d, cur, q = [], 0, "", False
    for i, c in enumerate(body):
        if c == '"': q = not q
        if not q:
            if c in "([{<": d += 1
            if c in ")]}" or (c == ">" and body[i - 1] not in "-="): d -= 1
            if c == "," and d == 0: out.append(" ".join(cur.split())); cur = ""; continue
        cur += c
    if cur.strip(): out.append(" ".join(cur.split()))
    return out
for v in VS:
    u = strip(open(f"/repo/src/generated_schema/{v}/schema_utils.rs").read())
    s = strip(open(f"/repo/src/generated_schema/{v}/mcp_schema.rs").read())
    enums = {}
    for m in re.finditer(r"^pub enum (\w+) \{\n(.*?)^\}", u, re.S | re.M):
        vs = []
        for x in split(m.group(2)):
            mm = re.match(r"(?:#\[.*?\]\s*)*(\w+)(?:\((.*)\)|\s*\{(.*)\})?", x)
            vs.append([mm.group(1), mm.group(2), mm.group(3)])
        enums[m.group(1)] = vs
    conv = {"utils": [], "schema": []}
    for key, src in (("utils", u), ("schema", s)):
        for m in re.finditer(r"^impl (?:::std::convert::)?(From|TryFrom|FromMessage|ToMessage)<(.*)> for ([^\n]*?) \{", src, re.M):
            conv[key].append([m.group(1), m.group(2), m.group(3)])
    fns = {}
    for m in re.finditer(r"^impl (\w+(?: for [\w:<>, ]+)?) \{\n(.*?)^\}", u, re.S | re.M):
        for n in re.finditer(r"^    (pub )?fn (\w+)(<.*?>)?\((.*?)\)(?:\s*->\s*([^{]+?))?\s*(?:where[^{]*)?\{", m.group(2), re.S | re.M):
            if n.group(1) or " for " in m.group(1): fns.setdefault(m.group(1), []).append([n.group(2), " ".join(n.group(4).split()), " ".join((n.group(5) or "").split())])
    json.dump(dict(enums=enums, conv=conv, fns=fns), open(os.path.join(HERE, "..", "spec", f"uapi_{v}.json"), "w"), indent=1, sort_keys=True)
    print(v, len(enums), len(conv["utils"]), len(conv["schema"]), len(fns))
