#!/usr/bin/env python3
"""Constructors, constant accessors and struct fields of the generated types -> spec/api_<version>.json.
Run once by hand at the base commit; committed."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
VS = ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]
for v in VS:
    src = open(f"/repo/src/generated_schema/{v}/mcp_schema.rs").read()
    structs = {}
    def split(body):
        body = re.sub(r"/\*\*.*?\*/", "", body, flags=re.S)
        body = re.sub(r"^\s*///.*$", "", body, flags=re.M)
        out, d, cur, q = [], 0, "", False
        for c in body:
            if c == '"': q = not q
            if not q:
                if c in "([{<": d += 1
                if c in ")]}>": d -= 1
                if c == "," and d == 0: out.append(" ".join(cur.split())); cur = ""; continue
            cur += c
        if cur.strip(): out.append(" ".join(cur.split()))
        return out
    for m in re.finditer(r"^pub struct (\w+) \{\n(.*?)^\}", src, re.S | re.M):
        fields = []
        for line in split(m.group(2)):
            mm = re.match(r"((?:#\[.*?\]\s*)*)(pub )?(?:r#)?(\w+): (.*)$", line)
            if not mm: print("?", m.group(1), line); continue
            ren = re.search(r'rename = "([^"]+)"', mm.group(1))
            key = ren.group(1) if ren else mm.group(3)
            if "flatten" in mm.group(1): key = None
            fields.append([mm.group(3), key, mm.group(4)])
        structs[m.group(1)] = fields
    ctors, acc = {}, {}
    for m in re.finditer(r"^impl (\w+) \{\n(.*?)^\}", src, re.S | re.M):
        T, body = m.group(1), m.group(2)
        for n in re.finditer(r"pub fn (\w+)\((.*?)\)\s*->\s*([^{]+?)\s*\{", body, re.S):
            f, args, ret = n.group(1), " ".join(n.group(2).split()), n.group(3)
            if f == "new": ctors[T] = [[y.strip() for y in x.split(":", 1)] for x in split(args) if x]
            else: acc.setdefault(T, []).append([f, args, ret])
    enums = {}
    for m in re.finditer(r"^pub enum (\w+) \{\n(.*?)^\}", src, re.S | re.M):
        head = src[:m.start()].rsplit("}\n", 1)[-1]
        vs = []
        for line in split(m.group(2)):
            mm = re.match(r"((?:#\[.*?\]\s*)*)(\w+)(?:\((.*)\))?$", line)
            if not mm: print("?", m.group(1), line); continue
            ren = re.search(r'rename = "([^"]+)"', mm.group(1))
            vs.append([mm.group(2), ren.group(1) if ren else None, mm.group(3)])
        enums[m.group(1)] = dict(untagged="untagged" in head, variants=vs)
    json.dump(dict(structs=structs, ctors=ctors, accessors=acc, enums=enums), open(os.path.join(HERE, "..", "spec", f"api_{v}.json"), "w"), indent=1, sort_keys=True)
    print(v, len(structs), len(ctors), len(acc), len(enums))
