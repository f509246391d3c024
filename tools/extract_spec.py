#!/usr/bin/env python3
"""Reads the official JSON-schema fragments that the generated sources carry in their doc comments
and writes spec/<version>.json.  Run once by hand at the base commit; the result is committed, so a
later change of a doc comment cannot move the reference."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VS = ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]
for v in VS:
    src = open(f"/repo/src/generated_schema/{v}/mcp_schema.rs").read().split("\n")
    defs, order = {}, []
    i, frag = 0, None
    while i < len(src):
        l = src[i]
        if l.strip() == "///```json" or l.strip() == "/// ```json":
            j = i + 1; buf = []
            while src[j].strip() not in ("///```", "/// ```"):
                buf.append(re.sub(r"^\s*///", "", src[j])); j += 1
            try: frag = json.loads("\n".join(buf))
            except Exception as e: print(v, i, e); frag = None
            i = j + 1; continue
        m = re.match(r"pub (struct|enum|type) (r#)?(\w+)", l)
        if m:
            if frag is not None:
                defs[m.group(3)] = dict(kind=m.group(1), schema=frag)
            frag = None
        i += 1
    os.makedirs(os.path.join(HERE, "..", "spec"), exist_ok=True)
    json.dump(defs, open(os.path.join(HERE, "..", "spec", v + ".json"), "w"), indent=1, sort_keys=True)
    print(v, len(defs), sum(d["kind"] == "type" for d in defs.values()))
