#!/usr/bin/env python3
"""spec/<version>.json -> Rust tables of the official definitions (functions used by tools/check.py)."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))

class Spec:
    def __init__(self, ver):
        self.ver = ver
        self.defs = json.load(open(os.path.join(HERE, "..", "spec", ver + ".json")))
        # the official schema fixes this code (URL_ELICITATION_REQUIRED); the fragment in the sources only says "integer"
        for n in ("UrlElicitError", "UrlElicitationRequiredError"):
            if n in self.defs: self._fix(self.defs[n]["schema"])
        self.lower = {n.lower(): n for n in self.defs}
        self.missing = set()
        self.aux = []
    def _fix(self, s):
        if isinstance(s, dict):
            if s.get("properties", {}).get("code") == {"type": "integer"}: s["properties"]["code"] = {"const": -32042, "type": "integer"}
            for x in s.values(): self._fix(x)
        elif isinstance(s, list):
            for x in s: self._fix(x)
    def ref(self, r):
        n = r.split("/")[-1]
        l = n.lower()
        if n == "Error" and "rpcerror" in self.lower: return self.lower["rpcerror"], None
        if l == "jsonrpcbatchrequest" or l == "jsonrpcbatchresponse": pass
        alias = {"jsonrpcerrorresponse": ["jsonrpcerrorresponse", "jsonrpcerror"], "jsonrpcresultresponse": ["jsonrpcresultresponse", "jsonrpcresponse"]}
        for c in alias.get(l, [l]):
            if c in self.lower: return self.lower[c], None
        self.missing.add(n); return None, "Any"
    def resolve(self, s):
        """merge allOf / refs into one object schema"""
        if "$ref" in s:
            n, prim = self.ref(s["$ref"])
            return self.resolve(self.defs[n]["schema"]) if n else {"x-prim": prim}
        if "allOf" in s:
            out = {"type": "object", "properties": {}, "required": []}
            for p in s["allOf"]:
                q = self.resolve(p)
                for k, v in q.get("properties", {}).items():
                    old = out["properties"].get(k)
                    out["properties"][k] = v if old is None or "const" in v or "properties" in v or "$ref" in v or not old else (old if old and not v else v)
                out["required"] += [r for r in q.get("required", []) if r not in out["required"]]
                if "additionalProperties" in q and "properties" in q: out["additionalProperties"] = q["additionalProperties"]
            return out
        return s
    def node(self, s):
        if s is True or s == {}: return "N::Any"
        if "$ref" in s:
            n, prim = self.ref(s["$ref"])
            return f"N::Ref(&D_{n})" if n else f"N::{prim}"
        if "x-prim" in s: return f"N::{s['x-prim']}"
        if "allOf" in s: return self.node(self.resolve(s))
        for u in ("anyOf", "oneOf"):
            if u in s: return "N::Union(&[%s])" % ", ".join("&" + self.node(x) for x in s[u])
        if "const" in s:
            c = s["const"]
            return f"N::Const({json.dumps(c)})" if isinstance(c, str) else f"N::CInt({c})"
        if "enum" in s: return "N::Enum(&[%s])" % ", ".join(json.dumps(x) for x in s["enum"])
        t = s.get("type")
        if isinstance(t, list): return "N::Union(&[%s])" % ", ".join("&" + self.node(dict(s, type=x)) for x in t)
        if t == "string": return "N::Str"
        if t == "integer": return "N::IntMin0" if s.get("minimum") == 0 else "N::Int"
        if t == "number": return "N::Num01" if s.get("minimum") == 0 and s.get("maximum") == 1 else "N::Num"
        if t == "boolean": return "N::Bool"
        if t == "null": return "N::Null"
        if t == "array": return f"N::Arr(&{self.node(s.get('items', {}))}, {2 if s.get('maxItems', 2) >= 2 else 1})"
        if t == "object" or "properties" in s:
            ap = s.get("additionalProperties")
            if not s.get("properties"):
                if ap in (None, True, {}): return "N::AnyObj"
                return f"N::Map(&{self.node(ap)})"
            req = s.get("required", [])
            ps = ", ".join(f"({json.dumps(k)}, {'true' if k in req else 'false'}, &{self.node(v)})" for k, v in sorted(s["properties"].items()))
            return f"N::Obj(&[{ps}], {'true' if ap in (True, {}) and ap is not None else 'false'})"
        return "N::Any"
    def names(self):
        """every member name and method name the version knows"""
        out = {"id", "jsonrpc", "method", "params", "result", "error", "code", "message", "data", "type", "type_", "meta", "extra", "$ref", "$schema", "__proto__", "default", "io.modelcontextprotocol/related-task"}
        def walk(s):
            if isinstance(s, dict):
                for k, x in s.items():
                    if k == "properties" and isinstance(x, dict): out.update(x)
                    walk(x)
            elif isinstance(s, list):
                for x in s: walk(x)
        for d in self.defs.values(): walk(d["schema"])
        return sorted(out)
    def rust(self):
        out = ["#![allow(non_upper_case_globals)]", "use crate::gen::N;"]
        for n in sorted(self.defs): out.append(f"pub static D_{n}: N = {self.node(self.defs[n]['schema'])};")
        out.append("pub const DICT: &[&str] = &[" + ", ".join(json.dumps(n) for n in self.names()) + "];")
        return "\n".join(out) + "\n"

if __name__ == "__main__":
    for v in ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]:
        s = Spec(v); r = s.rust(); print(v, len(r), s.missing)
