"""Helper for planted bugs: python3 tools/plant.py SPECFILE [id ...]
SPECFILE is a Python file defining BUGS = [dict(id, property, feature, edits=[(file, old, new)], needs, breaks, demo)].
Each bug is confirmed in a scratch copy of /repo (builds, stable tests pass, the demo passes without it and fails with it)
and then stored in /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif/seeded'
DEMO = r'''#!/bin/bash
# Run with cwd = the repository. Builds a small program against it in a scratch directory; its exit code is the result.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
rust-mcp-schema = { path = "$repo", default-features = false, features = ["schema_utils", "@F@"] }
serde_json = "1"
serde = "1"
[workspace]
EOF
cd "$d" || exit 2
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" cargo build --offline -q 2> "$d/err" || { cat "$d/err" >&2; exit 2; }
timeout 60 "$d/target/debug/demo"
'''
def sh(c, cwd=None):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout
spec = {}
exec(open(sys.argv[1]).read(), spec)
want = set(sys.argv[2:])
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
S = '/tmp/seed'
if not os.path.exists(S): sh(f'cp -a /repo {S}')
sh(f'git -C {S} fetch -q /repo HEAD && git -C {S} reset -q --hard FETCH_HEAD')
# scratch build scripts working on the copy
os.makedirs('/tmp/seedvp', exist_ok=True)
for f in ['env.sh', 'build.sh', 'test.sh']:
    t = open('/opt/vp/' + f).read().replace('/repo', S).replace('/opt/vp/env.sh', '/tmp/seedvp/env.sh')
    open('/tmp/seedvp/' + f, 'w').write(t)
for b in spec['BUGS']:
    if want and b['id'] not in want: continue
    if not want and os.path.exists(f"{V}/{b['id']}/meta.json"): continue
    sh(f'git -C {S} checkout -q -- .')
    bad = None
    for f, old, new, *after in b['edits']:  # with a marker: the first occurrence after it
        p = f'{S}/src/generated_schema/{f}'; t = open(p).read()
        i = t.find(after[0]) if after else 0
        if i < 0 or t.count(old, i) < 1 or (not after and t.count(old) != 1): bad = f'{f}: {t.count(old)} matches for {old[:60]!r}'; break
        open(p, 'w').write(t[:i] + t[i:].replace(old, new, 1))
    if bad: print(b['id'], 'EDIT', bad, flush=True); continue
    rc, diff = sh(f'git -C {S} diff --no-color')
    rc, out = sh('bash /tmp/seedvp/build.sh')
    if rc: print(b['id'], 'BUILD', out[-1500:], flush=True); continue
    rc, out = sh('bash /tmp/seedvp/test.sh /tmp/seedvp/out.json')
    res = json.load(open('/tmp/seedvp/out.json'))
    passed = set(res.get('passed') or [k for k, v in res.items() if v == 'passed'])
    miss = sorted(base - passed)
    if miss: print(b['id'], 'TESTS', len(miss), miss[:6], flush=True); continue
    d = f"/tmp/seedvp/{b['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/demo.sh', 'w').write(DEMO.replace('@F@', b['feature']))
    open(d + '/main.rs', 'w').write(b['demo'].replace('rust_mcp_schema::*; use rust_mcp_schema::schema_utils::*', f"rust_mcp_schema::mcp_{b['feature']}::*; use rust_mcp_schema::mcp_{b['feature']}::schema_utils::*; use rust_mcp_schema::ProtocolVersion"))
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r1, o1 = sh(f'bash {d}/demo.sh', cwd=S)
    sh(f'git -C {S} checkout -q -- .')
    r0, o0 = sh(f'bash {d}/demo.sh', cwd=S)
    ok = r0 == 0 and r1 not in (0, 2)
    print(b['id'], 'OK' if ok else f'DEMO clean={r0} bug={r1}\n{o0[-1200:]}\n{o1[-600:]}', flush=True)
    if ok:
        shutil.rmtree(f"{V}/{b['id']}", ignore_errors=True); shutil.copytree(d, f"{V}/{b['id']}")
