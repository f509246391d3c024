mod exec; mod expr; mod ll; mod mem; mod native; mod solver;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn vals(v: &[(String, bool, Vec<u128>)]) -> String {
    let p: Vec<String> = v.iter().map(|(n, a, x)| format!("[{},{},[{}]]", js(n), a, x.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(","))).collect();
    format!("[{}]", p.join(","))
}
fn trace(t: &exec::Trace) -> String { format!("{{\"id\":{},\"inputs\":{},\"obs\":{}}}", js(&t.id), vals(&t.inputs), vals(&t.obs)) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2..]),
        Some("native") => native::main(&a[2..]),
        Some("list") => { for h in harnesses(&ll::Module::load(std::fs::read(&a[2]).unwrap()).unwrap(), &[]) { println!("{}", h); } }
        Some("selftest") => selftest(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(20000)),
        _ => { eprintln!("usage: symex run FILE.ll OUT.json [--threads N] [--time S] [--samples K] [--seed N] [--fuel N] [--filter PFX]... | native LIB.so JOBS | selftest"); std::process::exit(2) }
    }
}
fn harnesses(m: &ll::Module, pfx: &[String]) -> Vec<String> {
    let mut v: Vec<String> = m.fns.iter().filter(|f| f.body.is_some() && f.name.starts_with("h_") && (pfx.is_empty() || pfx.iter().any(|p| f.name.starts_with(p.as_str())))).map(|f| f.name.clone()).collect();
    v.sort(); v
}
fn run(a: &[String]) {
    let t0 = Instant::now();
    let (mut threads, mut time, mut samples, mut seed, mut fuel, mut total) = (8usize, 60u64, 1usize, 1u64, 20_000_000u64, 0u64);
    let mut pfx = vec![];
    let mut i = 2;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() { "--threads" => threads = v.parse().unwrap(), "--time" => time = v.parse().unwrap(), "--samples" => samples = v.parse().unwrap(), "--seed" => seed = v.parse().unwrap(), "--fuel" => fuel = v.parse().unwrap(), "--total" => total = v.parse().unwrap(), "--filter" => pfx.push(v), x => panic!("option {}", x) }
        i += 2;
    }
    let text = std::fs::read(&a[0]).unwrap();
    let bytes = text.len();
    let m = match ll::Module::load(text) { Ok(m) => m, Err(e) => { eprintln!("cannot parse module: {}", e); std::process::exit(3) } };
    let kinds: Vec<exec::Kind> = m.fns.iter().map(|f| exec::kind_of(&f.name, f.body.is_some())).collect();
    let load = t0.elapsed().as_secs_f64();
    let hs = harnesses(&m, &pfx);
    let cfg = exec::Cfg { fuel, max_paths: 2_000_000, time: Duration::from_secs(time), samples, seed, trace: false, deadline: if total > 0 { Some(t0 + Duration::from_secs(total)) } else { None } };
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let allf: Mutex<std::collections::BTreeSet<u32>> = Mutex::new(Default::default());
    std::thread::scope(|s| {
        for _ in 0..threads.min(hs.len().max(1)) {
            std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, || loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= hs.len() { break; }
                let r = exec::Engine::new(&m, &kinds, &cfg, &hs[k]).run(&hs[k]);
                allf.lock().unwrap().extend(r.fns.iter());
                let j = format!("{{\"harness\":{},\"paths\":{},\"infeasible\":{},\"forks\":{},\"instructions\":{},\"longest_path\":{},\"incomplete\":{},\"nodes\":{},\"functions\":{},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_ms\":{:.1},\"max_query_ms\":{:.1},\"wall_ms\":{:.1},\"asserts\":{{{}}},\"reach\":{{{}}},\"stubs\":{{{}}},\"undecided\":[{}],\"violations\":[{}],\"samples\":[{}]}}",
                    js(&r.harness), r.paths, r.dead, r.forks, r.instrs, r.max_path, r.incomplete, r.nodes, r.fns.len(), r.solver.queries, r.solver.cache_hits, r.solver.sat, r.solver.unsat, r.solver.unknown, r.solver.ms, r.solver.max_ms, r.wall_ms,
                    r.asserts.iter().map(|(k, v)| format!("{}:[{},{},{},{}]", js(k), v.evaluated, v.syntactic, v.by_solver, v.violated)).collect::<Vec<_>>().join(","),
                    r.reach.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
                    r.stubs.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
                    r.undecided.iter().map(|u| js(u)).collect::<Vec<_>>().join(","),
                    r.violations.iter().map(trace).collect::<Vec<_>>().join(","),
                    r.samples.iter().map(trace).collect::<Vec<_>>().join(","));
                out.lock().unwrap().push((k, j));
            }).unwrap();
        }
    });
    let mut o = out.into_inner().unwrap();
    o.sort();
    let fns = allf.into_inner().unwrap();
    let schema: Vec<String> = fns.iter().map(|&i| &m.fns[i as usize].name).filter(|n| n.contains("rust_mcp_schema")).take(12).map(|n| js(n)).collect();
    let nschema = fns.iter().filter(|&&i| m.fns[i as usize].name.contains("rust_mcp_schema")).count();
    let body = format!("{{\"ir_bytes\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"z3\":{},\"functions_executed\":{},\"functions_of_crate\":{},\"function_samples\":[{}],\"harnesses\":[\n{}\n]}}\n", bytes, load, t0.elapsed().as_secs_f64(), js(&solver::z3_version()), fns.len(), nschema, schema.join(","), o.into_iter().map(|x| x.1).collect::<Vec<_>>().join(",\n"));
    std::fs::write(&a[1], body).unwrap();
    std::process::exit(0); // skip dropping the module
}

/// Random expressions: the simplifier's result must agree with direct evaluation, and with Z3.
fn selftest(n: u64) {
    use expr::*;
    let mut r = 0x1234_5678_9abc_def1u64;
    let mut rnd = move || { r ^= r << 13; r ^= r >> 7; r ^= r << 17; r };
    let mut bad = 0;
    for it in 0..n {
        let mut x = Ctx::new();
        let ws = [1u16, 7, 8, 16, 32, 64];
        let mut model = vec![];
        // pool of (expr, value)
        let mut pool: Vec<(E, u128)> = vec![];
        for i in 0..4 { let w = ws[(rnd() % 6) as usize]; let e = x.sym(&format!("a{}", i), w); let v = rnd() as u128 & mask(w); model.push(v); pool.push((e, v)); }
        for _ in 0..25 {
            let (a, va) = pool[(rnd() % pool.len() as u64) as usize];
            let w = x.w(a);
            let pick = rnd() % 14;
            let (b, vb) = if rnd() % 3 == 0 { let v = match rnd() % 5 { 0 => 0, 1 => mask(w), 2 => 1, 3 => (1u128 << (rnd() % 64)) - 1, _ => rnd() as u128 } & mask(w); (x.cst(w, v), v) } else { let c: Vec<_> = pool.iter().filter(|p| x.w(p.0) == w).cloned().collect(); c[(rnd() % c.len() as u64) as usize] };
            let (e, v) = match pick {
                0..=6 => { let ops = [Op::Add, Op::Sub, Op::Mul, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle]; let op = ops[(rnd() % 14) as usize]; (x.bin(op, a, b), Ctx::conc_bin(op, w, va, vb).unwrap()) }
                7 => { let lo = (rnd() % w as u64) as u16; let k = 1 + (rnd() % (w - lo) as u64) as u16; (x.extract(a, lo, k), (va >> lo) & mask(k)) }
                8 if w < 64 => { let k = w + (rnd() % (65 - w as u64)) as u16; (x.zext(a, k), va) }
                9 if w < 64 => { let k = w + (rnd() % (65 - w as u64)) as u16; (x.sext(a, k), sext(va, w) as u128 & mask(k)) }
                10 | 11 => { let (c, vc) = pool[(rnd() % pool.len() as u64) as usize]; let wc = x.w(c); if wc + w <= 64 { (x.concat(a, c), va << wc | vc) } else { continue } }
                12 => { let c: Vec<_> = pool.iter().filter(|p| x.w(p.0) == 1).cloned().collect(); if c.is_empty() { continue } let (c, vc) = c[(rnd() % c.len() as u64) as usize]; (x.ite(c, a, b), if vc == 1 { va } else { vb }) }
                13 => (x.not(a), !va & mask(w)),
                _ => continue,
            };
            let got = x.eval(e, &model, &mut Default::default());
            if got != v { bad += 1; if bad < 10 { println!("MISMATCH it {} pick {} got {:x} want {:x}", it, pick, got, v); } }
            pool.push((e, v));
        }
        // and Z3 agrees with eval: e != value is unsatisfiable once the inputs are fixed
        if it % 20 == 0 {
            let mut s = solver::Solver::new(5000);
            let mut pc = vec![];
            for i in 0..4 { let w = x.w(pool[i].0); let k = x.cst(w, pool[i].1); pc.push(x.bin(Op::Eq, pool[i].0, k)); }
            let (e, v) = *pool.last().unwrap();
            let k = x.cst(x.w(e), v); let q = x.bin(Op::Eq, e, k); let nq = x.not(q);
            match s.check(&x, &pc, nq) { solver::Ans::Unsat => {} _ => { bad += 1; println!("Z3 disagrees at {}", it); } }
        }
    }
    println!("selftest: {} programs, {} mismatches", n, bad);
    std::process::exit(if bad == 0 { 0 } else { 1 });
}
