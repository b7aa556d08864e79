mod engine;
mod keys;
mod model;
mod memstore;
mod svc;
mod hist;
mod p_keys;
mod p_trust;
mod p_graph;
mod p_service;
mod air;
mod aqua;
mod p_admin;
mod p_distro;
mod p_aqua;

use engine::*;
use std::collections::BTreeMap;
use std::time::Instant;

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(p_keys::props());
    v.extend(p_trust::props());
    v.extend(p_graph::props());
    v.extend(p_service::props());
    v.extend(p_aqua::props());
    v.extend(p_admin::props());
    v.extend(p_distro::props());
    v
}

fn root_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

struct Known {
    property: String,
    key: String,
    text: String,
}
fn known_findings() -> Vec<Known> {
    let p = format!("{}/known_findings.txt", root_dir());
    let s = std::fs::read_to_string(p).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (property, l) = l.split_once(" key=")?;
            let (key, text) = l.split_once(' ')?;
            Some(Known { property: property.into(), key: key.into(), text: text.into() })
        })
        .collect()
}

fn violation(r: &Replay) {
    let dir = format!("{}/out/replays", root_dir());
    std::fs::create_dir_all(&dir).unwrap();
    let body = serde_json::to_string_pretty(r).unwrap();
    let mut h = 0u64;
    for b in body.bytes() {
        h = h.wrapping_mul(31).wrapping_add(b as u64);
    }
    let path = format!("{dir}/{}-{}-{:08x}.json", r.property, r.sub, h as u32);
    std::fs::write(&path, body).unwrap();
    for l in &r.case {
        println!("  {l}");
    }
    println!("  [{}] {}", r.key, r.message);
    println!("VIOLATION property={} replay={}", r.property, path);
}

/// A violation whose case cannot be shrunk: the replay names seed and index.
fn indexed_violation(id: &str, sub: &str, thorough: bool, key: &str, message: String, case: u64) {
    let seed = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    println!("  [{key}] {message}");
    let rep = serde_json::json!({"property": id, "sub": sub, "thorough": thorough, "key": key, "message": message,
        "case": [], "choices": [], "seed": seed, "case_index": case});
    let d = format!("{}/out/replays", root_dir());
    let _ = std::fs::create_dir_all(&d);
    let path = format!("{d}/{id}-{sub}-{key}-{case}.json");
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
    println!("VIOLATION property={id} replay={path}");
}

/// The actual exploration; runs in a child process so that an abort or stack
/// overflow of the code under test can still be attributed to a case.
fn inner(id: &str, thorough: bool, slots: &str) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let all = props();
    let Some(prop) = all.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let known = known_findings();
    let only = std::env::var("TG_SUB").ok();
    let cfg = RunCfg {
        seed,
        thorough,
        known: known.iter().map(|k| (k.property.clone(), k.key.clone())).collect(),
        slots: std::fs::OpenOptions::new().create(true).write(true).open(slots).ok(),
        on_hang: {
            let names: Vec<&'static str> = prop.subs.iter().map(|s| s.name).collect();
            let id = id.to_string();
            Box::new(move |si, case| {
                let msg = format!("the case has not ended after {HANG_S} s (cases take milliseconds)");
                indexed_violation(&id, names[si], thorough, "does-not-terminate", msg, case);
                std::process::exit(1);
            })
        },
        scale_pct: std::env::var("TG_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(100),
    };
    let mut evals = 0;
    let mut nontriv = 0;
    let mut checks = 0;
    let mut subs_j = vec![];
    let mut samples = vec![];
    let mut rules = vec![];
    let mut seen_known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut code = 0;
    let mut violations = 0;
    for (si, sub) in prop.subs.iter().enumerate() {
        if only.as_deref().map_or(false, |o| o != sub.name) {
            continue;
        }
        let ts = Instant::now();
        let (st, out) = run_sub(id, si, sub, &cfg);
        evals += st.evals;
        nontriv += st.nontrivial.len() as u64;
        checks += st.checks;
        rules.push(format!("{}: {}", sub.name, sub.rule));
        if std::env::var("TG_VERBOSE").is_ok() {
            eprintln!("{id}/{}: {} cases, {} non-trivial, {:.2}s {:?}", sub.name, st.evals, st.nontrivial.len(), ts.elapsed().as_secs_f64(), st.labels);
        }
        subs_j.push(serde_json::json!({"name": sub.name, "evaluations": st.evals, "distinct_nontrivial": st.nontrivial.len(), "oracle_comparisons": st.checks, "labels": st.labels, "wall_s": ts.elapsed().as_secs_f64(),
            "known_finding_hits": st.known.iter().map(|(k,(c,_))| (k.clone(), *c)).collect::<BTreeMap<_,_>>()}));
        for s in st.samples.into_iter().take(2) {
            samples.push(serde_json::json!({"sub": sub.name, "case": s}));
        }
        for (k, v) in st.known {
            seen_known.entry(k).or_insert((0, v.1)).0 += v.0;
        }
        match out {
            Outcome::Ok => {}
            Outcome::Violation(r) => {
                violations += 1;
                violation(&r);
                code = 1;
                break;
            }
            Outcome::HarnessError(m) => {
                eprintln!("HARNESS ERROR {m}");
                code = 2;
                break;
            }
        }
    }
    for k in known.iter().filter(|k| k.property == id) {
        if seen_known.contains_key(&k.key) {
            println!("KNOWN-FINDING: property={} [{}] {}", id, k.key, k.text);
        }
    }
    let ev = serde_json::json!({
        "property": id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": prop.level,
        "coverage": {"evaluations": evals, "distinct_nontrivial": nontriv, "rule": rules.join(" | "), "samples": samples,
                     "oracle_comparisons": checks, "sub_checks": subs_j},
        "assumptions": prop.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": violations});
    let dir = format!("{}/evidence", root_dir());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!("{id}: {evals} cases, {nontriv} distinct non-trivial, {checks} oracle comparisons, {:.1}s", t0.elapsed().as_secs_f64());
    code
}

fn single(id: &str, sub: usize, i: u64, thorough: bool) -> i32 {
    install_hook();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let all = props();
    let prop = all.iter().find(|p| p.id == id).unwrap();
    let s = &prop.subs[sub];
    let f = s.f;
    let mut src = Src::random(case_seed(seed, id, s.name, i));
    let mut ctx = Ctx { thorough, ..Default::default() };
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || run_case(f, &mut src, &mut ctx).is_err() as i32).unwrap();
    h.join().unwrap_or(3)
}

fn outer(id: &str, thorough: bool) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let dir = svc::scratch_root();
    let slots = format!("{dir}/slots");
    let tier = if thorough { "thorough" } else { "quick" };
    let st = std::process::Command::new(&exe).args(["inner", id, tier, &slots]).env("TG_SCRATCH", &dir).status();
    let code = match st {
        Ok(s) => match s.code() {
            Some(c) => c,
            None => {
                // killed by a signal: find the case in flight that does it
                let b = std::fs::read(&slots).unwrap_or_default();
                let mut found = 2;
                for c in b.chunks_exact(24) {
                    let w: Vec<u64> = c.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
                    if w[0] != 1 {
                        continue;
                    }
                    let r = std::process::Command::new(&exe)
                        .args(["single", id, &w[1].to_string(), &w[2].to_string(), tier])
                        .env("TG_SCRATCH", &dir)
                        .status();
                    use std::os::unix::process::ExitStatusExt;
                    let sig = r.ok().and_then(|x| x.signal());
                    // stack overflow or abort; not a kill from outside
                    if matches!(sig, Some(6) | Some(11) | Some(7) | Some(4)) {
                        let all = props();
                        let name = all.iter().find(|p| p.id == id).unwrap().subs[w[1] as usize].name;
                        indexed_violation(id, name, thorough, "process-crash", format!("the process died with signal {} (stack overflow or abort)", sig.unwrap()), w[2]);
                        found = 1;
                        break;
                    }
                }
                found
            }
        },
        Err(e) => {
            eprintln!("cannot start: {e}");
            2
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn replay(path: &str) -> i32 {
    install_hook();
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    if let Some(i) = v.get("case_index").and_then(|x| x.as_u64()) {
        let all = props();
        let p = all.iter().find(|p| p.id == v["property"].as_str().unwrap()).unwrap();
        if let Some(s) = v["seed"].as_str() {
            std::env::set_var("VERIF_SEED", s);
        }
        let si = p.subs.iter().position(|s| s.name == v["sub"].as_str().unwrap()).unwrap();
        return single(p.id, si, i, v["thorough"].as_bool().unwrap_or(false));
    }
    let r: Replay = serde_json::from_value(v).unwrap();
    let all = props();
    let p = all.iter().find(|p| p.id == r.property).unwrap();
    let s = p.subs.iter().find(|s| s.name == r.sub).unwrap();
    let f = s.f;
    let mut src = Src::replay(r.choices.clone());
    let mut ctx = Ctx { thorough: r.thorough, describe: true, ..Default::default() };
    let res = std::thread::scope(|sc| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, || run_case(f, &mut src, &mut ctx)).unwrap().join().unwrap());
    for l in &ctx.desc {
        println!("  {l}");
    }
    let code = match res {
        Ok(()) => {
            println!("replay passes: {} {}", r.property, r.sub);
            0
        }
        Err(e) => {
            println!("  [{}] {}", e.key, e.msg);
            println!("VIOLATION property={} replay={}", r.property, path);
            1
        }
    };
    code
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => outer(&a[2], a.get(3).map_or(false, |t| t == "thorough")),
        Some("inner") => inner(&a[2], a[3] == "thorough", &a[4]),
        Some("single") => single(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5] == "thorough"),
        Some("replay") => {
            let d = svc::scratch_root();
            std::env::set_var("TG_SCRATCH", &d);
            let c = replay(&a[2]);
            let _ = std::fs::remove_dir_all(&d);
            c
        }
        Some(x @ ("serve" | "probe")) => {
            install_hook();
            let (x, dir) = (x.to_string(), a.get(2).cloned().unwrap_or_default());
            let t = std::thread::Builder::new().stack_size(16 << 20).spawn(move || if x == "serve" { svc::serve(&dir) } else { svc::probe() });
            t.map(|t| t.join().is_ok() as i32 - 1).unwrap_or(2)
        }
        Some("list") => {
            for p in props() {
                println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(","));
            }
            0
        }
        _ => {
            eprintln!("usage: tgcheck run ID [quick|thorough] | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
