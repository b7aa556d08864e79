//! C25: the Aqua library, interpreted over running services.
use crate::aqua::{self, Prog, Run, Stop};
use crate::engine::*;
use crate::ensure;
use crate::hist::*;
use crate::keys::*;
use crate::model::{self, Model, Rel};
use crate::svc::{self, Node, OWNER};
use marine_sqlite_connector::Fault;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::sync::OnceLock;
use trust_graph::Certificate;

const FILES: [&str; 4] = ["trust-graph.aqua", "misc.aqua", "trust-graph-api.aqua", "labelling.aqua"];
fn read(replace: &[(String, String)]) -> Result<Prog, String> {
    let mut p = Prog::default();
    // other files of the library, in case code moves there
    let repo = std::env::var("TG_REPO").unwrap_or_else(|_| "/repo".into());
    let mut files: Vec<String> = std::fs::read_dir(format!("{repo}/aqua")).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).filter(|f| f.ends_with(".aqua") && !FILES.contains(&f.as_str())).collect();
    files.sort();
    for f in FILES.iter().map(|f| f.to_string()).chain(files) {
        let mut src = std::fs::read_to_string(format!("{repo}/aqua/{f}")).map_err(|e| format!("{f}: {e}"))?;
        for (a, b) in replace {
            src = src.replace(&format!("\"{a}\""), &format!("\"{b}\""));
        }
        aqua::load(&mut p, &src).map_err(|e| format!("{f}: {e}"))?;
    }
    Ok(p)
}
static PROG: OnceLock<Result<Prog, String>> = OnceLock::new();
fn program() -> Result<&'static Prog, &'static String> {
    PROG.get_or_init(|| read(&[])).as_ref()
}
/// A certificate list answer as a set.
fn certs_of(w: &World, v: &Value) -> R<BTreeSet<model::Cert>> {
    let mut out = BTreeSet::new();
    for c in v["certificates"].as_array().into_iter().flatten() {
        let c: R<model::Cert> = c["chain"].as_array().into_iter().flatten().map(|t| w.trust_of_json(t)).collect();
        out.insert(c?);
    }
    Ok(out)
}
fn canon(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(Value::Array(a)) = v.get_mut("certificates") {
        a.sort_by_key(|x| x.to_string());
    }
    v
}
/// None if the node's visible state is that of the model, else what differs.
fn differs(node: &Node, w: &World, m: &Model, now: u64) -> R<Option<String>> {
    let mut m = m.clone();
    m.gc(now);
    for n in 0..w.n() {
        let name = &w.keys[n].name;
        let p = json!(w.keys[n].peer);
        let v = node.ask("get_all_certs", vec![p.clone(), json!(now)])?;
        if svc::ok(&v).is_err() {
            return Ok(Some(format!("get_all_certs failed: {v}")));
        }
        let (got, want) = (certs_of(w, &v)?, m.certs(n));
        if got != want {
            return Ok(Some(format!("certificates of {name}: unexpected {}, missing {}", show_certs(w, got.difference(&want)), show_certs(w, want.difference(&got)))));
        }
        let v = node.ask("get_weight", vec![p.clone(), json!(now)])?;
        if v["weight"] != json!(m.weight(n)) {
            return Ok(Some(format!("weight of {name}: {v}, expected {}", m.weight(n))));
        }
        let v = node.ask("export_revocations", vec![p])?;
        let mut got = BTreeSet::new();
        for r in v["revocations"].as_array().into_iter().flatten() {
            let by = w.keys.iter().position(|k| r["revoked_by"].as_str() == Some(&k.peer)).unwrap_or(usize::MAX);
            got.insert((by, r["revoked_at"].as_u64().unwrap_or(0), sig_of_json(r)?));
        }
        if got != m.revocations(n) {
            return Ok(Some(format!("revocations of {name}: {} instead of {}", got.len(), m.revocations(n).len())));
        }
    }
    Ok(None)
}
/// The model before and after what a call was asked to do on one node.
struct Effect {
    node: usize,
    /// states the node may be in if the call reports success
    done: Model,
    /// ... if it reports an error (besides the present one)
    partly: Vec<Model>,
    /// whether success is expected when nothing is disturbed
    ok: bool,
}

fn c25_flows(s: &mut Src, ctx: &mut Ctx) -> R {
    let prog = match program() {
        Ok(p) => p,
        Err(_) => {
            ctx.label("unsupported syntax");
            return Ok(());
        }
    };
    let n = 3 + s.idx(3);
    let w = World::new((0..n).map(ed).collect());
    let client = w.keys[0].peer.clone();
    let mine = s.chance(80);
    let owner = if mine { client.clone() } else { OWNER.to_string() };
    let hosts: Vec<(String, String)> = vec![(if s.chance(60) { w.keys[n - 2].peer.clone() } else { ed(20).peer.clone() }, owner.clone()), (if s.chance(60) { w.keys[n - 1].peer.clone() } else { ed(21).peer.clone() }, owner.clone())];
    let mut clocks = vec![1_000_000u64; 2];
    match s.weighted(&[6, 2, 2]) {
        1 => clocks[1] += s.draw(60),
        2 => clocks[1] -= s.draw(60),
        _ => {}
    }
    let relay = s.idx(2);
    let steps = 2 + s.idx(9);
    svc::network(&hosts, |nodes| {
        let mut ms = vec![Model::default(), Model::default()];
        let name = |x: usize| w.keys[x].name.clone();
        // most histories start from a root
        for (i, m) in ms.iter_mut().enumerate() {
            if s.chance(70) {
                let t = mk_trust(&w, 0, 0, clocks[i] + 100_000, 10)?;
                nodes[i].ask("set_root", vec![json!(w.keys[0].peer), json!(5)])?;
                nodes[i].ask("add_trust", vec![svc::trust_json(w.keys[0], &t), json!(w.keys[0].peer), json!(clocks[i])])?;
                m.set_root(0, 5);
                m.add_trust(0, 0, clocks[i] + 100_000, 10, t.signature.encode(), clocks[i]);
                ctx.say(|| format!("node {i}: {} is a root", name(0)));
            }
        }
        for _ in 0..steps {
            let span = s.rec.len();
            let dt = s.draw(5);
            clocks[0] += dt;
            clocks[1] += dt;
            let k = s.idx(2);
            for i in 0..2 {
                // expired trusts are collected by queries
                nodes[i].ask("get_weight", vec![json!(w.keys[0].peer), json!(clocks[i])])?;
                ms[i].gc(clocks[i]);
            }
            let (by, to) = (if s.chance(30) { 0 } else { s.idx(n) }, s.idx(n));
            let (rt, nt) = (clocks[relay], clocks[k]);
            let exp = match s.weighted(&[6, 2, 1, 1]) {
                0 => nt + 1000,
                1 => nt + s.draw(30),
                2 => u64::MAX,
                _ => nt - s.draw(3),
            };
            let at_node = nodes[k].host.clone();
            let p = |x: usize| json!(w.keys[x].peer);
            let here = json!(at_node);
            let now_ok = |m: &Model| m.clone();
            let refuse_signing = s.chance(8);
            let fault = if s.chance(15) { Some((s.idx(4), Fault::Before(s.draw(12)))) } else { None };
            let m0 = ms[k].clone();
            let trust_effect = |m: &Model, by: usize, to: usize, exp: u64, at: u64| -> R<(Model, bool)> {
                let t = mk_trust(&w, by, to, exp, at)?;
                let mut x = m.clone();
                let ok = at <= nt && exp >= nt;
                if ok {
                    x.add_trust(by, to, exp, at, t.signature.encode(), nt);
                }
                Ok((x, ok))
            };
            // function, arguments, where it runs, what it does; queries have no effect
            let (f, args, place, eff): (&str, Vec<Value>, String, Option<Effect>) = match s.weighted(&[4, 8, 4, 2, 3, 2, 2, 2, 3, 2, 2, 3, 2]) {
                0 => {
                    let max = s.draw(6) as u32;
                    let mut r = m0.clone();
                    if mine {
                        r.set_root(by, max);
                    }
                    let (done, ok) = trust_effect(&r, by, by, exp, rt)?;
                    ("add_root_trust", vec![here, p(by), json!(max), json!(exp)], client.clone(), Some(Effect { node: k, done, partly: vec![r], ok: ok && mine }))
                }
                1 => {
                    let (done, ok) = trust_effect(&m0, by, to, exp, rt)?;
                    ("add_trust", vec![here, p(by), p(to), json!(exp)], client.clone(), Some(Effect { node: k, done, partly: vec![], ok }))
                }
                2 => {
                    let r = mk_rev(&w, by, to, rt)?;
                    let mut x = m0.clone();
                    let ok = rt <= nt;
                    if ok {
                        x.upsert(by, to, Rel::Rev { at: rt, sig: r.signature.encode() });
                    }
                    ("revoke", vec![here, p(by), p(to)], client.clone(), Some(Effect { node: k, done: x, partly: vec![], ok }))
                }
                3 => {
                    let max = s.draw(6) as u32;
                    let mut x = m0.clone();
                    if mine {
                        x.set_root(by, max);
                    }
                    ("set_root", vec![p(by), json!(max)], at_node, Some(Effect { node: k, done: x, partly: vec![], ok: mine }))
                }
                4 => {
                    let at = nt - s.draw(40) + s.draw(2) * s.draw(30);
                    let bad = s.chance(25);
                    let (mut t, (mut done, mut ok)) = (mk_trust(&w, by, to, exp, at)?, trust_effect(&m0, by, to, exp, at)?);
                    if bad {
                        t = bad_trust(&w, by, to, exp, at, 4, nt)?;
                        done = now_ok(&m0);
                        ok = false;
                    }
                    ("import_trust", vec![svc::trust_json(w.keys[to], &t), p(by)], at_node, Some(Effect { node: k, done, partly: vec![], ok }))
                }
                5 => {
                    let at = nt - s.draw(40) + s.draw(2) * s.draw(60);
                    let r = mk_rev(&w, by, to, at)?;
                    let mut x = m0.clone();
                    let ok = at <= nt;
                    if ok {
                        x.upsert(by, to, Rel::Rev { at, sig: r.signature.encode() });
                    }
                    ("import_revocation", vec![svc::rev_json(w.keys[by], w.keys[to], &r)], at_node, Some(Effect { node: k, done: x, partly: vec![], ok }))
                }
                6 => {
                    let (mut from, mut x, mut chain, mut tos, mut partly) = (by, m0.clone(), vec![], vec![], vec![]);
                    for i in 0..1 + s.idx(3) {
                        let t = if i == 0 { by } else { s.idx(n) };
                        let at = nt - s.draw(40);
                        let c = mk_trust(&w, from, t, nt + 500, at)?;
                        x.add_trust(from, t, nt + 500, at, c.signature.encode(), nt);
                        partly.push(x.clone());
                        chain.push(c);
                        tos.push(t);
                        from = t;
                    }
                    ("insert_cert", vec![svc::Svc::cert_json(&w, &Certificate::new_unverified(chain), &tos)], at_node, Some(Effect { node: k, done: x, partly, ok: true }))
                }
                7 => {
                    let t = if s.chance(50) { mk_trust(&w, by, to, exp, nt)? } else { bad_trust(&w, by, to, exp, nt & !1, s.draw(6) as u8, nt)? };
                    ("verify_trust", vec![svc::trust_json(w.keys[to], &t), p(by)], at_node, None)
                }
                8 => ("get_weight", vec![p(to)], at_node, None),
                9 => ("get_all_certs", vec![p(to)], at_node, None),
                10 => (*s.pick(&["get_all_certs_from", "get_weight_from"]), vec![p(to), p(by)], at_node, None),
                11 => ("get_host_certs", vec![], at_node, None),
                _ => ("get_host_certs_from", vec![p(by)], at_node, None),
            };
            ctx.say(|| format!("relay {relay}, clocks {clocks:?}: {f}({}) at {place}{}{}", args.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", "), if refuse_signing { ", signing refused" } else { "" }, if fault.is_some() { ", storage fault" } else { "" }));
            let sign = |id: &str, msg: &[u8]| -> Option<Result<Vec<u8>, String>> {
                let key = w.keys.iter().find(|k| k.peer == id)?;
                Some(if refuse_signing { Err("signing refused".into()) } else { Ok(key.lp.sign(msg).expect("harness: sign")) })
            };
            let mut run = Run { prog, nodes, clocks: &clocks, client: client.clone(), client_clock: clocks[relay] + 17, relay, sign: &sign, fault, log: vec![], tg_calls: 0 };
            let out = match run.func(f, args.clone(), &place) {
                Ok(v) => v,
                Err(Stop::Unsupported(_)) => {
                    ctx.label("unsupported construct");
                    return Ok(());
                }
                Err(Stop::Broken(e)) => return fail("never-completes", format!("{f} does not complete: {e}")),
                Err(Stop::Fail(e)) => return Err(e),
            };
            let log = run.log;
            ctx.checks += 1;
            let failed: Vec<&aqua::Step> = log.iter().filter(|x| x.failed.is_some()).collect();
            let reports_option = !matches!(f, "set_root" | "insert_cert") && eff.is_some();
            // what is reported
            if reports_option {
                let err = out.last().cloned().unwrap_or(json!([]));
                match failed.first() {
                    Some(st) => {
                        ctx.label("error reported");
                        ensure!(err == json!([st.failed.clone().unwrap()]), "error-not-reported", "{f}: {} failed with {:?} but the function reports {err}", st.what, st.failed);
                    }
                    None => ensure!(err == json!([]), "error-invented", "{f}: nothing failed but {err} is reported"),
                }
            } else {
                let v = out.first().cloned().unwrap_or(Value::Null);
                let last = log.iter().rev().find(|x| x.what.starts_with("trust-graph.")).map(|x| x.answer.clone()).unwrap_or(Value::Null);
                ensure!(v == last, "answer-differs", "{f} returns {v}, the service answered {last}");
            }
            let ok = failed.is_empty();
            match &eff {
                None => {
                    if fault.is_none() {
                        let mut a = args.clone();
                        a.push(json!(nt));
                        let direct = nodes[k].ask(f, a)?;
                        ensure!(canon(&out[0]) == canon(&direct), "answer-differs", "{f} returns {}, the service at node {k} answers {direct}", out[0]);
                        if f != "verify_trust" && out[0]["success"] != json!(true) && !(f.starts_with("get_host") || f.contains("_from")) {
                            return fail("query-failed", format!("{f}: {}", out[0]));
                        }
                    }
                }
                Some(e) => {
                    ctx.hit();
                    if fault.is_none() && !refuse_signing {
                        ensure!(ok == e.ok, "outcome-differs", "{f} {} although {}: {log:?}", if ok { "succeeded" } else { "failed" }, if e.ok { "everything is in order" } else { "it must be refused" });
                    }
                    let mut may: Vec<Model> = if ok { vec![e.done.clone()] } else { vec![m0.clone(), e.done.clone()] };
                    if !ok {
                        may.extend(e.partly.clone());
                        if fault.is_none() {
                            // refused without any storage fault: only what was done before the refusal
                            may = if f == "add_root_trust" && log.iter().any(|l| l.what.ends_with("set_root") && l.failed.is_none()) { e.partly.clone() } else { vec![m0.clone()] };
                        }
                    }
                    let mut why = None;
                    let mut found = None;
                    for m in may {
                        match differs(&nodes[e.node], &w, &m, nt)? {
                            None => {
                                // states that no query tells apart now may differ later
                                if found.as_ref().map_or(false, |f| *f != m) {
                                    ctx.label("state unclear after a fault");
                                    return Ok(());
                                }
                                found = Some(m);
                            }
                            x => why = x,
                        }
                    }
                    let Some(m) = found else { return fail("effect-differs", format!("{f} {}; node {k}: {}", if ok { "succeeded" } else { "failed" }, why.unwrap_or_default())) };
                    ms[k] = m;
                    let other = 1 - k;
                    if let Some(d) = differs(&nodes[other], &w, &ms[other], clocks[other])? {
                        return fail("effect-elsewhere", format!("{f} on node {k} changed node {other}: {d}"));
                    }
                }
            }
            ctx.label(match f {
                "add_root_trust" => "add_root_trust",
                "add_trust" => "add_trust",
                "revoke" => "revoke",
                _ => "at a node",
            });
            s.spans.push((span, s.rec.len()));
        }
        Ok(())
    })
}

/// Documents issued through the library are what the library crate makes.
fn c25_issue(s: &mut Src, ctx: &mut Ctx) -> R {
    let prog = match program() {
        Ok(p) => p,
        Err(_) => {
            ctx.label("unsupported syntax");
            return Ok(());
        }
    };
    let w = World::new((0..4).map(ed).collect());
    let (by, to) = (s.idx(4), s.idx(4));
    let client = w.keys[s.idx(4)].peer.clone();
    let hosts = vec![(ed(20).peer.clone(), OWNER.to_string())];
    let clocks = vec![time(s)];
    let exp = time(s);
    let rev = s.chance(40);
    let refuse = s.chance(15);
    ctx.hit();
    ctx.say(|| format!("clock {clocks:?}, {} {} {}, expires {exp}{}", w.keys[by].name, if rev { "revokes" } else { "trusts" }, w.keys[to].name, if refuse { ", signing refused" } else { "" }));
    let sign = |id: &str, msg: &[u8]| -> Option<Result<Vec<u8>, String>> {
        let key = w.keys.iter().find(|k| k.peer == id)?;
        Some(if refuse { Err("signing refused".into()) } else { Ok(key.lp.sign(msg).expect("harness: sign")) })
    };
    svc::network(&hosts, |nodes| {
        let mut run = Run { prog, nodes, clocks: &clocks, client: client.clone(), client_clock: clocks[0] ^ 5, relay: 0, sign: &sign, fault: None, log: vec![], tg_calls: 0 };
        // a peer id that is none makes the service refuse
        let bad = s.chance(15);
        let target = if bad { "nobody".to_string() } else { w.keys[to].peer.clone() };
        let (f, args) = if rev { ("issue_revocation", vec![json!(w.keys[by].peer), json!(target)]) } else { ("issue_trust", vec![json!(w.keys[by].peer), json!(target), json!(exp)]) };
        let out = match run.func(f, args, &client) {
            Ok(v) => v,
            Err(Stop::Unsupported(_)) => {
                ctx.label("unsupported construct");
                return Ok(());
            }
            Err(Stop::Broken(e)) => return fail("never-completes", format!("{f} does not complete: {e}")),
            Err(Stop::Fail(e)) => return Err(e),
        };
        ctx.checks += 1;
        if bad || refuse {
            let why = run.log.iter().find_map(|l| l.failed.clone());
            ensure!(out[0] == json!([]), "result-despite-error", "{f} returns {} although a step failed", out[0]);
            ensure!(why.is_some() && out[1] == json!([why.clone().unwrap_or_default()]), "error-not-reported", "{f} reports {} for {why:?}", out[1]);
            ctx.label("error reported");
            return Ok(());
        }
        let want = if rev { svc::rev_json(w.keys[by], w.keys[to], &mk_rev(&w, by, to, clocks[0])?) } else { svc::trust_json(w.keys[to], &mk_trust(&w, by, to, exp, clocks[0])?) };
        ensure!(out[1] == json!([]), "error-invented", "{f} reports {}", out[1]);
        ensure!(out[0] == json!([want]), "issued-differs", "{f} returns {}, expected {want}", out[0]);
        Ok(())
    })
}

/// isFluencePeer on generated graphs, with generated keys in the place of the
/// shipped root and label; and on the shipped certificates as they are.
fn c25_label(s: &mut Src, ctx: &mut Ctx) -> R {
    let bad = |e: String| Fail { key: "shipped-data-broken".into(), msg: e, harness: false };
    let js: Value = serde_json::from_slice(&repo_file("distro/init_certs.json")).map_err(|e| bad(e.to_string()))?;
    let root = js["root_node"].as_str().unwrap_or("").to_string();
    let chains: Vec<Value> = js["certs"].as_array().cloned().unwrap_or_default();
    let label = chains.iter().find(|c| c["chain"].as_array().map(|c| c.len()) == Some(3)).and_then(|c| c["chain"].get(1)).and_then(|t| t["issued_for"].as_str()).unwrap_or("").to_string();
    if s.chance(35) {
        // shipped: some of the certificates, the peer of one of them or another
        let prog = match program() {
            Ok(p) => p,
            Err(_) => {
                ctx.label("unsupported syntax");
                return Ok(());
            }
        };
        let times = |f: &str| -> Vec<u64> { chains.iter().flat_map(|c| c["chain"].as_array().cloned().unwrap_or_default()).filter_map(|t| t[f].as_u64()).collect() };
        let (from, upto) = (times("issued_at").into_iter().max().unwrap_or(0), times("expires_at").into_iter().min().unwrap_or(0));
        let now = if s.chance(20) { upto + s.draw(100) } else { s.range(from, upto.max(from + 1) - 1) };
        let who = s.idx(chains.len().max(1));
        let fluence = s.chance(70);
        let host = if fluence { chains[who]["chain"].as_array().and_then(|c| c.last()).and_then(|t| t["issued_for"].as_str()).unwrap_or("").to_string() } else { ed(3).peer.clone() };
        let inserted: Vec<usize> = (0..chains.len()).filter(|i| if *i == who { !s.chance(10) } else { s.chance(50) }).collect();
        ctx.say(|| format!("shipped certificates {inserted:?}, host {host}, clock {now}"));
        ctx.label("shipped");
        return svc::network(&[(host.clone(), OWNER.to_string())], |nodes| {
            nodes[0].ask("set_root", vec![json!(root), js["max_chain_length"].clone()])?;
            for i in &inserted {
                nodes[0].ask("insert_cert", vec![chains[*i].clone(), json!(now.min(upto - 1))])?;
            }
            let live = |i: &usize| chains[*i]["chain"].as_array().map(|c| c.len()) == Some(3) && chains[*i]["chain"].as_array().into_iter().flatten().all(|t| t["expires_at"].as_u64() > Some(now)) && chains[*i]["chain"].as_array().and_then(|c| c.last()).map(|t| t["issued_for"] == json!(host)) == Some(true);
            let want = inserted.iter().any(live);
            ctx.hit();
            label_check(ctx, prog, nodes, now, want)
        });
    }
    let n = 4 + s.idx(3);
    let w = World::new((0..n).map(ed).collect());
    // 0 root, 1 label, the last is the host
    let prog = match read(&[(root, w.keys[0].peer.clone()), (label, w.keys[1].peer.clone())]) {
        Ok(p) => p,
        Err(_) => {
            ctx.label("unsupported syntax");
            return Ok(());
        }
    };
    let host = w.keys[n - 1].peer.clone();
    let now = 1_000_000;
    svc::network(&[(host, OWNER.to_string())], |nodes| {
        let mut m = Model::default();
        for r in 0..2 {
            if r == 0 || s.chance(30) {
                let who = if r == 0 { 0 } else { s.idx(n) };
                nodes[0].ask("set_root", vec![json!(w.keys[who].peer), json!(5)])?;
                m.set_root(who, 5);
                trust_in(&nodes[0], &w, &mut m, who, who, now)?;
            }
        }
        for _ in 0..2 + s.idx(9) {
            let (by, to) = match s.weighted(&[3, 3, 4]) {
                0 => (0, 1),
                1 => (1, n - 1),
                _ => (s.idx(n), s.idx(n)),
            };
            ctx.say(|| format!("{} trusts {}", w.keys[by].name, w.keys[to].name));
            trust_in(&nodes[0], &w, &mut m, by, to, now)?;
        }
        let want = m.certs(n - 1).iter().any(|c| c.len() == 3 && c[0].to == 0 && c[1].to == 1);
        if m.certs(n - 1).iter().any(|c| c.iter().any(|t| t.to == 1)) {
            ctx.hit();
        }
        ctx.label(if want { "a labelled peer" } else { "no labelled peer" });
        label_check(ctx, &prog, nodes, now, want)
    })
}
fn trust_in(node: &Node, w: &World, m: &mut Model, by: usize, to: usize, now: u64) -> R {
    let t = mk_trust(w, by, to, now + 1000, now - 1)?;
    node.ask("add_trust", vec![svc::trust_json(w.keys[to], &t), json!(w.keys[by].peer), json!(now)])?;
    m.add_trust(by, to, now + 1000, now - 1, t.signature.encode(), now);
    Ok(())
}
fn label_check(ctx: &mut Ctx, prog: &Prog, nodes: &[Node], now: u64, want: bool) -> R {
    let no_sign = |_: &str, _: &[u8]| None;
    let clocks = [now];
    for broken in [false, true] {
        let fault = if broken { Some((0, Fault::Before(1))) } else { None };
        let mut run = Run { prog, nodes, clocks: &clocks, client: ed(7).peer.clone(), client_clock: now, relay: 0, sign: &no_sign, fault, log: vec![], tg_calls: 0 };
        let host = nodes[0].host.clone();
        let out = match run.func("isFluencePeer", vec![], &host) {
            Ok(v) => v,
            Err(Stop::Unsupported(_)) => {
                ctx.label("unsupported construct");
                return Ok(());
            }
            Err(Stop::Broken(e)) => return fail("never-completes", format!("isFluencePeer does not complete: {e}")),
            Err(Stop::Fail(e)) => return Err(e),
        };
        ctx.checks += 1;
        if let Some(e) = run.log.iter().find_map(|l| l.failed.clone()) {
            ensure!(broken, "query-failed", "isFluencePeer failed: {e}");
            ensure!(out[0] == json!([]) && out[1] == json!([e]), "error-not-reported", "isFluencePeer returns {} and {} after {e:?}", out[0], out[1]);
        } else {
            ensure!(out[1] == json!([]), "error-invented", "isFluencePeer reports {}", out[1]);
            let all = out[0].as_array().cloned().unwrap_or_default();
            ensure!(!all.is_empty() && all.iter().all(|x| *x == json!(want)), "label-differs", "isFluencePeer returns {}, expected {want}", out[0]);
        }
    }
    Ok(())
}

/// The example: a node computes for the client iff the relay holds a
/// certificate of the node that passes through the client.
fn c25_example(s: &mut Src, ctx: &mut Ctx) -> R {
    static EX: OnceLock<Option<Prog>> = OnceLock::new();
    let prog = EX.get_or_init(|| {
        let mut p = program().ok()?.clone();
        let repo = std::env::var("TG_REPO").unwrap_or_else(|_| "/repo".into());
        aqua::load(&mut p, &std::fs::read_to_string(format!("{repo}/example/aqua/computation.aqua")).ok()?).ok()?;
        Some(p)
    });
    let Some(prog) = prog else {
        ctx.label("unsupported syntax");
        return Ok(());
    };
    let n = 4 + s.idx(3);
    let w = World::new((0..n).map(ed).collect());
    let client = s.idx(n - 1);
    let node = n - 1;
    let hosts = vec![(ed(20).peer.clone(), OWNER.to_string()), (w.keys[node].peer.clone(), OWNER.to_string())];
    let (now, clocks) = (1_000_000, [1_000_000, 1_000_000 + s.draw(9)]);
    let broken = s.chance(15);
    svc::network(&hosts, |nodes| {
        let mut m = [Model::default(), Model::default()];
        for i in 0..2 {
            for _ in 0..1 + s.idx(2) {
                let r = if s.chance(60) { client } else { s.idx(n) };
                nodes[i].ask("set_root", vec![json!(w.keys[r].peer), json!(4)])?;
                m[i].set_root(r, 4);
                trust_in(&nodes[i], &w, &mut m[i], r, r, clocks[i])?;
            }
            for _ in 0..s.idx(9) {
                let (by, to) = if s.chance(30) { (client, s.idx(n)) } else if s.chance(30) { (s.idx(n), node) } else { (s.idx(n), s.idx(n)) };
                ctx.say(|| format!("node {i}: {} trusts {}", w.keys[by].name, w.keys[to].name));
                trust_in(&nodes[i], &w, &mut m[i], by, to, clocks[i])?;
            }
        }
        let want = m[0].certs(node).iter().any(|c| c.iter().take(c.len() - 1).any(|t| t.to == client));
        ctx.say(|| format!("client {}, node {}", w.keys[client].name, w.keys[node].name));
        let no_sign = |_: &str, _: &[u8]| None;
        let fault = if broken { Some((0, Fault::Before(1))) } else { None };
        let mut run = Run { prog, nodes, clocks: &clocks, client: w.keys[client].peer.clone(), client_clock: now, relay: 0, sign: &no_sign, fault, log: vec![], tg_calls: 0 };
        let me = w.keys[client].peer.clone();
        let out = match run.func("trusted_computation", vec![json!(w.keys[node].peer)], &me) {
            Ok(v) => v,
            Err(Stop::Unsupported(_)) => {
                ctx.label("unsupported construct");
                return Ok(());
            }
            Err(Stop::Broken(e)) => return fail("never-completes", format!("trusted_computation does not complete: {e}")),
            Err(Stop::Fail(e)) => return Err(e),
        };
        ctx.checks += 1;
        ctx.hit();
        let failed = run.log.iter().find_map(|l| l.failed.clone());
        let ran = run.log.iter().any(|l| l.what.ends_with(".identity"));
        if let Some(e) = failed {
            ensure!(broken, "query-failed", "trusted_computation failed: {e}");
            ensure!(!ran && out[0] == json!([]) && out[1] == json!([e]), "error-not-reported", "trusted_computation returns {out:?} after {e:?}");
            return Ok(());
        }
        ctx.label(if want { "trusted" } else { "not trusted" });
        ensure!(ran == want, "computation-trust", "the computation {} on a node that is {}trusted", if ran { "ran" } else { "did not run" }, if want { "" } else { "not " });
        ensure!((out[0] == json!([])) != want && (out[1] == json!([])) == want, "computation-trust", "trusted_computation returns {out:?}, the node is {}trusted", if want { "" } else { "not " });
        Ok(())
    })
}

/// The declarations name exactly what the service exports, and nothing exported is undefined.
fn c25_declared(_s: &mut Src, ctx: &mut Ctx) -> R {
    let Ok(prog) = program() else {
        ctx.label("unsupported syntax");
        return Ok(());
    };
    ctx.hit();
    ctx.checks += 1;
    let Some(tg) = prog.services.get("TrustGraph") else { return fail("declaration", "no service TrustGraph is declared") };
    for f in tg.fns.keys() {
        ensure!(svc::exported(f), "declaration", "{f} is declared but the service does not export it");
    }
    for f in &prog.exports {
        ensure!(prog.funcs.contains_key(f), "declaration", "{f} is exported but not defined");
    }
    // the clock argument is the last one, as everything here assumes
    for (f, (ps, _)) in &tg.fns {
        if let Some(i) = svc::time_arg(f) {
            ensure!(ps.len() == i + 1, "declaration", "{f} is declared with {} parameters", ps.len());
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        level: "exploration",
        assumptions: &[
            "the Aqua files are run by an interpreter in this harness (no Aqua compiler is installed): functions, on, if/else, for, streams, options, service bindings; files using other constructs are not judged",
            "network delivery between peers is reliable and in order",
            "clients sign only data that comes from trust-graph's byte functions",
        ],
        subs: vec![
            Sub { name: "flows", quick: 2500, thorough: 40_000, rule: "a history of library functions on two nodes; non-trivial when a function that changes a node was run", f: c25_flows },
            Sub { name: "issue", quick: 1500, thorough: 20_000, rule: "all", f: c25_issue },
            Sub { name: "label", quick: 800, thorough: 12_000, rule: "shipped certificates, or a generated graph in which the host has a certificate through the label", f: c25_label },
            Sub { name: "example", quick: 500, thorough: 8_000, rule: "graphs on relay and node; all", f: c25_example },
            Sub { name: "declarations", quick: 1, thorough: 1, rule: "all", f: c25_declared },
        ],
    }]
}
