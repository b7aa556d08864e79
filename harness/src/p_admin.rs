//! C26: the admin tool (TypeScript) run against a service.
use crate::aqua::{self, Prog, Run, Stop};
use crate::engine::*;
use crate::ensure;
use crate::hist::*;
use crate::keys::*;
use crate::svc::{self, OWNER};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;

const TS: &str = "/opt/veriftools/node/node_modules/typescript";
struct Tool {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}
impl Drop for Tool {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Tool {
    fn start() -> Option<Tool> {
        let repo = std::env::var("TG_REPO").unwrap_or_else(|_| "/repo".into());
        let here = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let ts = std::env::var("TG_TYPESCRIPT").unwrap_or_else(|_| TS.into());
        let src = format!("{repo}/admin/index.ts");
        if !std::path::Path::new(&ts).exists() || !std::path::Path::new(&src).exists() {
            return None;
        }
        let mut child = Command::new("node").arg(format!("{here}/admin/runner.js")).arg(src).arg(ts).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
        let (tx, rx) = (child.stdin.take()?, BufReader::new(child.stdout.take()?));
        Some(Tool { child, tx, rx })
    }
    fn say(&mut self, v: Value) -> Option<()> {
        writeln!(self.tx, "{v}").ok()?;
        self.tx.flush().ok()
    }
    fn hear(&mut self) -> Option<Value> {
        let mut l = String::new();
        self.rx.read_line(&mut l).ok()?;
        serde_json::from_str(&l).ok()
    }
}
thread_local!(static TOOL: RefCell<Option<Tool>> = const { RefCell::new(None) });

static PROG: OnceLock<Result<Prog, String>> = OnceLock::new();
fn program() -> Option<&'static Prog> {
    PROG.get_or_init(|| {
        let mut p = Prog::default();
        for f in ["aqua/trust-graph.aqua", "admin/aqua/export.aqua"] {
            aqua::load(&mut p, &String::from_utf8_lossy(&repo_file(f)))?;
        }
        Ok(p)
    })
    .as_ref()
    .ok()
}
fn local_node() -> Option<String> {
    let src = String::from_utf8_lossy(&repo_file("admin/index.ts")).into_owned();
    let i = src.find("12D3KooW")?;
    Some(src[i..].chars().take_while(|c| c.is_alphanumeric()).collect())
}

fn c26_case(s: &mut Src, ctx: &mut Ctx) -> R {
    let Some(prog) = program() else {
        ctx.label("unsupported syntax");
        return Ok(());
    };
    let nodes_n = s.idx(7);
    let mut order: Vec<usize> = (0..N_ED).collect();
    s.shuffle(&mut order);
    // 0 root, 1 issuer, 2 example, then the nodes
    let w = World::new(order.iter().take(3 + nodes_n.max(1)).map(|i| ed(*i)).collect());
    let peers: Vec<usize> = (3..3 + nodes_n).collect();
    let entry = |p: &str| json!({"peerId": p, "multiaddr": format!("/dns4/x/tcp/1/wss/p2p/{p}")});
    let kras: Vec<String> = peers.iter().map(|i| w.keys[*i].peer.clone()).collect();
    let (stage, test) = (ed(order[20]).peer.clone(), ed(order[21]).peer.clone());
    let env = match s.weighted(&[4, 2, 2, 2, 1]) {
        0 if !kras.is_empty() => "krasnodar",
        0 | 1 => "testnet",
        2 => "stage",
        3 => "local",
        _ => *s.pick(&["", "mainnet", "Stage", "constructor"]),
    };
    let hosts: Vec<(String, String)> = [Some(stage.clone()), Some(test.clone()), kras.first().cloned(), local_node()].into_iter().flatten().map(|h| (h, OWNER.to_string())).collect();
    let target = match env {
        "krasnodar" => kras[0].clone(),
        "testnet" => test.clone(),
        "stage" => stage.clone(),
        "local" => match local_node() {
            Some(x) => x,
            None => return Ok(()),
        },
        _ => String::new(),
    };
    let base = match s.weighted(&[3, 1, 1]) {
        0 => 1_600_000_000 + s.draw(1 << 28),
        1 => s.draw(1000),
        _ => s.draw(1 << 40),
    };
    let mut clocks: Vec<u64> = hosts.iter().enumerate().map(|(i, _)| base + 7 * i as u64).collect();
    let tick = if s.chance(40) { s.draw(4) } else { 0 };
    let cut = if s.chance(15) { Some(s.idx(3 + 2 * (3 + nodes_n))) } else { None };
    let b58 = |k: &Key| bs58::encode(&k.secret).into_string();
    let args: Vec<&str> = if env.is_empty() { vec![] } else { vec![env] };
    let case = json!({"case": {
        "args": args,
        "relay": target,
        "files": {"root_secret_key.ed25519": b58(w.keys[0]), "issuer_secret_key.ed25519": b58(w.keys[1]), "example_secret_key.ed25519": b58(w.keys[2])},
        "environments": {"krasnodar": kras.iter().map(|p| entry(p)).collect::<Vec<_>>(), "stage": [entry(&stage)], "testNet": [entry(&test)]},
    }});
    ctx.say(|| format!("environment {env:?}, root {}, issuer {}, example {}, {nodes_n} nodes, clock {base} (+{tick} a call), answers cut at {cut:?}", w.keys[0].name, w.keys[1].name, w.keys[2].name));
    TOOL.with(|t| {
        let mut t = t.borrow_mut();
        if t.is_none() {
            *t = Tool::start();
        }
        let Some(tool) = t.as_mut() else {
            ctx.label("cannot run TypeScript here");
            return Ok(());
        };
        let r = svc::network(&hosts, |nodes| {
            if tool.say(case).is_none() {
                return Ok(None);
            }
            let (mut calls, mut refused, mut time) = (0, false, None);
            loop {
                let Some(m) = tool.hear() else { return Ok(None) };
                if let Some(d) = m.get("done") {
                    return Ok(Some((d.clone(), refused, time)));
                }
                let f = m["call"]["name"].as_str().unwrap_or("").to_string();
                let a = m["call"]["args"].as_array().cloned().unwrap_or_default();
                if cut == Some(calls) {
                    refused = true;
                    let _ = tool.say(json!({"refused": "the relay does not answer"}));
                    calls += 1;
                    continue;
                }
                calls += 1;
                for c in clocks.iter_mut() {
                    *c += tick;
                }
                let no_sign = |_: &str, _: &[u8]| None;
                let mut run = Run { prog, nodes, clocks: &clocks, client: ed(order[25]).peer.clone(), client_clock: base ^ 9, relay: 0, sign: &no_sign, fault: None, log: vec![], tg_calls: 0 };
                let me = run.client.clone();
                match run.func(&f, a, &me) {
                    Ok(v) => {
                        if f == "timestamp_sec" && time.is_none() {
                            time = hosts.iter().position(|h| h.0 == target).map(|i| clocks[i]);
                        }
                        let _ = tool.say(json!({"answer": v.first().cloned().unwrap_or(Value::Null)}));
                    }
                    Err(Stop::Fail(e)) => return Err(e),
                    Err(Stop::Broken(e)) => {
                        let _ = tool.say(json!({ "refused": e }));
                    }
                    Err(Stop::Unsupported(_)) => {
                        let _ = tool.say(json!({"refused": "unsupported"}));
                        refused = true;
                    }
                }
            }
        });
        // a failing case leaves the process in the middle of things
        let (done, refused, time) = match r {
            Ok(Some(x)) => x,
            other => {
                ctx.label("cannot run TypeScript here");
                *t = None;
                return other.map(|_| ());
            }
        };
        if !done["unsupported"].is_null() {
            ctx.label("uses what the stand-ins lack");
            return Ok(());
        }
        ctx.checks += 1;
        let written = done["written"].as_object().cloned().unwrap_or_default();
        let code = done["code"].clone();
        if env.is_empty() || target.is_empty() || refused {
            ctx.label("must fail");
            ensure!(code != json!(0), "failure-hidden", "the tool ends with {code} although {}", if refused { "an answer was missing" } else { "it was given no environment" });
            ensure!(written.is_empty(), "written-despite-failure", "the tool wrote {:?} although it failed", written.keys().collect::<Vec<_>>());
            return Ok(());
        }
        ctx.hit();
        ensure!(code == json!(0), "tool-fails", "the tool ends with {code}: {}", done["error"]);
        let at = match time {
            Some(x) => x,
            None => return fail("not-dated", "the tool never asked the connected node for the time"),
        };
        ensure!(written.len() == 1 && written.keys().all(|k| k.ends_with("builtin-package/on_start.json")), "wrong-file", "the tool wrote {:?}", written.keys().collect::<Vec<_>>());
        let body: Value = match serde_json::from_str(written.values().next().and_then(|v| v.as_str()).unwrap_or("")) {
            Ok(v) => v,
            Err(e) => return fail("wrong-file", format!("what the tool wrote is not JSON: {e}")),
        };
        let exp = at + 60 * 60 * 24 * 365 * 2;
        let trust = |by: usize, to: usize| -> R<Value> { Ok(svc::trust_json(w.keys[to], &mk_trust(&w, by, to, exp, at)?)) };
        let mut want = vec![json!({"chain": [trust(0, 0)?, trust(0, 2)?]})];
        for p in &peers {
            want.push(json!({"chain": [trust(0, 0)?, trust(0, 1)?, trust(1, *p)?]}));
        }
        let mut got = body["certs"].as_array().cloned().unwrap_or_default();
        got.sort_by_key(|v| v.to_string());
        want.sort_by_key(|v| v.to_string());
        for c in &want {
            ensure!(got.contains(c), "certificate-missing", "no certificate {c} in {body}");
        }
        ensure!(got == want, "certificate-unexpected", "certificates {body}, expected {}", json!(want));
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        level: "exploration",
        assumptions: &[
            "the Fluence client, the network lists and the file system are stand-ins; the tool's calls go through admin/aqua/export.aqua (interpreted) to a running service",
            "keys and nodes are Ed25519; a tool that uses what the stand-ins lack is not judged",
        ],
        subs: vec![Sub { name: "admin", quick: 600, thorough: 10_000, rule: "keys, nodes, environment, clock and at most one lost answer; non-trivial when a file must be written", f: c26_case }],
    }]
}
