//! C28: what the distribution crate hands out. The probe (distro/) is built
//! from a copy of the crate with generated stand-ins for the WASM files.
use crate::engine::*;
use crate::ensure;
use crate::keys::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Probe {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}
impl Drop for Probe {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn here() -> String {
    format!("{}/target", std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
impl Probe {
    fn start() -> Option<Probe> {
        let mut child = Command::new(format!("{}/distro/release/distro-probe", here())).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
        let (tx, rx) = (child.stdin.take()?, BufReader::new(child.stdout.take()?));
        Some(Probe { child, tx, rx })
    }
    fn ask(&mut self, q: &str) -> Option<Value> {
        writeln!(self.tx, "{q}").and_then(|_| self.tx.flush()).ok()?;
        let mut l = String::new();
        self.rx.read_line(&mut l).ok()?;
        serde_json::from_str(&l).ok()
    }
}
thread_local!(static PROBE: RefCell<Option<Probe>> = const { RefCell::new(None) });
/// The probe's answer; None if it could not be built, an error if it died.
fn ask(q: &str) -> R<Option<Value>> {
    PROBE.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            *p = Probe::start();
        }
        let Some(x) = p.as_mut() else { return Ok(None) };
        match x.ask(q) {
            Some(v) => Ok(Some(v)),
            None => {
                *p = None;
                fail("crate-crashes", format!("the distribution crate gave no answer to {}", &q.chars().take(300).collect::<String>()))
            }
        }
    })
}

fn text(s: &mut Src) -> String {
    match s.weighted(&[4, 2, 1, 1]) {
        0 => ed(s.idx(N_ED)).peer.clone(),
        1 => bs58::encode(s.bytes(64)).into_string(),
        2 => String::new(),
        _ => s.list(4, 12, |s: &mut Src| *s.pick(&['a', 'Z', ' ', '"', '\\', '\n', '\u{e9}', '\u{1f600}', '\0', '/'])).into_iter().collect(),
    }
}
fn c28_data(s: &mut Src, ctx: &mut Ctx) -> R {
    let chain = |s: &mut Src| {
        let ts = s.list(2, 5, |s: &mut Src| {
            json!({"issued_for": text(s), "expires_at": s.u64any(), "signature": text(s), "sig_type": *s.pick(&["ed25519", "secp256k1", "rsa"]), "issued_at": s.u64any()})
        });
        json!({ "chain": ts })
    };
    let max = match s.idx(3) {
        0 => s.idx(20) as u32,
        1 => u32::MAX,
        _ => s.draw(u32::MAX as u64) as u32,
    };
    let root = text(s);
    let certs = s.list(2, 6, chain);
    let v = json!({"root_node": root, "max_chain_length": max, "certs": certs});
    ctx.say(|| v.to_string());
    let Some(a) = ask(&v.to_string())? else {
        ctx.label("the distribution crate does not build here");
        return Ok(());
    };
    ctx.checks += 1;
    if v["certs"].as_array().map_or(false, |c| c.iter().any(|c| !c["chain"].as_array().map_or(true, |t| t.is_empty()))) {
        ctx.hit();
    }
    ensure!(a.get("error").is_none(), "data-refused", "the crate cannot read {v}: {}", a["error"]);
    ensure!(a["read"] == v, "data-misread", "the crate reads {v} as {}", a["read"]);
    ensure!(a["written"] == v, "data-miswritten", "the crate writes {v} as {}", a["written"]);
    Ok(())
}
fn c28_crate(s: &mut Src, ctx: &mut Ctx) -> R {
    // the order of questions is all that varies
    for _ in 0..s.idx(3) {
        let _ = ask("{\"root_node\":\"x\",\"max_chain_length\":1,\"certs\":[]}")?;
    }
    let Some(a) = ask("dump")? else {
        ctx.label("the distribution crate does not build here");
        return Ok(());
    };
    ctx.hit();
    ctx.checks += 1;
    let hex = |b: Vec<u8>| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    let packed = |f: &str| std::fs::read(format!("{}/distro-src/trust-graph-service/{f}", here())).map_err(|e| Fail { key: "harness".into(), msg: format!("{f}: {e}"), harness: true });
    let (tg, sq, cf) = (hex(packed("trust-graph.wasm")?), hex(packed("sqlite3.wasm")?), packed("Config.toml")?);
    ensure!(a["trust_graph"] == json!(tg), "wrong-module", "TRUST_GRAPH_WASM is not the packaged trust-graph.wasm");
    ensure!(a["sqlite"] == json!(sq), "wrong-module", "SQLITE_WASM is not the packaged sqlite3.wasm");
    ensure!(a["config"] == json!(hex(cf.clone())), "wrong-config", "CONFIG is not the packaged Config.toml");
    let mut got: Vec<(String, String)> = a["modules"].as_array().into_iter().flatten().map(|m| (m[0].as_str().unwrap_or("").to_string(), m[1].as_str().unwrap_or("").to_string())).collect();
    got.sort();
    let names: Vec<&String> = got.iter().map(|m| &m.0).collect();
    ensure!(got == [("sqlite3".to_string(), sq), ("trust-graph".to_string(), tg)], "wrong-module", "modules() gives {names:?}, or another module's code under one of them");
    // the configuration loads these modules, the database before its user
    let mut listed = vec![];
    let mut inside = false;
    for l in String::from_utf8_lossy(&cf).lines().map(|l| l.trim()) {
        if l.starts_with('[') {
            inside = l.replace(' ', "") == "[[module]]";
        } else if inside && l.split('=').next().map(|k| k.trim()) == Some("name") {
            listed.push(l.split(['"', '\'']).nth(1).unwrap_or("").to_string());
        }
    }
    ensure!(listed == ["sqlite3", "trust-graph"], "wrong-config", "the configuration lists the modules {listed:?}");
    let shipped: Value = serde_json::from_slice(&packed("init_certs.json")?).map_err(|e| Fail { key: "shipped-data-broken".into(), msg: e.to_string(), harness: false })?;
    for k in ["root_node", "max_chain_length", "certs"] {
        ensure!(a["certs"][k] == shipped[k], "certs-differ", "KRAS_CERTS differs from init_certs.json in {k}");
    }
    ensure!(serde_json::from_str::<Value>(a["text"].as_str().unwrap_or("")).ok() == Some(shipped), "certs-differ", "KRAS_CERTS_JSON is not the packaged init_certs.json");
    let toml = std::fs::read_to_string(format!("{}/distro-src/Cargo.toml", here())).unwrap_or_default();
    if let Some(v) = toml.lines().find_map(|l| l.strip_prefix("version = \"")).and_then(|l| l.split('"').next()) {
        ensure!(a["version"] == json!(v), "wrong-version", "VERSION is {}, the package's {v}", a["version"]);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        level: "exploration",
        assumptions: &["the WASM files, which the repository does not hold, are random bytes"],
        subs: vec![
            Sub { name: "data", quick: 40_000, thorough: 1_000_000, rule: "generated root, maximum chain length and certificates; non-trivial when there is a trust", f: c28_data },
            Sub { name: "crate", quick: 20, thorough: 200, rule: "the crate's own data compared with the packaged files; all non-trivial", f: c28_crate },
        ],
    }]
}
