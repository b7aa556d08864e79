//! Drives the real service code (its exported entry points) over real SQLite.
use crate::engine::*;
use crate::keys::*;
use marine_rs_sdk::{CallParameters, SecurityTetraplet};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU64, Ordering};

macro_rules! exports {
    ($($n:ident => $e:ident),* $(,)?) => {
        pub const EXPORTS: &[&str] = &[$(stringify!($n)),*];
        extern "Rust" { $(fn $e(args: Vec<Value>) -> Value;)* }
        fn dispatch(name: &str, args: Vec<Value>) -> Value {
            match name {
                $(stringify!($n) => unsafe { $e(args) },)*
                _ => panic!("harness: no such export {name}"),
            }
        }
    };
}
exports! {
    set_root => __marine_call_set_root,
    insert_cert_raw => __marine_call_insert_cert_raw,
    insert_cert => __marine_call_insert_cert,
    get_all_certs => __marine_call_get_all_certs,
    get_all_certs_from => __marine_call_get_all_certs_from,
    get_host_certs => __marine_call_get_host_certs,
    get_host_certs_from => __marine_call_get_host_certs_from,
    get_weight => __marine_call_get_weight,
    get_weight_from => __marine_call_get_weight_from,
    get_trust_bytes => __marine_call_get_trust_bytes,
    issue_trust => __marine_call_issue_trust,
    verify_trust => __marine_call_verify_trust,
    add_trust => __marine_call_add_trust,
    get_revocation_bytes => __marine_call_get_revocation_bytes,
    issue_revocation => __marine_call_issue_revocation,
    revoke => __marine_call_revoke,
    export_revocations => __marine_call_export_revocations,
}

/// Position of the "current time" argument of every call that has one.
pub fn time_arg(name: &str) -> Option<usize> {
    Some(match name {
        "get_host_certs" => 0,
        "get_all_certs" | "get_host_certs_from" | "get_weight" | "revoke" | "insert_cert" | "insert_cert_raw" => 1,
        "get_all_certs_from" | "get_weight_from" | "verify_trust" | "add_trust" => 2,
        _ => return None,
    })
}

pub fn scratch_root() -> String {
    if let Ok(d) = std::env::var("TG_SCRATCH") {
        return d;
    }
    for base in ["/dev/shm", "/tmp"] {
        let d = format!("{base}/tgcheck.{}", std::process::id());
        if std::fs::create_dir_all(&d).is_ok() && std::fs::write(format!("{d}/probe"), b"x").is_ok() {
            return d;
        }
    }
    panic!("harness: no scratch directory");
}

/// A scratch directory standing for the private filesystem of one service.
pub struct Dir(pub String);
static SEQ: AtomicU64 = AtomicU64::new(0);
impl Dir {
    pub fn new() -> Dir {
        let d = format!("{}/db{}.{}", scratch_root(), std::process::id(), SEQ.fetch_add(1, Ordering::Relaxed));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Dir(d)
    }
    pub fn copy(&self) -> Dir {
        let n = Dir::new();
        for e in std::fs::read_dir(&self.0).expect("scratch directory") {
            let e = e.expect("scratch entry");
            std::fs::copy(e.path(), format!("{}/{}", n.0, e.file_name().to_string_lossy())).expect("scratch copy");
        }
        n
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// One request to a service running in a thread of its own.
pub struct Req {
    pub name: String,
    pub args: Vec<Value>,
    pub tetraplets: Vec<Vec<SecurityTetraplet>>,
    pub init: String,
    pub fault: marine_sqlite_connector::Fault,
    pub reply: std::sync::mpsc::Sender<R<Value>>,
}
/// A handle on a running service of one host.
pub struct Node {
    pub host: String,
    pub owner: String,
    tx: std::sync::mpsc::Sender<Req>,
}
impl Node {
    pub fn call(&self, name: &str, args: Vec<Value>, tetraplets: Vec<Vec<SecurityTetraplet>>, init: &str, fault: marine_sqlite_connector::Fault) -> R<Value> {
        let (reply, rx) = std::sync::mpsc::channel();
        self.tx.send(Req { name: name.into(), args, tetraplets, init: init.into(), fault, reply }).expect("harness: service thread");
        rx.recv().expect("harness: service thread")
    }
    /// A direct call with the host's own clock.
    pub fn ask(&self, name: &str, args: Vec<Value>) -> R<Value> {
        let good = vec![SecurityTetraplet::new(self.host.clone(), "peer", "timestamp_sec", "")];
        let t = (0..args.len()).map(|i| if Some(i) == time_arg(name) { good.clone() } else { literal(&self.owner) }).collect();
        self.call(name, args, t, &self.owner, marine_sqlite_connector::Fault::None)
    }
}
/// Runs several services at once, each over its own directory.
pub fn network<T>(hosts: &[(String, String)], f: impl FnOnce(&[Node]) -> R<T>) -> R<T> {
    let dirs: Vec<Dir> = hosts.iter().map(|_| Dir::new()).collect();
    std::thread::scope(|s| {
        let mut nodes = vec![];
        for ((host, owner), dir) in hosts.iter().zip(&dirs) {
            let (tx, rx) = std::sync::mpsc::channel::<Req>();
            let (d, h, o) = (dir.0.clone(), host.clone(), owner.clone());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    use marine_sqlite_connector as sql;
                    let mut start = guard(|| open(&d, &h, &o));
                    while let Ok(r) = rx.recv() {
                        let v = match &mut start {
                            Err(e) => Err(e.clone()),
                            Ok(svc) => guard(|| {
                                svc.init = r.init.clone();
                                sql::set_budget(5_000_000);
                                sql::set_fault(r.fault);
                                svc.call_with(&r.name, r.args, r.tetraplets)
                            }),
                        };
                        sql::set_fault(sql::Fault::None);
                        let _ = r.reply.send(v);
                    }
                })
                .expect("harness: thread");
            nodes.push(Node { host: host.clone(), owner: owner.clone(), tx });
        }
        f(&nodes)
    })
}

/// Directories that the service's configuration maps for the database module.
fn mapped() -> Vec<String> {
    static M: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    M.get_or_init(|| {
        let repo = std::env::var("TG_REPO").unwrap_or_else(|_| "/repo".into());
        let toml = std::fs::read_to_string(format!("{repo}/service/Config.toml")).unwrap_or_default();
        let mut out = vec![];
        for l in toml.lines() {
            if let Some((_, r)) = l.split_once("mapped_dirs") {
                out.extend(r.split('"').skip(1).step_by(4).map(|d| d.trim_matches('/').to_string()).filter(|d| !d.is_empty()));
            }
        }
        out
    })
    .clone()
}
/// Starts the service on `dir` in a thread of its own (the service keeps its
/// instance in a thread local), runs `f`, and stops the service.
pub fn session<T: Send>(dir: &Dir, f: impl FnOnce(&mut Svc) -> R<T> + Send) -> R<T> {
    let d = dir.0.clone();
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                guard(|| {
                    let mut svc = open(&d, HOST, OWNER)?;
                    f(&mut svc)
                })
            })
            .expect("harness: thread")
            .join()
            .expect("harness: session thread")
    })
}

pub const HOST: &str = "12D3KooWBM3SdXWqGaawQDGQ6JprtwswEg3FWGvGhmgmMez1vRbR";
pub const OWNER: &str = "12D3KooWBUJifCTgaxAUrcM9JysqCcS4CS8tiYH5hExbdWCAoNwb";

pub struct Svc {
    pub host: String,
    pub owner: String,
    pub init: String,
    /// Calls made so far (decides who makes the next one).
    calls: u64,
    /// None: the service runs in this thread.
    remote: Option<Remote>,
}

// ------------------------------------------------- services in other processes
/// A service in a process of its own (see `isolated`).
struct Remote {
    child: std::process::Child,
    tx: std::process::ChildStdin,
    rx: std::io::BufReader<std::process::ChildStdout>,
}
const MARK: &str = "@tgcheck@ ";
impl Drop for Remote {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Remote {
    fn start(dir: &str) -> R<Remote> {
        use std::process::*;
        let exe = std::env::current_exe().expect("harness: own path");
        let mut child = Command::new(exe).arg("serve").arg(dir).env("TG_SERVE", "thread").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("harness: cannot start a process");
        let tx = child.stdin.take().unwrap();
        let rx = std::io::BufReader::new(child.stdout.take().unwrap());
        let mut r = Remote { child, tx, rx };
        r.ask(json!(null)).map(|_| r)
    }
    fn ask(&mut self, msg: Value) -> R<Value> {
        use std::io::{BufRead, Write};
        let mut line = msg.to_string();
        line.push('\n');
        let mut answer = String::new();
        if self.tx.write_all(line.as_bytes()).is_ok() {
            loop {
                answer.clear();
                match self.rx.read_line(&mut answer) {
                    Ok(n) if n > 0 && !answer.contains(MARK) => continue,
                    _ => break,
                }
            }
        }
        let Some((_, a)) = answer.split_once(MARK) else {
            return fail("process-crash", "the process of the service died");
        };
        let v: Value = serde_json::from_str(a).expect("harness: answer of a service process");
        marine_sqlite_connector::absorb(v["events"].as_u64().unwrap_or(0), v["fired"].as_u64().unwrap_or(0), fault_from(&v["fault"]));
        match v.get("ok") {
            Some(x) => Ok(x.clone()),
            None => Err(Fail { key: v["key"].as_str().unwrap_or("?").into(), msg: v["msg"].as_str().unwrap_or("?").into(), harness: v["harness"].as_bool().unwrap_or(true) }),
        }
    }
}
fn fault_to(f: marine_sqlite_connector::Fault) -> Value {
    use marine_sqlite_connector::Fault::*;
    match f {
        None => json!([0, 0]),
        Before(n) => json!([1, n]),
        After(n) => json!([2, n]),
        Crash(n) => json!([3, n]),
        Bind(n) => json!([4, n]),
    }
}
fn fault_from(v: &Value) -> marine_sqlite_connector::Fault {
    use marine_sqlite_connector::Fault::*;
    let n = v[1].as_u64().unwrap_or(0);
    match v[0].as_u64() {
        Some(1) => Before(n),
        Some(2) => After(n),
        Some(3) => Crash(n),
        Some(4) => Bind(n),
        _ => None,
    }
}
/// The other side: `tgcheck serve DIR` answers requests on stdin.
pub fn serve(dir: &str) {
    use marine_sqlite_connector as sql;
    use std::io::Write;
    let mut svc = guard(|| open(dir, HOST, OWNER));
    for line in std::io::stdin().lines() {
        let Ok(line) = line else { return };
        let q: Value = serde_json::from_str(&line).expect("harness: request");
        let r = match &mut svc {
            Err(e) => Err(e.clone()),
            Ok(_) if q.is_null() => Ok(json!(null)),
            Ok(svc) if q == json!("start") => guard(|| svc.start_again().map(|_| json!(null))),
            Ok(svc) => {
                let s = |v: &Value| v.as_str().unwrap_or_default().to_string();
                svc.host = s(&q["host"]);
                svc.owner = s(&q["owner"]);
                svc.init = s(&q["init"]);
                sql::set_budget(q["budget"].as_u64().unwrap_or(u64::MAX));
                sql::set_fault(fault_from(&q["fault"]));
                let list = |v: &Value| v.as_array().cloned().unwrap_or_default();
                let t = list(&q["tetraplets"]).iter().map(|a| list(a).iter().map(|t| SecurityTetraplet::new(s(&t[0]), s(&t[1]), s(&t[2]), s(&t[3]))).collect()).collect();
                guard(|| svc.call_with(&s(&q["name"]), list(&q["args"]), t))
            }
        };
        let (_, left) = sql::pending();
        let mut a = json!({"events": sql::events(), "fired": sql::fault_fired(), "fault": fault_to(left)});
        match r {
            Ok(v) => a["ok"] = v,
            Err(e) => {
                a["key"] = json!(e.key);
                a["msg"] = json!(e.msg);
                a["harness"] = json!(e.harness);
            }
        }
        let mut o = std::io::stdout();
        if writeln!(o, "\n{MARK}{a}").and_then(|_| o.flush()).is_err() {
            return;
        }
    }
}
/// Starts the service on `dir`, in this thread or in a process of its own.
fn open(dir: &str, host: &str, owner: &str) -> R<Svc> {
    use marine_sqlite_connector as sql;
    sql::set_budget(u64::MAX);
    sql::set_fault(sql::Fault::None);
    let remote = if isolated() {
        Some(Remote::start(dir)?)
    } else {
        sql::set_dir(Some(dir.to_string()));
        sql::set_mapped(mapped());
        no_panic("service start", tg_service::main)?;
        None
    };
    Ok(Svc { host: host.to_string(), owner: owner.to_string(), init: owner.to_string(), calls: 0, remote })
}
/// Whether every service needs a process of its own. The service keeps its
/// instance in a thread local, so that a thread is a service; code that keeps
/// state for the whole process is just as good in a WASM module. Decided by
/// running two histories both ways.
fn isolated() -> bool {
    static M: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    match std::env::var("TG_SERVE").as_deref() {
        Ok("thread") => return false,
        Ok("process") => return true,
        _ => {}
    }
    *M.get_or_init(|| {
        let exe = std::env::current_exe().expect("harness: own path");
        let run = |m: &str| std::process::Command::new(&exe).arg("probe").env("TG_SERVE", m).stderr(std::process::Stdio::null()).output().ok().map(|o| String::from_utf8_lossy(&o.stdout).lines().filter(|l| l.starts_with(MARK)).map(|l| l.to_string()).collect::<Vec<_>>());
        let together = run("thread");
        let apart = run("process");
        let r = together != apart;
        if r {
            eprintln!("the service keeps state for the whole process: every service gets a process of its own");
        }
        r
    })
}
/// `tgcheck probe`: several short histories one after another and at once.
pub fn probe() {
    let k = [ed(0), ed(1), ed(2), ed(3)];
    let trust = |by: usize, to: usize, at: u64| trust_json(k[to], &trust_graph::Trust::create(&k[by].kp, k[to].pk.clone(), secs(900), secs(at)));
    let look = |b: &Node, now: u64| -> Vec<Value> {
        let mut v = vec![];
        for x in k {
            for q in [("get_weight", vec![json!(x.peer), json!(now)]), ("get_all_certs", vec![json!(x.peer), json!(now)]), ("export_revocations", vec![json!(x.peer)])] {
                v.push(b.ask(q.0, q.1).unwrap_or_else(|e| json!(e.msg)));
            }
        }
        v
    };
    let steps = |r: usize, now: u64| -> Vec<(&'static str, Vec<Value>)> {
        let a = (r + 1) % 4;
        let c = (r + 2) % 4;
        let rev = trust_graph::Revocation::create(&k[a].kp, k[c].pk.clone(), secs(30));
        vec![
            ("set_root", vec![json!(k[r].peer), json!(3 + r)]),
            ("add_trust", vec![trust(r, r, 10), json!(k[r].peer), json!(now)]),
            ("add_trust", vec![trust(r, a, 11), json!(k[r].peer), json!(now)]),
            ("add_trust", vec![trust(a, c, 12), json!(k[a].peer), json!(now)]),
            ("revoke", vec![rev_json(k[a], k[c], &rev), json!(now)]),
        ]
    };
    let hosts = [(HOST.to_string(), OWNER.to_string()), (ed(7).peer.clone(), OWNER.to_string())];
    let out = network(&hosts, |n| {
        let mut v = vec![];
        let (s0, s1) = (steps(0, 100), steps(1, 200));
        for i in 0..s0.len() {
            v.push(n[0].ask(s0[i].0, s0[i].1.clone()).unwrap_or_else(|e| json!(e.msg)));
            v.extend(look(&n[0], 101));
            v.extend(look(&n[1], 201));
            v.push(n[1].ask(s1[i].0, s1[i].1.clone()).unwrap_or_else(|e| json!(e.msg)));
            v.extend(look(&n[1], 202));
        }
        v.extend(look(&n[0], 1000));
        Ok(v)
    });
    let again = network(&hosts, |n| Ok([look(&n[0], 50), look(&n[1], 50)].concat()));
    for v in [out, again] {
        match v {
            Ok(v) => v.iter().for_each(|x| println!("\n{MARK}{x}")),
            Err(e) => println!("\n{MARK}{}", e.msg),
        }
    }
}

/// The peer ids among the strings of an argument.
fn peers_in(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::String(s) if (40..=60).contains(&s.len()) && (s.starts_with("12D3Koo") || s.starts_with("16Uiu2")) => out.push(s.clone()),
        Value::Array(a) => a.iter().for_each(|x| peers_in(x, out)),
        Value::Object(o) => o.values().for_each(|x| peers_in(x, out)),
        _ => {}
    }
}
pub fn literal(peer: &str) -> Vec<SecurityTetraplet> {
    vec![SecurityTetraplet::new(peer, "", "", "")]
}
impl Svc {
    pub fn good(&self) -> Vec<SecurityTetraplet> {
        vec![SecurityTetraplet::new(self.host.clone(), "peer", "timestamp_sec", "")]
    }
    pub fn tetraplets(&self, name: &str, nargs: usize) -> Vec<Vec<SecurityTetraplet>> {
        (0..nargs).map(|i| if Some(i) == time_arg(name) { self.good() } else { literal(&self.init) }).collect()
    }
    pub fn call_with(&mut self, name: &str, args: Vec<Value>, tetraplets: Vec<Vec<SecurityTetraplet>>) -> R<Value> {
        if let Some(r) = &mut self.remote {
            let (budget, fault) = marine_sqlite_connector::pending();
            let t: Vec<Value> = tetraplets.iter().map(|a| a.iter().map(|t| json!([t.peer_pk, t.service_id, t.function_name, t.json_path])).collect()).collect();
            return r.ask(json!({"name": name, "args": args, "tetraplets": t, "host": self.host, "owner": self.owner, "init": self.init, "budget": budget, "fault": fault_to(fault)}));
        }
        marine_rs_sdk::inject_call_parameters(CallParameters {
            init_peer_id: self.init.clone(),
            service_id: "trust-graph".into(),
            service_creator_peer_id: self.owner.clone(),
            host_id: self.host.clone(),
            particle_id: "particle".into(),
            tetraplets,
        });
        no_panic(&format!("service call {name}"), || dispatch(name, args))
    }
    /// The service's start code once more, on the database it has open.
    pub fn start_again(&mut self) -> R {
        match &mut self.remote {
            Some(r) => r.ask(json!("start")).map(|_| ()),
            None => no_panic("second service start", tg_service::main),
        }
    }
    /// Except for roots, who makes a call does not matter: it is made by the peers named in it, the host and the owner
    /// in turn.
    pub fn call(&mut self, name: &str, args: Vec<Value>) -> R<Value> {
        let init = self.init.clone();
        self.calls += 1;
        if name != "set_root" {
            let mut who = vec![init.clone(), self.host.clone()];
            args.iter().for_each(|a| peers_in(a, &mut who));
            let x = self.calls.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 33;
            self.init = who.swap_remove(x as usize % who.len());
        }
        let t = self.tetraplets(name, args.len());
        let r = self.call_with(name, args, t);
        self.init = init;
        r
    }
}

pub fn exported(name: &str) -> bool {
    EXPORTS.contains(&name)
}
/// Success value or the error text of a service answer.
pub fn ok(v: &Value) -> Result<&Value, String> {
    if v["success"].as_bool() == Some(true) {
        Ok(v)
    } else {
        Err(v["error"].as_str().unwrap_or("?").to_string())
    }
}

pub fn sig_type(f: fluence_keypair::KeyFormat) -> &'static str {
    match f {
        fluence_keypair::KeyFormat::Ed25519 => "ed25519",
        fluence_keypair::KeyFormat::Secp256k1 => "secp256k1",
        fluence_keypair::KeyFormat::Rsa => "rsa",
    }
}
pub fn trust_json(to: &Key, t: &trust_graph::Trust) -> Value {
    json!({"issued_for": to.peer, "expires_at": t.expires_at.as_secs(), "issued_at": t.issued_at.as_secs(),
           "signature": b58(t.signature.to_vec()), "sig_type": sig_type(t.signature.get_signature_type())})
}
pub fn rev_json(by: &Key, to: &Key, r: &trust_graph::Revocation) -> Value {
    json!({"revoked_peer_id": to.peer, "revoked_at": r.revoked_at.as_secs(), "revoked_by": by.peer,
           "signature": b58(r.signature.to_vec()), "sig_type": sig_type(r.signature.get_signature_type())})
}
