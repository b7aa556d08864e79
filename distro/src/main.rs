//! Answers what the distribution crate hands out, and reads certificate data with its types.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use trust_graph_distro as d;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn view(c: &d::Certs) -> Value {
    let certs: Vec<Value> = c
        .certs
        .iter()
        .map(|c| {
            let chain: Vec<Value> = c
                .chain
                .iter()
                .map(|t| json!({"issued_for": t.issued_for, "expires_at": t.expires_at, "signature": t.signature, "sig_type": t.sig_type, "issued_at": t.issued_at}))
                .collect();
            json!({ "chain": chain })
        })
        .collect();
    json!({"root_node": c.root_node, "max_chain_length": c.max_chain_length, "certs": certs})
}
fn main() {
    let mut out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { return };
        let a = if l == "dump" {
            let modules: Vec<Value> = d::modules().into_iter().map(|(k, v)| json!([k.to_string(), hex(v.as_ref())])).collect();
            json!({"modules": modules, "trust_graph": hex(d::TRUST_GRAPH_WASM), "sqlite": hex(d::SQLITE_WASM), "config": hex(d::CONFIG), "text": d::KRAS_CERTS_JSON, "version": d::VERSION, "certs": view(&d::KRAS_CERTS)})
        } else {
            match serde_json::from_str::<d::Certs>(&l) {
                Ok(c) => json!({"read": view(&c), "written": serde_json::to_value(&c).unwrap_or(Value::Null)}),
                Err(e) => json!({"error": e.to_string()}),
            }
        };
        if writeln!(out, "{a}").and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}
