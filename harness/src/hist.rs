//! Histories of graph operations, the two implementations they are run on
//! (library over an in-memory store, service over SQLite), and the comparison
//! of everything observable with the reference model.
use crate::engine::*;
use crate::ensure;
use crate::keys::*;
use crate::memstore::{self, MemStore};
use crate::model::{self, Model, Rel};
use crate::svc::{self, Svc};
use fluence_keypair::Signature;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use trust_graph::{Certificate, Revocation, Trust, TrustGraph};

pub struct World {
    pub keys: Vec<&'static Key>,
    by_enc: HashMap<Vec<u8>, usize>,
    by_peer: HashMap<String, usize>,
}
impl World {
    pub fn new(keys: Vec<&'static Key>) -> World {
        let by_enc = keys.iter().enumerate().map(|(i, k)| (k.enc.clone(), i)).collect();
        let by_peer = keys.iter().enumerate().map(|(i, k)| (k.peer.clone(), i)).collect();
        World { keys, by_enc, by_peer }
    }
    pub fn n(&self) -> usize {
        self.keys.len()
    }
    pub fn node(&self, pk: &fluence_keypair::PublicKey) -> R<usize> {
        match self.by_enc.get(&pk.encode()) {
            Some(i) => Ok(*i),
            None => fail("foreign-key", format!("an answer mentions a key that was never used: {pk:?}")),
        }
    }
    pub fn trust(&self, t: &Trust) -> R<model::T> {
        Ok(model::T { to: self.node(&t.issued_for)?, exp: t.expires_at.as_secs(), at: t.issued_at.as_secs(), sig: t.signature.encode() })
    }
    pub fn cert(&self, c: &Certificate) -> R<model::Cert> {
        c.chain.iter().map(|t| self.trust(t)).collect()
    }
    pub fn trust_of_json(&self, v: &Value) -> R<model::T> {
        let peer = v["issued_for"].as_str().unwrap_or("");
        let Some(to) = self.by_peer.get(peer) else {
            return fail("foreign-key", format!("an answer mentions a peer that was never used: {v}"));
        };
        Ok(model::T {
            to: *to,
            exp: v["expires_at"].as_u64().unwrap_or(0),
            at: v["issued_at"].as_u64().unwrap_or(0),
            sig: sig_of_json(v)?,
        })
    }
}
pub fn sig_of_json(v: &Value) -> R<Vec<u8>> {
    let ty = match v["sig_type"].as_str() {
        Some("ed25519") => 0u8,
        Some("rsa") => 1,
        Some("secp256k1") => 2,
        x => return fail("bad-answer", format!("unknown signature type {x:?} in an answer")),
    };
    let mut s = vec![ty];
    match bs58::decode(v["signature"].as_str().unwrap_or("0")).into_vec() {
        Ok(b) => s.extend(b),
        Err(e) => return fail("bad-answer", format!("signature in an answer is not base58: {e}")),
    }
    Ok(s)
}

// ------------------------------------------------------------------ backends
pub type Revs = Vec<(usize, u64, Vec<u8>)>;
pub trait Backend {
    fn kind(&self) -> &'static str;
    fn set_root(&mut self, w: &World, n: usize, max: u32) -> R<Result<(), String>>;
    fn add_trust(&mut self, w: &World, t: &Trust, to: usize, by: usize, now: u64) -> R<Result<u32, String>>;
    fn add_cert(&mut self, w: &World, c: &Certificate, tos: &[usize], now: u64) -> R<Result<(), String>>;
    fn add_cert_text(&mut self, w: &World, text: &str, now: u64) -> R<Result<(), String>>;
    fn revoke(&mut self, w: &World, r: &Revocation, by: usize, to: usize, now: u64) -> R<Result<(), String>>;
    fn certs(&mut self, w: &World, n: usize, now: u64) -> R<Result<Vec<model::Cert>, String>>;
    fn certs_from(&mut self, w: &World, n: usize, issuer: usize, now: u64) -> R<Result<Vec<model::Cert>, String>>;
    fn weight(&mut self, w: &World, n: usize, now: u64) -> R<Result<u32, String>>;
    fn weight_from(&mut self, w: &World, n: usize, issuer: usize, now: u64) -> R<Result<u32, String>>;
    fn revocations(&mut self, w: &World, n: usize) -> R<Result<Revs, String>>;
    /// Allows the next call work proportional to `p` partial chains.
    fn allow(&mut self, p: u64);
}

pub struct Core {
    pub tg: TrustGraph<MemStore>,
    pub store: MemStore,
}
impl Core {
    pub fn new(s: &mut Src) -> Core {
        Core::over(MemStore::new(s))
    }
    pub fn over(store: MemStore) -> Core {
        Core { tg: TrustGraph::new(store.clone()), store }
    }
    pub fn raw_certs(&mut self, w: &World, n: usize, now: u64) -> R<Result<Vec<Certificate>, String>> {
        no_panic("get_all_certs", || self.tg.get_all_certs(w.keys[n].pk.clone(), secs(now)).map_err(|e| e.to_string()))
    }
}
impl Backend for Core {
    fn kind(&self) -> &'static str {
        "library"
    }
    fn set_root(&mut self, w: &World, n: usize, max: u32) -> R<Result<(), String>> {
        no_panic("set_root", || self.tg.set_root(w.keys[n].pk.clone(), max).map_err(|e| e.to_string()))
    }
    fn add_trust(&mut self, w: &World, t: &Trust, _to: usize, by: usize, now: u64) -> R<Result<u32, String>> {
        no_panic("add_trust", || self.tg.add_trust(t, w.keys[by].pk.clone(), secs(now)).map_err(|e| e.to_string()))
    }
    fn add_cert(&mut self, _w: &World, c: &Certificate, _tos: &[usize], now: u64) -> R<Result<(), String>> {
        no_panic("add", || self.tg.add(c, secs(now)).map_err(|e| e.to_string()))
    }
    fn add_cert_text(&mut self, _w: &World, text: &str, now: u64) -> R<Result<(), String>> {
        no_panic("add of a text certificate", || {
            let c = std::str::FromStr::from_str(text).map_err(|e: trust_graph::CertificateError| e.to_string())?;
            let c: Certificate = c;
            self.tg.add(c, secs(now)).map_err(|e| e.to_string())
        })
    }
    fn revoke(&mut self, _w: &World, r: &Revocation, _by: usize, _to: usize, _now: u64) -> R<Result<(), String>> {
        no_panic("revoke", || self.tg.revoke(r.clone()).map_err(|e| e.to_string()))
    }
    fn certs(&mut self, w: &World, n: usize, now: u64) -> R<Result<Vec<model::Cert>, String>> {
        match self.raw_certs(w, n, now)? {
            Ok(v) => Ok(Ok(v.iter().map(|c| w.cert(c)).collect::<R<_>>()?)),
            Err(e) => Ok(Err(e)),
        }
    }
    fn certs_from(&mut self, w: &World, n: usize, issuer: usize, now: u64) -> R<Result<Vec<model::Cert>, String>> {
        match no_panic("get_all_certs_from", || self.tg.get_all_certs_from(w.keys[n].pk.clone(), w.keys[issuer].pk.clone(), secs(now)).map_err(|e| e.to_string()))? {
            Ok(v) => Ok(Ok(v.iter().map(|c| w.cert(c)).collect::<R<_>>()?)),
            Err(e) => Ok(Err(e)),
        }
    }
    fn weight(&mut self, w: &World, n: usize, now: u64) -> R<Result<u32, String>> {
        no_panic("weight", || self.tg.weight(w.keys[n].pk.clone(), secs(now)).map_err(|e| e.to_string()))
    }
    fn weight_from(&mut self, w: &World, n: usize, issuer: usize, now: u64) -> R<Result<u32, String>> {
        no_panic("weight_from", || self.tg.weight_from(w.keys[n].pk.clone(), w.keys[issuer].pk.clone(), secs(now)).map_err(|e| e.to_string()))
    }
    fn revocations(&mut self, w: &World, n: usize) -> R<Result<Revs, String>> {
        match no_panic("get_revocations", || self.tg.get_revocations(w.keys[n].pk.clone()).map_err(|e| e.to_string()))? {
            Ok(v) => {
                let mut out = vec![];
                for r in v {
                    ensure!(w.node(&r.pk)? == n, "revocations-differ", "a revocation listed for {} names another peer", w.keys[n].name);
                    out.push((w.node(&r.revoked_by)?, r.revoked_at.as_secs(), r.signature.encode()));
                }
                Ok(Ok(out))
            }
            Err(e) => Ok(Err(e)),
        }
    }
    fn allow(&mut self, p: u64) {
        memstore::set_budget(p.saturating_mul(20).saturating_add(400));
    }
}

impl Svc {
    fn certs_answer(&self, w: &World, v: Value) -> R<Result<Vec<model::Cert>, String>> {
        match svc::ok(&v) {
            Err(e) => {
                ensure!(v["certificates"].as_array().map_or(true, |a| a.is_empty()), "failed-with-data", "a failed call returned certificates: {v}");
                Ok(Err(e))
            }
            Ok(v) => {
                let mut out = vec![];
                for c in v["certificates"].as_array().into_iter().flatten() {
                    let c: R<model::Cert> = c["chain"].as_array().into_iter().flatten().map(|t| w.trust_of_json(t)).collect();
                    out.push(c?);
                }
                Ok(Ok(out))
            }
        }
    }
    fn weight_answer(&self, peer: &str, v: Value) -> R<Result<u32, String>> {
        match svc::ok(&v) {
            Err(e) => {
                ensure!(v["weight"].as_u64() == Some(0), "failed-with-data", "a failed call returned a weight: {v}");
                Ok(Err(e))
            }
            Ok(v) => {
                ensure!(v["peer_id"].as_str() == Some(peer), "bad-answer", "weight answer names another peer: {v}");
                Ok(Ok(v["weight"].as_u64().unwrap_or(u64::MAX) as u32))
            }
        }
    }
    pub fn cert_json(w: &World, c: &Certificate, tos: &[usize]) -> Value {
        let chain: Vec<Value> = c.chain.iter().zip(tos).map(|(t, n)| svc::trust_json(w.keys[*n], t)).collect();
        json!({ "chain": chain })
    }
}
impl Backend for Svc {
    fn kind(&self) -> &'static str {
        "service"
    }
    fn set_root(&mut self, w: &World, n: usize, max: u32) -> R<Result<(), String>> {
        let v = self.call("set_root", vec![json!(w.keys[n].peer), json!(max)])?;
        Ok(svc::ok(&v).map(|_| ()))
    }
    fn add_trust(&mut self, w: &World, t: &Trust, to: usize, by: usize, now: u64) -> R<Result<u32, String>> {
        let v = self.call("add_trust", vec![svc::trust_json(w.keys[to], t), json!(w.keys[by].peer), json!(now)])?;
        match svc::ok(&v) {
            Ok(v) => Ok(Ok(v["weight"].as_u64().unwrap_or(u64::MAX) as u32)),
            Err(e) => {
                ensure!(v["weight"].as_u64() == Some(0), "failed-with-data", "a failed add_trust reported a weight: {v}");
                Ok(Err(e))
            }
        }
    }
    fn add_cert(&mut self, w: &World, c: &Certificate, tos: &[usize], now: u64) -> R<Result<(), String>> {
        let v = self.call("insert_cert", vec![Svc::cert_json(w, c, tos), json!(now)])?;
        Ok(svc::ok(&v).map(|_| ()))
    }
    fn add_cert_text(&mut self, _w: &World, text: &str, now: u64) -> R<Result<(), String>> {
        let v = self.call("insert_cert_raw", vec![json!(text), json!(now)])?;
        Ok(svc::ok(&v).map(|_| ()))
    }
    fn revoke(&mut self, w: &World, r: &Revocation, by: usize, to: usize, now: u64) -> R<Result<(), String>> {
        let v = self.call("revoke", vec![svc::rev_json(w.keys[by], w.keys[to], r), json!(now)])?;
        Ok(svc::ok(&v).map(|_| ()))
    }
    fn certs(&mut self, w: &World, n: usize, now: u64) -> R<Result<Vec<model::Cert>, String>> {
        let v = self.call("get_all_certs", vec![json!(w.keys[n].peer), json!(now)])?;
        self.certs_answer(w, v)
    }
    fn certs_from(&mut self, w: &World, n: usize, issuer: usize, now: u64) -> R<Result<Vec<model::Cert>, String>> {
        let v = self.call("get_all_certs_from", vec![json!(w.keys[n].peer), json!(w.keys[issuer].peer), json!(now)])?;
        self.certs_answer(w, v)
    }
    fn weight(&mut self, w: &World, n: usize, now: u64) -> R<Result<u32, String>> {
        let v = self.call("get_weight", vec![json!(w.keys[n].peer), json!(now)])?;
        self.weight_answer(&w.keys[n].peer, v)
    }
    fn weight_from(&mut self, w: &World, n: usize, issuer: usize, now: u64) -> R<Result<u32, String>> {
        let v = self.call("get_weight_from", vec![json!(w.keys[n].peer), json!(w.keys[issuer].peer), json!(now)])?;
        self.weight_answer(&w.keys[n].peer, v)
    }
    fn revocations(&mut self, w: &World, n: usize) -> R<Result<Revs, String>> {
        let v = self.call("export_revocations", vec![json!(w.keys[n].peer)])?;
        match svc::ok(&v) {
            Err(e) => Ok(Err(e)),
            Ok(v) => {
                let mut out = vec![];
                for r in v["revocations"].as_array().into_iter().flatten() {
                    ensure!(r["revoked_peer_id"].as_str() == Some(&w.keys[n].peer), "revocations-differ", "a revocation listed for {} names another peer: {r}", w.keys[n].name);
                    let by = w.keys.iter().position(|k| r["revoked_by"].as_str() == Some(&k.peer));
                    let Some(by) = by else { return fail("foreign-key", format!("unknown revoker {r}")) };
                    out.push((by, r["revoked_at"].as_u64().unwrap_or(0), sig_of_json(r)?));
                }
                Ok(Ok(out))
            }
        }
    }
    fn allow(&mut self, p: u64) {
        marine_sqlite_connector::set_budget(p.saturating_mul(200).saturating_add(4000));
    }
}
impl Svc {
    pub fn host_certs(&mut self, w: &World, now: u64) -> R<Result<Vec<model::Cert>, String>> {
        let v = self.call("get_host_certs", vec![json!(now)])?;
        self.certs_answer(w, v)
    }
    pub fn host_certs_from(&mut self, w: &World, issuer: usize, now: u64) -> R<Result<Vec<model::Cert>, String>> {
        let v = self.call("get_host_certs_from", vec![json!(w.keys[issuer].peer), json!(now)])?;
        self.certs_answer(w, v)
    }
}

// ------------------------------------------------------------------ rendering
pub fn show_cert(w: &World, c: &model::Cert) -> String {
    c.iter().map(|t| w.keys[t.to].name.clone()).collect::<Vec<_>>().join(">")
}
pub fn show_certs<'a>(w: &World, cs: impl IntoIterator<Item = &'a model::Cert>) -> String {
    let v: Vec<String> = cs.into_iter().map(|c| show_cert(w, c)).collect();
    format!("[{}]", v.join(", "))
}

// ------------------------------------------------------------------- checking
pub const WORK_CAP: u64 = 30_000;

/// Set of certificates without duplicates.
pub fn as_set(w: &World, who: usize, v: Vec<model::Cert>) -> R<BTreeSet<model::Cert>> {
    let n = v.len();
    let s: BTreeSet<model::Cert> = v.into_iter().collect();
    ensure!(s.len() == n, "duplicate-certificate", "the certificates of {} contain a duplicate", w.keys[who].name);
    Ok(s)
}

/// Compares everything a caller can see at `now` with the model.
/// The model is advanced (expired trusts dropped) as the query does.
pub fn observe(b: &mut dyn Backend, m: &mut Model, w: &World, now: u64, ctx: &mut Ctx, who: &[usize]) -> R {
    m.gc(now);
    for &n in who {
        let p = m.partial_chains(n, WORK_CAP + 1);
        if p > WORK_CAP {
            ctx.label("skipped: too many partial chains");
            continue;
        }
        let want = m.certs(n);
        if !want.is_empty() {
            ctx.hit();
        }
        b.allow(p);
        let got = match b.certs(w, n, now)? {
            Ok(v) => as_set(w, n, v)?,
            Err(e) => return fail("query-failed", format!("certificates of {} at {now}: {e}", w.keys[n].name)),
        };
        ctx.checks += 1;
        if got != want {
            let extra: Vec<_> = got.difference(&want).collect();
            let missing: Vec<_> = want.difference(&got).collect();
            return fail("certificates-differ", format!("certificates of {} at {now}: unexpected {}, missing {}", w.keys[n].name, show_certs(w, extra), show_certs(w, missing)));
        }
        b.allow(p);
        let ww = m.weight(n);
        let gw = match b.weight(w, n, now)? {
            Ok(x) => x,
            Err(e) => return fail("query-failed", format!("weight of {} at {now}: {e}", w.keys[n].name)),
        };
        ctx.checks += 1;
        ensure!(gw == ww, "weight-differs", "weight of {} at {now} is {gw}, expected {ww}", w.keys[n].name);
        let wr = m.revocations(n);
        let gr = match b.revocations(w, n)? {
            Ok(v) => {
                let k = v.len();
                let s: BTreeSet<_> = v.into_iter().collect();
                ensure!(s.len() == k, "revocations-differ", "duplicate revocations of {}", w.keys[n].name);
                s
            }
            Err(e) => return fail("query-failed", format!("revocations of {}: {e}", w.keys[n].name)),
        };
        ctx.checks += 1;
        ensure!(gr == wr, "revocations-differ", "revocations of {}: got {} expected {}", w.keys[n].name, gr.len(), wr.len());
    }
    Ok(())
}

/// A query, so that expired trusts are certainly collected.
pub fn settle(b: &mut dyn Backend, w: &World, m: &mut Model, now: u64) -> R {
    m.gc(now);
    let (p, n) = (0..w.n()).map(|n| (m.partial_chains(n, WORK_CAP + 1), n)).min().unwrap();
    b.allow(if p > WORK_CAP { 100 * WORK_CAP } else { p });
    match b.weight(w, n, now)? {
        Ok(_) => Ok(()),
        Err(e) => fail("query-failed", format!("weight of {} at {now}: {e}", w.keys[n].name)),
    }
}

// ------------------------------------------------------------------ operations
#[derive(Clone, Debug)]
pub enum Op {
    Root { n: usize, max: u32 },
    Trust { by: usize, to: usize, exp: u64, at: u64 },
    /// A trust that must be refused: `how` says what is wrong.
    BadTrust { by: usize, to: usize, exp: u64, at: u64, how: u8 },
    Revoke { by: usize, to: usize, at: u64 },
    BadRevoke { by: usize, to: usize, at: u64, how: u8 },
    /// A certificate given as a list of (issuer, recipient, exp, at).
    Cert { ts: Vec<(usize, usize, u64, u64)> },
    Tick { dt: u64 },
    Query { n: usize },
}
pub fn show_op(w: &World, o: &Op) -> String {
    let k = |n: &usize| w.keys[*n].name.clone();
    match o {
        Op::Root { n, max } => format!("set_root({}, {max})", k(n)),
        Op::Trust { by, to, exp, at } => format!("add_trust({} -> {}, issued {at}, expires {exp})", k(by), k(to)),
        Op::BadTrust { by, to, exp, at, how } => format!("add_trust(FORGED#{how} {} -> {}, issued {at}, expires {exp})", k(by), k(to)),
        Op::Revoke { by, to, at } => format!("revoke({} -x-> {}, at {at})", k(by), k(to)),
        Op::BadRevoke { by, to, at, how } => format!("revoke(FORGED#{how} {} -x-> {}, at {at})", k(by), k(to)),
        Op::Cert { ts } => format!("insert_cert({})", ts.iter().map(|(b, t, e, a)| format!("{}->{} issued {a} exp {e}", k(b), k(t))).collect::<Vec<_>>().join("; ")),
        Op::Tick { dt } => format!("clock += {dt}"),
        Op::Query { n } => format!("query({})", k(n)),
    }
}

#[derive(Clone)]
pub struct Gen {
    pub roots: u64,
    pub trust: u64,
    pub bad_trust: u64,
    pub revoke: u64,
    pub bad_revoke: u64,
    pub cert: u64,
    pub tick: u64,
    pub query: u64,
    pub mean: u64,
    pub max: usize,
}
impl Default for Gen {
    fn default() -> Self {
        Gen { roots: 3, trust: 50, bad_trust: 4, revoke: 12, bad_revoke: 2, cert: 4, tick: 6, query: 8, mean: 18, max: 40 }
    }
}

pub const MAX_LENS: [u32; 16] = [5, 2, 3, 1, 4, 0, 8, 15, 16, 17, 20, 255, 256, 65_536, u32::MAX - 1, u32::MAX];
pub fn max_len(s: &mut Src) -> u32 {
    if s.chance(25) {
        *s.pick(&MAX_LENS)
    } else {
        *s.pick(&[5, 4, 3, 2, 6, 1])
    }
}
/// First reading of the clock.
pub fn epoch(s: &mut Src) -> u64 {
    match s.weighted(&[6, 1, 1, 1, 1, 1, 1]) {
        0 => 1000,
        6 => s.draw(40),
        1 => (1 << 31) - 60,
        2 => (1 << 32) - 60,
        3 => (1 << 63) - 60,
        4 => u64::MAX - 5000,
        _ => 1_700_000_000,
    }
}
pub fn gen_exp(s: &mut Src, now: u64) -> u64 {
    match s.weighted(&[6, 5, 1, 2, 2]) {
        0 => now.saturating_add(1_000_000),
        1 => now.saturating_add(1 + s.draw(60)),
        2 => now,
        3 => (u64::MAX - s.draw(3)).max(now),
        _ => (*s.pick(&TIMES)).max(now),
    }
}
/// Creation time: not later than the clock (the service refuses others).
pub fn gen_at(s: &mut Src, now: u64, m: &Model, by: usize, to: usize) -> u64 {
    let cur = m.rels.get(&(by, to)).map(|r| r.at());
    match (s.weighted(&[20, 12, 7, 1]), cur) {
        (3, None) => *s.pick(&[0, 1, now]).min(&now),
        (0, Some(c)) if c < now => c + 1 + s.draw((now - c).min(4)),
        (1, Some(c)) => {
            // at, just before or just after what is there
            let d = s.draw(3);
            c.saturating_sub(1).saturating_add(d).min(now)
        }
        (2, _) => s.draw(now.saturating_add(1).max(1)).min(now),
        _ => now.saturating_sub(s.draw(40)),
    }
}
fn weighted_issuer(s: &mut Src, m: &Model, w: &World) -> usize {
    // mostly someone who already has weight: a root or a recipient of a trust
    let mut c: Vec<usize> = m.roots.keys().copied().collect();
    for ((_, t), r) in &m.rels {
        if matches!(r, Rel::Auth { .. }) && !c.contains(t) {
            c.push(*t);
        }
    }
    if c.is_empty() || s.chance(10) {
        s.idx(w.n())
    } else {
        *s.pick(&c)
    }
}
pub fn gen_op(s: &mut Src, g: &Gen, m: &Model, w: &World, now: u64) -> Op {
    match s.weighted(&[g.trust, g.revoke, g.roots, g.cert, g.tick, g.query, g.bad_trust, g.bad_revoke]) {
        0 => {
            let by = weighted_issuer(s, m, w);
            let to = if s.chance(12) { by } else { s.idx(w.n()) };
            let at = gen_at(s, now, m, by, to);
            Op::Trust { by, to, exp: gen_exp(s, now), at }
        }
        1 => {
            // half of the time revoke an existing pair or one further down a chain
            let by = weighted_issuer(s, m, w);
            let to = s.idx(w.n());
            let at = gen_at(s, now, m, by, to);
            Op::Revoke { by, to, at }
        }
        2 => Op::Root { n: s.idx(w.n()), max: max_len(s) },
        3 => {
            let len = 1 + s.idx(5);
            let mut by = weighted_issuer(s, m, w);
            let mut ts = vec![];
            for i in 0..len {
                let to = if i == 0 { by } else { s.idx(w.n()) };
                let at = gen_at(s, now, m, by, to);
                ts.push((by, to, gen_exp(s, now), at));
                by = to;
            }
            Op::Cert { ts }
        }
        4 => Op::Tick { dt: match s.weighted(&[5, 3, 1]) { 0 => 1 + s.draw(5), 1 => s.draw(70), _ => s.draw(3000) } },
        5 => Op::Query { n: s.idx(w.n()) },
        6 => {
            let by = weighted_issuer(s, m, w);
            let to = s.idx(w.n());
            let at = gen_at(s, now, m, by, to);
            Op::BadTrust { by, to, exp: gen_exp(s, now), at, how: s.draw(6) as u8 }
        }
        _ => {
            let by = weighted_issuer(s, m, w);
            let to = s.idx(w.n());
            let at = gen_at(s, now, m, by, to);
            Op::BadRevoke { by, to, at, how: s.draw(4) as u8 }
        }
    }
}

pub fn mk_trust(w: &World, by: usize, to: usize, exp: u64, at: u64) -> R<Trust> {
    no_panic("Trust::create", || Trust::create(&w.keys[by].kp, w.keys[to].pk.clone(), secs(exp), secs(at)))
}
pub fn mk_rev(w: &World, by: usize, to: usize, at: u64) -> R<Revocation> {
    no_panic("Revocation::create", || Revocation::create(&w.keys[by].kp, w.keys[to].pk.clone(), secs(at)))
}
fn flip(sig: &Signature, bit: usize) -> Signature {
    let mut b = sig.to_vec().to_vec();
    let i = (bit / 8) % b.len().max(1);
    if !b.is_empty() {
        b[i] ^= 1 << (bit % 8);
    }
    Signature::from_bytes(sig.get_signature_type(), b)
}
/// A trust that does not verify against `by` at `now`.
pub fn bad_trust(w: &World, by: usize, to: usize, exp: u64, at: u64, how: u8, now: u64) -> R<Trust> {
    let other = (by + 1) % w.n();
    Ok(match how {
        // signed by somebody else
        0 => mk_trust(w, other, to, exp, at)?,
        // altered creation time
        1 => {
            let mut t = mk_trust(w, by, to, exp, at)?;
            t.issued_at = secs(at ^ 1);
            t
        }
        // prolonged
        2 => {
            let mut t = mk_trust(w, by, to, now.saturating_add(1), at)?;
            t.expires_at = secs(now.saturating_add(1) ^ 2);
            if t.expires_at < secs(now) {
                t.expires_at = secs(now.saturating_add(7));
            }
            t
        }
        // for somebody else
        3 => {
            let mut t = mk_trust(w, by, (to + 1) % w.n(), exp, at)?;
            t.issued_for = w.keys[to].pk.clone();
            t
        }
        // broken signature
        4 => {
            let mut t = mk_trust(w, by, to, exp, at)?;
            t.signature = flip(&t.signature, 77 + to);
            t
        }
        // expired
        _ => mk_trust(w, by, to, now.saturating_sub(1), at)?,
    })
}
pub fn bad_rev(w: &World, by: usize, to: usize, at: u64, how: u8) -> R<Revocation> {
    let mut r = match how {
        0 => mk_rev(w, (by + 1) % w.n(), to, at)?,
        1 => mk_rev(w, by, to, at ^ 1)?,
        2 => mk_rev(w, by, (to + 1) % w.n(), at)?,
        _ => {
            let mut r = mk_rev(w, by, to, at)?;
            r.signature = flip(&r.signature, 77 + to);
            r
        }
    };
    r.revoked_by = w.keys[by].pk.clone();
    r.pk = w.keys[to].pk.clone();
    r.revoked_at = secs(at);
    Ok(r)
}

/// Applies one operation to implementation and model and compares its answer.
/// `strict`: also compare what the call returns.
pub fn apply(b: &mut dyn Backend, m: &mut Model, w: &World, now: &mut u64, op: &Op, ctx: &mut Ctx) -> R {
    match op {
        Op::Tick { dt } => {
            *now = now.saturating_add(*dt);
        }
        Op::Root { n, max } => {
            b.allow(1);
            if let Err(e) = b.set_root(w, *n, *max)? {
                return fail("refused", format!("set_root({}, {max}) refused: {e}", w.keys[*n].name));
            }
            m.set_root(*n, *max);
        }
        Op::Trust { by, to, exp, at } => {
            let t = mk_trust(w, *by, *to, *exp, *at)?;
            let p = m.partial_chains(*by, WORK_CAP + 1);
            if p > WORK_CAP {
                return Ok(());
            }
            b.allow(p);
            let want = m.add_trust(*by, *to, *exp, *at, t.signature.encode(), *now);
            let got = b.add_trust(w, &t, *to, *by, *now)?;
            ctx.checks += 1;
            ctx.label(if want > 0 { "trust admitted" } else { "trust without weight" });
            match got {
                Ok(g) => ensure!(g == want, "add-trust-weight", "{} reported weight {g}, expected {want}", show_op(w, op)),
                Err(e) => return fail("refused", format!("{} refused: {e}", show_op(w, op))),
            }
        }
        Op::BadTrust { by, to, exp, at, how } => {
            if (*how == 0 || *how == 3) && w.n() < 2 || *how == 5 && *now == 0 || *how == 2 && *now > u64::MAX - 10 {
                return Ok(());
            }
            let t = bad_trust(w, *by, *to, *exp, *at, *how, *now)?;
            if t.issued_at > secs(*now) {
                return Ok(());
            }
            let p = m.partial_chains(*by, WORK_CAP + 1);
            b.allow(p);
            ctx.checks += 1;
            ctx.label("forged trust");
            if let Ok(x) = b.add_trust(w, &t, *to, *by, *now)? {
                return fail("forgery-accepted", format!("{} was accepted with weight {x}", show_op(w, op)));
            }
        }
        Op::Revoke { by, to, at } => {
            // whether an expired trust has been collected yet is not specified
            if m.rels.get(&(*by, *to)).map_or(false, |r| matches!(r, model::Rel::Auth { exp, .. } if *exp <= *now) && r.at() >= *at) {
                settle(b, w, m, *now)?;
            }
            let r = mk_rev(w, *by, *to, *at)?;
            b.allow(1);
            if let Err(e) = b.revoke(w, &r, *by, *to, *now)? {
                return fail("refused", format!("{} refused: {e}", show_op(w, op)));
            }
            ctx.label("revocation");
            m.upsert(*by, *to, Rel::Rev { at: *at, sig: r.signature.encode() });
        }
        Op::BadRevoke { by, to, at, how } => {
            if w.n() < 2 || *how == 1 && *at ^ 1 > *now {
                return Ok(());
            }
            let r = bad_rev(w, *by, *to, *at, *how)?;
            b.allow(1);
            ctx.checks += 1;
            ctx.label("forged revocation");
            if b.revoke(w, &r, *by, *to, *now)?.is_ok() {
                return fail("forgery-accepted", format!("{} was accepted", show_op(w, op)));
            }
        }
        Op::Cert { ts } => {
            let mut chain = vec![];
            for (by, to, exp, at) in ts {
                chain.push(mk_trust(w, *by, *to, *exp, *at)?);
            }
            let tos: Vec<usize> = ts.iter().map(|t| t.1).collect();
            let mut p = 0;
            for ((by, to, exp, at), t) in ts.iter().zip(&chain) {
                p += m.partial_chains(*by, WORK_CAP + 1);
                m.add_trust(*by, *to, *exp, *at, t.signature.encode(), *now);
            }
            b.allow(p);
            let c = Certificate::new_unverified(chain);
            ctx.label("certificate inserted");
            if let Err(e) = b.add_cert(w, &c, &tos, *now)? {
                return fail("refused", format!("{} refused: {e}", show_op(w, op)));
            }
        }
        Op::Query { n } => observe(b, m, w, *now, ctx, &[*n])?,
    }
    Ok(())
}

/// A graph history: some roots with self-signed trusts, then random operations.
pub fn play(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, g: &Gen, ctx: &mut Ctx) -> R {
    let nroots = 1 + s.weighted(&[6, 3, 1]);
    for i in 0..nroots.min(w.n()) {
        let op = Op::Root { n: i, max: max_len(s) };
        ctx.say(|| show_op(w, &op));
        apply(b, m, w, now, &op, ctx)?;
        if !s.chance(8) {
            let op = Op::Trust { by: i, to: i, exp: if s.chance(20) { gen_exp(s, *now) } else { u64::MAX }, at: now.saturating_sub(s.draw(40)) };
            ctx.say(|| show_op(w, &op));
            apply(b, m, w, now, &op, ctx)?;
        }
    }
    let mut i = 0;
    while i < g.max {
        let a = s.rec.len();
        if s.draw(1000) < 1000 / (g.mean + 1) {
            break;
        }
        i += 1;
        let op = gen_op(s, g, m, w, *now);
        ctx.say(|| format!("[{now}] {}", show_op(w, &op)));
        apply(b, m, w, now, &op, ctx)?;
        s.spans.push((a, s.rec.len()));
    }
    Ok(())
}

/// Long linear (or nearly linear) chain from a root, as deep as 19 peers.
pub fn play_chain(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    let max = *s.pick(&[16u32, 20, 15, 17, 10, 8, 255, 65_536, u32::MAX, 12]);
    let mut ops = vec![Op::Root { n: 0, max }, Op::Trust { by: 0, to: 0, exp: u64::MAX, at: *now }];
    let selfs = s.idx(4);
    for i in 1..w.n() {
        ops.push(Op::Trust { by: i - 1, to: i, exp: u64::MAX - 1, at: *now });
        if selfs > 0 && i % (6 - selfs) == 2 {
            ops.push(Op::Trust { by: i, to: i, exp: u64::MAX - 1, at: *now });
        }
    }
    // a few shortcuts, back edges and revocations
    for _ in 0..s.idx(4) {
        let by = s.idx(w.n());
        let to = s.idx(w.n());
        ops.push(Op::Trust { by, to, exp: u64::MAX, at: *now });
    }
    if s.chance(30) {
        let by = s.idx(w.n());
        let to = s.idx(w.n());
        ops.push(Op::Revoke { by, to, at: *now });
        if by == to || s.chance(50) {
            ops.pop();
        }
    }
    if s.chance(25) && w.n() > 2 {
        ops.push(Op::Root { n: s.idx(w.n()), max: max_len(s) });
    }
    for op in &ops {
        ctx.say(|| show_op(w, op));
        apply(b, m, w, now, op, ctx)?;
    }
    ctx.label("long chain");
    Ok(())
}

/// Graphs with many peers, many roots, many certificates of one peer or many
/// revokers of one peer. Returns the peers whose answers are interesting.
pub fn play_wide(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R<Vec<usize>> {
    let n = w.n();
    let target = n - 1;
    // many roots make every step slow
    let shape = if n > 1000 { s.pick(&[0, 3]).to_owned() } else { s.weighted(&[3, 3, 3, 3, 2]) };
    let far = now.saturating_add(1_000_000);
    let t = *now;
    let tr = |by: usize, to: usize| Op::Trust { by, to, exp: far, at: t };
    let root = |k: usize, max: u32| [Op::Root { n: k, max }, Op::Trust { by: k, to: k, exp: far, at: t }];
    let mut ops: Vec<Op> = vec![];
    let mut who = vec![target];
    match shape {
        // one root, everyone between it and the target
        0 => {
            ctx.label("wide: fan-in");
            ops.extend(root(0, *s.pick(&[5, 2, 16])));
            let mut mids: Vec<usize> = (1..target).collect();
            ops.extend(mids.iter().map(|k| tr(0, *k)));
            s.shuffle(&mut mids);
            ops.extend(mids.iter().map(|k| tr(*k, target)));
            who.extend([0, 1, target - 1]);
        }
        // everyone a root
        1 => {
            ctx.label("wide: many roots");
            // one may outweigh the rest
            let best = if s.chance(60) { s.idx(target) } else { n };
            for k in 0..target {
                ops.extend(root(k, if k == best { 9 } else { 1 + s.draw(4) as u32 }));
            }
            let mut rs: Vec<usize> = (0..target).collect();
            s.shuffle(&mut rs);
            ops.extend(rs.iter().map(|k| tr(*k, target)));
            who.extend([0, target - 1]);
        }
        // layers, each peer trusting all of the next layer
        2 => {
            ctx.label("wide: layers");
            let (width, depth) = *s.pick(&[(3usize, 7usize), (4, 5), (5, 4), (7, 4), (8, 3), (11, 3), (2, 10), (30, 2)]);
            let depth = depth.min(n - 2);
            let width = width.min((n - 2) / depth).max(1);
            ops.extend(root(0, 16));
            let at = |l: usize, i: usize| 1 + l * width + i;
            for i in 0..width {
                ops.push(tr(0, at(0, i)));
            }
            for l in 1..depth {
                for i in 0..width {
                    for j in 0..width {
                        ops.push(tr(at(l - 1, i), at(l, j)));
                    }
                }
            }
            for i in 0..width {
                ops.push(tr(at(depth - 1, i), target));
            }
            who.push(at(depth / 2, 0));
        }
        // many revokers of one peer, some of them between the root and its issuer
        3 => {
            ctx.label("wide: many revokers");
            ops.extend(root(0, 16));
            let z = 1;
            let mids: Vec<usize> = (2..target).collect();
            ops.extend(mids.iter().map(|k| tr(0, *k)));
            ops.extend(mids.iter().map(|k| tr(*k, z)));
            ops.push(tr(z, target));
            let mut rv: Vec<usize> = mids.clone();
            s.shuffle(&mut rv);
            let spare = s.idx(4);
            rv.truncate(rv.len().saturating_sub(spare));
            ops.extend(rv.iter().map(|k| Op::Revoke { by: *k, to: target, at: t }));
            who.push(z);
        }
        // one root trusting everyone
        _ => {
            ctx.label("wide: fan-out");
            ops.extend(root(0, *s.pick(&[1, 5, 16])));
            ops.extend((1..n).map(|k| tr(0, k)));
            for k in 1..n {
                if s.chance(10) {
                    ops.push(Op::Revoke { by: 0, to: k, at: t });
                }
            }
            who = (0..n).collect();
        }
    }
    let k = ops.len();
    ctx.say(|| format!("shape {shape} of {n} peers, {k} operations"));
    for op in &ops {
        apply(b, m, w, now, op, ctx)?;
    }
    Ok(who)
}
