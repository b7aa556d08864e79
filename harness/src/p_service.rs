//! C19-C24: the service: ownership, clock origin, faithfulness, restarts, storage faults, shipped data.
use crate::air;
use crate::engine::*;
use crate::ensure;
use crate::hist::*;
use crate::keys::*;
use crate::memstore::{self, MemFault};
use crate::model::{self, Model};
use crate::p_graph::{diff, everyone, places, snap};
use crate::svc::{self, Dir, Svc, HOST, OWNER};
use fluence_keypair::{KeyFormat, Signature};
use marine_rs_sdk::SecurityTetraplet;
use marine_sqlite_connector::{self as sql, Fault};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use trust_graph::{Certificate, Revocation, Trust};

fn small(s: &mut Src) -> usize {
    2 + s.weighted(&[2, 4, 3, 1])
}

// ------------------------------------------------------------------------ C19
fn not_owner(s: &mut Src, w: &World, owner: &str) -> String {
    let c = match s.weighted(&[4, 2, 1, 1, 1, 1, 1, 1]) {
        0 => w.keys[s.idx(w.n())].peer.clone(),
        1 => svc::HOST.to_string(),
        2 => String::new(),
        3 => owner[..owner.len() - 1].to_string(),
        4 => format!("{owner}1"),
        5 => owner.to_lowercase(),
        6 => format!(" {owner}"),
        _ => owner.chars().rev().collect(),
    };
    if c == owner {
        svc::HOST.to_string() + "x"
    } else {
        c
    }
}
fn bad_peer(s: &mut Src, w: &World) -> String {
    let p = w.keys[s.idx(w.n())].peer.clone();
    match s.draw(12) {
        10 => format!(" {p}"),
        11 => format!("{p}\n"),
        0 => String::new(),
        1 => "not a peer id".into(),
        2 => p[..p.len() - 1 - s.idx(8)].to_string(),
        3 => format!("{p}{}", &p[p.len() - 3..]),
        // not inlined: a hash from which no key can be recovered
        4 => rsa(s.idx(N_RSA)).peer.clone(),
        5 => {
            let mut c: Vec<char> = p.chars().collect();
            let i = s.idx(c.len());
            c[i] = *s.pick(&['0', 'O', 'I', 'l', 'é', '\0']);
            c.into_iter().collect()
        }
        6 => b58(&w.keys[0].enc),
        7 => {
            // an identity multihash of something that is no key
            let mut b = vec![0x00, 4];
            b.extend(s.bytes(4));
            b58(&b)
        }
        8 => format!("/p2p/{p}"),
        _ => {
            let n = s.idx(60);
            let b = s.bytes(n);
            let t = b58(&b);
            if w.keys.iter().any(|k| k.peer == t) {
                String::new()
            } else {
                t
            }
        }
    }
}
fn c19_case(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    let w = World::new(nodes(s, n, false));
    let mut m = Model::default();
    let mut now = epoch(s);
    let dir = Dir::new();
    svc::session(&dir, |b| {
        if s.chance(60) {
            b.owner = w.keys[s.idx(n)].peer.clone();
            b.init = b.owner.clone();
        }
        let owner = b.owner.clone();
        ctx.say(|| format!("owner {owner}, {n} peers"));
        let steps = 3 + s.idx(10);
        for _ in 0..steps {
            s.span(|s| -> R {
                let who = s.idx(n);
                let max = if s.chance(30) { s.draw(1 << 32) as u32 } else { max_len(s) };
                match s.weighted(&[5, 4, 2, 5]) {
                    0 => {
                        b.init = owner.clone();
                        let again = m.roots.get(&who).copied();
                        let op = Op::Root { n: who, max };
                        ctx.say(|| format!("owner: {}", show_op(&w, &op)));
                        apply(b, &mut m, &w, &mut now, &op, ctx)?;
                        ctx.label(match again {
                            None => "root set",
                            Some(o) if model::CAP.min(o) != model::CAP.min(max) => "root changed",
                            _ => "root set again",
                        });
                        if again.is_some() {
                            ctx.hit();
                        }
                    }
                    1 => {
                        b.init = not_owner(s, &w, &owner);
                        ctx.say(|| format!("{:?}: set_root({}, {max})", b.init, w.keys[who].name));
                        sql::set_budget(u64::MAX);
                        let v = b.call("set_root", vec![json!(w.keys[who].peer), json!(max)])?;
                        ctx.checks += 1;
                        ctx.label("foreign request");
                        ctx.hit();
                        ensure!(svc::ok(&v).is_err(), "foreign-root", "set_root by {:?}, who is not the owner {owner}, succeeded", b.init);
                        b.init = owner.clone();
                    }
                    2 => {
                        let bad = bad_peer(s, &w);
                        b.init = if s.chance(30) { not_owner(s, &w, &owner) } else { owner.clone() };
                        ctx.say(|| format!("set_root({bad:?}, {max})"));
                        let v = b.call("set_root", vec![json!(bad), json!(max)])?;
                        ctx.checks += 1;
                        ctx.label("malformed peer id");
                        ensure!(svc::ok(&v).is_err(), "malformed-accepted", "set_root({bad:?}) succeeded");
                        b.init = owner.clone();
                    }
                    _ => {
                        let g = Gen { roots: 0, bad_trust: 0, bad_revoke: 0, ..Default::default() };
                        let op = gen_op(s, &g, &m, &w, now);
                        // relations may be offered by anybody
                        b.init = if s.chance(50) { not_owner(s, &w, &owner) } else { owner.clone() };
                        ctx.say(|| format!("[{now}] {}", show_op(&w, &op)));
                        apply(b, &mut m, &w, &mut now, &op, ctx)?;
                        b.init = owner.clone();
                    }
                }
                observe(b, &mut m, &w, now, ctx, &[who])
            })?;
        }
        observe(b, &mut m, &w, now, ctx, &everyone(&w))
    })
}

// ------------------------------------------------------------------------ C20
const TIMED: [&str; 11] = [
    "get_all_certs", "add_trust", "revoke", "insert_cert", "insert_cert_raw", "get_weight", "get_weight_from", "get_all_certs_from", "get_host_certs",
    "get_host_certs_from", "verify_trust",
];
fn origin(s: &mut Src, b: &Svc, w: &World) -> (Vec<SecurityTetraplet>, bool) {
    let h = b.host.clone();
    let other = w.keys[s.idx(w.n())].peer.clone();
    let mk = |p: &str, a: &str, f: &str, j: &str| vec![SecurityTetraplet::new(p, a, f, j)];
    let t = match s.draw(25) {
        0 => return (b.good(), true),
        19..=24 => {
            // one of the three parts is nearly the right one
            let mut part = [h.clone(), "peer".to_string(), "timestamp_sec".to_string()];
            let i = s.idx(3);
            let v = part[i].clone();
            part[i] = match s.draw(10) {
                0 => format!(" {v}"),
                1 => format!("{v} "),
                2 => format!("my_{v}"),
                3 => format!("{v}.{v}"),
                4 => format!("{v}\0"),
                5 => v[1..].to_string(),
                6 => v[..v.len() - 1].to_string(),
                7 => v.replace('_', "-").replace('e', "E"),
                8 => {
                    let k = s.idx(v.len());
                    let mut c: Vec<char> = v.chars().collect();
                    c[k] = if c[k] == 'x' { 'y' } else { 'x' };
                    c.into_iter().collect()
                }
                _ => v.to_uppercase(),
            };
            mk(&part[0], &part[1], &part[2], "")
        }
        // the host clock only contributed to it
        18 => [mk(&other, "peer", "timestamp_sec", ""), b.good()].concat(),
        1 => mk(&other, "peer", "timestamp_sec", ""),
        2 => mk(&h, "peers", "timestamp_sec", ""),
        3 => mk(&h, "peer", "timestamp_ms", ""),
        4 => mk(&h, "", "", ""),
        5 => vec![],
        6 => mk(&h, "Peer", "timestamp_sec", ""),
        7 => mk(&h, "peer", "Timestamp_sec", ""),
        8 => mk(&h[..h.len() - 1], "peer", "timestamp_sec", ""),
        9 => mk("", "peer", "timestamp_sec", ""),
        10 => mk(&h, "timestamp_sec", "peer", ""),
        11 => mk(&b.init.clone(), "", "", ""),
        12 => mk(&h, "peer", "timestamp_sec2", ""),
        13 => mk(&h, "peer", "", ""),
        14 => mk(&h, "", "timestamp_sec", ""),
        15 => mk(&b.owner.clone(), "peer", "timestamp_sec", ""),
        16 => mk(&h, "peer", "identify", ""),
        _ => mk(&h.to_lowercase(), "peer", "timestamp_sec", ""),
    };
    // some of the above may name the host after all
    let good = t.first().map_or(false, |x| x.peer_pk == h && x.service_id == "peer" && x.function_name == "timestamp_sec");
    (t, good)
}
/// A valid call of `name` at `t` (ignoring where the time comes from).
fn timed_args(s: &mut Src, name: &str, w: &World, m: &Model, now: u64, t: u64) -> R<Vec<Value>> {
    let n = w.n();
    let by = *m.roots.keys().next().unwrap_or(&0);
    let to = s.idx(n);
    let iss = s.idx(n);
    let peer = |i: usize| json!(w.keys[i].peer);
    let chain = |s: &mut Src| -> R<(Certificate, Vec<usize>)> {
        let a = now;
        let mid = s.idx(n);
        Ok((
            Certificate::new_unverified(vec![mk_trust(w, by, by, u64::MAX, a)?, mk_trust(w, by, mid, u64::MAX, a)?, mk_trust(w, mid, to, u64::MAX, a)?]),
            vec![by, mid, to],
        ))
    };
    Ok(match name {
        "get_all_certs" | "get_weight" => vec![peer(to), json!(t)],
        "get_all_certs_from" | "get_weight_from" => vec![peer(to), peer(iss), json!(t)],
        "get_host_certs" => vec![json!(t)],
        "get_host_certs_from" => vec![peer(iss), json!(t)],
        "add_trust" | "verify_trust" => vec![svc::trust_json(w.keys[to], &mk_trust(w, by, to, u64::MAX, now)?), peer(by), json!(t)],
        "revoke" => vec![svc::rev_json(w.keys[by], w.keys[to], &mk_rev(w, by, to, now)?), json!(t)],
        "insert_cert" => {
            let (c, tos) = chain(s)?;
            vec![Svc::cert_json(w, &c, &tos), json!(t)]
        }
        "insert_cert_raw" => {
            let (c, _) = chain(s)?;
            vec![json!(c.to_string()), json!(t)]
        }
        _ => unreachable!(),
    })
}
fn c20_origin(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    let w = World::new(nodes(s, n, false));
    let mut m = Model::default();
    let mut now = epoch(s);
    let dir = Dir::new();
    svc::session(&dir, |b| {
        if s.chance(50) {
            b.host = w.keys[s.idx(n)].peer.clone();
        }
        let g = Gen { mean: 5, max: 10, bad_trust: 0, bad_revoke: 0, tick: 0, query: 0, ..Default::default() };
        play(b, &w, &mut m, &mut now, s, &g, ctx)?;
        for _ in 0..3 {
            // who asks does not matter
            b.init = match s.weighted(&[3, 2, 2]) {
                0 => b.owner.clone(),
                1 => b.host.clone(),
                _ => w.keys[s.idx(n)].peer.clone(),
            };
            let name = *s.pick(&TIMED);
            // a time far ahead would expire most of the graph if it were believed
            let t = if s.chance(60) { now.saturating_add(*s.pick(&[0, 50, 10_000_000])) } else { now };
            let args = timed_args(s, name, &w, &m, now, t)?;
            let ti = svc::time_arg(name).unwrap();
            let mut tet: Vec<Vec<SecurityTetraplet>> = vec![];
            let mut good = false;
            for i in 0..args.len() {
                if i == ti {
                    let (o, g) = origin(s, b, &w);
                    good = g;
                    tet.push(o);
                } else if s.chance(40) {
                    tet.push(b.good());
                } else {
                    tet.push(svc::literal(&b.init));
                }
            }
            if !good && s.chance(30) {
                // origins of values past the arguments never stand in for the time's own
                for _ in 0..1 + s.draw(2) {
                    tet.push(if s.chance(75) { b.good() } else { vec![] });
                }
            }
            match s.draw(10) {
                8 => {
                    tet.truncate(ti);
                    good = false;
                }
                9 => {
                    tet.clear();
                    good = false;
                }
                _ => {}
            }
            ctx.say(|| format!("[{now}] {name} at {t} with origins {tet:?} (time is argument {ti})"));
            let Some(before) = snap(b, &w, &m, now)? else { return Ok(()) };
            sql::set_budget(u64::MAX);
            let v = b.call_with(name, args, tet)?;
            ctx.checks += 1;
            if good {
                // the model does not follow this call: it only has to be accepted
                ensure!(svc::ok(&v).is_ok(), "host-clock-refused", "{name} refused the host's own timestamp: {v}");
                ctx.label("host clock");
                return Ok(());
            }
            ctx.hit();
            ctx.label(name);
            ensure!(svc::ok(&v).is_err(), "foreign-clock-accepted", "{name} accepted a time that is not the host's own timestamp: {v}");
            let Some(after) = snap(b, &w, &m, now)? else { return Ok(()) };
            if let Some(d) = diff(&w, &before, &after) {
                return fail("refused-but-changed", format!("{name} was refused but changed the graph: {d}"));
            }
        }
        observe(b, &mut m, &w, now, ctx, &everyone(&w))
    })
}
fn c20_future(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    let w = World::new(nodes(s, n, false));
    let mut m = Model::default();
    let mut now = epoch(s);
    let dir = Dir::new();
    svc::session(&dir, |b| {
        places(s, b, &w);
        let g = Gen { mean: 5, max: 10, bad_trust: 0, bad_revoke: 0, query: 0, ..Default::default() };
        play(b, &w, &mut m, &mut now, s, &g, ctx)?;
        if now > u64::MAX - 100 {
            return Ok(());
        }
        for _ in 0..3 {
            let Some(before) = snap(b, &w, &m, now)? else { return Ok(()) };
            let ahead = match s.weighted(&[4, 3, 2, 2]) {
                0 => 1,
                1 => 1 + s.draw(50),
                2 => 0,
                _ => {
                    let t = *s.pick(&TIMES);
                    t.saturating_sub(now)
                }
            };
            let at = now.saturating_add(ahead);
            let by = if ahead > 0 && s.chance(40) { s.idx(n) } else { *m.roots.keys().next().unwrap() };
            let to = s.idx(n);
            let kind = s.draw(4);
            let name = ["add_trust", "revoke", "insert_cert", "insert_cert_raw"][kind as usize];
            let mid = s.idx(n);
            let fut = s.idx(3);
            let ats: Vec<u64> = (0..3).map(|i| if i == fut { at } else { now }).collect();
            let args = match kind {
                0 => vec![svc::trust_json(w.keys[to], &mk_trust(&w, by, to, u64::MAX, at)?), json!(w.keys[by].peer), json!(now)],
                1 => vec![svc::rev_json(w.keys[by], w.keys[to], &mk_rev(&w, by, to, at)?), json!(now)],
                _ => {
                    let c = Certificate::new_unverified(vec![
                        mk_trust(&w, by, by, u64::MAX, ats[0])?,
                        mk_trust(&w, by, mid, u64::MAX, ats[1])?,
                        mk_trust(&w, mid, to, u64::MAX, ats[2])?,
                    ]);
                    vec![if kind == 2 { Svc::cert_json(&w, &c, &[by, mid, to]) } else { json!(c.to_string()) }, json!(now)]
                }
            };
            ctx.say(|| format!("[{now}] {name} by {} (member {fut} of the certificate) dated {at}", w.keys[by].name));
            sql::set_budget(u64::MAX);
            let v = b.call(name, args)?;
            ctx.checks += 1;
            if ahead == 0 {
                ctx.label("dated now");
                ensure!(svc::ok(&v).is_ok(), "present-refused", "{name} refused a relation dated at the current time: {v}");
                return Ok(());
            }
            ctx.hit();
            ctx.label(name);
            ensure!(svc::ok(&v).is_err(), "future-accepted", "{name} at {now} accepted a relation dated {at}");
            let Some(after) = snap(b, &w, &m, now)? else { return Ok(()) };
            if let Some(d) = diff(&w, &before, &after) {
                return fail("refused-but-changed", format!("{name} was refused but changed the graph: {d}"));
            }
            // nor does the refused relation come to life later
            if s.chance(30) {
                let later = at.saturating_add(1);
                observe(b, &mut m, &w, later, ctx, &everyone(&w))?;
                now = later;
                if now > u64::MAX - 100 {
                    return Ok(());
                }
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------------ C21
/// Runs everything on the service and on the library and compares the answers.
struct Both<'a> {
    svc: &'a mut Svc,
    core: Core,
}
fn same<T: PartialEq + std::fmt::Debug>(what: &str, s: Result<T, String>, c: Result<T, String>) -> R<Result<T, String>> {
    match (&s, &c) {
        (Ok(a), Ok(b)) => ensure!(a == b, "service-differs", "{what}: service {a:?}, library {b:?}"),
        (Err(_), Err(_)) => {}
        (Ok(a), Err(e)) => return fail("service-differs", format!("{what}: service answers {a:?}, library fails: {e}")),
        (Err(e), Ok(b)) => return fail("service-differs", format!("{what}: service fails ({e}), library answers {b:?}")),
    }
    Ok(s)
}
fn sorted<T: Ord>(r: Result<Vec<T>, String>) -> Result<Vec<T>, String> {
    r.map(|mut v| {
        v.sort();
        v
    })
}
impl<'a> Backend for Both<'a> {
    fn kind(&self) -> &'static str {
        "both"
    }
    fn set_root(&mut self, w: &World, n: usize, max: u32) -> R<Result<(), String>> {
        same("set_root", self.svc.set_root(w, n, max)?, self.core.set_root(w, n, max)?)
    }
    fn add_trust(&mut self, w: &World, t: &Trust, to: usize, by: usize, now: u64) -> R<Result<u32, String>> {
        same("add_trust", self.svc.add_trust(w, t, to, by, now)?, self.core.add_trust(w, t, to, by, now)?)
    }
    fn add_cert(&mut self, w: &World, c: &Certificate, tos: &[usize], now: u64) -> R<Result<(), String>> {
        same("insert_cert", self.svc.add_cert(w, c, tos, now)?, self.core.add_cert(w, c, tos, now)?)
    }
    fn add_cert_text(&mut self, w: &World, t: &str, now: u64) -> R<Result<(), String>> {
        same("insert_cert_raw", self.svc.add_cert_text(w, t, now)?, self.core.add_cert_text(w, t, now)?)
    }
    fn revoke(&mut self, w: &World, r: &Revocation, by: usize, to: usize, now: u64) -> R<Result<(), String>> {
        same("revoke", self.svc.revoke(w, r, by, to, now)?, self.core.revoke(w, r, by, to, now)?)
    }
    fn certs(&mut self, w: &World, n: usize, now: u64) -> R<Result<Vec<model::Cert>, String>> {
        same("get_all_certs", sorted(self.svc.certs(w, n, now)?), sorted(self.core.certs(w, n, now)?))
    }
    fn certs_from(&mut self, w: &World, n: usize, i: usize, now: u64) -> R<Result<Vec<model::Cert>, String>> {
        same("get_all_certs_from", sorted(self.svc.certs_from(w, n, i, now)?), sorted(self.core.certs_from(w, n, i, now)?))
    }
    fn weight(&mut self, w: &World, n: usize, now: u64) -> R<Result<u32, String>> {
        same("get_weight", self.svc.weight(w, n, now)?, self.core.weight(w, n, now)?)
    }
    fn weight_from(&mut self, w: &World, n: usize, i: usize, now: u64) -> R<Result<u32, String>> {
        same("get_weight_from", self.svc.weight_from(w, n, i, now)?, self.core.weight_from(w, n, i, now)?)
    }
    fn revocations(&mut self, w: &World, n: usize) -> R<Result<Revs, String>> {
        same("export_revocations", sorted(self.svc.revocations(w, n)?), sorted(self.core.revocations(w, n)?))
    }
    fn allow(&mut self, p: u64) {
        self.svc.allow(p);
        self.core.allow(p);
    }
}
fn c21_twin(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 3 + s.weighted(&[2, 4, 3]);
    let w = World::new(nodes(s, n, false));
    let mut m = Model::default();
    let mut now = epoch(s);
    let dir = Dir::new();
    svc::session(&dir, |b| {
        places(s, b, &w);
        let core = Core::new(s);
        let mut both = Both { svc: b, core };
        let g = Gen { cert: 8, query: 14, bad_trust: 8, bad_revoke: 4, mean: 22, max: 45, ..Default::default() };
        play(&mut both, &w, &mut m, &mut now, s, &g, ctx)?;
        m.gc(now);
        for x in 0..n {
            let p = m.partial_chains(x, WORK_CAP + 1);
            if p > WORK_CAP {
                continue;
            }
            both.allow(p);
            if both.certs(&w, x, now)?.map_or(false, |c| !c.is_empty()) {
                ctx.hit();
            }
            both.allow(p);
            let _ = both.weight(&w, x, now)?;
            let _ = both.revocations(&w, x)?;
            let i = s.idx(n);
            both.allow(p);
            let _ = both.certs_from(&w, x, i, now)?;
            both.allow(p);
            let _ = both.weight_from(&w, x, i, now)?;
            ctx.checks += 5;
        }
        Ok(())
    })
}
fn c21_wide(s: &mut Src, ctx: &mut Ctx) -> R {
    let w = World::new(wide_nodes(crate::p_graph::wide(s)));
    let mut m = Model::default();
    let mut now = epoch(s);
    let dir = Dir::new();
    svc::session(&dir, |b| {
        let core = Core::new(s);
        let mut both = Both { svc: b, core };
        let mut who = play_wide(&mut both, &w, &mut m, &mut now, s, ctx)?;
        for _ in 0..4 {
            who.push(s.idx(w.n()));
        }
        observe(&mut both, &mut m, &w, now, ctx, &who)
    })
}
fn c22_wide(s: &mut Src, ctx: &mut Ctx) -> R {
    let w = World::new(wide_nodes(crate::p_graph::wide(s)));
    let mut m = Model::default();
    let mut now = epoch(s);
    let dir = Dir::new();
    let who = svc::session(&dir, |b| play_wide(b, &w, &mut m, &mut now, s, ctx))?;
    for _ in 0..2 {
        svc::session(&dir, |b| observe(b, &mut m, &w, now, ctx, &who))?;
    }
    Ok(())
}
fn bytes_of(v: &Value) -> Vec<u8> {
    v.as_array().into_iter().flatten().map(|x| x.as_u64().unwrap_or(999) as u8).collect()
}
fn jbytes(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|x| json!(*x)).collect())
}
fn c21_flow(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 2 + s.idx(3);
    let w = World::new(nodes(s, n, false));
    let now = match s.weighted(&[3, 2, 1]) {
        0 => epoch(s).max(2),
        1 => (*s.pick(&TIMES)).max(2),
        _ => s.u64any().max(2),
    };
    let (by, to) = (0usize, s.idx(n));
    let exp = match s.weighted(&[3, 2, 2]) {
        0 => now.saturating_add(1 + s.draw(1000)),
        1 => u64::MAX,
        _ => (*s.pick(&TIMES)).max(now),
    };
    let at = match s.weighted(&[2, 2, 1]) {
        0 => now,
        1 => now - s.draw(now.min(50) + 1),
        _ => s.draw(now),
    };
    let dir = Dir::new();
    ctx.say(|| format!("{} trusts {}: issued {at}, expires {exp}, clock {now}", w.keys[by].name, w.keys[to].name));
    svc::session(&dir, |b| {
        let need = |v: &Value, what: &str| -> R {
            match svc::ok(v) {
                Ok(_) => Ok(()),
                Err(e) => fail("flow-refused", format!("{what} failed: {e}")),
            }
        };
        let r = b.call("set_root", vec![json!(w.keys[by].peer), json!(4)])?;
        need(&r, "set_root")?;
        let t0 = mk_trust(&w, by, by, u64::MAX, 0)?;
        let r = b.call("add_trust", vec![svc::trust_json(w.keys[by], &t0), json!(w.keys[by].peer), json!(now)])?;
        need(&r, "add_trust of the root")?;

        let v = b.call("get_trust_bytes", vec![json!(w.keys[to].peer), json!(exp), json!(at)])?;
        need(&v, "get_trust_bytes")?;
        let msg = bytes_of(&v["result"]);
        let want = Trust::signature_bytes(&w.keys[to].pk, secs(exp), secs(at));
        ctx.checks += 1;
        ensure!(msg == want, "trust-bytes", "the service's trust bytes differ from the library's");
        // signed by an independent implementation, as a client would
        let sig = w.keys[by].lp.sign(&msg).expect("harness: sign");
        let v = b.call("issue_trust", vec![json!(w.keys[to].peer), json!(exp), json!(at), jbytes(&sig)])?;
        need(&v, "issue_trust")?;
        let trust = v["trust"].clone();
        ensure!(
            trust["issued_for"] == json!(w.keys[to].peer) && trust["expires_at"] == json!(exp) && trust["issued_at"] == json!(at) && trust["signature"] == json!(b58(&sig)),
            "issued-trust-differs",
            "issue_trust answered {trust}"
        );
        let v = b.call("verify_trust", vec![trust.clone(), json!(w.keys[by].peer), json!(now)])?;
        ctx.hit();
        ctx.checks += 1;
        need(&v, "verify_trust")?;
        // any alteration is noticed
        for _ in 0..2 {
            let mut bad = trust.clone();
            let mut iss = w.keys[by].peer.clone();
            let mut t = now;
            match s.draw(6) {
                0 => bad["issued_for"] = json!(w.keys[(to + 1) % n].peer),
                1 => bad["issued_at"] = json!(other_time(s, at)),
                2 => bad["expires_at"] = json!(other_time(s, exp)),
                3 => {
                    let mut x = sig.clone();
                    // inside the scalars, so that a DER frame stays well-formed
                    let i = 8 + s.idx(x.len() - 10);
                    x[i] ^= 1 << s.draw(8);
                    bad["signature"] = json!(b58(&x));
                }
                4 => iss = w.keys[(by + 1) % n].peer.clone(),
                _ => {
                    if exp == u64::MAX {
                        continue;
                    }
                    t = exp + 1;
                }
            }
            ctx.say(|| format!("altered: {bad} by {iss} at {t}"));
            let v = b.call("verify_trust", vec![bad.clone(), json!(iss), json!(t)])?;
            ctx.checks += 1;
            ensure!(svc::ok(&v).is_err(), "altered-trust-verified", "verify_trust accepted {bad} by {iss} at {t}, original {trust} by {}", w.keys[by].peer);
        }
        let v = b.call("add_trust", vec![trust.clone(), json!(w.keys[by].peer), json!(now)])?;
        need(&v, "add_trust")?;
        ctx.checks += 1;
        ensure!(v["weight"] == json!(if by == to { 16 } else { 8 }), "add-trust-weight", "add_trust reported {v}");
        if to != by && exp > now {
            let v = b.call("get_all_certs", vec![json!(w.keys[to].peer), json!(now)])?;
            need(&v, "get_all_certs")?;
            let certs = v["certificates"].as_array().cloned().unwrap_or_default();
            ensure!(certs.len() == 1, "reported-differs", "{} certificates reported, expected 1", certs.len());
            ensure!(certs[0]["chain"].as_array().and_then(|c| c.last()).cloned() == Some(trust.clone()), "reported-differs", "the added trust {trust} is reported as {}", certs[0]);
            // and a reported certificate can be given to another service
            let other = Dir::new();
            let peer = w.keys[by].peer.clone();
            let (cert, target) = (certs[0].clone(), w.keys[to].peer.clone());
            svc::session(&other, |o| {
                let r = o.call("set_root", vec![json!(peer), json!(4)])?;
                need(&r, "set_root")?;
                let r = o.call("insert_cert", vec![cert.clone(), json!(now)])?;
                need(&r, "insert_cert of a reported certificate")?;
                let v = o.call("get_all_certs", vec![json!(target), json!(now)])?;
                ensure!(v["certificates"] == json!([cert]), "reported-differs", "a transferred certificate is reported as {}", v["certificates"]);
                Ok(())
            })?;
        }
        // the same for a revocation
        let v = b.call("get_revocation_bytes", vec![json!(w.keys[to].peer), json!(now)])?;
        need(&v, "get_revocation_bytes")?;
        let msg = bytes_of(&v["result"]);
        ensure!(msg == Revocation::signature_bytes(&w.keys[to].pk, secs(now)), "revocation-bytes", "the service's revocation bytes differ from the library's");
        let sig = w.keys[by].lp.sign(&msg).expect("harness: sign");
        let v = b.call("issue_revocation", vec![json!(w.keys[by].peer), json!(w.keys[to].peer), json!(now), jbytes(&sig)])?;
        need(&v, "issue_revocation")?;
        let rev = v["revocation"].clone();
        ensure!(
            rev["revoked_peer_id"] == json!(w.keys[to].peer) && rev["revoked_by"] == json!(w.keys[by].peer) && rev["revoked_at"] == json!(now) && rev["signature"] == json!(b58(&sig)),
            "issued-revocation-differs",
            "issue_revocation answered {rev}"
        );
        let mut bad = rev.clone();
        match s.draw(3) {
            0 => bad["revoked_at"] = json!(now - 1),
            1 => bad["revoked_peer_id"] = json!(w.keys[(to + 1) % n].peer),
            _ => bad["revoked_by"] = json!(w.keys[(by + 1) % n].peer),
        }
        let v = b.call("revoke", vec![bad.clone(), json!(now)])?;
        ctx.checks += 1;
        ensure!(svc::ok(&v).is_err(), "altered-revocation-accepted", "revoke accepted {bad}, original {rev}");
        let v = b.call("revoke", vec![rev.clone(), json!(now)])?;
        need(&v, "revoke")?;
        let v = b.call("export_revocations", vec![json!(w.keys[to].peer)])?;
        need(&v, "export_revocations")?;
        // a trust of the same second is not superseded
        let want = if at < now { json!([rev]) } else { json!([]) };
        ctx.checks += 1;
        ensure!(v["revocations"] == want || at == now, "reported-differs", "revocations reported as {}, expected {want}", v["revocations"]);
        Ok(())
    })
}
/// What the service issues from a client's signature is what the library
/// makes with the signing key, for every combination of key types and times.
fn c21_issued(s: &mut Src, ctx: &mut Ctx) -> R {
    let pick = |s: &mut Src| if s.chance(40) { secp(s.idx(N_SECP)) } else { ed(s.idx(N_ED)) };
    let (by, to) = (pick(s), pick(s));
    let (exp, at) = (time(s), time(s));
    let dir = Dir::new();
    ctx.hit();
    ctx.say(|| format!("{} for {}: issued {at}, expires {exp}", by.name, to.name));
    svc::session(&dir, |b| {
        let get = |v: Value, what: &str, f: &str| -> R<Value> {
            match svc::ok(&v) {
                Ok(v) => Ok(v[f].clone()),
                Err(e) => fail("flow-refused", format!("{what} failed: {e}")),
            }
        };
        // revocation first: its signature type is that of the revoker
        let v = b.call("get_revocation_bytes", vec![json!(to.peer), json!(at)])?;
        let msg = bytes_of(&get(v, "get_revocation_bytes", "result")?);
        ctx.checks += 1;
        ensure!(msg == Revocation::signature_bytes(&to.pk, secs(at)), "revocation-bytes", "the service's revocation bytes differ from the library's");
        let sig = by.lp.sign(&msg).expect("harness: sign");
        let v = b.call("issue_revocation", vec![json!(by.peer), json!(to.peer), json!(at), jbytes(&sig)])?;
        let rev = get(v, "issue_revocation", "revocation")?;
        let lib = Revocation::new(by.pk.clone(), to.pk.clone(), secs(at), Signature::from_bytes(by.fmt, sig));
        ctx.checks += 1;
        ensure!(rev == svc::rev_json(by, to, &lib), "issued-revocation-differs", "issue_revocation answered {rev}");
        let v = b.call("get_trust_bytes", vec![json!(to.peer), json!(exp), json!(at)])?;
        let msg = bytes_of(&get(v, "get_trust_bytes", "result")?);
        ctx.checks += 1;
        ensure!(msg == Trust::signature_bytes(&to.pk, secs(exp), secs(at)), "trust-bytes", "the service's trust bytes for issued {at}, expires {exp} differ from the library's");
        let sig = by.lp.sign(&msg).expect("harness: sign");
        let v = b.call("issue_trust", vec![json!(to.peer), json!(exp), json!(at), jbytes(&sig)])?;
        let trust = get(v, "issue_trust", "trust")?;
        let mut want = svc::trust_json(to, &Trust::new(to.pk.clone(), secs(exp), secs(at), Signature::from_bytes(by.fmt, sig)));
        ctx.checks += 1;
        if trust == want {
            return Ok(());
        }
        want["sig_type"] = json!(svc::sig_type(to.fmt));
        ensure!(trust != want, "issue-trust-sig-type", "issue_trust labels the signature of {} with the key type of the recipient {}: {trust}", by.name, to.name);
        fail("issued-trust-differs", format!("issue_trust answered {trust}"))
    })
}
fn bad_b58(s: &mut Src) -> String {
    match s.draw(5) {
        0 => "0".into(),
        1 => "not base58!".into(),
        2 => "Il".into(),
        3 => "\u{e9}\u{0}".into(),
        _ => {
            let b = s.bytes(20);
            format!("{}O", b58(&b))
        }
    }
}
fn bad_type(s: &mut Src) -> String {
    match s.draw(6) {
        0 => String::new(),
        1 => "Ed25519".into(),
        2 => "ed25519 ".into(),
        3 => "0".into(),
        4 => "ecdsa".into(),
        _ => "secp256k".into(),
    }
}
fn c21_malformed(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    let w = World::new(nodes(s, n, false));
    let mut m = Model::default();
    let mut now = epoch(s);
    let dir = Dir::new();
    svc::session(&dir, |b| {
        let g = Gen { mean: 4, max: 8, bad_trust: 0, bad_revoke: 0, query: 0, ..Default::default() };
        play(b, &w, &mut m, &mut now, s, &g, ctx)?;
        m.gc(now);
        let Some(before) = snap(b, &w, &m, now)? else { return Ok(()) };
        for _ in 0..4 {
            let by = *m.roots.keys().next().unwrap();
            let to = s.idx(n);
            let p = |i: usize| json!(w.keys[i].peer);
            let mut trust = svc::trust_json(w.keys[to], &mk_trust(&w, by, to, u64::MAX, now)?);
            let mut rev = svc::rev_json(w.keys[by], w.keys[to], &mk_rev(&w, by, to, now)?);
            let root = svc::trust_json(w.keys[by], &mk_trust(&w, by, by, u64::MAX, now)?);
            let bad = bad_peer(s, &w);
            let bp = json!(bad);
            let (name, args): (&str, Vec<Value>) = match s.draw(24) {
                0 => ("set_root", vec![bp, json!(3)]),
                1 => ("get_all_certs", vec![bp, json!(now)]),
                2 => ("get_all_certs_from", vec![bp, p(by), json!(now)]),
                3 => ("get_all_certs_from", vec![p(to), bp, json!(now)]),
                4 => ("get_host_certs_from", vec![bp, json!(now)]),
                5 => ("get_weight", vec![bp, json!(now)]),
                6 => ("get_weight_from", vec![bp, p(by), json!(now)]),
                7 => ("get_weight_from", vec![p(to), bp, json!(now)]),
                8 => ("get_trust_bytes", vec![bp, json!(now), json!(now)]),
                9 => ("issue_trust", vec![bp, json!(now), json!(now), jbytes(&s.bytes(64))]),
                10 => ("get_revocation_bytes", vec![bp, json!(now)]),
                11 => ("issue_revocation", vec![bp, p(to), json!(now), jbytes(&s.bytes(64))]),
                12 => ("issue_revocation", vec![p(by), bp, json!(now), jbytes(&s.bytes(64))]),
                13 => ("export_revocations", vec![bp]),
                14 => (*s.pick(&["add_trust", "verify_trust"]), vec![trust, bp, json!(now)]),
                15 | 16 => {
                    match s.draw(3) {
                        0 => trust["issued_for"] = bp,
                        1 => trust["signature"] = json!(bad_b58(s)),
                        _ => trust["sig_type"] = json!(bad_type(s)),
                    }
                    (*s.pick(&["add_trust", "verify_trust"]), vec![trust, p(by), json!(now)])
                }
                17 | 18 => {
                    match s.draw(4) {
                        0 => rev["revoked_peer_id"] = bp,
                        1 => rev["revoked_by"] = bp,
                        2 => rev["signature"] = json!(bad_b58(s)),
                        _ => rev["sig_type"] = json!(bad_type(s)),
                    }
                    ("revoke", vec![rev, json!(now)])
                }
                19 => ("insert_cert", vec![json!({"chain": []}), json!(now)]),
                20 | 21 => {
                    match s.draw(3) {
                        0 => trust["issued_for"] = bp,
                        1 => trust["signature"] = json!(bad_b58(s)),
                        _ => trust["sig_type"] = json!(bad_type(s)),
                    }
                    ("insert_cert", vec![json!({"chain": [root, trust]}), json!(now)])
                }
                _ => {
                    let k = s.idx(40);
                    let t = String::from_utf8_lossy(&s.bytes(k)).into_owned();
                    ("insert_cert_raw", vec![json!(t), json!(now)])
                }
            };
            ctx.say(|| format!("{name}({})", args.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", ")));
            ctx.label(name);
            ctx.hit();
            sql::set_budget(u64::MAX);
            let v = b.call(name, args.clone())?;
            ctx.checks += 1;
            match svc::ok(&v) {
                Ok(_) => return fail("malformed-accepted", format!("{name} accepted malformed arguments: {}", json!(args))),
                Err(e) => ensure!(!e.is_empty() && e != "?", "no-error-text", "{name} failed without saying why: {v}"),
            }
        }
        let Some(after) = snap(b, &w, &m, now)? else { return Ok(()) };
        if let Some(d) = diff(&w, &before, &after) {
            return fail("refused-but-changed", format!("malformed calls changed the graph: {d}"));
        }
        Ok(())
    })
}

// ------------------------------------------------------------------------ C22
fn c22_case(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 3 + s.weighted(&[2, 4, 3]);
    let w = World::new(nodes(s, n, false));
    let mut m = Model::default();
    let mut now = epoch(s);
    let dir = Dir::new();
    let runs = 2 + s.idx(4);
    for r in 0..runs {
        svc::session(&dir, |b| {
            if r > 0 {
                ctx.say(|| format!("[{now}] restart"));
                if s.chance(30) {
                    ctx.say(|| "initialised twice".into());
                    b.start_again()?;
                }
                // a restart may happen much later
                if s.chance(15) {
                    now = now.saturating_add(s.draw(70));
                }
                observe(b, &mut m, &w, now, ctx, &everyone(&w))?;
                if !m.rels.is_empty() {
                    ctx.hit();
                }
                let g = Gen { mean: 8, max: 16, ..Default::default() };
                let mut i = 0;
                while i < g.max {
                    let a = s.rec.len();
                    if s.draw(1000) < 1000 / (g.mean + 1) {
                        break;
                    }
                    i += 1;
                    let op = gen_op(s, &g, &m, &w, now);
                    ctx.say(|| format!("[{now}] {}", show_op(&w, &op)));
                    apply(b, &mut m, &w, &mut now, &op, ctx)?;
                    s.spans.push((a, s.rec.len()));
                }
                Ok(())
            } else {
                let g = Gen { mean: 10, max: 20, ..Default::default() };
                play(b, &w, &mut m, &mut now, s, &g, ctx)
            }
        })?;
    }
    svc::session(&dir, |b| observe(b, &mut m, &w, now, ctx, &everyone(&w)))
}

/// The database as earlier releases wrote it.
fn old_database(dir: &Dir, w: &World, m: &Model) -> R {
    let bad = |e: sql::Error| Fail { key: "harness".into(), msg: format!("older database: {e}"), harness: true };
    let pk = |n: usize| bs58::encode(&w.keys[n].enc).into_string();
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    let mut q = vec![
        "CREATE TABLE IF NOT EXISTS trust_relations(relation_type INTEGER, issued_for TEXT, issued_by TEXT, issued_at INTEGER, expires_at INTEGER, signature TEXT, PRIMARY KEY (issued_for, issued_by));".to_string(),
        "CREATE TABLE IF NOT EXISTS roots(public_key TEXT PRIMARY KEY, weight_factor INTEGER);".to_string(),
    ];
    for (n, max) in &m.roots {
        q.push(format!("INSERT INTO roots VALUES ('{}', {});", pk(*n), model::CAP.saturating_sub(*max)));
    }
    for ((by, to), r) in &m.rels {
        let (kind, at, exp, sig) = match r {
            model::Rel::Auth { at, exp, sig } => (0, *at as i64, *exp as i64, sig),
            model::Rel::Rev { at, sig } => (1, *at as i64, 0, sig),
        };
        q.push(format!("INSERT INTO trust_relations VALUES ({kind}, '{}', '{}', {at}, {exp}, x'{}');", pk(*to), pk(*by), hex(sig)));
    }
    sql::set_budget(u64::MAX);
    sql::set_fault(Fault::None);
    sql::set_dir(Some(dir.0.clone()));
    sql::set_mapped(vec![]);
    let c = sql::open("/tmp/trust-graph.sqlite").map_err(bad)?;
    for x in q {
        c.execute(x).map_err(bad)?;
    }
    Ok(())
}
fn c22_older(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 2 + s.weighted(&[2, 4, 3, 1]);
    let w = World::new(nodes(s, n, false));
    let mut m = Model::default();
    let mut now = epoch(s);
    let g = Gen { mean: 10, max: 20, ..Default::default() };
    let mut core = Core::new(s);
    play(&mut core, &w, &mut m, &mut now, s, &g, ctx)?;
    let dir = Dir::new();
    old_database(&dir, &w, &m)?;
    ctx.say(|| format!("[{now}] the service starts on a database of an earlier release with this state"));
    if !m.rels.is_empty() && !m.roots.is_empty() {
        ctx.hit();
    }
    for i in 0..2 {
        svc::session(&dir, |b| {
            if i == 0 && s.chance(50) {
                let op = gen_op(s, &g, &m, &w, now);
                ctx.say(|| format!("[{now}] {}", show_op(&w, &op)));
                apply(b, &mut m, &w, &mut now, &op, ctx)?;
            }
            observe(b, &mut m, &w, now, ctx, &everyone(&w))
        })?;
    }
    Ok(())
}

// ------------------------------------------------------------------------ C23
/// An answer with unordered parts ordered.
fn canon(v: &Value) -> Value {
    let mut v = v.clone();
    for k in ["certificates", "revocations"] {
        if let Some(Value::Array(a)) = v.get_mut(k) {
            a.sort_by_key(|x| x.to_string());
        }
    }
    v
}
type State = (Vec<BTreeSet<model::Cert>>, Vec<u32>, Vec<BTreeSet<(usize, u64, Vec<u8>)>>);
fn state_of_model(m: &Model, w: &World, now: u64) -> State {
    let mut m = m.clone();
    m.gc(now);
    (
        (0..w.n()).map(|x| m.certs(x)).collect(),
        (0..w.n()).map(|x| m.weight(x)).collect(),
        (0..w.n()).map(|x| m.revocations(x)).collect(),
    )
}
fn state_of(b: &mut Svc, w: &World, m: &Model, now: u64) -> R<State> {
    match snap(b, w, m, now)? {
        Some(x) => Ok((x.certs, x.weights, x.revs)),
        None => fail("harness", "graph too large"),
    }
}
struct Call {
    name: &'static str,
    args: Vec<Value>,
    /// the model after each further insertion of the call; the first is "nothing done"
    steps: Vec<Model>,
    /// the trusts of an inserted certificate
    trusts: Vec<(usize, usize, u64, u64, Vec<u8>)>,
}
fn c23_call(s: &mut Src, w: &World, m: &Model, now: u64) -> R<Call> {
    let n = w.n();
    let by = if s.chance(75) { *m.roots.keys().next().unwrap_or(&0) } else { s.idx(n) };
    let to = s.idx(n);
    let p = |i: usize| json!(w.keys[i].peer);
    let mut steps = vec![m.clone()];
    let mut trusts = vec![];
    let (name, args): (&'static str, Vec<Value>) = match s.weighted(&[6, 4, 3, 5, 3, 2, 2, 2, 2, 2]) {
        0 => {
            let at = gen_at(s, now, m, by, to);
            let exp = now.saturating_add(1000);
            let t = mk_trust(w, by, to, exp, at)?;
            let mut x = m.clone();
            x.add_trust(by, to, exp, at, t.signature.encode(), now);
            steps.push(x);
            ("add_trust", vec![svc::trust_json(w.keys[to], &t), p(by), json!(now)])
        }
        1 => {
            let at = gen_at(s, now, m, by, to);
            let r = mk_rev(w, by, to, at)?;
            let mut x = m.clone();
            x.upsert(by, to, model::Rel::Rev { at, sig: r.signature.encode() });
            steps.push(x);
            ("revoke", vec![svc::rev_json(w.keys[by], w.keys[to], &r), json!(now)])
        }
        2 => {
            let max = max_len(s);
            let mut x = m.clone();
            x.set_root(to, max);
            steps.push(x);
            ("set_root", vec![p(to), json!(max)])
        }
        3 => {
            let len = 2 + s.idx(3);
            let mut from = by;
            let mut chain = vec![];
            let mut tos = vec![];
            let mut x = m.clone();
            for i in 0..len {
                let to = if i == 0 { by } else { s.idx(n) };
                let at = gen_at(s, now, m, from, to);
                let exp = now.saturating_add(1000);
                let t = mk_trust(w, from, to, exp, at)?;
                x.add_trust(from, to, exp, at, t.signature.encode(), now);
                steps.push(x.clone());
                trusts.push((from, to, exp, at, t.signature.encode()));
                chain.push(t);
                tos.push(to);
                from = to;
            }
            let c = Certificate::new_unverified(chain);
            if s.chance(40) {
                ("insert_cert_raw", vec![json!(c.to_string()), json!(now)])
            } else {
                ("insert_cert", vec![Svc::cert_json(w, &c, &tos), json!(now)])
            }
        }
        4 => ("get_all_certs", vec![p(to), json!(now)]),
        5 => ("get_weight", vec![p(to), json!(now)]),
        6 => ("get_all_certs_from", vec![p(to), p(by), json!(now)]),
        7 => ("get_weight_from", vec![p(to), p(by), json!(now)]),
        8 => ("export_revocations", vec![p(to)]),
        _ => ("get_host_certs", vec![json!(now)]),
    };
    Ok(Call { name, args, steps, trusts })
}
#[derive(Clone)]
enum LCall {
    Trust(Trust, usize, usize),
    Cert(Certificate, Vec<usize>),
    Revoke(Revocation, usize, usize),
    Root(usize, u32),
    Certs(usize),
    Weight(usize),
    CertsFrom(usize, usize),
    WeightFrom(usize, usize),
    Revocations(usize),
}
/// Answer of a library call, with lists as sets.
#[derive(PartialEq, Debug)]
enum LAns {
    Unit,
    Num(u32),
    Certs(BTreeSet<model::Cert>),
    Revs(BTreeSet<(usize, u64, Vec<u8>)>),
}
fn lcall(b: &mut Core, w: &World, c: &LCall, now: u64) -> R<Result<LAns, String>> {
    Ok(match c {
        LCall::Trust(t, to, by) => b.add_trust(w, t, *to, *by, now)?.map(LAns::Num),
        LCall::Cert(c, tos) => b.add_cert(w, c, tos, now)?.map(|_| LAns::Unit),
        LCall::Revoke(r, by, to) => b.revoke(w, r, *by, *to, now)?.map(|_| LAns::Unit),
        LCall::Root(n, max) => b.set_root(w, *n, *max)?.map(|_| LAns::Unit),
        LCall::Certs(n) => b.certs(w, *n, now)?.map(|v| LAns::Certs(v.into_iter().collect())),
        LCall::Weight(n) => b.weight(w, *n, now)?.map(LAns::Num),
        LCall::CertsFrom(n, i) => b.certs_from(w, *n, *i, now)?.map(|v| LAns::Certs(v.into_iter().collect())),
        LCall::WeightFrom(n, i) => b.weight_from(w, *n, *i, now)?.map(LAns::Num),
        LCall::Revocations(n) => b.revocations(w, *n)?.map(|v| LAns::Revs(v.into_iter().collect())),
    })
}
/// The library over a store any of whose calls may fail.
fn c23_library(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 3 + s.idx(3);
    let w = World::new(nodes(s, n, false));
    let mut m = Model::default();
    let mut now = epoch(s);
    let mut b = Core::new(s);
    memstore::arm(MemFault::None);
    let g = Gen { mean: 14, max: 26, revoke: 20, query: 0, bad_trust: 0, bad_revoke: 0, tick: 3, ..Default::default() };
    play(&mut b, &w, &mut m, &mut now, s, &g, ctx)?;
    settle(&mut b, &w, &mut m, now)?;
    // leaves expired trusts to be collected by the calls themselves
    let stale = s.chance(50);
    if stale {
        now = now.saturating_add(s.draw(40));
        m.gc(now);
    }
    if (0..n).any(|x| m.partial_chains(x, 801) > 800) {
        return Ok(());
    }
    for _ in 0..3 {
        let by = if s.chance(75) { *m.roots.keys().next().unwrap_or(&0) } else { s.idx(n) };
        let to = s.idx(n);
        let mut steps = vec![m.clone()];
        let call = match s.weighted(&[5, 4, 3, 2, 5, 5, 2, 2, 2]) {
            0 => {
                let at = gen_at(s, now, &m, by, to);
                let exp = now.saturating_add(1000);
                let t = mk_trust(&w, by, to, exp, at)?;
                let mut x = m.clone();
                x.add_trust(by, to, exp, at, t.signature.encode(), now);
                steps.push(x);
                LCall::Trust(t, to, by)
            }
            1 => {
                let len = 2 + s.idx(3);
                let (mut from, mut chain, mut tos, mut x) = (by, vec![], vec![], m.clone());
                for i in 0..len {
                    let to = if i == 0 { by } else { s.idx(n) };
                    let at = gen_at(s, now, &m, from, to);
                    let exp = now.saturating_add(1000);
                    let t = mk_trust(&w, from, to, exp, at)?;
                    x.add_trust(from, to, exp, at, t.signature.encode(), now);
                    steps.push(x.clone());
                    chain.push(t);
                    tos.push(to);
                    from = to;
                }
                LCall::Cert(Certificate::new_unverified(chain), tos)
            }
            2 => {
                let at = gen_at(s, now, &m, by, to);
                let r = mk_rev(&w, by, to, at)?;
                let mut x = m.clone();
                x.upsert(by, to, model::Rel::Rev { at, sig: r.signature.encode() });
                steps.push(x);
                if stale {
                    settle(&mut b, &w, &mut m, now)?;
                }
                LCall::Revoke(r, by, to)
            }
            3 => {
                let max = max_len(s);
                let mut x = m.clone();
                x.set_root(to, max);
                steps.push(x);
                LCall::Root(to, max)
            }
            4 => LCall::Certs(to),
            5 => LCall::Weight(to),
            6 => LCall::CertsFrom(to, by),
            7 => LCall::WeightFrom(to, by),
            _ => LCall::Revocations(to),
        };
        let name = match &call {
            LCall::Trust(..) => "add_trust",
            LCall::Cert(..) => "add",
            LCall::Revoke(..) => "revoke",
            LCall::Root(..) => "set_root",
            LCall::Certs(_) => "get_all_certs",
            LCall::Weight(_) => "weight",
            LCall::CertsFrom(..) => "get_all_certs_from",
            LCall::WeightFrom(..) => "weight_from",
            LCall::Revocations(_) => "get_revocations",
        };
        ctx.label(name);
        ctx.say(|| format!("[{now}] {name} by {} to {}", w.keys[by].name, w.keys[to].name));
        let last = steps.last().unwrap().clone();
        if (0..n).any(|x| last.partial_chains(x, 1601) > 1600) {
            return Ok(());
        }
        let states: Vec<State> = steps.iter().map(|x| state_of_model(x, &w, now)).collect();
        let mut clean_run = Core::over(b.store.deep_copy());
        clean_run.allow(WORK_CAP);
        memstore::arm(MemFault::None);
        let clean = match lcall(&mut clean_run, &w, &call, now)? {
            Ok(x) => x,
            Err(e) => return fail("refused", format!("{name} failed without any fault: {e}")),
        };
        let total = memstore::calls();
        let cap = if ctx.thorough { 200 } else { 24 };
        let points: Vec<u64> = if total <= cap {
            (0..total).collect()
        } else {
            let mut v: Vec<u64> = (0..cap).map(|_| s.draw(total)).collect();
            v.extend([0, total - 1, total - 2]);
            v.sort();
            v.dedup();
            v
        };
        for k in points {
            for f in [MemFault::Before(k), MemFault::After(k), MemFault::From(k)] {
                let mut x = Core::over(b.store.deep_copy());
                x.allow(WORK_CAP);
                memstore::arm(f);
                let r = lcall(&mut x, &w, &call, now);
                memstore::arm(MemFault::None);
                ctx.checks += 1;
                ctx.hit();
                let ok = match r? {
                    Ok(v) => {
                        ensure!(v == clean, "wrong-answer", "{f:?} of {total} storage calls: {name} answered {v:?}, without the fault {clean:?}");
                        true
                    }
                    Err(_) => false,
                };
                let st = match snap(&mut x, &w, &last, now)? {
                    Some(x) => (x.certs, x.weights, x.revs),
                    None => return fail("harness", "graph too large"),
                };
                ensure!(!ok || st == *states.last().unwrap(), "lost-write", "{f:?} of {total} storage calls: {name} reported success but its effect is missing");
                ensure!(states.contains(&st), "corrupt-state", "{f:?} of {total} storage calls: {name} left a state that no leading part of its insertions explains");
            }
        }
    }
    Ok(())
}
fn c23_case(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 3 + s.idx(3);
    let w = World::new(nodes(s, n, false));
    let mut m = Model::default();
    let mut now = epoch(s);
    let dir = Dir::new();
    let host = w.keys[n - 1].peer.clone();
    svc::session(&dir, |b| {
        let g = Gen { mean: 10, max: 18, query: 0, bad_trust: 0, bad_revoke: 0, tick: 3, ..Default::default() };
        play(b, &w, &mut m, &mut now, s, &g, ctx)?;
        settle(b, &w, &mut m, now)
    })?;
    // leaves expired trusts to be collected by the call itself
    if s.chance(50) {
        now = now.saturating_add(s.draw(40));
        m.gc(now);
    }
    if (0..n).any(|x| m.partial_chains(x, 2001) > 2000) {
        return Ok(());
    }
    let call = c23_call(s, &w, &m, now)?;
    if call.name == "revoke" {
        // whether it meets an expired trust is not specified
        svc::session(&dir, |b| settle(b, &w, &mut m, now))?;
    }
    if call.steps.iter().any(|x| (0..n).any(|i| x.partial_chains(i, 4001) > 4000)) {
        return Ok(());
    }
    ctx.say(|| format!("[{now}] {}({})", call.name, call.args.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", ")));
    ctx.label(call.name);
    let last = call.steps.last().unwrap();
    let states: Vec<State> = call.steps.iter().map(|x| state_of_model(x, &w, now)).collect();
    let done = states.last().unwrap();
    // what happens without a fault
    let clean_dir = dir.copy();
    let (clean, events, binds) = svc::session(&clean_dir, |b| {
        b.host = host.clone();
        sql::set_budget(5_000_000);
        let v = b.call(call.name, call.args.clone())?;
        let e = sql::events();
        let binds = sql::binds();
        ensure!(svc::ok(&v).is_ok(), "refused", "{} failed without any fault: {v}", call.name);
        let st = state_of(b, &w, last, now)?;
        ensure!(st == *done, "state-differs", "{} without a fault left a state that differs from the model", call.name);
        Ok((canon(&v), e, binds))
    })?;
    let cap = if ctx.thorough { 60 } else { 6 };
    let points: Vec<u64> = if events <= cap {
        (0..events).collect()
    } else {
        let mut v: Vec<u64> = (0..cap).map(|_| s.draw(events)).collect();
        // the last events are where the writes are
        v.push(events - 1);
        v.push(events.saturating_sub(2));
        v.sort();
        v.dedup();
        v
    };
    let mut faults: Vec<(u8, Fault)> = points.into_iter().flat_map(|k| [(0, Fault::Before(k)), (1, Fault::After(k)), (2, Fault::Crash(k))]).collect();
    if binds > 0 {
        // parameters: anywhere, and among the last ones, where the writes are
        let any = s.draw(binds);
        let late = binds - 1 - s.draw(binds.min(6));
        faults.extend([any, late].map(|k| (0, Fault::Bind(k))));
    }
    for (mode, f) in faults {
        {
            let d = dir.copy();
            let ret = svc::session(&d, |b| {
                b.host = host.clone();
                sql::set_budget(5_000_000);
                sql::set_fault(f);
                let v = b.call(call.name, call.args.clone());
                let fired = sql::fault_fired();
                sql::set_fault(Fault::None);
                let v = canon(&v?);
                ctx.checks += 1;
                if fired > 0 {
                    ctx.hit();
                }
                let succeeded = svc::ok(&v).is_ok();
                if succeeded {
                    ensure!(v == clean, "wrong-answer", "{f:?} of {events} storage events: {} answered {v}, without the fault {clean}", call.name);
                } else {
                    for k in ["certificates", "revocations"] {
                        ensure!(v[k].as_array().map_or(true, |a| a.is_empty()), "failed-with-data", "{f:?}: {} failed but returned data: {v}", call.name);
                    }
                    ensure!(v["weight"].as_u64().unwrap_or(0) == 0, "failed-with-data", "{f:?}: {} failed but returned a weight: {v}", call.name);
                }
                if mode == 2 {
                    return Ok(succeeded);
                }
                let st = state_of(b, &w, last, now)?;
                ensure!(!succeeded || st == *done, "lost-write", "{f:?} of {events} storage events: {} reported success but its effect is missing", call.name);
                ensure!(states.contains(&st), "corrupt-state", "{f:?} of {events} storage events: {} left a state that no leading part of its insertions explains", call.name);
                retry(b, &call, &clean, &states, &st, &w, last, now, &f)?;
                Ok(succeeded)
            })?;
            if mode == 2 {
                // the process died; the service starts again
                svc::session(&d, |b| {
                    b.host = host.clone();
                    let st = state_of(b, &w, last, now)?;
                    ensure!(!ret || st == *done, "lost-write", "{f:?} of {events} storage events: {} reported success, after the restart its effect is missing", call.name);
                    ensure!(states.contains(&st), "corrupt-state", "{f:?} of {events} storage events, then restart: {} left a state that no leading part of its insertions explains", call.name);
                    retry(b, &call, &clean, &states, &st, &w, last, now, &f)
                })?;
            }
        }
    }
    Ok(())
}
#[allow(clippy::too_many_arguments)]
fn retry(b: &mut Svc, call: &Call, clean: &Value, states: &[State], st: &State, w: &World, last: &Model, now: u64, f: &Fault) -> R {
    sql::set_budget(5_000_000);
    let v = canon(&b.call(call.name, call.args.clone())?);
    if call.name.starts_with("insert_cert") {
        ensure!(svc::ok(&v).is_ok(), "retry-differs", "{f:?}, then {} again: {v}", call.name);
    } else {
        ensure!(v == *clean, "retry-differs", "{f:?}, then {} again: {v}, without the fault {clean}", call.name);
    }
    // trusts of one certificate may supersede one another: then a repetition may see
    // other weights than the first attempt did, and only the outcome is compared
    let same_again = call.steps.iter().zip(states).filter(|(_, x)| *x == st).all(|(m, _)| {
        let mut m = m.clone();
        for (by, to, exp, at, sig) in &call.trusts {
            m.add_trust(*by, *to, *exp, *at, sig.clone(), now);
        }
        call.trusts.is_empty() || state_of_model(&m, w, now) == *states.last().unwrap()
    });
    if same_again {
        let st2 = state_of(b, w, last, now)?;
        ensure!(st2 == *states.last().unwrap(), "retry-differs", "{f:?}, then {} again: the state differs from the one without the fault", call.name);
    }
    Ok(())
}

// ------------------------------------------------------------------------ C24
struct Shipped {
    file: &'static str,
    root: String,
    max: u32,
    certs: Vec<Value>,
}
fn shipped() -> R<Vec<Shipped>> {
    let bad = |f: &str, e: String| Fail { key: "shipped-data-broken".into(), msg: format!("{f}: {e}"), harness: false };
    let a: Value = serde_json::from_slice(&repo_file("distro/init_certs.json")).map_err(|e| bad("distro/init_certs.json", e.to_string()))?;
    let b: Value = serde_json::from_slice(&repo_file("builtin-package/on_start.json")).map_err(|e| bad("builtin-package/on_start.json", e.to_string()))?;
    let list = |v: &Value| v["certs"].as_array().cloned().unwrap_or_default();
    let mut out = vec![Shipped { file: "distro/init_certs.json", root: a["root_node"].as_str().unwrap_or("").to_string(), max: a["max_chain_length"].as_u64().unwrap_or(0) as u32, certs: list(&a) }];
    // the start script says which root it sets
    if let Some(air) = start_script() {
        let mut root = None;
        let mut serve = |r: air::Request| -> R<Option<Value>> {
            if r.function == "set_root" && root.is_none() {
                root = Some((r.args[0].v.clone(), r.args.get(1).map(|d| d.v.clone()).unwrap_or(Value::Null)));
            }
            Ok(Some(if r.function == "timestamp_sec" { json!(1) } else { json!({"success": true, "error": ""}) }))
        };
        match air::Air::new(OWNER, start_data(&b, HOST), &mut serve).run(&air) {
            Err(air::Stop::Unsupported) => {}
            Err(air::Stop::Fail(e)) => return Err(e),
            Ok(_) => {
                let Some((r, m)) = root else { return Err(bad("on_start.air", "sets no root".into())) };
                out.push(Shipped { file: "builtin-package/on_start.json", root: r.as_str().unwrap_or("").to_string(), max: m.as_u64().unwrap_or(0) as u32, certs: list(&b) });
            }
        }
    }
    Ok(out)
}
fn start_script() -> Option<air::A> {
    air::parse(&String::from_utf8_lossy(&repo_file("builtin-package/on_start.air")))
}
fn start_data(json: &Value, relay: &str) -> std::collections::HashMap<String, Value> {
    let mut d: std::collections::HashMap<String, Value> = json.as_object().cloned().unwrap_or_default().into_iter().collect();
    d.insert("relay".into(), json!(relay));
    d
}
/// The package's start script on a node, with generated data, clock and disturbances.
fn c24_start(s: &mut Src, ctx: &mut Ctx) -> R {
    let all = shipped()?;
    let (Some(f), Some(script)) = (all.get(1), start_script()) else {
        ctx.label("unsupported script");
        return Ok(());
    };
    let last_of = |c: &Value| c["chain"].as_array().and_then(|a| a.last()).map(|t| t["issued_for"].as_str().unwrap_or("").to_string()).unwrap_or_default();
    let times = |k: &str| -> Vec<u64> { f.certs.iter().flat_map(|c| c["chain"].as_array().cloned().unwrap_or_default()).filter_map(|t| t[k].as_u64()).collect() };
    let (from, upto) = (times("issued_at").into_iter().max().unwrap_or(0), times("expires_at").into_iter().min().unwrap_or(0));
    ensure!(from < upto, "shipped-data-broken", "{}: never valid as a whole", f.file);
    let start = match s.weighted(&[6, 1, 1, 1]) {
        0 => s.range(from, upto - 1),
        1 => from.saturating_sub(s.draw(20)),
        2 => upto - s.draw(20).min(upto),
        _ => upto + s.draw(1000),
    };
    let mine = !s.chance(15);
    let whole = s.chance(40);
    // certificates: as shipped, or some of them, repeated, damaged
    let mut list: Vec<(Value, bool)> = vec![];
    if whole {
        list = f.certs.iter().map(|c| (c.clone(), true)).collect();
    } else {
        for _ in 0..s.idx(f.certs.len() + 2) {
            let mut c = s.pick(&f.certs).clone();
            let bad = s.chance(20);
            if bad {
                let n = c["chain"].as_array().map(|a| a.len()).unwrap_or(1);
                let i = s.idx(n.max(1));
                let other = s.pick(&f.certs)["chain"][0]["signature"].clone();
                match s.weighted(&[2, 1, 1]) {
                    0 => c["chain"][i]["expires_at"] = json!(upto + 1 + s.draw(100_000)),
                    1 if i > 0 => c["chain"][i]["signature"] = other,
                    _ => c["chain"][i]["issued_for"] = json!("nobody"),
                }
            }
            list.push((c, !bad));
        }
    }
    let fault = if s.chance(25) { Some((s.idx(list.len() + 1), if s.chance(50) { sql::Fault::Before(s.draw(20)) } else { sql::Fault::After(s.draw(20)) })) } else { None };
    let step = if s.chance(30) { s.draw(3) } else { 0 };
    ctx.hit();
    ctx.say(|| format!("start at {start} (+{step} a call), valid {from}..{upto}, {} certificates{}, {}fault {fault:?}", list.len(), if whole { " as shipped" } else { "" }, if mine { "" } else { "not the owner, " }));
    let data = json!({"certs": list.iter().map(|x| x.0.clone()).collect::<Vec<_>>()});
    let dir = Dir::new();
    svc::session(&dir, |b| {
        let init = if mine { b.owner.clone() } else { ed(9).peer.clone() };
        let owner = b.owner.clone();
        let (mut clock, mut calls, mut errors, mut returns, mut inserted, mut rooted) = (start, 0, vec![], vec![], vec![], false);
        let host = b.host.clone();
        let mut serve = |r: air::Request| -> R<Option<Value>> {
            if r.peer != host {
                return Ok(None);
            }
            Ok(match (r.service, r.function) {
                ("peer", "timestamp_sec") => {
                    clock += step;
                    Some(json!(clock))
                }
                ("op", "return") => {
                    returns.push(r.args.first().map(|d| d.v.clone()).unwrap_or(Value::Null));
                    Some(Value::Null)
                }
                ("trust-graph", name) if svc::exported(name) => {
                    let disturbed = match &fault {
                        Some((k, x)) if *k == calls => {
                            sql::set_fault(*x);
                            true
                        }
                        _ => false,
                    };
                    calls += 1;
                    b.init = init.clone();
                    let v = b.call_with(name, r.args.iter().map(|d| d.v.clone()).collect(), r.args.iter().map(|d| d.origin.clone()).collect());
                    sql::set_fault(sql::Fault::None);
                    let v = v?;
                    b.init = owner.clone();
                    match svc::ok(&v) {
                        Err(e) => errors.push((e, disturbed)),
                        Ok(_) if name == "set_root" => rooted = true,
                        Ok(_) => inserted.push((r.args[0].v.clone(), clock)),
                    }
                    Some(v)
                }
                _ => None,
            })
        };
        let r = air::Air::new(&init, start_data(&data, &host), &mut serve).run(&script);
        let out = match r {
            Err(air::Stop::Unsupported) => {
                ctx.label("unsupported script");
                return Ok(());
            }
            Err(air::Stop::Fail(e)) => return Err(e),
            Ok(x) => x,
        };
        ctx.checks += 1;
        ensure!(out.is_ok(), "start-fails", "the start script fails: {out:?}");
        // every failure is reported, nothing else is
        for (e, _) in &errors {
            ensure!(returns.contains(&json!(e)), "start-silent", "the start script does not report {e:?}: {returns:?}");
        }
        if errors.is_empty() {
            ensure!(returns == vec![json!(true)], "start-report", "nothing failed, yet the start script reports {returns:?}");
        }
        ensure!(rooted == mine || fault.is_some(), "start-root", "the root is {}set by {}", if rooted { "" } else { "not " }, if mine { "the owner" } else { "another peer" });
        // whatever is in order is inserted, in spite of others
        let end = clock;
        if fault.is_none() && start >= from && end < upto {
            for (i, (c, good)) in list.iter().enumerate() {
                ensure!(inserted.iter().any(|x| x.0 == *c) == *good || (!good && inserted.iter().all(|x| x.0 != *c)), "start-skips", "certificate {i} is {}inserted", if *good { "not " } else { "" });
            }
        }
        for (c, at) in &inserted {
            let good = list.iter().any(|x| x.0 == *c && x.1);
            ensure!(good && *at >= from && *at <= upto, "start-accepts", "a certificate that is not valid at {at} was inserted: {c}");
        }
        let max = f.max;
        for c in &f.certs {
            let p = last_of(c);
            let v = b.call("get_weight", vec![json!(p), json!(end)])?;
            ctx.checks += 1;
            ensure!(svc::ok(&v).is_ok(), "start-weight", "get_weight: {v}");
            let want = inserted.iter().any(|x| last_of(&x.0) == p && x.0["chain"].as_array().map_or(0, |a| a.len()) as u32 - 1 <= max) && rooted && end < upto;
            let has = v["weight"].as_u64() > Some(0);
            if (fault.is_none() || want) && end != upto {
                // a certificate may pass through peers that are listed themselves
                let through = inserted.iter().any(|x| x.0["chain"].as_array().into_iter().flatten().any(|t| t["issued_for"] == json!(p)));
                ensure!(has == want || (has && through && rooted && end < upto), "start-weight", "{p} has weight {} at {end} after the start", v["weight"]);
            }
        }
        if whole && mine && errors.is_empty() {
            ctx.label("complete start");
        }
        if !errors.is_empty() {
            ctx.label("errors reported");
        }
        Ok(())
    })
}
fn pk_of_peer(p: &str) -> R<fluence_keypair::PublicKey> {
    let e = |x: String| Fail { key: "shipped-data-broken".into(), msg: format!("peer id {p:?}: {x}"), harness: false };
    let id: libp2p_identity::PeerId = p.parse().map_err(|x| e(format!("{x:?}")))?;
    fluence_keypair::PublicKey::try_from(id).map_err(|x| e(format!("{x:?}")))
}
fn c24_case(s: &mut Src, ctx: &mut Ctx) -> R {
    let all = shipped()?;
    let f = &all[s.idx(all.len())];
    ensure!(!f.certs.is_empty(), "shipped-data-broken", "{} lists no certificates", f.file);
    let root = pk_of_peer(&f.root)?;
    let mut certs = vec![];
    for c in &f.certs {
        let mut chain = vec![];
        for t in c["chain"].as_array().into_iter().flatten() {
            let ty = match t["sig_type"].as_str() {
                Some("ed25519") => KeyFormat::Ed25519,
                Some("secp256k1") => KeyFormat::Secp256k1,
                Some("rsa") => KeyFormat::Rsa,
                x => return fail("shipped-data-broken", format!("{}: signature type {x:?}", f.file)),
            };
            let sig = bs58::decode(t["signature"].as_str().unwrap_or("0")).into_vec();
            let Ok(sig) = sig else { return fail("shipped-data-broken", format!("{}: signature is not base58", f.file)) };
            let (Some(e), Some(a)) = (t["expires_at"].as_u64(), t["issued_at"].as_u64()) else { return fail("shipped-data-broken", "times") };
            chain.push(Trust { issued_for: pk_of_peer(t["issued_for"].as_str().unwrap_or(""))?, expires_at: secs(e), issued_at: secs(a), signature: Signature::from_bytes(ty, sig) });
        }
        certs.push(Certificate::new_unverified(chain));
    }
    // the period in which everything shipped is valid
    let from = certs.iter().flat_map(|c| c.chain.iter().map(|t| t.issued_at.as_secs())).max().unwrap_or(0);
    let upto = certs.iter().flat_map(|c| c.chain.iter().map(|t| t.expires_at.as_secs())).min().unwrap_or(0);
    ensure!(from < upto, "shipped-data-broken", "{}: never valid as a whole", f.file);
    let now = match s.weighted(&[2, 2, 2, 3]) {
        0 => from,
        1 => upto - 1,
        2 => from + s.draw((upto - from).min(1000)),
        _ => s.range(from, upto - 1),
    };
    let mut order: Vec<usize> = (0..certs.len()).collect();
    s.shuffle(&mut order);
    ctx.say(|| format!("{} at {now}, order {order:?}", f.file));
    ctx.hit();
    for (i, c) in certs.iter().enumerate() {
        ctx.checks += 1;
        let r = no_panic("Certificate::verify", || Certificate::verify(c, &[root.clone()], secs(now)))?;
        if let Err(e) = r {
            return fail("shipped-invalid", format!("{}: certificate {i} does not verify at {now}: {e}", f.file));
        }
        ensure!(c.chain.len() >= 2 && c.chain.len() as u32 - 1 <= f.max, "shipped-too-long", "{}: certificate {i} has {} trusts, the root allows {}", f.file, c.chain.len(), f.max);
        // independently of the code under test
        let mut by = c.chain[0].issued_for.clone();
        for t in &c.chain {
            let mut msg = t.issued_for.encode();
            msg.extend_from_slice(&t.expires_at.as_secs().to_le_bytes());
            msg.extend_from_slice(&t.issued_at.as_secs().to_le_bytes());
            let lp: libp2p_identity::PublicKey = by.clone().into();
            use sha2::Digest;
            ensure!(lp.verify(&sha2::Sha256::digest(&msg), t.signature.to_vec()), "shipped-invalid", "{}: certificate {i} has a wrong signature", f.file);
            by = t.issued_for.clone();
        }
        let r = no_panic("Certificate::verify", || Certificate::verify(c, &[root.clone()], secs(upto + 1 + now % 7)))?;
        let live = c.chain.iter().all(|t| t.expires_at.as_secs() > upto + 8);
        ensure!(live || r.is_err(), "shipped-outlives", "{}: certificate {i} still verifies after its expiry", f.file);
    }
    let mut expect: BTreeMap<String, u32> = BTreeMap::new();
    for (c, j) in certs.iter().zip(&f.certs) {
        let p = j["chain"].as_array().and_then(|a| a.last()).map(|t| t["issued_for"].as_str().unwrap_or("").to_string()).unwrap();
        let wgt = 1u32 << (f.max.min(16) - (c.chain.len() as u32 - 1).min(f.max));
        let e = expect.entry(p).or_default();
        *e = (*e).max(wgt);
    }
    let end = certs.iter().flat_map(|c| c.chain.iter().map(|t| t.expires_at.as_secs())).max().unwrap();
    let dir = Dir::new();
    svc::session(&dir, |b| {
        let v = b.call("set_root", vec![json!(f.root), json!(f.max)])?;
        ensure!(svc::ok(&v).is_ok(), "shipped-refused", "set_root: {v}");
        for i in &order {
            let v = if s.chance(30) { b.call("insert_cert_raw", vec![json!(certs[*i].to_string()), json!(now)])? } else { b.call("insert_cert", vec![f.certs[*i].clone(), json!(now)])? };
            ensure!(svc::ok(&v).is_ok(), "shipped-refused", "{}: certificate {i} refused at {now}: {v}", f.file);
        }
        for t in [now, upto - 1] {
            for (p, e) in &expect {
                let v = b.call("get_weight", vec![json!(p), json!(t)])?;
                ctx.checks += 1;
                let g = v["weight"].as_u64().unwrap_or(0) as u32;
                ensure!(svc::ok(&v).is_ok() && g > 0, "shipped-weightless", "{}: {p} has no weight at {t}: {v}", f.file);
                ensure!(g >= *e, "shipped-weight", "{}: {p} weighs {g} at {t}, its certificate gives {e}", f.file);
            }
        }
        for p in expect.keys() {
            let v = b.call("get_weight", vec![json!(p), json!(end)])?;
            ctx.checks += 1;
            ensure!(svc::ok(&v).is_ok() && v["weight"].as_u64() == Some(0), "shipped-outlives", "{}: {p} has weight at {end}: {v}", f.file);
        }
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19", level: "exploration",
            assumptions: &["SQLite itself is correct", "the host reports the initiator and creator of the service truthfully"],
            subs: vec![Sub { name: "service", quick: 2500, thorough: 40_000, rule: "sequence of root settings by owner and others with relations in between; non-trivial when a foreign request was made or a root was set again", f: c19_case }],
        },
        Prop {
            id: "C20", level: "exploration",
            assumptions: &["the host reports argument origins truthfully", "an argument with several origins counts as the host clock's only if the first is; lists that start with the host clock and go on otherwise are not generated"],
            subs: vec![
                Sub { name: "origin", quick: 3500, thorough: 60_000, rule: "short history, then a time-taking call with generated argument origins; non-trivial when the time's origin is not the host clock", f: c20_origin },
                Sub { name: "future", quick: 2500, thorough: 40_000, rule: "short history, then a relation or certificate dated around the current time; non-trivial when dated later", f: c20_future },
            ],
        },
        Prop {
            id: "C21", level: "exploration",
            assumptions: &["SQLite itself is correct", "the marine runtime passes arguments of the declared types"],
            subs: vec![
                Sub { name: "twin", quick: 2000, thorough: 40_000, rule: "the same history on service and library; non-trivial when some peer has a certificate at the end", f: c21_twin },
                Sub { name: "flow", quick: 3000, thorough: 50_000, rule: "bytes, client signature, issue, verify, add, report, revoke; non-trivial when verification was reached", f: c21_flow },
                Sub { name: "issued", quick: 2000, thorough: 40_000, rule: "all", f: c21_issued },
                Sub { name: "malformed", quick: 2000, thorough: 40_000, rule: "short history, then calls with one malformed argument; all non-trivial", f: c21_malformed },
                Sub { name: "wide", quick: 20, thorough: 400, rule: "a graph of many peers, roots, certificates or revokers on service and library; non-trivial when some peer has a certificate", f: c21_wide },
            ],
        },
        Prop {
            id: "C22", level: "exploration",
            assumptions: &["SQLite itself is durable once a statement has completed"],
            subs: vec![Sub { name: "restarts", quick: 1500, thorough: 30_000, rule: "history split by restarts; non-trivial when there was something to preserve", f: c22_case }, Sub { name: "wide", quick: 20, thorough: 400, rule: "a graph of many peers, roots, certificates or revokers, then restarts; non-trivial when some peer has a certificate", f: c22_wide },
                Sub { name: "older", quick: 500, thorough: 15_000, rule: "a history's state written with the tables of earlier releases, taken over by the service; non-trivial when it has roots and relations", f: c22_older }],
        },
        Prop {
            id: "C23", level: "fault_enumeration",
            assumptions: &["SQLite itself is atomic per statement", "a failing storage operation is reported by SQLite as an error code"],
            subs: vec![Sub { name: "faults", quick: 500, thorough: 2500, rule: "history, one call, and every (sampled when many) storage event of it failing before or after its effect or starting a crash; non-trivial when a fault hit", f: c23_case }, Sub { name: "library", quick: 2500, thorough: 40_000, rule: "history with revocations on the library, then calls during which each (sampled when many) storage call fails before or after its effect or for good; non-trivial when a fault was placed", f: c23_library }],
        },
        Prop {
            id: "C24", level: "exploration",
            assumptions: &[],
            subs: vec![Sub { name: "shipped", quick: 600, thorough: 10_000, rule: "one shipped file, a time within its validity, an insertion order; all non-trivial", f: c24_case },
                Sub { name: "start", quick: 900, thorough: 15_000, rule: "the start script with shipped, selected or damaged certificates, a clock, an owner, at most one storage fault; all non-trivial", f: c24_start }],
        },
    ]
}
