//! C10-C18: behaviour of the graph over histories of operations.
use crate::engine::*;
use crate::ensure;
use crate::hist::*;
use crate::keys::*;
use crate::model::{self, Model, Rel};
use crate::svc::{self, Dir, Svc};
use sha2::Digest;
use std::collections::BTreeSet;
use trust_graph::{Certificate, Trust};

type Body = fn(&mut dyn Backend, &World, &mut Model, &mut u64, &mut Src, &mut Ctx) -> R;

/// A case on the library over the in-memory store.
fn on_core(s: &mut Src, ctx: &mut Ctx, n: usize, f: Body) -> R {
    let w = World::new(nodes(s, n, true));
    let mut b = Core::new(s);
    let mut m = Model::default();
    let mut now = epoch(s);
    let t0 = now;
    ctx.say(|| format!("library, {} peers, clock starts at {t0}", w.n()));
    f(&mut b, &w, &mut m, &mut now, s, ctx)
}
/// The same on the service over SQLite.
fn on_svc(s: &mut Src, ctx: &mut Ctx, n: usize, f: Body) -> R {
    let w = World::new(nodes(s, n, false));
    let mut m = Model::default();
    let mut now = epoch(s);
    let t0 = now;
    ctx.say(|| format!("service, {} peers, clock starts at {t0}", w.n()));
    let dir = Dir::new();
    svc::session(&dir, |b| {
        places(s, b, &w);
        f(b, &w, &mut m, &mut now, s, ctx)
    })
}
/// The host and the owner may be peers of the graph like any other.
pub fn places(s: &mut Src, b: &mut Svc, w: &World) {
    if s.chance(30) {
        b.host = w.keys[s.idx(w.n())].peer.clone();
    }
    if s.chance(30) {
        b.owner = w.keys[s.idx(w.n())].peer.clone();
        b.init = b.owner.clone();
    }
}
fn wide_core(s: &mut Src, ctx: &mut Ctx, f: Body) -> R {
    let w = World::new(wide_nodes(wide(s)));
    let mut b = Core::new(s);
    let mut m = Model::default();
    let mut now = epoch(s);
    f(&mut b, &w, &mut m, &mut now, s, ctx)
}
/// As wide as it gets, more than a thousand relations for one peer.
fn huge_svc(s: &mut Src, ctx: &mut Ctx, f: Body) -> R {
    wide_svc_of(s, ctx, N_WIDE, f)
}
fn wide_svc(s: &mut Src, ctx: &mut Ctx, f: Body) -> R {
    let n = wide(s);
    wide_svc_of(s, ctx, n, f)
}
fn wide_svc_of(s: &mut Src, ctx: &mut Ctx, n: usize, f: Body) -> R {
    let w = World::new(wide_nodes(n));
    let mut m = Model::default();
    let mut now = epoch(s);
    let dir = Dir::new();
    svc::session(&dir, |b| f(b, &w, &mut m, &mut now, s, ctx))
}
/// Number of peers of a wide graph: mostly large.
pub fn wide(s: &mut Src) -> usize {
    match s.weighted(&[30, 60, 90, 5]) {
        0 => 4 + s.idx(20),
        1 => 20 + s.idx(60),
        2 => 300 - s.idx(100),
        _ => N_WIDE,
    }
}
fn small(s: &mut Src) -> usize {
    3 + s.weighted(&[2, 4, 4, 2])
}
fn deep(s: &mut Src) -> usize {
    2 + s.idx(18)
}
pub fn everyone(w: &World) -> Vec<usize> {
    (0..w.n()).collect()
}

// ------------------------------------------------------------------------ C10
fn sig_ok(w: &World, by: usize, t: &model::T) -> bool {
    let mut msg = w.keys[t.to].enc.clone();
    msg.extend_from_slice(&t.exp.to_le_bytes());
    msg.extend_from_slice(&t.at.to_le_bytes());
    w.keys[by].lp.public().verify(&sha2::Sha256::digest(&msg), &t.sig[1..])
}
fn sound(b: &mut dyn Backend, m: &mut Model, w: &World, now: u64, ctx: &mut Ctx) -> R {
    m.gc(now);
    for n in 0..w.n() {
        let p = m.partial_chains(n, WORK_CAP + 1);
        if p > WORK_CAP {
            continue;
        }
        b.allow(p);
        let certs = match b.certs(w, n, now)? {
            Ok(c) => c,
            Err(e) => return fail("query-failed", format!("certificates of {}: {e}", w.keys[n].name)),
        };
        let mut seen = BTreeSet::new();
        for c in &certs {
            let bad = |k: &str, why: String| -> R { fail(k, format!("certificate {} of {} at {now}: {why}", show_cert(w, c), w.keys[n].name)) };
            ctx.hit();
            ctx.checks += 1;
            ensure!(seen.insert(c.clone()), "duplicate-certificate", "certificate {} of {} is returned twice", show_cert(w, c), w.keys[n].name);
            if c.len() < 2 {
                return bad("too-short", "has fewer than two trusts".into());
            }
            if c.last().unwrap().to != n {
                return bad("wrong-subject", "does not end in the queried peer".into());
            }
            let root = c[0].to;
            let Some(max) = m.roots.get(&root) else { return bad("not-a-root", format!("starts at {} which is no root", w.keys[root].name)) };
            if c.len() as u64 - 1 > *max as u64 || c.len() > 17 {
                return bad("chain-too-long", format!("has {} trusts after the root's, the root allows {max}", c.len() - 1));
            }
            let mut path: Vec<usize> = vec![];
            for (i, t) in c.iter().enumerate() {
                let by = if i == 0 { root } else { c[i - 1].to };
                if !sig_ok(w, by, t) {
                    return bad("bad-signature", format!("trust {i} is not signed by {}", w.keys[by].name));
                }
                if t.exp <= now {
                    return bad("expired-trust", format!("trust {i} expired at {}", t.exp));
                }
                match m.rels.get(&(by, t.to)) {
                    Some(Rel::Auth { at, exp, sig }) if *at == t.at && *exp == t.exp && *sig == t.sig => {}
                    r => return bad("stale-trust", format!("trust {i} ({} -> {}) is not the current relation of that pair: {}", w.keys[by].name, w.keys[t.to].name, match r { None => "none", Some(Rel::Rev { .. }) => "revocation", _ => "another trust" })),
                }
                if i > 0 && by == t.to {
                    // own self-signed trust: at most once, and not for the root again
                    if i == 1 || c[i - 2].to == by {
                        return bad("peer-twice", format!("{} appears too often", w.keys[by].name));
                    }
                } else {
                    if path.contains(&t.to) {
                        return bad("peer-twice", format!("{} is visited twice", w.keys[t.to].name));
                    }
                    for e in &path {
                        if matches!(m.rels.get(&(*e, t.to)), Some(Rel::Rev { .. })) {
                            return bad("revoked-member", format!("{} is revoked by the earlier member {}", w.keys[t.to].name, w.keys[*e].name));
                        }
                    }
                    path.push(t.to);
                }
            }
        }
    }
    Ok(())
}
fn c10_body(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    let g = Gen { revoke: 18, trust: 60, query: 2, roots: 4, ..Default::default() };
    play(b, w, m, now, s, &g, ctx)?;
    sound(b, m, w, *now, ctx)?;
    // and again a little later
    *now = now.saturating_add(s.draw(80));
    sound(b, m, w, *now, ctx)
}
fn c10_chain(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    play_chain(b, w, m, now, s, ctx)?;
    sound(b, m, w, *now, ctx)
}
fn c10_wide_body(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    play_wide(b, w, m, now, s, ctx)?;
    sound(b, m, w, *now, ctx)
}
fn c10_wide(s: &mut Src, ctx: &mut Ctx) -> R {
    wide_core(s, ctx, c10_wide_body)
}
fn c10_wide_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    wide_svc(s, ctx, c10_wide_body)
}
fn c10_lib(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_core(s, ctx, n, c10_body)
}
fn c10_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_svc(s, ctx, n, c10_body)
}
fn c10_deep(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = deep(s);
    on_core(s, ctx, n, c10_chain)
}

// ------------------------------------------------------------------------ C11
fn complete(b: &mut dyn Backend, m: &mut Model, w: &World, now: u64, ctx: &mut Ctx, who: &[usize]) -> R {
    m.gc(now);
    for &n in who {
        let p = m.partial_chains(n, WORK_CAP + 1);
        if p > WORK_CAP {
            continue;
        }
        b.allow(p);
        let got: BTreeSet<model::Cert> = match b.certs(w, n, now)? {
            Ok(c) => c.into_iter().collect(),
            Err(e) => return fail("query-failed", format!("certificates of {}: {e}", w.keys[n].name)),
        };
        for c in m.certs(n) {
            ctx.hit();
            ctx.checks += 1;
            ensure!(got.contains(&c), "certificate-missing", "certificate {} of {} at {now} is not found ({} found)", show_cert(w, &c), w.keys[n].name, got.len());
        }
    }
    Ok(())
}
fn c11_body(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    let g = Gen { trust: 80, revoke: 6, tick: 3, query: 4, mean: 26, max: 50, ..Default::default() };
    play(b, w, m, now, s, &g, ctx)?;
    // queries in any order, some repeated
    let mut who = everyone(w);
    s.shuffle(&mut who);
    who.push(s.idx(w.n()));
    complete(b, m, w, *now, ctx, &who)
}
fn c11_dense(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    // near-complete graph: every cycle there can be
    let nroots = 1 + s.idx(2);
    let mut pairs = vec![];
    for a in 0..w.n() {
        for c in 0..w.n() {
            pairs.push((a, c));
        }
    }
    s.shuffle(&mut pairs);
    let keep = 100 - s.draw(60);
    for r in 0..nroots {
        let op = Op::Root { n: r, max: *s.pick(&[5, 6, 4, 16, 3, 20]) };
        ctx.say(|| show_op(w, &op));
        apply(b, m, w, now, &op, ctx)?;
    }
    // two passes so that weight has reached everyone
    let mut ops = vec![];
    for r in 0..nroots {
        ops.push(Op::Trust { by: r, to: r, exp: u64::MAX, at: *now });
    }
    for (a, c) in pairs {
        if s.draw(100) < keep {
            ops.push(Op::Trust { by: a, to: c, exp: now.saturating_add(1000).max(1), at: *now });
        }
    }
    for i in 0..2 {
        for op in &ops {
            if i == 0 {
                ctx.say(|| show_op(w, op));
            }
            apply(b, m, w, now, op, ctx)?;
        }
    }
    ctx.label("dense");
    complete(b, m, w, *now, ctx, &everyone(w))
}
fn c11_chain(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    play_chain(b, w, m, now, s, ctx)?;
    complete(b, m, w, *now, ctx, &everyone(w))
}
fn c11_wide_body(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    let who = play_wide(b, w, m, now, s, ctx)?;
    complete(b, m, w, *now, ctx, &who)
}
fn c11_wide(s: &mut Src, ctx: &mut Ctx) -> R {
    wide_core(s, ctx, c11_wide_body)
}
fn c11_huge(s: &mut Src, ctx: &mut Ctx) -> R {
    huge_svc(s, ctx, c11_wide_body)
}
fn c11_wide_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    wide_svc(s, ctx, c11_wide_body)
}
fn c11_lib(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_core(s, ctx, n, c11_body)
}
fn c11_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_svc(s, ctx, n, c11_body)
}
fn c11_deep(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = deep(s);
    on_core(s, ctx, n, c11_chain)
}
fn c11_deep_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = deep(s);
    on_svc(s, ctx, n, c11_chain)
}
fn c11_cycles(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 2 + s.idx(4);
    on_core(s, ctx, n, c11_dense)
}

// ------------------------------------------------------------------------ C12
fn weights(b: &mut dyn Backend, m: &mut Model, w: &World, now: u64, ctx: &mut Ctx) -> R {
    m.gc(now);
    let mut ws = vec![];
    for n in 0..w.n() {
        let p = m.partial_chains(n, WORK_CAP + 1);
        if p > WORK_CAP {
            return Ok(());
        }
        b.allow(p);
        let g = match b.weight(w, n, now)? {
            Ok(x) => x,
            Err(e) => return fail("query-failed", format!("weight of {}: {e}", w.keys[n].name)),
        };
        let want = m.weight(n);
        ctx.checks += 1;
        if want > 0 && !m.roots.contains_key(&n) {
            ctx.hit();
        }
        ensure!(g == 0 || g.is_power_of_two(), "not-a-power", "weight of {} is {g}", w.keys[n].name);
        ensure!(g == want, "weight-differs", "weight of {} at {now} is {g}, expected {want}", w.keys[n].name);
        // the weight is the best over the certificates the graph itself reports
        b.allow(p);
        let best = match b.certs(w, n, now)? {
            Ok(c) => c.iter().map(|c| if m.roots.contains_key(&c[0].to) && c.len() as u32 - 1 <= m.limit(c[0].to) { m.cert_weight(c) } else { 0 }).max().unwrap_or(0),
            Err(e) => return fail("query-failed", e),
        };
        ensure!(g == best.max(m.root_weight(n)), "weight-vs-certificates", "weight of {} is {g}, its certificates give {best} and its root weight is {}", w.keys[n].name, m.root_weight(n));
        ws.push(g);
    }
    for n in 0..w.n() {
        if m.roots.contains_key(&n) {
            continue;
        }
        let up = m.rels.iter().filter(|((by, to), r)| *to == n && *by != n && matches!(r, Rel::Auth { .. })).map(|((by, _), _)| ws[*by]).max().unwrap_or(0);
        ensure!(ws[n] <= up / 2, "weight-grows", "{} weighs {} but the best who trust it weigh {up}", w.keys[n].name, ws[n]);
    }
    Ok(())
}
fn c12_body(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    let g = Gen { roots: 9, trust: 60, ..Default::default() };
    play(b, w, m, now, s, &g, ctx)?;
    weights(b, m, w, *now, ctx)?;
    *now = now.saturating_add(s.draw(80));
    weights(b, m, w, *now, ctx)
}
fn c12_chain(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    play_chain(b, w, m, now, s, ctx)?;
    weights(b, m, w, *now, ctx)
}
fn c12_wide_body(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    play_wide(b, w, m, now, s, ctx)?;
    weights(b, m, w, *now, ctx)
}
fn c12_wide(s: &mut Src, ctx: &mut Ctx) -> R {
    wide_core(s, ctx, c12_wide_body)
}
fn c12_wide_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    wide_svc(s, ctx, c12_wide_body)
}
fn c12_lib(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_core(s, ctx, n, c12_body)
}
fn c12_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_svc(s, ctx, n, c12_body)
}
/// The weight of a list of certificates is that of its best one.
fn c12_lists(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    let w = World::new(nodes(s, n, true));
    let mut b = Core::new(s);
    let mut m = Model::default();
    let mut now = epoch(s);
    let g = Gen { roots: 9, trust: 60, query: 0, ..Default::default() };
    play(&mut b, &w, &mut m, &mut now, s, &g, ctx)?;
    m.gc(now);
    let mut pool: Vec<Certificate> = vec![];
    for n in 0..w.n() {
        let p = m.partial_chains(n, WORK_CAP + 1);
        if p > WORK_CAP {
            return Ok(());
        }
        b.allow(p);
        match b.raw_certs(&w, n, now)? {
            Ok(c) => pool.extend(c),
            Err(e) => return fail("query-failed", e),
        }
    }
    for _ in 0..4 {
        // certificates of any peers in any order, possibly repeated
        let k = if pool.is_empty() { 0 } else { s.idx(5) };
        let list: Vec<Certificate> = (0..k).map(|_| s.pick(&pool).clone()).collect();
        let mut want = None;
        for c in &list {
            want = want.max(Some(m.cert_weight(&w.cert(c)?)));
        }
        b.allow(1000);
        let got = no_panic("certificates_weight_factor", || b.tg.certificates_weight_factor(&list).map_err(|e| e.to_string()))?;
        ctx.checks += 1;
        if k > 1 {
            ctx.hit();
        }
        match got {
            Ok(f) => {
                let g = f.map(|f| 1u32 << trust_graph::MAX_WEIGHT_FACTOR.saturating_sub(f));
                ensure!(g == want, "list-weight", "weight of a list of {k} certificates is {g:?}, expected {want:?}");
            }
            Err(e) => return fail("query-failed", format!("certificates_weight_factor: {e}")),
        }
    }
    Ok(())
}
fn c12_deep(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = deep(s);
    on_core(s, ctx, n, c12_chain)
}

// ------------------------------------------------------------------ snapshots
#[derive(PartialEq, Eq, Clone)]
pub struct Snap {
    pub certs: Vec<BTreeSet<model::Cert>>,
    pub weights: Vec<u32>,
    pub revs: Vec<BTreeSet<(usize, u64, Vec<u8>)>>,
}
/// Everything visible, or None if the graph has too many partial chains.
pub fn snap(b: &mut dyn Backend, w: &World, m: &Model, now: u64) -> R<Option<Snap>> {
    let mut o = Snap { certs: vec![], weights: vec![], revs: vec![] };
    for n in 0..w.n() {
        let p = m.partial_chains(n, WORK_CAP + 1);
        if p > WORK_CAP {
            return Ok(None);
        }
        let q = |e: String| Fail { key: "query-failed".into(), msg: e, harness: false };
        b.allow(p);
        o.certs.push(as_set(w, n, b.certs(w, n, now)?.map_err(q)?)?);
        b.allow(p);
        o.weights.push(b.weight(w, n, now)?.map_err(q)?);
        o.revs.push(b.revocations(w, n)?.map_err(q)?.into_iter().collect());
    }
    Ok(Some(o))
}
pub fn diff(w: &World, a: &Snap, b: &Snap) -> Option<String> {
    for n in 0..w.n() {
        let k = &w.keys[n].name;
        if a.certs[n] != b.certs[n] {
            return Some(format!("certificates of {k}: only first {}, only second {}", show_certs(w, a.certs[n].difference(&b.certs[n])), show_certs(w, b.certs[n].difference(&a.certs[n]))));
        }
        if a.weights[n] != b.weights[n] {
            return Some(format!("weight of {k}: {} / {}", a.weights[n], b.weights[n]));
        }
        if a.revs[n] != b.revs[n] {
            return Some(format!("revocations of {k}: {} / {}", a.revs[n].len(), b.revs[n].len()));
        }
    }
    None
}

// ------------------------------------------------------------------------ C13
fn c13_body(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    let g = Gen { mean: 12, max: 24, bad_trust: 2, ..Default::default() };
    play(b, w, m, now, s, &g, ctx)?;
    for _ in 0..3 {
        let Some(before) = snap(b, w, m, *now)? else { return Ok(()) };
        m.gc(*now);
        let by = s.idx(w.n());
        let to = if s.chance(20) { by } else { s.idx(w.n()) };
        let at = gen_at(s, *now, m, by, to);
        let exp = gen_exp(s, *now);
        if s.chance(60) {
            let op = Op::BadTrust { by, to, exp, at, how: s.draw(6) as u8 };
            ctx.say(|| format!("[{now}] {}", show_op(w, &op)));
            apply(b, m, w, now, &op, ctx)?;
            ctx.hit();
            let Some(after) = snap(b, w, m, *now)? else { return Ok(()) };
            ctx.checks += 1;
            if let Some(d) = diff(w, &before, &after) {
                return fail("refused-but-changed", format!("{} was refused but changed the graph: {d}", show_op(w, &op)));
            }
        } else {
            let wby = m.weight(by);
            let want = if by == to { wby } else { wby / 2 };
            let op = Op::Trust { by, to, exp, at };
            ctx.say(|| format!("[{now}] {}", show_op(w, &op)));
            apply(b, m, w, now, &op, ctx)?;
            if want == 0 {
                ctx.hit();
                ctx.label("weightless trust offered");
                let Some(after) = snap(b, w, m, *now)? else { return Ok(()) };
                ctx.checks += 1;
                if let Some(d) = diff(w, &before, &after) {
                    return fail("weightless-but-changed", format!("{} had no weight but changed the graph: {d}", show_op(w, &op)));
                }
                // nor may it come to life once its issuer gains weight
                if s.chance(50) {
                    let r = Op::Root { n: by, max: 3 };
                    ctx.say(|| show_op(w, &r));
                    apply(b, m, w, now, &r, ctx)?;
                    let t = Op::Trust { by, to: by, exp: u64::MAX, at: *now };
                    apply(b, m, w, now, &t, ctx)?;
                    observe(b, m, w, *now, ctx, &everyone(w))?;
                }
            } else {
                observe(b, m, w, *now, ctx, &[to, by])?;
            }
        }
    }
    Ok(())
}
fn c13_lib(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_core(s, ctx, n, c13_body)
}
fn c13_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_svc(s, ctx, n, c13_body)
}
fn c13_chain(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    // the edge of the graph: trusts issued by peers of weight 4, 2, 1 and 0
    let max = 1 + s.idx(17) as u32;
    for op in [Op::Root { n: 0, max }, Op::Trust { by: 0, to: 0, exp: u64::MAX, at: *now }] {
        apply(b, m, w, now, &op, ctx)?;
    }
    for i in 1..w.n() {
        let op = Op::Trust { by: i - 1, to: i, exp: u64::MAX, at: *now };
        ctx.say(|| show_op(w, &op));
        apply(b, m, w, now, &op, ctx)?;
        let op = Op::Trust { by: i, to: i, exp: u64::MAX, at: *now };
        if s.chance(20) {
            apply(b, m, w, now, &op, ctx)?;
        }
    }
    ctx.hit();
    observe(b, m, w, *now, ctx, &everyone(w))
}
fn c13_deep(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = deep(s);
    on_core(s, ctx, n, c13_chain)
}

// ------------------------------------------------------------------------ C14
#[derive(Clone)]
enum Doc {
    T(usize, usize, Trust),
    V(usize, usize, trust_graph::Revocation),
}
fn deliver(b: &mut dyn Backend, w: &World, d: &Doc, now: u64, p: u64) -> R {
    b.allow(p);
    match d {
        Doc::T(by, to, t) => match b.add_trust(w, t, *to, *by, now)? {
            Ok(x) if x > 0 => Ok(()),
            Ok(_) => fail("refused", format!("trust {} -> {} got no weight although its issuer always has some", w.keys[*by].name, w.keys[*to].name)),
            Err(e) => fail("refused", format!("trust {} -> {} refused: {e}", w.keys[*by].name, w.keys[*to].name)),
        },
        Doc::V(by, to, r) => match b.revoke(w, r, *by, *to, now)? {
            Ok(()) => Ok(()),
            Err(e) => fail("refused", format!("revocation {} -> {} refused: {e}", w.keys[*by].name, w.keys[*to].name)),
        },
    }
}
fn c14_setup(b: &mut dyn Backend, w: &World, now: u64) -> R {
    // node 0 is a root that trusts everybody directly, so every issuer has weight at all times
    b.allow(1000);
    let r = |x: Result<(), String>| x.map_err(|e| Fail { key: "refused".into(), msg: e, harness: false });
    r(b.set_root(w, 0, 7)?)?;
    for to in 0..w.n() {
        let t = mk_trust(w, 0, to, u64::MAX, now)?;
        b.allow(1000);
        r(b.add_trust(w, &t, to, 0, now)?.map(|_| ()))?;
    }
    Ok(())
}
struct C14 {
    w: World,
    now: u64,
    docs: Vec<Doc>,
    second: Vec<usize>,
    expect: Model,
}
fn c14_gen(s: &mut Src, ctx: &mut Ctx, rsa: bool) -> R<C14> {
    let n = 3 + s.idx(3);
    let w = World::new(nodes(s, n, rsa));
    let now = epoch(s);
    let mut expect = Model::default();
    expect.set_root(0, 7);
    for to in 0..n {
        let t = mk_trust(&w, 0, to, u64::MAX, now)?;
        expect.upsert(0, to, Rel::Auth { at: now, exp: u64::MAX, sig: t.signature.encode() });
    }
    let focus = (1 + s.idx(n - 1), s.idx(n));
    let docs = s.list(9, 16, |s| -> R<Doc> {
        let (by, to) = if s.chance(55) { focus } else { (1 + s.idx(n - 1), s.idx(n)) };
        let at = match s.weighted(&[5, 2]) {
            0 => now.saturating_sub(s.draw(5)),
            _ => (*s.pick(&TIMES)).min(now),
        };
        Ok(if s.chance(45) {
            Doc::V(by, to, mk_rev(&w, by, to, at)?)
        } else {
            let exp = match s.weighted(&[4, 1, 1]) {
                0 => now.saturating_add(1000),
                1 => u64::MAX,
                _ => u64::MAX - 1,
            };
            Doc::T(by, to, mk_trust(&w, by, to, exp, at)?)
        })
    });
    let docs: Vec<Doc> = docs.into_iter().collect::<R<_>>()?;
    // expected final state: greatest creation time, first delivered on a tie
    for d in &docs {
        match d {
            Doc::T(by, to, t) => expect.upsert(*by, *to, Rel::Auth { at: t.issued_at.as_secs(), exp: t.expires_at.as_secs(), sig: t.signature.encode() }),
            Doc::V(by, to, r) => expect.upsert(*by, *to, Rel::Rev { at: r.revoked_at.as_secs(), sig: r.signature.encode() }),
        };
        ctx.say(|| match d {
            Doc::T(by, to, t) => format!("trust {} -> {} issued {} expires {}", w.keys[*by].name, w.keys[*to].name, t.issued_at.as_secs(), t.expires_at.as_secs()),
            Doc::V(by, to, r) => format!("revocation {} -x-> {} at {}", w.keys[*by].name, w.keys[*to].name, r.revoked_at.as_secs()),
        });
    }
    // another delivery order with repetitions; on a tie the relative order is kept
    let mut second: Vec<usize> = (0..docs.len()).collect();
    let extra = if docs.is_empty() { 0 } else { s.idx(4) };
    for _ in 0..extra {
        second.push(s.idx(docs.len()));
    }
    s.shuffle(&mut second);
    let id = |d: &Doc| match d {
        Doc::T(b, t, x) => (*b, *t, x.issued_at),
        Doc::V(b, t, x) => (*b, *t, x.revoked_at),
    };
    for i in 0..second.len() {
        // within a tie group deliver in the original order
        let mut pos: Vec<usize> = (0..second.len()).filter(|j| id(&docs[second[*j]]) == id(&docs[second[i]])).collect();
        pos.sort();
        let mut vals: Vec<usize> = pos.iter().map(|j| second[*j]).collect();
        vals.sort();
        for (j, v) in pos.iter().zip(vals) {
            second[*j] = v;
        }
    }
    ctx.say(|| format!("second delivery order {second:?}"));
    let pairs: BTreeSet<(usize, usize)> = docs.iter().map(|d| (id(d).0, id(d).1)).collect();
    if pairs.len() < docs.len() {
        ctx.hit();
    }
    Ok(C14 { w, now, docs, second, expect })
}
fn c14_run(b: &mut dyn Backend, c: &C14, order: &[usize], ctx: &mut Ctx) -> R<Option<Snap>> {
    c14_setup(b, &c.w, c.now)?;
    for i in order {
        deliver(b, &c.w, &c.docs[*i], c.now, WORK_CAP)?;
    }
    let mut m = c.expect.clone();
    observe(b, &mut m, &c.w, c.now, ctx, &everyone(&c.w))?;
    snap(b, &c.w, &c.expect, c.now)
}
fn c14_compare(c: &C14, a: Option<Snap>, b: Option<Snap>) -> R {
    if let (Some(a), Some(b)) = (a, b) {
        if let Some(d) = diff(&c.w, &a, &b) {
            return fail("order-dependent", format!("two delivery orders of the same relations disagree: {d}"));
        }
    }
    Ok(())
}
fn c14_lib(s: &mut Src, ctx: &mut Ctx) -> R {
    let c = c14_gen(s, ctx, true)?;
    let first: Vec<usize> = (0..c.docs.len()).collect();
    let mut b1 = Core::new(s);
    let mut b2 = Core::new(s);
    let a = c14_run(&mut b1, &c, &first, ctx)?;
    let b = c14_run(&mut b2, &c, &c.second, ctx)?;
    c14_compare(&c, a, b)
}
fn c14_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    let c = c14_gen(s, ctx, false)?;
    let first: Vec<usize> = (0..c.docs.len()).collect();
    let (d1, d2) = (Dir::new(), Dir::new());
    let a = svc::session(&d1, |b| c14_run(b, &c, &first, ctx))?;
    let b = svc::session(&d2, |b| c14_run(b, &c, &c.second, ctx))?;
    c14_compare(&c, a, b)
}

// ------------------------------------------------------------------------ C15
fn precedes(c: &model::Cert, a: usize, z: usize) -> bool {
    let pa = c.iter().position(|t| t.to == a);
    let pz = c.iter().rposition(|t| t.to == z);
    matches!((pa, pz), (Some(i), Some(j)) if i < j)
}
fn c15_body(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    let g = Gen { trust: 60, revoke: 3, bad_revoke: 1, bad_trust: 1, tick: 2, query: 1, mean: 16, max: 30, ..Default::default() };
    play(b, w, m, now, s, &g, ctx)?;
    // pick a pair that some certificate really orders
    m.gc(*now);
    let mut cand = vec![];
    for n in 0..w.n() {
        if m.partial_chains(n, WORK_CAP + 1) > WORK_CAP {
            return Ok(());
        }
        for c in m.certs(n) {
            for i in 0..c.len() {
                for j in i + 1..c.len() {
                    if c[i].to != c[j].to {
                        cand.push((c[i].to, c[j].to, j - i));
                    }
                }
            }
        }
    }
    cand.sort();
    cand.dedup();
    if cand.is_empty() {
        return Ok(());
    }
    // prefer distant pairs
    let far: Vec<_> = cand.iter().filter(|c| c.2 > 1).cloned().collect();
    let (a, z, dist) = if !far.is_empty() && s.chance(60) { *s.pick(&far) } else { *s.pick(&cand) };
    if m.rels.get(&(a, z)).map(|r| r.at()) == Some(*now) {
        if *now == u64::MAX {
            return Ok(());
        }
        *now += 1;
        m.gc(*now);
    }
    let Some(before) = snap(b, w, m, *now)? else { return Ok(()) };
    // first a forged one, then the real one
    let forged = Op::BadRevoke { by: a, to: z, at: *now, how: s.draw(4) as u8 };
    ctx.say(|| format!("[{now}] {}", show_op(w, &forged)));
    apply(b, m, w, now, &forged, ctx)?;
    if let Some(after) = snap(b, w, m, *now)? {
        if let Some(d) = diff(w, &before, &after) {
            return fail("forgery-effective", format!("a forged revocation changed the graph: {d}"));
        }
    }
    let op = Op::Revoke { by: a, to: z, at: *now };
    ctx.say(|| format!("[{now}] {}", show_op(w, &op)));
    apply(b, m, w, now, &op, ctx)?;
    ctx.hit();
    ctx.label(match dist { 1 => "neighbour", 2 => "one between", _ => "several between" });
    let Some(after) = snap(b, w, m, *now)? else { return Ok(()) };
    for n in 0..w.n() {
        ctx.checks += 1;
        let keep: BTreeSet<model::Cert> = before.certs[n].iter().filter(|c| !precedes(c, a, z)).cloned().collect();
        if keep != after.certs[n] {
            return fail("revocation-scope", format!("after {} revoked {}: certificates of {}: unexpected {}, missing {}", w.keys[a].name, w.keys[z].name, w.keys[n].name, show_certs(w, after.certs[n].difference(&keep)), show_certs(w, keep.difference(&after.certs[n]))));
        }
    }
    // life goes on: the revocation stays in force through clean-up and other operations
    let mut i = 0;
    let steps = s.idx(8);
    let g2 = Gen { tick: 25, ..g.clone() };
    while i < steps {
        i += 1;
        let op = gen_op(s, &g2, m, w, *now);
        if matches!(&op, Op::Trust { by, to, .. } if (*by, *to) == (a, z)) || matches!(op, Op::Cert { .. }) {
            continue;
        }
        ctx.say(|| format!("[{now}] {}", show_op(w, &op)));
        apply(b, m, w, now, &op, ctx)?;
    }
    let Some(later) = snap(b, w, m, *now)? else { return Ok(()) };
    m.gc(*now);
    for n in 0..w.n() {
        ctx.checks += 1;
        if let Some(c) = later.certs[n].iter().find(|c| precedes(c, a, z)) {
            return fail("revocation-lost", format!("{} revoked {} but later {} is returned for {}", w.keys[a].name, w.keys[z].name, show_cert(w, c), w.keys[n].name));
        }
    }
    observe(b, m, w, *now, ctx, &everyone(w))?;
    // a later trust from the revoker restores
    if s.chance(60) && *now < u64::MAX - 10 {
        *now += 1;
        let op = Op::Trust { by: a, to: z, exp: u64::MAX, at: *now };
        ctx.say(|| format!("[{now}] {}", show_op(w, &op)));
        apply(b, m, w, now, &op, ctx)?;
        observe(b, m, w, *now, ctx, &everyone(w))?;
        ctx.label("re-trusted");
    }
    Ok(())
}
fn c15_wide_body(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    let who = play_wide(b, w, m, now, s, ctx)?;
    observe(b, m, w, *now, ctx, &who)?;
    // one more revocation, by anybody of anybody
    let mut revoked = vec![];
    for _ in 0..1 + s.idx(4) {
        let (by, to) = (s.idx(w.n()), if s.chance(60) { w.n() - 1 } else { s.idx(w.n()) });
        *now = now.saturating_add(1);
        let op = Op::Revoke { by, to, at: *now };
        ctx.say(|| show_op(w, &op));
        apply(b, m, w, now, &op, ctx)?;
        revoked.push(to);
    }
    revoked.sort();
    revoked.dedup();
    observe(b, m, w, *now, ctx, &who)?;
    observe(b, m, w, *now, ctx, &revoked)
}
fn c15_wide(s: &mut Src, ctx: &mut Ctx) -> R {
    wide_core(s, ctx, c15_wide_body)
}
fn c15_huge(s: &mut Src, ctx: &mut Ctx) -> R {
    huge_svc(s, ctx, c15_wide_body)
}
fn c15_wide_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    wide_svc(s, ctx, c15_wide_body)
}
fn c15_lib(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_core(s, ctx, n, c15_body)
}
fn c15_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_svc(s, ctx, n, c15_body)
}
/// Revocation at every distance of a linear chain with side branches.
fn c15_line(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    for op in [Op::Root { n: 0, max: 16 }, Op::Trust { by: 0, to: 0, exp: u64::MAX, at: *now }] {
        apply(b, m, w, now, &op, ctx)?;
    }
    for i in 1..w.n() {
        let op = Op::Trust { by: i - 1, to: i, exp: u64::MAX, at: *now };
        apply(b, m, w, now, &op, ctx)?;
        if i > 1 && s.chance(25) {
            let by = s.idx(i);
            apply(b, m, w, now, &Op::Trust { by, to: i, exp: u64::MAX, at: *now }, ctx)?;
        }
    }
    let a = s.idx(w.n() - 1);
    let z = a + 1 + s.idx(w.n() - a - 1);
    let at = now.saturating_add(1);
    *now = at;
    let op = Op::Revoke { by: a, to: z, at };
    ctx.say(|| format!("line of {} peers, {}", w.n(), show_op(w, &op)));
    apply(b, m, w, now, &op, ctx)?;
    ctx.hit();
    observe(b, m, w, *now, ctx, &everyone(w))
}
fn c15_deep(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 2 + s.idx(11);
    on_core(s, ctx, n, c15_line)
}

// ------------------------------------------------------------------------ C16
fn c16_body(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    let g = Gen { tick: 25, revoke: 4, query: 15, mean: 20, max: 36, ..Default::default() };
    play(b, w, m, now, s, &g, ctx)?;
    // walk the clock over the expirations that are still ahead: one before, at, one after
    for _ in 0..4 {
        let mut ex: Vec<u64> = m.rels.values().filter_map(|r| match r { Rel::Auth { exp, .. } if *exp > *now => Some(*exp), _ => None }).collect();
        ex.sort();
        ex.dedup();
        if ex.is_empty() {
            break;
        }
        let e = ex[if s.chance(70) { 0 } else { s.idx(ex.len()) }];
        for t in [e - 1, e, e.saturating_add(1)] {
            if t >= *now {
                *now = t;
                ctx.hit();
                let n = *now;
                ctx.say(|| format!("[{n}] everybody is queried"));
                observe(b, m, w, *now, ctx, &everyone(w))?;
            }
        }
    }
    // what a query saw as expired is gone even for a query with an older time
    if s.chance(50) {
        let back = now.saturating_sub(1 + s.draw(60));
        ctx.say(|| format!("[{back}] everybody is queried with an older time"));
        observe(b, m, w, back, ctx, &everyone(w))?;
        ctx.label("older query time");
    }
    Ok(())
}
/// Full-range expirations on a star: each trust alone decides one peer.
fn c16_range(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    *now = (*s.pick(&TIMES)).min(u64::MAX - 1);
    for op in [Op::Root { n: 0, max: 5 }, Op::Trust { by: 0, to: 0, exp: u64::MAX, at: 0 }] {
        apply(b, m, w, now, &op, ctx)?;
    }
    for i in 1..w.n() {
        let exp = if s.chance(25) { *now } else { time(s).max(*now) };
        let op = Op::Trust { by: 0, to: i, exp, at: s.draw(2).min(*now) };
        ctx.say(|| format!("[{now}] {}", show_op(w, &op)));
        apply(b, m, w, now, &op, ctx)?;
    }
    ctx.hit();
    // the first query may come only after the clock has moved
    let late = s.chance(50);
    for i in 0..4 {
        if i > 0 || !late {
            observe(b, m, w, *now, ctx, &everyone(w))?;
        }
        let t = time(s);
        *now = t.max(*now);
        ctx.say(|| format!("clock {now}"));
    }
    Ok(())
}
/// Many trusts running out at once or one after another.
fn c16_wide_body(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    if *now > u64::MAX - 1_000_000_000 {
        *now = 1000;
    }
    let n = w.n();
    let t = *now;
    let same = s.chance(50);
    let mut ops = vec![Op::Root { n: 0, max: 5 }, Op::Trust { by: 0, to: 0, exp: u64::MAX, at: t }];
    for k in 1..n {
        let exp = if s.chance(20) { t + 500 } else if same { t + 50 } else { t + 10 + k as u64 };
        ops.push(Op::Trust { by: 0, to: k, exp, at: t });
    }
    for k in 1..n - 1 {
        ops.push(Op::Trust { by: k, to: n - 1, exp: t + 400, at: t });
    }
    ctx.say(|| format!("{n} peers, {} trusts", ops.len() - 1));
    for op in &ops {
        apply(b, m, w, now, op, ctx)?;
    }
    ctx.hit();
    for at in [t + 9, t + 49, t + 50, t + 51, t + 10 + n as u64, t + 399, t + 400, t + 500] {
        if at >= *now {
            *now = at;
            let mut who = vec![n - 1];
            for _ in 0..8 {
                who.push(s.idx(n));
            }
            observe(b, m, w, at, ctx, &who)?;
        }
    }
    Ok(())
}
fn c16_wide(s: &mut Src, ctx: &mut Ctx) -> R {
    wide_core(s, ctx, c16_wide_body)
}
fn c16_wide_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    wide_svc(s, ctx, c16_wide_body)
}
fn c16_lib(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_core(s, ctx, n, c16_body)
}
fn c16_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_svc(s, ctx, n, c16_body)
}
fn c16_range_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_svc(s, ctx, n, c16_range)
}
fn c16_range_lib(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_core(s, ctx, n, c16_range)
}

// ------------------------------------------------------------------------ C17
fn from_queries(b: &mut dyn Backend, w: &World, m: &mut Model, now: u64, ctx: &mut Ctx) -> R {
    from_queries_of(b, w, m, now, ctx, &everyone(w), &everyone(w))
}
fn from_queries_of(b: &mut dyn Backend, w: &World, m: &mut Model, now: u64, ctx: &mut Ctx, who: &[usize], through: &[usize]) -> R {
    m.gc(now);
    let q = |e: String| Fail { key: "query-failed".into(), msg: e, harness: false };
    for &n in who {
        let p = m.partial_chains(n, WORK_CAP + 1);
        if p > WORK_CAP {
            continue;
        }
        b.allow(p);
        let full = as_set(w, n, b.certs(w, n, now)?.map_err(q)?)?;
        let want_full = m.certs(n);
        ensure!(full == want_full, "certificates-differ", "certificates of {} differ from the model", w.keys[n].name);
        for &i in through {
            let want: BTreeSet<model::Cert> = full.iter().filter(|c| c.iter().any(|t| t.to == i)).cloned().collect();
            b.allow(p);
            let got = as_set(w, n, b.certs_from(w, n, i, now)?.map_err(q)?)?;
            ctx.checks += 1;
            if !want.is_empty() && want.len() < full.len() {
                ctx.hit();
            }
            ensure!(got == want, "restricted-differs", "certificates of {} through {}: unexpected {}, missing {}", w.keys[n].name, w.keys[i].name, show_certs(w, got.difference(&want)), show_certs(w, want.difference(&got)));
            b.allow(p);
            let gw = b.weight_from(w, n, i, now)?.map_err(q)?;
            let ww = want.iter().map(|c| m.cert_weight(c)).max().unwrap_or(0);
            ctx.checks += 1;
            ensure!(gw == ww, "restricted-weight", "weight of {} through {} is {gw}, expected {ww}", w.keys[n].name, w.keys[i].name);
        }
    }
    Ok(())
}
fn c17_body(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    let g = Gen { trust: 70, query: 0, roots: 5, ..Default::default() };
    play(b, w, m, now, s, &g, ctx)?;
    from_queries(b, w, m, *now, ctx)
}
fn c17_wide_body(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    let mut who = play_wide(b, w, m, now, s, ctx)?;
    if who.len() > 8 {
        s.shuffle(&mut who);
        who.truncate(8);
    }
    let mut through = vec![0, w.n() - 1, w.n() - 2, 1];
    for _ in 0..6 {
        through.push(s.idx(w.n()));
    }
    from_queries_of(b, w, m, *now, ctx, &who, &through)
}
fn c17_wide(s: &mut Src, ctx: &mut Ctx) -> R {
    wide_core(s, ctx, c17_wide_body)
}
fn c17_wide_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    wide_svc(s, ctx, c17_wide_body)
}
fn c17_lib(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_core(s, ctx, n, c17_body)
}
fn c17_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_svc(s, ctx, n, c17_body)
}
fn c17_host(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    let w = World::new(nodes(s, n, false));
    let mut m = Model::default();
    let mut now = epoch(s);
    let host = s.idx(n);
    ctx.say(|| format!("service, host is {}", w.keys[host].name));
    let dir = Dir::new();
    svc::session(&dir, |b| {
        b.host = w.keys[host].peer.clone();
        let g = Gen { trust: 70, query: 0, ..Default::default() };
        play(b, &w, &mut m, &mut now, s, &g, ctx)?;
        m.gc(now);
        let p = m.partial_chains(host, WORK_CAP + 1);
        if p > WORK_CAP {
            return Ok(());
        }
        let q = |e: String| Fail { key: "query-failed".into(), msg: e, harness: false };
        b.allow(p);
        let general = as_set(&w, host, b.certs(&w, host, now)?.map_err(q)?)?;
        b.allow(p);
        let own = as_set(&w, host, b.host_certs(&w, now)?.map_err(q)?)?;
        ctx.checks += 1;
        ensure!(own == general && own == m.certs(host), "host-certs", "host certificates {} differ from the general query {}", show_certs(&w, &own), show_certs(&w, &general));
        if !own.is_empty() {
            ctx.hit();
        }
        for i in 0..w.n() {
            b.allow(p);
            let g = as_set(&w, host, b.certs_from(&w, host, i, now)?.map_err(q)?)?;
            b.allow(p);
            let h = as_set(&w, host, b.host_certs_from(&w, i, now)?.map_err(q)?)?;
            ctx.checks += 1;
            ensure!(g == h && h == m.certs_from(host, i), "host-certs", "host certificates through {}: {} against {}", w.keys[i].name, show_certs(&w, &h), show_certs(&w, &g));
        }
        Ok(())
    })
}

// ------------------------------------------------------------------------ C18
struct C18 {
    w: World,
    now: u64,
    prefix: Vec<Op>,
    ts: Vec<(usize, usize, u64, u64)>,
    chain: Vec<Trust>,
    /// first trust of the chain that does not verify
    bad: Option<usize>,
}
fn c18_gen(s: &mut Src, ctx: &mut Ctx, rsa: bool) -> R<C18> {
    // some certificates are as long as certificates can usefully be, and longer
    let long = s.chance(12);
    let n = if long { 10 + s.idx(10) } else { small(s) };
    let w = World::new(nodes(s, n, rsa));
    let now = 1000 + s.draw(1 << 32);
    let mut m = Model::default();
    let mut prefix = vec![Op::Root { n: 0, max: if long { *s.pick(&[16, 20, 12, 8]) } else { max_len(s) } }];
    m.set_root(0, 5);
    if s.chance(60) {
        prefix.push(Op::Trust { by: 0, to: 0, exp: u64::MAX, at: now.saturating_sub(s.draw(40)) });
    }
    let g = Gen { query: 0, cert: 0, tick: 0, bad_trust: 0, bad_revoke: 0, ..Default::default() };
    prefix.extend(s.list(5, 12, |s| gen_op(s, &g, &m, &w, now)));
    for o in &prefix {
        ctx.say(|| show_op(&w, o));
    }
    let len = if long { n - s.idx(3) } else { 1 + s.idx(6) };
    let mut by = if long || s.chance(70) { 0 } else { s.idx(n) };
    if long {
        ctx.label("long certificate");
    }
    let mut ts = vec![];
    let mut chain = vec![];
    for i in 0..len {
        let to = if long { i } else if i == 0 { by } else { s.idx(n) };
        let at = now.saturating_sub(s.draw(40));
        let exp = match s.weighted(&[6, 1, 1]) {
            0 => now + 500,
            1 => now,
            _ => u64::MAX,
        };
        ts.push((by, to, exp, at));
        chain.push(mk_trust(&w, by, to, exp, at)?);
        by = to;
    }
    let mut bad = None;
    if s.chance(45) {
        let i = s.idx(len);
        let (by, to, exp, at) = ts[i];
        let how = s.draw(6) as u8;
        let t = bad_trust(&w, by, to, exp, at.max(2) & !1, how, now)?;
        ctx.say(|| format!("trust {i} of the certificate is forged (#{how})"));
        ts[i] = (by, to, t.expires_at.as_secs(), t.issued_at.as_secs());
        chain[i] = t;
        bad = Some(i);
    }
    ctx.say(|| show_op(&w, &Op::Cert { ts: ts.clone() }));
    Ok(C18 { w, now, prefix, ts, chain, bad })
}
/// Runs the prefix, then the certificate either whole (`how` 0 structured, 1 text) or trust by trust (2).
fn c18_run(b: &mut dyn Backend, c: &C18, how: u8, ctx: &mut Ctx) -> R<(bool, Option<Snap>)> {
    let mut m = Model::default();
    let mut now = c.now;
    for op in &c.prefix {
        apply(b, &mut m, &c.w, &mut now, op, ctx)?;
    }
    b.allow(WORK_CAP);
    let tos: Vec<usize> = c.ts.iter().map(|t| t.1).collect();
    let cert = Certificate::new_unverified(c.chain.clone());
    let ok = match how {
        0 => b.add_cert(&c.w, &cert, &tos, now)?.is_ok(),
        1 => b.add_cert_text(&c.w, &cert.to_string(), now)?.is_ok(),
        _ => {
            let mut ok = true;
            for (i, t) in c.chain.iter().enumerate() {
                if b.add_trust(&c.w, t, tos[i], c.ts[i].0, now)?.is_err() {
                    ok = false;
                    break;
                }
            }
            ok
        }
    };
    // what the model expects
    for (i, ((by, to, exp, at), t)) in c.ts.iter().zip(&c.chain).enumerate() {
        if Some(i) == c.bad {
            break;
        }
        m.add_trust(*by, *to, *exp, *at, t.signature.encode(), now);
    }
    if c.bad.is_some() {
        // a failed call may or may not have cleaned up; queries do
        m.gc(now);
    }
    ensure!(ok == c.bad.is_none(), "insert-outcome", "inserting the certificate {} although {}", if ok { "succeeded" } else { "failed" }, match c.bad { Some(i) => format!("trust {i} does not verify"), None => "all its trusts verify".into() });
    ctx.checks += 1;
    observe(b, &mut m, &c.w, now, ctx, &everyone(&c.w))?;
    Ok((ok, snap(b, &c.w, &m, now)?))
}
fn c18_cmp(c: &C18, what: &str, a: (bool, Option<Snap>), b: (bool, Option<Snap>)) -> R {
    ensure!(a.0 == b.0, "insert-outcome", "{what}: one succeeded, the other failed");
    if let (Some(x), Some(y)) = (a.1, b.1) {
        if let Some(d) = diff(&c.w, &x, &y) {
            return fail("insert-differs", format!("{what}: {d}"));
        }
    }
    Ok(())
}
fn c18_lib(s: &mut Src, ctx: &mut Ctx) -> R {
    let c = c18_gen(s, ctx, true)?;
    if c.bad.is_some() {
        ctx.label("bad certificate");
    }
    let mut run = |how| {
        let mut b = Core::new(s);
        c18_run(&mut b, &c, how, ctx)
    };
    let single = run(2)?;
    c18_cmp(&c, "certificate against single trusts", run(0)?, single.clone())?;
    c18_cmp(&c, "text certificate against single trusts", run(1)?, single)
}
fn c18_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    let c = c18_gen(s, ctx, false)?;
    let mut run = |how| {
        let dir = Dir::new();
        svc::session(&dir, |b| c18_run(b, &c, how, ctx))
    };
    let single = run(2)?;
    c18_cmp(&c, "structured certificate against single trusts", run(0)?, single.clone())?;
    c18_cmp(&c, "text certificate against single trusts", run(1)?, single)
}
/// Re-inserting what the graph returned changes nothing.
fn c18_again(b: &mut dyn Backend, w: &World, m: &mut Model, now: &mut u64, s: &mut Src, ctx: &mut Ctx) -> R {
    let g = Gen { mean: 14, max: 26, query: 0, ..Default::default() };
    play(b, w, m, now, s, &g, ctx)?;
    let Some(before) = snap(b, w, m, *now)? else { return Ok(()) };
    m.gc(*now);
    let all: Vec<(usize, model::Cert)> = before.certs.iter().enumerate().flat_map(|(n, cs)| cs.iter().map(move |c| (n, c.clone()))).collect();
    if all.is_empty() {
        return Ok(());
    }
    ctx.hit();
    for _ in 0..3 {
        let (n, c) = s.pick(&all).clone();
        let chain: Vec<Trust> = c
            .iter()
            .map(|t| Trust::new(w.keys[t.to].pk.clone(), secs(t.exp), secs(t.at), fluence_keypair::Signature::decode(t.sig.clone()).unwrap()))
            .collect();
        let tos: Vec<usize> = c.iter().map(|t| t.to).collect();
        ctx.say(|| format!("re-insert {} of {}", show_cert(w, &c), w.keys[n].name));
        b.allow(WORK_CAP);
        if let Err(e) = b.add_cert(w, &Certificate::new_unverified(chain), &tos, *now)? {
            return fail("reinsert-refused", format!("a returned certificate was refused: {e}"));
        }
        let Some(after) = snap(b, w, m, *now)? else { return Ok(()) };
        ctx.checks += 1;
        if let Some(d) = diff(w, &before, &after) {
            return fail("reinsert-changes", format!("re-inserting a returned certificate changed the graph: {d}"));
        }
    }
    Ok(())
}
fn c18_again_lib(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_core(s, ctx, n, c18_again)
}
fn c18_again_svc(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = small(s);
    on_svc(s, ctx, n, c18_again)
}
/// Malformed certificates are refused and change nothing.
fn c18_malformed(s: &mut Src, ctx: &mut Ctx) -> R {
    let w = World::new(nodes(s, 4, false));
    let now = 1000;
    let mut chain = vec![mk_trust(&w, 0, 0, u64::MAX, 900)?];
    for i in 1..=s.idx(3) + 1 {
        chain.push(mk_trust(&w, i - 1, i, 5000, 900)?);
    }
    let cert = Certificate::new_unverified(chain);
    let good = cert.to_string();
    let mut lines: Vec<String> = good.lines().map(|l| l.to_string()).collect();
    let kind = s.idx(12);
    let text = match kind {
        7 => {
            // something around the text
            let x = *s.pick(&["\0", " ", "1", "\n", "\n\n\n", "-", "x"]);
            // (the first two lines, format and version, are not looked at)
            if !x.starts_with('\n') || s.chance(50) {
                format!("{}{x}", if x.starts_with('\n') { &good } else { good.trim_end() })
            } else {
                format!("{x}{good}")
            }
        }
        8 => {
            // lines too many
            let i = s.idx(lines.len() + 1);
            for _ in 0..1 + s.idx(3) {
                let x = lines[s.idx(lines.len())].clone();
                lines.insert(i, x);
            }
            lines.join("\n")
        }
        9 => {
            // a time that is none
            let i = 2 + 4 * s.idx((lines.len() - 2) / 4) + 2 + s.idx(2);
            lines[i] = match s.draw(9) {
                0 => "18446744073709551616".into(),
                1 => format!("-{}", lines[i]),
                2 => format!("0x{}", lines[i]),
                3 => format!("{}.0", lines[i]),
                4 => format!(" {}", lines[i]),
                5 => format!("{} ", lines[i]),
                6 => format!("{}\0", lines[i]),
                7 => format!("{}e0", lines[i]),
                _ => "99999999999999999999999".into(),
            };
            lines.join("\n")
        }
        10 => {
            // base58 with something that is none
            let i = 2 + 4 * s.idx((lines.len() - 2) / 4) + s.idx(2);
            let x = *s.pick(&["0", "O", "I", "l", " ", "=", "+", "/", "\0", "é"]);
            let k = s.idx(lines[i].len() + 1);
            lines[i].insert_str(k, x);
            lines.join("\n")
        }
        11 => {
            // the parts of a trust in the wrong order
            let i = 2 + 4 * s.idx((lines.len() - 2) / 4);
            let (a, b) = *s.pick(&[(0, 1), (0, 2), (1, 3), (0, 3), (1, 2)]);
            lines.swap(i + a, i + b);
            lines.join("\n")
        }
        0 => String::new(),
        1 => {
            // a certificate without any trust
            lines.truncate(2);
            lines.join("\n")
        }
        2 => {
            // cut inside a trust
            let k = 2 + 1 + s.idx(3) + 4 * s.idx((lines.len() - 2) / 4);
            lines.truncate(k);
            lines.join("\n")
        }
        3 => lines[..s.idx(2)].join("\n"),
        4 => {
            let i = 2 + s.idx(lines.len() - 2);
            lines[i] = format!("{}!", lines[i]);
            lines.join("\n")
        }
        5 => {
            let i = 2 + s.idx(lines.len() - 2);
            lines[i] = String::new();
            lines.join("\n")
        }
        _ => {
            let b = s.bytes(24);
            String::from_utf8_lossy(&b).into_owned()
        }
    };
    ctx.say(|| format!("malformed text kind {kind}: {text:?}"));
    ctx.hit();
    let dir = Dir::new();
    svc::session(&dir, |b| {
        let mut m = Model::default();
        let mut t = now;
        apply(b, &mut m, &w, &mut t, &Op::Root { n: 0, max: 5 }, ctx)?;
        b.allow(1000);
        ctx.checks += 1;
        if b.add_cert_text(&w, &text, now)?.is_ok() {
            return fail("malformed-accepted", format!("a malformed certificate was inserted: {text:?}"));
        }
        // empty certificate in structured form
        if b.add_cert(&w, &Certificate::new_unverified(vec![]), &[], now)?.is_ok() {
            return fail("malformed-accepted", "an empty certificate was inserted");
        }
        observe(b, &mut m, &w, now, ctx, &everyone(&w))?;
        // and the intact one works
        b.allow(1000);
        if let Err(e) = b.add_cert_text(&w, &good, now)? {
            return fail("refused", format!("the intact certificate was refused: {e}"));
        }
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    let hist_rule = "a case counts when at least one certificate was present in a compared answer";
    let asm: &[&str] = &["times are whole seconds", "in-memory store is latest-wins per ordered pair", "graphs of at most 7 peers (19 in chains, 170 in wide graphs), at most 50 operations (some hundreds in wide graphs)", "cases with more than 30000 partial chains are skipped"];
    let mk = |name, quick, thorough, f: CaseFn| Sub { name, quick, thorough, rule: hist_rule, f };
    vec![
        Prop { id: "C10", level: "property-based testing: histories against a validity predicate", assumptions: asm, subs: vec![mk("library", 6000, 150_000, c10_lib), mk("service", 1500, 30_000, c10_svc), mk("chains", 1500, 30_000, c10_deep), mk("wide", 150, 3_000, c10_wide), mk("wide-service", 25, 500, c10_wide_svc)] },
        Prop { id: "C11", level: "property-based testing: histories against exhaustive enumeration", assumptions: asm, subs: vec![mk("library", 5000, 120_000, c11_lib), mk("service", 1200, 25_000, c11_svc), mk("chains", 1500, 30_000, c11_deep), mk("chains-service", 400, 8_000, c11_deep_svc), mk("cycles", 600, 12_000, c11_cycles), mk("wide", 250, 4_000, c11_wide), mk("wide-service", 40, 800, c11_wide_svc), mk("huge-service", 8, 120, c11_huge)] },
        Prop { id: "C12", level: "property-based testing: histories against a reference model", assumptions: asm, subs: vec![mk("library", 5000, 120_000, c12_lib), mk("service", 1200, 25_000, c12_svc), mk("chains", 1500, 30_000, c12_deep), mk("wide", 150, 3_000, c12_wide), mk("wide-service", 25, 500, c12_wide_svc), Sub { name: "lists", quick: 2500, thorough: 60_000, rule: "a list of at least two certificates was weighed", f: c12_lists }] },
        Prop { id: "C13", level: "property-based testing: before/after comparison and reference model", assumptions: asm, subs: vec![
            Sub { name: "library", quick: 4000, thorough: 100_000, rule: "a forged or weightless trust was offered and the visible state compared before and after", f: c13_lib },
            Sub { name: "service", quick: 1000, thorough: 20_000, rule: "a forged or weightless trust was offered and the visible state compared before and after", f: c13_svc },
            Sub { name: "chains", quick: 1500, thorough: 30_000, rule: "a chain reaching the weight limit was built", f: c13_deep }] },
        Prop { id: "C14", level: "property-based testing: metamorphic (delivery orders) and reference model", assumptions: asm, subs: vec![
            Sub { name: "library", quick: 4000, thorough: 100_000, rule: "some ordered pair has at least two relations", f: c14_lib },
            Sub { name: "service", quick: 1500, thorough: 30_000, rule: "some ordered pair has at least two relations", f: c14_svc }] },
        Prop { id: "C15", level: "property-based testing: before/after relation and reference model", assumptions: asm, subs: vec![
            Sub { name: "library", quick: 4000, thorough: 100_000, rule: "a revocation between two members of an existing certificate was accepted", f: c15_lib },
            Sub { name: "service", quick: 1000, thorough: 20_000, rule: "a revocation between two members of an existing certificate was accepted", f: c15_svc },
            Sub { name: "distance", quick: 1500, thorough: 30_000, rule: "a revocation along a linear chain was accepted", f: c15_deep }, mk("wide", 150, 3_000, c15_wide), mk("wide-service", 25, 500, c15_wide_svc), mk("huge-service", 8, 120, c15_huge)] },
        Prop { id: "C16", level: "property-based testing: histories against a reference model", assumptions: asm, subs: vec![
            Sub { name: "library", quick: 3000, thorough: 80_000, rule: "the clock was walked over at least one expiration or a certificate was compared", f: c16_lib },
            Sub { name: "service", quick: 1200, thorough: 25_000, rule: "the clock was walked over at least one expiration or a certificate was compared", f: c16_svc },
            Sub { name: "range-library", quick: 1500, thorough: 30_000, rule: "expirations over the full 64-bit range", f: c16_range_lib },
            Sub { name: "range-service", quick: 1500, thorough: 30_000, rule: "expirations over the full 64-bit range", f: c16_range_svc }, mk("wide", 400, 8_000, c16_wide), mk("wide-service", 60, 1200, c16_wide_svc)] },
        Prop { id: "C17", level: "property-based testing: metamorphic (filter of the full answer) and reference model", assumptions: asm, subs: vec![
            Sub { name: "library", quick: 2500, thorough: 60_000, rule: "some restricted answer is a proper non-empty part of the full one", f: c17_lib },
            Sub { name: "service", quick: 500, thorough: 10_000, rule: "some restricted answer is a proper non-empty part of the full one", f: c17_svc },
            Sub { name: "host", quick: 800, thorough: 16_000, rule: "the host has a certificate", f: c17_host }, mk("wide", 100, 2_000, c17_wide), mk("wide-service", 15, 300, c17_wide_svc)] },
        Prop { id: "C18", level: "property-based testing: differential (certificate against single trusts, structured against text)", assumptions: asm, subs: vec![
            mk("library", 3000, 80_000, c18_lib), mk("service", 700, 14_000, c18_svc), mk("reinsert-library", 2000, 50_000, c18_again_lib), mk("reinsert-service", 600, 12_000, c18_again_svc),
            Sub { name: "malformed", quick: 2500, thorough: 10_000, rule: "every case", f: c18_malformed }] },
    ]
}
