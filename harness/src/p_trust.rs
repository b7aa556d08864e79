//! C05-C09: trusts, revocations and certificates as signed, serializable values.
use crate::engine::*;
use crate::ensure;
use crate::keys::*;
use crate::p_keys::{hex, key, other_bytes, serde_forms, AnyKey, Certs};
use fluence_keypair::{KeyFormat, PublicKey, Signature};
use sha2::Digest;
use std::str::FromStr;
use trust_graph::{Auth, Certificate, Revocation, Trust, TrustRelation};

// ------------------------------------------------------------ reference rules
fn trust_msg(enc: &[u8], exp: u64, at: u64) -> Vec<u8> {
    let mut m = enc.to_vec();
    m.extend(exp.to_le_bytes());
    m.extend(at.to_le_bytes());
    sha2::Sha256::digest(&m).to_vec()
}
fn revoke_msg(enc: &[u8], at: u64) -> Vec<u8> {
    let mut m = vec![enc.len() as u8];
    m.extend(enc);
    m.extend(at.to_le_bytes());
    sha2::Sha256::digest(&m).to_vec()
}
type Lp = libp2p_identity::PublicKey;

// ------------------------------------------------------------------------ C05
/// A second key for a check: usually another pooled key, sometimes the same.
fn different(s: &mut Src, k: &Key) -> AnyKey {
    for _ in 0..8 {
        let o = key(s);
        if o.enc != k.enc {
            return o;
        }
    }
    AnyKey::Pool(if ed(0).enc == k.enc { ed(1) } else { ed(0) })
}
fn around(s: &mut Src, exp: u64) -> u64 {
    match s.weighted(&[3, 3, 2, 2, 2, 2]) {
        0 => exp,
        1 => exp.saturating_add(1),
        2 => exp.saturating_sub(1),
        3 => exp.saturating_sub(s.draw(1000)),
        4 => exp ^ (1 << s.draw(64)),
        _ => time(s),
    }
}
fn tverify(t: &Trust, by: &PublicKey, cur: u64) -> R<Result<(), String>> {
    no_panic("Trust::verify", || Trust::verify(t, by, secs(cur)).map_err(|e| e.to_string()))
}
/// The library's own clock.
fn c05_clock(s: &mut Src, ctx: &mut Ctx) -> R {
    let sys = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap_or_default().as_secs();
    let k = any_key(s);
    let ahead = s.draw(3);
    let a = sys();
    let now = no_panic("current_time", trust_graph::current_time)?;
    let b = sys();
    ctx.hit();
    ctx.checks += 1;
    // the system's clock may be set back between two readings
    ensure!(a > b || (a <= now.as_secs() && now.as_secs() <= b), "clock-differs", "current_time is {now:?}, the system's clock between {a} and {b}");
    ensure!(now.subsec_nanos() == 0, "clock-differs", "current_time {now:?} is not in whole seconds");
    let t = no_panic("Trust::create", || Trust::create(&k.kp, k.pk.clone(), now + std::time::Duration::from_secs(ahead), now))?;
    ensure!(Trust::verify(&t, &k.pk, now).is_ok(), "clock-differs", "a trust made now does not verify now");
    Ok(())
}
fn c05_case(s: &mut Src, ctx: &mut Ctx) -> R {
    let a = key(s);
    let b = if s.chance(15) { None } else { Some(key(s)) };
    let b: &Key = b.as_deref().unwrap_or(&a);
    let at = time(s);
    let exp = match s.weighted(&[6, 2, 2]) {
        0 => time(s),
        1 => at,
        _ => other_time(s, at),
    };
    ctx.say(|| format!("{} trusts {}, issued {at}, expires {exp}", a.name, b.name));
    let t = no_panic("Trust::create", || Trust::create(&a.kp, b.pk.clone(), secs(exp), secs(at)))?;
    ensure!(t.issued_for == b.pk && t.expires_at == secs(exp) && t.issued_at == secs(at), "create-fields", "Trust::create changed a field: {t:?}");
    ensure!(Trust::new(b.pk.clone(), secs(exp), secs(at), t.signature.clone()) == t, "create-fields", "Trust::new gives another trust");
    // agreement with the reference message under the independent implementation
    let msg = no_panic("signature_bytes", || Trust::signature_bytes(&b.pk, secs(exp), secs(at)))?;
    ensure!(a.lp.public().verify(&msg, t.signature.to_vec()), "not-signed-by-issuer", "the signature is not the issuer's over the trust's own message");
    ensure!(a.lp.public().verify(&trust_msg(&b.enc, exp, at), t.signature.to_vec()), "message-form", "the signature does not cover recipient, expiration and creation time in the published form");
    for _ in 0..3 {
        // the given time may lie between two seconds
        let cur = std::time::Duration::new(around(s, exp), *s.pick(&[0, 0, 0, 1, 500_000_000, 999_999_999]));
        let got = no_panic("Trust::verify", || Trust::verify(&t, &a.pk, cur).map_err(|e| e.to_string()))?;
        ctx.checks += 1;
        ensure!(got.is_ok() == (secs(exp) >= cur), "verify-decision", "valid trust expiring at {exp} {} at {cur:?}: {got:?}", if got.is_ok() { "accepted" } else { "rejected" });
    }
    // one field changed: never accepted, even while live
    for _ in 0..4 {
        let mut x = t.clone();
        let mut by = a.pk.clone();
        let what = match s.draw(9) {
            0 => {
                x.issued_for = different(s, b).pk.clone();
                "recipient"
            }
            1 | 2 => {
                let e = match s.draw(4) {
                    0 => *s.pick(&[u64::MAX, 0, at, at.saturating_add(1)]),
                    _ => other_time(s, exp),
                };
                if e == exp {
                    continue;
                }
                x.expires_at = secs(e);
                "expiration"
            }
            3 | 4 => {
                x.issued_at = secs(other_time(s, at));
                "creation time"
            }
            5 => {
                x.signature = Signature::from_bytes(a.fmt, other_bytes(s, t.signature.to_vec()));
                "signature"
            }
            6 => {
                let o = different(s, &a);
                by = o.pk.clone();
                "issuer"
            }
            7 => {
                // expiration and creation time exchanged
                if exp == at {
                    continue;
                }
                x.expires_at = secs(at);
                x.issued_at = secs(exp);
                "order of the times"
            }
            _ => {
                // the signature of another trust of the same issuer
                let (e2, a2) = if s.chance(50) { (other_time(s, exp), at) } else { (exp, other_time(s, at)) };
                let o = no_panic("Trust::create", || Trust::create(&a.kp, b.pk.clone(), secs(e2), secs(a2)))?;
                x.signature = o.signature;
                "trust the signature was made for"
            }
        };
        let live = x.expires_at.as_secs();
        let cur = *s.pick(&[0, live, live / 2]);
        let got = tverify(&x, &by, cur)?;
        ctx.checks += 1;
        ctx.label(what);
        ensure!(got.is_err(), "tampering-accepted", "trust {} -> {} issued {at} expires {exp} accepted after changing its {what}: {x:?} by {}", a.name, b.name, hex(&by.encode()));
    }
    if s.chance(3) && a.fmt == KeyFormat::Ed25519 {
        // every neighbouring time
        for d in 1..=90u64 {
            for sub in [false, true] {
                let f = |x: u64| if sub { x.wrapping_sub(d) } else { x.wrapping_add(d) };
                let x = Trust::new(b.pk.clone(), secs(f(exp)), secs(at), t.signature.clone());
                let y = Trust::new(b.pk.clone(), secs(exp), secs(f(at)), t.signature.clone());
                ensure!(tverify(&x, &a.pk, 0)?.is_err(), "tampering-accepted", "trust expiring at {exp} accepted with expiration {}", f(exp));
                ensure!(tverify(&y, &a.pk, 0)?.is_err(), "tampering-accepted", "trust issued at {at} accepted with creation time {}", f(at));
                ctx.checks += 2;
            }
        }
        ctx.label("every neighbouring time");
    }
    // arbitrary combination, decided by the reference
    let (e2, a2) = (if s.chance(50) { exp } else { time(s) }, if s.chance(50) { at } else { time(s) });
    let c = different(s, b);
    let for_ = if s.chance(60) { b } else { &*c };
    let x = Trust::new(for_.pk.clone(), secs(e2), secs(a2), t.signature.clone());
    let cur = around(s, e2);
    let want = e2 >= cur && a.lp.public().verify(&trust_msg(&for_.enc, e2, a2), t.signature.to_vec());
    let got = tverify(&x, &a.pk, cur)?;
    ensure!(got.is_ok() == want, "verify-decision", "expected {want}, got {got:?} for {x:?} at {cur}");
    ctx.checks += 1;
    ctx.hit();
    Ok(())
}

// ------------------------------------------------------------------------ C06
fn rverify(r: &Revocation) -> R<Result<(), String>> {
    no_panic("Revocation::verify", || Revocation::verify(r).map_err(|e| e.to_string()))
}
fn c06_case(s: &mut Src, ctx: &mut Ctx) -> R {
    let a = key(s);
    let b = if s.chance(15) { None } else { Some(key(s)) };
    let b: &Key = b.as_deref().unwrap_or(&a);
    let at = time(s);
    ctx.say(|| format!("{} revokes {} at {at}", a.name, b.name));
    let r = no_panic("Revocation::create", || Revocation::create(&a.kp, b.pk.clone(), secs(at)))?;
    ensure!(r.pk == b.pk && r.revoked_by == a.pk && r.revoked_at == secs(at), "create-fields", "Revocation::create changed a field: {r:?}");
    let n = Revocation::new(a.pk.clone(), b.pk.clone(), secs(at), r.signature.clone());
    ensure!(format!("{n:?}") == format!("{r:?}"), "create-fields", "Revocation::new gives another revocation");
    let v = rverify(&r)?;
    ensure!(v.is_ok(), "valid-rejected", "valid revocation rejected: {v:?}");
    ensure!(a.lp.public().verify(&revoke_msg(&b.enc, at), r.signature.to_vec()), "message-form", "the signature does not cover revoked key and time in the published form");
    ctx.checks += 3;
    for _ in 0..4 {
        let mut x = r.clone();
        let what = match s.draw(7) {
            0 => {
                x.pk = different(s, b).pk.clone();
                "revoked key"
            }
            1 | 2 => {
                x.revoked_at = secs(other_time(s, at));
                "time"
            }
            3 => {
                x.revoked_by = different(s, &a).pk.clone();
                "revoker"
            }
            4 => {
                x.signature = Signature::from_bytes(a.fmt, other_bytes(s, r.signature.to_vec()));
                "signature"
            }
            5 => {
                let w = other_time(s, at);
                let o = no_panic("Revocation::create", || Revocation::create(&a.kp, b.pk.clone(), secs(w)))?;
                x.signature = o.signature;
                "revocation the signature was made for"
            }
            _ => {
                if a.enc == b.enc {
                    continue;
                }
                x.pk = a.pk.clone();
                x.revoked_by = b.pk.clone();
                "direction"
            }
        };
        let got = rverify(&x)?;
        ctx.checks += 1;
        ctx.label(what);
        ensure!(got.is_err(), "tampering-accepted", "revocation of {} by {} at {at} accepted after changing its {what}", b.name, a.name);
    }
    if s.chance(4) && a.fmt == KeyFormat::Ed25519 {
        for d in 1..=90u64 {
            for w in [at.wrapping_sub(d), at.wrapping_add(d)] {
                let x = Revocation::new(a.pk.clone(), b.pk.clone(), secs(w), r.signature.clone());
                ensure!(rverify(&x)?.is_err(), "tampering-accepted", "revocation dated {at} accepted with date {w}");
                ctx.checks += 1;
            }
        }
        ctx.label("every neighbouring time");
    }
    // cross use with trusts of the same parties and times
    for _ in 0..2 {
        let e = *s.pick(&[at, 0, u64::MAX, b.enc.len() as u64]);
        let i = *s.pick(&[at, 0, e]);
        let t = no_panic("Trust::create", || Trust::create(&a.kp, b.pk.clone(), secs(e), secs(i)))?;
        for w in [at, e, i] {
            let x = Revocation::new(a.pk.clone(), b.pk.clone(), secs(w), t.signature.clone());
            ensure!(rverify(&x)?.is_err(), "trust-as-revocation", "the signature of a trust (expires {e}, issued {i}) accepted as a revocation at {w}");
        }
        for (we, wi) in [(at, at), (e, i), (u64::MAX, at), (at, 0)] {
            let x = Trust::new(b.pk.clone(), secs(we), secs(wi), r.signature.clone());
            ensure!(tverify(&x, &a.pk, 0)?.is_err(), "revocation-as-trust", "the signature of a revocation at {at} accepted as a trust expiring {we} issued {wi}");
        }
        ctx.checks += 7;
    }
    ctx.hit();
    Ok(())
}
/// Tries to read the signed message of one kind as a message of the other kind
/// by re-cutting it at every possible place.
fn c06_recut(s: &mut Src, ctx: &mut Ctx) -> R {
    let a = match s.draw(2) {
        0 => ed(s.idx(N_ED)),
        _ => secp(s.idx(N_SECP)),
    };
    // the named key may be anything that decodes, including odd RSA keys
    let k2 = key(s);
    let enc: Vec<u8> = match s.weighted(&[2, 3, 3]) {
        0 => k2.enc.clone(),
        1 => {
            let n = s.idx(48);
            [vec![1], s.bytes(n)].concat()
        }
        _ => {
            let n = *s.pick(&[254usize, 255, 256, 257, 270, 511, 512, 513, 526]);
            let mut v = [vec![1], s.bytes(n)].concat();
            if s.chance(50) {
                v[1] = s.draw(3) as u8;
            }
            v
        }
    };
    let Ok(pk) = no_panic("PublicKey::decode", || PublicKey::decode(&enc))? else { return Ok(()) };
    let (exp, at) = (time(s), time(s));
    ctx.say(|| format!("{} signs about key {} ({} bytes), times {exp} {at}", a.name, hex(&enc), enc.len()));
    // the single-byte length in the message wraps for such keys
    let wraps = |e: &[u8]| e[0] == 1 && e.len() > 255 && e.len() % 256 == 1;
    if s.chance(50) {
        // revocation read as trust: L k.. at -> k'.. exp' at
        let r = no_panic("Revocation::create", || Revocation::create(&a.kp, pk.clone(), secs(at)))?;
        let mut m = vec![enc.len() as u8];
        m.extend(&enc);
        m.extend(at.to_le_bytes());
        if m.len() < 17 {
            return Ok(());
        }
        let cut = m.len() - 16;
        let e2 = u64::from_le_bytes(m[cut..cut + 8].try_into().unwrap());
        if let Ok(p2) = no_panic("PublicKey::decode", || PublicKey::decode(&m[..cut]))? {
            ctx.hit();
            ctx.checks += 1;
            let x = Trust::new(p2, secs(e2), secs(at), r.signature.clone());
            if tverify(&x, &a.pk, 0)?.is_ok() {
                let key = if wraps(&enc) { "rsa-length-wrap" } else { "revocation-as-trust" };
                return fail(key, format!("{}'s revocation of the {}-byte key {} verifies as a trust for the key {}", a.name, enc.len(), hex(&enc), hex(&m[..cut])));
            }
        }
    } else {
        // trust read as revocation: k.. exp at -> L k'.. at
        let t = no_panic("Trust::create", || Trust::create(&a.kp, pk.clone(), secs(exp), secs(at)))?;
        let mut m = enc.clone();
        m.extend(exp.to_le_bytes());
        let e2 = &m[1..];
        if let Ok(p2) = no_panic("PublicKey::decode", || PublicKey::decode(e2))? {
            ctx.hit();
            ctx.checks += 1;
            let x = Revocation::new(a.pk.clone(), p2, secs(at), t.signature.clone());
            if rverify(&x)?.is_ok() {
                let key = if wraps(e2) { "rsa-length-wrap" } else { "trust-as-revocation" };
                return fail(key, format!("{}'s trust in the key {} verifies as a revocation of the {}-byte key {}", a.name, hex(&enc), e2.len(), hex(e2)));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------ C07
/// One link with what the reference needs to know about it.
#[derive(Clone)]
struct Link {
    t: Trust,
    enc: Vec<u8>,
    lp: Lp,
    exp: u64,
    at: u64,
}
fn link(by: &Key, to: &Key, exp: u64, at: u64) -> R<Link> {
    let t = no_panic("Trust::create", || Trust::create(&by.kp, to.pk.clone(), secs(exp), secs(at)))?;
    Ok(Link { t, enc: to.enc.clone(), lp: to.lp.public(), exp, at })
}
fn live_links(l: &[Link], cur: u64) -> Result<(), String> {
    if l.is_empty() {
        return Err("empty".into());
    }
    for (i, x) in l.iter().enumerate() {
        if x.exp < cur {
            return Err(format!("trust {i} expired"));
        }
        let by = &l[i.saturating_sub(1)].lp;
        if !by.verify(&trust_msg(&x.enc, x.exp, x.at), x.t.signature.to_vec()) {
            return Err(format!("trust {i} not signed by its predecessor"));
        }
    }
    Ok(())
}
fn cert_of(l: &[Link]) -> Certificate {
    Certificate::new_unverified(l.iter().map(|x| x.t.clone()).collect())
}
/// A key for chains: RSA only now and then, since its signatures are slow.
fn ckey(s: &mut Src) -> &'static Key {
    match s.weighted(&[10, 6, 1]) {
        0 => ed(s.idx(N_ED)),
        1 => secp(s.idx(N_SECP)),
        _ => rsa(0),
    }
}
fn gen_chain(s: &mut Src, cur: u64, max: usize) -> R<(Vec<&'static Key>, Vec<Link>)> {
    // mostly short ones, some long, a few longer than any byte can count
    let n = match s.weighted(&[180, 20, 1]) {
        0 => 1 + s.list(3, max - 1, |_| ()).len(),
        1 => 8 + s.idx(60),
        _ => 120 + s.idx(160),
    };
    let mut ks: Vec<&'static Key> = vec![ckey(s)];
    let mut l = vec![];
    let expd = |s: &mut Src| match s.weighted(&[20, 4, 2, 1]) {
        0 => cur.saturating_add(1000),
        1 => cur,
        2 => u64::MAX,
        _ => cur.saturating_add(s.draw(5)),
    };
    l.push(link(ks[0], ks[0], expd(s), cur.saturating_sub(s.draw(50)))?);
    for i in 1..n {
        // repeated members happen
        let to = if s.chance(15) { ks[s.idx(i)] } else { ckey(s) };
        l.push(link(ks[i - 1], to, expd(s), cur.saturating_sub(s.draw(50)))?);
        ks.push(to);
    }
    Ok((ks, l))
}
fn spoil(s: &mut Src, ks: &[&'static Key], l: &mut Vec<Link>, cur: u64) -> R<&'static str> {
    if l.is_empty() {
        return Ok("empty");
    }
    let i = s.idx(l.len());
    let by = ks[i.saturating_sub(1).min(ks.len() - 1)];
    Ok(match s.draw(13) {
        0 => {
            l.remove(i);
            "dropped"
        }
        1 => {
            let j = s.idx(l.len());
            l.swap(i, j);
            "swapped"
        }
        2 => {
            let x = l[i].clone();
            l.insert(i, x);
            "duplicated"
        }
        3 => {
            // genuinely signed but expired just now
            let (e, at) = (cur.saturating_sub(1 + s.draw(2)), l[i].at);
            let to = ks[i.min(ks.len() - 1)];
            l[i] = link(by, to, e, at)?;
            "expired"
        }
        4 => {
            let k = ckey(s);
            let (e, at) = (l[i].exp, l[i].at);
            let to = ks[i.min(ks.len() - 1)];
            l[i] = link(k, to, e, at)?;
            "signed by another"
        }
        5 => {
            let k = ckey(s);
            l[i].t.issued_for = k.pk.clone();
            l[i].enc = k.enc.clone();
            l[i].lp = k.lp.public();
            "recipient replaced"
        }
        6 => {
            let e = other_time(s, l[i].exp);
            l[i].exp = e;
            l[i].t.expires_at = secs(e);
            "expiration altered"
        }
        7 => {
            let e = other_time(s, l[i].at);
            l[i].at = e;
            l[i].t.issued_at = secs(e);
            "creation time altered"
        }
        8 => {
            let g = other_bytes(s, l[i].t.signature.to_vec());
            l[i].t.signature = Signature::from_bytes(l[i].t.signature.get_signature_type(), g);
            "signature damaged"
        }
        9 => {
            let j = s.idx(l.len());
            let g = l[j].t.signature.clone();
            l[i].t.signature = g;
            "signature copied"
        }
        10 => {
            l.drain(..i);
            "cut at the root"
        }
        11 => {
            l.clear();
            "emptied"
        }
        _ => {
            // a branch of somebody else's chain grafted on
            let k = ckey(s);
            let k2 = ckey(s);
            l.insert(i, link(k, k2, cur.saturating_add(10), cur)?);
            "foreign link"
        }
    })
}
fn roots_for(s: &mut Src, ks: &[&'static Key]) -> Vec<&'static Key> {
    let mut v: Vec<&'static Key> = (0..s.idx(4)).map(|_| ckey(s)).collect();
    match s.weighted(&[6, 2, 1, 1]) {
        0 => {
            let i = s.idx(v.len() + 1);
            v.insert(i, ks[0])
        }
        1 => v.retain(|k| k.enc != ks[0].enc),
        2 => v.push(ks[s.idx(ks.len())]),
        _ => v.extend(ks),
    }
    v
}
fn c07_case(s: &mut Src, ctx: &mut Ctx) -> R {
    let cur = time(s);
    let (ks, mut l) = gen_chain(s, cur, 16)?;
    for _ in 0..s.weighted(&[3, 5, 1]) {
        let w = spoil(s, &ks, &mut l, cur)?;
        ctx.label(w);
        ctx.say(|| format!("chain {w}"));
    }
    let roots = roots_for(s, &ks);
    let when = if s.chance(30) { around(s, cur) } else { cur };
    ctx.say(|| format!("{} trusts over {}, roots {:?}, verified at {when}", l.len(), ks.iter().map(|k| k.name.as_str()).collect::<Vec<_>>().join(">"), roots.iter().map(|k| &k.name).collect::<Vec<_>>()));
    let want = match live_links(&l, when) {
        Ok(()) if roots.iter().any(|k| k.enc == l[0].enc) => Ok(()),
        Ok(()) => Err("root not trusted".to_string()),
        Err(e) => Err(e),
    };
    let c = cert_of(&l);
    let rk: Vec<PublicKey> = roots.iter().map(|k| k.pk.clone()).collect();
    let got = no_panic("Certificate::verify", || Certificate::verify(&c, &rk, secs(when)).map_err(|e| e.to_string()))?;
    ctx.checks += 1;
    ctx.label(if want.is_ok() { "valid" } else { "invalid" });
    if l.len() >= 2 {
        ctx.hit();
    }
    ensure!(got.is_ok() == want.is_ok(), "verify-decision", "Certificate::verify gives {got:?}, expected {want:?}");
    Ok(())
}

// ------------------------------------------------------------------------ C08
fn c08_issue(s: &mut Src, ctx: &mut Ctx) -> R {
    let cur = time(s);
    let (ks, mut l) = gen_chain(s, cur, 10)?;
    if s.chance(35) {
        let w = spoil(s, &ks, &mut l, cur)?;
        ctx.label(w);
        ctx.say(|| format!("base {w}"));
    }
    let base = cert_of(&l);
    let by = if s.chance(75) { ks[s.idx(ks.len())] } else { ckey(s) };
    let to = ckey(s);
    let exp = around(s, cur);
    let at = match s.weighted(&[3, 2, 2, 2]) {
        0 => cur,
        1 => exp,
        2 => exp.saturating_add(1),
        _ => exp.saturating_sub(s.draw(100)),
    };
    let when = if s.chance(20) { around(s, cur) } else { cur };
    let pos = l.iter().rposition(|x| x.enc == by.enc);
    let valid = live_links(&l, when);
    let want = exp >= at && valid.is_ok() && pos.is_some();
    ctx.say(|| format!("base of {} over {} ({valid:?} at {when}), {} issues to {} from {at} until {exp}", l.len(), ks.iter().map(|k| k.name.as_str()).collect::<Vec<_>>().join(">"), by.name, to.name));
    let new = no_panic("Trust::create", || Trust::create(&by.kp, to.pk.clone(), secs(exp), secs(at)))?;
    let before = base.clone();
    for given in [false, true] {
        let got = if given {
            no_panic("issue_with_trust", || Certificate::issue_with_trust(by.pk.clone(), new.clone(), &base, secs(when)).map_err(|e| e.to_string()))?
        } else {
            no_panic("issue", || Certificate::issue(&by.kp, to.pk.clone(), &base, secs(exp), secs(at), secs(when)).map_err(|e| e.to_string()))?
        };
        let name = if given { "issue_with_trust" } else { "issue" };
        ctx.checks += 1;
        ensure!(base == before, "base-changed", "{name} changed the certificate it extends");
        match got {
            Err(e) => ensure!(!want, "issue-refused", "{name} refused a well-founded extension: {e}"),
            Ok(c) => {
                ensure!(want, "issue-accepted", "{name} accepted: base {valid:?}, issuer at {pos:?}, issued {at} expires {exp}");
                let p = pos.unwrap();
                ensure!(c.chain.len() == p + 2 && c.chain[..=p] == base.chain[..=p], "chain-shape", "{name} returned {} trusts, the issuer's last place is {p}", c.chain.len());
                let n = &c.chain[p + 1];
                ensure!(n.issued_for == to.pk && n.expires_at == secs(exp) && n.issued_at == secs(at) && (!given || *n == new), "new-trust", "{name} appended {n:?}");
                let v = no_panic("Certificate::verify", || Certificate::verify(&c, &[ks[0].pk.clone()], secs(when)).map_err(|e| e.to_string()))?;
                let first_ok = base.chain[0].issued_for == ks[0].pk;
                if first_ok {
                    ensure!(v.is_ok() == (exp >= when), "issued-does-not-verify", "{name}: new certificate with trust until {exp} at {when}: {v:?}");
                }
                ctx.hit();
                ctx.label("issued");
            }
        }
    }
    if !want {
        ctx.label("refused");
    }
    Ok(())
}
fn c08_root(s: &mut Src, ctx: &mut Ctx) -> R {
    let (r, to) = (ckey(s), ckey(s));
    let (exp, at) = (time(s), time(s));
    let when = around(s, exp);
    ctx.say(|| format!("{} issues a root certificate to {} from {at} until {exp}, looked at {when}", r.name, to.name));
    let c = no_panic("issue_root", || Certificate::issue_root(&r.kp, to.pk.clone(), secs(exp), secs(at)))?;
    ensure!(c.chain.len() == 2 && c.chain[0].issued_for == r.pk && c.chain[1].issued_for == to.pk && c.chain[1].expires_at == secs(exp) && c.chain.iter().all(|t| t.issued_at == secs(at)), "root-shape", "issue_root returned {c:?}");
    let v = no_panic("verify", || Certificate::verify(&c, &[r.pk.clone()], secs(when)).map_err(|e| e.to_string()))?;
    ensure!(v.is_ok() == (exp >= when), "root-does-not-verify", "root certificate until {exp} at {when}: {v:?}");
    // from trusts
    let r2 = ckey(s);
    let rexp = around(s, when);
    let rt = no_panic("create", || Trust::create(if s.chance(25) { &r2.kp } else { &r.kp }, r.pk.clone(), secs(rexp), secs(at)))?;
    let it = no_panic("create", || Trust::create(if s.chance(25) { &r2.kp } else { &r.kp }, to.pk.clone(), secs(exp), secs(at)))?;
    let okr = rexp >= when && r.lp.public().verify(&trust_msg(&r.enc, rexp, at), rt.signature.to_vec());
    let oki = exp >= when && r.lp.public().verify(&trust_msg(&to.enc, exp, at), it.signature.to_vec());
    let got = no_panic("new_from_root_trust", || Certificate::new_from_root_trust(rt.clone(), it.clone(), secs(when)).map_err(|e| e.to_string()))?;
    ctx.checks += 3;
    ctx.hit();
    ensure!(got.is_ok() == (okr && oki), "root-decision", "new_from_root_trust gives {:?}; root trust {okr}, issued trust {oki}", got.as_ref().err());
    if let Ok(c) = got {
        ctx.label("built from root trust");
        ensure!(c.chain == vec![rt, it], "root-shape", "new_from_root_trust returned {c:?}");
        let v = no_panic("verify", || Certificate::verify(&c, &[r.pk.clone()], secs(when)).map_err(|e| e.to_string()))?;
        ensure!(v.is_ok(), "root-does-not-verify", "a certificate built from a root trust does not verify: {v:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------------ C09
const OVER: &str = "binary-u8-length";
fn over(t: &Trust) -> bool {
    t.issued_for.encode().len() > 255 || t.signature.encode().len() > 255
}
fn any_trust(s: &mut Src) -> R<Trust> {
    let a = match s.weighted(&[10, 6, 1]) {
        0 => ed(s.idx(N_ED)),
        1 => secp(s.idx(N_SECP)),
        _ => rsa(s.idx(3)),
    };
    let b = ckey(s);
    let (e, i) = (time(s), time(s));
    no_panic("Trust::create", || Trust::create(&a.kp, b.pk.clone(), secs(e), secs(i)))
}
/// The same value with one field changed.
fn variant(s: &mut Src, t: &Trust) -> Trust {
    let mut x = t.clone();
    match s.draw(5) {
        0 => x.expires_at = secs(other_time(s, t.expires_at.as_secs())),
        1 => x.issued_at = secs(other_time(s, t.issued_at.as_secs())),
        2 => {
            let (e, i) = (x.expires_at, x.issued_at);
            x.expires_at = i;
            x.issued_at = e;
        }
        3 => {
            let g = other_bytes(s, t.signature.to_vec());
            x.signature = Signature::from_bytes(t.signature.get_signature_type(), g)
        }
        _ => x.issued_for = ckey(s).pk.clone(),
    }
    x
}
fn same_answers(s: &mut Src, a: &Trust, b: &Trust) -> R {
    let k = ckey(s);
    let cur = around(s, a.expires_at.as_secs());
    for by in [&k.pk, &a.issued_for] {
        let (x, y) = (tverify(a, by, cur)?, tverify(b, by, cur)?);
        ensure!(x.is_ok() == y.is_ok(), "verifies-differently", "before {x:?}, after {y:?}");
    }
    Ok(())
}
fn trust_forms(s: &mut Src, ctx: &mut Ctx, t: &Trust, known: &mut Option<String>) -> R {
    let e = no_panic("encode", || t.encode())?;
    let d = no_panic("Trust::decode", || Trust::decode(&e).map_err(|e| e.to_string()))?;
    ctx.checks += 2;
    match d {
        Ok(x) if x == *t => same_answers(s, t, &x)?,
        r if over(t) => *known = Some(format!("a trust with a {}-byte key and a {}-byte signature is read back from its binary form as {}", t.issued_for.encode().len(), t.signature.encode().len(), match r { Ok(_) => "another trust".into(), Err(e) => e })),
        r => return fail("binary-differs", format!("{t:?} encodes to {}, which reads as {r:?}", hex(&e))),
    }
    let x = no_panic("to_string", || t.to_string())?;
    let l: Vec<&str> = x.lines().collect();
    ensure!(l.len() == 4, "text-differs", "text of a trust has {} lines", l.len());
    match no_panic("convert_from_strings", || Trust::convert_from_strings(l[0], l[1], l[2], l[3]).map_err(|e| e.to_string()))? {
        Ok(y) if y == *t => same_answers(s, t, &y)?,
        r => return fail("text-differs", format!("{x} reads as {r:?}")),
    }
    ctx.checks += serde_forms("trust", t, |x| x.clone())?;
    let v = variant(s, t);
    if v != *t {
        if !over(t) && !over(&v) {
            ensure!(v.encode() != e, "encodings-collide", "{t:?} and {v:?} share the binary form {}", hex(&e));
        }
        ensure!(v.to_string() != x, "encodings-collide", "{t:?} and {v:?} share the text form {x}");
        ensure!(bincode::serialize(&v).ok() != bincode::serialize(t).ok(), "encodings-collide", "{t:?} and {v:?} share a serde form");
        ctx.checks += 3;
    }
    Ok(())
}
/// A writer that refuses one piece of what it is given.
struct Once {
    at: usize,
    n: usize,
    got: usize,
}
impl std::io::Write for Once {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.n == self.at {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        self.got += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::fmt::Write for Once {
    fn write_str(&mut self, b: &str) -> std::fmt::Result {
        std::io::Write::write(self, b.as_bytes()).map(|_| ()).map_err(|_| std::fmt::Error)
    }
}
/// A form that could not be written as a whole is reported so.
fn refused<T: serde::Serialize>(s: &mut Src, what: &str, v: &T) -> R {
    let mut w = Once { at: usize::MAX, n: 0, got: 0 };
    let go = |w: &mut Once, json: bool| if json { serde_json::to_writer(w, v).is_ok() } else { v.serialize(&mut rmp_serde::Serializer::new(w)).is_ok() };
    let json = s.chance(50);
    if !go(&mut w, json) {
        return Ok(());
    }
    let (n, all) = (w.n, w.got);
    for _ in 0..4 {
        let mut w = Once { at: 1 + s.idx(n.max(1)), n: 0, got: 0 };
        let at = w.at;
        let ok = no_panic("serialize", || go(&mut w, json))?;
        ensure!(!ok || w.got == all, "lost-write", "{what}: writing succeeds though piece {at} of {n} was refused ({} of {all} bytes written)", w.got);
    }
    Ok(())
}
fn refused_text(s: &mut Src, what: &str, v: &dyn std::fmt::Display) -> R {
    use std::fmt::Write;
    let mut w = Once { at: usize::MAX, n: 0, got: 0 };
    if write!(w, "{v}").is_err() {
        return Ok(());
    }
    let (n, all) = (w.n, w.got);
    for _ in 0..4 {
        let mut w = Once { at: 1 + s.idx(n.max(1)), n: 0, got: 0 };
        let at = w.at;
        let ok = no_panic("Display", || write!(w, "{v}").is_ok())?;
        ensure!(!ok || w.got == all, "lost-write", "{what}: writing succeeds though piece {at} of {n} was refused ({} of {all} bytes written)", w.got);
    }
    Ok(())
}
fn c09_values(s: &mut Src, ctx: &mut Ctx) -> R {
    let t = any_trust(s)?;
    ctx.say(|| format!("{t:?}"));
    ctx.hit();
    let mut known = None;
    trust_forms(s, ctx, &t, &mut known)?;
    let by = ckey(s);
    let to = ckey(s);
    let at = time(s);
    let show = |r: &Revocation| (r.pk.clone(), r.revoked_at, r.revoked_by.clone(), r.signature.clone());
    let r = no_panic("Revocation::create", || Revocation::create(&by.kp, to.pk.clone(), secs(at)))?;
    ctx.checks += serde_forms("revocation", &r, show)?;
    refused(s, "trust", &t)?;
    refused(s, "revocation", &r)?;
    refused(s, "public key", &by.pk)?;
    refused_text(s, "public key", &trust_graph::PublicKeyHashable::from(by.pk.clone()))?;
    let r2: Revocation = rmp_serde::from_slice(&rmp_serde::to_vec(&r).unwrap()).map_err(|e| Fail { key: "serde-failed".into(), msg: e.to_string(), harness: false })?;
    ensure!(rverify(&r2)?.is_ok(), "verifies-differently", "a revocation read back does not verify");
    for rel in [TrustRelation::Revocation(r.clone()), TrustRelation::Auth(Auth { trust: t.clone(), issued_by: by.pk.clone() })] {
        ctx.checks += serde_forms("relation", &rel, |x| (matches!(x, TrustRelation::Auth(_)), x.issued_at(), x.issued_by().clone(), x.issued_for().clone(), x.expires_at(), x.signature().clone()))?;
    }
    match known {
        Some(m) => fail(OVER, m),
        None => Ok(()),
    }
}
fn c09_certs(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = match s.weighted(&[12, 6, 2]) {
        0 => 2 + s.idx(4),
        1 => s.idx(12),
        _ => *s.pick(&[0usize, 1, 60, 127, 128, 254, 255]),
    };
    // one in a hundred does not fit the binary form
    let n = if s.draw(100) == 99 { 256 + s.idx(3) } else { n };
    let mut chain = vec![];
    if n > 20 {
        let t = any_trust(s)?;
        for i in 0..n {
            // distinct, cheap: the signature need not match for a round trip
            let mut x = t.clone();
            x.issued_at = secs(i as u64 * 7 + 1);
            chain.push(x);
        }
    } else {
        for _ in 0..n {
            chain.push(any_trust(s)?);
        }
    }
    let c = Certificate::new_unverified(chain);
    ctx.say(|| format!("certificate of {n} trusts: {:?}", c.chain.first()));
    if n >= 2 {
        ctx.hit();
    }
    let too_long = n > 255 || c.chain.iter().any(|t| over(t) || t.encode().len() > 255);
    let mut known = None;
    let e = no_panic("encode", || c.encode())?;
    if n >= 2 {
        let d = no_panic("Certificate::decode", || Certificate::decode(&e).map_err(|e| e.to_string()))?;
        ctx.checks += 1;
        match d {
            Ok(x) if x == c => {}
            r if too_long => known = Some(format!("a certificate of {n} trusts{} is read back from its binary form as {}", if c.chain.iter().any(over) { " with an RSA key or signature" } else { "" }, match r { Ok(_) => "another certificate".into(), Err(e) => e })),
            r => return fail("binary-differs", format!("certificate of {n} trusts reads back as {:?}", r.map(|x| x.chain.len()))),
        }
    } else {
        let d = no_panic("Certificate::decode", || Certificate::decode(&e).map_err(|e| e.to_string()))?;
        ctx.checks += 1;
        ensure!(d.is_err(), "short-accepted", "the binary form of a certificate of {n} trusts is read as {:?}", d.map(|x| x.chain.len()));
    }
    let t = no_panic("to_string", || c.to_string())?;
    match no_panic("from_str", || Certificate::from_str(&t).map_err(|e| e.to_string()))? {
        Ok(x) => ensure!(x == c, "text-differs", "certificate text of {n} trusts reads back as {} trusts", x.chain.len()),
        Err(e) => return fail("text-differs", format!("certificate text of {n} trusts does not read back: {e}")),
    }
    ctx.checks += 1;
    // the list form
    let mut list = vec![c.clone()];
    for _ in 0..s.idx(3) {
        let k = s.idx(3);
        let mut ch = vec![];
        for _ in 0..k {
            ch.push(any_trust(s)?);
        }
        let i = s.idx(list.len() + 1);
        list.insert(i, Certificate::new_unverified(ch));
    }
    if n <= 20 {
        refused(s, "list of certificates", &Certs { c: list.clone() })?;
        refused_text(s, "certificate", &c)?;
    }
    ctx.checks += serde_forms("list of certificates", &Certs { c: list }, |x| x.c.clone())?;
    // another value
    if n >= 1 {
        let mut o = c.clone();
        match s.draw(4) {
            0 => {
                let i = s.idx(n);
                o.chain[i] = variant(s, &c.chain[i])
            }
            1 => {
                o.chain.pop();
            }
            2 => {
                let (i, j) = (s.idx(n), s.idx(n));
                o.chain.swap(i, j)
            }
            _ => o.chain.push(c.chain[0].clone()),
        }
        if o != c {
            ensure!(o.to_string() != t, "encodings-collide", "two certificates share a text form");
            if !too_long && o.chain.len() <= 255 && !o.chain.iter().any(|t| over(t) || t.encode().len() > 255) {
                ensure!(o.encode() != e, "encodings-collide", "two certificates share a binary form");
            }
            ctx.checks += 2;
        }
        // verification agrees before and after
        let x = Certificate::from_str(&t).unwrap_or_else(|_| c.clone());
        let roots: Vec<PublicKey> = c.chain.iter().take(3).map(|t| t.issued_for.clone()).collect();
        let cur = around(s, c.chain[0].expires_at.as_secs());
        let a = no_panic("verify", || Certificate::verify(&c, &roots, secs(cur)).is_ok())?;
        let b = no_panic("verify", || Certificate::verify(&x, &roots, secs(cur)).is_ok())?;
        ensure!(a == b, "verifies-differently", "verification gives {a} before and {b} after the text form");
    }
    match known {
        Some(m) => fail(OVER, m),
        None => Ok(()),
    }
}
/// Genuine chains: they verify after every form as before.
fn c09_genuine(s: &mut Src, ctx: &mut Ctx) -> R {
    let cur = time(s);
    let (ks, l) = gen_chain(s, cur, 8)?;
    let c = cert_of(&l);
    let when = around(s, cur);
    let roots = [ks[0].pk.clone()];
    let v = |c: &Certificate| no_panic("verify", || Certificate::verify(c, &roots, secs(when)).is_ok());
    let a = v(&c)?;
    ctx.say(|| format!("chain {} verified at {when}: {a}", ks.iter().map(|k| k.name.as_str()).collect::<Vec<_>>().join(">")));
    let rsa = ks.iter().any(|k| k.fmt == KeyFormat::Rsa);
    if l.len() >= 2 && !rsa {
        ctx.hit();
        match no_panic("decode", || Certificate::decode(&c.encode()).map_err(|e| e.to_string()))? {
            Ok(x) => ensure!(v(&x)? == a, "verifies-differently", "verification changes after the binary form"),
            Err(e) => return fail("binary-differs", e),
        }
    }
    match no_panic("from_str", || Certificate::from_str(&c.to_string()).map_err(|e| e.to_string()))? {
        Ok(x) => ensure!(v(&x)? == a, "verifies-differently", "verification changes after the text form"),
        Err(e) => return fail("text-differs", e),
    }
    let j = serde_json::to_string(&c.chain).map_err(|e| Fail { key: "serde-failed".into(), msg: e.to_string(), harness: false })?;
    let ch: Vec<Trust> = serde_json::from_str(&j).map_err(|e| Fail { key: "serde-failed".into(), msg: e.to_string(), harness: false })?;
    ensure!(v(&Certificate::new_unverified(ch))? == a, "verifies-differently", "verification changes after JSON");
    ctx.checks += 3;
    Ok(())
}

const A: &[&str] = &["times are whole seconds", "libp2p-identity decides which signatures are genuine"];
// ------------------------------------------------------------------------ C27
/// Reference writers: tag and raw bytes from libp2p's key.
fn tag(f: KeyFormat) -> u8 {
    match f {
        KeyFormat::Ed25519 => 0,
        KeyFormat::Rsa => 1,
        KeyFormat::Secp256k1 => 2,
    }
}
fn raw_key(k: &Key) -> Vec<u8> {
    let p = k.lp.public();
    match k.fmt {
        KeyFormat::Ed25519 => p.try_into_ed25519().unwrap().to_bytes().to_vec(),
        KeyFormat::Secp256k1 => p.try_into_secp256k1().unwrap().to_bytes().to_vec(),
        // SubjectPublicKeyInfo: 24 bytes, then the PKCS#1 key
        KeyFormat::Rsa => p.try_into_rsa().unwrap().encode_x509()[24..].to_vec(),
    }
}
struct Written {
    key: Vec<u8>,
    sig: Vec<u8>,
    exp: u64,
    at: u64,
}
impl Written {
    fn fits(&self) -> bool {
        self.key.len() < 256 && self.sig.len() < 256 && self.key.len() + self.sig.len() + 18 < 256
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![self.key.len() as u8];
        o.extend(&self.key);
        o.push(self.sig.len() as u8);
        o.extend(&self.sig);
        o.extend(self.exp.to_le_bytes());
        o.extend(self.at.to_le_bytes());
        o
    }
    fn text(&self) -> String {
        format!("{}\n{}\n{}\n{}", b58(&self.key), b58(&self.sig), self.exp, self.at)
    }
}
/// A trust as the library makes it, and as the reference writes it.
fn c27_trust(s: &mut Src, rsa_too: bool) -> R<(Trust, Written)> {
    let pick = |s: &mut Src| match s.weighted(&[8, 5, if rsa_too { 1 } else { 0 }]) {
        0 => ed(s.idx(N_ED)),
        1 => secp(s.idx(N_SECP)),
        _ => rsa(s.idx(3)),
    };
    let (by, to) = (pick(s), pick(s));
    let (exp, at) = (time(s), time(s));
    let key = [vec![tag(to.fmt)], raw_key(to)].concat();
    let (t, sig) = if s.chance(70) {
        // signed by libp2p; the library has to accept it as its own
        let g = by.lp.sign(&trust_msg(&key, exp, at)).map_err(|e| Fail { key: "harness".into(), msg: e.to_string(), harness: true })?;
        let t = no_panic("Trust::new", || Trust::new(to.pk.clone(), secs(exp), secs(at), Signature::from_bytes(by.fmt, g.clone())))?;
        let v = tverify(&t, &by.pk, exp)?;
        ensure!(v.is_ok(), "signed-form-differs", "a trust signed over the documented message does not verify: {v:?}");
        (t, g)
    } else {
        let t = no_panic("Trust::create", || Trust::create(&by.kp, to.pk.clone(), secs(exp), secs(at)))?;
        let g = t.signature.to_vec().to_vec();
        ensure!(by.lp.public().verify(&trust_msg(&key, exp, at), &g), "signed-form-differs", "a trust is not signed over the documented message");
        (t, g)
    };
    Ok((t, Written { key, sig: [vec![tag(by.fmt)], sig].concat(), exp, at }))
}
fn c27_values(s: &mut Src, ctx: &mut Ctx) -> R {
    let (t, w) = c27_trust(s, true)?;
    ctx.say(|| format!("key {} signature {} until {} from {}", hex(&w.key), hex(&w.sig), w.exp, w.at));
    ctx.hit();
    let st = |e: fluence_keypair::error::DecodingError| e.to_string();
    // keys and signatures
    let f = t.signature.get_signature_type();
    let name = match f {
        KeyFormat::Ed25519 => "ed25519",
        KeyFormat::Rsa => "rsa",
        KeyFormat::Secp256k1 => "secp256k1",
    };
    ensure!(String::from(f) == name && KeyFormat::from_str(name).ok() == Some(f), "type-name", "type {f:?} is named {}, {name} is read as {:?}", String::from(f), KeyFormat::from_str(name).ok());
    ensure!(no_panic("encode", || t.issued_for.encode())? == w.key, "key-layout", "a key is written as {}, not {}", hex(&t.issued_for.encode()), hex(&w.key));
    let k = no_panic("decode", || PublicKey::decode(&w.key).map_err(st))?;
    ensure!(k.as_ref() == Ok(&t.issued_for), "key-layout", "{} is read as {k:?}", hex(&w.key));
    let k = no_panic("from_base58", || PublicKey::from_base58(&b58(&w.key)).map_err(st))?;
    ensure!(k.as_ref() == Ok(&t.issued_for), "key-layout", "{} is read as {k:?}", b58(&w.key));
    ensure!(no_panic("encode", || t.signature.encode())? == w.sig, "signature-layout", "a signature is written as {}, not {}", hex(&t.signature.encode()), hex(&w.sig));
    let g = no_panic("decode", || Signature::decode(w.sig.clone()).map_err(st))?;
    ensure!(g.as_ref() == Ok(&t.signature), "signature-layout", "{} is read as {g:?}", hex(&w.sig));
    // trusts
    if w.fits() {
        ctx.label("binary");
        let (e, want) = (no_panic("encode", || t.encode())?, w.bytes());
        ensure!(e == want, "binary-layout", "a trust is written as {}, not {}", hex(&e), hex(&want));
        let d = no_panic("decode", || Trust::decode(&want).map_err(|e| e.to_string()))?;
        ensure!(d.as_ref() == Ok(&t), "binary-layout", "{} is read as {d:?}", hex(&want));
    }
    let (e, want) = (no_panic("to_string", || t.to_string())?, w.text());
    ensure!(e == want, "text-layout", "a trust is written as {e:?}, not {want:?}");
    let l: Vec<&str> = want.split('\n').collect();
    let d = no_panic("convert_from_strings", || Trust::convert_from_strings(l[0], l[1], l[2], l[3]).map_err(|e| e.to_string()))?;
    ensure!(d.as_ref() == Ok(&t), "text-layout", "{want:?} is read as {d:?}");
    let m = no_panic("signature_bytes", || Trust::signature_bytes(&t.issued_for, t.expires_at, t.issued_at))?;
    ensure!(m == trust_msg(&w.key, w.exp, w.at), "signed-form-differs", "the bytes to sign of a trust are {}", hex(&m));
    // revocations
    let by = any_key(s);
    let m = no_panic("signature_bytes", || Revocation::signature_bytes(&t.issued_for, t.issued_at))?;
    let want = revoke_msg(&w.key, w.at);
    ensure!(m == want, "signed-form-differs", "the bytes to sign of a revocation are {}", hex(&m));
    let g = by.lp.sign(&want).map_err(|e| Fail { key: "harness".into(), msg: e.to_string(), harness: true })?;
    let r = Revocation::new(by.pk.clone(), t.issued_for.clone(), t.issued_at, Signature::from_bytes(by.fmt, g));
    let v = rverify(&r)?;
    ensure!(v.is_ok(), "signed-form-differs", "a revocation signed over the documented message does not verify: {v:?}");
    ctx.checks += 12;
    Ok(())
}
fn c27_certs(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = match s.weighted(&[8, 4, 1]) {
        0 => 2 + s.idx(4),
        1 => s.idx(9),
        _ => *s.pick(&[40usize, 127, 128, 200, 255]),
    };
    let mut ts = vec![];
    let some: Vec<_> = (0..n.min(8)).map(|_| c27_trust(s, n < 9)).collect::<R<_>>()?;
    for i in 0..n {
        let (t, w) = &some[i % some.len()];
        let mut t = t.clone();
        let at = if i < some.len() { w.at } else { i as u64 };
        t.issued_at = secs(at);
        ts.push((t, Written { key: w.key.clone(), sig: w.sig.clone(), exp: w.exp, at }));
    }
    let c = Certificate::new_unverified(ts.iter().map(|x| x.0.clone()).collect());
    ctx.say(|| format!("certificate of {n} trusts {:?}", ts.first().map(|x| x.1.text())));
    let text: String = std::iter::once("11\n1111\n".to_string()).chain(ts.iter().map(|x| x.1.text() + "\n")).collect();
    let got = no_panic("to_string", || c.to_string())?;
    ensure!(got == text, "text-layout", "a certificate is written as {got:?}, not {text:?}");
    let d = no_panic("from_str", || Certificate::from_str(&text).map_err(|e| e.to_string()))?;
    ensure!(d.as_ref() == Ok(&c), "text-layout", "{text:?} is read as {d:?}");
    let list = serde_json::json!({ "c": vec![text.clone(); 1 + s.idx(2)] });
    let cs = Certs { c: vec![c.clone(); list["c"].as_array().unwrap().len()] };
    let got = no_panic("serialize", || serde_json::to_value(&cs).map_err(|e| e.to_string()))?;
    ensure!(got.as_ref() == Ok(&list), "list-layout", "a list of certificates is written as {got:?}");
    let d = no_panic("deserialize", || serde_json::from_value::<Certs>(list.clone()).map(|x| x.c).map_err(|e| e.to_string()))?;
    ensure!(d.as_ref() == Ok(&cs.c), "list-layout", "{list} is read as {d:?}");
    ctx.checks += 4;
    if n >= 2 {
        ctx.hit();
        if ts.iter().all(|x| x.1.fits()) {
            ctx.label("binary");
            let mut want = vec![0; 6];
            want.push(n as u8);
            for (_, w) in &ts {
                let b = w.bytes();
                want.push(b.len() as u8);
                want.extend(b);
            }
            let e = no_panic("encode", || c.encode())?;
            ensure!(e == want, "binary-layout", "a certificate is written as {}, not {}", hex(&e), hex(&want));
            let d = no_panic("decode", || Certificate::decode(&want).map_err(|e| e.to_string()))?;
            ensure!(d.as_ref() == Ok(&c), "binary-layout", "{} is read as {d:?}", hex(&want));
            ctx.checks += 2;
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            level: "exploration",
            assumptions: A,
            subs: vec![Sub { name: "trust", quick: 12_000, thorough: 400_000, rule: "one trust, three times around its expiration, four single-field changes and one free combination; all non-trivial", f: c05_case },
                Sub { name: "clock", quick: 200, thorough: 2000, rule: "the library's clock between two readings of the system's, and a trust that just runs out; all non-trivial", f: c05_clock }],
        },
        Prop {
            id: "C06",
            level: "exploration",
            assumptions: A,
            subs: vec![
                Sub { name: "revocation", quick: 8000, thorough: 300_000, rule: "one revocation, four single-field changes and cross use with trusts; all non-trivial", f: c06_case },
                Sub { name: "recut", quick: 20_000, thorough: 600_000, rule: "a signed message of one kind re-cut as the other kind, with unusual keys; non-trivial when the re-cut parses", f: c06_recut },
            ],
        },
        Prop {
            id: "C07",
            level: "exploration",
            assumptions: A,
            subs: vec![Sub { name: "chains", quick: 20_000, thorough: 400_000, rule: "a genuine chain, up to two corruptions, a root list and a time; non-trivial with at least two trusts", f: c07_case }],
        },
        Prop {
            id: "C08",
            level: "exploration",
            assumptions: &["times are whole seconds", "issue_with_trust is given trusts signed by the stated issuer (it is documented neither to check nor not to check this)"],
            subs: vec![
                Sub { name: "issue", quick: 12_000, thorough: 300_000, rule: "a base certificate, genuine or corrupted, an issuer and times; non-trivial when a certificate is issued", f: c08_issue },
                Sub { name: "root", quick: 8000, thorough: 200_000, rule: "root certificates and pairs of root and issued trusts; all non-trivial", f: c08_root },
            ],
        },
        Prop {
            id: "C09",
            level: "exploration",
            assumptions: A,
            subs: vec![
                Sub { name: "values", quick: 10_000, thorough: 300_000, rule: "a trust, a revocation and relations through every form, and a near variant; all non-trivial", f: c09_values },
                Sub { name: "certificates", quick: 6000, thorough: 150_000, rule: "certificates of 0..258 trusts through every form; non-trivial with at least two trusts", f: c09_certs },
                Sub { name: "genuine", quick: 6000, thorough: 150_000, rule: "genuine chains verified before and after each form; non-trivial when the binary form applies", f: c09_genuine },
            ],
        },
        Prop {
            id: "C27",
            level: "exploration",
            assumptions: A,
            subs: vec![
                Sub { name: "values", quick: 6000, thorough: 200_000, rule: "a trust with its key, signature and signed bytes, and a revocation, against the reference writer, both ways; all non-trivial", f: c27_values },
                Sub { name: "certificates", quick: 3000, thorough: 80_000, rule: "certificates of 0..255 trusts against the reference writer, both ways; non-trivial with at least two trusts", f: c27_certs },
            ],
        },
    ]
}
