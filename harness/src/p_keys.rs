//! C01-C04: keys, signatures and parsers.
use crate::engine::*;
use crate::ensure;
use crate::keys::*;
use fluence_keypair::{KeyFormat, KeyPair, PublicKey, Signature};
use libp2p_identity::PeerId;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::convert::TryFrom;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use trust_graph::{Auth, Certificate, PublicKeyHashable, Revocation, Trust, TrustRelation};

pub const FORMATS: [KeyFormat; 3] = [KeyFormat::Ed25519, KeyFormat::Secp256k1, KeyFormat::Rsa];

pub enum AnyKey {
    Pool(&'static Key),
    Fresh(Key),
}
impl std::ops::Deref for AnyKey {
    type Target = Key;
    fn deref(&self) -> &Key {
        match self {
            AnyKey::Pool(k) => k,
            AnyKey::Fresh(k) => k,
        }
    }
}
pub fn key(s: &mut Src) -> AnyKey {
    if s.chance(40) {
        AnyKey::Fresh(fresh_key(s))
    } else {
        AnyKey::Pool(any_key(s))
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut o = String::new();
    for x in b.iter().take(96) {
        o += &format!("{x:02x}");
    }
    if b.len() > 96 {
        o += &format!("..({} bytes)", b.len());
    }
    o
}
pub fn message(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[3, 3, 2, 1, 1]) {
        0 => 32,
        1 => s.idx(20),
        2 => 0,
        3 => *s.pick(&[63, 64, 65, 127, 128, 255, 256, 257]),
        _ => s.idx(900),
    };
    s.bytes(n)
}
/// A message to sign, sometimes a long one (a repeated short pattern).
fn any_message(s: &mut Src) -> Vec<u8> {
    if s.chance(4) {
        let pat = s.bytes(7);
        let n = *s.pick(&[1023usize, 1024, 1025, 2048, 4097, 10_000, 65_537]);
        return pat.into_iter().cycle().take(n).collect();
    }
    message(s)
}
/// A byte string different from `b`.
pub fn other_bytes(s: &mut Src, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    match s.weighted(&[5, 2, 2, 1, 1, 1, 1]) {
        0 if !v.is_empty() => {
            let i = s.idx(v.len());
            v[i] ^= 1 << s.draw(8);
        }
        1 if !v.is_empty() => {
            let n = s.idx(v.len());
            v.truncate(n);
        }
        2 => {
            let n = 1 + s.idx(4);
            v.extend(s.bytes(n));
        }
        3 => v.insert(0, s.byte()),
        4 => v = s.bytes(b.len()),
        5 => v.fill(0),
        _ => {
            let n = s.idx(v.len() + 8);
            v = s.bytes(n);
        }
    }
    if v == b {
        v.push(0);
    }
    v
}

// ------------------------------------------------------------------------ C01
fn verify(pk: &PublicKey, msg: &[u8], sig: &Signature) -> R<bool> {
    let a = no_panic("PublicKey::verify", || pk.verify(msg, sig).map_err(|e| e.to_string()))?;
    let b = no_panic("KeyPair::verify", || KeyPair::verify(pk, msg, sig).map_err(|e| e.to_string()))?;
    ensure!(a.is_ok() == b.is_ok(), "verify-disagrees", "PublicKey::verify says {a:?}, KeyPair::verify says {b:?}");
    Ok(a.is_ok())
}
fn der_int(v: &[u8]) -> Vec<u8> {
    let z = v.iter().position(|b| *b != 0).unwrap_or(v.len().saturating_sub(1));
    let mut c = v[z..].to_vec();
    if c.first().map_or(true, |b| b & 0x80 != 0) {
        c.insert(0, 0);
    }
    let mut o = vec![2, c.len() as u8];
    o.extend(c);
    o
}
const N: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];
/// (r, s) of a DER signature.
fn der_parts(sig: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    if sig.len() < 8 || sig[0] != 0x30 {
        return None;
    }
    let rl = sig[3] as usize;
    let r = sig.get(4..4 + rl)?.to_vec();
    let sl = *sig.get(5 + rl)? as usize;
    let s = sig.get(6 + rl..6 + rl + sl)?.to_vec();
    Some((r, s))
}
fn pad32(v: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    let v = if v.len() > 32 { &v[v.len() - 32..] } else { v };
    o[32 - v.len()..].copy_from_slice(v);
    o
}
fn n_minus(s: &[u8]) -> [u8; 32] {
    let s = pad32(s);
    let mut o = [0u8; 32];
    let mut borrow = 0i32;
    for i in (0..32).rev() {
        let d = N[i] as i32 - s[i] as i32 - borrow;
        borrow = (d < 0) as i32;
        o[i] = (d & 0xff) as u8;
    }
    o
}
fn secp_der(r: &[u8], s: &[u8]) -> Vec<u8> {
    let mut b = der_int(r);
    b.extend(der_int(s));
    let mut o = vec![0x30, b.len() as u8];
    o.extend(b);
    o
}
fn c01_sign(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = key(s);
    let msg = any_message(s);
    ctx.say(|| format!("{} signs {}", k.name, hex(&msg)));
    let sig = no_panic("sign", || k.kp.sign(&msg).map_err(|e| e.to_string()))?;
    let sig = match sig {
        Ok(x) => x,
        Err(e) => return fail("sign-failed", format!("signing failed: {e}")),
    };
    let raw = sig.to_vec().to_vec();
    ensure!(sig.get_signature_type() == k.fmt, "signature-type", "a {:?} key produced a {:?} signature", k.fmt, sig.get_signature_type());
    ensure!(verify(&k.pk, &msg, &sig)?, "own-signature-rejected", "own signature {} over {} rejected", hex(&raw), hex(&msg));
    ensure!(k.lp.public().verify(&msg, &raw), "libp2p-rejects", "libp2p rejects the signature {} over {}", hex(&raw), hex(&msg));
    let lps = k.lp.sign(&msg).map_err(|e| Fail { key: "lp".into(), msg: e.to_string(), harness: true })?;
    ensure!(verify(&k.pk, &msg, &Signature::from_bytes(k.fmt, lps.clone()))?, "libp2p-signature-rejected", "a libp2p signature {} by the same key is rejected", hex(&lps));
    ctx.checks += 3;
    for _ in 0..4 {
        // another message
        let m2 = other_bytes(s, &msg);
        ensure!(!verify(&k.pk, &m2, &sig)?, "wrong-message-accepted", "{}'s signature over {} accepted for message {}", k.name, hex(&msg), hex(&m2));
        // another key, of the same or another type
        let k2 = key(s);
        if k2.enc != k.enc {
            let want = k2.lp.public().verify(&msg, &raw);
            let got = verify(&k2.pk, &msg, &sig)?;
            ensure!(!got && !want, "wrong-key-accepted", "{}'s signature accepted under {} (libp2p says {want})", k.name, k2.name);
            ctx.label(if k2.fmt == k.fmt { "other key" } else { "key of another type" });
            // a valid signature of the other key
            if k2.fmt != KeyFormat::Rsa || s.chance(10) {
                let o = no_panic("sign", || k2.kp.sign(&msg))?.map_err(|e| Fail { key: "sign-failed".into(), msg: e.to_string(), harness: false })?;
                ensure!(!verify(&k.pk, &msg, &o)?, "foreign-signature-accepted", "{}'s signature accepted as {}'s", k2.name, k.name);
                ensure!(verify(&k2.pk, &msg, &o)?, "own-signature-rejected", "own signature rejected");
            }
        }
        // another signature
        let r2 = if k.fmt == KeyFormat::Secp256k1 && s.chance(25) {
            let Some((r, t)) = der_parts(&raw) else { return fail("signature-form", format!("not a DER signature: {}", hex(&raw))) };
            ctx.label("re-encoded signature");
            match s.draw(5) {
                0 => secp_der(&r, &n_minus(&t)),
                1 => secp_der(&n_minus(&r), &t),
                2 => secp_der(&t, &r),
                3 => secp_der(&[0], &t),
                _ => {
                    let mut v = pad32(&r).to_vec();
                    v.extend(pad32(&t));
                    v
                }
            }
        } else {
            let v = other_bytes(s, &raw);
            // no damage of these kinds leaves an equivalent signature
            ensure!(!verify(&k.pk, &msg, &Signature::from_bytes(k.fmt, v.clone()))?, "damaged-signature-accepted", "signature {} damaged to {} still accepted by {}", hex(&raw), hex(&v), k.name);
            v
        };
        let want = k.lp.public().verify(&msg, &r2);
        let got = verify(&k.pk, &msg, &Signature::from_bytes(k.fmt, r2.clone()))?;
        ensure!(got == want, "differs-from-libp2p", "{} answers {got} for signature {} over {}, libp2p says {want}", k.name, hex(&r2), hex(&msg));
        let f2 = *s.pick(&[KeyFormat::Ed25519, KeyFormat::Secp256k1, KeyFormat::Rsa]);
        ensure!(!verify(&k.pk, &m2, &Signature::from_bytes(f2, raw.clone()))?, "wrong-message-accepted", "{}'s signature over {} accepted for message {} as a {f2:?} signature", k.name, hex(&msg), hex(&m2));
        ctx.checks += 5;
    }
    ctx.label(match k.fmt {
        KeyFormat::Ed25519 => "ed25519",
        KeyFormat::Secp256k1 => "secp256k1",
        KeyFormat::Rsa => "rsa",
    });
    ctx.hit();
    Ok(())
}
/// Points of small order and other unusual ed25519 encodings.
const WEIRD_ED: [&str; 8] = [
    "0100000000000000000000000000000000000000000000000000000000000000",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "0000000000000000000000000000000000000000000000000000000000000000",
    "0000000000000000000000000000000000000000000000000000000000000080",
    "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
    "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "0100000000000000000000000000000000000000000000000000000000000080",
];
fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// Lines of `bits:exponent`, PKCS#1 public key and a signature over "trust graph".
const FOREIGN_RSA: &str = include_str!("../fixtures/rsa-foreign.txt");
/// A public key of any type from generated bytes, with libp2p's view of it.
fn c01_wild(s: &mut Src, ctx: &mut Ctx) -> R {
    let msg = any_message(s);
    let mut msg = msg;
    let mut foreign = None;
    let (fmt, raw): (KeyFormat, Vec<u8>) = match s.draw(6) {
        5 => {
            // sizes and exponents at and beyond the limits, with a valid signature
            let lines: Vec<&str> = FOREIGN_RSA.lines().collect();
            let f: Vec<&str> = s.pick(&lines).split(' ').collect();
            msg = b"trust graph".to_vec();
            foreign = Some(unhex(f[2]));
            ctx.label("rsa key at the limits");
            (KeyFormat::Rsa, unhex(f[1]))
        }
        0 => (KeyFormat::Ed25519, unhex(*s.pick(&WEIRD_ED))),
        1 => (KeyFormat::Ed25519, s.bytes(32)),
        2 => {
            let mut v = s.bytes(33);
            v[0] = 2 + (v[0] & 1);
            (KeyFormat::Secp256k1, v)
        }
        3 => {
            let k = rsa(s.idx(3));
            let r = k.enc[1..].to_vec();
            (KeyFormat::Rsa, if s.chance(60) { other_bytes(s, &r) } else { r })
        }
        _ => (KeyFormat::Rsa, message(s)),
    };
    let mut enc = vec![u8::from(fmt)];
    enc.extend(&raw);
    let pk = no_panic("PublicKey::decode", || PublicKey::decode(&enc).map_err(|e| e.to_string()))?;
    let lp: Option<libp2p_identity::PublicKey> = match fmt {
        KeyFormat::Ed25519 => libp2p_identity::ed25519::PublicKey::try_from_bytes(&raw).ok().map(|k| k.into()),
        KeyFormat::Secp256k1 => libp2p_identity::secp256k1::PublicKey::try_from_bytes(&raw).ok().map(|k| k.into()),
        KeyFormat::Rsa => libp2p_identity::rsa::PublicKey::try_decode_x509(&spki(&raw)).ok().map(|k| k.into()),
    };
    ctx.say(|| format!("{fmt:?} key {} (libp2p {}) message {}", hex(&raw), if lp.is_some() { "accepts" } else { "rejects" }, hex(&msg)));
    if fmt != KeyFormat::Rsa {
        ensure!(pk.is_ok() == lp.is_some(), "key-acceptance", "{fmt:?} key {}: decode gives {pk:?}, libp2p {}", hex(&raw), if lp.is_some() { "accepts it" } else { "rejects it" });
    }
    let (Ok(pk), Some(lp)) = (pk, lp) else {
        ctx.label("key refused");
        return Ok(());
    };
    ctx.hit();
    for _ in 0..4 {
        let n = match fmt {
            KeyFormat::Ed25519 => 64,
            KeyFormat::Secp256k1 => 70,
            KeyFormat::Rsa => 256,
        };
        let mut sig = match s.draw(4) {
            _ if foreign.is_some() => foreign.clone().unwrap(),
            0 => s.bytes(n),
            1 => message(s),
            2 => {
                let mut v = unhex(*s.pick(&WEIRD_ED));
                v.extend([0u8; 32]);
                v
            }
            _ => {
                let r = s.bytes(32);
                let t = s.bytes(32);
                secp_der(&r, &t)
            }
        };
        if s.chance(20) {
            sig = other_bytes(s, &sig);
        }
        let want = lp.verify(&msg, &sig);
        let got = verify(&pk, &msg, &Signature::from_bytes(fmt, sig.clone()))?;
        ctx.checks += 1;
        if want {
            ctx.label("accepted by libp2p");
        }
        // presented as a signature of another type it is at best as good
        let f2 = *s.pick(&[KeyFormat::Ed25519, KeyFormat::Secp256k1, KeyFormat::Rsa]);
        let odd = if s.chance(30) { vec![] } else { sig.clone() };
        let as_other = verify(&pk, &msg, &Signature::from_bytes(f2, odd.clone()))?;
        ensure!(!as_other || lp.verify(&msg, &odd), "mistyped-signature-accepted", "{fmt:?} key {} accepts {} over {} presented as a signature of type {f2:?}, libp2p does not", hex(&raw), hex(&odd), hex(&msg));
        ensure!(got == want, "differs-from-libp2p", "{fmt:?} key {} answers {got} for signature {} over {}, libp2p says {want}", hex(&raw), hex(&sig), hex(&msg));
    }
    Ok(())
}

// -------------------------------------------------------------------- DER bits
pub fn der(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![tag];
    let n = body.len();
    if n < 128 {
        o.push(n as u8);
    } else if n < 256 {
        o.extend([0x81, n as u8]);
    } else {
        o.extend([0x82, (n >> 8) as u8, n as u8]);
    }
    o.extend(body);
    o
}
/// X.509 SubjectPublicKeyInfo around a PKCS#1 key.
pub fn spki(pkcs1: &[u8]) -> Vec<u8> {
    let oid = der(6, &[0x2A, 0x86, 0x48, 0x86, 0xF7, 0x0D, 0x01, 0x01, 0x01]);
    let alg = der(0x30, &[oid, vec![5, 0]].concat());
    let bits = der(3, &[vec![0], pkcs1.to_vec()].concat());
    der(0x30, &[alg, bits].concat())
}
/// RFC 5915 ECPrivateKey.
fn ec_private(secret: &[u8], opt: bool, public: Option<&[u8]>) -> Vec<u8> {
    let mut b = der(2, &[1]);
    b.extend(der(4, secret));
    if opt {
        b.extend(der(0xA0, &der(6, &[0x2B, 0x81, 0x04, 0x00, 0x0A])));
    }
    if let Some(p) = public {
        b.extend(der(0xA1, &der(3, &[&[0], p].concat())));
    }
    der(0x30, &b)
}

// ------------------------------------------------------------------------ C02
/// Every serde form of a value reads back; `get` makes it comparable.
pub fn serde_forms<T: Serialize + DeserializeOwned, K: PartialEq + Debug>(what: &str, v: &T, get: impl Fn(&T) -> K) -> R<u64> {
    let want = get(v);
    let mut n = 0;
    let mut check = |form: &str, r: Result<T, String>| -> R {
        n += 1;
        match r {
            Ok(x) => {
                let g = get(&x);
                ensure!(g == want, "serde-differs", "{what} read back from {form} is {g:?}, was {want:?}");
                Ok(())
            }
            Err(e) => fail("serde-failed", format!("{what} does not survive {form}: {e} ({want:?})")),
        }
    };
    let e = |e: &dyn std::fmt::Display| e.to_string();
    check("JSON text", no_panic("serde", || serde_json::to_string(v).map_err(|x| e(&x)).and_then(|t| serde_json::from_str(&t).map_err(|x| e(&x))))?)?;
    check("JSON bytes", no_panic("serde", || serde_json::to_vec(v).map_err(|x| e(&x)).and_then(|t| serde_json::from_reader(&t[..]).map_err(|x| e(&x))))?)?;
    check("JSON value", no_panic("serde", || serde_json::to_value(v).map_err(|x| e(&x)).and_then(|t| serde_json::from_value(t).map_err(|x| e(&x))))?)?;
    check("bincode", no_panic("serde", || bincode::serialize(v).map_err(|x| e(&x)).and_then(|t| bincode::deserialize(&t).map_err(|x| e(&x))))?)?;
    check("MessagePack", no_panic("serde", || rmp_serde::to_vec(v).map_err(|x| e(&x)).and_then(|t| rmp_serde::from_slice(&t).map_err(|x| e(&x))))?)?;
    check("named MessagePack", no_panic("serde", || rmp_serde::to_vec_named(v).map_err(|x| e(&x)).and_then(|t| rmp_serde::from_read(&t[..]).map_err(|x| e(&x))))?)?;
    Ok(n)
}
#[derive(Serialize, Deserialize)]
struct PeerBox {
    #[serde(with = "fluence_keypair::peerid_serializer")]
    p: PeerId,
}
fn hash<T: Hash + ?Sized>(k: &T) -> u64 {
    let mut h = DefaultHasher::new();
    k.hash(&mut h);
    h.finish()
}
fn same_key(what: &str, k: &Key, r: Result<PublicKey, String>) -> R {
    match r {
        Ok(p) => {
            ensure!(p == k.pk, "key-differs", "{} read back from {what} is {p:?}", k.name);
            ensure!(p.get_key_format() == k.fmt, "key-type-differs", "{} read back from {what} is of type {:?}", k.name, p.get_key_format());
            ensure!(p.encode() == k.enc, "encoding-differs", "{} re-encodes differently after {what}", k.name);
            Ok(())
        }
        Err(e) => fail("key-not-read-back", format!("{} is not read back from {what}: {e}", k.name)),
    }
}
fn c02_keys(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = key(s);
    ctx.say(|| format!("{} = {}", k.name, hex(&k.enc)));
    ctx.hit();
    let st = |e: fluence_keypair::error::DecodingError| e.to_string();
    ensure!(no_panic("encode", || k.pk.encode())? == k.enc, "encoding-unstable", "encode is not a function of the key");
    ensure!(k.enc[0] == u8::from(k.fmt) && k.enc[1..] == no_panic("to_vec", || k.pk.to_vec())?[..], "encoding-form", "encoding {} is not tag + raw key", hex(&k.enc));
    ensure!(k.pk.get_key_format() == k.fmt, "key-type-differs", "public key of a {:?} pair is of type {:?}", k.fmt, k.pk.get_key_format());
    same_key("tagged bytes", &k, no_panic("decode", || PublicKey::decode(&k.enc).map_err(st))?)?;
    let b = b58(&k.enc);
    same_key("base58", &k, no_panic("from_base58", || PublicKey::from_base58(&b).map_err(st))?)?;
    let h = PublicKeyHashable::from(k.pk.clone());
    let shown = no_panic("to_string", || h.to_string())?;
    same_key("the hashable's text", &k, no_panic("from_str", || PublicKeyHashable::from_str(&shown).map(PublicKey::from).map_err(st))?)?;
    let js = serde_json::to_string(&shown).unwrap();
    match no_panic("serde", || serde_json::from_str::<PublicKeyHashable>(&js).map_err(|e| e.to_string()))? {
        Ok(x) => ensure!(x == h, "key-differs", "hashable from its JSON string is {x}"),
        Err(e) => return fail("serde-failed", format!("hashable {shown} not read from its base58 JSON string: {e}")),
    }
    ctx.checks += 6;
    ctx.checks += serde_forms("public key", &k.pk, |x| x.clone())?;
    ctx.checks += serde_forms("hashable public key", &h, |x| x.clone())?;
    // libp2p
    let lp = no_panic("to libp2p", || libp2p_identity::PublicKey::from(k.pk.clone()))?;
    ensure!(lp == k.lp.public(), "libp2p-key-differs", "{} converts to another libp2p key", k.name);
    same_key("libp2p key", &k, Ok(no_panic("from libp2p", || PublicKey::from(lp.clone()))?))?;
    same_key("libp2p's own key", &k, Ok(no_panic("from libp2p", || PublicKey::from(k.lp.public()))?))?;
    let peer = no_panic("to_peer_id", || k.pk.to_peer_id())?;
    ensure!(peer.to_base58() == k.peer, "peer-id-differs", "{} has peer id {peer}, libp2p derives {}", k.name, k.peer);
    ensure!(no_panic("get_peer_id", || k.kp.get_peer_id())? == peer, "peer-id-differs", "key pair and public key disagree about the peer id");
    let back = no_panic("from peer id", || PublicKey::try_from(peer).map_err(st))?;
    if k.fmt == KeyFormat::Rsa {
        ensure!(back.is_err(), "not-inlined", "an RSA key was read from a peer id that does not contain it");
    } else {
        same_key("peer id", &k, back)?;
    }
    ctx.checks += serde_forms("peer id", &PeerBox { p: peer }, |x| x.p)?;
    ctx.checks += 6;
    // distinctness and hashing
    let h2 = PublicKeyHashable::from(PublicKey::decode(&k.enc).map_err(|e| Fail { key: "key-not-read-back".into(), msg: e.to_string(), harness: false })?);
    ensure!(hash(&h) == hash(&h2), "hash-differs", "equal keys with different hashes: {}", k.name);
    let r: &PublicKeyHashable = k.pk.as_ref();
    ensure!(*r == h && hash(r) == hash(&h), "hash-differs", "the borrowed view of {} hashes or compares differently", k.name);
    // lists of keys
    let o = PublicKeyHashable::from(any_key(s).pk.clone());
    let (va, vb) = (vec![h.clone(), o.clone()], vec![h2.clone(), o.clone()]);
    ensure!(va == vb && hash(&va) == hash(&vb) && hash(&va[..]) == hash(&vb[..]), "hash-differs", "equal lists of keys with different hashes: {}", k.name);
    if let (PublicKey::Secp256k1(p), Ok(l)) = (&k.pk, k.lp.public().try_into_secp256k1()) {
        ensure!(no_panic("encode_uncompressed", || p.encode_uncompressed())? == l.to_bytes_uncompressed(), "encoding-form", "uncompressed form of {} is not libp2p's", k.name);
    }
    let mut map: HashMap<PublicKeyHashable, usize> = HashMap::new();
    let mut others: Vec<AnyKey> = (0..4).map(|_| key(s)).collect();
    // a near miss: same key bytes under another tag or with one bit changed
    let mut near = k.enc.clone();
    match s.draw(3) {
        0 => near[0] = (near[0] + 1 + s.draw(2) as u8) % 3,
        1 => {
            let i = 1 + s.idx(near.len() - 1);
            near[i] ^= 1 << s.draw(8);
        }
        _ => {
            near[1] ^= 1;
        }
    }
    others.push(AnyKey::Pool(any_key(s)));
    map.insert(h.clone(), usize::MAX);
    for (i, o) in others.iter().enumerate() {
        if o.enc == k.enc {
            continue;
        }
        ensure!(o.pk != k.pk, "keys-confused", "{} equals {}", o.name, k.name);
        ensure!(o.pk.to_peer_id() != peer, "peer-ids-collide", "{} and {} share a peer id", o.name, k.name);
        map.insert(PublicKeyHashable::from(o.pk.clone()), i);
        ctx.checks += 2;
    }
    ensure!(map.get(&h2) == Some(&usize::MAX) && map.get(r) == Some(&usize::MAX), "hash-lookup", "{} not found under its own key", k.name);
    if let Ok(p) = no_panic("decode", || PublicKey::decode(&near))? {
        ensure!(p != k.pk && p.encode() != k.enc, "keys-confused", "{} decodes to the key of {}", hex(&near), hex(&k.enc));
        ensure!(map.get(&PublicKeyHashable::from(p)).is_none(), "keys-confused", "{} is found as another key", hex(&near));
        ctx.label("near miss decodes");
    }
    ctx.label(match k.fmt {
        KeyFormat::Ed25519 => "ed25519",
        KeyFormat::Secp256k1 => "secp256k1",
        KeyFormat::Rsa => "rsa",
    });
    Ok(())
}
/// RSA public keys of any modulus size, not only the three pairs of the pool.
fn c02_rsa(s: &mut Src, ctx: &mut Ctx) -> R {
    let bits = match s.weighted(&[5, 3, 2]) {
        0 => *s.pick(&[512usize, 1024, 2040, 2048, 2056, 3072, 4096, 6144, 7680, 8184, 8192, 8200, 12_288, 16_384]),
        1 => 8 * (64 + s.idx(1024)),
        _ => 8 * (16 + s.idx(300)),
    };
    let h: [u8; 32] = <sha2::Sha256 as sha2::Digest>::digest(s.bytes(8)).into();
    let mut n: Vec<u8> = h.iter().cycle().enumerate().map(|(i, b)| b.wrapping_add((i / 32) as u8)).take(bits / 8).collect();
    n[0] |= if s.chance(70) { 0x80 } else { 1 };
    let l = n.len();
    n[l - 1] |= 1;
    if s.chance(20) {
        let k = s.idx(l.min(9));
        n[l - 1 - k..l - 1].fill(0);
    }
    let e = match s.draw(4) {
        0 => vec![3],
        1 => vec![1, 0, 0, 0, 1],
        _ => vec![1, 0, 1],
    };
    let pkcs1 = der(0x30, &[der_int(&n), der_int(&e)].concat());
    let enc = [vec![u8::from(KeyFormat::Rsa)], pkcs1.clone()].concat();
    ctx.say(|| format!("RSA public key of {bits} bits ({} bytes)", enc.len()));
    ctx.hit();
    let st = |e: fluence_keypair::error::DecodingError| e.to_string();
    let pk = match no_panic("decode", || PublicKey::decode(&enc).map_err(st))? {
        Ok(x) => x,
        Err(e) => return fail("key-not-read-back", format!("RSA public key of {bits} bits not decoded: {e}")),
    };
    let same = |what: &str, r: Result<PublicKey, String>| -> R {
        match r {
            Ok(p) => {
                ensure!(p == pk && p.get_key_format() == KeyFormat::Rsa, "key-differs", "RSA key of {bits} bits read back from {what} is another key");
                ensure!(p.encode() == enc, "encoding-differs", "RSA key of {bits} bits re-encodes differently after {what}");
                Ok(())
            }
            Err(e) => fail("key-not-read-back", format!("RSA key of {bits} bits is not read back from {what}: {e}")),
        }
    };
    ensure!(no_panic("encode", || pk.encode())? == enc && no_panic("to_vec", || pk.to_vec())? == pkcs1, "encoding-form", "RSA key of {bits} bits does not encode as tag + PKCS#1");
    let b = b58(&enc);
    same("base58", no_panic("from_base58", || PublicKey::from_base58(&b).map_err(st))?)?;
    let h = PublicKeyHashable::from(pk.clone());
    let shown = no_panic("to_string", || h.to_string())?;
    ensure!(shown == b, "text-differs", "the hashable's text is not the base58 of the encoding");
    same("the hashable's text", no_panic("from_str", || PublicKeyHashable::from_str(&shown).map(PublicKey::from).map_err(st))?)?;
    ctx.checks += 4 + serde_forms("public key", &pk, |x| x.clone())?;
    ctx.checks += serde_forms("hashable public key", &h, |x| x.clone())?;
    if let Ok(lp) = libp2p_identity::rsa::PublicKey::try_decode_x509(&spki(&pkcs1)) {
        let lp = libp2p_identity::PublicKey::from(lp);
        same("libp2p's own key", Ok(no_panic("from libp2p", || PublicKey::from(lp.clone()))?))?;
        ensure!(no_panic("to libp2p", || libp2p_identity::PublicKey::from(pk.clone()))? == lp, "libp2p-key-differs", "RSA key of {bits} bits converts to another libp2p key");
        ensure!(no_panic("to_peer_id", || pk.to_peer_id())? == lp.to_peer_id(), "peer-id-differs", "RSA key of {bits} bits has another peer id than libp2p derives");
        ctx.checks += 3;
        ctx.label("known to libp2p");
    }
    if bits > 8192 {
        ctx.label("over 8192 bits");
    }
    Ok(())
}
fn c02_sigs(s: &mut Src, ctx: &mut Ctx) -> R {
    let fmt = *s.pick(&FORMATS);
    let n = match s.weighted(&[4, 3, 2, 1]) {
        0 => 64,
        1 => s.idx(12),
        2 => *s.pick(&[0, 70, 71, 72, 256, 384, 512, 1024, 2048]),
        _ => s.idx(1400),
    };
    let raw = s.bytes(n);
    ctx.say(|| format!("{fmt:?} signature {}", hex(&raw)));
    ctx.hit();
    let sig = no_panic("from_bytes", || Signature::from_bytes(fmt, raw.clone()))?;
    let enc = no_panic("encode", || sig.encode())?;
    ensure!(enc[0] == u8::from(fmt) && enc[1..] == raw[..], "encoding-form", "{fmt:?} signature {} encodes as {}", hex(&raw), hex(&enc));
    ensure!(sig.to_vec() == &raw[..] && sig.get_signature_type() == fmt, "raw-differs", "raw bytes or type of the signature differ");
    let rs = no_panic("get_raw_signature", || sig.get_raw_signature())?;
    ensure!(rs.bytes == raw && rs.sig_type == fmt && Signature::from_bytes(rs.sig_type, rs.bytes.clone()) == sig, "raw-differs", "raw signature differs");
    match no_panic("decode", || Signature::decode(enc.clone()).map_err(|e| e.to_string()))? {
        Ok(x) => ensure!(x == sig && x.get_signature_type() == fmt && x.encode() == enc, "signature-differs", "decoded {x:?} from {}", hex(&enc)),
        Err(e) => return fail("signature-not-read-back", format!("{}: {e}", hex(&enc))),
    }
    ctx.checks += 4 + serde_forms("signature", &sig, |x| x.clone())?;
    // text names and type bytes of the formats
    let name: String = fmt.into();
    ensure!(KeyFormat::from_str(&name).ok() == Some(fmt) && KeyFormat::try_from(u8::from(fmt)).ok() == Some(fmt), "format-name", "{fmt:?} does not read back from {name} or {}", u8::from(fmt));
    // distinct values
    let f2 = *s.pick(&FORMATS);
    let r2 = if s.chance(50) { raw.clone() } else { other_bytes(s, &raw) };
    if (f2, &r2) != (fmt, &raw) {
        let o = Signature::from_bytes(f2, r2.clone());
        ensure!(o != sig && o.encode() != enc, "signatures-confused", "{f2:?} {} and {fmt:?} {} are not told apart", hex(&r2), hex(&raw));
        ctx.checks += 1;
    }
    Ok(())
}

// ------------------------------------------------------------------------ C03
fn same_pair(what: &str, k: &Key, r: Result<KeyPair, String>, msg: &[u8]) -> R {
    let p = match r {
        Ok(p) => p,
        Err(e) => return fail("pair-not-read-back", format!("{} is not read back from {what}: {e}", k.name)),
    };
    ensure!(p.public() == k.pk && p.key_format() == k.fmt && p.get_peer_id().to_base58() == k.peer, "identity-changed", "{} read back from {what} has public key {:?}", k.name, p.public());
    let a = no_panic("sign", || p.sign(msg))?.map_err(|e| Fail { key: "sign-failed".into(), msg: e.to_string(), harness: false })?;
    ensure!(k.pk.verify(msg, &a).is_ok() && k.lp.public().verify(msg, a.to_vec()), "identity-changed", "{} read back from {what} signs for somebody else", k.name);
    Ok(())
}
fn lt_n(b: &[u8]) -> bool {
    b < &N[..]
}
fn valid_secret(fmt: KeyFormat, b: &[u8]) -> bool {
    match fmt {
        KeyFormat::Ed25519 => b.len() == 32,
        KeyFormat::Secp256k1 => b.len() == 32 && b.iter().any(|x| *x != 0) && lt_n(b),
        KeyFormat::Rsa => false,
    }
}
/// Printed forms must not show the secret, in any usual notation.
fn shows(s: &mut Src, secret: &[u8], texts: &[String]) -> R {
    if secret.len() < 16 || secret.iter().collect::<HashSet<_>>().len() < 8 {
        return Ok(());
    }
    // several bytes in a row of it
    let i = s.idx(secret.len() - 7);
    let part = &secret[i..i + 8];
    let plain = |l: &str| l.chars().filter(|c| !c.is_whitespace()).collect::<String>().to_lowercase();
    let dec = part.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",");
    let (hx, hc) = (hex(part).to_lowercase(), part.iter().map(|b| format!("0x{b:x}")).collect::<Vec<_>>().join(","));
    let rev: String = part.iter().rev().map(|b| format!("{b:02x}")).collect();
    let hp = part.iter().map(|b| format!("{b:x}")).collect::<Vec<_>>().join(",");
    // as machine words, in either order
    let j = s.idx(secret.len() / 4 - 1) * 4;
    let word = |i: usize, big: bool| {
        let w: [u8; 4] = secret[i..i + 4].try_into().unwrap_or_default();
        if big { u32::from_be_bytes(w) } else { u32::from_le_bytes(w) }
    };
    let mut marks = vec![dec, hx, hc, rev, hp];
    for big in [true, false] {
        let (a, b) = (word(j, big), word(j + 4, big));
        if a > 99_999 && b > 99_999 {
            marks.extend([format!("{a},{b}"), format!("{b},{a}"), format!("{a:x},{b:x}"), format!("{b:x},{a:x}")]);
        }
    }
    let whole = b58(secret);
    for t in texts {
        let p = plain(t);
        for x in &marks {
            ensure!(!p.contains(x), "secret-shown", "printing shows the secret: {t}");
        }
        ensure!(!t.contains(&whole), "secret-shown", "printing shows the secret: {t}");
    }
    Ok(())
}
fn c03_pairs(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = key(s);
    let msg = message(s);
    ctx.say(|| format!("{} ({:?}) exported and imported; probe message {}", k.name, k.fmt, hex(&msg)));
    ctx.hit();
    ensure!(k.kp.key_format() == k.fmt, "key-type-differs", "key format of {} is {:?}", k.name, k.kp.key_format());
    let st = |e: fluence_keypair::error::DecodingError| e.to_string();
    // both directions of the libp2p conversion
    let lp = no_panic("to libp2p", || libp2p_identity::Keypair::from(k.kp.clone()))?;
    ensure!(lp.public() == k.lp.public(), "identity-changed", "{} converts to another libp2p pair", k.name);
    let ls = lp.sign(&msg).map_err(|e| Fail { key: "identity-changed".into(), msg: e.to_string(), harness: false })?;
    ensure!(k.pk.verify(&msg, &Signature::from_bytes(k.fmt, ls)).is_ok(), "identity-changed", "the converted libp2p pair of {} signs for somebody else", k.name);
    same_pair("libp2p pair", &k, Ok(no_panic("from libp2p", || KeyPair::from(lp))?), &msg)?;
    same_pair("libp2p's own pair", &k, Ok(no_panic("from libp2p", || KeyPair::from(k.lp.clone()))?), &msg)?;
    same_pair("a clone", &k, Ok(k.kp.clone()), &msg)?;
    ctx.checks += 5;
    if k.fmt == KeyFormat::Rsa {
        ctx.label("rsa");
        ensure!(k.kp.secret().is_err(), "rsa-secret", "an RSA secret was exported");
        let mut buf = k.secret.clone();
        let r = no_panic("rsa_from_pkcs8", || KeyPair::rsa_from_pkcs8(&mut buf).map_err(st))?;
        ensure!(buf.iter().all(|b| *b == 0), "secret-not-wiped", "the PKCS8 buffer still holds the secret after import");
        same_pair("PKCS8", &k, r, &msg)?;
        return Ok(());
    }
    let v = no_panic("to_vec", || k.kp.to_vec())?;
    same_pair("to_vec bytes", &k, no_panic("from_vec", || KeyPair::from_vec(v.clone(), k.fmt).map_err(st))?, &msg)?;
    let sec = no_panic("secret", || k.kp.secret().map_err(|e| e.to_string()))?;
    match sec {
        Ok(x) => {
            ensure!(x == k.secret, "secret-differs", "exported secret of {} is not the imported one", k.name);
            same_pair("its secret", &k, no_panic("from_secret_key", || KeyPair::from_secret_key(x, k.fmt).map_err(st))?, &msg)?;
        }
        Err(e) => return fail("secret-not-exported", e),
    }
    if k.fmt == KeyFormat::Secp256k1 {
        let full = s.draw(3);
        let mut buf = ec_private(&k.secret, full > 0, if full > 1 { Some(&k.enc[1..]) } else { None });
        let r = no_panic("secp256k1_from_der", || KeyPair::secp256k1_from_der(&mut buf).map_err(st))?;
        ensure!(buf.iter().all(|b| *b == 0), "secret-not-wiped", "the DER buffer still holds the secret after import");
        same_pair("ECPrivateKey DER", &k, r, &msg)?;
        ctx.label("secp256k1");
    } else {
        ctx.label("ed25519");
    }
    match &k.kp {
        KeyPair::Ed25519(p) => {
            let mut sk = p.secret();
            sk = if s.chance(50) { p.clone().into() } else { sk };
            ensure!(sk.as_ref() == &k.secret[..], "secret-differs", "the secret key object of {} holds another secret", k.name);
            shows(s, &k.secret, &[format!("{sk:?}"), format!("{sk:#?}"), format!("{p:?}"), format!("{p:#?}")])?;
            let mut q = p.clone();
            q = if s.chance(90) { sk.into() } else { q };
            same_pair("its secret key object", &k, Ok(KeyPair::Ed25519(q)), &msg)?;
        }
        KeyPair::Secp256k1(p) => {
            let mut sk = p.secret().clone();
            sk = if s.chance(50) { p.clone().into() } else { sk };
            ensure!(sk.to_bytes() == k.secret[..], "secret-differs", "the secret key object of {} holds another secret", k.name);
            shows(s, &k.secret, &[format!("{sk:?}"), format!("{sk:#?}"), format!("{p:?}"), format!("{p:#?}")])?;
            let mut q = p.clone();
            q = if s.chance(90) { sk.into() } else { q };
            same_pair("its secret key object", &k, Ok(KeyPair::Secp256k1(q)), &msg)?;
        }
        _ => {}
    }
    // cross-type: the same 32 bytes as the other type are another identity or refused
    let of = if k.fmt == KeyFormat::Ed25519 { KeyFormat::Secp256k1 } else { KeyFormat::Ed25519 };
    if let Ok(p) = no_panic("from_secret_key", || KeyPair::from_secret_key(k.secret.clone(), of))? {
        ensure!(p.public() != k.pk && p.key_format() == of, "key-type-differs", "secret imported as {of:?} gives a {:?} pair", p.key_format());
    }
    // generation
    if s.chance(20) {
        let a = no_panic("generate", || KeyPair::generate(k.fmt))?;
        let b = no_panic("generate", || KeyPair::generate(k.fmt))?;
        ensure!(a.key_format() == k.fmt && a.public() != b.public(), "generate", "generated pairs are of type {:?} and {}", a.key_format(), if a.public() == b.public() { "equal" } else { "distinct" });
        let sg = a.sign(&msg).map_err(|e| Fail { key: "sign-failed".into(), msg: e.to_string(), harness: false })?;
        ensure!(a.public().verify(&msg, &sg).is_ok() && b.public().verify(&msg, &sg).is_err(), "generate", "generated pairs do not sign for themselves");
        let back = KeyPair::from_vec(a.to_vec(), k.fmt).map_err(|e| Fail { key: "pair-not-read-back".into(), msg: e.to_string(), harness: false })?;
        ensure!(back.public() == a.public(), "identity-changed", "a generated pair changes identity over to_vec/from_vec");
        ctx.label("generated");
    }
    ctx.checks += 5;
    Ok(())
}
fn c03_import(s: &mut Src, ctx: &mut Ctx) -> R {
    let st = |e: fluence_keypair::error::DecodingError| e.to_string();
    let fmt = *s.pick(&FORMATS);
    let k = any_key(s);
    let bytes: Vec<u8> = match s.weighted(&[3, 3, 2, 3, 2, 2, 2]) {
        0 => s.bytes(32),
        1 => {
            // around the boundaries of the secp256k1 scalar range
            let mut b = match s.draw(4) {
                0 => N.to_vec(),
                1 => vec![0u8; 32],
                2 => vec![0xff; 32],
                _ => N.to_vec(),
            };
            match s.draw(4) {
                0 => {}
                1 => b[31] = b[31].wrapping_sub(1),
                2 => b[31] = b[31].wrapping_add(1),
                _ => {
                    let i = s.idx(32);
                    b[i] = b[i].wrapping_sub(1)
                }
            }
            b
        }
        2 => {
            let n = s.idx(80);
            s.bytes(n)
        }
        3 => {
            // both halves of an ed25519 pair, possibly damaged or mismatched
            let e = ed(s.idx(N_ED));
            let mut b = e.secret.clone();
            let o = if s.chance(30) { ed(s.idx(N_ED)) } else { e };
            b.extend(&o.enc[1..]);
            if s.chance(40) {
                b = other_bytes(s, &b);
            }
            b
        }
        4 => k.secret.clone(),
        5 => other_bytes(s, &k.secret),
        _ => {
            let n = *s.pick(&[0usize, 1, 31, 33, 63, 64, 65, 96]);
            s.bytes(n)
        }
    };
    ctx.say(|| format!("import {} as {fmt:?}", hex(&bytes)));
    // from_secret_key
    let want = valid_secret(fmt, &bytes);
    let got = no_panic("from_secret_key", || KeyPair::from_secret_key(bytes.clone(), fmt).map_err(st))?;
    if let Err(e) = KeyPair::from_secret_key(bytes.clone(), fmt) {
        shows(s, &bytes[..bytes.len().min(32)], &[format!("{e}"), format!("{e:?}")])?;
    }
    if let Err(e) = KeyPair::from_vec(bytes.clone(), fmt) {
        shows(s, &bytes[..bytes.len().min(32)], &[format!("{e}"), format!("{e:?}")])?;
    }
    ctx.checks += 1;
    ensure!(got.is_ok() == want, "import-decision", "from_secret_key({}, {fmt:?}) {} but the secret is {}", hex(&bytes), if got.is_ok() { "succeeds" } else { "fails" }, if want { "well-formed" } else { "malformed" });
    if let Ok(p) = got {
        ctx.hit();
        let e: Key = match fmt {
            KeyFormat::Ed25519 => ed_from(pad32(&bytes), "import".into()),
            _ => secp_from(pad32(&bytes), "import".into()),
        };
        ensure!(p.public() == PublicKey::from(e.lp.public()), "identity-changed", "imported secret has another public key than libp2p derives");
        ensure!(p.secret().ok() == Some(bytes.clone()), "secret-differs", "imported secret is exported differently");
        ctx.label("valid secret");
    } else {
        ctx.label("malformed secret");
    }
    // from_vec
    let want = match fmt {
        KeyFormat::Ed25519 => {
            bytes.len() == 64 && {
                let e = ed_from(pad32(&bytes[..32]), "half".into());
                e.lp.public().try_into_ed25519().unwrap().to_bytes()[..] == bytes[32..]
            }
        }
        _ => valid_secret(fmt, &bytes),
    };
    let got = no_panic("from_vec", || KeyPair::from_vec(bytes.clone(), fmt).map_err(st))?;
    ctx.checks += 1;
    ensure!(got.is_ok() == want, "import-decision", "from_vec({}, {fmt:?}) {} but the pair is {}", hex(&bytes), if got.is_ok() { "succeeds" } else { "fails" }, if want { "well-formed" } else { "malformed" });
    if let Ok(p) = got {
        ctx.hit();
        ensure!(p.to_vec() == bytes, "secret-differs", "imported pair is exported differently");
        ctx.label("valid pair");
    }
    // DER, agreeing with what was put in
    let sec: Vec<u8> = if s.chance(60) { bytes.clone() } else { secp(s.idx(N_SECP)).secret.clone() };
    let mut d = ec_private(&sec, false, None);
    let mutated = s.chance(40);
    if mutated {
        d = other_bytes(s, &d);
    }
    let orig = d.clone();
    let got = no_panic("secp256k1_from_der", || KeyPair::secp256k1_from_der(&mut d).map_err(st))?;
    ctx.checks += 1;
    if !mutated {
        ensure!(got.is_ok() == valid_secret(KeyFormat::Secp256k1, &sec), "import-decision", "secp256k1_from_der of a structure with secret {} {}", hex(&sec), if got.is_ok() { "succeeds" } else { "fails" });
    }
    if let Ok(p) = got {
        ensure!(d.iter().all(|b| *b == 0), "secret-not-wiped", "the DER buffer still holds the secret after import");
        let x = p.secret().unwrap_or_default();
        ensure!(orig.windows(32).any(|w| w == &x[..]) || x[0] == 0, "secret-differs", "the imported secret does not occur in the DER structure");
    }
    // PKCS8
    if s.chance(25) {
        let mut d = RSA_PK8[s.weighted(&[4, 2, 1])].to_vec();
        let m = s.chance(70);
        if m {
            d = other_bytes(s, &d);
        }
        let want = libp2p_identity::Keypair::rsa_from_pkcs8(&mut d.clone());
        let got = no_panic("rsa_from_pkcs8", || KeyPair::rsa_from_pkcs8(&mut d).map_err(st))?;
        ctx.checks += 1;
        ensure!(got.is_ok() == want.is_ok(), "import-decision", "rsa_from_pkcs8 gives {:?}, libp2p {:?}", got.as_ref().err(), want.as_ref().err().map(|e| e.to_string()));
        if let (Ok(p), Ok(w)) = (got, want) {
            ensure!(d.iter().all(|b| *b == 0), "secret-not-wiped", "the PKCS8 buffer still holds the secret after import");
            ensure!(p.public().to_peer_id() == w.public().to_peer_id(), "identity-changed", "the imported RSA pair has another identity");
            ctx.label("pkcs8 accepted");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------ C04
fn mutate(s: &mut Src, v: &mut Vec<u8>) {
    for _ in 0..1 + s.idx(3) {
        if v.is_empty() {
            v.push(s.byte());
            continue;
        }
        let i = if s.chance(50) { s.idx(v.len().min(12)) } else { s.idx(v.len()) };
        match s.draw(9) {
            0 => v.truncate(i),
            1 => {
                let n = 1 + s.idx(20);
                v.extend(s.bytes(n))
            }
            2 => v[i] = s.byte(),
            3 => v[i] ^= 1 << s.draw(8),
            4 => v.insert(i, s.byte()),
            5 => {
                v.remove(i);
            }
            6 => v[i] = *s.pick(&[0u8, 1, 2, 3, 32, 33, 34, 64, 65, 127, 128, 254, 255]),
            7 => {
                let n = s.idx(v.len() - i).min(40);
                let part = v[i..i + n].to_vec();
                let j = s.idx(v.len());
                let end = (j + n).min(v.len());
                v[j..end].copy_from_slice(&part[..end - j]);
            }
            _ => {
                let n = (1 + s.idx(16)).min(v.len() - i);
                v.drain(i..i + n);
            }
        }
    }
}
fn some_trust(s: &mut Src) -> Trust {
    let a = any_key(s);
    let b = any_key(s);
    Trust::create(&a.kp, b.pk.clone(), secs(time(s)), secs(time(s)))
}
fn some_cert(s: &mut Src) -> Certificate {
    let n = 1 + s.idx(4);
    Certificate::new_unverified((0..n).map(|_| some_trust(s)).collect())
}
/// What may be done with any key that a parser let in.
fn use_key(pk: &PublicKey) -> R {
    no_panic("using a decoded key", || {
        let e = pk.encode();
        let _ = pk.to_vec();
        let _ = format!("{pk:?}");
        let _ = pk.verify(b"m", &Signature::from_bytes(pk.get_key_format(), vec![1; 64]));
        let _ = pk.to_peer_id();
        let lp = libp2p_identity::PublicKey::from(pk.clone());
        let _ = PublicKey::from(lp);
        let _ = PublicKeyHashable::from(pk.clone()).to_string();
        e
    })
    .map(|_| ())
}
fn key_again(what: &str, inp: &[u8], pk: &PublicKey) -> R {
    use_key(pk)?;
    let e = pk.encode();
    match no_panic("decode", || PublicKey::decode(&e).map_err(|e| e.to_string()))? {
        Ok(p) if p == *pk => Ok(()),
        r => fail("mis-read", format!("{what} read {} as {pk:?}, which reads back as {r:?}", hex(inp))),
    }
}
fn sig_again(what: &str, inp: &[u8], sg: &Signature) -> R {
    let e = no_panic("encode", || sg.encode())?;
    match no_panic("decode", || Signature::decode(e.clone()).map_err(|e| e.to_string()))? {
        Ok(p) if p == *sg => Ok(()),
        r => fail("mis-read", format!("{what} read {} as {sg:?}, which reads back as {r:?}", hex(inp))),
    }
}
fn overflows(t: &Trust) -> bool {
    t.issued_for.encode().len() > 255 || t.signature.encode().len() > 255
}
fn whole(t: &Trust) -> bool {
    t.expires_at.subsec_nanos() == 0 && t.issued_at.subsec_nanos() == 0
}
fn trust_again(what: &str, inp: &[u8], t: &Trust) -> R {
    use_key(&t.issued_for)?;
    no_panic("using a decoded trust", || {
        let _ = format!("{t:?}");
        let _ = Trust::verify(t, &t.issued_for, secs(5));
    })?;
    if !whole(t) {
        return Ok(());
    }
    if !overflows(t) {
        let e = no_panic("encode", || t.encode())?;
        match no_panic("decode", || Trust::decode(&e).map_err(|e| e.to_string()))? {
            Ok(p) if p == *t => {}
            r => return fail("mis-read", format!("{what} read {} as {t:?}, which reads back as {r:?}", hex(inp))),
        }
    }
    let x = no_panic("to_string", || t.to_string())?;
    let l: Vec<&str> = x.split('\n').collect();
    ensure!(l.len() == 4, "mis-read", "a trust is printed on {} lines", l.len());
    match no_panic("convert_from_strings", || Trust::convert_from_strings(l[0], l[1], l[2], l[3]).map_err(|e| e.to_string()))? {
        Ok(p) if p == *t => Ok(()),
        r => fail("mis-read", format!("{what} read {} as {t:?}, whose text reads back as {r:?}", hex(inp))),
    }
}
fn cert_again(what: &str, inp: &[u8], c: &Certificate) -> R {
    for t in &c.chain {
        trust_again(what, inp, t)?;
    }
    no_panic("using a decoded certificate", || {
        let _ = format!("{c:?}");
        let roots: Vec<_> = c.chain.iter().map(|t| t.issued_for.clone()).collect();
        let _ = Certificate::verify(c, &roots, secs(5));
    })?;
    if !c.chain.iter().all(whole) {
        return Ok(());
    }
    let x = no_panic("to_string", || c.to_string())?;
    match no_panic("from_str", || Certificate::from_str(&x).map_err(|e| e.to_string()))? {
        Ok(p) if p == *c => {}
        r => return fail("mis-read", format!("{what} read {} as {c:?}, whose text reads back as {r:?}", hex(inp))),
    }
    let fits = c.chain.len() >= 2 && c.chain.len() <= 255 && c.chain.iter().all(|t| !overflows(t) && t.encode().len() <= 255);
    if fits {
        let e = no_panic("encode", || c.encode())?;
        match no_panic("decode", || Certificate::decode(&e).map_err(|e| e.to_string()))? {
            Ok(p) if p == *c => {}
            r => return fail("mis-read", format!("{what} read {} as {c:?}, which reads back as {r:?}", hex(inp))),
        }
    }
    Ok(())
}
fn rel_again(what: &str, inp: &[u8], r: &TrustRelation) -> R {
    use_key(r.issued_by())?;
    use_key(r.issued_for())?;
    sig_again(what, inp, r.signature())?;
    no_panic("using a decoded relation", || (r.issued_at(), r.expires_at(), format!("{r:?}")))?;
    if let TrustRelation::Revocation(v) = r {
        no_panic("Revocation::verify", || Revocation::verify(v).is_ok())?;
    }
    Ok(())
}
fn all_bytes(b: &[u8], ctx: &mut Ctx) -> R {
    let mut ok = 0;
    ctx.checks += 20;
    if let Ok(k) = no_panic("PublicKey::decode", || PublicKey::decode(b))? {
        key_again("PublicKey::decode", b, &k)?;
        ctx.label("reads as key");
        ok += 1;
    }
    if let Ok(x) = no_panic("Signature::decode", || Signature::decode(b.to_vec()))? {
        sig_again("Signature::decode", b, &x)?;
        ok += 1;
    }
    if let Ok(t) = no_panic("Trust::decode", || Trust::decode(b))? {
        trust_again("Trust::decode", b, &t)?;
        ctx.label("reads as trust");
        ok += 1;
    }
    if let Ok(c) = no_panic("Certificate::decode", || Certificate::decode(b))? {
        cert_again("Certificate::decode", b, &c)?;
        ctx.label("reads as certificate");
        ok += 1;
    }
    if let Ok(p) = PeerId::from_bytes(b) {
        if let Ok(k) = no_panic("PublicKey::try_from(PeerId)", || PublicKey::try_from(p))? {
            key_again("PublicKey::try_from(PeerId)", b, &k)?;
            ctx.label("peer id with key");
            ok += 1;
        }
    }
    for f in FORMATS {
        if let Ok(k) = no_panic("KeyPair::from_vec", || KeyPair::from_vec(b.to_vec(), f))? {
            ensure!(k.to_vec() == b, "mis-read", "key pair read from {} exports differently", hex(b));
        }
        no_panic("KeyPair::from_secret_key", || KeyPair::from_secret_key(b.to_vec(), f).is_ok())?;
    }
    no_panic("secp256k1_from_der", || KeyPair::secp256k1_from_der(&mut b.to_vec()).is_ok())?;
    no_panic("rsa_from_pkcs8", || KeyPair::rsa_from_pkcs8(&mut b.to_vec()).is_ok())?;
    if let Some(x) = b.first() {
        if let Ok(f) = no_panic("KeyFormat::try_from", || KeyFormat::try_from(*x))? {
            ensure!(u8::from(f) == *x, "mis-read", "type byte {x} read as {f:?}");
        }
    }
    // serde, binary
    macro_rules! bin {
        ($t:ty, $again:expr) => {
            if let Ok(v) = no_panic("bincode", || bincode::deserialize::<$t>(b).map_err(|e| e.to_string()))? {
                ctx.label("reads as bincode");
                $again("bincode", b, &v)?;
            }
            if let Ok(v) = no_panic("MessagePack", || rmp_serde::from_slice::<$t>(b).map_err(|e| e.to_string()))? {
                ctx.label("reads as msgpack");
                $again("MessagePack", b, &v)?;
            }
        };
    }
    bin!(PublicKey, key_again);
    bin!(PublicKeyHashable, |w: &str, i: &[u8], k: &PublicKeyHashable| key_again(w, i, k.as_ref()));
    bin!(Signature, sig_again);
    bin!(Trust, trust_again);
    bin!(TrustRelation, rel_again);
    if ok > 0 {
        ctx.hit();
    }
    Ok(())
}
fn c04_bytes(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut v: Vec<u8> = match s.weighted(&[3, 2, 4, 4, 2, 2, 3, 2]) {
        0 => {
            let n = s.idx(60);
            let mut b = s.bytes(n);
            if !b.is_empty() && s.chance(60) {
                b[0] %= 4;
            }
            b
        }
        1 => key(s).enc.clone(),
        2 => some_trust(s).encode(),
        3 => some_cert(s).encode(),
        4 => {
            let k = any_key(s);
            let mut sig = vec![u8::from(k.fmt)];
            let n = s.idx(80);
            sig.extend(s.bytes(n));
            sig
        }
        5 => match s.draw(4) {
            0 => secp(s.idx(N_SECP)).secret.clone(),
            1 => ec_private(&secp(0).secret, s.chance(50), None),
            2 => RSA_PK8[0].to_vec(),
            _ => spki(&rsa(0).enc[1..]),
        },
        6 => match s.draw(8) {
            0 => bincode::serialize(&some_trust(s)).unwrap(),
            1 => rmp_serde::to_vec(&some_trust(s)).unwrap(),
            2 => {
                let a = any_key(s);
                bincode::serialize(&TrustRelation::Auth(Auth { trust: some_trust(s), issued_by: a.pk.clone() })).unwrap()
            }
            3 => {
                let (a, b) = (any_key(s), any_key(s));
                rmp_serde::to_vec(&TrustRelation::Revocation(Revocation::create(&a.kp, b.pk.clone(), secs(time(s))))).unwrap()
            }
            4 => bincode::serialize(&any_key(s).pk).unwrap(),
            5 => rmp_serde::to_vec(&any_key(s).pk).unwrap(),
            6 => rmp_serde::to_vec(&PublicKeyHashable::from(any_key(s).pk.clone())).unwrap(),
            _ => {
                let (a, b) = (any_key(s), any_key(s));
                rmp_serde::to_vec_named(&Revocation::create(&a.kp, b.pk.clone(), secs(time(s)))).unwrap()
            }
        },
        _ => {
            // a peer id around a protobuf-encoded key, possibly damaged
            let k = any_key(s);
            let mut pb = k.lp.public().encode_protobuf();
            if s.chance(30) {
                let n = s.idx(10);
                let body = spki(&s.bytes(n));
                pb = vec![8, 0, 18, body.len() as u8];
                pb.extend(body);
            }
            if s.chance(60) {
                mutate(s, &mut pb);
            }
            let mut m = vec![0u8, pb.len().min(127) as u8];
            m.extend(pb);
            m
        }
    };
    if s.chance(70) {
        mutate(s, &mut v);
    }
    ctx.say(|| format!("bytes {}", hex(&v)));
    all_bytes(&v, ctx)
}
/// No strict prefix of a binary trust or certificate is accepted.
fn c04_prefix(s: &mut Src, ctx: &mut Ctx) -> R {
    let kt = |s: &mut Src| if s.chance(50) { ed(s.idx(N_ED)) } else { secp(s.idx(N_SECP)) };
    let mut chain = vec![];
    for _ in 0..2 + s.idx(5) {
        let (a, b) = (kt(s), kt(s));
        chain.push(Trust::create(&a.kp, b.pk.clone(), secs(time(s)), secs(time(s))));
    }
    ctx.hit();
    let t = chain[0].encode();
    ctx.say(|| format!("prefixes of trust {} and of a certificate of {} trusts", hex(&t), chain.len()));
    for n in 0..t.len() {
        ctx.checks += 1;
        if let Ok(x) = no_panic("Trust::decode", || Trust::decode(&t[..n]))? {
            return fail("truncation-accepted", format!("the first {n} of {} bytes of {} are read as {x:?}", t.len(), hex(&t)));
        }
    }
    let c = Certificate::new_unverified(chain).encode();
    for n in 0..c.len() {
        ctx.checks += 1;
        if let Ok(x) = no_panic("Certificate::decode", || Certificate::decode(&c[..n]))? {
            return fail("truncation-accepted", format!("the first {n} of {} bytes of a certificate are read as one of {} trusts", c.len(), x.chain.len()));
        }
    }
    Ok(())
}
fn odd_text(s: &mut Src) -> String {
    s.pick(&["", " ", "\u{0}", "0", "-1", "18446744073709551616", "18446744073709551615", "99999999999999999999999", "+7", "1e3", "0x10", "1.5", "ключ", "11111", "l0OI", "\u{1F512}", "null", "NaN"]).to_string()
}
fn all_text(t: &str, ctx: &mut Ctx) -> R {
    let b = t.as_bytes();
    let mut ok = 0;
    ctx.checks += 12;
    if let Ok(k) = no_panic("from_base58", || PublicKey::from_base58(t))? {
        key_again("from_base58", b, &k)?;
        ok += 1;
    }
    if let Ok(k) = no_panic("PublicKeyHashable::from_str", || PublicKeyHashable::from_str(t))? {
        key_again("PublicKeyHashable::from_str", b, k.as_ref())?;
    }
    if let Ok(c) = no_panic("Certificate::from_str", || Certificate::from_str(t).map_err(|e| e.to_string()))? {
        ctx.label("reads as certificate text");
        cert_again("Certificate::from_str", b, &c)?;
        ok += 1;
    }
    let l: Vec<&str> = t.lines().collect();
    for w in l.windows(4).take(6) {
        if let Ok(x) = no_panic("convert_from_strings", || Trust::convert_from_strings(w[0], w[1], w[2], w[3]).map_err(|e| e.to_string()))? {
            trust_again("convert_from_strings", b, &x)?;
            ok += 1;
        }
    }
    if let Ok(f) = no_panic("KeyFormat::from_str", || KeyFormat::from_str(t).map_err(|e| e.to_string()))? {
        ensure!(String::from(f) == t, "mis-read", "{t:?} read as key format {f:?}");
        ok += 1;
    }
    let boxed = serde_json::json!({ "p": t }).to_string();
    let read = no_panic("peerid_serializer", || serde_json::from_str::<PeerBox>(&boxed).map(|b| b.p).map_err(|e| e.to_string()))?;
    ensure!(read.clone().ok() == PeerId::from_str(t).ok(), "misread", "peer id {t:?} is read by serde as {read:?}, by libp2p as {:?}", PeerId::from_str(t));
    let _ = no_panic("peerid_serializer", || serde_json::from_str::<PeerBox>(t).is_ok())?;
    if let Ok(p) = PeerId::from_str(t) {
        if let Ok(k) = no_panic("PublicKey::try_from(PeerId)", || PublicKey::try_from(p))? {
            key_again("PublicKey::try_from(PeerId)", b, &k)?;
            ok += 1;
        }
    }
    macro_rules! js {
        ($t:ty, $again:expr) => {
            if let Ok(v) = no_panic("JSON", || serde_json::from_str::<$t>(t).map_err(|e| e.to_string()))? {
                ctx.label("reads as JSON");
                ok += 1;
                $again("JSON", b, &v)?;
                let e = serde_json::to_string(&v).map_err(|e| Fail { key: "mis-read".into(), msg: e.to_string(), harness: false })?;
                let v2 = match serde_json::from_str::<$t>(&e) {
                    Ok(x) => x,
                    Err(x) => return fail("mis-read", format!("{t} was read from JSON, but its own JSON {e} is not: {x}")),
                };
                ensure!(format!("{v:?}") == format!("{v2:?}"), "mis-read", "{t} read from JSON as {v:?}, again as {v2:?}");
            }
        };
    }
    js!(PublicKey, key_again);
    js!(PublicKeyHashable, |w: &str, i: &[u8], k: &PublicKeyHashable| key_again(w, i, k.as_ref()));
    js!(Signature, sig_again);
    js!(Trust, trust_again);
    js!(TrustRelation, rel_again);
    if let Ok(v) = no_panic("JSON", || serde_json::from_str::<Certs>(t).map_err(|e| e.to_string()))? {
        for c in &v.c {
            cert_again("JSON certificates", b, c)?;
        }
        ok += 1;
    }
    no_panic("JSON", || serde_json::from_str::<PeerBox>(t).is_ok())?;
    if ok > 0 {
        ctx.hit();
    }
    Ok(())
}
#[derive(Serialize, Deserialize)]
pub struct Certs {
    #[serde(with = "trust_graph::certificate_serde::vec")]
    pub c: Vec<Certificate>,
}
fn c04_text(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut json = false;
    let mut t: String = match s.weighted(&[6, 2, 2, 1, 4, 2, 1]) {
        0 => some_cert(s).to_string(),
        1 => b58(&key(s).enc),
        2 => {
            let n = s.idx(40);
            b58(&s.bytes(n))
        }
        3 => s.pick(&["ed25519", "secp256k1", "rsa", "ED25519", "rsa ", ""]).to_string(),
        4 => {
            json = true;
            let (a, b) = (any_key(s), any_key(s));
            match s.draw(6) {
                0 => serde_json::to_string(&some_trust(s)).unwrap(),
                1 => serde_json::to_string(&TrustRelation::Auth(Auth { trust: some_trust(s), issued_by: a.pk.clone() })).unwrap(),
                2 => serde_json::to_string(&TrustRelation::Revocation(Revocation::create(&a.kp, b.pk.clone(), secs(time(s))))).unwrap(),
                3 => serde_json::to_string(&a.pk).unwrap(),
                4 => serde_json::to_string(&PublicKeyHashable::from(a.pk.clone())).unwrap(),
                _ => serde_json::to_string(&Certs { c: vec![some_cert(s)] }).unwrap(),
            }
        }
        5 => any_key(s).peer.clone(),
        _ => odd_text(s),
    };
    for _ in 0..s.weighted(&[2, 4, 2, 1]) {
        if json {
            // edit a number or a character
            let cs: Vec<char> = t.chars().collect();
            if cs.is_empty() {
                break;
            }
            let i = s.idx(cs.len());
            let mut cs = cs;
            match s.draw(4) {
                0 => cs[i] = *s.pick(&['0', '9', '"', ',', '-', '.', 'e', '[', '}']),
                1 => {
                    cs.remove(i);
                }
                2 => cs.insert(i, *s.pick(&['0', '1', '2', '9', ','])),
                _ => {
                    if let Some(p) = t.find("\"nanos\":0") {
                        let n = *s.pick(&["1", "999999999", "1000000000", "4294967295"]);
                        t.replace_range(p..p + 9, &format!("\"nanos\":{n}"));
                    } else if let Some(p) = t.find("\"secs\":") {
                        t.insert_str(p + 7, "99999999");
                    }
                    continue;
                }
            }
            t = cs.into_iter().collect();
            continue;
        }
        let mut l: Vec<String> = t.lines().map(|x| x.to_string()).collect();
        if l.is_empty() {
            t = odd_text(s);
            continue;
        }
        let i = s.idx(l.len());
        match s.draw(9) {
            0 => {
                l.remove(i);
            }
            1 => l[i] = odd_text(s),
            2 => l.insert(i, odd_text(s)),
            3 => {
                let x = l[i].clone();
                l.insert(i, x)
            }
            4 => l.truncate(i),
            5 => {
                let j = s.idx(l.len());
                l.swap(i, j)
            }
            6 => l[i].push(*s.pick(&['1', 'z', ' ', '\r', '\u{e9}', '0'])),
            7 => {
                if let Ok(mut b) = bs58::decode(&l[i]).into_vec() {
                    mutate(s, &mut b);
                    l[i] = b58(&b);
                }
            }
            _ => {
                let mut c: Vec<char> = l[i].chars().collect();
                if !c.is_empty() {
                    let j = s.idx(c.len());
                    c[j] = *s.pick(&['1', 'Z', '0', '\u{0}', '9']);
                }
                l[i] = c.into_iter().collect();
            }
        }
        t = l.join(*s.pick(&["\n", "\r\n", "\n\n", "\n"]));
    }
    ctx.say(|| format!("text {:?}", t.chars().take(400).collect::<String>()));
    all_text(&t, ctx)
}

const A_KEYS: &[&str] = &["RSA keys are the three key files shipped with the repository; Ed25519 and secp256k1 keys are generated", "libp2p-identity is the reference for accept/reject decisions and peer ids"];
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            assumptions: A_KEYS,
            subs: vec![
                Sub { name: "sign", quick: 9000, thorough: 200_000, rule: "one key, one message, its signature and four rounds of another message, another key and another signature; all non-trivial", f: c01_sign },
                Sub { name: "wild", quick: 20_000, thorough: 500_000, rule: "key and signature from arbitrary or unusual bytes, compared with libp2p; non-trivial when the key is accepted", f: c01_wild },
            ],
        },
        Prop {
            id: "C02",
            level: "exploration",
            assumptions: A_KEYS,
            subs: vec![
                Sub { name: "keys", quick: 12_000, thorough: 300_000, rule: "one key through every external form plus distinctness from five others; all non-trivial", f: c02_keys },
                Sub { name: "rsa-public", quick: 1500, thorough: 30_000, rule: "an RSA public key of 128 to 16384 bits through every external form; all non-trivial", f: c02_rsa },
                Sub { name: "signatures", quick: 30_000, thorough: 600_000, rule: "arbitrary signature bytes under each type; all non-trivial", f: c02_sigs },
            ],
        },
        Prop {
            id: "C03",
            level: "exploration",
            assumptions: &["exporting and generating RSA pairs is documented as unsupported and left out"],
            subs: vec![
                Sub { name: "pairs", quick: 5000, thorough: 100_000, rule: "one pair exported and imported in every way; all non-trivial", f: c03_pairs },
                Sub { name: "import", quick: 20_000, thorough: 400_000, rule: "generated secrets around validity boundaries as every type; non-trivial when accepted", f: c03_import },
            ],
        },
        Prop {
            id: "C04",
            level: "exploration",
            assumptions: &["allocation limits are those of the serde formats used"],
            subs: vec![
                Sub { name: "bytes", quick: 40_000, thorough: 2_000_000, rule: "valid encodings of every kind, damaged, given to every binary parser; non-trivial when some parser accepts", f: c04_bytes },
                Sub { name: "prefixes", quick: 400, thorough: 10_000, rule: "every strict prefix of a binary trust and certificate; all non-trivial", f: c04_prefix },
                Sub { name: "text", quick: 30_000, thorough: 1_500_000, rule: "certificate texts, base58, JSON and peer ids, damaged, given to every text parser; non-trivial when some parser accepts", f: c04_text },
            ],
        },
    ]
}
