//! Deterministic pool of identities of every key type, each held twice: as the
//! code under test sees it and as the independent libp2p implementation does.
use crate::engine::Src;
use fluence_keypair::{KeyFormat, KeyPair, PublicKey};
use sha2::Digest;
use std::sync::OnceLock;

pub struct Key {
    pub kp: KeyPair,
    pub pk: PublicKey,
    pub enc: Vec<u8>,
    pub peer: String,
    pub fmt: KeyFormat,
    pub lp: libp2p_identity::Keypair,
    pub secret: Vec<u8>,
    pub name: String,
}

pub const N_ED: usize = 26;
pub const N_SECP: usize = 10;
pub const N_RSA: usize = 3;

fn secret(tag: &str, i: usize) -> [u8; 32] {
    sha2::Sha256::digest(format!("tgcheck {tag} {i}").as_bytes()).into()
}

fn repo() -> String {
    std::env::var("TG_REPO").unwrap_or_else(|_| "/repo".into())
}
pub fn repo_file(rel: &str) -> Vec<u8> {
    std::fs::read(format!("{}/{rel}", repo())).unwrap_or_else(|e| panic!("cannot read {rel}: {e}"))
}

/// Copies of the repository's RSA test keys (kept here so that the pool does
/// not depend on test fixtures).
pub const RSA_PK8: [&[u8]; 3] = [
    include_bytes!("../fixtures/rsa-2048.pk8"),
    include_bytes!("../fixtures/rsa-3072.pk8"),
    include_bytes!("../fixtures/rsa-4096.pk8"),
];

fn mk(kp: KeyPair, fmt: KeyFormat, lp: libp2p_identity::Keypair, secret: Vec<u8>, name: String) -> Key {
    let pk = kp.public();
    let enc = pk.encode();
    let peer = lp.public().to_peer_id().to_base58();
    Key { kp, pk, enc, peer, fmt, lp, secret, name }
}
pub fn ed_from(sec: [u8; 32], name: String) -> Key {
    let kp = KeyPair::from_secret_key(sec.to_vec(), KeyFormat::Ed25519).unwrap_or_else(|e| panic!("API: a valid Ed25519 secret key is not imported: {e}"));
    let lp = libp2p_identity::Keypair::ed25519_from_bytes(sec).unwrap();
    mk(kp, KeyFormat::Ed25519, lp, sec.to_vec(), name)
}
pub fn secp_from(sec: [u8; 32], name: String) -> Key {
    let kp = KeyPair::from_secret_key(sec.to_vec(), KeyFormat::Secp256k1).unwrap_or_else(|e| panic!("API: a valid secp256k1 secret key is not imported: {e}"));
    let sk = libp2p_identity::secp256k1::SecretKey::try_from_bytes(sec).unwrap();
    let lp = libp2p_identity::Keypair::from(libp2p_identity::secp256k1::Keypair::from(sk));
    mk(kp, KeyFormat::Secp256k1, lp, sec.to_vec(), name)
}

static POOL: OnceLock<Vec<Key>> = OnceLock::new();
pub fn pool() -> &'static [Key] {
    POOL.get_or_init(|| {
        let mut v = vec![];
        for i in 0..N_ED {
            v.push(ed_from(secret("ed", i), format!("ed{i}")));
        }
        for i in 0..N_SECP {
            v.push(secp_from(secret("secp", i), format!("secp{i}")));
        }
        for (i, der) in RSA_PK8.iter().enumerate() {
            let kp = KeyPair::rsa_from_pkcs8(&mut der.to_vec()).unwrap_or_else(|e| panic!("API: a valid RSA key pair is not imported: {e}"));
            let lp = libp2p_identity::Keypair::rsa_from_pkcs8(&mut der.to_vec()).unwrap();
            v.push(mk(kp, KeyFormat::Rsa, lp, der.to_vec(), format!("rsa{i}")));
        }
        v
    })
}
pub fn ed(i: usize) -> &'static Key {
    &pool()[i % N_ED]
}
/// Many ed25519 keys, for wide graphs.
static WIDE: OnceLock<Vec<Key>> = OnceLock::new();
pub const N_WIDE: usize = 1100;
pub fn wide_nodes(n: usize) -> Vec<&'static Key> {
    let v = WIDE.get_or_init(|| (0..N_WIDE).map(|i| ed_from(secret("wide", i), format!("p{i}"))).collect());
    v.iter().take(n).collect()
}
pub fn secp(i: usize) -> &'static Key {
    &pool()[N_ED + i % N_SECP]
}
pub fn rsa(i: usize) -> &'static Key {
    &pool()[N_ED + N_SECP + i % N_RSA]
}

/// One key of any type (RSA in about 1 of 8).
pub fn any_key(s: &mut Src) -> &'static Key {
    match s.weighted(&[5, 3, 1]) {
        0 => ed(s.idx(N_ED)),
        1 => secp(s.idx(N_SECP)),
        _ => rsa(s.idx(N_RSA)),
    }
}
/// A fresh (not pooled) ed25519 or secp256k1 key.
pub fn fresh_key(s: &mut Src) -> Key {
    let f = s.chance(40);
    let h: [u8; 32] = sha2::Sha256::digest(s.bytes(12)).into();
    if f {
        secp_from(h, "fresh-secp".into())
    } else {
        ed_from(h, "fresh-ed".into())
    }
}
/// `n` distinct keys. `rsa_ok`: allow one RSA key (not representable as a peer id).
pub fn nodes(s: &mut Src, n: usize, rsa_ok: bool) -> Vec<&'static Key> {
    let mix = s.weighted(&[6, 3, 1]);
    let mut v: Vec<&'static Key> = vec![];
    for i in 0..n {
        v.push(match mix {
            0 => ed(i),
            1 if i % 3 == 1 => secp(i),
            1 => ed(i),
            _ if i % 2 == 0 => secp(i / 2),
            _ => ed(i),
        });
    }
    if mix == 2 && n > N_SECP {
        v = (0..n).map(ed).collect();
    }
    if rsa_ok && mix == 1 && s.chance(30) {
        let i = s.idx(n);
        v[i] = rsa(0);
    }
    v
}

pub const TIMES: [u64; 22] = [
    0, 1, 2, 100, 255, 256, 65_535, 65_536, 1_000_000_000,
    (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1,
    (1 << 53) - 1, 1 << 53, (1 << 53) + 1,
    (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX,
];
pub fn time(s: &mut Src) -> u64 {
    match s.weighted(&[4, 4, 2, 2]) {
        0 => s.draw(2000),
        1 => *s.pick(&TIMES),
        2 => {
            // round times: whole minutes, hours, days, thousands
            let u = *s.pick(&[60u64, 3600, 86_400, 1000, 1_000_000]);
            let k = if s.chance(50) { s.draw(50) } else { s.draw(1_700_000_000 / u + 1) };
            u * k
        }
        _ => s.u64any(),
    }
}
/// A value different from `x`, often by a small or single-bit change.
pub fn other_time(s: &mut Src, x: u64) -> u64 {
    let y = match s.weighted(&[3, 3, 2, 2, 2, 3]) {
        0 => x.wrapping_add(1 + s.draw(3)),
        1 => x.wrapping_sub(1 + s.draw(3)),
        2 => x ^ (1u64 << s.draw(64)),
        3 => time(s),
        4 => {
            let d = 1 + if s.chance(60) { s.draw(100) } else { s.draw(100_000) };
            if s.chance(50) {
                x.wrapping_add(d)
            } else {
                x.wrapping_sub(d)
            }
        }
        _ => match s.draw(9) {
            0 => {
                let u = *s.pick(&[10u64, 60, 3600, 86_400, 1000]);
                x / u * u
            }
            1 => {
                let u = *s.pick(&[10u64, 60, 3600, 86_400, 1000]);
                (x / u * u).wrapping_add(s.draw(u))
            }
            2 => x as u32 as u64,
            3 => x.wrapping_add(1 << 32),
            4 => x.swap_bytes(),
            5 => x.wrapping_mul(1000),
            6 => x / 1000,
            7 => u64::MAX,
            _ => 0,
        },
    };
    if y == x {
        x ^ 1
    } else {
        y
    }
}
pub fn secs(t: u64) -> std::time::Duration {
    std::time::Duration::from_secs(t)
}
pub fn b58(b: &[u8]) -> String {
    bs58::encode(b).into_string()
}
