//! Straightforward in-memory `Storage` for driving the library without SQLite.
use crate::engine::Src;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt;
use std::rc::Rc;
use std::time::Duration;
use trust_graph::{Auth, PublicKeyHashable as PK, Revocation, Storage, StorageError, TrustRelation, WeightFactor};

#[derive(Debug)]
pub struct MemErr(pub String);
impl fmt::Display for MemErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for MemErr {}
impl From<MemErr> for String {
    fn from(e: MemErr) -> String {
        e.0
    }
}
impl StorageError for MemErr {}

/// What happens to one storage call (counted from `arm`).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MemFault {
    None,
    /// fails, without effect
    Before(u64),
    /// takes effect, yet reports failure
    After(u64),
    /// this and every later call fails, without effect
    From(u64),
}
thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    static FAULT: Cell<MemFault> = const { Cell::new(MemFault::None) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
/// Storage calls allowed on this thread from now on.
pub fn set_budget(n: u64) {
    LEFT.with(|l| l.set(n));
}
/// Sets the fault and starts counting storage calls.
pub fn arm(f: MemFault) {
    FAULT.with(|x| x.set(f));
    CALLS.with(|c| c.set(0));
}
pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}
fn through<T>(f: impl FnOnce() -> Result<T, MemErr>) -> Result<T, MemErr> {
    LEFT.with(|l| {
        if l.get() == 0 {
            l.set(u64::MAX);
            panic!("memstore budget exhausted");
        }
        l.set(l.get() - 1);
    });
    let k = CALLS.with(|c| c.replace(c.get() + 1));
    let e = || MemErr("injected storage failure".into());
    match FAULT.with(|x| x.get()) {
        MemFault::Before(i) if i == k => Err(e()),
        MemFault::From(i) if k >= i => Err(e()),
        MemFault::After(i) if i == k => {
            f()?;
            Err(e())
        }
        _ => f(),
    }
}

/// Keyed by encoded keys so that it does not rely on the hashing of the code under test.
#[derive(Default, Clone)]
pub struct Inner {
    pub rels: Vec<TrustRelation>,
    idx: HashMap<(Vec<u8>, Vec<u8>), usize>,
    pub roots: Vec<(PK, WeightFactor)>,
    /// order in which relations of one recipient are listed (any order is legal)
    pub reversed: bool,
}
impl Inner {
    fn key(by: &PK, to: &PK) -> (Vec<u8>, Vec<u8>) {
        let b: &fluence_keypair::PublicKey = by.as_ref();
        let t: &fluence_keypair::PublicKey = to.as_ref();
        (b.encode(), t.encode())
    }
    fn update(&mut self, r: TrustRelation) -> Result<(), MemErr> {
        let k = Self::key(r.issued_by().as_ref(), r.issued_for().as_ref());
        match self.idx.get(&k) {
            Some(i) if self.rels[*i].issued_at() >= r.issued_at() => {}
            Some(i) => self.rels[*i] = r,
            None => {
                self.idx.insert(k, self.rels.len());
                self.rels.push(r);
            }
        }
        Ok(())
    }
    fn reindex(&mut self) {
        self.idx = self.rels.iter().enumerate().map(|(i, r)| (Self::key(r.issued_by().as_ref(), r.issued_for().as_ref()), i)).collect();
    }
}
impl Storage for Inner {
    type Error = MemErr;
    fn get_relation(&self, issued_for: &PK, issued_by: &PK) -> Result<Option<TrustRelation>, MemErr> {
        Ok(self.idx.get(&Self::key(issued_by, issued_for)).map(|i| self.rels[*i].clone()))
    }
    fn get_authorizations(&self, issued_for: &PK) -> Result<Vec<Auth>, MemErr> {
        let want: &fluence_keypair::PublicKey = issued_for.as_ref();
        let mut v: Vec<Auth> = self
            .rels
            .iter()
            .filter_map(|r| match r {
                TrustRelation::Auth(a) if a.trust.issued_for == *want => Some(a.clone()),
                _ => None,
            })
            .collect();
        if self.reversed {
            v.reverse();
        }
        Ok(v)
    }
    fn get_revocations(&self, issued_for: &PK) -> Result<Vec<Revocation>, MemErr> {
        let want: &fluence_keypair::PublicKey = issued_for.as_ref();
        let mut v: Vec<Revocation> = self
            .rels
            .iter()
            .filter_map(|r| match r {
                TrustRelation::Revocation(a) if a.pk == *want => Some(a.clone()),
                _ => None,
            })
            .collect();
        if self.reversed {
            v.reverse();
        }
        Ok(v)
    }
    fn insert(&mut self, r: TrustRelation) -> Result<(), MemErr> {
        let k = Self::key(r.issued_by().as_ref(), r.issued_for().as_ref());
        match self.idx.get(&k) {
            Some(i) => self.rels[*i] = r,
            None => {
                self.idx.insert(k, self.rels.len());
                self.rels.push(r);
            }
        }
        Ok(())
    }
    fn get_root_weight_factor(&self, pk: &PK) -> Result<Option<WeightFactor>, MemErr> {
        Ok(self.roots.iter().find(|(k, _)| k == pk).map(|(_, w)| *w))
    }
    fn set_root_weight_factor(&mut self, pk: PK, w: WeightFactor) -> Result<(), MemErr> {
        match self.roots.iter_mut().find(|(k, _)| *k == pk) {
            Some(r) => r.1 = w,
            None => self.roots.push((pk, w)),
        }
        Ok(())
    }
    fn root_keys(&self) -> Result<Vec<PK>, MemErr> {
        Ok(self.roots.iter().map(|(k, _)| k.clone()).collect())
    }
    fn revoke(&mut self, r: Revocation) -> Result<(), MemErr> {
        self.update(TrustRelation::Revocation(r))
    }
    fn update_auth(&mut self, a: Auth, _cur: Duration) -> Result<(), MemErr> {
        self.update(TrustRelation::Auth(a))
    }
    fn remove_expired(&mut self, now: Duration) -> Result<(), MemErr> {
        let n = self.rels.len();
        self.rels.retain(|r| !matches!(r, TrustRelation::Auth(a) if a.trust.expires_at <= now));
        if self.rels.len() != n {
            self.reindex();
        }
        Ok(())
    }
}

/// The store handed to the code under test; clones share their contents.
#[derive(Default, Clone)]
pub struct MemStore(Rc<RefCell<Inner>>);
impl MemStore {
    pub fn new(s: &mut Src) -> Self {
        MemStore(Rc::new(RefCell::new(Inner { reversed: s.chance(40), ..Default::default() })))
    }
    pub fn deep_copy(&self) -> Self {
        MemStore(Rc::new(RefCell::new(self.0.borrow().clone())))
    }
}
impl Storage for MemStore {
    type Error = MemErr;
    fn get_relation(&self, issued_for: &PK, issued_by: &PK) -> Result<Option<TrustRelation>, MemErr> {
        through(|| self.0.borrow().get_relation(issued_for, issued_by))
    }
    fn get_authorizations(&self, issued_for: &PK) -> Result<Vec<Auth>, MemErr> {
        through(|| self.0.borrow().get_authorizations(issued_for))
    }
    fn get_revocations(&self, issued_for: &PK) -> Result<Vec<Revocation>, MemErr> {
        through(|| self.0.borrow().get_revocations(issued_for))
    }
    fn insert(&mut self, r: TrustRelation) -> Result<(), MemErr> {
        through(|| self.0.borrow_mut().insert(r))
    }
    fn get_root_weight_factor(&self, pk: &PK) -> Result<Option<WeightFactor>, MemErr> {
        through(|| self.0.borrow().get_root_weight_factor(pk))
    }
    fn set_root_weight_factor(&mut self, pk: PK, w: WeightFactor) -> Result<(), MemErr> {
        through(|| self.0.borrow_mut().set_root_weight_factor(pk, w))
    }
    fn root_keys(&self) -> Result<Vec<PK>, MemErr> {
        through(|| self.0.borrow().root_keys())
    }
    fn revoke(&mut self, r: Revocation) -> Result<(), MemErr> {
        through(|| self.0.borrow_mut().revoke(r))
    }
    fn update_auth(&mut self, a: Auth, cur: Duration) -> Result<(), MemErr> {
        through(|| self.0.borrow_mut().update_auth(a, cur))
    }
    fn remove_expired(&mut self, now: Duration) -> Result<(), MemErr> {
        through(|| self.0.borrow_mut().remove_expired(now))
    }
}
