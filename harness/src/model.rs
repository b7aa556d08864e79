//! Reference model of the trust graph, written from the documentation: nodes
//! are indices, one current relation per ordered pair, certificates are found
//! by exhaustive forward enumeration.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Rel {
    Auth { at: u64, exp: u64, sig: Vec<u8> },
    Rev { at: u64, sig: Vec<u8> },
}
impl Rel {
    pub fn at(&self) -> u64 {
        match self {
            Rel::Auth { at, .. } | Rel::Rev { at, .. } => *at,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct T {
    pub to: usize,
    pub exp: u64,
    pub at: u64,
    pub sig: Vec<u8>,
}
pub type Cert = Vec<T>;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Model {
    /// (issuer, recipient) -> current relation
    pub rels: BTreeMap<(usize, usize), Rel>,
    pub roots: BTreeMap<usize, u32>,
}

pub const CAP: u32 = 16;

impl Model {
    pub fn gc(&mut self, now: u64) {
        self.rels.retain(|_, r| !matches!(r, Rel::Auth { exp, .. } if *exp <= now));
    }
    /// Latest relation wins; ties keep the one already there.
    pub fn upsert(&mut self, by: usize, to: usize, r: Rel) -> bool {
        match self.rels.get(&(by, to)) {
            Some(old) if old.at() >= r.at() => false,
            _ => {
                self.rels.insert((by, to), r);
                true
            }
        }
    }
    pub fn set_root(&mut self, n: usize, max: u32) {
        self.roots.insert(n, max);
    }
    fn auth(&self, by: usize, to: usize) -> Option<T> {
        match self.rels.get(&(by, to)) {
            Some(Rel::Auth { at, exp, sig }) => Some(T { to, exp: *exp, at: *at, sig: sig.clone() }),
            _ => None,
        }
    }
    fn revoked(&self, by: usize, to: usize) -> bool {
        matches!(self.rels.get(&(by, to)), Some(Rel::Rev { .. }))
    }
    pub fn revocations(&self, to: usize) -> BTreeSet<(usize, u64, Vec<u8>)> {
        self.rels
            .iter()
            .filter(|((_, t), _)| *t == to)
            .filter_map(|((b, _), r)| match r {
                Rel::Rev { at, sig } => Some((*b, *at, sig.clone())),
                _ => None,
            })
            .collect()
    }
    pub fn limit(&self, root: usize) -> u32 {
        self.roots.get(&root).copied().unwrap_or(0).min(CAP)
    }

    /// All certificates of `target` (assumes `gc` was done for the query time).
    pub fn certs(&self, target: usize) -> BTreeSet<Cert> {
        let mut out = BTreeSet::new();
        // nodes from which the target can be reached at all
        let mut reach: BTreeSet<usize> = [target].into();
        loop {
            let add: Vec<usize> = self
                .rels
                .iter()
                .filter(|((b, t), r)| matches!(r, Rel::Auth { .. }) && reach.contains(t) && !reach.contains(b))
                .map(|((b, _), _)| *b)
                .collect();
            if add.is_empty() {
                break;
            }
            reach.extend(add);
        }
        let mut succ: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for ((b, t), r) in &self.rels {
            if matches!(r, Rel::Auth { .. }) && b != t && reach.contains(b) && reach.contains(t) {
                succ.entry(*b).or_default().push(*t);
            }
        }
        for root in self.roots.keys() {
            if !reach.contains(root) {
                continue;
            }
            if let Some(t0) = self.auth(*root, *root) {
                let mut path = vec![*root];
                let mut chain = vec![t0];
                self.walk(target, self.limit(*root) as usize + 1, &succ, &mut path, &mut chain, &mut out);
            }
        }
        out
    }
    fn walk(&self, target: usize, max_len: usize, succ: &BTreeMap<usize, Vec<usize>>, path: &mut Vec<usize>, chain: &mut Cert, out: &mut BTreeSet<Cert>) {
        let here = *path.last().unwrap();
        if here == target && chain.len() > 1 {
            out.insert(chain.clone());
        }
        if here == target || chain.len() >= max_len {
            return;
        }
        for &next in succ.get(&here).map(|v| v.as_slice()).unwrap_or(&[]) {
            if path.contains(&next) || path.iter().any(|p| self.revoked(*p, next)) {
                continue;
            }
            let t = self.auth(here, next).unwrap();
            path.push(next);
            chain.push(t);
            self.walk(target, max_len, succ, path, chain, out);
            // the member's own self-signed trust may follow its trust
            if let Some(own) = self.auth(next, next) {
                if chain.len() < max_len {
                    chain.push(own);
                    self.walk(target, max_len, succ, path, chain, out);
                    chain.pop();
                }
            }
            chain.pop();
            path.pop();
        }
    }
    pub fn cert_weight(&self, c: &Cert) -> u32 {
        1u32 << (self.limit(c[0].to) - (c.len() as u32 - 1))
    }
    pub fn root_weight(&self, n: usize) -> u32 {
        if self.roots.contains_key(&n) {
            1u32 << self.limit(n)
        } else {
            0
        }
    }
    pub fn weight(&self, n: usize) -> u32 {
        self.root_weight(n).max(self.certs(n).iter().map(|c| self.cert_weight(c)).max().unwrap_or(0))
    }
    pub fn certs_from(&self, n: usize, issuer: usize) -> BTreeSet<Cert> {
        self.certs(n).into_iter().filter(|c| c.iter().any(|t| t.to == issuer)).collect()
    }
    #[allow(dead_code)]
    pub fn weight_from(&self, n: usize, issuer: usize) -> u32 {
        self.certs_from(n, issuer).iter().map(|c| self.cert_weight(c)).max().unwrap_or(0)
    }
    /// Outcome of offering a *verified* trust at `now`: None if it has no weight.
    pub fn add_trust(&mut self, by: usize, to: usize, exp: u64, at: u64, sig: Vec<u8>, now: u64) -> u32 {
        self.gc(now);
        let w = self.weight(by);
        let next = if by == to { w } else { w / 2 };
        if next > 0 {
            self.upsert(by, to, Rel::Auth { at, exp, sig });
        }
        next
    }
    /// Number of partial chains leading backwards from `target` (without any
    /// limit on their length), counted up to `cap`: the yardstick for the work of a query.
    pub fn partial_chains(&self, target: usize, cap: u64) -> u64 {
        let mut pred: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for ((b, t), r) in &self.rels {
            if matches!(r, Rel::Auth { .. }) {
                pred.entry(*t).or_default().push(*b);
            }
        }
        let mut n = 0;
        fn go(pred: &BTreeMap<usize, Vec<usize>>, node: usize, own_used: bool, seen: &mut Vec<usize>, n: &mut u64, cap: u64) {
            for &p in pred.get(&node).map(|v| v.as_slice()).unwrap_or(&[]) {
                if *n >= cap {
                    return;
                }
                if p == node {
                    if !own_used {
                        *n += 1;
                        go(pred, node, true, seen, n, cap);
                    }
                } else if !seen.contains(&p) {
                    *n += 1;
                    seen.push(p);
                    go(pred, p, false, seen, n, cap);
                    seen.pop();
                }
            }
        }
        let mut seen = vec![target];
        go(&pred, target, false, &mut seen, &mut n, cap);
        n
    }
}
