//! Interpreter for the part of AIR that the package's start script uses.
use crate::engine::*;
use crate::svc;
use marine_rs_sdk::SecurityTetraplet;
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum A {
    List(Vec<A>),
    Args(Vec<A>),
    Str(String),
    Sym(String),
}
pub enum Stop {
    Unsupported,
    Fail(Fail),
}
impl From<Fail> for Stop {
    fn from(f: Fail) -> Stop {
        Stop::Fail(f)
    }
}
type X<T> = Result<T, Stop>;

fn items(s: &[u8], i: &mut usize, close: u8) -> Option<Vec<A>> {
    let mut out = vec![];
    loop {
        let c = *s.get(*i)?;
        *i += 1;
        match c {
            b';' => {
                while *i < s.len() && s[*i] != b'\n' {
                    *i += 1;
                }
            }
            b'(' => out.push(A::List(items(s, i, b')')?)),
            b'[' => out.push(A::Args(items(s, i, b']')?)),
            b'"' => {
                let n = s[*i..].iter().position(|c| *c == b'"')?;
                out.push(A::Str(String::from_utf8_lossy(&s[*i..*i + n]).into_owned()));
                *i += n + 1;
            }
            c if c == close => return Some(out),
            c if c.is_ascii_whitespace() => {}
            b')' | b']' => return None,
            _ => {
                let a = *i - 1;
                let mut depth = 0;
                while *i < s.len() && !s[*i].is_ascii_whitespace() && !b"();\"".contains(&s[*i]) {
                    match s[*i] {
                        b'[' => depth += 1,
                        b']' if depth == 0 => break,
                        b']' => depth -= 1,
                        _ => {}
                    }
                    *i += 1;
                }
                out.push(A::Sym(String::from_utf8_lossy(&s[a..*i]).into_owned()));
            }
        }
    }
}
pub fn parse(src: &str) -> Option<A> {
    let (s, mut i) = (format!("{src}\n)"), 0);
    let v = items(s.as_bytes(), &mut i, b')')?;
    if v.len() == 1 {
        v.into_iter().next()
    } else {
        None
    }
}

#[derive(Clone)]
pub struct Data {
    pub v: Value,
    pub origin: Vec<SecurityTetraplet>,
}
pub struct Request<'a> {
    pub peer: &'a str,
    pub service: &'a str,
    pub function: &'a str,
    pub args: &'a [Data],
}
pub struct Air<'a> {
    pub vars: HashMap<String, Data>,
    pub init: String,
    /// None: nobody serves this
    pub serve: &'a mut dyn FnMut(Request) -> R<Option<Value>>,
    loops: HashMap<String, (Vec<Data>, usize, A)>,
}
impl<'a> Air<'a> {
    pub fn new(init: &str, data: HashMap<String, Value>, serve: &'a mut dyn FnMut(Request) -> R<Option<Value>>) -> Self {
        let vars = data.into_iter().map(|(k, v)| (k, Data { v, origin: svc::literal(init) })).collect();
        Air { vars, init: init.into(), serve, loops: HashMap::new() }
    }
    fn value(&self, a: &A) -> X<Result<Data, String>> {
        let lit = |v: Value| Ok(Ok(Data { v, origin: svc::literal(&self.init) }));
        match a {
            A::Str(s) => lit(json!(s)),
            A::Args(v) if v.is_empty() => lit(json!([])),
            A::Sym(s) => {
                if s == "true" || s == "false" {
                    return lit(json!(s == "true"));
                }
                if let Ok(n) = s.parse::<u64>() {
                    return lit(json!(n));
                }
                if s == "%init_peer_id%" {
                    return lit(json!(self.init));
                }
                let (name, path) = match s.split_once(".$") {
                    Some((n, p)) => (n, p),
                    None => (s.as_str(), ""),
                };
                let Some(d) = self.vars.get(name) else { return Err(Stop::Unsupported) };
                let mut v = d.v.clone();
                for seg in path.trim_end_matches('!').replace('[', ".[").split('.').filter(|x| !x.is_empty()) {
                    let next = match seg.strip_prefix('[').and_then(|x| x.strip_suffix(']')) {
                        Some(i) => match i.parse::<usize>() {
                            Ok(i) => v.get(i).cloned(),
                            Err(_) => return Err(Stop::Unsupported),
                        },
                        None => v.get(seg).cloned(),
                    };
                    v = match next {
                        Some(x) => x,
                        None => return Ok(Err(format!("no {seg} in {name}"))),
                    };
                }
                Ok(Ok(Data { v, origin: d.origin.clone() }))
            }
            _ => Err(Stop::Unsupported),
        }
    }
    /// The outer error ends the run; the inner one is AIR's own, which `xor` handles.
    pub fn run(&mut self, a: &A) -> X<Result<(), String>> {
        macro_rules! val {
            ($e:expr) => {
                match self.value($e)? {
                    Ok(v) => v,
                    Err(e) => return Ok(Err(e)),
                }
            };
        }
        let A::List(l) = a else { return Err(Stop::Unsupported) };
        let Some(A::Sym(op)) = l.first() else { return Err(Stop::Unsupported) };
        match (op.as_str(), l.len()) {
            ("null", 1) => Ok(Ok(())),
            ("seq", 3) => match self.run(&l[1])? {
                Ok(()) => self.run(&l[2]),
                e => Ok(e),
            },
            ("par", 3) => {
                let (x, y) = (self.run(&l[1])?, self.run(&l[2])?);
                Ok(if x.is_ok() { x } else { y })
            }
            ("xor", 3) => match self.run(&l[1])? {
                Ok(()) => Ok(Ok(())),
                Err(_) => self.run(&l[2]),
            },
            ("match", 4) | ("mismatch", 4) => {
                let same = val!(&l[1]).v == val!(&l[2]).v;
                if same == (op == "match") {
                    self.run(&l[3])
                } else {
                    Ok(Err(format!("{op} failed")))
                }
            }
            ("fold", 4) => {
                let A::Sym(it) = &l[2] else { return Err(Stop::Unsupported) };
                let d = val!(&l[1]);
                let Value::Array(a) = d.v else { return Err(Stop::Unsupported) };
                if a.is_empty() {
                    return Ok(Ok(()));
                }
                let all: Vec<Data> = a.into_iter().map(|v| Data { v, origin: d.origin.clone() }).collect();
                self.vars.insert(it.clone(), all[0].clone());
                self.loops.insert(it.clone(), (all, 0, l[3].clone()));
                let r = self.run(&l[3])?;
                self.loops.remove(it);
                self.vars.remove(it);
                Ok(r)
            }
            ("next", 2) => {
                let A::Sym(it) = &l[1] else { return Err(Stop::Unsupported) };
                let Some((all, i, body)) = self.loops.get_mut(it) else { return Err(Stop::Unsupported) };
                if *i + 1 >= all.len() {
                    return Ok(Ok(()));
                }
                *i += 1;
                let (d, body) = (all[*i].clone(), body.clone());
                let old = self.vars.insert(it.clone(), d);
                let r = self.run(&body)?;
                if let Some(x) = self.loops.get_mut(it) {
                    x.1 -= 1;
                }
                if let Some(o) = old {
                    self.vars.insert(it.clone(), o);
                }
                Ok(r)
            }
            ("call", 4) | ("call", 5) => {
                let A::List(f) = &l[2] else { return Err(Stop::Unsupported) };
                let A::Args(args) = &l[3] else { return Err(Stop::Unsupported) };
                if f.len() != 2 {
                    return Err(Stop::Unsupported);
                }
                let (peer, svc, fun) = (val!(&l[1]).v, val!(&f[0]).v, val!(&f[1]).v);
                let mut vs = vec![];
                for a in args {
                    vs.push(val!(a));
                }
                let (Some(peer), Some(svc), Some(fun)) = (peer.as_str(), svc.as_str(), fun.as_str()) else { return Err(Stop::Unsupported) };
                let Some(v) = (self.serve)(Request { peer, service: svc, function: fun, args: &vs })? else { return Ok(Err(format!("nobody serves {svc}.{fun} at {peer}"))) };
                if let Some(out) = l.get(4) {
                    let A::Sym(out) = out else { return Err(Stop::Unsupported) };
                    if !out.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-') {
                        return Err(Stop::Unsupported);
                    }
                    self.vars.insert(out.clone(), Data { v, origin: vec![SecurityTetraplet::new(peer, svc, fun, "")] });
                }
                Ok(Ok(()))
            }
            _ => Err(Stop::Unsupported),
        }
    }
}
