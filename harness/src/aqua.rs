//! Interpreter for the part of the Aqua language that the library in
//! /repo/aqua uses: functions, `on`, `if`/`else`, `for`, streams, options,
//! service bindings and service calls, with the origin of every value.
use crate::engine::*;
use crate::svc::{self, Node};
use marine_rs_sdk::SecurityTetraplet;
use marine_sqlite_connector::Fault;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Lit(Value),
    Nil,
    Var(String),
    Field(Box<E>, String),
    At(Box<E>, usize),
    Not(Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
}
#[derive(Clone, Debug)]
pub enum S {
    Stream(String),
    Bind(String, E),
    Assign(String, E),
    Push(String, E),
    /// outputs, service (or none), function, arguments
    Call(Vec<String>, Option<String>, String, Vec<E>),
    On(E, Vec<S>),
    If(E, Vec<S>, Vec<S>),
    For(String, E, Vec<S>),
    Ret(Vec<E>),
}
#[derive(Clone, Debug)]
pub struct Func {
    pub params: Vec<(String, String)>,
    pub rets: Vec<String>,
    pub body: Vec<S>,
}
#[derive(Clone, Debug, Default)]
pub struct Service {
    pub id: Option<String>,
    pub fns: BTreeMap<String, (Vec<(String, String)>, String)>,
}
#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub funcs: HashMap<String, Func>,
    pub services: HashMap<String, Service>,
    pub data: HashMap<String, Vec<(String, String)>>,
    pub exports: Vec<String>,
    pub consts: HashMap<String, Value>,
}

type P<T> = Result<T, String>;

// ------------------------------------------------------------------- parsing
struct Line {
    ind: usize,
    text: String,
}
fn lines(src: &str) -> Vec<Line> {
    let mut v = vec![];
    for l in src.lines() {
        let mut quoted = false;
        let mut end = l.len();
        let b = l.as_bytes();
        for i in 0..b.len() {
            match b[i] {
                b'"' => quoted = !quoted,
                b'-' if !quoted && b.get(i + 1) == Some(&b'-') => {
                    end = i;
                    break;
                }
                _ => {}
            }
        }
        let t = l[..end].trim_end();
        if t.trim().is_empty() {
            continue;
        }
        v.push(Line { ind: t.len() - t.trim_start().len(), text: t.trim().to_string() });
    }
    v
}
fn is_name(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || c == '_') && !s.chars().next().unwrap().is_numeric()
}
/// Splits at top level commas.
fn commas(s: &str) -> Vec<String> {
    let (mut depth, mut quoted, mut cur, mut out) = (0, false, String::new(), vec![]);
    for c in s.chars() {
        match c {
            '"' => quoted = !quoted,
            '(' | '[' if !quoted => depth += 1,
            ')' | ']' if !quoted => depth -= 1,
            ',' if !quoted && depth == 0 => {
                out.push(cur.trim().to_string());
                cur.clear();
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.trim().is_empty() || !out.is_empty() {
        out.push(cur.trim().to_string());
    }
    out
}
fn typed(s: &str) -> P<(String, String)> {
    let (a, b) = s.split_once(':').ok_or(format!("no type in {s:?}"))?;
    Ok((a.trim().to_string(), b.trim().to_string()))
}
struct Lex<'a> {
    s: &'a [u8],
    i: usize,
}
impl Lex<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> String {
        let a = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[a..self.i]).into_owned()
    }
    fn or(&mut self) -> P<E> {
        let mut l = self.and()?;
        while self.eat("||") {
            l = E::Bin("||", Box::new(l), Box::new(self.and()?));
        }
        Ok(l)
    }
    fn and(&mut self) -> P<E> {
        let mut l = self.cmp()?;
        while self.eat("&&") {
            l = E::Bin("&&", Box::new(l), Box::new(self.cmp()?));
        }
        Ok(l)
    }
    fn cmp(&mut self) -> P<E> {
        let l = self.unary()?;
        for op in ["==", "!=", ">=", "<=", ">", "<"] {
            if self.eat(op) {
                return Ok(E::Bin(op, Box::new(l), Box::new(self.unary()?)));
            }
        }
        Ok(l)
    }
    fn unary(&mut self) -> P<E> {
        self.ws();
        if self.i < self.s.len() && self.s[self.i] == b'!' && self.s.get(self.i + 1) != Some(&b'=') {
            self.i += 1;
            return Ok(E::Not(Box::new(self.unary()?)));
        }
        let mut e = self.atom()?;
        loop {
            if self.i < self.s.len() && self.s[self.i] == b'.' {
                self.i += 1;
                let w = self.word();
                if w.is_empty() {
                    return Err("empty field".into());
                }
                e = E::Field(Box::new(e), w);
            } else if self.i < self.s.len() && self.s[self.i] == b'!' && self.s.get(self.i + 1) != Some(&b'=') {
                self.i += 1;
                let w = self.word();
                e = E::At(Box::new(e), if w.is_empty() { 0 } else { w.parse().map_err(|_| format!("index {w}"))? });
            } else if self.i < self.s.len() && self.s[self.i] == b'[' {
                self.i += 1;
                let w = self.word();
                if !self.eat("]") {
                    return Err("index expression".into());
                }
                e = E::At(Box::new(e), w.parse().map_err(|_| format!("index {w}"))?);
            } else {
                return Ok(e);
            }
        }
    }
    fn atom(&mut self) -> P<E> {
        self.ws();
        match self.s.get(self.i) {
            Some(b'"') => {
                let a = self.i + 1;
                let n = self.s[a..].iter().position(|c| *c == b'"').ok_or("open string")?;
                self.i = a + n + 1;
                Ok(E::Lit(json!(String::from_utf8_lossy(&self.s[a..a + n]))))
            }
            Some(b'(') => {
                self.i += 1;
                let e = self.or()?;
                if !self.eat(")") {
                    return Err("missing )".into());
                }
                Ok(e)
            }
            Some(b'[') => {
                self.i += 1;
                if !self.eat("]") {
                    return Err("array literal".into());
                }
                Ok(E::Nil)
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "" => Err(format!("expression {:?}", String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..]))),
                    "nil" => Ok(E::Nil),
                    "true" => Ok(E::Lit(json!(true))),
                    "false" => Ok(E::Lit(json!(false))),
                    _ if w.chars().all(|c| c.is_ascii_digit()) => Ok(E::Lit(json!(w.parse::<u64>().map_err(|e| e.to_string())?))),
                    _ if is_name(&w) => Ok(E::Var(w)),
                    _ => Err(format!("expression {w}")),
                }
            }
        }
    }
}
fn expr(s: &str) -> P<E> {
    let mut l = Lex { s: s.as_bytes(), i: 0 };
    let e = l.or()?;
    l.ws();
    if l.i != l.s.len() {
        return Err(format!("expression {s:?}"));
    }
    Ok(e)
}
fn call(outs: Vec<String>, s: &str) -> P<S> {
    let open = s.find('(').ok_or(format!("call {s:?}"))?;
    if !s.ends_with(')') {
        return Err(format!("call {s:?}"));
    }
    let name = s[..open].trim();
    let args = commas(&s[open + 1..s.len() - 1]).iter().map(|a| expr(a)).collect::<P<Vec<_>>>()?;
    let (svc, f) = match name.split_once('.') {
        Some((a, b)) => (Some(a.to_string()), b.to_string()),
        None => (None, name.to_string()),
    };
    if !is_name(&f) || svc.as_ref().map_or(false, |x| !is_name(x)) {
        return Err(format!("call {s:?}"));
    }
    Ok(S::Call(outs, svc, f, args))
}
fn block(ls: &[Line], i: &mut usize, parent: usize) -> P<Vec<S>> {
    let mut out = vec![];
    if *i >= ls.len() || ls[*i].ind <= parent {
        return Err("empty block".into());
    }
    let ind = ls[*i].ind;
    while *i < ls.len() && ls[*i].ind > parent {
        if ls[*i].ind != ind {
            return Err(format!("indentation of {:?}", ls[*i].text));
        }
        let t = ls[*i].text.clone();
        *i += 1;
        let t = t.strip_prefix("par ").map(|x| x.to_string()).unwrap_or(t);
        if let Some(r) = t.strip_prefix("<- ") {
            out.push(S::Ret(commas(r).iter().map(|e| expr(e)).collect::<P<_>>()?));
        } else if let Some(h) = t.strip_prefix("on ").and_then(|r| r.strip_suffix(':')) {
            let h = h.split(" via ").next().unwrap();
            let e = expr(h)?;
            out.push(S::On(e, block(ls, i, ind)?));
        } else if let Some(h) = t.strip_prefix("if ").and_then(|r| r.strip_suffix(':')) {
            let c = expr(h)?;
            let a = block(ls, i, ind)?;
            let mut b = vec![];
            if *i < ls.len() && ls[*i].ind == ind && ls[*i].text == "else:" {
                *i += 1;
                b = block(ls, i, ind)?;
            }
            out.push(S::If(c, a, b));
        } else if let Some(h) = t.strip_prefix("for ").and_then(|r| r.strip_suffix(':')) {
            let h = h.strip_suffix(" par").unwrap_or(h);
            let (v, e) = h.split_once("<-").ok_or(format!("loop {h:?}"))?;
            if !is_name(v.trim()) {
                return Err(format!("loop {h:?}"));
            }
            let e = expr(e.trim())?;
            out.push(S::For(v.trim().to_string(), e, block(ls, i, ind)?));
        } else if let Some((a, b)) = t.split_once("<<-") {
            if !is_name(a.trim()) {
                return Err(t);
            }
            if b.contains('(') {
                out.push(call(vec![a.trim().to_string()], b.trim())?);
            } else {
                out.push(S::Push(a.trim().to_string(), expr(b.trim())?));
            }
        } else if let Some((a, b)) = t.split_once("<-") {
            let outs = commas(a);
            if !outs.iter().all(|o| is_name(o)) {
                return Err(t);
            }
            out.push(call(outs, b.trim())?);
        } else if t.ends_with(')') && !t.contains(" = ") {
            out.push(call(vec![], &t)?);
        } else if let Some((a, b)) = t.split_once(" = ") {
            if !is_name(a.trim()) {
                return Err(t);
            }
            out.push(S::Assign(a.trim().to_string(), expr(b.trim())?));
        } else if let Ok((a, ty)) = typed(&t) {
            if !is_name(&a) || !ty.starts_with('*') {
                return Err(format!("statement {t:?}"));
            }
            out.push(S::Stream(a));
        } else if let Some((a, b)) = t.split_once(' ') {
            if !is_name(a) || !a.chars().next().unwrap().is_uppercase() {
                return Err(format!("statement {t:?}"));
            }
            out.push(S::Bind(a.to_string(), expr(b.trim())?));
        } else {
            return Err(format!("statement {t:?}"));
        }
    }
    Ok(out)
}
/// Reads one file into the program.
pub fn load(p: &mut Prog, src: &str) -> P<()> {
    let ls = lines(src);
    let mut i = 0;
    while i < ls.len() {
        let t = ls[i].text.clone();
        if ls[i].ind != 0 {
            return Err(format!("unexpected {t:?}"));
        }
        i += 1;
        let head = t.split_whitespace().next().unwrap_or("");
        match head {
            "export" => p.exports.extend(commas(t.strip_prefix("export").unwrap())),
            "aqua" | "import" | "use" | "alias" | "module" => {}
            "const" => {
                let (n, e) = t["const".len()..].split_once('=').ok_or(t.clone())?;
                if !is_name(n.trim()) {
                    return Err(t);
                }
                match expr(e.trim())? {
                    E::Lit(v) => p.consts.insert(n.trim().to_string(), v),
                    _ => return Err(t),
                };
            }
            "data" => {
                let name = t.strip_prefix("data").unwrap().trim().trim_end_matches(':').to_string();
                let mut fs = vec![];
                while i < ls.len() && ls[i].ind > 0 {
                    fs.push(typed(&ls[i].text)?);
                    i += 1;
                }
                p.data.insert(name, fs);
            }
            "service" => {
                let h = t.strip_prefix("service").unwrap().trim().trim_end_matches(':');
                let (name, id) = match h.split_once('(') {
                    Some((n, r)) => (n.trim().to_string(), Some(r.trim_end_matches(')').trim().trim_matches('"').to_string())),
                    None => (h.to_string(), None),
                };
                let mut s = Service { id, ..Default::default() };
                while i < ls.len() && ls[i].ind > 0 {
                    let l = &ls[i].text;
                    let open = l.find('(').ok_or(l.clone())?;
                    let close = l.rfind(')').ok_or(l.clone())?;
                    let ps = commas(&l[open + 1..close]).iter().map(|x| typed(x)).collect::<P<Vec<_>>>()?;
                    let ret = l[close + 1..].trim().strip_prefix("->").unwrap_or("").trim().to_string();
                    s.fns.insert(l[..open].trim().to_string(), (ps, ret));
                    i += 1;
                }
                p.services.insert(name, s);
            }
            "func" => {
                let h = t.strip_prefix("func").unwrap().trim();
                let h = h.strip_suffix(':').ok_or(h.to_string())?;
                let open = h.find('(').ok_or(h.to_string())?;
                let close = h.find(')').ok_or(h.to_string())?;
                let params = commas(&h[open + 1..close]).iter().map(|x| typed(x)).collect::<P<Vec<_>>>()?;
                let rets = h[close + 1..].trim().strip_prefix("->").map(|r| commas(r.trim())).unwrap_or_default();
                let body = block(&ls, &mut i, 0)?;
                p.funcs.insert(h[..open].trim().to_string(), Func { params, rets, body });
            }
            _ => return Err(format!("declaration {t:?}")),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- running
pub type Origin = Vec<SecurityTetraplet>;
#[derive(Clone, Debug)]
pub struct Data {
    pub v: Value,
    pub origin: Origin,
}
#[derive(Clone)]
enum Val {
    Data(Data),
    Stream(Rc<RefCell<Vec<Data>>>),
}
pub enum Stop {
    /// a construct the interpreter does not know: no verdict
    Unsupported(String),
    /// the program cannot go on: a call that nobody serves, a value that is not there
    Broken(String),
    Fail(Fail),
}
impl From<Fail> for Stop {
    fn from(f: Fail) -> Stop {
        Stop::Fail(f)
    }
}
type X<T> = Result<T, Stop>;

/// One service call that was made.
#[derive(Clone, Debug)]
pub struct Step {
    pub peer: String,
    pub what: String,
    pub answer: Value,
    pub failed: Option<String>,
}
pub struct Run<'a> {
    pub prog: &'a Prog,
    pub nodes: &'a [Node],
    /// seconds shown by each node's clock
    pub clocks: &'a [u64],
    pub client: String,
    pub client_clock: u64,
    pub relay: usize,
    /// signs as the peer, or refuses
    pub sign: &'a dyn Fn(&str, &[u8]) -> Option<Result<Vec<u8>, String>>,
    /// fault for the n-th trust-graph call of the run
    pub fault: Option<(usize, Fault)>,
    pub log: Vec<Step>,
    pub tg_calls: usize,
}
impl Run<'_> {
    fn lit(&self, v: Value) -> Data {
        Data { v, origin: svc::literal(&self.client) }
    }
    fn name(&self, e: &Env, n: &str) -> X<Val> {
        if let Some(v) = e.vars.get(n) {
            return Ok(v.clone());
        }
        Ok(Val::Data(match n {
            "HOST_PEER_ID" => self.lit(json!(self.nodes[self.relay].host)),
            "INIT_PEER_ID" => self.lit(json!(self.client)),
            _ => match self.prog.consts.get(n) {
                Some(v) => self.lit(v.clone()),
                None => return Err(Stop::Unsupported(format!("name {n}"))),
            },
        }))
    }
    fn data(&self, v: Val) -> Data {
        match v {
            Val::Data(d) => d,
            Val::Stream(s) => {
                let s = s.borrow();
                Data { v: Value::Array(s.iter().map(|d| d.v.clone()).collect()), origin: s.iter().flat_map(|d| d.origin.clone()).collect() }
            }
        }
    }
    fn eval(&self, env: &Env, e: &E) -> X<Val> {
        Ok(Val::Data(match e {
            E::Lit(v) => self.lit(v.clone()),
            E::Nil => self.lit(json!([])),
            E::Var(n) => return self.name(env, n),
            E::Field(b, f) => {
                let d = self.data(self.eval(env, b)?);
                match d.v.get(f) {
                    Some(v) => Data { v: v.clone(), origin: d.origin },
                    None => return Err(Stop::Broken(format!("{} has no field {f}", d.v))),
                }
            }
            E::At(b, i) => match self.eval(env, b)? {
                Val::Stream(s) => match s.borrow().get(*i) {
                    Some(d) => d.clone(),
                    None => return Err(Stop::Broken(format!("element {i} of a stream with {}", s.borrow().len()))),
                },
                Val::Data(d) => match d.v.get(*i) {
                    Some(v) => Data { v: v.clone(), origin: d.origin },
                    None => return Err(Stop::Broken(format!("element {i} of {}", d.v))),
                },
            },
            E::Not(b) => {
                let v = self.truth(env, b)?;
                self.lit(json!(!v))
            }
            E::Bin(op, a, b) => {
                if *op == "&&" {
                    let v = self.truth(env, a)? && self.truth(env, b)?;
                    return Ok(Val::Data(self.lit(json!(v))));
                }
                if *op == "||" {
                    let v = self.truth(env, a)? || self.truth(env, b)?;
                    return Ok(Val::Data(self.lit(json!(v))));
                }
                let x = self.data(self.eval(env, a)?).v;
                let y = self.data(self.eval(env, b)?).v;
                let v = match *op {
                    "==" => x == y,
                    "!=" => x != y,
                    _ => {
                        let (Some(x), Some(y)) = (x.as_u64(), y.as_u64()) else { return Err(Stop::Unsupported(format!("{x} {op} {y}"))) };
                        match *op {
                            "<" => x < y,
                            ">" => x > y,
                            "<=" => x <= y,
                            _ => x >= y,
                        }
                    }
                };
                self.lit(json!(v))
            }
        }))
    }
    fn truth(&self, env: &Env, e: &E) -> X<bool> {
        let v = self.data(self.eval(env, e)?).v;
        v.as_bool().ok_or(Stop::Broken(format!("{v} is no truth value")))
    }
    /// Runs function `f` at `peer`.
    pub fn func(&mut self, f: &str, args: Vec<Value>, peer: &str) -> X<Vec<Value>> {
        let args = args.into_iter().map(|v| Val::Data(self.lit(v))).collect();
        let r = self.apply(f, args, peer)?;
        Ok(r.into_iter().map(|v| self.data(v).v).collect())
    }
    fn apply(&mut self, f: &str, args: Vec<Val>, peer: &str) -> X<Vec<Val>> {
        let Some(func) = self.prog.funcs.get(f).cloned() else { return Err(Stop::Broken(format!("no function {f}"))) };
        if func.params.len() != args.len() {
            return Err(Stop::Broken(format!("{f} takes {} arguments", func.params.len())));
        }
        let mut env = Env::default();
        for ((n, ty), a) in func.params.iter().zip(args) {
            let a = if ty.starts_with('*') { a } else { Val::Data(self.data(a)) };
            env.vars.insert(n.clone(), a);
        }
        let r = self.block(&mut env, &func.body, peer)?.unwrap_or_default();
        if r.len() != func.rets.len() {
            return Err(Stop::Broken(format!("{f} returns {} values", r.len())));
        }
        Ok(r.into_iter()
            .zip(&func.rets)
            .map(|(v, ty)| {
                if ty.starts_with('*') {
                    return v;
                }
                let mut d = self.data(v);
                if ty.starts_with('?') && !d.v.is_array() {
                    d.v = json!([d.v]);
                }
                Val::Data(d)
            })
            .collect())
    }
    fn block(&mut self, env: &mut Env, b: &[S], peer: &str) -> X<Option<Vec<Val>>> {
        for s in b {
            match s {
                S::Stream(n) => {
                    env.vars.insert(n.clone(), Val::Stream(Default::default()));
                }
                S::Assign(n, e) => {
                    let v = self.eval(env, e)?;
                    env.vars.insert(n.clone(), v);
                }
                S::Bind(svc, e) => {
                    let id = self.data(self.eval(env, e)?).v;
                    env.ids.insert(svc.clone(), id.as_str().unwrap_or("").to_string());
                }
                S::Push(n, e) => {
                    let d = self.data(self.eval(env, e)?);
                    self.push(env, n, d)?;
                }
                S::On(e, b) => {
                    let at = self.data(self.eval(env, e)?).v;
                    let Some(at) = at.as_str() else { return Err(Stop::Broken(format!("{at} is no peer"))) };
                    let at = at.to_string();
                    if let Some(r) = self.block(env, b, &at)? {
                        return Ok(Some(r));
                    }
                }
                S::If(c, a, b) => {
                    let t = if self.truth(env, c)? { a } else { b };
                    if let Some(r) = self.block(env, t, peer)? {
                        return Ok(Some(r));
                    }
                }
                S::For(n, e, b) => {
                    let items: Vec<Data> = match self.eval(env, e)? {
                        Val::Stream(s) => s.borrow().clone(),
                        Val::Data(d) => match d.v {
                            Value::Array(a) => a.into_iter().map(|v| Data { v, origin: d.origin.clone() }).collect(),
                            v => return Err(Stop::Broken(format!("{v} is no list"))),
                        },
                    };
                    for d in items {
                        env.vars.insert(n.clone(), Val::Data(d));
                        if let Some(r) = self.block(env, b, peer)? {
                            return Ok(Some(r));
                        }
                    }
                }
                S::Ret(es) => {
                    let mut v = vec![];
                    for e in es {
                        v.push(self.eval(env, e)?);
                    }
                    return Ok(Some(v));
                }
                S::Call(outs, svc, f, args) => {
                    let mut a = vec![];
                    for e in args {
                        a.push(self.eval(env, e)?);
                    }
                    let r = match svc {
                        None => self.apply(f, a, peer)?,
                        Some(s) => {
                            let a = a.into_iter().map(|v| self.data(v)).collect();
                            vec![Val::Data(self.service(env, s, f, a, peer)?)]
                        }
                    };
                    if r.len() < outs.len() {
                        return Err(Stop::Broken(format!("{f} returns {} values", r.len())));
                    }
                    for (o, v) in outs.iter().zip(r) {
                        if let Some(Val::Stream(_)) = env.vars.get(o) {
                            let d = self.data(v);
                            self.push(env, o, d)?;
                        } else {
                            env.vars.insert(o.clone(), v);
                        }
                    }
                }
            }
        }
        Ok(None)
    }
    fn push(&self, env: &Env, n: &str, d: Data) -> X<()> {
        match env.vars.get(n) {
            Some(Val::Stream(s)) => {
                s.borrow_mut().push(d);
                Ok(())
            }
            _ => Err(Stop::Unsupported(format!("push into {n}"))),
        }
    }
    fn service(&mut self, env: &Env, s: &str, f: &str, args: Vec<Data>, peer: &str) -> X<Data> {
        let decl = self.prog.services.get(s).cloned();
        let id = env.ids.get(s).cloned().or(decl.as_ref().and_then(|d| d.id.clone()));
        let id = match (s, id) {
            (_, Some(i)) => i,
            ("Peer", None) => "peer".into(),
            ("Sig", None) => "sig".into(),
            _ => return Err(Stop::Unsupported(format!("service {s}"))),
        };
        if let Some(d) = &decl {
            let Some((ps, _)) = d.fns.get(f) else { return Err(Stop::Broken(format!("{s} declares no {f}"))) };
            if ps.len() != args.len() {
                return Err(Stop::Broken(format!("{s}.{f} takes {} arguments", ps.len())));
            }
        }
        let node = self.nodes.iter().position(|n| n.host == peer);
        let what = format!("{id}.{f}");
        let vals: Vec<Value> = args.iter().map(|d| d.v.clone()).collect();
        let answer = match (s, f) {
            ("Peer", "timestamp_sec") => match node {
                Some(n) => json!(self.clocks[n]),
                None if peer == self.client => json!(self.client_clock),
                None => return Err(Stop::Broken(format!("nobody is {peer}"))),
            },
            ("Sig", "sign") if peer == self.client => {
                // a client signs only what a trust graph asked it to
                let from = args.first().map(|d| d.origin.clone()).unwrap_or_default();
                let fine = !from.is_empty() && from.iter().all(|t| t.service_id == "trust-graph" && (t.function_name == "get_trust_bytes" || t.function_name == "get_revocation_bytes"));
                let msg: Vec<u8> = vals[0].as_array().into_iter().flatten().map(|b| b.as_u64().unwrap_or(0) as u8).collect();
                let id = if id == "sig" { self.client.clone() } else { id.clone() };
                if !fine {
                    json!({"success": false, "error": ["origin of the data"], "signature": []})
                } else {
                    match (self.sign)(&id, &msg) {
                        None => return Err(Stop::Broken(format!("no signature service {id}"))),
                        Some(Ok(sig)) => json!({"success": true, "error": [], "signature": [sig]}),
                        Some(Err(e)) => json!({"success": false, "error": [e], "signature": []}),
                    }
                }
            }
            (_, "identity") if id == "op" && vals.len() == 1 && (node.is_some() || peer == self.client) => vals[0].clone(),
            (_, "array_length") if id == "op" => match &vals[0] {
                Value::Array(a) => json!(a.len()),
                v => return Err(Stop::Broken(format!("length of {v}"))),
            },
            _ if id == "trust-graph" => {
                let Some(n) = node else { return Err(Stop::Broken(format!("{peer} has no trust graph"))) };
                if !svc::exported(f) {
                    return Err(Stop::Broken(format!("the service exports no {f}")));
                }
                let fault = match self.fault {
                    Some((k, x)) if k == self.tg_calls => x,
                    _ => Fault::None,
                };
                self.tg_calls += 1;
                let t = args.iter().map(|d| d.origin.clone()).collect();
                let v = self.nodes[n].call(f, vals, t, &self.client, fault)?;
                if let Some(d) = &decl {
                    if let Some((_, ret)) = d.fns.get(f) {
                        self.shape(ret, &v, &what)?;
                    }
                }
                v
            }
            _ => return Err(Stop::Unsupported(format!("{s}.{f} on {peer}"))),
        };
        let failed = match (answer["success"].as_bool(), &answer["error"]) {
            (Some(false), Value::String(e)) => Some(e.clone()),
            (Some(false), Value::Array(e)) => Some(e.first().and_then(|x| x.as_str()).unwrap_or("").to_string()),
            _ => None,
        };
        self.log.push(Step { peer: peer.into(), what, answer: answer.clone(), failed });
        Ok(Data { v: answer, origin: vec![SecurityTetraplet::new(peer, id, f, "")] })
    }
    /// An answer has the declared form.
    fn shape(&self, ty: &str, v: &Value, what: &str) -> X<()> {
        let bad = || Err(Stop::Broken(format!("{what}: {v} is not of the declared type {ty}")));
        if let Some(t) = ty.strip_prefix("[]") {
            let Some(a) = v.as_array() else { return bad() };
            for x in a {
                self.shape(t, x, what)?;
            }
            return Ok(());
        }
        match ty {
            "bool" if v.is_boolean() => Ok(()),
            "string" if v.is_string() => Ok(()),
            "u8" if v.as_u64().map_or(false, |x| x <= 255) => Ok(()),
            "u32" if v.as_u64().map_or(false, |x| x <= u32::MAX as u64) => Ok(()),
            "u64" if v.is_u64() => Ok(()),
            "bool" | "string" | "u8" | "u32" | "u64" => bad(),
            _ => {
                let Some(fs) = self.prog.data.get(ty) else { return Ok(()) };
                let Some(o) = v.as_object() else { return bad() };
                if o.len() != fs.len() {
                    return bad();
                }
                for (n, t) in fs {
                    match o.get(n) {
                        Some(x) => self.shape(t, x, what)?,
                        None => return bad(),
                    }
                }
                Ok(())
            }
        }
    }
}
#[derive(Default)]
struct Env {
    vars: HashMap<String, Val>,
    ids: HashMap<String, String>,
}
