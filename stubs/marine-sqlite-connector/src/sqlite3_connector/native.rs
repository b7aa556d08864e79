//! Replaces the wasm imports of upstream's connector by calls into the real
//! SQLite library, and gives the harness: path redirection, an event counter
//! with a budget, and fault injection.
#![allow(non_snake_case)]
use std::cell::{Cell, RefCell};
use std::ffi::{c_char, c_double, c_int, c_void, CStr, CString};
use std::ptr;

pub(crate) type Sqlite3DbHandle = usize;
pub(crate) type Sqlite3StmtHandle = usize;

#[derive(Clone, Debug)]
pub struct DBOpenDescriptor {
    pub ret_code: i32,
    pub db_handle: usize,
}
#[derive(Clone, Debug)]
pub struct DBPrepareDescriptor {
    pub ret_code: i32,
    pub stmt_handle: usize,
    pub tail: u32,
}
#[derive(Clone, Debug)]
pub struct DBExecDescriptor {
    pub ret_code: i32,
    pub err_msg: String,
}

mod c {
    use super::*;
    #[link(name = "sqlite3")]
    extern "C" {
        pub fn sqlite3_open_v2(f: *const c_char, db: *mut *mut c_void, flags: c_int, vfs: *const c_char) -> c_int;
        pub fn sqlite3_close(db: *mut c_void) -> c_int;
        pub fn sqlite3_prepare_v2(db: *mut c_void, sql: *const c_char, n: c_int, st: *mut *mut c_void, tail: *mut *const c_char) -> c_int;
        pub fn sqlite3_exec(db: *mut c_void, sql: *const c_char, cb: *const c_void, arg: *mut c_void, err: *mut *mut c_char) -> c_int;
        pub fn sqlite3_libversion_number() -> c_int;
        pub fn sqlite3_changes(db: *mut c_void) -> c_int;
        pub fn sqlite3_total_changes(db: *mut c_void) -> c_int;
        pub fn sqlite3_busy_timeout(db: *mut c_void, ms: c_int) -> c_int;
        pub fn sqlite3_errmsg(db: *mut c_void) -> *const c_char;
        pub fn sqlite3_errcode(db: *mut c_void) -> c_int;
        pub fn sqlite3_column_type(s: *mut c_void, i: c_int) -> c_int;
        pub fn sqlite3_column_name(s: *mut c_void, i: c_int) -> *const c_char;
        pub fn sqlite3_step(s: *mut c_void) -> c_int;
        pub fn sqlite3_reset(s: *mut c_void) -> c_int;
        pub fn sqlite3_bind_blob(s: *mut c_void, i: c_int, d: *const c_void, n: c_int, del: isize) -> c_int;
        pub fn sqlite3_bind_zeroblob(s: *mut c_void, i: c_int, n: c_int) -> c_int;
        pub fn sqlite3_bind_double(s: *mut c_void, i: c_int, v: c_double) -> c_int;
        pub fn sqlite3_bind_int64(s: *mut c_void, i: c_int, v: i64) -> c_int;
        pub fn sqlite3_bind_null(s: *mut c_void, i: c_int) -> c_int;
        pub fn sqlite3_bind_text(s: *mut c_void, i: c_int, d: *const c_char, n: c_int, del: isize) -> c_int;
        pub fn sqlite3_column_count(s: *mut c_void) -> c_int;
        pub fn sqlite3_column_blob(s: *mut c_void, i: c_int) -> *const c_void;
        pub fn sqlite3_column_double(s: *mut c_void, i: c_int) -> c_double;
        pub fn sqlite3_column_int64(s: *mut c_void, i: c_int) -> i64;
        pub fn sqlite3_column_text(s: *mut c_void, i: c_int) -> *const c_char;
        pub fn sqlite3_column_bytes(s: *mut c_void, i: c_int) -> c_int;
        pub fn sqlite3_finalize(s: *mut c_void) -> c_int;
        pub fn sqlite3_soft_heap_limit64(n: i64) -> i64;
        pub fn sqlite3_hard_heap_limit64(n: i64) -> i64;
    }
}

const TRANSIENT: isize = -1;

/// What to do to the storage events of the current thread.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    /// The n-th event from now fails without taking effect.
    Before(u64),
    /// The n-th event from now takes effect but is reported as failed.
    After(u64),
    /// The n-th event from now and all later ones fail (process about to die).
    Crash(u64),
    /// Binding the n-th parameter from now fails.
    Bind(u64),
}

thread_local! {
    static DIR: RefCell<Option<String>> = RefCell::new(None);
    static MAPPED: RefCell<Vec<String>> = RefCell::new(vec![]);
    static EVENTS: Cell<u64> = Cell::new(0);
    static BINDS: Cell<u64> = Cell::new(0);
    static BUDGET: Cell<u64> = Cell::new(u64::MAX);
    static FAULT: Cell<Fault> = Cell::new(Fault::None);
    static FIRED: Cell<u64> = Cell::new(0);
}

pub const BUDGET_MSG: &str = "storage event budget exhausted";

/// Harness side: directory that stands for the service's private filesystem.
pub fn set_dir(dir: Option<String>) {
    DIR.with(|d| *d.borrow_mut() = dir)
}
/// Harness side: the directories that can be reached (none: no restriction).
pub fn set_mapped(dirs: Vec<String>) {
    MAPPED.with(|m| *m.borrow_mut() = dirs)
}
/// Harness side: reset the event counter and set its budget.
pub fn set_budget(n: u64) {
    EVENTS.with(|e| e.set(0));
    BINDS.with(|e| e.set(0));
    BUDGET.with(|b| b.set(n));
}
pub fn events() -> u64 {
    EVENTS.with(|e| e.get())
}
/// Parameters bound since `set_budget`.
pub fn binds() -> u64 {
    BINDS.with(|e| e.get())
}
pub fn set_fault(f: Fault) {
    FAULT.with(|x| x.set(f));
    FIRED.with(|x| x.set(0));
}
/// How many times the fault fired since `set_fault`.
pub fn fault_fired() -> u64 {
    FIRED.with(|x| x.get())
}

/// Harness side, for a service running in another process: what is left of
/// the budget, and the fault to come.
pub fn pending() -> (u64, Fault) {
    let (b, e) = (BUDGET.with(|b| b.get()), EVENTS.with(|e| e.get()));
    (if b == u64::MAX { b } else { b.saturating_sub(e) }, FAULT.with(|f| f.get()))
}
/// Harness side: accounts for a call made in another process.
pub fn absorb(events: u64, fired: u64, left: Fault) {
    EVENTS.with(|e| e.set(e.get() + events));
    FIRED.with(|f| f.set(f.get() + fired));
    FAULT.with(|f| f.set(left));
}

#[derive(PartialEq)]
enum Act {
    Go,
    FailBefore,
    FailAfter,
}

fn event() -> Act {
    let n = EVENTS.with(|e| {
        e.set(e.get() + 1);
        e.get()
    });
    if n > BUDGET.with(|b| b.get()) {
        BUDGET.with(|b| b.set(u64::MAX));
        panic!("{}", BUDGET_MSG);
    }
    let fire = |a| {
        FIRED.with(|x| x.set(x.get() + 1));
        a
    };
    FAULT.with(|f| match f.get() {
        Fault::None | Fault::Bind(_) => Act::Go,
        Fault::Before(0) => {
            f.set(Fault::None);
            fire(Act::FailBefore)
        }
        Fault::Before(n) => {
            f.set(Fault::Before(n - 1));
            Act::Go
        }
        Fault::After(0) => {
            f.set(Fault::None);
            fire(Act::FailAfter)
        }
        Fault::After(n) => {
            f.set(Fault::After(n - 1));
            Act::Go
        }
        Fault::Crash(0) => fire(Act::FailBefore),
        Fault::Crash(n) => {
            f.set(Fault::Crash(n - 1));
            Act::Go
        }
    })
}

fn bound(f: impl FnOnce() -> i32) -> i32 {
    BINDS.with(|e| e.set(e.get() + 1));
    match FAULT.with(|f| f.get()) {
        Fault::Bind(0) => {
            FAULT.with(|f| f.set(Fault::None));
            FIRED.with(|x| x.set(x.get() + 1));
            super::consts::SQLITE_NOMEM
        }
        Fault::Bind(n) => {
            FAULT.with(|f| f.set(Fault::Bind(n - 1)));
            f()
        }
        _ => f(),
    }
}

fn guarded(f: impl FnOnce() -> i32) -> i32 {
    match event() {
        Act::Go => f(),
        Act::FailBefore => super::consts::SQLITE_IOERR,
        Act::FailAfter => {
            let _ = f();
            super::consts::SQLITE_IOERR
        }
    }
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap_or_else(|_| CString::new("invalid\u{1}nul").unwrap())
}
unsafe fn st(p: *const c_char) -> String {
    if p.is_null() {
        String::new()
    } else {
        String::from_utf8_lossy(CStr::from_ptr(p).to_bytes()).into_owned()
    }
}

pub unsafe fn sqlite3_open_v2(filename: &str, flags: i32, _vfs: &str) -> DBOpenDescriptor {
    let mut db: *mut c_void = ptr::null_mut();
    let dir = DIR.with(|d| d.borrow().clone());
    let path = match (&dir, filename) {
        (_, ":memory:") => filename.to_string(),
        (Some(d), f) => format!("{}/{}", d, f.replace('/', "_")),
        (None, f) => panic!("harness: no scratch directory for database {f}"),
    };
    // the module reaches only the directories its configuration maps
    if filename != ":memory:" && MAPPED.with(|m| !m.borrow().is_empty() && !m.borrow().iter().any(|d| filename.trim_start_matches('/').starts_with(&format!("{d}/")))) {
        return DBOpenDescriptor { ret_code: 14, db_handle: 0 };
    }
    let p = cs(&path);
    let ret_code = c::sqlite3_open_v2(p.as_ptr(), &mut db, flags, ptr::null());
    if ret_code == 0 {
        let q = cs("PRAGMA synchronous=OFF; PRAGMA journal_mode=MEMORY;");
        c::sqlite3_exec(db, q.as_ptr(), ptr::null(), ptr::null_mut(), ptr::null_mut());
    }
    DBOpenDescriptor { ret_code, db_handle: db as usize }
}
pub unsafe fn sqlite3_close(db: usize) -> i32 {
    c::sqlite3_close(db as _)
}
pub unsafe fn sqlite3_prepare_v2(db: usize, sql: &str) -> DBPrepareDescriptor {
    let mut s: *mut c_void = ptr::null_mut();
    let q = cs(sql);
    let ret_code = guarded(|| c::sqlite3_prepare_v2(db as _, q.as_ptr(), -1, &mut s, ptr::null_mut()));
    if ret_code != 0 && !s.is_null() {
        c::sqlite3_finalize(s);
        s = ptr::null_mut();
    }
    DBPrepareDescriptor { ret_code, stmt_handle: s as usize, tail: 0 }
}
pub unsafe fn sqlite3_exec(db: usize, sql: &str, _cb: i32, _arg: i32) -> DBExecDescriptor {
    let q = cs(sql);
    let ret_code = guarded(|| c::sqlite3_exec(db as _, q.as_ptr(), ptr::null(), ptr::null_mut(), ptr::null_mut()));
    DBExecDescriptor { ret_code, err_msg: String::new() }
}
pub unsafe fn sqlite3_libversion_number() -> i32 {
    c::sqlite3_libversion_number()
}
pub unsafe fn sqlite3_changes(db: usize) -> i32 {
    c::sqlite3_changes(db as _)
}
pub unsafe fn sqlite3_total_changes(db: usize) -> i32 {
    c::sqlite3_total_changes(db as _)
}
pub unsafe fn sqlite3_busy_timeout(db: usize, ms: u32) -> i32 {
    c::sqlite3_busy_timeout(db as _, ms as i32)
}
pub unsafe fn sqlite3_errmsg(db: usize) -> String {
    st(c::sqlite3_errmsg(db as _))
}
pub unsafe fn sqlite3_errcode(db: usize) -> i32 {
    match c::sqlite3_errcode(db as _) {
        // leftovers of earlier steps are not errors
        100 | 101 => 0,
        e => e,
    }
}
pub unsafe fn sqlite3_column_type(s: usize, i: u32) -> i32 {
    c::sqlite3_column_type(s as _, i as _)
}
pub unsafe fn sqlite3_column_name(s: usize, i: u32) -> String {
    st(c::sqlite3_column_name(s as _, i as _))
}
pub unsafe fn sqlite3_step(s: usize) -> i32 {
    guarded(|| c::sqlite3_step(s as _))
}
pub unsafe fn sqlite3_reset(s: usize) -> i32 {
    c::sqlite3_reset(s as _)
}
pub unsafe fn sqlite3_bind_blob(s: usize, i: i32, b: &Vec<u8>, _d: i32) -> i32 {
    if b.is_empty() {
        return bound(|| c::sqlite3_bind_zeroblob(s as _, i, 0));
    }
    bound(|| c::sqlite3_bind_blob(s as _, i, b.as_ptr() as _, b.len() as _, TRANSIENT))
}
pub unsafe fn sqlite3_bind_double(s: usize, i: i32, v: f64) -> i32 {
    bound(|| c::sqlite3_bind_double(s as _, i, v))
}
pub unsafe fn sqlite3_bind_int64(s: usize, i: i32, v: i64) -> i32 {
    bound(|| c::sqlite3_bind_int64(s as _, i, v))
}
pub unsafe fn sqlite3_bind_null(s: usize, i: i32) -> i32 {
    bound(|| c::sqlite3_bind_null(s as _, i))
}
pub unsafe fn sqlite3_bind_text(s: usize, i: i32, t: &str, _d: i32) -> i32 {
    let p = if t.is_empty() { b"\0".as_ptr() } else { t.as_ptr() };
    bound(|| c::sqlite3_bind_text(s as _, i, p as _, t.len() as _, TRANSIENT))
}
pub unsafe fn sqlite3_column_count(s: usize) -> i32 {
    c::sqlite3_column_count(s as _)
}
pub unsafe fn sqlite3_column_blob(s: usize, i: i32) -> Vec<u8> {
    let p = c::sqlite3_column_blob(s as _, i) as *const u8;
    let n = c::sqlite3_column_bytes(s as _, i) as usize;
    if p.is_null() || n == 0 {
        vec![]
    } else {
        std::slice::from_raw_parts(p, n).to_vec()
    }
}
pub unsafe fn sqlite3_column_double(s: usize, i: i32) -> f64 {
    c::sqlite3_column_double(s as _, i)
}
pub unsafe fn sqlite3_column_int64(s: usize, i: u32) -> i64 {
    c::sqlite3_column_int64(s as _, i as _)
}
pub unsafe fn sqlite3_column_text(s: usize, i: u32) -> String {
    let p = c::sqlite3_column_text(s as _, i as _) as *const u8;
    let n = c::sqlite3_column_bytes(s as _, i as _) as usize;
    if p.is_null() {
        return String::new();
    }
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
pub unsafe fn sqlite3_column_bytes(s: usize, i: u32) -> i32 {
    c::sqlite3_column_bytes(s as _, i as _)
}
pub unsafe fn sqlite3_finalize(s: usize) -> i32 {
    if s == 0 {
        0
    } else {
        c::sqlite3_finalize(s as _)
    }
}
pub unsafe fn sqlite3_soft_heap_limit64(n: i64) -> i64 {
    c::sqlite3_soft_heap_limit64(n)
}
pub unsafe fn sqlite3_hard_heap_limit64(n: i64) -> i64 {
    c::sqlite3_hard_heap_limit64(n)
}
