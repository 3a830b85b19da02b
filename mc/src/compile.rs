//! Turns generated router modules into callable code: the text the real code
//! generator wrote goes to rustc unchanged, in batches, and is loaded back.

use std::collections::BTreeSet;
use std::ffi::CString;
use std::fs;
use std::os::raw::{c_char, c_int, c_void};
use std::path::{Path, PathBuf};
use std::process::Command;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}

type CallFn = unsafe extern "C" fn(usize, *const u8, usize, *const u8, usize, *mut u8, usize) -> usize;
type GlueFn = unsafe extern "C" fn(usize, *mut u8, usize) -> usize;

/// One module: generated text plus optional extra Rust placed beside it.
#[derive(Clone, Default)]
pub struct Unit {
    pub code: String,
    /// Body of `fn glue(out: &mut String)`; names in scope: `routes`.
    pub glue: String,
    /// The module goes to a crate of its own, which the rest of the batch uses.
    pub outside: bool,
}

pub struct Router {
    call: CallFn,
    glue: GlueFn,
    k: usize,
}

const BUF: usize = 1 << 14;

impl Router {
    pub fn call(&self, path: &[u8], method: &[u8], buf: &mut Vec<u8>) -> usize {
        buf.resize(BUF, 0);
        unsafe {
            (self.call)(
                self.k,
                path.as_ptr(),
                path.len(),
                method.as_ptr(),
                method.len(),
                buf.as_mut_ptr(),
                BUF,
            )
        }
    }
    pub fn glue(&self) -> String {
        let mut b = vec![0u8; 1 << 20];
        let n = unsafe { (self.glue)(self.k, b.as_mut_ptr(), b.len()) };
        String::from_utf8_lossy(&b[..n]).into_owned()
    }
}

pub enum Built {
    Ok(Router),
    /// rustc's message
    Bad(String),
    /// not attempted (no code)
    Skipped,
}

const PRELUDE: &str = r#"#![allow(warnings)]
pub mod ty {
    pub type Id = u8;
    pub type Name = String;
    pub struct Unused;
    pub use crate::own::*;
}
pub mod own {
/*own*/
}
fn put(s: &str, out: *mut u8, cap: usize) -> usize {
    let n = s.len().min(cap);
    unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), out, n) };
    n
}
macro_rules! glue { () => {
    pub fn call(p: &[u8], m: &[u8]) -> String {
        match routes::match_route(p, m) {
            Ok(routes::Match::NotFound) => "N".to_string(),
            Ok(routes::Match::NotAllowed) => "A".to_string(),
            Ok(routes::Match::Route(r)) => format!("R\x1f{:?}\x1f{}", r, r.to_path()),
            Ok(routes::Match::Redirect(r)) => format!("D\x1f{:?}\x1f{}", r, r.to_path()),
            Err(e) => format!("E\x1f{}\x1f{:?}", e, e),
        }
    }
} }
fn guard<F: FnOnce() -> String + std::panic::UnwindSafe>(f: F) -> String {
    match std::panic::catch_unwind(f) {
        Ok(s) => s,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { String::new() };
            format!("P\x1f{}", m)
        }
    }
}
#[no_mangle]
pub extern "C" fn mc_init() { std::panic::set_hook(Box::new(|_| {})); }
#[no_mangle]
pub unsafe extern "C" fn mc_call(k: usize, p: *const u8, pl: usize, m: *const u8, ml: usize, out: *mut u8, cap: usize) -> usize {
    let p = std::slice::from_raw_parts(p, pl);
    let m = std::slice::from_raw_parts(m, ml);
    put(&guard(|| (CALLS[k])(p, m)), out, cap)
}
#[no_mangle]
pub unsafe extern "C" fn mc_glue(k: usize, out: *mut u8, cap: usize) -> usize {
    put(&guard(|| (GLUES[k])()), out, cap)
}
"#;

/// Writes the batch source; modules not in `live` are left out.
fn write_batch(dir: &Path, units: &[(usize, &Unit)], live: &BTreeSet<usize>) {
    let mut lib = PRELUDE.replace("/*own*/", include_str!("ty.rs"));
    let outside = units.iter().any(|(_, u)| u.outside);
    let mut mods = String::from(lib.split("fn put").next().unwrap());
    let mut calls = String::from("static CALLS: &[fn(&[u8], &[u8]) -> String] = &[\n");
    let mut glues = String::from("static GLUES: &[fn() -> String] = &[\n");
    for (i, u) in units {
        if !live.contains(i) {
            calls.push_str("|_, _| String::new(),\n");
            glues.push_str("|| String::new(),\n");
            continue;
        }
        let f = dir.join(format!("c{}.rs", i));
        if !f.exists() {
            fs::write(&f, &u.code).expect("write unit");
        }
        let module = match outside {
            true => format!("pub use mods::c{i}::routes;"),
            false => format!("include!(\"c{i}.rs\");"),
        };
        mods.push_str(&format!("pub mod c{i} {{ include!(\"c{i}.rs\"); }}\n"));
        lib.push_str(&format!(
            "pub mod c{i} {{ {module} glue!(); pub mod g {{ include!(\"g{i}.rs\"); }} }}\n"
        ));
        let g = dir.join(format!("g{}.rs", i));
        if !g.exists() {
            fs::write(
                &g,
                format!(
                    "use super::routes;\nuse crate::ty::*;\nuse std::net::Ipv4Addr;\npub fn glue() -> String {{ let mut out = String::new();\n{}\nout }}\n",
                    u.glue
                ),
            )
            .expect("write glue");
        }
        calls.push_str(&format!("c{i}::call,\n"));
        glues.push_str(&format!("c{i}::g::glue,\n"));
    }
    calls.push_str("];\n");
    glues.push_str("];\n");
    lib.push_str(&calls);
    lib.push_str(&glues);
    fs::write(dir.join("lib.rs"), lib).expect("write lib");
    let f = dir.join("mods.rs");
    if outside {
        fs::write(f, mods).expect("write mods");
    }
}

fn rustc(dir: &Path, link: bool, edition: &str) -> (bool, String) {
    let command = |name: &str| {
        let mut c = Command::new("rustc");
        c.current_dir(dir)
            .args(["--edition", edition, "--crate-name", name])
            .args(["-C", "opt-level=0", "-C", "debuginfo=0", "-C", "strip=symbols"])
            .args(["--cap-lints", "allow", "--error-format=json"]);
        c
    };
    let mut c = command("batch");
    if dir.join("mods.rs").exists() {
        let o = command("mods")
            .args(["--crate-type", "rlib", "mods.rs"])
            .output()
            .expect("run rustc");
        if !o.status.success() {
            return (false, String::from_utf8_lossy(&o.stderr).into_owned());
        }
        c.args(["--extern", "mods=libmods.rlib"]);
    }
    if link {
        c.args(["--crate-type", "cdylib", "-C", "codegen-units=4", "-o", "batch.so"]);
    } else {
        c.args(["--crate-type", "lib", "--emit=metadata", "-o", "batch.rmeta"]);
    }
    c.arg("lib.rs");
    let o = c.output().expect("run rustc");
    (
        o.status.success(),
        String::from_utf8_lossy(&o.stderr).into_owned(),
    )
}

/// unit index -> first error message, out of rustc's JSON lines
fn blame(stderr: &str) -> Vec<(usize, String)> {
    let mut v = vec![];
    for line in stderr.lines() {
        if !line.contains("\"level\":\"error\"") {
            continue;
        }
        let msg = line
            .split("\"rendered\":\"")
            .nth(1)
            .map(|m| m.split("\",\"").next().unwrap_or("").replace("\\n", "\n").replace("\\\"", "\""))
            .unwrap_or_default();
        for part in line.split("\"file_name\":\"").skip(1) {
            let name = part.split('"').next().unwrap_or("");
            if let Some(n) = name
                .trim_start_matches(['c', 'g'])
                .strip_suffix(".rs")
                .and_then(|n| n.parse::<usize>().ok())
            {
                if !v.iter().any(|(k, _)| *k == n) {
                    v.push((n, msg.clone()));
                }
            }
        }
    }
    v
}

/// Builds all units; with `link` they become callable, otherwise they are
/// only checked (type and borrow checking).
pub fn build(work: &Path, units: &[Unit], link: bool, edition: &str) -> Vec<Built> {
    let n = units.iter().filter(|u| !u.code.is_empty()).count();
    let cores = 8usize;
    // small shards keep rustc's memory low; at least one per core
    let shards = ((n + 149) / 150).max(cores.min((n + 9) / 10)).max(1);
    let mut parts: Vec<Vec<(usize, &Unit)>> = (0..shards).map(|_| vec![]).collect();
    for (k, (i, u)) in units
        .iter()
        .enumerate()
        .filter(|(_, u)| !u.code.is_empty())
        .enumerate()
    {
        parts[k % shards].push((i, u));
    }
    let mut out: Vec<Built> = units.iter().map(|_| Built::Skipped).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let results = std::sync::Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..cores.min(shards) {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= shards {
                    break;
                }
                let r = build_shard(&work.join(format!("s{}", k)), &parts[k], link, edition);
                results.lock().unwrap().extend(r);
            });
        }
    });
    for (i, b) in results.into_inner().unwrap() {
        out[i] = b;
    }
    out
}

fn build_shard(dir: &Path, part: &[(usize, &Unit)], link: bool, edition: &str) -> Vec<(usize, Built)> {
    let _ = fs::remove_dir_all(dir);
    fs::create_dir_all(dir).expect("work dir");
    let mut live: BTreeSet<usize> = part.iter().map(|(i, _)| *i).collect();
    let mut bad: Vec<(usize, Built)> = vec![];
    let mut rounds = 0;
    loop {
        if live.is_empty() {
            return bad;
        }
        write_batch(dir, part, &live);
        let (ok, err) = rustc(dir, link, edition);
        if ok {
            break;
        }
        rounds += 1;
        let b = blame(&err);
        if b.is_empty() || rounds > 8 {
            // no unit to blame: try each alone
            let mut any = false;
            for i in live.clone() {
                let one: BTreeSet<usize> = [i].into_iter().collect();
                write_batch(dir, part, &one);
                let (ok, e) = rustc(dir, false, edition);
                if !ok {
                    any = true;
                    live.remove(&i);
                    bad.push((i, Built::Bad(first_error(&e))));
                }
            }
            if !any {
                eprintln!("machinery: rustc failed without a unit at fault:\n{}", err);
                std::process::exit(3);
            }
            continue;
        }
        for (i, m) in b {
            if live.remove(&i) {
                bad.push((i, Built::Bad(m)));
            }
        }
    }
    if link {
        // the loader tells libraries apart by name
        static NTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let so = dir.join(format!("batch{}.so", NTH.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        fs::rename(dir.join("batch.so"), &so).expect("rename");
        let (call, glue) = load(&so);
        for (k, (i, _)) in part.iter().enumerate() {
            if live.contains(i) {
                bad.push((*i, Built::Ok(Router { call, glue, k })));
            }
        }
    } else {
        let (call, glue) = (no_call as CallFn, no_glue as GlueFn);
        for i in live {
            bad.push((i, Built::Ok(Router { call, glue, k: 0 })));
        }
    }
    let _ = fs::remove_dir_all(dir);
    bad
}

unsafe extern "C" fn no_call(_: usize, _: *const u8, _: usize, _: *const u8, _: usize, _: *mut u8, _: usize) -> usize {
    0
}
unsafe extern "C" fn no_glue(_: usize, _: *mut u8, _: usize) -> usize {
    0
}

fn first_error(e: &str) -> String {
    blame(e)
        .into_iter()
        .next()
        .map(|x| x.1)
        .unwrap_or_else(|| e.chars().take(2000).collect())
}

fn load(p: &PathBuf) -> (CallFn, GlueFn) {
    unsafe {
        let c = CString::new(p.to_str().unwrap()).unwrap();
        let h = dlopen(c.as_ptr(), 2 /* RTLD_NOW */);
        if h.is_null() {
            let e = std::ffi::CStr::from_ptr(dlerror());
            eprintln!("machinery: dlopen: {:?}", e);
            std::process::exit(3);
        }
        let sym = |n: &str| {
            let c = CString::new(n).unwrap();
            let s = dlsym(h, c.as_ptr());
            assert!(!s.is_null(), "dlsym {}", n);
            s
        };
        let init: unsafe extern "C" fn() = std::mem::transmute(sym("mc_init"));
        init();
        (
            std::mem::transmute::<*mut c_void, CallFn>(sym("mc_call")),
            std::mem::transmute::<*mut c_void, GlueFn>(sym("mc_glue")),
        )
    }
}
