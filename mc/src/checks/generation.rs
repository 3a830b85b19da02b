//! Checks of the generator as such: what it writes compiles, is the same
//! every time, survives its writer's faults, and carries what was declared.

use super::matching::*;
use crate::compile::{self, Built, Unit};
use crate::ctx::{one_line, par, probe, Ctx, Violation};
use crate::explore::*;
use crate::families::*;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::{self, Write};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;

fn files(c: &Conf, code: &str) -> Vec<(String, String)> {
    vec![("config.routes".into(), text(c)), ("routes.rs".into(), code.into())]
}

// ---------------------------------------------------------------------- C06

/// Module, action and parameter names.
fn name_confs(t: bool) -> Vec<Conf> {
    let mut v = vec![];
    let words = ["a", "b2", "Xy", "list", "HTTPServer", "x1", "some_people", "SomePeople", "a_b_c", "Z9"];
    for a in words {
        for b in words {
            // an action and a module side by side, a module in a module
            v.push(number(inner(vec![
                (s("p"), with(vec![res(M::Get, &format!("{}::{}", a, b))], vec![])),
                (s("q"), with(vec![res(M::Get, &format!("Outer::{}::{}", a, b))], vec![])),
            ])));
            if caps(a) != caps(b) {
                v.push(number(inner(vec![
                    (s("p"), with(vec![res(M::Get, &format!("{}::Index", a))], vec![])),
                    (s("q"), with(vec![res(M::Get, b)], vec![])),
                    (dy(Ty::Str), with(vec![res(M::Get, &format!("{}::Show", a))], vec![])),
                ])));
            }
            if snake(a) != snake(b) && caps(a) != caps(b) {
                v.push(number(inner(vec![
                    (s("p"), with(vec![res(M::Get, &format!("{}::Index", a))], vec![])),
                    (s("q"), with(vec![res(M::Put, &format!("{}::Index", b))], vec![])),
                    (d("id", Ty::U8), with(vec![res(M::Get, &format!("{}::{}::Index", a, b))], vec![])),
                ])));
            }
        }
    }
    for n in 1..=if t { 16 } else { 8 } {
        let mut tg: Vec<String> = (0..n).map(|k| format!("Mod{}", k)).collect();
        tg.push("Leaf".into());
        v.push(number(with(
            vec![res(M::Get, &tg.join("::"))],
            vec![(d("id", Ty::Str), with(vec![res(M::Get, &format!("{}Two", tg.join("::")))], vec![]))],
        )));
    }
    for n in LOCAL_NAMES.iter().copied() {
        // the generated module imports these two itself
        let module = if ["std", "fmt"].contains(&n) { "Other" } else { n };
        v.push(number(inner(vec![
            (d(n, Ty::U8), with(vec![res(M::Get, &format!("{}::Show", module))], vec![])),
            (s("x"), with(vec![res(M::Get, &format!("Area::Of{}", n))], vec![])),
        ])));
    }
    dedup(v)
}

pub fn wellformed(t: bool) -> Vec<Conf> {
    let mut v = structures(t);
    v.extend(scale(t));
    v.extend(far(t));
    v.extend(methods(t));
    v.extend(param_confs(t));
    v.extend(query_confs(t));
    v.extend(redirect_confs(t).into_iter().filter(consistent));
    v.extend(path_confs(t));
    v.extend(name_confs(t));
    v.extend(pairs(t));
    v.push(Conf::default());
    v.push(number(inner(vec![(s("a"), Node::default())])));
    v.push(number(with(vec![anon(M::Get)], vec![(s("a"), Node::default()), (s("ab"), leaf())])));
    for h in HEADER_SETS {
        let mut c = number(inner(vec![
            (d("id", Ty::Id), with(vec![anon(M::Get), res(M::Put, "A::B::C")], vec![])),
        ]));
        c.headers = h.iter().map(|x| x.to_string()).collect();
        v.push(c);
    }
    dedup(v)
}
const HEADER_SETS: &[&[&str]] = &[
    &["use crate::ty::Id;"],
    &["use crate::ty::{", "    Id, Name,", "};"],
    &["// a comment", "use crate::ty::Id;", "/* and */"],
    &["use crate::ty::*;", "type Other = u8;"],
    &["#[allow(unused_imports)]", "use crate::ty::Id;"],
];

pub fn c06(ctx: &Ctx) -> i32 {
    let confs = wellformed(ctx.thorough);
    let skipped = AtomicU64::new(0);
    for chunk in confs.chunks(4000) {
        let units: Mutex<Vec<Unit>> = Mutex::new(vec![Unit::default(); chunk.len()]);
        par(chunk, |i, c| match gen(c) {
            Ok(code) => {
                units.lock().unwrap()[i] = Unit {
                    code,
                    glue: String::new(),
                    ..Default::default()
                }
            }
            Err(e) => ctx.violate(|| Violation {
                what: format!("a well-formed configuration is refused: {} for <<{}>>", one_line(&e), text(c).trim_end()),
                files: vec![("config.routes".into(), text(c))],
            }),
        });
        let units = units.into_inner().unwrap();
        for edition in ["2021", "2018"] {
            let built = compile::build(&ctx.work, &units, false, edition);
            for (i, b) in built.iter().enumerate() {
                ctx.eval(1);
                match b {
                    Built::Ok(_) => {
                        if actions(&chunk[i]).len() > 1 {
                            ctx.add(&ctx.nontrivial, 1);
                        }
                    }
                    Built::Bad(m) => ctx.violate(|| Violation {
                        what: format!(
                            "the generated module does not compile (edition {}): {} for <<{}>>",
                            edition,
                            one_line(m),
                            text(&chunk[i]).trim_end()
                        ),
                        files: files(&chunk[i], &units[i].code),
                    }),
                    Built::Skipped => {
                        skipped.fetch_add(1, SeqCst);
                    }
                }
            }
        }
    }
    for k in [0, confs.len() / 3, confs.len() / 2, confs.len() - 1] {
        ctx.sample(|| text(&confs[k]).trim_end().replace('\n', " ; "));
    }
    ctx.add(&ctx.states, confs.len());
    ctx.add(&ctx.transitions, confs.len() * 2);
    ctx.finish(
        "exploration",
        "every configuration of all families (siblings, chains, products, scale, methods, parameters, query parameters, redirects, names, headers, empty) is generated and type and borrow checked by rustc in editions 2021 and 2018; also: every further type; every two of twenty features of one place together (S7; thorough: every four at their extremes); non-trivial: it has several actions",
        &[
            "names are Rust identifiers which are no keywords and do not collide after case conversion",
            "a redirect declares the fields of its target",
            "rustc without the optimiser decides",
        ],
    )
}

// ---------------------------------------------------------------------- C12

/// Hash seeds come from here instead of from the kernel.
pub mod seeds {
    use std::cell::Cell;
    thread_local!(pub static SEED: Cell<u64> = const { Cell::new(0) });
    pub static USED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

    #[no_mangle]
    pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
        USED.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let mut x = SEED.with(|s| s.get()).wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
        for i in 0..len {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            unsafe { *buf.add(i) = (x >> 32) as u8 };
        }
        len as isize
    }
}

/// What a thread can learn of the process and the machine around it: while it
/// is watched, it is noted what it asks for, and it gets the answers set here.
pub mod world {
    use std::cell::{Cell, RefCell};
    use std::collections::{BTreeMap, BTreeSet};
    use std::ffi::{CStr, CString};
    use std::os::raw::{c_char, c_int, c_long};

    /// One thing to learn.
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
    pub enum Ask {
        Var(String),
        Pid,
        Clock,
        Dir,
        File(String),
    }
    #[derive(Default)]
    pub struct World {
        asked: BTreeSet<Ask>,
        /// which of the possible answers; not set: the real one
        answers: BTreeMap<Ask, usize>,
    }
    thread_local! {
        static WATCHED: Cell<bool> = const { Cell::new(false) };
        static WORLD: RefCell<World> = RefCell::new(World::default());
    }
    const VALUES: &[Option<&str>] = &[
        None, Some(""), Some("0"), Some("1"), Some("true"), Some("false"), Some("debug"), Some("release"),
        Some("2018"), Some("/nowhere"), Some("x86_64-unknown-linux-gnu"), Some("C"), Some("1700000000"),
    ];
    impl Ask {
        pub fn answers(&self) -> usize {
            match self {
                Ask::Var(_) => VALUES.len(),
                Ask::Pid | Ask::Clock | Ask::Dir => 3,
                Ask::File(_) => 1,
            }
        }
    }

    /// Runs `f` in a world; says what it asked for.
    pub fn within<T>(answers: BTreeMap<Ask, usize>, f: impl FnOnce() -> T) -> (T, BTreeSet<Ask>) {
        WORLD.with(|w| *w.borrow_mut() = World { asked: BTreeSet::new(), answers });
        WATCHED.with(|w| w.set(true));
        let r = f();
        WATCHED.with(|w| w.set(false));
        (r, WORLD.with(|w| std::mem::take(&mut w.borrow_mut().asked)))
    }
    /// The answer to give, if it is not the real one.
    fn ask(a: impl FnOnce() -> Ask) -> Option<usize> {
        // a thread which starts or ends has no world
        if !WATCHED.try_with(|w| w.replace(false)).unwrap_or(false) {
            return None;
        }
        let n = WORLD.with(|w| {
            let mut w = w.borrow_mut();
            let a = a();
            let n = w.answers.get(&a).copied();
            w.asked.insert(a);
            n
        });
        WATCHED.with(|w| w.set(true));
        n
    }

    extern "C" {
        static environ: *const *const c_char;
        fn syscall(n: c_long, ...) -> c_long;
        fn __errno_location() -> *mut c_int;
    }

    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
        let name = CStr::from_ptr(name).to_bytes();
        if let Some(n) = ask(|| Ask::Var(String::from_utf8_lossy(name).into_owned())) {
            return match VALUES[n] {
                None => std::ptr::null(),
                Some(v) => CString::new(v).unwrap().into_raw(),
            };
        }
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            let b = CStr::from_ptr(*e).to_bytes();
            if b.len() > name.len() && b.starts_with(name) && b[name.len()] == b'=' {
                return (*e).add(name.len() + 1);
            }
            e = e.add(1);
        }
        std::ptr::null()
    }
    #[no_mangle]
    pub unsafe extern "C" fn getpid() -> c_int {
        match ask(|| Ask::Pid) {
            Some(n) => [1, 2, 40000][n],
            None => syscall(39) as c_int,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(clock: c_int, ts: *mut [i64; 2]) -> c_int {
        let n = ask(|| Ask::Clock);
        let r = syscall(228, clock as c_long, ts) as c_int;
        if let Some(n) = n {
            (*ts)[0] += [7, 90_000, 40_000_000][n];
        }
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn getcwd(buf: *mut c_char, size: usize) -> *mut c_char {
        if let Some(n) = ask(|| Ask::Dir) {
            let d = ["/\0", "/tmp\0", "/home/someone/project\0"][n];
            if size < d.len() {
                *__errno_location() = 34;
                return std::ptr::null_mut();
            }
            std::ptr::copy_nonoverlapping(d.as_ptr() as *const c_char, buf, d.len());
            return buf;
        }
        let n = syscall(79, buf, size);
        if n < 0 { std::ptr::null_mut() } else { buf }
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
        let p = CStr::from_ptr(path);
        if ask(|| Ask::File(p.to_string_lossy().into_owned())).is_some() {
            *__errno_location() = 2;
            return -1;
        }
        syscall(2, path, flags as c_long, mode as c_long) as c_int
    }
}

fn with_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(32 << 20)
            .spawn_scoped(sc, move || {
                seeds::SEED.with(|s| s.set(seed));
                f()
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

fn module_confs(t: bool) -> Vec<(Conf, Vec<String>)> {
    let mut v = vec![];
    let names = ["alpha", "beta", "Gamma", "delta", "Eps", "zeta"];
    for k in 2..=if t { 5 } else { 4 } {
        // k modules; k actions; k of each, nested
        let kids = |f: &dyn Fn(usize) -> Vec<Res>| -> Node {
            inner((0..k).map(|i| (s(names[i]), with(f(i), vec![]))).collect())
        };
        let ns: Vec<String> = names[..k].iter().map(|x| x.to_string()).collect();
        v.push((number(kids(&|i| vec![res(M::Get, &format!("{}::Show", names[i]))])), ns.clone()));
        v.push((number(kids(&|i| vec![res(M::Get, names[i])])), ns.clone()));
        v.push((
            number(kids(&|i| {
                (0..k.min(4)).map(|j| res(METHODS[j], &format!("{}::{}", names[i], names[j]))).collect()
            })),
            ns.clone(),
        ));
        v.push((
            number(kids(&|i| {
                vec![
                    res(M::Get, &format!("Out::{}::{}", names[i], names[k - 1 - i])),
                    res(M::Post, &format!("{}::Inner::{}", names[i], names[i])),
                ]
            })),
            ns,
        ));
    }
    v
}

/// Names which are alike in all but one respect: a long common start or end,
/// case, a digit, an underscore.
const ALIKE: [&str; 18] = [
    "Show", "Shown", "SHow", "Show1", "Show2", "Show10", "Show01", "AShow", "BShow", "ShowPeopleListing",
    "ShowPeopleListings", "ShowPeopleLister", "Showpeoplelisting", "XPeopleListing", "YPeopleListing", "S", "S1", "SA",
];

fn zoo_confs() -> Vec<Conf> {
    let paths = |f: &dyn Fn(&str) -> Vec<Res>| -> Conf {
        number(inner(ALIKE.iter().enumerate().map(|(i, n)| (s(&format!("p{}", i)), with(f(n), vec![]))).collect()))
    };
    vec![
        paths(&|n| vec![res(M::Get, n)]),
        paths(&|n| vec![res(M::Get, &format!("{}::Index", n))]),
        paths(&|n| vec![res(M::Get, &format!("Area::{}", n)), res(M::Put, &format!("Area::{}::Change", n))]),
        paths(&|n| vec![res(M::Get, &format!("{}::{}", n, n)), res(M::Delete, &format!("{}::Z{}", n, n))]),
        paths(&|n| vec![res(M::Get, n), res(M::Post, &format!("Mod{}::{}::Act", n, n))]),
    ]
}

/// Configurations whose names are the same apart from their spelling.
fn spelling_confs() -> Vec<Conf> {
    let one = |m: &str, a: &str, q: &str, path: &str| {
        number(inner(vec![
            (s(path), with(vec![res(M::Get, &format!("{}::{}", m, a))], vec![])),
            (d(q, Ty::U8), with(vec![res(M::Get, &format!("{}::Other", m))], vec![])),
        ]))
    };
    vec![
        one("AdminUsers", "ShowAll", "page_no", "ab"),
        one("Adminusers", "Showall", "pageno", "aB"),
        one("admin_users", "show_all", "pageNo", "a_b"),
        one("ADMINUSERS", "SHOWALL", "PAGENO", "AB"),
        one("AdminUsers2", "ShowAll2", "page_no2", "ab2"),
        one("AdminUser", "ShowAl", "page_n", "a"),
    ]
}

/// `mc gen-one FILE`: what a process generates which generates nothing else.
pub fn gen_one(file: &str) -> i32 {
    seeds::SEED.with(|s| s.set(3));
    let txt = std::fs::read_to_string(file).unwrap();
    let cfg = match wayfinder::parse::route_config(&txt) {
        Ok(r) => r.1,
        Err(_) => return 1,
    };
    match real_code(&cfg) {
        Ok(c) => {
            print!("{}", c);
            0
        }
        Err(_) => 1,
    }
}

fn gen_alone(ctx: &Ctx, k: usize, c: &Conf, around: usize) -> Option<String> {
    let f = ctx.work.join(format!("alone{}-{}.routes", k, around));
    std::fs::write(&f, text(c)).unwrap();
    let mut command = std::process::Command::new(std::env::current_exe().unwrap());
    command.arg("gen-one").arg(&f).env_remove("MC_WORKER");
    if around > 0 {
        command.env_clear();
    }
    if around > 1 {
        // as cargo runs a build script
        let release = around == 3;
        command
            .current_dir(&ctx.work)
            .env("PROFILE", if release { "release" } else { "debug" })
            .env("OPT_LEVEL", if release { "3" } else { "0" })
            .env("DEBUG", if release { "false" } else { "true" })
            .env("OUT_DIR", &ctx.work)
            .env("CARGO_MANIFEST_DIR", &ctx.work)
            .env("CARGO_PKG_NAME", if release { "app" } else { "lib" })
            .env("CARGO_PKG_VERSION", if release { "1.0.0" } else { "0.1.0" })
            .env("CARGO_CFG_TARGET_OS", if release { "windows" } else { "linux" })
            .env("TARGET", if release { "x86_64-pc-windows-msvc" } else { "x86_64-unknown-linux-gnu" })
            .env("HOST", "x86_64-unknown-linux-gnu")
            .env("NUM_JOBS", if release { "1" } else { "8" })
            .env("RUST_BACKTRACE", if release { "0" } else { "1" })
            .env("LANG", if release { "C" } else { "de_DE.UTF-8" });
    }
    let o = command.output().expect("gen-one");
    let _ = std::fs::remove_file(&f);
    if o.status.success() {
        Some(String::from_utf8_lossy(&o.stdout).into_owned())
    } else {
        None
    }
}

pub fn c12(ctx: &Ctx) -> i32 {
    // the seam works: equal seeds give equal orders, the seeds reach all orders
    let order = |seed: u64, names: &[String]| -> Vec<String> {
        with_seed(seed, || {
            let m: HashMap<String, u8> = names.iter().map(|n| (n.clone(), 0)).collect();
            m.keys().cloned().collect()
        })
    };
    let confs = module_confs(ctx.thorough);
    let seeds_max: u64 = if ctx.thorough { 4000 } else { 600 };
    let abc: Vec<String> = ["x", "y", "z", "w"].iter().map(|x| x.to_string()).collect();
    if (0..20).any(|k| order(k, &abc) != order(k, &abc)) {
        ctx.set("hash_seed_seam", "not in control of the hash seeds: orders vary on their own");
    } else {
        ctx.set("hash_seed_seam", "controlled");
    }
    let total_orders = AtomicU64::new(0);
    par(&confs, |_, (c, names)| {
        let first = with_seed(1 << 40, || gen(c));
        let mut seen: BTreeSet<Vec<String>> = BTreeSet::new();
        let want: usize = (1..=names.len()).product();
        let mut k = 0;
        while k < seeds_max && (seen.len() < want || k < 64) {
            seen.insert(order(k, names));
            let again = with_seed(k, || gen(c));
            ctx.eval(1);
            ctx.add(&ctx.nontrivial, 1);
            if again != first {
                ctx.violate(|| Violation {
                    what: format!("generating the same configuration twice gives different text (hash seed {}): <<{}>>", k, text(c).trim_end()),
                    files: vec![
                        ("config.routes".into(), text(c)),
                        ("one.rs".into(), first.clone().unwrap_or_else(|e| e)),
                        ("two.rs".into(), again.unwrap_or_else(|e| e)),
                    ],
                });
                break;
            }
            k += 1;
        }
        total_orders.fetch_add(seen.len() as u64, SeqCst);
        ctx.add(&ctx.traces, k as usize);
        ctx.sample(|| format!("{} hash seeds, {} of {} orders of a map with the same keys: {}", k, seen.len(), want, text(c).trim_end().replace('\n', " ; ")));
    });
    // many names at once: until every two names have come in either order
    let zoo = zoo_confs();
    let names: Vec<String> = ALIKE.iter().map(|x| x.to_string()).collect();
    par(&zoo, |_, c| {
        let first = with_seed(1 << 40, || gen(c));
        let mut before: HashSet<(String, String)> = HashSet::new();
        let want = names.len() * (names.len() - 1);
        let mut k = 0;
        while k < seeds_max && (before.len() < want || k < 24) {
            let o = order(k, &names);
            for i in 0..o.len() {
                for j in i + 1..o.len() {
                    before.insert((o[i].clone(), o[j].clone()));
                }
            }
            let again = with_seed(k, || gen(c));
            ctx.eval(1);
            ctx.add(&ctx.nontrivial, 1);
            if again != first || again.is_err() {
                ctx.violate(|| Violation {
                    what: format!("generating the same configuration twice gives different text (hash seed {}): <<{}>>", k, text(c).trim_end()),
                    files: vec![
                        ("config.routes".into(), text(c)),
                        ("one.rs".into(), first.clone().unwrap_or_else(|e| e)),
                        ("two.rs".into(), again.unwrap_or_else(|e| e)),
                    ],
                });
                break;
            }
            k += 1;
        }
        total_orders.fetch_add(k, SeqCst);
        ctx.add(&ctx.traces, k as usize);
    });
    ctx.add(&ctx.states, total_orders.into_inner() as usize);
    // every two features together, under a few seeds and from the parsed text
    par(&crossed(if ctx.thorough { 3 } else { 2 }, false), |_, c| {
        let first = with_seed(1 << 40, || gen(c));
        let txt = text(c);
        for k in 0..5 {
            let again = with_seed(k, || {
                if k == 4 {
                    wayfinder::parse::route_config(&txt).map_err(|_| String::new()).and_then(|r| real_code(&r.1))
                } else {
                    gen(c)
                }
            });
            ctx.eval(1);
            ctx.add(&ctx.traces, 1);
            ctx.add(&ctx.nontrivial, 1);
            if again.as_ref().ok() != first.as_ref().ok() {
                ctx.violate(|| Violation {
                    what: format!("generating the same configuration twice gives different text (hash seed {}): <<{}>>", k, txt.trim_end()),
                    files: vec![
                        ("config.routes".into(), txt.clone()),
                        ("one.rs".into(), first.clone().unwrap_or_else(|e| e)),
                        ("two.rs".into(), again.unwrap_or_else(|e| e)),
                    ],
                });
                break;
            }
        }
    });
    // histories: every pair of generations, the first of which may fail
    let mut pool: Vec<Conf> = confs.iter().step_by(3).map(|x| x.0.clone()).collect();
    pool.extend(structures(false).into_iter().step_by(150));
    pool.push(number(inner(vec![(s("a"), leaf()), (s("a"), leaf())])));
    pool.push(number(with(vec![anon(M::Get), anon(M::Get)], vec![])));
    pool.push(number(inner(vec![(d("x", Ty::Str), leaf()), (d("y", Ty::Str), leaf())])));
    pool.extend(spelling_confs());
    pool.extend(zoo);
    // what each gives in a process of its own
    let alone: Mutex<Vec<Option<String>>> = Mutex::new(vec![None; pool.len()]);
    par(&pool, |k, c| {
        let got = gen_alone(ctx, k, c, 0);
        for around in 1..4 {
            ctx.add(&ctx.traces, 1);
            let other = gen_alone(ctx, k, c, around);
            if other != got {
                ctx.violate(|| Violation {
                    what: format!("another environment gives another module: <<{}>>", text(c).trim_end()),
                    files: vec![
                        ("config.routes".into(), text(c)),
                        ("one.rs".into(), got.clone().unwrap_or_default()),
                        ("two.rs".into(), other.unwrap_or_default()),
                    ],
                });
            }
        }
        alone.lock().unwrap()[k] = got;
    });
    let alone = alone.into_inner().unwrap();
    // what generation asks the world for, with every answer to it
    let asked = Mutex::new(BTreeSet::new());
    let watched: Vec<(Conf, Option<String>)> = pool
        .iter()
        .cloned()
        .zip(alone.iter().cloned())
        .chain(crossed(1, false).into_iter().map(|c| {
            let g = gen(&c).ok();
            (c, g)
        }))
        .collect();
    par(&watched, |_, (c, want)| {
        let real = wf_conf(c);
        let mut todo: Vec<BTreeMap<world::Ask, usize>> = vec![BTreeMap::new()];
        let mut seen: BTreeSet<BTreeMap<world::Ask, usize>> = BTreeSet::new();
        while let Some(answers) = todo.pop() {
            if !seen.insert(answers.clone()) || seen.len() > 3000 {
                continue;
            }
            let (got, asks) = world::within(answers.clone(), || {
                std::panic::catch_unwind(|| real_code(&real)).unwrap_or_else(|_| Err("panicked".into()))
            });
            ctx.eval(1);
            ctx.add(&ctx.traces, 1);
            for a in asks {
                if !answers.contains_key(&a) {
                    for n in 0..a.answers() {
                        let mut more = answers.clone();
                        more.insert(a.clone(), n);
                        todo.push(more);
                    }
                }
                asked.lock().unwrap().insert(format!("{:?}", a));
            }
            if got.as_ref().ok() != want.as_ref() {
                ctx.violate(|| Violation {
                    what: format!("generation depends on its surroundings ({:?}): <<{}>>", answers, text(c).trim_end()),
                    files: vec![
                        ("config.routes".into(), text(c)),
                        ("one.rs".into(), want.clone().unwrap_or_default()),
                        ("two.rs".into(), got.unwrap_or_else(|e| e)),
                    ],
                });
                break;
            }
        }
    });
    ctx.set("asked_of_the_world", asked.into_inner().unwrap().into_iter().collect::<Vec<String>>().join(", "));
    let pairs: Vec<(usize, usize)> = (0..pool.len()).flat_map(|a| (0..pool.len()).map(move |b| (a, b))).collect();
    par(&pairs, |_, (a, b)| {
        let got = with_seed(9, || {
            let _ = gen(&pool[*a]);
            let _ = probe(&[b"parse"], || wayfinder::parse::route_config("/\n  nonsense nonsense\n").is_ok());
            let _ = wayfinder::parse::route_config(&text(&pool[*a])).is_ok();
            (gen(&pool[*b]), gen(&pool[*b]))
        });
        ctx.eval(1);
        ctx.add(&ctx.traces, 1);
        ctx.add(&ctx.transitions, 2);
        if got.0.is_ok() {
            ctx.add(&ctx.nontrivial, 1);
        }
        let ok = |r: &Result<String, String>| r.clone().ok();
        if ok(&got.0) != alone[*b] || ok(&got.1) != alone[*b] {
            ctx.violate(|| Violation {
                what: format!(
                    "what was generated before changes what is generated: <<{}>> after <<{}>>",
                    text(&pool[*b]).trim_end(),
                    text(&pool[*a]).trim_end()
                ),
                files: vec![
                    ("config.routes".into(), text(&pool[*b])),
                    ("alone.rs".into(), alone[*b].clone().unwrap_or_default()),
                    ("after.rs".into(), got.1.unwrap_or_else(|e| e)),
                ],
            });
        }
    });
    ctx.set("kernel_randomness_requests_answered", seeds::USED.load(SeqCst));
    ctx.set("history_pairs", pairs.len());
    ctx.finish(
        "model_checking",
        "configurations of 2 to 4 (5) modules and actions per level, generated once per hash seed, the seeds being enumerated until a map with the same keys has shown all its orders (reported per sample); five of 18 names which are alike in all but one respect, until every two names have come in either order; and every ordered pair of generations of a pool which includes refused configurations and configurations whose names differ in their spelling only, each compared with what a process of its own generates; also: every two features under five seeds and from the parsed text; every pool member in a process with no environment and with those of a debug and of a release build script; and generation watched at the C library: every variable, clock, directory, file or process id it asks for would be answered in every way (asked_of_the_world says what was asked); states: hash orders exercised",
        &["hash seeds are replaced by enumerated ones through getrandom; the environment, process id, clock, working directory and files are seen through the C library (the check's own definitions of getenv, getpid, clock_gettime, getcwd and open64)"],
    )
}

// ---------------------------------------------------------------------- C17

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Fail(io::ErrorKind),
    Zero,
    Interrupt,
    Short(usize),
}

struct Faulty {
    data: Vec<u8>,
    call: usize,
    plan: Vec<(usize, Fault)>,
    every: Option<usize>,
    quota: usize,
    /// calls after a hard failure was reported
    after: usize,
    /// the failure goes away again
    transient: bool,
    failed: bool,
}
impl Faulty {
    fn new(plan: Vec<(usize, Fault)>) -> Faulty {
        Faulty {
            data: vec![],
            call: 0,
            plan,
            every: None,
            quota: usize::MAX,
            after: 0,
            transient: false,
            failed: false,
        }
    }
}
impl Write for Faulty {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let k = self.call;
        self.call += 1;
        if self.failed {
            self.after += 1;
            if !self.transient {
                return Err(io::ErrorKind::Other.into());
            }
        }
        let mut n = buf.len();
        for (at, f) in &self.plan {
            if *at == k {
                match f {
                    Fault::Fail(e) => {
                        self.failed = true;
                        return Err((*e).into());
                    }
                    Fault::Zero => {
                        self.failed = true;
                        return Ok(0);
                    }
                    Fault::Interrupt => return Err(io::ErrorKind::Interrupted.into()),
                    Fault::Short(m) => n = n.min(*m),
                }
            }
        }
        if let Some(e) = self.every {
            n = n.min(e);
        }
        let room = if self.transient && self.failed { usize::MAX } else { self.quota - self.data.len() };
        if n > 0 && room == 0 {
            self.failed = true;
            return Err(io::ErrorKind::Other.into());
        }
        n = n.min(room);
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.failed {
            return Err(io::ErrorKind::Other.into());
        }
        Ok(())
    }
}

fn fault_confs(t: bool) -> Vec<Conf> {
    let mut v = vec![
        Conf::default(),
        number(leaf()),
        number(inner(vec![(s("a"), leaf())])),
        number(inner(vec![(s("a"), leaf()), (s("ab"), leaf()), (dy(Ty::U8), leaf())])),
        number(inner(vec![(s("new"), leaf()), (d("id", Ty::Str), with(vec![anon(M::Get), anon(M::Put)], vec![(s("edit"), leaf())]))])),
    ];
    let mut c = number(with(
        vec![res(M::Get, "A::B")],
        vec![(s("x"), with(vec![redir(M::Get, "A::B"), res(M::Post, "C")], vec![]))],
    ));
    c.headers = vec!["use std::fmt::Debug;".into(), "// x".into()];
    v.push(c);
    let mut r = anon(M::Get);
    r.qp = vec![p("page", Ty::U8)];
    let mut n = inner(vec![(s("a"), with(vec![r], vec![]))]);
    n.qp = vec![p("lang", Ty::Str)];
    v.push(number(n));
    v.extend(crossed(1, !t));
    if t {
        v.extend(structures(false).into_iter().step_by(97));
        v.extend(query_confs(false).into_iter().step_by(211));
    }
    v
}

pub fn c17(ctx: &Ctx) -> i32 {
    let confs = fault_confs(ctx.thorough);
    for c in &confs {
        let cfg = wf_conf(c);
        let mut base = Faulty::new(vec![]);
        if probe(&[b"codegen"], || wayfinder::gen::codegen(&mut base, &cfg)).map(|r| r.is_ok()) != Ok(true) {
            ctx.add(&ctx.skipped, 1);
            continue;
        }
        let (calls, full) = (base.call, base.data);
        let mut plans: Vec<(Vec<(usize, Fault)>, Option<usize>, usize, bool)> = vec![];
        for k in 0..calls {
            // a failure which goes away: what comes after it must not be written
            plans.push((vec![(k, Fault::Fail(io::ErrorKind::Other))], None, usize::MAX, true));
            plans.push((vec![(k, Fault::Fail(io::ErrorKind::WouldBlock))], None, usize::MAX, true));
            plans.push((vec![(k, Fault::Short(1)), (k + 1, Fault::Fail(io::ErrorKind::Other))], None, usize::MAX, true));
            for e in [io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::WriteZero, io::ErrorKind::WouldBlock] {
                plans.push((vec![(k, Fault::Fail(e))], None, usize::MAX, false));
            }
            plans.push((vec![(k, Fault::Zero)], None, usize::MAX, false));
            plans.push((vec![(k, Fault::Interrupt)], None, usize::MAX, false));
            plans.push((vec![(k, Fault::Interrupt), (k + 1, Fault::Interrupt)], None, usize::MAX, false));
            plans.push((vec![(k, Fault::Short(1))], None, usize::MAX, false));
            plans.push((vec![(k, Fault::Short(1)), (k + 1, Fault::Interrupt)], None, usize::MAX, false));
            plans.push((vec![(k, Fault::Short(1)), (k + 1, Fault::Fail(io::ErrorKind::Other))], None, usize::MAX, false));
            plans.push((vec![(k, Fault::Interrupt), (k + 1, Fault::Fail(io::ErrorKind::Other))], None, usize::MAX, false));
        }
        for n in [1, 2, 3, 7, 64] {
            plans.push((vec![], Some(n), usize::MAX, false));
        }
        for q in 0..full.len() {
            plans.push((vec![], None, q, false));
            if ctx.thorough || q % 7 == 0 {
                plans.push((vec![], None, q, true));
            }
            if ctx.thorough {
                plans.push((vec![], Some(3), q, false));
            }
        }
        ctx.add(&ctx.states, calls);
        par(&plans, |_, (plan, every, quota, transient)| {
            let mut w = Faulty::new(plan.clone());
            w.every = *every;
            w.quota = *quota;
            w.transient = *transient;
            let r = probe(&[b"codegen under write faults of: ", text(c).as_bytes()], || {
                wayfinder::gen::codegen(&mut w, &cfg).map_err(|e| e.kind())
            });
            ctx.eval(1);
            ctx.add(&ctx.traces, 1);
            let hit = w.failed || plan.iter().any(|(k, _)| *k < w.call) || every.is_some();
            if hit {
                ctx.add(&ctx.nontrivial, 1);
            }
            let what = match r {
                Err(p) => Some(format!("the generator panicked: {}", p)),
                Ok(Ok(())) if w.failed => Some("the writer failed but the generator reports success".into()),
                Ok(Ok(())) if w.data != full => Some("the generator reports success but the output differs".into()),
                Ok(Err(_)) if !w.failed => Some("the generator fails although the writer did not".into()),
                Ok(Err(_)) if !full.starts_with(&w.data) => Some("what was written before the failure is no prefix of the output".into()),
                _ => None,
            };
            if let Some(what) = what {
                ctx.violate(|| Violation {
                    what: format!("{}: faults {:?} every {:?} quota {} transient {} for <<{}>>", what, plan, every, quota, transient, text(c).trim_end()),
                    files: vec![
                        ("config.routes".into(), text(c)),
                        ("want.rs".into(), String::from_utf8_lossy(&full).into_owned()),
                        ("got.rs".into(), String::from_utf8_lossy(&w.data).into_owned()),
                    ],
                });
            }
        });
        ctx.add(&ctx.transitions, plans.len());
        ctx.sample(|| format!("{} write calls, {} fault plans: {}", calls, plans.len(), text(c).trim_end().replace('\n', " ; ")));
    }
    super::process::write_faults(ctx);
    ctx.finish(
        "fault_enumeration",
        "for each configuration: at every write call an error (four kinds, lasting; two kinds, going away again: nothing may be written past it), a zero write, one or two interruptions, a short write, and short or interrupted followed by an error; every write short; every capacity in bytes from 0 to the length of the output; then whole builds into files with every size limit of a grid, a full device and a closed pipe; also: every feature in turn; non-trivial: the fault was reached",
        &["flush is not required of the generator"],
    )
}

// ---------------------------------------------------------------------- C21

const HEADS: [(&str, &str, &str); 8] = [
    // line, expression reading it from a module path {}, its value
    ("pub const A: u8 = 1;", "{}::A.to_string()", "1"),
    ("pub const B: &str = \"{}{{\\n}\\\"//\";", "{}::B.to_string()", "{}{{\n}\"//"),
    ("pub type T = Vec<u8>;", "{ let x: {}::T = vec![3u8]; x.len().to_string() }", "1"),
    ("// comment { with } \"odd\" \\ text", "String::new()", ""),
    ("  pub const C: char = '/';", "{}::C.to_string()", "/"),
    ("pub use crate::ty::Name as N;", "{ let x: {}::N = String::from(\"n\"); x }", "n"),
    ("/* a block */ pub const D: i32 = -4;", "{}::D.to_string()", "-4"),
    ("pub fn e() -> u8 { 5 }", "{}::e().to_string()", "5"),
];

/// Headers whose meaning depends on blanks at either end of a line. What
/// indentation the generator adds before a line is its own affair.
const MULTI: [(&[&str], &str, &str); 5] = [
    (&["pub const L: &str = \"a  ", "b\";"], "{}::L.starts_with(\"a  \\n\").to_string()", "true"),
    (&["pub const L: &str = \"a\t", "   b\";"], "({}::L.starts_with(\"a\\t\\n\") && {}::L.ends_with(\"   b\")).to_string()", "true"),
    (&["pub const L: &str = \"a", "\t   b\";"], "{}::L.ends_with(\"\\t   b\").to_string()", "true"),
    (&["pub const L: &str = r#\"a //  ", "  {\" \\n  ", " b  \"#;"], "({}::L.starts_with(\"a //  \\n\") && {}::L.contains(\"  {\\\" \\\\n  \\n\") && {}::L.ends_with(\" b  \")).to_string()", "true"),
    (&["pub const L: &str = \"a \\", "   b\";"], "{}::L.to_string()", "a b"),
];

/// Header lists which are read as a whole: the lines, an expression reading
/// them from a module path {}, its value.
fn multi() -> Vec<(Vec<String>, String, String)> {
    let own = |l: &[&str]| l.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let mut v: Vec<(Vec<String>, String, String)> = MULTI.iter().map(|(l, e, w)| (own(l), e.to_string(), w.to_string())).collect();
    let mut add = |l: &[&str], e: &str, w: &str| v.push((own(l), e.into(), w.into()));
    // lines which are there more than once
    add(&["pub fn f() -> u8 {", "    1", "}", "pub fn g() -> u8 {", "    1", "}"], "({}::f() + {}::g()).to_string()", "2");
    add(
        &["#[allow(dead_code)]", "pub struct S {", "    pub x: u8,", "}", "#[allow(dead_code)]", "pub struct R {", "    pub x: u8,", "}"],
        "({}::S { x: 1 }.x + {}::R { x: 2 }.x).to_string()",
        "3",
    );
    add(&["pub const N: u8 = 0", "+ 1", "+ 1", "+ 1", ";"], "{}::N.to_string()", "3");
    add(&["pub const N: [u8; 6] = [", "1,", "2,", "1,", "1,", "2,", "1,", "];"], "format!(\"{:?}\", {}::N)", "[1, 2, 1, 1, 2, 1]");
    add(&["/*", "/*", "*/", "*/", "pub mod inner {", "pub mod inner {", "pub const X: u8 = 7;", "}", "}"], "{}::inner::inner::X.to_string()", "7");
    add(&["pub use std::{", "    io::{self, Write},", "    collections::{", "        HashMap,", "    },", "};"], "{ let m: {}::HashMap<u8, u8> = Default::default(); m.len().to_string() }", "0");
    add(&["pub const L: &str = \"", "a", "a", "b", "a", "\";"], "{}::L.lines().map(|x| x.trim()).collect::<String>()", "aaba");
    // every character at the start, within and at the end of a line
    let mut chars: Vec<String> = (0x21u8..0x7f).map(|b| (b as char).to_string()).collect();
    chars.extend(["\u{e9}", "\u{2192}", "\u{1f600}", "//", "/*", "*/", "///", "//!", "#[", "#![", "{{", "}}", "{}", "\\n", "->", "::", "  ", "/ ", "\t", "    ", "\u{a0}", "\u{feff}", "\u{2028}", "\u{b}", "\u{c}", "\u{85}", "a\tb", "a \t b", "e\u{301}", "\u{200b}"].iter().map(|x| x.to_string()));
    for form in 0..5 {
        let ls: Vec<String> = chars
            .iter()
            .map(|c| match form {
                0 => format!("{}x", c),
                1 => format!("x{}y {} z", c, c),
                2 => format!("x{}", c),
                3 => c.repeat(3),
                _ => format!("GET {}", c),
            })
            .filter(|l| !l.contains("\"#") && !l.trim().is_empty())
            .collect();
        let mut h = vec!["pub const L: &str = r##\"".to_string()];
        h.extend(ls.iter().cloned());
        h.push("\"##;".into());
        let want: Vec<String> = ls.iter().map(|l| l.trim_start().to_string()).collect();
        v.push((
            h,
            "{ let mut t = String::new(); for l in {}::L.lines().skip(1).filter(|l| !l.trim().is_empty()) { t.push_str(l.trim_start()); t.push('|'); } t }".into(),
            want.iter().map(|l| format!("{}|", l)).collect(),
        ));
    }
    v
}

pub fn c21(ctx: &Ctx) -> i32 {
    let t = ctx.thorough;
    let multi = multi();
    // module shapes: which modules exist
    let shapes: Vec<Vec<&str>> = vec![
        vec!["Index"],
        vec!["M::X"],
        vec!["Index", "M::X"],
        vec!["M::N::X"],
        vec!["M::X", "M::N::X", "O::X"],
        vec!["A::B::C::D::X", "A::Y"],
    ];
    let mut confs = vec![];
    let mut lists: Vec<Vec<usize>> = vec![];
    let idx: Vec<usize> = (0..HEADS.len()).collect();
    for set in subsets(&idx, if t { 4 } else { 3 }) {
        for o in perms(&set) {
            lists.push(o);
        }
    }
    for (n, list) in lists.iter().enumerate() {
        for (k, shape) in shapes.iter().enumerate() {
            if !t && list.len() > 2 && (n + k) % 3 != 0 {
                continue;
            }
            let kids = shape
                .iter()
                .enumerate()
                .map(|(i, tg)| (s(["a", "b", "c", "d"][i]), with(vec![res(M::Get, tg)], vec![])))
                .collect();
            let mut c = number(inner(kids));
            c.headers = list.iter().map(|i| HEADS[*i].0.to_string()).collect();
            confs.push(c);
        }
    }
    // order: later lines build on earlier ones (textual macro scope)
    for (k, shape) in shapes.iter().enumerate() {
        for rounds in 1..=if t { 8 } else { 4 } {
            let kids = shape
                .iter()
                .enumerate()
                .map(|(i, tg)| (s(["a", "b", "c", "d"][i]), with(vec![res(M::Get, tg)], vec![])))
                .collect();
            let mut c = number(inner(kids));
            for r in 0..rounds {
                c.headers.push(format!("macro_rules! hdr {{ () => {{ {} }} }}", r + k));
                c.headers.push(format!("pub const O{}: usize = hdr!();", r));
            }
            confs.push(c);
        }
    }
    // many lines, long lines, deep and many modules
    let lens: &[usize] = if t { &[9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 257, 600] } else { &[9, 17, 33, 65, 129, 300] };
    for (k, &n) in lens.iter().enumerate() {
        for shape in [vec!["M::X"], vec!["Index", "M::N::X"]] {
            let kids = shape
                .iter()
                .enumerate()
                .map(|(i, tg)| (s(["a", "b"][i]), with(vec![res(M::Get, tg)], vec![])))
                .collect();
            let mut c = number(inner(kids));
            c.headers = (0..n).map(|i| format!("pub const Z{}: usize = {};", (i * 37) % 1009, i)).collect();
            confs.push(c.clone());
            c.headers = vec![
                format!("// {}", "w".repeat(n * 4)),
                format!("pub const {}: usize = {};", format!("Z{}", "Y".repeat(n)), k),
                format!("pub const Z1: usize = {}{};", " ".repeat(n), k + 1),
            ];
            confs.push(c);
        }
    }
    for depth in 1..=if t { 24 } else { 14 } {
        for hs in [&[0usize, 1][..], &[3, 7, 4], &[2, 5]] {
            let mut kids = vec![];
            for (i, n) in [depth, depth / 2].iter().enumerate() {
                let mut tg: Vec<String> = (0..*n).map(|k| format!("M{}x{}", i, k)).collect();
                tg.push("X".into());
                kids.push((s(["a", "b"][i]), with(vec![res(M::Get, &tg.join("::"))], vec![])));
            }
            let mut c = number(inner(kids));
            c.headers = hs.iter().map(|i| HEADS[*i].0.to_string()).collect();
            confs.push(c);
        }
    }
    for n in if t { vec![5, 9, 17, 33, 65, 129] } else { vec![9, 17, 65] } {
        let kids = (0..n)
            .map(|i| (s(&format!("p{}", i)), with(vec![res(M::Get, &format!("Mod{}::X", i))], vec![])))
            .collect();
        let mut c = number(inner(kids));
        c.headers = vec![HEADS[1].0.into(), HEADS[6].0.into()];
        confs.push(c);
    }
    // beside everything else that can be declared
    for (k, c) in pairs(false).into_iter().enumerate() {
        let mut c = Conf { headers: vec![], ..c };
        let from = k % HEADS.len();
        c.headers = (0..1 + k % 4).map(|i| HEADS[(from + i * (1 + k % 3)) % HEADS.len()].0.to_string()).collect();
        c.headers.dedup();
        let mut seen = HashSet::new();
        c.headers.retain(|h| seen.insert(h.clone()));
        confs.push(c);
    }
    // literals which go on over lines
    for shape in &shapes {
        for l in &multi {
            let kids = shape
                .iter()
                .enumerate()
                .map(|(i, tg)| (s(["a", "b", "c", "d"][i]), with(vec![res(M::Get, tg)], vec![])))
                .collect();
            let mut c = number(inner(kids));
            c.headers = l.0.clone();
            confs.push(c);
        }
    }
    let glue = |c: &Conf| -> String { header_glue(c, &multi).0 };
    let bad: Mutex<Vec<(Conf, String)>> = Mutex::new(vec![]);
    let job = Job {
        glue: &glue,
        // through the file format: headers, then the routes
        code: &|i, c| {
            let txt = if i % 2 == 0 { text(c) } else { lines(c).join("\n\n") + "\n\n" };
            match probe(&[b"parse: ", txt.as_bytes()], || {
                wayfinder::parse::route_config(&txt).map(|r| r.1).map_err(|e| format!("{:?}", e))
            }) {
                Ok(Ok(cfg)) => probe(&[b"codegen: ", txt.as_bytes()], || real_code(&cfg)).unwrap_or_else(Err),
                Ok(Err(e)) => Err(e),
                Err(e) => Err(e),
            }
        },
        ..Job::new(&confs)
    };
    each_router(
        ctx,
        &job,
        &|_, c, r, code| {
            let got = r.glue();
            let want = header_glue(c, &multi).1;
            ctx.eval(1);
            ctx.add(&ctx.traces, 1);
            ctx.add(&ctx.states, want.lines().count());
            ctx.add(&ctx.transitions, want.lines().count());
            if !want.is_empty() {
                ctx.add(&ctx.nontrivial, 1);
            }
            if got != want {
                ctx.violate(|| Violation {
                    what: format!("header values differ: expected {:?} but got {:?} for <<{}>>", one_line(&want), one_line(&got), text(c).trim_end()),
                    files: files(c, code),
                });
            }
            ctx.sample(|| text(c).trim_end().replace('\n', " ; "));
        },
        &|_, c, f| match f {
            Fail::Uncompilable(m) => bad.lock().unwrap().push((c.clone(), m)),
            Fail::Rejected(m) => ctx.violate(|| Violation {
                what: format!("header lines are refused: {} for <<{}>>", one_line(&m), text(c).trim_end()),
                files: vec![("config.routes".into(), text(c))],
            }),
        },
    );
    // every one of these compiles when the headers arrive in every module in order
    for (c, m) in bad.into_inner().unwrap() {
        ctx.violate(|| Violation {
            what: format!("a header is missing from a module, altered or out of order: {} for <<{}>>", one_line(&m), text(&c).trim_end()),
            files: files(&c, &gen(&c).unwrap_or_default()),
        });
    }
    ctx.set("configurations", confs.len());
    ctx.finish(
        "exploration",
        "every sequence without repetition of up to 3 (4) of eight header lines (constants with odd text, types, uses, comments, functions, indented lines) with six module shapes, and sequences whose meaning depends on their order, written as files with and without blank lines, and five literals which go on over lines with blanks at their ends; compiled code reads every header's item out of every module; also: near-equal lines (every edit of one character); every two of twenty features of one place together (S7; thorough: every four at their extremes); non-trivial: there is something to read",
        &["the items are read through rustc, not by looking at the text"],
    )
}

/// Code reading every header's item in every module, and what it must print.
fn header_glue(c: &Conf, multi: &[(Vec<String>, String, String)]) -> (String, String) {
    let mut mods: BTreeSet<String> = BTreeSet::new();
    mods.insert("routes".into());
    for a in actions(c) {
        let mut p = String::from("routes");
        for m in &a.target[..a.target.len() - 1] {
            p.push_str("::");
            p.push_str(&snake(m));
            mods.insert(p.clone());
        }
    }
    let (mut g, mut w) = (String::new(), String::new());
    for m in &mods {
        if let Some((_, e, v)) = multi.iter().find(|x| x.0 == c.headers) {
            g.push_str(&format!("out.push_str(&format!(\"l {{}}\\n\", {}));\n", e.replace("{}::", &format!("{}::", m))));
            w.push_str(&format!("l {}\n", v));
        }
        for (i, h) in c.headers.iter().enumerate() {
            if let Some((_, e, v)) = HEADS.iter().find(|x| x.0 == h) {
                g.push_str(&format!(
                    "out.push_str(&format!(\"{{}} {{}}\\n\", {}, {}));\n",
                    i,
                    e.replace("{}", m)
                ));
                w.push_str(&format!("{} {}\n", i, v));
            } else if let Some(r) = h.strip_prefix("pub const Z") {
                let n = r.split(':').next().unwrap();
                let val = h.trim_end_matches(';').rsplit(' ').next().unwrap();
                g.push_str(&format!("out.push_str(&format!(\"{} {{}}\\n\", {}::Z{}));\n", i, m, n));
                w.push_str(&format!("{} {}\n", i, val));
            } else if let Some(r) = h.strip_prefix("pub const O") {
                let n = r.split(':').next().unwrap();
                let val = c.headers[i - 1].split("=> { ").nth(1).unwrap().split(' ').next().unwrap();
                g.push_str(&format!("out.push_str(&format!(\"{} {{}}\\n\", {}::O{}));\n", i, m, n));
                w.push_str(&format!("{} {}\n", i, val));
            }
        }
    }
    (g, w)
}

// ---------------------------------------------------------------------- C22

fn api_glue(c: &Conf) -> String {
    let mut g = String::new();
    for a in actions(c).iter().filter(|a| !a.redirect) {
        let mut fields = String::new();
        for x in a.params() {
            fields.push_str(&format!("{}: {}, ", x.name, domain(x.ty, c)[0].0));
        }
        for x in &a.qp {
            fields.push_str(&format!("{}: None, ", x.name));
        }
        g.push_str(&format!(
            "{{ let r = {}; let same = r == {}; out.push_str(&format!(\"{{:?}} {{}}\\n\", r, same)); }}\n",
            rust_wrap(&a.target, &format!("{} {{ {} }}", rust_type(&a.target), fields)),
            rust_wrap(&a.target, &format!("{} {{ {} }}", rust_type(&a.target), fields))
        ));
    }
    // every variant is there and no other: an exhaustive match at every level
    let mut levels: Vec<(Vec<String>, BTreeSet<String>)> = vec![];
    for a in actions(c).iter().filter(|a| !a.redirect) {
        for i in 0..a.target.len() {
            let pre = a.target[..i].to_vec();
            let v = caps(&a.target[i]);
            match levels.iter_mut().find(|x| x.0 == pre) {
                Some(x) => {
                    x.1.insert(v);
                }
                None => levels.push((pre, [v].into_iter().collect())),
            }
        }
    }
    for (k, (pre, vars)) in levels.iter().enumerate() {
        let mut p = String::from("routes");
        for m in pre {
            p.push_str("::");
            p.push_str(&snake(m));
        }
        g.push_str(&format!("fn all{}(r: {}::Route) {{ match r {{ ", k, p));
        for v in vars {
            g.push_str(&format!("{}::Route::{}(_) => (), ", p, v));
        }
        g.push_str("} }\n");
    }
    g.push_str("fn take(m: routes::Match<routes::Route>) -> u8 { match m { routes::Match::NotFound => 0, routes::Match::NotAllowed => 1, routes::Match::Route(_) => 2, routes::Match::Redirect(_) => 3 } }\n");
    g.push_str("fn is_error<E: std::error::Error + std::fmt::Display + std::fmt::Debug + 'static>() {} is_error::<routes::Error>();\n");
    g.push_str("let _: Result<routes::Match<routes::Route>, routes::Error> = routes::match_route(\"/\", \"GET\");\n");
    g.push_str("let _ = (routes::match_route(String::from(\"/\"), b\"GET\"), routes::match_route(vec![47u8], &b\"GET\"[..]));\n");
    g
}

pub fn c22(ctx: &Ctx) -> i32 {
    let t = ctx.thorough;
    let mut confs = name_confs(t);
    confs.extend(module_confs(t).into_iter().map(|x| x.0));
    confs.extend(path_confs(false).into_iter().step_by(if t { 1 } else { 9 }));
    confs.extend(redirect_confs(false).into_iter().filter(consistent).step_by(if t { 3 } else { 31 }));
    confs.extend(query_confs(false).into_iter().step_by(if t { 5 } else { 41 }));
    confs.extend(pairs(t));
    confs.extend(typed_confs());
    // every way to write a name of up to three words
    let words = ["a", "bc", "x1", "2", "9z"];
    for seq in seqs(&words, 3).into_iter().filter(|x| !x.is_empty() && !x[0].starts_with(|c: char| c.is_ascii_digit())) {
        let under = seq.join("_");
        let camel: String = seq.iter().map(|w| caps(w)).collect();
        for n in [under, camel] {
            confs.push(number(with(
                vec![res(M::Get, &n)],
                vec![(s("x"), with(vec![res(M::Get, &format!("M{}::{}", n, n))], vec![]))],
            )));
        }
    }
    // far out: actions and modules in one module, nesting, long names
    for &n in if t { &[9, 16, 17, 26, 27, 32, 33, 64, 65, 100, 128, 129, 257][..] } else { &[9, 17, 27, 33, 65, 129][..] } {
        let many = |f: &dyn Fn(usize) -> String| -> Conf {
            number(inner((0..n).map(|i| (s(&format!("p{}", i)), with(vec![res(METHODS[i % 4], &f(i))], vec![]))).collect()))
        };
        confs.push(many(&|i| format!("Act{}", (i * 37) % 1009)));
        confs.push(many(&|i| format!("M::Act{}", (i * 37) % 1009)));
        confs.push(many(&|i| format!("Mod{}::Show", (i * 37) % 1009)));
        confs.push(many(&|i| format!("Out::Mod{}::show_it{}", i / 2, i)));
        confs.push(many(&|i| format!("{}{}", "Long".repeat(i / 4 + 1), i)));
        if n <= 65 {
            let chain: Vec<String> = (0..n).map(|i| format!("M{}", i)).collect();
            confs.push(number(inner(vec![
                (s("a"), with(vec![res(M::Get, &format!("{}::Deep", chain.join("::")))], vec![])),
                (s("b"), with(vec![res(M::Put, &format!("{}::half_way", chain[..n / 2].join("::")))], vec![])),
            ])));
            // one word of many parts, a struct with many fields
            let parts = vec!["ab"; n].join("_");
            let mut r = res(M::Get, &parts);
            r.qp = (0..n).map(|i| p(&format!("q{}", i), TYPES[i % 6])).collect();
            let mut node = with(vec![r], vec![]);
            for i in (0..n.min(20)).rev() {
                node = inner(vec![(d(&format!("v{}", i), TYPES[i % 6]), node)]);
            }
            confs.push(number(node));
            confs.push(number(with(vec![res(M::Get, &format!("{}::Show", parts))], vec![])));
        }
    }
    let confs = dedup(confs);
    let bad: Mutex<Vec<(Conf, String)>> = Mutex::new(vec![]);
    let job = Job {
        glue: &api_glue,
        outside: true,
        ..Job::new(&confs)
    };
    each_router(
        ctx,
        &job,
        &|_, c, r, code| {
            let got = r.glue();
            let mut want = String::new();
            for a in actions(c).iter().filter(|a| !a.redirect) {
                let mut f: Vec<(String, String)> = a
                    .params()
                    .iter()
                    .map(|x| (x.name.clone(), x.ty.parse(&domain(x.ty, c)[0].1).unwrap().debug))
                    .collect();
                for q in &a.qp {
                    f.push((q.name.clone(), "None".into()));
                }
                want.push_str(&format!("{} true\n", route_debug(&a.target, &f)));
                ctx.add(&ctx.states, 1);
            }
            ctx.eval(1);
            if actions(c).iter().any(|a| a.target.len() > 1) {
                ctx.add(&ctx.nontrivial, 1);
            }
            if got != want {
                ctx.violate(|| Violation {
                    what: format!("the generated types print or compare wrongly: expected {:?} but got {:?} for <<{}>>", one_line(&want), one_line(&got), text(c).trim_end()),
                    files: files(c, code),
                });
            }
            ctx.sample(|| text(c).trim_end().replace('\n', " ; "));
        },
        &|_, c, f| match f {
            Fail::Uncompilable(m) => bad.lock().unwrap().push((c.clone(), m)),
            _ => ctx.add(&ctx.skipped, 1),
        },
    );
    glue_only_failures(ctx, bad.into_inner().unwrap(), &|c, m| {
        ctx.violate(|| Violation {
            what: format!("the generated module does not offer the declared names: {} for <<{}>>", one_line(m), text(c).trim_end()),
            files: vec![
                ("config.routes".into(), text(c)),
                ("routes.rs".into(), gen(c).unwrap_or_default()),
                ("glue.rs".into(), api_glue(c)),
            ],
        })
    });
    ctx.set("configurations", confs.len());
    ctx.finish(
        "exploration",
        "ten spellings of names in all pairs as modules and actions, every name of up to three words in both spellings, module depth up to 8, and a grid over the other families; compiled code names every module, request struct and field, matches every Route enum exhaustively, and uses match_route, Match and Error as documented; also: up to 129 (257) resources, modules and submodules in one module, 65 levels of modules, names of hundreds of characters; every further type; the modules are used from another crate; every two of twenty features of one place together (S7; thorough: every four at their extremes); non-trivial: there are submodules",
        &["rustc accepts the names only if they exist as declared"],
    )
}

// ---------------------------------------------------------------------- C23

/// The configuration listing in the generated documentation, and the lines
/// which tell what each request struct is for.
fn listing(code: &str) -> Option<String> {
    let mut out = String::new();
    let mut on = false;
    for l in code.lines() {
        let l = l.trim_start();
        if let Some(r) = l.strip_prefix("//!") {
            let r = r.strip_prefix(' ').unwrap_or(r);
            if r.starts_with("```") {
                if on {
                    return Some(out);
                }
                on = true;
            } else if on {
                out.push_str(r);
                out.push('\n');
            }
        } else if on {
            return None;
        }
    }
    None
}

/// What the documentation says each request struct renders for, with the
/// struct's path.
fn struct_docs(code: &str) -> Vec<String> {
    let mut out = vec![];
    // the modules around the line, with the indentation of their braces
    let mut stack: Vec<(usize, String)> = vec![];
    let mut doc: Option<String> = None;
    for l in code.lines().skip_while(|l| !l.contains("#![allow")) {
        let x = l.trim_start();
        let depth = l.len() - x.len();
        if let Some(r) = x.strip_prefix("/// Renders for `") {
            doc = Some(r.trim_end().trim_end_matches("`.").to_string());
        } else if let Some(r) = x.strip_prefix("pub mod ") {
            stack.push((depth, r.split(' ').next().unwrap().to_string()));
        } else if x == "}" && stack.last().map_or(false, |m| m.0 == depth) {
            stack.pop();
        } else if let Some(r) = x.strip_prefix("pub struct ") {
            if let Some(d) = doc.take() {
                let name: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                let mut p: Vec<&str> = stack.iter().map(|m| m.1.as_str()).collect();
                p.push(&name);
                out.push(format!("{}: {}", p.join("::"), d));
            }
        }
    }
    out
}

/// Configurations of hundreds of lines, and of long lines.
fn long_confs(t: bool) -> Vec<Conf> {
    let mut v = vec![];
    for n in if t { vec![60, 100, 101, 255, 256, 257, 400, 1000, 2000] } else { vec![101, 260, 700] } {
        let kids = |k: usize| -> Vec<(Seg, Node)> {
            (0..n)
                .map(|i| {
                    let mut a = with(vec![anon(METHODS[i % 4])], vec![]);
                    if i % 3 == k {
                        a.kids.push((dy(Ty::Id), leaf()));
                    }
                    (s(&format!("p{}", i)), a)
                })
                .collect()
        };
        v.push(number(inner(kids(0))));
        v.push(number(with(vec![anon(M::Get)], vec![(s("a"), inner(kids(1))), (d("x", Ty::U8), inner(kids(2)))])));
        v.push(number(inner(
            (0..n).map(|i| (s(&format!("p{}", i)), with(vec![res(M::Get, &format!("M{}::N{}::Show", i % 7, i))], vec![]))).collect(),
        )));
        v.push(number(inner(
            (0..n)
                .map(|i| (s(&format!("p{}", i)), with(vec![if i == 0 { res(M::Get, "Home") } else { redir(M::Get, "Home") }], vec![])))
                .collect(),
        )));
    }
    for n in if t { vec![40, 64, 79, 80, 100, 128, 200, 255, 256, 1000] } else { vec![64, 80, 256] } {
        let w = "x".repeat(n);
        let mut r = res(M::Get, &format!("M{}::N{}::A{}", w, w, w));
        r.qp = (0..n / 8).map(|i| p(&format!("q{}", i), Ty::U8)).collect();
        v.push(number(inner(vec![
            (s(&w), with(vec![r], vec![(d(&format!("y{}", w), Ty::Str), leaf())])),
            (d(&w, Ty::U8), leaf()),
        ])));
    }
    // deep: the indentation grows
    for n in if t { vec![20, 60, 120] } else { vec![20, 40] } {
        let mut node = leaf();
        for k in 0..n {
            let seg = if k % 3 == 2 { d(&format!("v{}", k), Ty::U8) } else { s(&format!("s{}", k)) };
            node = with(vec![anon(M::Get)], vec![(seg, node)]);
        }
        v.push(number(node));
    }
    v
}

pub fn c23(ctx: &Ctx) -> i32 {
    let mut confs = wellformed(ctx.thorough);
    confs.extend(long_confs(ctx.thorough));
    confs.extend(crossed(3, false));
    let seen: Mutex<HashSet<String>> = Mutex::new(HashSet::new());
    par(&confs, |_, c| {
        let code = match gen(c) {
            Ok(code) => code,
            Err(_) => {
                ctx.add(&ctx.skipped, 1);
                return;
            }
        };
        ctx.eval(1);
        ctx.add(&ctx.traces, 1);
        let bare = Conf {
            headers: vec![],
            root: c.root.clone(),
        };
        let want = text(&bare);
        let got = listing(&code).unwrap_or_default();
        if want.lines().count() > 2 {
            ctx.add(&ctx.nontrivial, 1);
        }
        let report = |what: &str, got: &str| {
            ctx.violate(|| Violation {
                what: format!("{}: {:?} for <<{}>>", what, one_line(got), text(c).trim_end()),
                files: files(c, &code),
            })
        };
        if got != want {
            report("the listing in the module documentation is not the configuration", &got);
        }
        // one line per served resource: method and path, on the struct of its name
        let mut docs: Vec<String> = struct_docs(&code);
        docs.sort();
        let mut wants: Vec<String> = actions(c)
            .iter()
            .filter(|a| !a.redirect)
            .map(|a| {
                let path: Vec<String> = a
                    .path
                    .iter()
                    .map(|x| match x {
                        Seg::S(t) => t.clone(),
                        Seg::D(q) => format!("{{{}}}", q.name),
                    })
                    .collect();
                let mut name: Vec<String> = a.target.iter().map(|x| snake(x)).collect();
                *name.last_mut().unwrap() = caps(a.target.last().unwrap());
                format!("{}: {} /{}", name.join("::"), a.m.verb(), path.join("/"))
            })
            .collect();
        wants.sort();
        if docs != wants {
            report("the documentation of the request structs does not name their methods and paths", &docs.join(", "));
        }
        seen.lock().unwrap().insert(got);
        ctx.add(&ctx.states, 1);
        ctx.add(&ctx.transitions, wants.len());
    });
    ctx.set("distinct_listings", seen.into_inner().unwrap().len());
    for k in [7, confs.len() / 2] {
        ctx.sample(|| text(&confs[k]).trim_end().replace('\n', " ; "));
    }
    ctx.finish(
        "exploration",
        "every configuration of all families, configurations of hundreds of lines and of long lines, and deep ones: the listing inside the generated module documentation equals the configuration in the documented format, and the request structs' documentation names exactly the declared methods and paths; also: every three of twenty features of one place together (S7); non-trivial: more than one declaration",
        &["the listing is the fenced block of the module's inner doc comment"],
    )
}
