//! One run of one check: counters, known findings, violations, evidence.

use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub what: String,
    pub files: Vec<(String, String)>,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub verif: PathBuf,
    pub work: PathBuf,
    start: Instant,
    listed: BTreeMap<String, String>,
    seen: Mutex<BTreeMap<String, (u64, String)>>,
    bad: Mutex<Vec<Violation>>,
    pub nbad: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub evals: AtomicU64,
    pub nontrivial: AtomicU64,
    pub skipped: AtomicU64,
    pub extra: Mutex<BTreeMap<String, String>>,
    samples: Mutex<Vec<String>>,
    pub outcomes: Mutex<BTreeSet<String>>,
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool) -> Ctx {
        let verif = PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()));
        let work = verif.join("work").join(format!("{}-{}", prop, std::process::id()));
        let _ = fs::remove_dir_all(&work);
        fs::create_dir_all(&work).expect("work dir");
        let mut listed = BTreeMap::new();
        let kf = fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
        for line in kf.lines() {
            // finding: property=C01 key=K1 text
            if let Some(r) = line.strip_prefix("finding: ") {
                let mut w = r.splitn(3, ' ');
                let pr = w.next().unwrap_or("");
                let key = w.next().unwrap_or("");
                let txt = w.next().unwrap_or("");
                if pr == format!("property={}", prop) {
                    if let Some(k) = key.strip_prefix("key=") {
                        listed.insert(k.to_string(), txt.to_string());
                    }
                }
            }
        }
        Ctx {
            prop: prop.into(),
            thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            verif,
            work,
            start: Instant::now(),
            listed,
            seen: Default::default(),
            bad: Default::default(),
            nbad: AtomicU64::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            evals: AtomicU64::new(0),
            nontrivial: AtomicU64::new(0),
            skipped: AtomicU64::new(0),
            extra: Default::default(),
            samples: Default::default(),
            outcomes: Default::default(),
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn add(&self, c: &AtomicU64, n: usize) {
        c.fetch_add(n as u64, Relaxed);
    }
    pub fn eval(&self, n: usize) {
        self.add(&self.evals, n)
    }
    pub fn set(&self, k: &str, v: impl ToString) {
        self.extra.lock().unwrap().insert(k.into(), v.to_string());
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut g = self.samples.lock().unwrap();
        if g.len() < 8 {
            let t = s();
            if !g.contains(&t) {
                g.push(t);
            }
        }
    }
    /// A failure explained by a listed finding; anything unlisted is a violation.
    pub fn known(&self, key: &str, v: impl FnOnce() -> Violation) {
        if self.listed.contains_key(key) {
            let mut g = self.seen.lock().unwrap();
            match g.get_mut(key) {
                Some(e) => e.0 += 1,
                None => {
                    let w = v().what;
                    g.insert(key.into(), (1, w));
                }
            }
        } else {
            self.violate(v)
        }
    }
    pub fn violate(&self, v: impl FnOnce() -> Violation) {
        let n = self.nbad.fetch_add(1, Relaxed);
        if n < 5 {
            self.bad.lock().unwrap().push(v());
        }
    }
    pub fn write_replay(&self, n: usize, v: &Violation) -> PathBuf {
        let dir = self.verif.join("replay").join(format!("{}-{}", self.prop, n));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).expect("replay dir");
        fs::write(dir.join("what.txt"), format!("{}\n", v.what)).unwrap();
        for (f, c) in &v.files {
            fs::write(dir.join(f), c).unwrap();
        }
        dir
    }
    /// Writes the evidence and the verdict; returns the exit code.
    pub fn finish(&self, level: &str, rule: &str, assumptions: &[&str]) -> i32 {
        let seen = self.seen.lock().unwrap();
        let bad = self.bad.lock().unwrap();
        let g = |c: &AtomicU64| c.load(SeqCst);
        // the counts its level asks for, then those which say something else
        let mut cov: Vec<(String, String)> = vec![];
        let counts = [
            ("evaluations", g(&self.evals)),
            ("distinct_nontrivial", g(&self.nontrivial)),
            ("states", g(&self.states)),
            ("transitions", g(&self.transitions)),
            ("traces_validated_against_impl", g(&self.traces)),
            ("distinct_observed_outcomes", self.outcomes.lock().unwrap().len() as u64),
            ("cases_skipped_because_generation_or_compilation_failed", g(&self.skipped)),
        ];
        let order: Vec<usize> = if level == "model_checking" { vec![2, 3, 4, 0, 1, 5, 6] } else { vec![0, 1, 2, 3, 4, 5, 6] };
        let must = if level == "model_checking" { 3 } else { 2 };
        let mut had: BTreeSet<u64> = BTreeSet::new();
        for (k, n) in order.into_iter().enumerate() {
            let (name, v) = counts[n];
            let fresh = had.insert(v);
            if k < must || v > 0 && fresh {
                cov.push((name.into(), v.to_string()));
            }
        }
        cov.push(("rule".into(), esc(rule)));
        for (k, v) in self.extra.lock().unwrap().iter() {
            if let Ok(n) = v.parse::<u64>() {
                if n > 3 && !had.insert(n) {
                    continue;
                }
            }
            let v = if v.parse::<f64>().is_ok() || v == "true" || v == "false" { v.clone() } else { esc(v) };
            cov.push((k.clone(), v));
        }
        let samples = self.samples.lock().unwrap();
        cov.push((
            "samples".into(),
            format!("[{}]", samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")),
        ));
        cov.push((
            "known_findings_reproduced".into(),
            format!(
                "[{}]",
                seen.iter()
                    .map(|(k, (n, w))| esc(&format!("{} x{}: {}", k, n, w)))
                    .collect::<Vec<_>>()
                    .join(", ")
            ),
        ));
        let json = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            esc(&self.prop),
            esc(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            esc(level),
            cov.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(",\n  "),
            assumptions.iter().map(|a| esc(a)).collect::<Vec<_>>().join(", "),
            self.elapsed(),
            g(&self.nbad)
        );
        let _ = fs::create_dir_all(self.verif.join("evidence"));
        fs::write(self.verif.join("evidence").join(format!("{}.json", self.prop)), json).expect("evidence");
        let _ = fs::remove_dir_all(&self.work);
        println!(
            "{}: states={} transitions={} traces={} evaluations={} nontrivial={} skipped={} wall={:.1}s",
            self.prop,
            g(&self.states),
            g(&self.transitions),
            g(&self.traces),
            g(&self.evals),
            g(&self.nontrivial),
            g(&self.skipped),
            self.elapsed()
        );
        for (k, txt) in &self.listed {
            if let Some((n, w)) = seen.get(k) {
                println!("KNOWN-FINDING: property={} {} {} ({} times; e.g. {})", self.prop, k, txt, n, one_line(w));
            }
        }
        if bad.is_empty() {
            return 0;
        }
        for (n, v) in bad.iter().enumerate() {
            let dir = self.write_replay(n, v);
            println!("  {}", one_line(&v.what));
            println!("VIOLATION property={} replay={}", self.prop, dir.display());
        }
        1
    }
}

pub fn one_line(s: &str) -> String {
    let t = s.replace('\n', " | ");
    if t.chars().count() > 600 {
        t.chars().take(600).collect::<String>() + "..."
    } else {
        t
    }
}

// ------------------------------------------------------------------ watching

/// What each thread is having the code under test do, in memory shared with
/// the supervising process, so that a hang or a crash can be put down to it.
pub mod slots {
    use std::cell::Cell;
    use std::os::raw::{c_int, c_void};
    use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};

    extern "C" {
        fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    }
    pub const N: usize = 64;
    pub const SZ: usize = 8192;
    static BASE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    pub static TICK: AtomicU64 = AtomicU64::new(1);
    thread_local!(static MINE: Cell<usize> = const { Cell::new(usize::MAX) });

    pub fn open(path: &std::path::Path) {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("slots");
        f.set_len((N * SZ) as u64).expect("slots size");
        let b = unsafe { mmap(std::ptr::null_mut(), N * SZ, 3, 1, f.as_raw_fd(), 0) };
        assert!(b as isize != -1, "mmap");
        BASE.store(b as *mut u8, SeqCst);
    }
    fn mine() -> Option<*mut u8> {
        let b = BASE.load(Relaxed);
        if b.is_null() {
            return None;
        }
        let i = MINE.with(|m| {
            if m.get() == usize::MAX {
                m.set(NEXT.fetch_add(1, SeqCst) % N);
            }
            m.get()
        });
        Some(unsafe { b.add(i * SZ) })
    }
    /// layout: u64 tick (0 = idle), u64 len, bytes
    pub fn enter(parts: &[&[u8]]) {
        if let Some(s) = mine() {
            unsafe {
                let mut n = 0;
                for p in parts {
                    let l = p.len().min(SZ - 16 - n);
                    std::ptr::copy_nonoverlapping(p.as_ptr(), s.add(16 + n), l);
                    n += l;
                }
                (s.add(8) as *mut u64).write_volatile(n as u64);
                (s as *mut u64).write_volatile(TICK.load(Relaxed));
            }
        }
    }
    pub fn leave() {
        if let Some(s) = mine() {
            unsafe { (s as *mut u64).write_volatile(0) }
        }
    }
    /// busy slots: (tick, what)
    pub fn busy() -> Vec<(u64, String)> {
        let b = BASE.load(SeqCst);
        let mut v = vec![];
        for i in 0..N {
            unsafe {
                let s = b.add(i * SZ);
                let t = (s as *const u64).read_volatile();
                if t != 0 {
                    let n = ((s.add(8) as *const u64).read_volatile() as usize).min(SZ - 16);
                    let bytes = std::slice::from_raw_parts(s.add(16), n).to_vec();
                    v.push((t, String::from_utf8_lossy(&bytes).into_owned()));
                }
            }
        }
        v
    }
}

/// Runs code under test with the slot set, turning a panic into its message.
pub fn probe<T>(parts: &[&[u8]], f: impl FnOnce() -> T) -> Result<T, String> {
    slots::enter(parts);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    slots::leave();
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

/// Runs `f` over the items on all cores.
pub fn par<T: Sync>(items: &[T], f: impl Fn(usize, &T) + Sync) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, SeqCst);
                    if k >= items.len() {
                        break;
                    }
                    f(k, &items[k]);
                })
                .unwrap();
        }
    });
}
