//! Runs the real generator and compiler on configurations, asks the routers
//! they make, and compares with the reference model.

use crate::compile::{self, Built, Router, Unit};
use crate::ctx::{par, probe, slots, Ctx, Violation};
use crate::model::*;
use std::collections::HashSet;
use std::sync::Mutex;

pub fn real_code(cfg: &wayfinder::RouteConfig) -> Result<String, String> {
    let mut out: Vec<u8> = vec![];
    wayfinder::gen::codegen(&mut out, cfg).map_err(|e| format!("codegen error: {}", e))?;
    String::from_utf8(out).map_err(|e| e.to_string())
}

/// What the code generator makes of a configuration.
pub fn gen(c: &Conf) -> Result<String, String> {
    let cfg = wf_conf(c);
    let t = text(c);
    match probe(&[b"codegen of: ", t.as_bytes()], || real_code(&cfg)) {
        Ok(r) => r,
        Err(p) => Err(format!("codegen panicked: {}", p)),
    }
}

/// Generated text without its comments, which no answer depends on.
pub fn bare(code: &str) -> String {
    let mut o = String::with_capacity(code.len());
    for l in code.lines() {
        if !l.trim_start().starts_with("//") {
            o.push_str(l);
            o.push('\n');
        }
    }
    o
}

/// Configurations of which the generator makes the same module (comments
/// aside) give the same answers: of each class the first one is kept, of at
/// most `cap` classes.  Returns also how many were merged.
pub fn consed(confs: &[Conf], cap: usize) -> (Vec<Conf>, usize) {
    let texts: Mutex<Vec<Option<(u64, u64)>>> = Mutex::new(vec![None; confs.len()]);
    par(confs, |i, c| {
        if let Ok(code) = gen(c) {
            use std::hash::{Hash, Hasher};
            let b = bare(&code);
            let h = |salt: u8| {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                salt.hash(&mut h);
                b.hash(&mut h);
                h.finish()
            };
            texts.lock().unwrap()[i] = Some((h(1), h(2)));
        }
    });
    let mut seen = HashSet::new();
    let mut out = vec![];
    for (c, t) in confs.iter().zip(texts.into_inner().unwrap()) {
        // refused ones are kept: that they are is for the caller to see
        if out.len() < cap && t.map_or(true, |t| seen.insert(t)) {
            out.push(c.clone());
        }
    }
    let merged = confs.len() - out.len();
    (out, merged)
}

pub enum Fail {
    Rejected(String),
    Uncompilable(String),
}

pub struct Job<'a> {
    pub confs: &'a [Conf],
    pub edition: &'a str,
    /// the generated code, usually `gen` of the configuration
    pub code: &'a (dyn Fn(usize, &Conf) -> Result<String, String> + Sync),
    pub glue: &'a (dyn Fn(&Conf) -> String + Sync),
    /// used from another crate
    pub outside: bool,
}
impl<'a> Job<'a> {
    pub fn new(confs: &'a [Conf]) -> Job<'a> {
        Job {
            confs,
            edition: "2021",
            code: &gen_at,
            glue: &no_glue,
            outside: false,
        }
    }
}
fn gen_at(_: usize, c: &Conf) -> Result<String, String> {
    gen(c)
}

/// Builds a router for every configuration and hands each to `f`.
pub fn each_router(
    ctx: &Ctx,
    job: &Job,
    f: &(dyn Fn(usize, &Conf, &Router, &str) + Sync),
    fail: &(dyn Fn(usize, &Conf, Fail) + Sync),
) {
    let batch = 1200;
    let mut base = 0;
    for chunk in job.confs.chunks(batch) {
        let codes: Mutex<Vec<Option<Unit>>> = Mutex::new(chunk.iter().map(|_| None).collect());
        par(chunk, |i, c| {
            let u = match (job.code)(base + i, c) {
                Ok(code) => Unit {
                    code,
                    glue: (job.glue)(c),
                    outside: job.outside,
                },
                Err(e) => {
                    fail(base + i, c, Fail::Rejected(e));
                    Unit::default()
                }
            };
            codes.lock().unwrap()[i] = Some(u);
        });
        let units: Vec<Unit> = codes.into_inner().unwrap().into_iter().map(|u| u.unwrap()).collect();
        let built = compile::build(&ctx.work, &units, true, job.edition);
        let idx: Vec<usize> = (0..chunk.len()).collect();
        par(&idx, |_, &i| match &built[i] {
            Built::Ok(r) => f(base + i, &chunk[i], r, &units[i].code),
            Built::Bad(m) => fail(base + i, &chunk[i], Fail::Uncompilable(m.clone())),
            Built::Skipped => {}
        });
        base += chunk.len();
    }
}

pub fn no_glue(_: &Conf) -> String {
    String::new()
}
pub fn skip_fail(ctx: &Ctx) -> impl Fn(usize, &Conf, Fail) + Sync + '_ {
    move |_, c, f| {
        ctx.add(&ctx.skipped, 1);
        if std::env::var("MC_LOUD").is_ok() {
            let m = match f {
                Fail::Rejected(m) | Fail::Uncompilable(m) => m,
            };
            eprintln!("skipped: {} <<{}>>", m, text(c).trim_end());
        }
    }
}

/// For families in which every configuration is well-formed and must give a
/// matcher: one which is refused, or whose module rustc refuses, answers nothing.
pub fn must_build<'a>(ctx: &'a Ctx) -> impl Fn(usize, &Conf, Fail) + Sync + 'a {
    move |_, c, f| {
        let (how, m) = match f {
            Fail::Rejected(m) => ("the generator refuses it", m),
            Fail::Uncompilable(m) => ("rustc refuses its module", m),
        };
        if how.starts_with("rustc") && !m.contains("error") {
            // rustc was killed, or something of that kind
            eprintln!("machinery: rustc gave no reason: {}", m);
            std::process::exit(3);
        }
        ctx.eval(1);
        ctx.violate(|| Violation {
            what: format!("there is no matcher to ask for the well-formed configuration <<{}>>: {}: {}", text(c).trim_end(), how, m),
            files: vec![("config.routes".into(), text(c))],
        });
    }
}

pub fn show(b: &[u8]) -> String {
    let mut o = String::from("\"");
    for c in b {
        match c {
            b'\\' => o.push_str("\\\\"),
            0x20..=0x7e => o.push(*c as char),
            _ => o.push_str(&format!("\\x{:02x}", c)),
        }
    }
    o.push('"');
    o
}

/// One question to one router, with the watchdog informed.
pub fn ask(c: &Conf, t: &str, r: &Router, path: &[u8], method: &[u8], buf: &mut Vec<u8>) -> String {
    let _ = c;
    slots::enter(&[b"match_route(path=", path, b", method=", method, b") in: ", t.as_bytes()]);
    let n = r.call(path, method, buf);
    slots::leave();
    String::from_utf8_lossy(&buf[..n]).into_owned()
}

/// A violation which can be replayed: the generated module and the question.
pub fn replayable(c: &Conf, code: &str, path: &[u8], method: &[u8], want: &str, got: &str, why: &str) -> Violation {
    let main = format!(
        "#![allow(warnings)]\npub mod ty {{ pub type Id = u8; pub type Name = String; pub struct Unused; }}\ninclude!(\"routes.rs\");\nfn main() {{\n    let path: &[u8] = &{:?};\n    let method: &[u8] = &{:?};\n    match routes::match_route(path, method) {{\n        Ok(routes::Match::Route(r)) => println!(\"R {{:?}} {{}}\", r, r.to_path()),\n        Ok(routes::Match::Redirect(r)) => println!(\"D {{:?}} {{}}\", r, r.to_path()),\n        other => println!(\"{{:?}}\", other),\n    }}\n}}\n",
        path, method
    );
    Violation {
        what: format!(
            "{}: path {} method {} in configuration <<{}>>: expected {} but got {}",
            why,
            show(path),
            show(method),
            text(c).trim_end(),
            show(want.as_bytes()),
            show(got.as_bytes())
        ),
        files: vec![
            ("config.routes".into(), text(c)),
            ("routes.rs".into(), code.into()),
            ("main.rs".into(), main),
            (
                "replay.sh".into(),
                "#!/bin/bash\n# compiles the module as it was generated and asks it the question\ncd \"$(dirname \"$0\")\" && rustc --edition 2021 --cap-lints allow main.rs -o main.bin && ./main.bin\n".into(),
            ),
        ],
    }
}

// -------------------------------------------------------------------- paths

pub fn alphabet(c: &Conf, extra: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = vec![b'/'];
    fn go(n: &Node, v: &mut Vec<u8>) {
        for (sg, k) in &n.kids {
            if let Seg::S(t) = sg {
                for b in t.bytes() {
                    if !v.contains(&b) {
                        v.push(b);
                    }
                }
            }
            go(k, v);
        }
    }
    go(&c.root, &mut v);
    for b in extra {
        if !v.contains(b) {
            v.push(*b);
        }
    }
    v
}

/// All strings over `sigma` of length `0..=max`.
pub fn strings(sigma: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for i in from..to {
            for b in sigma {
                let mut t = out[i].clone();
                t.push(*b);
                out.push(t);
            }
        }
        from = to;
    }
    out
}

/// Parameter texts by type: valid ones, boundary ones, broken ones.
pub fn texts(ty: Ty) -> &'static [&'static str] {
    match ty {
        Ty::Str => &["q", "", " ", "%20", "a", "\u{e9}", "x-y.z", "..", "?a=b", "true", "-7", "+", "q q", "{}", "{0}", "\"", "\\", "index.html", "a.b.json", ".", "@me", "*", ":id", "null", "0", "a,b;c", "a=b&c=d", "#x", "A", "q_"],
        Ty::U8 | Ty::Id => &["7", "", "0", "255", "256", "-1", "+7", "007", " 7", "7 ", "x", "7x", "1e1", "\u{663}"],
        Ty::I32 => &["-7", "", "0", "2147483647", "2147483648", "-2147483648", "-2147483649", "-", "+5", "--5", "5.0"],
        Ty::Usize => &["12", "", "18446744073709551615", "18446744073709551616", "-1", "0x10"],
        Ty::Bool => &["true", "false", "", "True", "1", "truefalse", "tru"],
        Ty::U16 => &["300", "65535", "65536", "-1", "+3", "0300", ""],
        Ty::U32 => &["300", "4294967295", "4294967296", "-1", "+3", "0300", ""],
        Ty::U64 => &["300", "18446744073709551615", "18446744073709551616", "-1", "+3", "0300", ""],
        Ty::U128 => &["300", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "-1", "+3", "0300", ""],
        Ty::I8 => &["-8", "127", "128", "-128", "-129", "-", "-0", ""],
        Ty::I16 => &["-8", "32767", "32768", "-32768", "-32769", "-", "-0", ""],
        Ty::I64 => &["-8", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "-", "-0", ""],
        Ty::I128 => &["-8", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "-", "-0", ""],
        Ty::Isize => &["-8", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "-", "-0", ""],
        Ty::Ipv4Addr => &["10.0.0.1", "", "10.0.0.256", "1.2.3", "::1", "010.0.0.1"],
        Ty::Slug => &["a-slug", "", "A", "-", "a_b", "\u{e9}"],
        Ty::Level => &["high", "", "low", "0", "1", "High", "2"],
        Ty::Char => &["k", "", "kk", "\u{e9}", "\u{1f600}", " ", "%"],
    }
}

/// Declared paths with sample parameter texts.
pub fn instances(c: &Conf) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = vec![];
    fn go(n: &Node, pre: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
        out.push(pre.clone());
        for (sg, k) in &n.kids {
            pre.push(match sg {
                Seg::S(t) => t.clone(),
                Seg::D(x) => x.ty.sample().to_string(),
            });
            go(k, pre, out);
            pre.pop();
        }
    }
    go(&c.root, &mut vec![], &mut out);
    out
}
/// The same with every parameter in turn taking every text of its type.
pub fn variants(c: &Conf) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = vec![];
    fn go(n: &Node, pre: &mut Vec<String>, varied: bool, out: &mut Vec<Vec<String>>) {
        out.push(pre.clone());
        for (sg, k) in &n.kids {
            match sg {
                Seg::S(t) => {
                    pre.push(t.clone());
                    go(k, pre, varied, out);
                    pre.pop();
                }
                Seg::D(x) => {
                    for (i, t) in texts(x.ty).iter().enumerate() {
                        if i > 0 && varied {
                            break;
                        }
                        pre.push(t.to_string());
                        go(k, pre, varied || i > 0, out);
                        pre.pop();
                    }
                }
            }
        }
    }
    go(&c.root, &mut vec![], false, &mut out);
    out
}

pub struct PathOpts {
    /// all strings over the alphabet up to this length
    pub chars: usize,
    /// declared paths and all their prefixes, extended by strings up to this length
    pub ext: usize,
    pub edits: bool,
    pub variants: bool,
    pub extra: Vec<u8>,
    pub cap_alphabet: usize,
}
impl Default for PathOpts {
    fn default() -> PathOpts {
        PathOpts {
            chars: 4,
            ext: 1,
            edits: true,
            variants: true,
            extra: vec![b'z'],
            cap_alphabet: 7,
        }
    }
}

fn join(segs: &[String]) -> Vec<u8> {
    let mut v = vec![];
    for t in segs {
        v.push(b'/');
        v.extend_from_slice(t.as_bytes());
    }
    if v.is_empty() {
        v.push(b'/');
    }
    v
}

pub fn paths(c: &Conf, o: &PathOpts) -> Vec<Vec<u8>> {
    let mut set: HashSet<Vec<u8>> = HashSet::new();
    let mut out: Vec<Vec<u8>> = vec![];
    let mut push = |p: Vec<u8>| {
        if set.insert(p.clone()) {
            out.push(p);
        }
    };
    let sigma = alphabet(c, &o.extra);
    let small = sigma.len() <= o.cap_alphabet;
    if small {
        for t in strings(&sigma, o.chars) {
            let mut u = vec![b'/'];
            u.extend_from_slice(&t);
            push(t);
            push(u);
        }
    } else {
        for t in strings(&sigma, 1) {
            push(t);
        }
    }
    let ext = strings(if small { &sigma } else { b"/az" }, o.ext);
    let inst = instances(c);
    let words: Vec<String> = {
        let mut w: Vec<String> = inst.iter().flatten().cloned().collect();
        w.sort();
        w.dedup();
        w.truncate(12);
        w.push(String::new());
        w.push("zz".into());
        w
    };
    for segs in &inst {
        let full = join(segs);
        for n in 0..=full.len() {
            for e in &ext {
                let mut t = full[..n].to_vec();
                t.extend_from_slice(e);
                push(t);
            }
        }
        push(full[1..].to_vec());
        let mut t = full.clone();
        t.insert(0, b'/');
        push(t);
        for n in 1..full.len() {
            for b in [b'z', b'/', b'A'] {
                let mut t = full.clone();
                t[n] = b;
                push(t);
            }
            let mut t = full.clone();
            t.remove(n);
            push(t);
        }
        if o.edits {
            for i in 0..segs.len() {
                for w in &words {
                    let mut v = segs.clone();
                    v[i] = w.clone();
                    push(join(&v));
                    let mut v = segs.clone();
                    v.insert(i, w.clone());
                    push(join(&v));
                    let mut v = segs.clone();
                    v[i] = format!("{}{}", segs[i], w);
                    push(join(&v));
                    let mut v = segs.clone();
                    v[i] = format!("{}{}", w, segs[i]);
                    push(join(&v));
                }
                let mut v = segs.clone();
                v.remove(i);
                push(join(&v));
                let mut v = segs.clone();
                v[i] = v[i].to_uppercase();
                push(join(&v));
                let mut v = segs.clone();
                v[i].pop();
                push(join(&v));
            }
            for w in &words {
                let mut v = segs.clone();
                v.push(w.clone());
                push(join(&v));
                v.push(String::new());
                push(join(&v));
            }
        }
    }
    if o.variants {
        for segs in variants(c) {
            let p = join(&segs);
            let mut q = p.clone();
            q.push(b'/');
            push(p);
            push(q);
        }
    }
    out
}

// ------------------------------------------------------------------ judging

pub fn field(w: &str, n: usize) -> &str {
    w.split('\x1f').nth(n).unwrap_or("")
}

#[derive(Clone, Copy, PartialEq)]
pub enum Quirks {
    /// failures explained by a finding listed for this property
    Known,
    /// such failures belong to another property
    Elsewhere,
}

/// Compares one answer with the model's through a projection; `None` from
/// the projection of the expected answer means the case is not judged here.
pub struct Judge<'a> {
    pub ctx: &'a Ctx,
    pub why: &'a str,
    pub quirks: Quirks,
    pub proj: &'a (dyn Fn(&str) -> Option<String> + Sync),
}

impl<'a> Judge<'a> {
    pub fn one(&self, m: &Model, code: &str, path: &[u8], method: &[u8], got: &str) {
        let mut used = 0;
        let want = m.ask(path, method, 0, &mut used);
        if let Out::NotUtf8 { .. } = want {
            return; // totality is C04's
        }
        let ww = want.wire();
        let pw = match (self.proj)(&ww) {
            None => return,
            Some(p) => p,
        };
        self.ctx.eval(1);
        // a resource, and not a refusal of any kind
        if pw.len() > 1 && !pw.starts_with('E') {
            self.ctx.add(&self.ctx.nontrivial, 1);
        }
        let pg = (self.proj)(got).unwrap_or_else(|| got.to_string());
        if pg == pw {
            return;
        }
        let v = || replayable(m.conf, code, path, method, &ww, got, self.why);
        for q in [K1, K2, K1 | K2] {
            let mut used = 0;
            let alt = m.ask(path, method, q, &mut used).wire();
            let pa = (self.proj)(&alt).unwrap_or(alt);
            if used == q && pa == pg {
                if self.quirks == Quirks::Known {
                    for (bit, key) in [(K1, "K1"), (K2, "K2")] {
                        if used & bit != 0 {
                            self.ctx.known(key, v);
                        }
                    }
                }
                return;
            }
        }
        self.ctx.violate(v);
    }
}

/// Asks a router all the questions and judges the answers; keeps the counts.
pub fn explore(
    ctx: &Ctx,
    conf: &Conf,
    router: &Router,
    code: &str,
    paths: &[Vec<u8>],
    methods: &[&[u8]],
    j: &Judge,
) {
    let m = Model::new(conf);
    let t = text(conf);
    let mut states: HashSet<u64> = HashSet::new();
    let mut trans: HashSet<(u64, u8)> = HashSet::new();
    let mut outcomes: HashSet<String> = HashSet::new();
    let mut buf = vec![];
    for p in paths {
        states.insert(m.state(p));
        if let Some((b, pre)) = p.split_last() {
            trans.insert((m.state(pre), *b));
        }
        for me in methods {
            let got = ask(conf, &t, router, p, me, &mut buf);
            j.one(&m, code, p, me, &got);
            if outcomes.len() < 64 {
                outcomes.insert(got);
            }
        }
    }
    ctx.add(&ctx.states, states.len());
    ctx.add(&ctx.transitions, trans.len());
    ctx.add(&ctx.traces, paths.len() * methods.len());
    let mut g = ctx.outcomes.lock().unwrap();
    if g.len() < 100_000 {
        g.extend(outcomes);
    }
    drop(g);
    ctx.sample(|| format!("{} | {} paths, e.g. {}", t.trim_end().replace('\n', " ; "), paths.len(), show(&paths[paths.len() / 2])));
}
