//! Checks of whole processes: the builder, the command, the diagnostics.

use crate::ctx::{one_line, par, Ctx, Violation};
use crate::explore::real_code;
use std::collections::BTreeMap;
use std::fs;
use std::os::raw::{c_int, c_void};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::*};

fn bin(name: &str) -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join(name)
}

static SCRATCH: AtomicUsize = AtomicUsize::new(0);
pub fn scratch(ctx: &Ctx) -> PathBuf {
    let d = ctx.work.join(format!("run{}", SCRATCH.fetch_add(1, SeqCst)));
    fs::create_dir_all(&d).expect("scratch");
    d
}

fn text_of(o: &[u8]) -> String {
    String::from_utf8_lossy(o).into_owned()
}

/// The generated text for a route file, by the library itself.
fn expected(text: &str) -> Result<String, String> {
    match wayfinder::parse::route_config(text) {
        Ok((_, c)) => real_code(&c),
        Err(_) => Err("does not parse".into()),
    }
}

const GOOD: &str = "use std::fmt;\n\n/\n  GET Home\n\n  people\n    GET People::Index\n      [page: u32]\n\n    {id: u32}\n      GET People::Show\n      DELETE People::Destroy\n";
const GOOD2: &str = "/\n  a\n    GET A\n";
const BAD: &str = "/\n  GET Home\n\n  people\n    GET People::Index\n      [page u32]\n";
const CONFLICT: &str = "/\n  {a: u8}\n    GET A\n\n  {b: u8}\n    GET B\n";
const STALE: &str = "// stale output of an earlier build, longer than anything generated\n";

// ---------------------------------------------------------------------- C18

#[derive(Clone, Copy, PartialEq, Debug)]
enum In {
    Text(&'static str),
    Config(usize),
    /// cannot be read
    None,
}

struct Case {
    ops: Vec<String>,
    stale: bool,
}

struct World {
    dir: PathBuf,
}
impl World {
    fn new(ctx: &Ctx, stale: bool) -> World {
        let dir = scratch(ctx);
        for base in [dir.clone(), dir.join("src"), dir.join("out")] {
            fs::create_dir_all(&base).unwrap();
            fs::write(base.join("good.routes"), GOOD).unwrap();
            fs::write(base.join("two.routes"), GOOD2).unwrap();
            fs::write(base.join("bad.routes"), BAD).unwrap();
            fs::write(base.join("conflict.routes"), CONFLICT).unwrap();
            fs::write(base.join("bytes.routes"), b"/\n  GET \xff\xfe\n").unwrap();
            fs::create_dir_all(base.join("dir.routes")).unwrap();
            if stale {
                fs::write(base.join("o.rs"), STALE.repeat(400)).unwrap();
            }
        }
        // the same name means something else in each place
        fs::write(dir.join("out").join("good.routes"), GOOD2).unwrap();
        World { dir }
    }
    fn files(&self) -> BTreeMap<PathBuf, Vec<u8>> {
        let mut v = BTreeMap::new();
        fn go(d: &Path, base: &Path, v: &mut BTreeMap<PathBuf, Vec<u8>>) {
            for e in fs::read_dir(d).unwrap() {
                let p = e.unwrap().path();
                if p.is_dir() {
                    go(&p, base, v)
                } else {
                    v.insert(p.strip_prefix(base).unwrap().to_path_buf(), fs::read(&p).unwrap());
                }
            }
        }
        go(&self.dir, &self.dir, &mut v);
        v
    }
    fn run(&self, exe: &str, args: &[String], env: &[(&str, &std::ffi::OsStr)]) -> Output {
        let mut c = Command::new(bin(exe));
        c.args(args).current_dir(&self.dir).env_remove("CARGO_MANIFEST_DIR").env_remove("OUT_DIR").stdin(Stdio::null());
        for (k, v) in env {
            c.env(k, v);
        }
        c.output().expect("spawn")
    }
}
impl Drop for World {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.dir);
    }
}

/// The model of one builder: what its calls add up to.
#[derive(Clone, Default)]
struct Bld {
    env: bool,
    src: Option<String>,
    dst: Option<String>,
}
impl Bld {
    fn input(&self) -> In {
        match self.src.as_deref() {
            Some(x) if x.ends_with("good.routes") => In::Text(GOOD),
            Some(x) if x.ends_with("two.routes") => In::Text(GOOD2),
            Some(x) if x.ends_with("bad.routes") => In::Text(BAD),
            Some(x) if x.ends_with("conflict.routes") => In::Text(CONFLICT),
            Some("ic:1") => In::Config(1),
            Some("ic:2") => In::Config(2),
            _ => In::None,
        }
    }
}

struct Codes {
    good: String,
    two: String,
    config: [String; 2],
}
impl Codes {
    fn of(&self, i: In) -> Option<String> {
        match i {
            In::Text(t) if t == GOOD => Some(self.good.clone()),
            In::Text(t) if t == GOOD2 => Some(self.two.clone()),
            In::Config(n) => Some(self.config[n - 1].clone()),
            _ => None,
        }
    }
}

/// Runs one history and compares the process and the files with the model.
fn history(ctx: &Ctx, case: &Case, codes: &Codes) {
    let w = World::new(ctx, case.stale);
    let before = w.files();
    let (msrc, mout) = (w.dir.join("src"), w.dir.join("out"));
    let ops: Vec<String> = case.ops.iter().map(|o| o.replace("@", &w.dir.display().to_string())).collect();
    let mut args = vec!["build".to_string()];
    args.extend(ops.iter().cloned());
    let out = w.run("bdrv", &args, &[("CARGO_MANIFEST_DIR", msrc.as_os_str()), ("OUT_DIR", mout.as_os_str())]);
    let after = w.files();
    let (so, se) = (text_of(&out.stdout), text_of(&out.stderr));
    ctx.eval(1);
    ctx.add(&ctx.traces, 1);
    ctx.add(&ctx.transitions, ops.len());

    // the model
    let mut b = Bld::default();
    let mut code = 0;
    let mut want_out = String::new();
    let mut want_files = before.clone();
    let mut cargo: Vec<String> = vec![];
    let mut any_env = false;
    let mut free: Vec<PathBuf> = vec![];
    let mut part = false;
    for o in &ops {
        match o.as_str() {
            "new" => b = Bld::default(),
            "env" => {
                b = Bld::default();
                b.env = true;
                any_env = true;
            }
            "os" => b.dst = Some("os".into()),
            x if x.starts_with("of:") => b.dst = Some(x.into()),
            x if x.starts_with("if:") || x.starts_with("ic:") => b.src = Some(x.into()),
            "build" => {
                let (src, dst) = match (&b.src, &b.dst) {
                    (Some(s), Some(d)) => (s.clone(), d.clone()),
                    _ => {
                        code = 101;
                        break;
                    }
                };
                if b.env && src.starts_with("if:") {
                    cargo.push(format!("cargo:rerun-if-changed={}", msrc.join(&src[3..]).display()));
                }
                let place = if dst == "os" {
                    None
                } else {
                    let base = if b.env { mout.clone() } else { w.dir.clone() };
                    Some(base.join(&dst[3..]))
                };
                let rel = place.as_ref().and_then(|p| p.strip_prefix(&w.dir).ok().map(|p| p.to_path_buf()));
                let text = match codes.of(b.input()) {
                    None => {
                        code = 101;
                        // refused only while generating: part of the text may be out by then
                        if b.input() == In::Text(CONFLICT) {
                            part = place.is_none();
                            free.extend(rel);
                        }
                        break;
                    }
                    Some(t) => t,
                };
                match (place, rel) {
                    (None, _) => want_out.push_str(&text),
                    (Some(p), Some(r)) => {
                        if p.parent().map_or(true, |d| !d.is_dir()) || p.is_dir() {
                            code = 101;
                            break;
                        }
                        want_files.insert(r, text.into_bytes());
                    }
                    _ => unreachable!(),
                }
            }
            _ => unreachable!(),
        }
    }
    if code == 0 {
        ctx.add(&ctx.nontrivial, 1);
    }

    let mut problems: Vec<String> = vec![];
    match out.status.code() {
        Some(c) if code == 0 && c != 0 => problems.push(format!("exit status {} instead of success; stderr: {}", c, se)),
        Some(0) if code != 0 => problems.push("the build reports success".into()),
        Some(c) if code == 101 && c != 101 => problems.push(format!("exit status {}", c)),
        None => problems.push(format!("ended by signal {:?}", out.status.signal())),
        _ => {}
    }
    if code != 0 && se.trim().is_empty() {
        problems.push("a failing build says nothing on standard error".into());
    }
    if code != 0 && se.contains("panicked at") {
        problems.push(format!("a failing build panics: {}", se));
    }
    // standard output: cargo's lines and generated text, nothing else
    let mut rest = String::new();
    let mut lines: Vec<String> = vec![];
    for l in so.split_inclusive('\n') {
        if l.starts_with("cargo:") && any_env {
            lines.push(l.trim_end_matches('\n').to_string());
        } else {
            rest.push_str(l);
        }
    }
    if code == 0 && rest != want_out {
        problems.push(format!("standard output is {:?} instead of {:?}", one_line(&rest), one_line(&want_out)));
    }
    if code != 0 && !part && !rest.is_empty() && !want_out.starts_with(&rest) {
        problems.push(format!("a failing build writes {:?} to standard output", one_line(&rest)));
    }
    let said: Vec<&String> = lines.iter().filter(|l| l.starts_with("cargo:rerun-if-changed=")).collect();
    if code == 0 {
        for l in &cargo {
            if !lines.contains(l) {
                problems.push(format!("no line {:?}", l));
            }
        }
    }
    for l in said {
        if !cargo.contains(l) {
            problems.push(format!("line {:?} names no input of the build", l));
        }
    }
    for (p, c) in &after {
        if free.contains(p) {
            continue;
        }
        match want_files.get(p) {
            None => problems.push(format!("file {} appears", p.display())),
            Some(x) if x != c => problems.push(format!("file {} has other contents: {:?}", p.display(), one_line(&text_of(c)))),
            _ => {}
        }
    }
    for p in want_files.keys() {
        if !after.contains_key(p) && !free.contains(p) {
            problems.push(format!("file {} is missing", p.display()));
        }
    }
    let mut g = ctx.outcomes.lock().unwrap();
    g.insert(format!("{:?} {} {} {}", out.status.code(), so.len(), se.len(), after.len()));
    drop(g);
    if !problems.is_empty() {
        ctx.violate(|| Violation {
            what: format!(
                "builder history [{}]{}: {}",
                case.ops.join(", "),
                if case.stale { " with an output file of an earlier build" } else { "" },
                problems.join("; ")
            ),
            files: vec![
                ("history.txt".into(), format!("{}\n", case.ops.join("\n"))),
                ("stdout.txt".into(), so.clone()),
                ("stderr.txt".into(), se.clone()),
                ("good.routes".into(), GOOD.into()),
                ("two.routes".into(), GOOD2.into()),
                ("bad.routes".into(), BAD.into()),
                ("conflict.routes".into(), CONFLICT.into()),
            ],
        });
    }
}

/// One file, by any name and with any content, through the builder and the command.
fn one_file(ctx: &Ctx, name: &str, content: &[u8], to: &str, how: usize) {
    let dir = scratch(ctx);
    let w = World { dir };
    for b in ["", "src", "out"] {
        let base = w.dir.join(b);
        for d in ["sub", "sub/deeper", "o.dir"] {
            fs::create_dir_all(base.join(d)).unwrap();
        }
        // what other names must not lead to
        for n in ["routes", "x.routes", "a.routes", "b.routes", "trail.routes", "lead.routes", "dot", "up.routes", "o.rs", "o", "index.routes"] {
            fs::write(base.join(n), GOOD2).unwrap();
        }
    }
    let from = if how == 3 { w.dir.join("src") } else { w.dir.clone() };
    fs::write(from.join(name), content).unwrap();
    let before = w.files();
    let (msrc, mout) = (w.dir.join("src"), w.dir.join("out"));
    let args: Vec<String> = match how {
        0 => vec![name.to_string()],
        1 => vec![from.join(name).display().to_string()],
        2 => ["build", "new", &format!("if:{}", name), &format!("of:{}", to), "build"].iter().map(|x| x.to_string()).collect(),
        3 => ["build", "env", &format!("of:{}", to), &format!("if:{}", name), "build"].iter().map(|x| x.to_string()).collect(),
        _ => ["build", "new", "os", &format!("if:{}", from.join(name).display()), "build"].iter().map(|x| x.to_string()).collect(),
    };
    let o = w.run(
        if how < 2 { "wfcmd" } else { "bdrv" },
        &args,
        &[("CARGO_MANIFEST_DIR", msrc.as_os_str()), ("OUT_DIR", mout.as_os_str())],
    );
    let after = w.files();
    ctx.eval(1);
    ctx.add(&ctx.traces, 1);
    let mut want_out = String::new();
    let mut want = before.clone();
    let code = std::str::from_utf8(content).ok().and_then(|t| expected(t).ok());
    if how == 3 {
        want_out = format!("cargo:rerun-if-changed={}\n", msrc.join(name).display());
    }
    if let Some(c) = &code {
        ctx.add(&ctx.nontrivial, 1);
        if how == 2 || how == 3 {
            let place = if how == 3 { mout.join(to) } else { w.dir.join(to) };
            // through `..` and `.`
            let place = place.parent().unwrap().canonicalize().unwrap().join(place.file_name().unwrap());
            want.insert(place.strip_prefix(w.dir.canonicalize().unwrap()).unwrap().to_path_buf(), c.clone().into_bytes());
        } else {
            want_out.push_str(c);
        }
    }
    let (so, se) = (text_of(&o.stdout), text_of(&o.stderr));
    let mut problems = vec![];
    if o.status.code() != Some(if code.is_some() { 0 } else { 101 }) {
        problems.push(format!("exit status {:?}", o.status));
    }
    if so != want_out && !(code.is_none() && so.is_empty()) {
        problems.push(format!("standard output is {:?} instead of {:?}", one_line(&so), one_line(&want_out)));
    }
    if code.is_none() && se.trim().is_empty() {
        problems.push("nothing on standard error".into());
    }
    if after != want {
        let odd: Vec<String> = after
            .keys()
            .chain(want.keys())
            .filter(|k| after.get(*k) != want.get(*k))
            .map(|k| k.display().to_string())
            .collect();
        problems.push(format!("these files are not as they should be: {:?}", odd));
    }
    if !problems.is_empty() {
        ctx.violate(|| Violation {
            what: format!(
                "{} of a file named {:?} with the content {:?}{}: {}; stderr {:?}",
                ["the command on the path", "the command on the absolute path", "a build", "a build from the environment", "a build to standard output"][how],
                name,
                one_line(&text_of(&content[..content.len().min(500)])),
                if how == 2 || how == 3 { format!(" to {:?}", to) } else { String::new() },
                problems.join("; "),
                one_line(&se)
            ),
            files: vec![("input.routes".into(), text_of(content)), ("args.txt".into(), args.join("\n"))],
        });
    }
}

fn file_kinds(ctx: &Ctx) {
    let names = [
        "a.routes", "a b.routes", " lead.routes", "trail.routes ", "\u{e9}.routes", "-x.routes", "--help", "-", "plain", "UP.ROUTES", "a.b.routes", "./dot.routes",
        "sub/x.routes", "sub/../b.routes", "sub//y.routes", "sub/deeper/z.routes", ".hidden", "tab\t.routes", "q'\".routes", "%20.routes", "$HOME.routes", "*.routes", "x.routes~",
        "a.routes.rs", "routes.txt", "index.routes", "a:b.routes", "a=b", "~", "C18",
    ];
    let tos = [
        "o.rs", "o", "o b.rs", "o.rs ", " o.rs", "sub/n.rs", "sub/deeper/n.rs", "./n.rs", "sub/../n.rs", "\u{e9}.rs", ".n", "-n.rs", "n.txt", "N.RS", "o.rs.rs", "n.tmp", "n:m.rs", "index.routes",
    ];
    let long = format!("/\n{}", (0..400).map(|i| format!("  seg{}\n    GET Act{}\n", i, i)).collect::<String>());
    let deep = format!("/\n{}", (1..60).map(|i| format!("{}s{}\n{}GET A{}\n", "  ".repeat(i), i, "  ".repeat(i + 1), i)).collect::<String>());
    let mut contents: Vec<Vec<u8>> = [
        GOOD, GOOD2, BAD, "", " ", "\n", "\n\n", "   \n  \n", "\t", "/", "/\n", "/\n\n", "//\n", "use x;\n", "use std::fmt;\n/\n", "GET A\n", "/\n  GET A", "/\n  GET A\nx\n", "/\n  GET A\n\n\n",
        "\n\n/\n\n  GET A\n", "/\r\n  GET A\r\n", "\u{feff}/\n  GET A\n", "/\n  GET A\n\0", "\0", "/\n  GET A\n ", "/\n  GET \u{e9}\n", "/\n  PATCH A\n", "/\n  a\n", "// only a comment\n",
    ]
    .iter()
    .map(|x| x.as_bytes().to_vec())
    .collect();
    contents.push(long.into_bytes());
    // beyond the sizes of buffers; each ends in something of its own
    for n in if ctx.thorough { &[300, 700, 1500, 3000, 6000, 12000, 25000][..] } else { &[700, 1500, 6000, 12000][..] } {
        contents.push(format!("/\n{}", (0..*n).map(|i| format!("  seg{}\n    GET Act{}\n", i, i)).collect::<String>()).into_bytes());
    }
    contents.push(format!("// {}\n/\n  GET A\n", "c".repeat(200_000)).into_bytes());
    contents.push(format!("/\n  GET A\n{}\n  {}\n    GET B\n", " \n".repeat(50_000), "s".repeat(70_000)).into_bytes());
    contents.push(deep.into_bytes());
    for b in [
        &b"\xff\xfe"[..], b"/\n  GET A\n\xff", b"\xef\xbb", b"/\n  GET \xc3\n",
        // these would be routes if their odd bytes were replaced or left out
        b"// \xff\n/\n  GET A\n", b"use a;\xff\n/\n  GET A\n", b"/\n  a\xffb\n    GET A\n", b"/\n  \xc3\n    GET A\n", b"/\n  GET A\xff\n", b"/\n  {p\xff: u8}\n    GET A\n",
        b"\xff/\n  GET A\n", b"/\n  GET A\n\xfe\xff", b"/\n  \xed\xa0\x80\n    GET A\n", b"\xff\xfe/\0\n\0", b"// \xe9t\xe9\n/\n  GET A\n",
    ] {
        contents.push(b.to_vec());
    }
    let mut jobs: Vec<(&str, &[u8], &str, usize)> = vec![];
    for how in 0..5 {
        for c in &contents {
            jobs.push(("a.routes", c, "o.rs", how));
            jobs.push(("sub/w.routes", c, "n.rs", how));
        }
        for n in names {
            for c in [GOOD, BAD, ""] {
                jobs.push((n, c.as_bytes(), "o.rs", how));
                if ctx.thorough {
                    for to in tos {
                        jobs.push((n, c.as_bytes(), to, how));
                    }
                }
            }
        }
        if how == 2 || how == 3 {
            for to in tos {
                for c in [GOOD, GOOD2, BAD] {
                    jobs.push(("a.routes", c.as_bytes(), to, how));
                }
            }
        }
    }
    ctx.add(&ctx.states, jobs.len());
    par(&jobs, |_, j| one_file(ctx, j.0, j.1, j.2, j.3));
}

/// Whatever the output file was before, a build leaves the whole module in it
/// and nothing else.
fn old_outputs(ctx: &Ctx, codes: &Codes) {
    let code = codes.good.as_bytes().to_vec();
    let mut olds: Vec<(String, Vec<u8>)> = vec![
        ("the empty file".into(), vec![]),
        ("the module itself".into(), code.clone()),
        ("another module".into(), codes.two.clone().into_bytes()),
        ("as many blanks".into(), vec![b' '; code.len()]),
        ("as many zeros".into(), vec![0; code.len()]),
        ("the module and a newline".into(), [&code[..], b"\n"].concat()),
        ("the module twice".into(), [&code[..], &code[..]].concat()),
        ("the module with other ends of lines".into(), codes.good.replace('\n', "\r\n").into_bytes()),
        ("the module in capitals".into(), codes.good.to_uppercase().into_bytes()),
        ("the lines of the module backwards".into(), {
            let mut l: Vec<&str> = codes.good.lines().collect();
            l.reverse();
            (l.join("\n") + "\n").into_bytes()
        }),
        ("bytes".into(), (0..=255).cycle().take(code.len()).collect()),
        ("a comment before the module".into(), [b"// edited\n", &code[..]].concat()),
    ];
    let step = if ctx.thorough { 11 } else { 131 };
    for at in (0..code.len()).step_by(step).chain([code.len() - 1]) {
        let mut o = code.clone();
        o[at] ^= 1;
        olds.push((format!("the module with another byte {}", at), o));
        olds.push((format!("the first {} bytes of the module", at), code[..at].to_vec()));
        let mut o = code[..at].to_vec();
        o.extend_from_slice(&code[at + 1..]);
        olds.push((format!("the module without byte {}", at), o));
    }
    let mut jobs = vec![];
    for o in &olds {
        for env in [false, true] {
            for age in 0..3 {
                jobs.push((o, env, age));
            }
        }
    }
    ctx.add(&ctx.states, jobs.len());
    par(&jobs, |_, (old, env, age)| {
        let w = World::new(ctx, false);
        let place = if *env { w.dir.join("out/o.rs") } else { w.dir.join("o.rs") };
        fs::write(&place, &old.1).unwrap();
        let day = std::time::Duration::from_secs(86400);
        let when = match age {
            0 => None,
            1 => Some(std::time::SystemTime::now() + day),
            _ => Some(std::time::UNIX_EPOCH + day),
        };
        if let Some(when) = when {
            fs::OpenOptions::new().append(true).open(&place).unwrap().set_modified(when).unwrap();
        }
        let (msrc, mout) = (w.dir.join("src"), w.dir.join("out"));
        let ops: Vec<String> = ["build", if *env { "env" } else { "new" }, "if:good.routes", "of:o.rs", "build"].iter().map(|x| x.to_string()).collect();
        let o = w.run("bdrv", &ops, &[("CARGO_MANIFEST_DIR", msrc.as_os_str()), ("OUT_DIR", mout.as_os_str())]);
        ctx.eval(1);
        ctx.add(&ctx.traces, 1);
        if o.status.code() != Some(0) || fs::read(&place).ok().as_ref() != Some(&code) {
            ctx.violate(|| Violation {
                what: format!(
                    "{} where the output file was {}, {}: exit {:?}, and the file is not the module",
                    if *env { "a build from the environment" } else { "a build" },
                    old.0,
                    ["just written", "written tomorrow", "written long ago"][*age],
                    o.status.code()
                ),
                files: vec![("before".into(), text_of(&old.1)), ("after".into(), text_of(&fs::read(&place).unwrap_or_default()))],
            });
        }
    });
}

/// Every way to spell the two directories and the names under them: the files
/// are those the system finds by these paths.
fn spellings(ctx: &Ctx, codes: &Codes) {
    let dirs = ["member", "./member", "lib/../member", "link", "link/", "@/link", "@/member", "link/../member", "member/sub/..", "member/.", "deep", "link2", "@/link2/sub/..", "."];
    let names = [
        "good.routes", "./good.routes", "sub/../good.routes", "../good.routes", "sub/../../good.routes", ".././good.routes", "up/good.routes", "up/../good.routes", "file.routes", "@/real/good.routes",
        "sub/good.routes", "../../good.routes",
    ];
    let mut jobs = vec![];
    for dir in dirs {
        for name in names {
            for swap in [false, true] {
                jobs.push((dir, name, swap));
            }
        }
    }
    ctx.add(&ctx.states, jobs.len());
    par(&jobs, |_, (dir, name, swap)| {
        let root = scratch(ctx);
        let w = World { dir: root.join("real") };
        let link = |to: &str, at: PathBuf| std::os::unix::fs::symlink(to, at).unwrap();
        for (k, d) in ["", "member", "lib", "lib/inner", "far", "far/away"].iter().enumerate() {
            let b = w.dir.join(d);
            fs::create_dir_all(b.join("sub")).unwrap();
            // what leads elsewhere finds something else
            fs::write(b.join("good.routes"), format!("/\n  GET At{}\n", k)).unwrap();
            fs::write(b.join("sub/good.routes"), format!("/\n  GET Sub{}\n", k)).unwrap();
            if !d.is_empty() {
                link("good.routes", b.join("file.routes"));
            }
        }
        fs::write(root.join("good.routes"), "/\n  GET Outside\n").unwrap();
        link("far/away", w.dir.join("link"));
        link("lib/inner", w.dir.join("link2"));
        link("link2", w.dir.join("deep"));
        link("../far", w.dir.join("member/up"));
        link("../../member", w.dir.join("lib/inner/up"));
        let abs = |x: &str| x.replace("@/real", &w.dir.display().to_string()).replace('@', &w.dir.display().to_string());
        let (dir, name) = (abs(dir), abs(name));
        let full = |d: &str, n: &str| w.dir.join(d).join(n);
        let args: Vec<String>;
        let (place, want) = if *swap {
            // as the output
            let n = name.replace(".routes", ".rs");
            args = vec!["env".into(), "if:in.routes".into(), format!("of:{}", n), "build".into()];
            (full(&dir, &n), Some(codes.two.clone()))
        } else {
            args = vec!["env".into(), format!("if:{}", name), "of:o.rs".into(), "build".into()];
            let text = fs::read_to_string(full(&dir, &name)).ok();
            (w.dir.join("o.rs"), text.and_then(|t| expected(&t).ok()))
        };
        fs::write(w.dir.join("in.routes"), GOOD2).unwrap();
        let place = place.parent().and_then(|p| p.canonicalize().ok()).map(|p| p.join(place.file_name().unwrap()));
        let want = if place.is_some() { want } else { None };
        let all = || World { dir: root.clone() };
        let before = {
            let a = all();
            let f = a.files();
            std::mem::forget(a);
            f
        };
        let mut ops = vec!["build".to_string()];
        ops.extend(args);
        let (m, o) = if *swap { (w.dir.display().to_string(), dir.clone()) } else { (dir.clone(), w.dir.display().to_string()) };
        let got = w.run("bdrv", &ops, &[("CARGO_MANIFEST_DIR", std::ffi::OsStr::new(&m)), ("OUT_DIR", std::ffi::OsStr::new(&o))]);
        let after = {
            let a = all();
            let f = a.files();
            std::mem::forget(a);
            f
        };
        ctx.eval(1);
        ctx.add(&ctx.traces, 1);
        let mut problems = vec![];
        if got.status.code() != Some(if want.is_some() { 0 } else { 101 }) {
            problems.push(format!("exit status {:?} {}", got.status.code(), one_line(&text_of(&got.stderr))));
        }
        let here = place.as_ref().and_then(|p| fs::read_to_string(p).ok());
        if want.is_some() && here != want {
            problems.push("the module is not where the path leads".into());
        }
        let real = |k: &PathBuf| root.join(k).canonicalize().ok();
        let odd: Vec<String> = before
            .keys()
            .chain(after.keys())
            .filter(|k| before.get(*k) != after.get(*k))
            .filter(|k| want.is_none() || real(k) != place.as_ref().and_then(|p| p.canonicalize().ok()))
            .map(|k| k.display().to_string())
            .collect();
        if !odd.is_empty() {
            problems.push(format!("other files change: {:?}", odd));
        }
        if !problems.is_empty() {
            ctx.violate(|| Violation {
                what: format!("CARGO_MANIFEST_DIR={:?} OUT_DIR={:?}, {}: {}", m, o, ops[1..].join(" "), problems.join("; ")),
                files: vec![],
            });
        }
        let _ = fs::remove_dir_all(&root);
    });
}

pub fn c18(ctx: &Ctx) -> i32 {
    let cfg = |n: &str| text_of(&Command::new(bin("bdrv")).args(["config", n]).output().expect("spawn").stdout);
    let codes = match (expected(GOOD), expected(GOOD2)) {
        (Ok(good), Ok(two)) => Codes {
            good,
            two,
            config: [cfg("1"), cfg("2")],
        },
        _ => {
            ctx.set("note", "the sample files are not accepted; nothing to compare with");
            return ctx.finish("exploration", "none", &[]);
        }
    };
    let mut cases: Vec<Case> = vec![];
    // single builders: all call sequences
    let alphabet = [
        "if:good.routes",
        "if:bad.routes",
        "if:missing.routes",
        "ic:1",
        "of:o.rs",
        "of:missing/o.rs",
        "os",
    ];
    let more = [
        "if:two.routes",
        "if:conflict.routes",
        "if:bytes.routes",
        "if:dir.routes",
        "if:@/two.routes",
        "ic:2",
        "of:p.rs",
        "of:@/src/q.rs",
        "of:dir.routes",
    ];
    let all: Vec<&str> = alphabet.iter().chain(more.iter()).cloned().collect();
    let depth = if ctx.thorough { 4 } else { 3 };
    for seq in crate::families::seqs(&(0..alphabet.len()).collect::<Vec<_>>(), depth) {
        for b in ["new", "env"] {
            let mut ops = vec![b.to_string()];
            ops.extend(seq.iter().map(|i| alphabet[*i].to_string()));
            ops.push("build".into());
            for stale in [false, true] {
                cases.push(Case { ops: ops.clone(), stale });
            }
        }
    }
    for seq in crate::families::seqs(&(0..all.len()).collect::<Vec<_>>(), if ctx.thorough { 3 } else { 2 }) {
        if seq.iter().all(|i| *i < alphabet.len()) {
            continue;
        }
        for b in ["new", "env"] {
            let mut ops = vec![b.to_string()];
            ops.extend(seq.iter().map(|i| all[*i].to_string()));
            ops.push("build".into());
            for stale in [false, true] {
                cases.push(Case { ops: ops.clone(), stale });
            }
        }
    }
    // several builds in one process
    let complete: Vec<Vec<&str>> = vec![
        vec!["new", "if:good.routes", "of:o.rs", "build"],
        vec!["env", "if:good.routes", "of:o.rs", "build"],
        vec!["env", "of:p.rs", "if:two.routes", "build"],
        vec!["new", "if:two.routes", "os", "build"],
        vec!["env", "ic:2", "os", "build"],
        vec!["env", "ic:1", "of:p.rs", "build"],
        vec!["new", "if:bad.routes", "of:p.rs", "build"],
        vec!["env", "if:good.routes", "os", "build"],
        vec!["env", "if:@/two.routes", "of:@/src/q.rs", "build"],
    ];
    for seq in crate::families::seqs(&(0..complete.len()).collect::<Vec<_>>(), if ctx.thorough { 3 } else { 2 }) {
        let ops: Vec<String> = seq.iter().flat_map(|i| complete[*i].iter().map(|x| x.to_string())).collect();
        cases.push(Case { ops, stale: true });
    }
    ctx.add(&ctx.states, cases.len());
    for c in cases.iter().step_by(cases.len() / 6) {
        ctx.sample(|| c.ops.join(", "));
    }
    par(&cases, |_, c| history(ctx, c, &codes));

    file_kinds(ctx);
    old_outputs(ctx, &codes);
    spellings(ctx, &codes);

    // the environment
    let os = |s: &str| std::ffi::OsString::from(s);
    let bad = <std::ffi::OsString as std::os::unix::ffi::OsStringExt>::from_vec(vec![0x2f, 0xff]);
    let vals = [None, Some(os("src")), Some(bad)];
    for a in &vals {
        for b in &vals {
            let w = World::new(ctx, true);
            let mut env: Vec<(&str, &std::ffi::OsStr)> = vec![];
            if let Some(a) = a {
                env.push(("CARGO_MANIFEST_DIR", a));
            }
            if let Some(b) = b {
                env.push(("OUT_DIR", b));
            }
            let before = w.files();
            let ops: Vec<String> = ["build", "env", "if:good.routes", "of:o.rs", "build"].iter().map(|x| x.to_string()).collect();
            let o = w.run("bdrv", &ops, &env);
            ctx.eval(1);
            let usable = |x: &Option<std::ffi::OsString>| x.as_ref().map_or(false, |x| x == "src");
            let ok = usable(a) && usable(b);
            let good = if ok {
                o.status.code() == Some(0)
                    && w.files().get(Path::new("src/o.rs")).map(|x| x == codes.good.as_bytes()) == Some(true)
            } else {
                o.status.code() == Some(101) && w.files() == before && !o.stderr.is_empty()
            };
            if !good {
                ctx.violate(|| Violation {
                    what: format!(
                        "from_env with CARGO_MANIFEST_DIR={:?} OUT_DIR={:?}: exit {:?}, stderr {:?}",
                        a,
                        b,
                        o.status.code(),
                        one_line(&text_of(&o.stderr))
                    ),
                    files: vec![],
                });
            }
        }
    }

    // the command
    let files = ["good.routes", "two.routes", "bad.routes", "conflict.routes", "bytes.routes", "dir.routes", "missing.routes", "src/good.routes"];
    for f in files {
        for abs in [false, true] {
            let w = World::new(ctx, false);
            let before = w.files();
            let arg = if abs { w.dir.join(f).display().to_string() } else { f.to_string() };
            let o = w.run("wfcmd", &[arg], &[]);
            ctx.eval(1);
            ctx.add(&ctx.traces, 1);
            let want = match f {
                "good.routes" | "src/good.routes" => Some(&codes.good),
                "two.routes" => Some(&codes.two),
                _ => None,
            };
            let (so, se) = (text_of(&o.stdout), text_of(&o.stderr));
            let mut problem = match want {
                Some(c) if o.status.code() != Some(0) || so != *c => Some("does not print the generated module".to_string()),
                None if o.status.code() == Some(0) || o.status.code().is_none() => Some("reports success".to_string()),
                None if !so.is_empty() && f != "conflict.routes" => Some("prints something to standard output".to_string()),
                None if se.trim().is_empty() => Some("says nothing on standard error".to_string()),
                None if f == "bad.routes"
                    && !BAD.lines().enumerate().any(|(k, l)| se.contains(&format!("{:>4}:{}\n", k + 1, l))) =>
                {
                    Some("quotes no line of the file".to_string())
                }
                _ => None,
            };
            if w.files() != before {
                problem = Some("changes files".into());
            }
            if let Some(what) = problem {
                ctx.violate(|| Violation {
                    what: format!("the command on {}: {}; exit {:?}, stdout {:?}, stderr {:?}", f, what, o.status.code(), one_line(&so), one_line(&se)),
                    files: vec![],
                });
            }
        }
    }
    let w = World::new(ctx, false);
    let o = w.run("wfcmd", &[], &[]);
    if !o.stdout.is_empty() || o.stderr.is_empty() {
        ctx.violate(|| Violation {
            what: format!("the command without arguments prints {:?} and {:?}", text_of(&o.stdout), text_of(&o.stderr)),
            files: vec![],
        });
    }
    ctx.finish(
        "model_checking",
        "every sequence of up to 3 (4) builder calls over seven kinds of calls and up to 2 (3) over sixteen, from both constructors, with and without an output file of an earlier build, and every sequence of up to 2 (3) complete builds in one process; every combination of environment variables absent, usable, not Unicode; the command on each kind of file; also: files of up to 12 000 (25 000) routes, 50 000 blank lines, a header line of 200 kB; kinds of files and names (directories, links, unreadable, not UTF-8, empty, odd names); output files of an earlier build in some 100 (1000) states and of three ages; fourteen spellings of the directories (through links, dots, relative) with twelve of the names. Each is run as a process and its exit status, standard output and the whole directory tree are compared with the model; non-trivial: the build succeeds",
        &["a configuration refused only by the generator may leave part of the text in its output"],
    )
}

// ---------------------------------------------------------------------- C17

extern "C" {
    fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
    fn signal(s: c_int, h: *const c_void) -> *const c_void;
}

/// Whole builds whose output device fails.
pub fn write_faults(ctx: &Ctx) {
    let full = match expected(GOOD) {
        Ok(c) => c,
        Err(_) => return,
    };
    let len = full.len() as u64;
    let step = if ctx.thorough { 61 } else { 491 };
    let mut limits: Vec<u64> = (0..len).step_by(step).collect();
    limits.extend([1, 2, 512, 1024, 4095, 4096, 4097, 8191, 8192, 8193, len - 1, len, len + 1, len + 4096]);
    limits.sort();
    limits.dedup();
    par(&limits, |_, &lim| {
        for env in [false, true] {
            let w = World::new(ctx, true);
            let out = if env { w.dir.join("out/o.rs") } else { w.dir.join("o.rs") };
            let mut c = Command::new(bin("bdrv"));
            c.args(["build", if env { "env" } else { "new" }, "if:good.routes", "of:o.rs", "build"])
                .current_dir(&w.dir)
                .env("CARGO_MANIFEST_DIR", &w.dir)
                .env("OUT_DIR", w.dir.join("out"))
                .stdout(Stdio::null());
            unsafe {
                c.pre_exec(move || {
                    signal(25, 1 as *const c_void); // SIGXFSZ ignored: writes fail instead
                    setrlimit(1, &[lim, lim]);
                    Ok(())
                });
            }
            let o = c.output().expect("spawn");
            let got = fs::read(&out).unwrap_or_default();
            ctx.eval(1);
            ctx.add(&ctx.traces, 1);
            let what = match o.status.code() {
                Some(0) if lim < len => Some("reports success".to_string()),
                Some(0) if got != full.as_bytes() => Some("reports success with other output".to_string()),
                Some(0) => None,
                Some(101) if lim >= len => Some("fails although the file has room".to_string()),
                Some(101) => {
                    ctx.add(&ctx.nontrivial, 1);
                    if text_of(&o.stderr).contains("panicked at") {
                        Some(format!("panics: {}", one_line(&text_of(&o.stderr))))
                    } else {
                        None
                    }
                }
                x => Some(format!("exit {:?} signal {:?}", x, o.status.signal())),
            };
            if let Some(what) = what {
                ctx.violate(|| Violation {
                    what: format!("a build of {} bytes into a file which takes {}: {}", len, lim, what),
                    files: vec![("good.routes".into(), GOOD.into()), ("got.rs".into(), text_of(&got))],
                });
            }
        }
    });
    ctx.set("file_size_limits_tried", limits.len());
    // a full device and a closed pipe, as file and as standard output
    for kind in ["file", "stdout", "pipe", "command", "env file", "config", "command pipe"] {
        let w = World::new(ctx, false);
        let mut c = Command::new(bin(if kind.starts_with("command") { "wfcmd" } else { "bdrv" }));
        c.current_dir(&w.dir).env("CARGO_MANIFEST_DIR", &w.dir).env("OUT_DIR", w.dir.join("out"));
        match kind {
            "file" => {
                c.args(["build", "new", "if:good.routes", "of:/dev/full", "build"]);
            }
            "env file" => {
                c.args(["build", "env", "if:good.routes", "of:/dev/full", "build"]);
            }
            "config" => {
                c.args(["build", "new", "ic:2", "of:/dev/full", "build"]);
            }
            "command" | "command pipe" => {
                c.arg("good.routes");
            }
            _ => {
                c.args(["build", "new", "if:good.routes", "os", "build"]);
            }
        }
        let o = if kind.ends_with("pipe") {
            closed_pipe(&mut c)
        } else {
            let f = fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full");
            if kind == "stdout" || kind == "command" {
                c.stdout(f);
            }
            c.stderr(Stdio::piped());
            c.spawn().and_then(|p| p.wait_with_output()).expect("spawn")
        };
        ctx.eval(1);
        ctx.add(&ctx.nontrivial, 1);
        let se = text_of(&o.stderr);
        if o.status.code() == Some(0) || (o.status.code().is_none() && o.status.signal() != Some(13)) || se.contains("panicked at") {
            ctx.violate(|| Violation {
                what: format!("a build whose output ({}) cannot be written ends with {:?} and says {:?}", kind, o.status, one_line(&se)),
                files: vec![("good.routes".into(), GOOD.into())],
            });
        }
    }
}

extern "C" {
    fn pipe(fds: *mut c_int) -> c_int;
}
fn closed_pipe(c: &mut Command) -> Output {
    use std::os::fd::FromRawFd;
    let mut fds = [0 as c_int; 2];
    assert_eq!(unsafe { pipe(fds.as_mut_ptr()) }, 0);
    let (r, w) = unsafe { (fs::File::from_raw_fd(fds[0]), fs::File::from_raw_fd(fds[1])) };
    drop(r);
    c.stdout(w).stderr(Stdio::piped());
    let o = c.spawn().and_then(|p| p.wait_with_output()).expect("spawn");
    o
}

// ---------------------------------------------------------------------- C16

/// Inputs for the diagnostics, with what the diagnostics must mention.
pub const DIAG: &[(&str, &[&str])] = &[
    ("/\n  [p u8]\n", &["\":\""]),
    ("/\n  z\n    GET z\n  {p: u8\n    GET a\n", &["\"}\""]),
    ("/\n  [p: u8\n  GET a\n", &["\"]\""]),
    ("/\n  GET a\n  GET b c\n", &["newline"]),
    ("/\n", &["resources"]),
    ("/\n  GET a\n", &[]),
    ("/\n  z\n    GET z\n  a\n", &["starting here", "resources"]),
    ("/\n  z\n    GET z\n  a\n    GET a\n    GET a b\n", &["starting here", "newline"]),
    ("use x;\n", &[]),
    ("/\n  a\n    {p u8}\n", &[]),
];

fn diags(files: &[PathBuf]) -> Result<Vec<String>, String> {
    diags_on(files, &[])
}

/// Each file parsed on the thread given for it (0: the first of the process).
fn diags_on(files: &[PathBuf], on: &[usize]) -> Result<Vec<String>, String> {
    let args = files.iter().enumerate().map(|(i, f)| match on.get(i) {
        None | Some(0) => f.display().to_string(),
        Some(k) => format!("{}@{}", k, f.display()),
    });
    let o = Command::new(bin("bdrv")).arg("parse").args(args).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("{:?}: {}", o.status, text_of(&o.stderr)));
    }
    let t = text_of(&o.stdout);
    Ok(t.split('\x01').skip(1).map(|x| x.to_string()).collect())
}

pub fn c16(ctx: &Ctx) -> i32 {
    let dir = scratch(ctx);
    let files: Vec<PathBuf> = DIAG
        .iter()
        .enumerate()
        .map(|(i, (t, _))| {
            let f = dir.join(format!("{}.routes", i));
            fs::write(&f, t).unwrap();
            f
        })
        .collect();
    let replay = |seq: &[usize], want: &str, got: &str| {
        let mut v: Vec<(String, String)> = seq.iter().map(|i| (format!("{}.routes", i), DIAG[*i].0.to_string())).collect();
        v.sort();
        v.dedup();
        v.push(("expected.txt".into(), want.into()));
        v.push(("got.txt".into(), got.into()));
        v
    };
    let mut alone: Vec<String> = vec![];
    for (i, (t, needles)) in DIAG.iter().enumerate() {
        match diags(&files[i..=i]) {
            Ok(v) if v.len() == 1 => {
                for n in *needles {
                    if !v[0].contains(n) {
                        ctx.violate(|| Violation {
                            what: format!("the diagnostics for {:?} do not mention {}: {:?}", t, n, v[0]),
                            files: replay(&[i], n, &v[0]),
                        });
                    }
                }
                alone.push(v[0].clone());
            }
            Ok(v) => alone.push(v.concat()),
            Err(e) => {
                ctx.violate(|| Violation {
                    what: format!("the process parsing {:?} fails: {}", t, e),
                    files: replay(&[i], "", &e),
                });
                alone.push(String::new());
            }
        }
    }
    if ctx.nbad.load(SeqCst) == 0 {
        let depth = if ctx.thorough { 4 } else { 3 };
        let idx: Vec<usize> = (0..DIAG.len()).collect();
        let mut seqs: Vec<Vec<usize>> = crate::families::seqs(&idx, depth);
        seqs.retain(|q| q.len() >= 2);
        // every order in which the six messages can be asked for first
        for q in crate::families::perms(&[0usize, 1, 2, 3, 4, 6]) {
            let mut w = q.clone();
            w.extend(q.iter().rev());
            seqs.push(w);
        }
        // and on which threads
        let mut jobs: Vec<(Vec<usize>, Vec<usize>)> = vec![];
        for (n, q) in seqs.iter().enumerate() {
            jobs.push((q.clone(), vec![]));
            match q.len() {
                2 => jobs.extend([vec![0, 1], vec![1, 0], vec![1, 2], vec![1, 1]].map(|on| (q.clone(), on))),
                3 => {
                    let all = [[0, 0, 1], [0, 1, 0], [0, 1, 1], [0, 1, 2], [1, 2, 1], [1, 2, 3]];
                    let k = if ctx.thorough { 6 } else { 2 };
                    jobs.extend((0..k).map(|i| (q.clone(), all[(n + i) % 6].to_vec())));
                }
                _ => jobs.push((q.clone(), (0..q.len()).map(|i| (i * (1 + n % 5)) % (2 + n % 4)).collect())),
            }
        }
        ctx.add(&ctx.states, jobs.len());
        par(&jobs, |_, (q, on)| {
            let fs: Vec<PathBuf> = q.iter().map(|i| files[*i].clone()).collect();
            ctx.eval(q.len());
            ctx.add(&ctx.traces, 1);
            ctx.add(&ctx.transitions, q.len());
            ctx.add(&ctx.nontrivial, 1);
            match diags_on(&fs, on) {
                Ok(v) => {
                    for (k, i) in q.iter().enumerate() {
                        let got = v.get(k).cloned().unwrap_or_default();
                        if got != alone[*i] {
                            ctx.violate(|| Violation {
                                what: format!(
                                    "after {} other inputs the diagnostics for {:?} are {:?} instead of {:?} (inputs {:?}, on the threads {:?})",
                                    k, DIAG[*i].0, got, alone[*i], q, on
                                ),
                                files: replay(q, &alone[*i], &got),
                            });
                            break;
                        }
                    }
                }
                Err(e) => ctx.violate(|| Violation {
                    what: format!("the process parsing the inputs {:?} on the threads {:?} fails: {}", q, on, e),
                    files: replay(q, "", &e),
                }),
            }
        });
        for q in seqs.iter().step_by(seqs.len() / 3) {
            ctx.sample(|| format!("{:?}", q.iter().map(|i| DIAG[*i].0).collect::<Vec<_>>()));
        }
    }
    super::sched::interleavings(ctx, &alone);
    ctx.finish(
        "model_checking",
        "every sequence of up to 3 (4) inputs of a pool which reaches every error site, and every order in which the six registered messages can first be needed, each in a fresh process, on one thread and shared out over several which take turns, diagnostics compared with those of a process which parses the input alone; and the interleavings of concurrent parses under a controlled scheduler (see the interleaving_* fields)",
        &["preemptions happen at accesses to synchronisation objects; sequentially consistent memory between them"],
    )
}
