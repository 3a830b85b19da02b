//! Interleavings of concurrent parses: the crate's own sources, built with
//! their synchronisation replaced by that of a controlled scheduler.

use super::process::{scratch, DIAG};
use crate::ctx::{par, Ctx, Violation};
use std::fs;
use std::path::Path;
use std::process::Command;
use std::sync::Mutex;

/// Copies the sources with `std::sync` replaced.
fn copy(from: &Path, to: &Path) -> Result<usize, String> {
    let mut n = 0;
    fs::create_dir_all(to).map_err(|e| e.to_string())?;
    for e in fs::read_dir(from).map_err(|e| e.to_string())? {
        let p = e.map_err(|e| e.to_string())?.path();
        let q = to.join(p.file_name().unwrap());
        if p.is_dir() {
            n += copy(&p, &q)?;
        } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
            let t = fs::read_to_string(&p).map_err(|e| e.to_string())?;
            let mut u = String::new();
            for part in t.split("std::sync").enumerate() {
                if part.0 > 0 {
                    // `std::sync` and not `std::synchronous`
                    let word = part.1.starts_with(|c: char| c.is_alphanumeric() || c == '_');
                    u.push_str(if word { "std::sync" } else { "msync" });
                    n += !word as usize;
                }
                u.push_str(part.1);
            }
            let u = u.replace("std::thread::", "msync::thread::").replace("std::thread_local!", "thread_local!");
            let u = u.replace("thread_local!", "msync::thread_local!").replace("::msync", "msync");
            fs::write(&q, u).map_err(|e| e.to_string())?;
        }
    }
    Ok(n)
}

pub fn interleavings(ctx: &Ctx, alone: &[String]) {
    let why_not = |m: &str| {
        let m: String = m.chars().take(600).collect();
        eprintln!("interleavings not explored: {}", m);
        ctx.set("interleaving_schedules", 0);
        ctx.set("interleavings_not_explored_because", m);
    };
    let here = ctx.verif.join("sched");
    let dir = ctx.work.join("sched");
    let id = std::process::id();
    match copy(Path::new("/repo/wayfinder/src"), &dir.join("wayfinder/src")) {
        Ok(n) => ctx.set("interleaving_sites_replaced", n),
        Err(e) => return why_not(&e),
    }
    for (t, to) in [("Cargo.toml.in", "Cargo.toml"), ("wayfinder.toml", "wayfinder/Cargo.toml")] {
        let t = fs::read_to_string(here.join("explorer").join(t)).expect("template");
        let t = t.replace("@SCHED@", &here.display().to_string()).replace("@ID@", &id.to_string());
        fs::write(dir.join(to), t).expect("scratch");
    }
    fs::copy(here.join("explorer/Cargo.lock"), dir.join("Cargo.lock")).expect("lock");
    let target = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| ctx.verif.join("target").display().to_string());
    let target = Path::new(&target).join("sched");
    let o = Command::new("cargo")
        .args(["build", "--offline", "--manifest-path"])
        .arg(dir.join("Cargo.toml"))
        .env("CARGO_TARGET_DIR", &target)
        .output()
        .expect("cargo");
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr).into_owned();
        let at = e.find("error").unwrap_or(0);
        return why_not(&e[at..]);
    }
    let built = target.join("debug").join(format!("explorer{}", id));
    let exe = dir.join("explorer");
    fs::rename(&built, &exe).expect("explorer");
    let _ = fs::remove_file(target.join("debug").join(format!("explorer{}.d", id)));

    // the scenarios
    let n = DIAG.len();
    let mut scenarios: Vec<(usize, Vec<usize>)> = vec![];
    for a in 0..n {
        for b in a..n {
            scenarios.push((if ctx.thorough { 3 } else { 2 }, vec![a, b]));
            for c in b..n {
                // three at once: those which need different messages, and the same
                if ctx.thorough || (a + b + c) % 5 == 0 {
                    scenarios.push((if ctx.thorough && (a + b + c) % 4 == 0 { 2 } else { 1 }, vec![a, b, c]));
                }
            }
        }
    }
    let mut expected = String::new();
    for (i, w) in alone.iter().enumerate() {
        expected.push_str(&format!("{}{}\x03{}", if i > 0 { "\x03" } else { "" }, DIAG[i].0, w));
    }
    let ef = scratch(ctx).join("expected");
    fs::write(&ef, &expected).expect("scratch");
    let totals = Mutex::new((0u64, 0u64, 0u64, 0u64)); // schedules, steps, longest, incomplete
    let unsure: Mutex<Option<String>> = Mutex::new(None);
    scenarios.sort_by_key(|s| std::cmp::Reverse(s.0));
    let limit = if ctx.thorough { "120" } else { "20" };
    let begun = std::time::Instant::now();
    par(&scenarios, |_, (bound, idx)| {
        if begun.elapsed().as_secs() > if ctx.thorough { 500 } else { 200 } {
            totals.lock().unwrap().3 += 1;
            return;
        }
        let name = idx.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("+");
        let o = Command::new(&exe).args([&bound.to_string(), limit]).arg(&ef).arg(&name).output().expect("explorer");
        let t = String::from_utf8_lossy(&o.stdout).into_owned();
        let f: Vec<&str> = t.trim_end_matches('\n').split('\x04').collect();
        if f.len() != 6 {
            *unsure.lock().unwrap() = Some(format!("{}: {:?} {}", name, o.status, String::from_utf8_lossy(&o.stderr)));
            return;
        }
        let num = |k: usize| f[k].parse::<u64>().unwrap_or(0);
        {
            let mut g = totals.lock().unwrap();
            g.0 += num(1);
            g.1 += num(2);
            g.2 = g.2.max(num(3));
            g.3 += (f[4] != "true") as u64;
        }
        ctx.eval(num(1) as usize);
        ctx.add(&ctx.traces, num(1) as usize);
        ctx.add(&ctx.transitions, num(2) as usize);
        ctx.add(&ctx.nontrivial, num(1) as usize);
        if let Some(m) = f[5].strip_prefix('?') {
            *unsure.lock().unwrap() = Some(format!("{}: {}", name, m));
        } else if !f[5].is_empty() {
            let mut files: Vec<(String, String)> = idx.iter().map(|i| (format!("{}.routes", i), DIAG[*i].0.to_string())).collect();
            files.sort();
            files.dedup();
            ctx.violate(|| Violation {
                what: format!("threads parsing the inputs {}: {}", name, f[5]),
                files,
            });
        }
    });
    let (schedules, steps, longest, incomplete) = totals.into_inner().unwrap();
    ctx.add(&ctx.states, scenarios.len());
    ctx.set("interleaving_scenarios", scenarios.len());
    ctx.set("interleaving_schedules", schedules);
    ctx.set("interleaving_steps", steps);
    ctx.set("interleaving_longest_schedule", longest);
    ctx.set("interleaving_scenarios_cut_short", incomplete);
    ctx.set(
        "interleaving_preemption_bound",
        if ctx.thorough { "3 for two threads, 2 for every fourth scenario of three, 1 for the others" } else { "2 for two threads, 1 for three" },
    );
    if let Some(m) = unsure.into_inner().unwrap() {
        eprintln!("interleavings: no verdict for {}", m);
        ctx.set("interleaving_without_verdict", m);
    }
}
