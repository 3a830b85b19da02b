//! Explores the interleavings of parses on several threads, up to a number of
//! preemptions. Each execution happens in a process of its own, forked from
//! this one before anything was parsed, so that it starts from fresh statics.
//!
//! explorer BOUND LIMIT-SECONDS EXPECTED INPUT+INPUT..  INPUT+INPUT.. : the
//! inputs are numbers; EXPECTED is a file with `\x03`-separated pairs of input
//! and diagnostics.

use shuttle::scheduler::{Schedule, Scheduler, Task, TaskId};
use std::io::{Read, Write};
use std::os::raw::{c_int, c_void};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> c_int;
    fn pipe(fds: *mut c_int) -> c_int;
    fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
    fn _exit(c: c_int) -> !;
    fn close(fd: c_int) -> c_int;
    fn write(fd: c_int, b: *const c_void, n: usize) -> isize;
    fn alarm(s: u32) -> u32;
}

/// One point at which the scheduler chose: the tasks which could go on, which
/// one did, and whether another choice preempts the current one.
#[derive(Clone, Debug, Default)]
struct Point {
    n: usize,
    took: usize,
    /// the option which does not preempt, if the current task can go on
    stay: Option<usize>,
}

struct Follow {
    prefix: Vec<usize>,
    points: Arc<Mutex<Vec<Point>>>,
    ran: bool,
}
impl Scheduler for Follow {
    fn new_execution(&mut self) -> Option<Schedule> {
        if self.ran {
            return None;
        }
        self.ran = true;
        Some(Schedule::new(0))
    }
    fn next_task(&mut self, runnable: &[&Task], current: Option<TaskId>, yielding: bool) -> Option<TaskId> {
        let mut ids: Vec<TaskId> = runnable.iter().map(|t| t.id()).collect();
        ids.sort_by_key(|i| usize::from(*i));
        let stay = match current {
            Some(c) if !yielding => ids.iter().position(|i| *i == c),
            _ => None,
        };
        let mut points = self.points.lock().unwrap();
        let k = points.len();
        let took = match self.prefix.get(k) {
            Some(x) => *x,
            None => stay.unwrap_or(0),
        };
        if took >= ids.len() {
            points.push(Point { n: 0, took, stay }); // not the same program any more
            return None;
        }
        points.push(Point { n: ids.len(), took, stay });
        Some(ids[took])
    }
    fn next_u64(&mut self) -> u64 {
        0
    }
}

type Parsed = nom::IResult<nom::types::CompleteStr<'static>, wayfinder::RouteConfig>;

fn show(t: &str, r: Parsed) -> String {
    let ok = r.is_ok();
    let mut out: Vec<u8> = vec![];
    wayfinder::parse::errors::show_errors(&mut out, t, r, "");
    format!("{}\x02{}", if ok { "accepted" } else { "refused" }, String::from_utf8_lossy(&out))
}

fn diagnose(t: &'static str) -> (String, Parsed) {
    let r: Parsed = wayfinder::parse::route_config(t);
    (show(t, r.clone()), r)
}

/// What one execution reports: what went wrong, and the points.
fn execution(texts: &[String], want: &[String], prefix: Vec<usize>, fd: c_int) -> ! {
    let points = Arc::new(Mutex::new(vec![]));
    let bad = Arc::new(Mutex::new(String::new()));
    let panicked = Arc::new(Mutex::new(String::new()));
    {
        let p = panicked.clone();
        std::panic::set_hook(Box::new(move |i| {
            if let Ok(mut p) = p.lock() {
                if p.is_empty() {
                    *p = i.to_string();
                }
            }
        }));
    }
    let mut config = shuttle::Config::new();
    config.stack_size = 1 << 21;
    config.failure_persistence = shuttle::FailurePersistence::None;
    config.max_steps = shuttle::MaxSteps::FailAfter(200_000);
    config.silence_warnings = true;
    let sched = Follow {
        prefix,
        points: points.clone(),
        ran: false,
    };
    let (t, w, b) = (texts.to_vec(), want.to_vec(), bad.clone());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        shuttle::Runner::new(sched, config).run(move || {
            let note = |who: &str, k: usize, got: &str, b: &Arc<Mutex<String>>, w: &[String], t: &[String]| {
                if got != w[k] {
                    let mut b = b.lock().unwrap();
                    if b.is_empty() {
                        *b = format!("{} parses {:?} and shows {:?} instead of {:?}", who, t[k], got, w[k]);
                    }
                }
            };
            let hs: Vec<_> = (0..t.len())
                .map(|k| {
                    let t: &'static str = Box::leak(t[k].clone().into_boxed_str());
                    shuttle::thread::spawn(move || diagnose(t))
                })
                .collect();
            for (k, h) in hs.into_iter().enumerate() {
                match h.join() {
                    Ok((got, r)) => {
                        note(&format!("thread {}", k), k, &got, &b, &w, &t);
                        // an error may be shown by another thread than it occurred on
                        note(&format!("the main thread for thread {}", k), k, &show(&t[k], r), &b, &w, &t);
                    }
                    Err(_) => note(&format!("thread {}", k), k, "a panic", &b, &w, &t),
                }
            }
            // and afterwards everything is as ever
            for k in 0..t.len() {
                let got = diagnose(Box::leak(t[k].clone().into_boxed_str())).0;
                note("a later parse", k, &got, &b, &w, &t);
            }
        });
    }));
    let mut bad = bad.lock().map(|b| b.clone()).unwrap_or_default();
    let points = points.lock().map(|p| p.clone()).unwrap_or_default();
    if r.is_err() {
        let m = panicked.lock().map(|p| p.clone()).unwrap_or_default();
        bad = if m.contains("max_steps") || m.contains("shuttle") && !m.contains("deadlock") {
            format!("?{}", m)
        } else {
            m
        };
        if bad.is_empty() {
            bad = "?no message".into();
        }
    }
    let mut o = format!("{}\n", bad.replace('\n', " | "));
    for p in &points {
        o.push_str(&format!("{} {} {} ", p.n, p.took, p.stay.map(|x| x as i64).unwrap_or(-1)));
    }
    o.push_str("end");
    let mut at = 0;
    while at < o.len() {
        let n = unsafe { write(fd, o[at..].as_ptr() as *const c_void, o.len() - at) };
        if n <= 0 {
            break;
        }
        at += n as usize;
    }
    unsafe { _exit(0) }
}

fn run(texts: &[String], want: &[String], prefix: &[usize]) -> Result<(String, Vec<Point>), String> {
    use std::os::fd::FromRawFd;
    let mut fds = [0 as c_int; 2];
    unsafe {
        assert_eq!(pipe(fds.as_mut_ptr()), 0);
        let pid = fork();
        assert!(pid >= 0);
        if pid == 0 {
            close(fds[0]);
            alarm(60);
            execution(texts, want, prefix.to_vec(), fds[1]);
        }
        close(fds[1]);
        let mut s = String::new();
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let r = f.read_to_string(&mut s);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if r.is_err() || !s.ends_with("end") {
            return Err(format!("an execution ended with status {}", st));
        }
        let (bad, rest) = s.split_once('\n').unwrap();
        let v: Vec<i64> = rest.trim_end_matches("end").split_whitespace().map(|x| x.parse().unwrap()).collect();
        let points = v
            .chunks(3)
            .map(|c| Point {
                n: c[0] as usize,
                took: c[1] as usize,
                stay: if c[2] < 0 { None } else { Some(c[2] as usize) },
            })
            .collect();
        Ok((bad.to_string(), points))
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let bound: usize = a[1].parse().unwrap();
    let limit = Duration::from_secs(a[2].parse().unwrap());
    let start = Instant::now();
    let all = std::fs::read_to_string(&a[3]).unwrap();
    let all: Vec<&str> = all.split('\x03').collect();
    let stdout = std::io::stdout();
    for scenario in &a[4..] {
        let idx: Vec<usize> = scenario.split('+').map(|x| x.parse().unwrap()).collect();
        let texts: Vec<String> = idx.iter().map(|i| all[2 * i].to_string()).collect();
        let want: Vec<String> = idx.iter().map(|i| all[2 * i + 1].to_string()).collect();
        let (mut schedules, mut steps, mut longest, mut complete) = (0u64, 0u64, 0usize, true);
        let mut bad = String::new();
        let mut work: Vec<Vec<usize>> = vec![vec![]];
        while let Some(prefix) = work.pop() {
            if start.elapsed() > limit {
                complete = false;
                break;
            }
            match run(&texts, &want, &prefix) {
                Err(e) => {
                    bad = format!("?{}", e);
                    break;
                }
                Ok((b, points)) => {
                    if points.iter().any(|p| p.n == 0) {
                        bad = "?the same choices gave another execution".into();
                        break;
                    }
                    schedules += 1;
                    steps += points.len() as u64;
                    longest = longest.max(points.len());
                    if !b.is_empty() {
                        bad = format!("{} [choices {:?}]", b, points.iter().map(|p| p.took).collect::<Vec<_>>());
                        break;
                    }
                    // the other choices from the end of the prefix on
                    let mut spent = 0;
                    for (k, p) in points.iter().enumerate() {
                        if k >= prefix.len() {
                            for alt in 0..p.n {
                                let cost = match p.stay {
                                    Some(s) => (s != alt) as usize,
                                    None => 0,
                                };
                                if alt != p.took && spent + cost <= bound {
                                    let mut q: Vec<usize> = points[..k].iter().map(|x| x.took).collect();
                                    q.push(alt);
                                    work.push(q);
                                }
                            }
                        }
                        if p.stay.is_some() && p.stay != Some(p.took) {
                            spent += 1;
                        }
                    }
                }
            }
        }
        let _ = writeln!(stdout.lock(), "{}\x04{}\x04{}\x04{}\x04{}\x04{}", scenario, schedules, steps, longest, complete, bad.replace('\n', " | "));
    }
}
