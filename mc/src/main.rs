mod checks;
mod compile;
mod ctx;
mod explore;
mod families;
mod model;

use ctx::{slots, Ctx, Violation};
use std::os::unix::process::ExitStatusExt;

/// Seconds after which one call into the code under test counts as not
/// returning (such calls take microseconds).
const HANG: u64 = 90;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: mc PROPERTY quick|thorough");
        std::process::exit(2);
    }
    if args[1] == "gen-one" {
        std::process::exit(checks::gen_one(&args[2]));
    }
    let prop = args[1].clone();
    let thorough = args[2] == "thorough";
    if std::env::var("MC_WORKER").is_ok() {
        std::process::exit(worker(&prop, thorough));
    }
    // supervisor
    let me = std::env::current_exe().expect("current_exe");
    let dir = std::env::temp_dir().join(format!("mc-slots-{}", std::process::id()));
    slots::open(&dir);
    let st = std::process::Command::new(me)
        .args([&prop, &args[2]])
        .env("MC_WORKER", &dir)
        .status()
        .expect("spawn worker");
    let code = match (st.code(), st.signal()) {
        (Some(c), _) => c,
        (None, Some(sig)) if [4, 6, 7, 8, 11].contains(&sig) => {
            let busy = slots::busy();
            if busy.is_empty() {
                eprintln!("machinery: worker ended by signal {} outside the code under test", sig);
                3
            } else {
                let ctx = Ctx::new(&prop, thorough);
                ctx.violate(|| Violation {
                    what: format!(
                        "the process was ended by signal {} while running the code under test on one of: {}",
                        sig,
                        busy.iter().map(|b| b.1.as_str()).collect::<Vec<_>>().join(" || ")
                    ),
                    files: vec![],
                });
                ctx.finish("exploration", "crash of the code under test", &[])
            }
        }
        (_, s) => {
            eprintln!("machinery: worker ended by signal {:?}", s);
            3
        }
    };
    let _ = std::fs::remove_file(&dir);
    std::process::exit(code);
}

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}

/// Bytes one process may take; the checks stay far below. Code under test
/// which never stops writing ends here, and is seen, before the machine does.
const MEMORY: u64 = 14 << 30;

fn worker(prop: &str, thorough: bool) -> i32 {
    unsafe {
        setrlimit(9, &[MEMORY, MEMORY]); // RLIMIT_AS
    }
    slots::open(std::path::Path::new(&std::env::var("MC_WORKER").unwrap()));
    if std::env::var("MC_LOUD").is_err() {
        std::panic::set_hook(Box::new(|i| {
            // panics of the code under test are caught and judged; show only our own
            if let Some(l) = i.location() {
                if l.file().starts_with("src/") {
                    eprintln!("{}", i);
                }
            }
        }));
    }
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(prop, thorough)));
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let now = slots::TICK.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1;
        for (t, what) in slots::busy() {
            if now.saturating_sub(t) > HANG {
                ctx.violate(|| Violation {
                    what: format!("no answer within {} s: {}", HANG, what),
                    files: vec![],
                });
                let c = ctx.finish("exploration", "the code under test did not return", &[]);
                std::process::exit(c);
            }
        }
    });
    // run on a big stack: the parser and the generator recurse
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || checks::run(ctx))
        .unwrap()
        .join()
        .unwrap_or(3)
}
