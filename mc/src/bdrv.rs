//! Drives the crate in a process of its own: the builder ends its process,
//! and the parser's error registry lives as long as the process does.
//!
//!   bdrv build (new | env | if:PATH | ic:N | of:PATH | os | build)...
//!   bdrv parse [THREAD@]FILE...

use std::io::Write;
use wayfinder::build::Builder;
use wayfinder::{Method, Resource, RouteConfig, Routes};

fn config(n: usize) -> RouteConfig {
    RouteConfig {
        headers: vec![],
        routes: Routes {
            resources: (0..n)
                .map(|k| Resource {
                    method: if k == 0 { Method::Get } else { Method::Post },
                    modules: vec!["Direct".into()],
                    name: format!("Res{}", k),
                    is_redirect: false,
                    query_parameters: vec![],
                })
                .collect(),
            routes: vec![],
            query_parameters: vec![],
        },
    }
}

fn parse(f: &str) {
    let t = std::fs::read_to_string(f).unwrap();
    let r = wayfinder::parse::route_config(&t);
    let ok = r.is_ok();
    let mut out: Vec<u8> = vec![];
    wayfinder::parse::errors::show_errors(&mut out, &t, r, "");
    let o = std::io::stdout();
    let mut o = o.lock();
    write!(o, "\x01{}\x02", if ok { "accepted" } else { "refused" }).unwrap();
    o.write_all(&out).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|x| x.as_str()) {
        Some("build") => {
            let mut b: Option<Builder> = None;
            for a in &args[1..] {
                b = match (a.as_str(), b) {
                    ("new", _) => Some(Builder::new()),
                    ("env", _) => Some(Builder::from_env()),
                    ("os", Some(b)) => Some(b.output_stdout()),
                    ("build", Some(b)) => {
                        b.build();
                        None
                    }
                    (x, Some(b)) if x.starts_with("if:") => Some(b.input_file(&x[3..])),
                    (x, Some(b)) if x.starts_with("of:") => Some(b.output_file(&x[3..])),
                    (x, Some(b)) if x.starts_with("ic:") => Some(b.input_config(config(x[3..].parse().unwrap()))),
                    (x, _) => panic!("bad operation {}", x),
                }
            }
        }
        Some("config") => {
            let mut v: Vec<u8> = vec![];
            wayfinder::gen::codegen(&mut v, &config(args[1].parse().unwrap())).unwrap();
            std::io::stdout().write_all(&v).unwrap();
        }
        Some("parse") => {
            // threads which stay, each parsing when it is its turn
            let mut hands: std::collections::HashMap<String, std::sync::mpsc::Sender<String>> = Default::default();
            let (done, next) = std::sync::mpsc::channel::<()>();
            for f in &args[1..] {
                match f.split_once('@') {
                    None => parse(f),
                    Some((k, f)) => {
                        let hand = hands.entry(k.into()).or_insert_with(|| {
                            let (to, from) = std::sync::mpsc::channel::<String>();
                            let done = done.clone();
                            std::thread::spawn(move || {
                                for f in from {
                                    // a panic must not leave the others waiting
                                    let ok = std::panic::catch_unwind(|| parse(&f)).is_ok();
                                    if !ok {
                                        std::process::exit(101);
                                    }
                                    done.send(()).unwrap();
                                }
                            });
                            to
                        });
                        hand.send(f.into()).unwrap();
                        next.recv().unwrap();
                    }
                }
            }
        }
        _ => panic!("usage"),
    }
}
