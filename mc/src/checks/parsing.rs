//! Checks of the route file parser, its diagnostics and the printer.

use super::generation::wellformed;
use super::matching::*;
use super::reader;
use crate::ctx::{one_line, par, probe, Ctx, Violation};
use crate::explore::show;
use crate::families::*;
use crate::model::*;
use nom::types::CompleteStr;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;
use wayfinder::RouteConfig;

fn parse(t: &str) -> Result<Option<RouteConfig>, String> {
    probe(&[b"parse of: ", t.as_bytes()], || wayfinder::parse::route_config(t).ok().map(|r| r.1))
}

// ---------------------------------------------------------- the line grammar

/// A line of the route part of a file.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum L {
    /// resource, redirect, query parameter, static and dynamic segment, at a level
    R(usize),
    X(usize),
    Q(usize),
    S(usize),
    D(usize),
    Blank,
    /// indentation by an odd number of spaces
    Odd(usize),
    /// a segment indented by a tab
    Tab,
}
use L::*;

fn level(l: L) -> Option<usize> {
    match l {
        R(n) | X(n) | Q(n) | S(n) | D(n) => Some(n),
        _ => None,
    }
}

fn ty_at(i: usize) -> Ty {
    TYPES[i % TYPES.len()]
}
fn target_at(i: usize) -> Vec<String> {
    let mut v: Vec<String> = (0..i % 3).map(|k| format!("M{}x{}", i, k)).collect();
    v.push(format!("T{}", i));
    v
}

/// Line `i` of a file, spelled in variant `var`.
fn spell(l: L, i: usize, var: usize) -> String {
    let m = METHODS[i % 4].verb();
    let m = match var {
        0 => m.to_string(),
        1 => m.to_lowercase(),
        _ => caps(&m.to_lowercase()),
    };
    let (open, sep, shut) = match var {
        0 => ("", ": ", ""),
        1 => ("", ":", ""),
        _ => (" ", " : ", " "),
    };
    let t = target_at(i).join(if var == 2 { " :: " } else { "::" });
    let ind = |n: usize| "  ".repeat(n);
    match l {
        R(n) => format!("{}{} {}", ind(n), m, t),
        X(n) => format!("{}{} ->{}{}", ind(n), m, if var == 1 { "" } else { " " }, t),
        Q(n) => format!("{}[{}q{}{}{}{}]", ind(n), open, i, sep, ty_at(i).rust(), shut),
        S(n) => format!("{}s{}", ind(n), i),
        D(n) => format!("{}{{{}p{}{}{}{}}}", ind(n), open, i, sep, ty_at(i).rust(), shut),
        Blank => String::new(),
        Odd(n) => format!("{} s{}", ind(n), i),
        Tab => format!("\ts{}", i),
    }
}

/// The reference parser, over lines: the tree they declare, if they declare one.
fn reference(ls: &[L]) -> Option<Node> {
    let toks: Vec<(usize, L)> = ls.iter().cloned().enumerate().filter(|x| x.1 != Blank).collect();
    let mut at = 0;
    let root = node(&toks, &mut at, 1)?;
    if at == toks.len() {
        Some(root)
    } else {
        None
    }
}
fn par_at(i: usize, c: &str) -> P {
    p(&format!("{}{}", c, i), ty_at(i))
}
fn node(t: &[(usize, L)], at: &mut usize, n: usize) -> Option<Node> {
    let mut out = Node::default();
    while let Some((i, Q(k))) = t.get(*at) {
        if *k != n {
            break;
        }
        out.qp.push(par_at(*i, "q"));
        *at += 1;
    }
    while let Some((i, l)) = t.get(*at) {
        let redirect = match l {
            R(k) if *k == n => false,
            X(k) if *k == n => true,
            _ => break,
        };
        *at += 1;
        let mut r = Res {
            m: METHODS[i % 4],
            target: target_at(*i),
            redirect,
            qp: vec![],
        };
        while let Some((j, Q(k))) = t.get(*at) {
            if *k != n + 1 {
                break;
            }
            r.qp.push(par_at(*j, "q"));
            *at += 1;
        }
        out.res.push(r);
    }
    while let Some((i, l)) = t.get(*at) {
        let sg = match l {
            S(k) if *k == n => s(&format!("s{}", i)),
            D(k) if *k == n => Seg::D(par_at(*i, "p")),
            _ => break,
        };
        *at += 1;
        out.kids.push((sg, node(t, at, n + 1)?));
    }
    if out.res.is_empty() && out.kids.is_empty() {
        return None;
    }
    Some(out)
}

fn file(ls: &[L], var: usize, eol: &str) -> String {
    let mut t = format!("/{}", eol);
    for (i, l) in ls.iter().enumerate() {
        t.push_str(&spell(*l, i, var));
        t.push_str(eol);
    }
    t
}

/// Runs `f` on every sequence over `alpha` of length `0..=max`, in parallel.
fn each_seq(alpha: &[L], max: usize, f: &(dyn Fn(&[L]) + Sync)) {
    let heads = seqs(alpha, 2.min(max));
    par(&heads, |_, h| {
        f(h);
        if h.len() == 2 {
            fn go(cur: &mut Vec<L>, alpha: &[L], max: usize, f: &(dyn Fn(&[L]) + Sync)) {
                if cur.len() == max {
                    return;
                }
                for a in alpha {
                    cur.push(*a);
                    f(cur);
                    go(cur, alpha, max, f);
                    cur.pop();
                }
            }
            go(&mut h.clone(), alpha, max, f);
        }
    });
}

fn alphabets(t: bool) -> Vec<(Vec<L>, usize)> {
    let mut full = vec![Blank, Odd(0), Odd(1), Tab, S(0), R(0)];
    for n in 1..=3 {
        full.extend([R(n), X(n), Q(n), S(n), D(n)]);
    }
    let mut few = vec![Blank];
    for n in 1..=4 {
        few.extend([R(n), Q(n), S(n)]);
    }
    few.push(D(2));
    let deep: Vec<L> = (1..=7).flat_map(|n| [R(n), S(n)]).collect();
    if t {
        vec![(full, 6), (few, 7), (deep, 7)]
    } else {
        vec![(full, 5), (few, 6), (deep, 6)]
    }
}

pub fn c14(ctx: &Ctx) -> i32 {
    let accepted = AtomicU64::new(0);
    let report = |t: &str, what: String| {
        ctx.violate(|| Violation {
            what: format!("{} for the file {}", what, show(t.as_bytes())),
            files: vec![("input.routes".into(), t.into())],
        })
    };
    let judge = |t: &str, want: Option<&RouteConfig>| {
        ctx.eval(1);
        ctx.add(&ctx.traces, 1);
        if want.is_some() {
            ctx.add(&ctx.nontrivial, 1);
        }
        match (parse(t), want) {
            (Err(p), _) => report(t, format!("the parser panics: {}", p)),
            (Ok(None), Some(_)) => report(t, "a file in the documented format is refused".into()),
            (Ok(Some(c)), None) => report(t, format!("a file which is not in the documented format is read as <<{}>>", one_line(&c.stringify()))),
            (Ok(Some(c)), Some(w)) if c != *w => report(t, format!("the file is read as {:?} instead of {:?}", c, w)),
            _ => {}
        }
    };
    // every three features, as a file
    let mut files = crossed(3, false);
    files.extend(typed_confs());
    files.extend(vocabulary());
    par(&files, |k, c| {
        let (txt, want) = (text(c), wf_conf(c));
        ctx.add(&ctx.states, 1);
        judge(&txt, Some(&want));
        match k % 3 {
            0 => judge(&txt.replace('\n', "\r\n"), Some(&want)),
            1 => judge(&txt.replace('\n', "\n\n"), Some(&want)),
            _ => judge(&txt.lines().rev().skip(1).collect::<Vec<_>>().into_iter().rev().map(|l| format!("{}\n\r\n", l)).chain([txt.lines().last().unwrap_or("").to_string() + "\n"]).collect::<String>(), Some(&want)),
        }
    });
    ctx.set("files_of_three_features", files.len());
    // line sequences
    for (alpha, max) in alphabets(ctx.thorough) {
        let total = AtomicU64::new(0);
        each_seq(&alpha, max, &|ls| {
            let n = total.fetch_add(1, Relaxed);
            let want = reference(ls).map(|root| {
                wf_conf(&Conf {
                    headers: vec![],
                    root,
                })
            });
            // refused sequences in one spelling, accepted ones in all
            judge(&file(ls, (n % 3) as usize, "\n"), want.as_ref());
            if want.is_some() {
                accepted.fetch_add(1, Relaxed);
                for (var, eol) in [(0, "\n"), (1, "\r\n"), (2, "\n"), (0, "\n\n"), (0, "\n\r\n")] {
                    judge(&file(ls, var, eol), want.as_ref());
                }
                // no final newline
                let t = file(ls, 0, "\n");
                if !t.ends_with("\n\n") {
                    judge(&t[..t.len() - 1], None);
                }
                ctx.add(&ctx.transitions, ls.len());
            }
        });
        ctx.add(&ctx.states, total.into_inner() as usize);
    }
    // long files: each line moved to each level, to each other place, left out, doubled
    let depths: &[usize] = if ctx.thorough { &[8, 10, 12, 16, 17, 20, 33, 40, 64] } else { &[8, 10, 17, 20, 33] };
    let mut long: Vec<Vec<L>> = vec![];
    for &n in depths {
        let mut chain = vec![];
        let mut comb = vec![Q(1)];
        let mut bare = vec![];
        for k in 1..=n {
            chain.extend([R(k), S(k)]);
            comb.extend([R(k), Q(k + 1), if k % 2 == 0 { S(k) } else { D(k) }, Q(k + 1)]);
            bare.push(D(k));
        }
        chain.push(R(n + 1));
        comb.extend([X(n + 1), Q(n + 2), S(n), R(n + 1)]);
        bare.push(R(n + 1));
        for k in (1..=n).rev() {
            bare.extend([S(k), R(k + 1), Q(k + 2)]);
        }
        long.extend([chain, comb, bare]);
    }
    let relevel = |l: L, k: usize| match l {
        R(_) => R(k),
        X(_) => X(k),
        Q(_) => Q(k),
        S(_) => S(k),
        D(_) => D(k),
        l => l,
    };
    let moves = |ls: &[L]| -> Vec<Vec<L>> {
        let mut out = vec![ls.to_vec()];
        let top = ls.iter().filter_map(|l| level(*l)).max().unwrap_or(0) + 2;
        for i in 0..ls.len() {
            for k in 0..=top {
                let mut v = ls.to_vec();
                v[i] = relevel(v[i], k);
                out.push(v);
            }
            for x in [Blank, Tab, Odd(i / 2)] {
                let mut v = ls.to_vec();
                v.insert(i, x);
                out.push(v);
            }
            let mut v = ls.to_vec();
            v.remove(i);
            out.push(v);
            let mut v = ls.to_vec();
            v.insert(i, ls[i]);
            out.push(v);
            for j in [i + 1, i + 2, i + 5, i / 2, 0] {
                if j < ls.len() && j != i {
                    let mut v = ls.to_vec();
                    v.swap(i, j);
                    out.push(v);
                }
            }
        }
        out
    };
    par(&long, |n, ls| {
        let mut all = moves(ls);
        if n < if ctx.thorough { 9 } else { 1 } {
            let firsts: Vec<Vec<L>> = all.clone();
            for f in firsts.iter().step_by(3) {
                all.extend(moves(f).into_iter().step_by(2));
            }
        }
        ctx.add(&ctx.states, all.len());
        for (k, v) in all.iter().enumerate() {
            let want = reference(v).map(|root| wf_conf(&Conf { headers: vec![], root }));
            judge(&file(v, k % 3, ["\n", "\r\n"][k % 2]), want.as_ref());
        }
    });
    ctx.set("accepted_line_sequences", accepted.into_inner());
    // words: method names as segments, targets, parameters, types, modules
    let words = [
        "get", "GET", "post", "posts", "getting", "Put", "putty", "delete", "DELETE_all", "_", "_x", "x_", "7", "7up", "\u{e9}t\u{e9}", "A", "a__b", "use",
    ];
    let mut texts: Vec<(String, Conf)> = vec![];
    for a in words {
        for b in words {
            let mut c = Conf::default();
            c.root.kids.push((
                s(a),
                Node {
                    res: vec![res(M::Get, &format!("{}::{}", a, b)), redir(M::Post, b), res(M::Put, a)],
                    kids: vec![(s(b), with(vec![res(M::Delete, b)], vec![]))],
                    qp: vec![p(b, Ty::Str)],
                },
            ));
            c.root.res.push(Res {
                m: M::Delete,
                target: vec![b.into()],
                redirect: false,
                qp: vec![p(a, Ty::U8), p(b, Ty::Bool)],
            });
            c.root.kids.push((d(b, Ty::Char), with(vec![res(M::Get, a)], vec![])));
            texts.push((text(&c), c));
        }
    }
    // headers
    let hs = [
        "", "use a::b;", "  indented", "/x", "//", "/ x", "/ ", " /", "  GET a", "GET a", "\ttab", "{", "\u{e9}", "trailing  ", "[a: b]", "-> x",
    ];
    let tail = with(vec![res(M::Get, "A")], vec![]);
    for seq in seqs(&hs, if ctx.thorough { 4 } else { 3 }) {
        let mut t = String::new();
        for h in &seq {
            t.push_str(h);
            t.push('\n');
        }
        t.push_str("/\n  GET A\n");
        texts.push((
            t,
            Conf {
                headers: seq.iter().filter(|h| !h.is_empty()).map(|h| h.to_string()).collect(),
                root: tail.clone(),
            },
        ));
    }
    // every mixture of cases in a method
    for m in METHODS {
        let w = m.verb();
        for bits in 0u32..1 << w.len() {
            let mixed: String = w.chars().enumerate().map(|(i, c)| if bits >> i & 1 == 1 { c.to_ascii_lowercase() } else { c }).collect();
            let mut c = Conf::default();
            c.root.res.push(res(m, "A"));
            c.root.kids.push((s("x"), with(vec![redir(m, "A")], vec![])));
            texts.push((format!("/\n  {} A\n  x\n    {} -> A\n", mixed, mixed), c));
        }
    }
    // many and long names
    for n in [9usize, 17, 33, 65, 129, 257, 1000] {
        let w = |c: &str| c.repeat(n);
        let mut r = res(M::Get, &(0..n).map(|k| format!("M{}", k)).collect::<Vec<_>>().join("::"));
        r.qp = (0..n).map(|k| p(&format!("q{}", k), TYPES[k % 6])).collect();
        let mut c = Conf {
            headers: (0..n).map(|k| format!("use m{};", k)).collect(),
            root: with(vec![r, redir(M::Put, &format!("{}::{}", w("N"), w("n")))], vec![]),
        };
        c.headers.push(format!("// {}", w("x ")));
        c.root.qp = (0..n).map(|k| p(&format!("{}{}", w("r"), k), TYPES[k % 6])).collect();
        c.root.kids.push((s(&w("s")), with(vec![res(M::Delete, &w("T"))], vec![(d(&w("p"), Ty::Char), leaf())])));
        texts.push((text(&number(c.root.clone())), number(c.root.clone())));
        let c = Conf { headers: c.headers, ..number(c.root) };
        texts.push((text(&c), c));
    }
    // long and deep ones
    for n in [10usize, 40, 100] {
        let mut c = Conf::default();
        let mut cur = with(vec![res(M::Get, "Last")], vec![]);
        for k in 0..n {
            cur = with(
                if k % 3 == 0 { vec![res(M::Put, "Mid")] } else { vec![] },
                vec![(if k % 4 == 0 { d(&format!("p{}", k), Ty::U8) } else { s(&format!("s{}", k)) }, cur)],
            );
        }
        c.root = cur;
        texts.push((text(&c), c));
        let wide = Conf {
            headers: vec![],
            root: with(
                (0..n * 10).map(|k| res(METHODS[k % 4], &format!("A{}", k))).collect(),
                (0..n * 10).map(|k| (s(&format!("w{}", k)), with(vec![res(M::Get, "A")], vec![]))).collect(),
            ),
        };
        texts.push((text(&wide), wide));
    }
    par(&texts, |_, (t, c)| {
        let w = wf_conf(c);
        judge(t, Some(&w));
        judge(&t.replace('\n', "\r\n"), Some(&w));
        judge(&t.replace('\n', "\n\n"), Some(&w));
        judge(&format!("\n\n{}\n\n", t), Some(&w));
    });
    ctx.add(&ctx.states, texts.len());
    // no line of just a slash, or nothing behind it
    for t in ["", "/", "\n", "/\n", "use x;\n", "use x;\n/", "/\n/\n", "/\n\n\n", "  /\n  GET A\n", "/ \n  GET A\n", "GET A\n", "/a\n  GET A\n", "/\n  GET A\n/\n  GET B\n", "/\n  GET A\nx\n"] {
        judge(t, None);
    }
    // character by character
    let open = AtomicU64::new(0);
    let spelled = AtomicU64::new(0);
    let by_reader = |t: &str| match reader::read(t) {
        reader::Verdict::Reads(c) => {
            spelled.fetch_add(1, Relaxed);
            judge(t, Some(&c))
        }
        reader::Verdict::Refused => judge(t, None),
        reader::Verdict::Open => {
            open.fetch_add(1, Relaxed);
        }
    };
    for (t, c) in &texts {
        // the two references agree
        match reader::read(t) {
            reader::Verdict::Reads(r) if r == wf_conf(c) => {}
            _ => {
                eprintln!("machinery: the reader does not read {}", show(t.as_bytes()));
                return 3;
            }
        }
    }
    let bases = [
        "/\n  GET A\n",
        "/\n  a\n    GET A\n",
        "use x;\n\n/\n  [q: u8]\n  GET A\n    [r: b]\n  put -> M::B\n  a_1\n    {p: u8}\n      Post C\n  {n:T}\n    delete ->  C::D\n",
        "/\n  { p : String }\n    [ q:i32 ]\n\n    get\n      GET Get\n    POST A :: B\n\n      [z: char]\n\n\n    get A\n",
        "/\r\n  [q: u8]\r\n\r\n  GET A\r\n    [r: b]\r\n  a\r\n    DELETE -> B\r\n      [s: c]\r\n",
    ];
    let printable: Vec<String> = (0x20u8..0x7f).chain([9, 10, 0, 0x7f]).map(|b| (b as char).to_string()).chain(["\u{e9}".into(), "\u{a0}".into(), "\u{2192}".into(), "\r\n".into(), "  ".into(), "->".into(), "::".into(), "GET ".into(), "//".into(), "\n\n".into(), "\n  ".into(), "\n    ".into()]).chain(["\r", "\u{feff}", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{2029}", "\u{3000}", "\u{200b}", "\u{301}", "\u{ad}", "\u{ff21}", "\u{663}", "\u{1f600}", "\u{ff0f}", "\u{37e}", "\u{2f}\r", "\r\r\n"].map(String::from)).collect();
    let few: Vec<String> = ["\r", "\u{feff}", "a", " ", "  ", "\t", "\n", "\n  ", ":", "[", "}", "-", ">", "/", ";", "."].iter().map(|x| x.to_string()).collect();
    let edited = |t: &str, tokens: &[String]| -> Vec<String> {
        let mut out = vec![];
        let cs: Vec<char> = t.chars().collect();
        for i in 0..=cs.len() {
            let (pre, post): (String, String) = (cs[..i].iter().collect(), cs[i..].iter().collect());
            let rest: String = cs[i..].iter().skip(1).collect();
            for k in tokens {
                out.push(format!("{}{}{}", pre, k, post));
                if i < cs.len() {
                    out.push(format!("{}{}{}", pre, k, rest));
                }
            }
            if i < cs.len() {
                out.push(format!("{}{}", pre, rest));
            }
            if i + 1 < cs.len() {
                let rest: String = cs[i + 2..].iter().collect();
                out.push(format!("{}{}{}{}", pre, cs[i + 1], cs[i], rest));
            }
        }
        out
    };
    let mut all = vec![];
    let mut twice = vec![];
    for (n, b) in bases.iter().enumerate() {
        all.extend(edited(b, &printable));
        if n < 2 || ctx.thorough {
            twice.extend(edited(b, if n < 2 { &printable } else { &few }));
        }
    }
    ctx.add(&ctx.states, all.len());
    par(&all, |_, t| by_reader(t));
    par(&twice, |_, t| {
        let v = edited(t, if t.len() < 40 { &printable } else { &few });
        ctx.add(&ctx.states, v.len());
        for u in v {
            by_reader(&u);
        }
    });
    // every sequence of tokens as the text of a line
    let tokens = ["GET", "get", "Delete", " ", "\t", "a", "B_1", "->", "::", ":", "[", "]", "{", "}", "-", "\n", "/"];
    let depth = if ctx.thorough { 6 } else { 5 };
    let firsts: Vec<Vec<&str>> = seqs(&tokens, 2);
    for (before, after) in [("/\n  ", "\n"), ("/\n  GET ", "\n"), ("/\n  GET A\n    [", "]\n"), ("/\n  {", "}\n    GET A\n"), ("/\n  GET A\n  ", "\n    PUT B\n")] {
        par(&firsts, |_, f| {
            fn go(t: &mut String, tokens: &[&str], left: usize, after: &str, f: &dyn Fn(&str)) {
                let n = t.len();
                t.push_str(after);
                f(t);
                t.truncate(n);
                if left > 0 {
                    for k in tokens {
                        t.push_str(k);
                        go(t, tokens, left - 1, after, f);
                        t.truncate(n);
                    }
                }
            }
            let mut t = format!("{}{}", before, f.concat());
            go(&mut t, &tokens, if f.len() == 2 { depth - 2 } else { 0 }, after, &|t| {
                ctx.add(&ctx.states, 1);
                by_reader(t)
            });
        });
    }
    ctx.set("texts_left_open", open.into_inner());
    ctx.set("edited_texts_which_are_accepted", spelled.into_inner());
    for (t, _) in texts.iter().step_by(texts.len() / 3) {
        ctx.sample(|| show(t.as_bytes()));
    }
    ctx.sample(|| show(file(&[S(1), D(2), R(3), Q(4), S(2), X(3)], 2, "\n").as_bytes()));
    ctx.finish(
        "model_checking",
        "every sequence of lines over (five kinds x three levels, blank, odd and tab indentation, unindented) up to 5 (6) lines, over fewer kinds up to 6 (7), over seven levels up to 6 (7); each accepted one again in three spellings, with LF, CRLF, mixed and doubled line ends and without the final one; all pairs of eighteen words in every place of a name; all sequences of up to 3 (4) of sixteen header lines; also: compared with a second reference, which reads character by character: every single edit of five files with all printable characters, pairs of edits of the short ones (thorough: of all), and every sequence of up to 5 (6) of 17 tokens at five places; every three of twenty features of one place together (S7) as files with three forms of line ends. Acceptance and tree are compared with the reference parser's; non-trivial: accepted",
        &["the reference parser works on lines, the real one on characters"],
    )
}

// ---------------------------------------------------------------------- C13

pub fn c13(ctx: &Ctx) -> i32 {
    let seen = AtomicU64::new(0);
    let check = |cfg: &RouteConfig, from: &str| {
        ctx.eval(1);
        ctx.add(&ctx.traces, 1);
        let t = match probe(&[b"stringify of: ", from.as_bytes()], || cfg.stringify()) {
            Ok(t) => t,
            Err(e) => {
                ctx.violate(|| Violation {
                    what: format!("stringify panics: {} for <<{}>>", e, from.trim_end()),
                    files: vec![("config.routes".into(), from.into())],
                });
                return;
            }
        };
        if t.lines().count() > 2 {
            ctx.add(&ctx.nontrivial, 1);
        }
        let bad = match parse(&t) {
            Err(e) => Some(format!("the parser panics: {}", e)),
            Ok(None) => Some("its text does not parse".to_string()),
            Ok(Some(c)) if c != *cfg => Some(format!("its text parses to {:?}", c)),
            Ok(Some(c)) => {
                let u = c.stringify();
                if u != t {
                    Some("its text is not the same the second time".into())
                } else {
                    None
                }
            }
        };
        if let Some(b) = bad {
            ctx.violate(|| Violation {
                what: format!("the configuration <<{}>>: {}; text {}", from.trim_end(), b, show(t.as_bytes())),
                files: vec![("config.routes".into(), from.into()), ("stringified.routes".into(), t.clone())],
            });
        }
    };
    /// every route declares something, and segments are words
    fn full(n: &Node) -> bool {
        (!n.res.is_empty() || !n.kids.is_empty())
            && n.kids.iter().all(|k| full(&k.1) && !matches!(&k.0, Seg::S(w) if !w.chars().all(|c| c.is_alphanumeric() || c == '_')))
    }
    let mut confs = wellformed(ctx.thorough);
    confs.extend(redirect_confs(ctx.thorough));
    confs.extend(conflicts(ctx.thorough).into_iter().map(|d| d.conf));
    confs.extend(crossed(3, false));
    for n in (1..60).chain([64, 65, 80, 100, 127, 128, 129, 150, 200, 255, 256, 257, 300]) {
        let mut cur = leaf();
        for k in 0..n {
            cur = with(vec![], vec![(if k % 2 == 0 { s("x") } else { d("y", Ty::Str) }, cur)]);
        }
        confs.push(number(cur));
    }
    // everything at every level
    for n in [3usize, 7, 8, 9, 16, 17, 32, 33, 50, 64, 65, 100, 130] {
        let mut cur = leaf();
        for k in (0..n).rev() {
            let mut r = res(METHODS[k % 4], &format!("A::B{}::C{}", k, k));
            r.qp = (0..k % 3).map(|i| p(&format!("v{}", i), TYPES[(i + k) % 6])).collect();
            let mut go = redir(METHODS[(k + 1) % 4], &format!("A::B{}::C{}", k, k));
            go.qp = r.qp.clone();
            let seg = if k % 2 == 0 { d(&format!("p{}", k), TYPES[k % 6]) } else { s(&format!("s{}", k)) };
            cur = with(vec![r, go], vec![(s("a"), with(vec![], vec![(s("b"), leaf())])), (seg, cur), (s("z"), leaf())]);
            cur.qp = (0..k % 4).map(|i| p(&format!("w{}x{}", i, k), TYPES[(i + k) % 6])).collect();
        }
        let mut c = number(cur);
        c.headers = vec!["use a::b;".into(); n % 3];
        confs.push(c);
    }
    let hs = ["use a::b;", "  indented", "/x", "//", "/ x", " /", "GET a", "\ttab", "{}", "\u{e9}", "trailing  ", "/ "];
    for seq in seqs(&hs, if ctx.thorough { 4 } else { 3 }) {
        let mut c = number(with(vec![anon(M::Get)], vec![(s("x"), leaf())]));
        c.headers = seq.iter().map(|x| x.to_string()).collect();
        confs.push(c);
    }
    confs.retain(|c| full(&c.root));
    par(&confs, |_, c| check(&wf_conf(c), &text(c)));
    ctx.add(&ctx.states, confs.len());
    let mut lens: Vec<(Vec<L>, usize)> = alphabets(ctx.thorough);
    lens.truncate(2);
    for (alpha, max) in lens {
        // trees: blank and misindented lines declare nothing
        let alpha: Vec<L> = alpha.into_iter().filter(|l| level(*l).map_or(false, |n| n > 0)).collect();
        each_seq(&alpha, max + 1, &|ls| {
            if let Some(root) = reference(ls) {
                seen.fetch_add(1, Relaxed);
                ctx.add(&ctx.transitions, ls.len());
                let c = Conf {
                    headers: if ls.len() % 2 == 0 { vec![] } else { vec!["use x;".into(), "y".into()] },
                    root,
                };
                check(&wf_conf(&c), &text(&c));
            }
        });
    }
    ctx.add(&ctx.states, seen.load(SeqCst) as usize);
    ctx.set("trees_from_line_sequences", seen.into_inner());
    for k in [11, confs.len() / 2] {
        ctx.sample(|| text(&confs[k]).trim_end().replace('\n', " ; "));
    }
    ctx.finish(
        "model_checking",
        "every configuration of all families, conflicting and redirecting ones included, chains up to 60 levels and on to 300, all sequences of up to 3 (4) of twelve header lines, and every tree declared by up to 6 (7) lines over five kinds and three levels or up to 7 (8) over fewer kinds and four levels: stringify, parse, compare, stringify again; also: every three of twenty features of one place together (S7); every further type; parameters named as their types; hundreds of query parameters, header lines and children; non-trivial: more than two lines",
        &["every route of the configuration declares something, names are identifiers, headers are lines which are neither blank nor just a slash"],
    )
}

// ---------------------------------------------------------------------- C15

fn squash(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace()).flat_map(|c| c.to_lowercase()).collect()
}

/// Positions the error value holds, if it holds a list.
fn positions<E: std::fmt::Debug>(t: &str, r: &nom::IResult<CompleteStr, E>) -> Option<Vec<usize>> {
    match r {
        Err(nom::Err::Error(nom::Context::List(v))) | Err(nom::Err::Failure(nom::Context::List(v))) => {
            Some(v.iter().map(|(i, _)| t.len() - i.len()).collect())
        }
        _ => None,
    }
}

/// What is wrong with the diagnostics of an error, if anything.
fn diagnostics(t: &str, out: &str, prefix: &str, at: Option<Vec<usize>>) -> Result<usize, String> {
    if !out.ends_with('\n') {
        return Err("the diagnostics do not end with a line end".into());
    }
    let ls: Vec<&str> = out[..out.len() - 1].split('\n').collect();
    if ls.len() % 2 == 1 {
        return Err("the diagnostics are not pairs of lines".into());
    }
    let src: Vec<&str> = t.split('\n').collect();
    let mut marks: HashSet<(usize, usize)> = HashSet::new();
    for pair in ls.chunks(2) {
        let (a, b) = match (pair[0].strip_prefix(prefix), pair[1].strip_prefix(prefix)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Err("a line of the diagnostics lacks the prefix".into()),
        };
        let (no, quoted) = match a.split_once(':') {
            Some((n, q)) => (n.trim(), q),
            None => return Err(format!("no line number in {:?}", a)),
        };
        let no: usize = no.parse().map_err(|_| format!("no line number in {:?}", a))?;
        if no == 0 || no > src.len() {
            return Err(format!("line {} does not exist", no));
        }
        let line = src[no - 1];
        if quoted.trim_end_matches('\r') != line.trim_end_matches('\r') {
            return Err(format!("line {} is quoted as {:?} but is {:?}", no, quoted, line));
        }
        let lead = a.len() - quoted.len();
        let caret = match b.find('^') {
            Some(c) if b[..c].chars().all(|x| x == ' ') => c,
            _ => return Err(format!("no marker in {:?}", b)),
        };
        let width = line.chars().count();
        if caret < lead || caret > lead + width {
            return Err(format!("the marker is at column {} of {:?}", caret as isize - lead as isize, line));
        }
        let msg = b[caret + 1..].trim();
        if msg.is_empty() || msg.starts_with("Unknown error") || msg == "xyzzy" {
            return Err(format!("the message {:?} says nothing", msg));
        }
        marks.insert((no, caret - lead));
    }
    if let Some(at) = at {
        let want: HashSet<(usize, usize)> = at
            .iter()
            .map(|p| {
                let before = &t[..*p];
                let start = before.rfind('\n').map_or(0, |x| x + 1);
                (before.matches('\n').count() + 1, t[start..*p].chars().count())
            })
            .collect();
        if want != marks {
            return Err(format!("the markers are at {:?} but the errors at {:?}", marks, want));
        }
    }
    Ok(ls.len() / 2)
}

fn fails_cleanly(ctx: &Ctx, t: &str, kinds: &Mutex<HashSet<String>>) {
    ctx.eval(1);
    ctx.add(&ctx.traces, 1);
    let report = |what: String| {
        ctx.violate(|| Violation {
            what: format!("{} for the file {}", what, show(t.as_bytes())),
            files: vec![("input.routes".into(), t.into())],
        })
    };
    let r = probe(&[b"parse and diagnose: ", t.as_bytes()], || {
        let r = wayfinder::parse::route_config(t);
        match r {
            Ok((rest, c)) => {
                let left = rest.len();
                let text = c.stringify();
                let mut out: Vec<u8> = vec![];
                wayfinder::parse::errors::show_errors(&mut out, t, Ok((rest, c)), "p");
                Ok((left, text, out))
            }
            r => {
                let at = positions(t, &r);
                let mut outs: Vec<(&str, Vec<u8>)> = vec![];
                for prefix in ["", "\u{e9}> "] {
                    let mut out: Vec<u8> = vec![];
                    wayfinder::parse::errors::show_errors(&mut out, t, wayfinder::parse::route_config(t), prefix);
                    outs.push((prefix, out));
                }
                Err((at, outs))
            }
        }
    });
    match r {
        Err(p) => report(format!("a panic: {}", p)),
        Ok(Ok((left, text, out))) => {
            if left > 0 {
                report(format!("accepted with {} bytes unread", left));
            } else if !out.is_empty() {
                report("diagnostics are printed for an accepted file".into());
            } else if squash(&text) != squash(t) {
                report(format!("accepted, but read as <<{}>>", one_line(&text)));
            }
        }
        Ok(Err((at, outs))) => {
            ctx.add(&ctx.nontrivial, 1);
            for (prefix, out) in outs {
                match String::from_utf8(out) {
                    Err(_) => report("the diagnostics are not UTF-8".into()),
                    Ok(o) => match diagnostics(t, &o, prefix, at.clone()) {
                        Err(w) => report(format!("{}; diagnostics {}", w, show(o.as_bytes()))),
                        Ok(0) => report("refused without any diagnostics".into()),
                        Ok(_) => {
                            if prefix.is_empty() {
                                let k: Vec<&str> = o.lines().skip(1).step_by(2).map(|l| l.trim_start_matches([' ', '^'])).collect();
                                let mut g = kinds.lock().unwrap();
                                if g.len() < 5000 {
                                    g.insert(k.join("|"));
                                }
                            }
                        }
                    },
                }
            }
        }
    }
}

const EXEMPLARS: &[&str] = &[
    "/\n  GET Home\n",
    "use uuid::Uuid;\n// x\n\n/\n  [lang: String]\n  GET Index\n    [page: u32]\n\n  users\n    GET Users::List\n    POST -> Index\n\n    {id: Uuid}\n      PUT Users::Show\n",
    "/\n  a\n    b\n      {c: u8}\n        DELETE A::B::C\n          [d: i32]\n          [e: bool]\n  f\n    GET -> A::B::C\n",
    "\u{e9}\u{1f600}\n/\n  \u{e9}t\u{e9}\n    GET \u{c9}t\u{e9}\n      [\u{fc}: \u{df}]\n    {\u{e6}: T}\n      GET X\n",
    "/\r\n  GET A\r\n    [p: u8]\r\n\r\n  x\r\n    PUT B\r\n",
];

fn edits(t: &str) -> Vec<String> {
    let cs: Vec<char> = t.chars().collect();
    let ins = ['\n', ' ', '/', '{', '}', '[', ']', ':', '-', '>', 'a', 'G', '\u{e9}', '\r', '\t', '\0', '#', '\u{2028}', '\u{a0}'];
    let mk = |f: &dyn Fn(&mut Vec<char>)| {
        let mut v = cs.clone();
        f(&mut v);
        v.into_iter().collect::<String>()
    };
    let mut out: Vec<String> = vec![t.into()];
    for i in 0..=cs.len() {
        out.push(cs[..i].iter().collect());
        out.push(cs[i..].iter().collect());
        for c in ins {
            out.push(mk(&|v| v.insert(i, c)));
            if i < cs.len() {
                out.push(mk(&|v| v[i] = c));
            }
        }
        if i < cs.len() {
            out.push(mk(&|v| {
                v.remove(i);
            }));
            out.push(mk(&|v| v.insert(i, cs[i])));
            if i + 1 < cs.len() {
                out.push(mk(&|v| v.swap(i, i + 1)));
            }
        }
    }
    let ls: Vec<&str> = t.split_inclusive('\n').collect();
    let mut lines = |f: &dyn Fn(&mut Vec<String>)| {
        let mut v: Vec<String> = ls.iter().map(|x| x.to_string()).collect();
        f(&mut v);
        out.push(v.concat());
    };
    for i in 0..ls.len() {
        lines(&|v| {
            v.remove(i);
        });
        lines(&|v| v.insert(i, ls[i].into()));
        lines(&|v| v[i] = format!("  {}", ls[i]));
        lines(&|v| v[i] = ls[i].trim_start_matches(' ').into());
        lines(&|v| v[i] = ls[i].strip_prefix("  ").unwrap_or(ls[i]).into());
        lines(&|v| v[i] = format!("{} \n", ls[i].trim_end()));
        for j in 0..ls.len() {
            if i != j {
                lines(&|v| v.swap(i, j));
                lines(&|v| {
                    let x = v.remove(i);
                    v.insert(j.min(v.len()), x);
                });
            }
        }
    }
    out
}

pub fn c15(ctx: &Ctx) -> i32 {
    let kinds: Mutex<HashSet<String>> = Default::default();
    let toks = [
        "\n", "  ", " ", "GET ", "a", "::", "->", "{", "}", "[", "]", ":", "b", "\u{e9}", "/\n", "\r\n", "\t", "{p: u8}", "[q: u8]",
    ];
    let n = if ctx.thorough { 6 } else { 5 };
    let pre = ["", "/\n", "/\n  ", "/\n  GET a\n  ", "/\n  a\n    GET a\n  ", "/\n  a\n    GET a\n  b\n    ", "\u{e9}\n/\n  GET a\n    "];
    let heads: Vec<(usize, Vec<usize>)> = (0..pre.len())
        .flat_map(|k| seqs(&(0..toks.len()).collect::<Vec<_>>(), 2).into_iter().map(move |s| (k, s)))
        .collect();
    let count = AtomicU64::new(0);
    par(&heads, |_, (k, s)| {
        fn go(ctx: &Ctx, t: &str, left: usize, toks: &[&str], kinds: &Mutex<HashSet<String>>, count: &AtomicU64) {
            count.fetch_add(1, Relaxed);
            fails_cleanly(ctx, t, kinds);
            if left > 0 {
                for x in toks {
                    go(ctx, &format!("{}{}", t, x), left - 1, toks, kinds, count);
                }
            }
        }
        let t = format!("{}{}", pre[*k], s.iter().map(|i| toks[*i]).collect::<String>());
        go(ctx, &t, if s.len() == 2 { n - 2 } else { 0 }, &toks, &kinds, &count);
    });
    ctx.add(&ctx.states, count.load(SeqCst) as usize);
    ctx.set("token_strings", count.into_inner());
    let mut edited = 0;
    for (i, e) in EXEMPLARS.iter().enumerate() {
        let one = edits(e);
        if ctx.thorough {
            // all pairs of edits of the shorter files
            if e.chars().count() <= 60 {
                let n = AtomicU64::new(0);
                par(&one, |_, t| {
                    for u in edits(t) {
                        n.fetch_add(1, Relaxed);
                        fails_cleanly(ctx, &u, &kinds);
                    }
                });
                edited += n.into_inner();
            }
        }
        par(&one, |_, t| fails_cleanly(ctx, t, &kinds));
        edited += one.len() as u64;
        ctx.sample(|| show(one[one.len() / 3 + i].as_bytes()));
    }
    // large, deep and long-lined inputs with a fault at the end
    let mut odd: Vec<String> = vec![];
    for n in [9usize, 99, 999, 9999, 10000] {
        odd.push(format!("/\n{}  GET a b\n", "  GET a\n".repeat(n)));
        odd.push(format!("{}/\n  GET a\n  [x\n", "use x;\n".repeat(n)));
        odd.push(format!("/\n  GET {}\n  GET a b\n", "a".repeat(n)));
        odd.push(format!("/\n  GET {} b\n", "\u{e9}".repeat(n)));
    }
    for n in [5usize, 20, 60, 130] {
        let mut t = String::from("/\n");
        for k in 1..=n {
            t.push_str(&format!("{}a\n{}  GET x\n", "  ".repeat(k), "  ".repeat(k)));
        }
        odd.push(format!("{}{}GET x y\n", t, "  ".repeat(n + 1)));
        odd.push(format!("{}{}[q u8]\n", t, "  ".repeat(n + 2)));
        odd.push(t);
    }
    for n in [65530usize, 65536, 100_000] {
        odd.push(format!("/\n  GET a\n  GET {} b\n", "a".repeat(n)));
        odd.push(format!("/\n  GET a\n  {}GET b\n", " ".repeat(n)));
    }
    par(&odd, |_, t| fails_cleanly(ctx, t, &kinds));
    ctx.add(&ctx.transitions, edited as usize);
    ctx.set("edited_files", edited);
    let kinds = kinds.into_inner().unwrap();
    ctx.set("distinct_diagnostics", kinds.len());
    ctx.finish(
        "model_checking",
        "every string of up to 5 (6) of nineteen tokens behind seven beginnings, and every single edit (and every pair of edits of the shorter ones, in the thorough tier) of five files: truncations at both ends, insertions and replacements by nineteen characters, deletions, duplications, swaps, and moves, copies and reindentations of lines; files of up to ten thousand lines; also: lines up to 100 000 characters. Non-trivial: refused, so that diagnostics are printed and judged",
        &["diagnostics are pairs of lines: number and text, marker and message"],
    )
}
