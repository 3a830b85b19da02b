//! Checks of what generated routers answer.

use crate::ctx::{one_line, Ctx, Violation};
use crate::explore::*;
use crate::families::*;
use crate::model::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;

const WORDS: [&str; 6] = ["a", "b", "ab", "ac", "abc", "ba"];
const DYNS: [Option<Ty>; 3] = [None, Some(Ty::Str), Some(Ty::U8)];

/// The configurations most of the matching checks share.
pub fn structures(thorough: bool) -> Vec<Conf> {
    let sib = siblings(&WORDS, if thorough { 4 } else { 3 }, &DYNS, true);
    let mut v = sib.clone();
    let small = siblings(&["a", "ab", "ac", "b"], if thorough { 3 } else { 2 }, &DYNS, false);
    v.extend(under(vec![s("a")], &small));
    v.extend(under(vec![dy(Ty::Str)], &small));
    let segs = [s("a"), s("ab"), dy(Ty::Str), dy(Ty::U8)];
    v.extend(chains(&segs, if thorough { 4 } else { 3 }));
    v.extend(two_level(
        if thorough { 3 } else { 2 },
        &[s("a"), s("ab"), dy(Ty::Str)],
        &[s("a"), s("b"), dy(Ty::Str)],
    ));
    if thorough {
        v.extend(under(vec![s("ab"), dy(Ty::U8)], &small));
        v.extend(siblings(&["new", "newer", "news", "old", "ne"], 4, &DYNS, false));
        v.extend(siblings(&["a1", "a2", "A", "_", "a_b", "1"], 3, &DYNS, false));
    }
    dedup(v)
}

fn opts(thorough: bool) -> PathOpts {
    PathOpts {
        chars: if thorough { 5 } else { 4 },
        ext: if thorough { 2 } else { 1 },
        ..PathOpts::default()
    }
}
pub fn scale_opts() -> PathOpts {
    PathOpts {
        chars: 2,
        ext: 1,
        cap_alphabet: 4,
        ..PathOpts::default()
    }
}

/// `H0(H0 { .. })` -> `H0(H0`
fn target_of(debug: &str) -> &str {
    debug.split(" {").next().unwrap().trim_end_matches(')')
}

pub fn verbs(c: &Conf) -> Vec<&'static [u8]> {
    let mut v: Vec<&'static [u8]> = vec![];
    for a in actions(c) {
        let b = a.m.verb().as_bytes();
        if !v.contains(&b) {
            v.push(b);
        }
    }
    v
}

// ---------------------------------------------------------------------- C01

fn which(w: &str) -> Option<String> {
    Some(match &w[..1.min(w.len())] {
        "R" | "D" => target_of(field(w, 1)).to_string(),
        k => k.to_string(),
    })
}

pub fn c01(ctx: &Ctx) -> i32 {
    let t = ctx.thorough;
    let j = Judge {
        ctx,
        why: "wrong resource",
        quirks: Quirks::Known,
        proj: &which,
    };
    let st = structures(t);
    let nst = st.len();
    let o = opts(t);
    let so = scale_opts();
    let mut confs = st;
    confs.extend(scale(t));
    confs.extend(far(t));
    confs.extend(labelled(t));
    confs.extend(pairs(t));
    let mut merged = 0;
    for set in wide_sets(t) {
        let (reps, m) = consed(&set, 40);
        merged += m;
        confs.extend(reps);
    }
    ctx.set("declaration_orders_merged_because_the_module_is_the_same", merged);
    let confs = confs;
    each_router(
        ctx,
        &Job::new(&confs),
        &|i, c, r, code| explore(ctx, c, r, code, &paths(c, if i < nst { &o } else { &so }), &verbs(c), &j),
        &must_build(ctx),
    );
    ctx.set("configurations", confs.len());
    ctx.finish(
        "model_checking",
        "every configuration of the families (sets of siblings with shared leading text with and without a parameter; chains; two-level products; every tree of up to 2 (3) nodes with every assignment of resource sets; sets of six siblings in all orders; scale sweeps), and for each every path over its alphabet up to a length plus every prefix of every declared path with every extension, every segment edit and every parameter text; also: words up to 1001 (2000) characters, 257 (300) siblings and 65 (100) segments; every two of twenty features of one place together (S7; thorough: every four at their extremes); a configuration of these which gives no matcher is a violation; non-trivial: the model's answer is a resource",
        &["static segments are printable ASCII without / \" \\ { }", "rustc compiles the generated module faithfully"],
    )
}

// ---------------------------------------------------------------------- C02

const ODD_METHODS: &[&[u8]] = &[
    b"GET", b"POST", b"PUT", b"DELETE", b"", b"get", b"Get", b"GE", b"GETT", b" GET", b"GET ", b"HEAD", b"OPTIONS",
    b"PATCH", b"POSTGET", b"PU", b"PUTPUT", b"DELET", b"DELETES", b"\xff", b"\0", b"G", b"/",
];

pub fn c02(ctx: &Ctx) -> i32 {
    let t = ctx.thorough;
    let j = Judge {
        ctx,
        why: "wrong outcome for the method",
        quirks: Quirks::Elsewhere,
        proj: &|w| if w.starts_with('E') { None } else { which(w) },
    };
    let mut confs = methods(t);
    confs.extend(siblings(&["a", "ab", "b"], 2, &DYNS, false));
    confs.extend(labelled(t));
    confs.extend(pairs(t));
    let o = PathOpts {
        chars: if t { 4 } else { 3 },
        ..PathOpts::default()
    };
    each_router(
        ctx,
        &Job::new(&confs),
        &|_, c, r, code| explore(ctx, c, r, code, &paths(c, &o), ODD_METHODS, &j),
        &must_build(ctx),
    );
    ctx.set("configurations", confs.len());
    ctx.set("methods", ODD_METHODS.len());
    ctx.finish(
        "model_checking",
        "every non-empty subset of the four methods in every declaration order at seven places, every pair of method sets on two neighbouring nodes, every tree of up to 2 (3) nodes with every assignment of resource sets including redirects; every path over the alphabet plus near misses; the four methods and 19 other method texts; also: every order of the methods of one node; every two of twenty features of one place together (S7; thorough: every four at their extremes); non-trivial: the model's answer is a resource",
        &["rustc compiles the generated module faithfully"],
    )
}

// ---------------------------------------------------------------------- C03

pub fn param_confs(t: bool) -> Vec<Conf> {
    let mut v = vec![];
    let named = |n: &str, ty| d(n, ty);
    for ty in TYPES {
        v.push(inner(vec![(dy(ty), leaf())]));
        v.push(with(vec![anon(M::Get)], vec![(dy(ty), leaf())]));
        v.push(inner(vec![(s("a"), inner(vec![(dy(ty), leaf())]))]));
        v.push(inner(vec![(dy(ty), inner(vec![(s("a"), leaf())]))]));
        v.push(inner(vec![(dy(ty), with(vec![anon(M::Get)], vec![(s("a"), leaf())]))]));
        v.push(inner(vec![(dy(ty), with(vec![anon(M::Get)], vec![(s("a"), leaf()), (s("b"), leaf())]))]));
        v.push(inner(vec![(s("new"), leaf()), (dy(ty), leaf())]));
        v.push(inner(vec![(s("new"), leaf()), (s("old"), leaf()), (dy(ty), leaf())]));
        v.push(inner(vec![(s("7"), leaf()), (dy(ty), with(vec![anon(M::Get)], vec![(s("a"), leaf())]))]));
        v.push(with(vec![anon(M::Get)], vec![(s("x"), with(vec![anon(M::Get)], vec![(dy(ty), leaf())]))]));
        // two methods sharing the parameter
        v.push(inner(vec![(dy(ty), with(vec![anon(M::Get), anon(M::Delete)], vec![]))]));
        for ty2 in TYPES {
            v.push(inner(vec![(dy(ty), inner(vec![(dy(ty2), leaf())]))]));
            v.push(inner(vec![(dy(ty), with(vec![anon(M::Get)], vec![(dy(ty2), leaf())]))]));
            v.push(inner(vec![(dy(ty), inner(vec![(s("a"), inner(vec![(dy(ty2), leaf())]))]))]));
            v.push(inner(vec![
                (s("a"), inner(vec![(dy(ty), leaf())])),
                (s("b"), inner(vec![(dy(ty2), leaf())])),
            ]));
            v.push(inner(vec![(dy(ty), inner(vec![(s("a"), leaf()), (dy(ty2), leaf())]))]));
            if t {
                for ty3 in TYPES {
                    v.push(inner(vec![(dy(ty), inner(vec![(dy(ty2), inner(vec![(dy(ty3), leaf())]))]))]));
                }
            }
        }
    }
    // every short identifier over the character classes, and longer spellings
    let mut ids: Vec<String> = vec![];
    for n in 1..=if t { 4 } else { 3 } {
        for w in seqs(&['b', 'B', '_', '1'], n).into_iter().filter(|w| w.len() == n) {
            if w[0] != '1' && w.iter().any(|c| *c != '_') {
                ids.push(w.into_iter().collect());
            }
        }
    }
    ids.extend(["userId", "UserID", "user_id", "userID2", "_private", "id_", "x1y2", "SHOUT", "aVeryLongNameOfAParameterWhichGoesOnAndOn"].map(String::from));
    for (i, n) in ids.iter().enumerate() {
        for ty in [Ty::U8, Ty::Str] {
            v.push(inner(vec![(named(n, ty), leaf())]));
        }
        let other = &ids[(i + 7) % ids.len()];
        v.push(inner(vec![(
            named(n, Ty::U8),
            with(vec![anon(M::Get)], vec![(s("x"), inner(vec![(named(other, Ty::Bool), leaf())]))]),
        )]));
    }
    // names, alone and in pairs
    for a in LOCAL_NAMES {
        for ty in [Ty::Str, Ty::U8] {
            v.push(inner(vec![(s("x"), inner(vec![(named(a, ty), leaf())]))]));
            v.push(inner(vec![(named(a, ty), with(vec![anon(M::Get)], vec![(s("edit"), leaf())]))]));
            v.push(inner(vec![(s("new"), leaf()), (s("old"), leaf()), (named(a, ty), leaf())]));
            v.push(inner(vec![(s("new"), leaf()), (named(a, ty), inner(vec![(dy(ty), leaf())]))]));
        }
        for b in LOCAL_NAMES {
            if a != b {
                v.push(inner(vec![(
                    named(a, Ty::Str),
                    inner(vec![(s("x"), inner(vec![(named(b, Ty::U8), leaf())]))]),
                )]));
                if t {
                    v.push(inner(vec![(named(a, Ty::U8), inner(vec![(named(b, Ty::Str), leaf())]))]));
                }
            }
        }
    }
    for n in 1..=if t { 12 } else { 8 } {
        for k in 0..2 {
            let mut node = leaf();
            for i in (0..n).rev() {
                let mut kids = vec![(dy(TYPES[(i * (k + 1)) % 6]), node)];
                if k == 1 {
                    kids = vec![(s("seg"), inner(kids))];
                }
                node = inner(kids);
            }
            v.push(node);
        }
    }
    let mut v: Vec<Conf> = v.into_iter().map(number).collect();
    v.extend(typed_confs());
    dedup(v)
}

/// A route answer without the path text (C05) but with every value; errors whole.
fn values(w: &str) -> Option<String> {
    Some(match &w[..1.min(w.len())] {
        "R" | "D" => format!("ok {}", field(w, 1)),
        "E" => w.to_string(),
        k => k.to_string(),
    })
}

pub fn c03(ctx: &Ctx) -> i32 {
    let t = ctx.thorough;
    let mut confs = param_confs(t);
    confs.extend(pairs(t));
    let confs = dedup(confs);
    let j = Judge {
        ctx,
        why: "wrong parameter value or error",
        quirks: Quirks::Elsewhere,
        proj: &|w| match values(w) {
            Some(k) if k.len() == 1 => None,
            k => k,
        },
    };
    let o = PathOpts {
        chars: if t { 4 } else { 2 },
        ext: 1,
        extra: b"z7-".to_vec(),
        ..PathOpts::default()
    };
    each_router(
        ctx,
        &Job::new(&confs),
        &|_, c, r, code| explore(ctx, c, r, code, &paths(c, &o), &verbs(c), &j),
        &must_build(ctx),
    );
    ctx.set("configurations", confs.len());
    ctx.finish(
        "model_checking",
        "six parameter types in eleven places, every pair of types in five shapes, every identifier of up to 3 (4) characters over four character classes and 44 other parameter names, these also in pairs, up to 8 parameters; every parameter in turn takes every text of its type (valid, boundary, broken, empty, multi-byte), plus every short path; also: twelve further types (all integers, an imported one, two of the application's own) in pairs with every other; parameters named as their types; every two of twenty features of one place together (S7; thorough: every four at their extremes); non-trivial: the model's answer is a resource with its values",
        &["values are compared through their Debug text"],
    )
}

// ---------------------------------------------------------------------- C04

pub fn c04(ctx: &Ctx) -> i32 {
    let t = ctx.thorough;
    let mut confs = structures(false);
    if t {
        confs.extend(siblings(&WORDS, 4, &DYNS, false));
    }
    confs.extend(param_confs(false));
    confs.extend(scale(t));
    confs.extend(far(t));
    confs.extend(labelled(t));
    confs.extend(pairs(t));
    let confs = dedup(confs);
    let extra: &[u8] = b"z\xff%";
    let long: Vec<Vec<u8>> = vec![
        vec![b'/'; 5000],
        vec![b'a'; 5000],
        "/a".repeat(3000).into_bytes(),
        "/7".repeat(3000).into_bytes(),
        vec![0u8; 300],
        vec![0xffu8; 300],
        (0..=255u8).collect(),
    ];
    let methods: &[&[u8]] = &[b"GET", b"\xff", b""];
    each_router(
        ctx,
        &Job::new(&confs),
        &|_, c, r, code| {
            let m = Model::new(c);
            let txt = text(c);
            let o = PathOpts {
                chars: if t { 5 } else { 3 },
                ext: 1,
                extra: extra.to_vec(),
                cap_alphabet: 8,
                ..PathOpts::default()
            };
            let mut ps = paths(c, &o);
            // every prefix of every declared path followed by each odd byte and by a long tail
            let mut more: HashSet<Vec<u8>> = HashSet::new();
            for segs in instances(c) {
                let mut full: Vec<u8> = vec![];
                for sg in segs {
                    full.push(b'/');
                    full.extend_from_slice(sg.as_bytes());
                }
                for n in 0..=full.len() {
                    for b in [0u8, 0x7f, 0x80, 0xc3, 0xff, b'?', b'#', b'%', b'\n', b'{'] {
                        let mut p = full[..n].to_vec();
                        p.push(b);
                        more.insert(p.clone());
                        p.extend_from_slice(&full[n..]);
                        more.insert(p);
                    }
                    let mut p = full[..n].to_vec();
                    p.extend_from_slice(&[b'x'; 200]);
                    more.insert(p);
                }
            }
            ps.extend(more);
            ps.extend(long.iter().cloned());
            let mut buf = vec![];
            let mut states = HashSet::new();
            for p in &ps {
                states.insert(m.state(p));
                for me in methods {
                    let got = ask(c, &txt, r, p, me, &mut buf);
                    ctx.eval(1);
                    if got.starts_with('P') || got.is_empty() {
                        let mut used = 0;
                        let v = || replayable(c, code, p, me, "any answer", &got, "the router panicked");
                        match m.ask(p, me, 0, &mut used) {
                            Out::NotUtf8 { .. } => ctx.known("K3", v),
                            _ => ctx.violate(v),
                        }
                    } else if !got.starts_with('N') {
                        ctx.add(&ctx.nontrivial, 1);
                    }
                }
            }
            ctx.add(&ctx.states, states.len());
            ctx.add(&ctx.transitions, ps.len());
            ctx.add(&ctx.traces, ps.len() * methods.len());
            ctx.sample(|| format!("{} | {} paths", txt.trim_end().replace('\n', " ; "), ps.len()));
        },
        &skip_fail(ctx),
    );
    ctx.set("configurations", confs.len());
    ctx.finish(
        "model_checking",
        "every configuration of the matching families; every byte string over the alphabet (with 0xff and %) up to a length, every prefix of every declared path followed by each of ten odd bytes, by a 200-byte tail, and long paths; three methods; a call must return within 90 s and not panic; also: up to 257 (300) siblings, wide nodes further down, words up to 1001 (2000) characters; every two of twenty features of one place together (S7; thorough: every four at their extremes); non-trivial: the answer is not NotFound",
        &["overflow checks and bounds checks are on in the compiled routers (debug profile)"],
    )
}

// ---------------------------------------------------------------------- C05

/// Rust expressions and their Display text.
pub fn domain(ty: Ty, conf: &Conf) -> Vec<(String, String)> {
    let q = |t: &str| (format!("{:?}.to_string()", t), t.to_string());
    match ty {
        Ty::Str => {
            let mut v: Vec<(String, String)> = ["q", "a b", "\u{e9}t\u{e9}", "%2F", "-", "{}", "{0}", ".", "new", "q?x=1", "0"]
                .iter()
                .map(|t| q(t))
                .collect();
            let mut words: Vec<String> = instances(conf).into_iter().flatten().collect();
            words.sort();
            words.dedup();
            for w in words.iter().take(6) {
                v.push(q(w));
                v.push(q(&format!("{}x", w)));
            }
            v
        }
        Ty::U8 | Ty::Id => ["7", "0", "255"].iter().map(|t| (format!("{}u8", t), t.to_string())).collect(),
        Ty::I32 => ["-7", "0", "2147483647", "-2147483648"]
            .iter()
            .map(|t| (format!("({}i32)", t), t.to_string()))
            .collect(),
        Ty::Usize => ["12", "0", "18446744073709551615"]
            .iter()
            .map(|t| (format!("{}usize", t), t.to_string()))
            .collect(),
        Ty::Bool => ["true", "false"].iter().map(|t| (t.to_string(), t.to_string())).collect(),
        ty if MORE_TYPES.contains(&ty) => texts(ty)
            .iter()
            .filter(|t| ty.parse(t).map_or(false, |v| v.display == **t) && !t.is_empty())
            .map(|t| (format!("{:?}.parse().unwrap()", t), t.to_string()))
            .collect(),
        Ty::Char => ["k", "\u{e9}", "\u{1f600}"]
            .iter()
            .map(|t| (format!("{:?}", t.chars().next().unwrap()), t.to_string()))
            .collect(),
        _ => unreachable!(),
    }
}

/// Rust path of an action's struct, and an expression wrapping `v` in `Route`s.
pub fn rust_type(target: &[String]) -> String {
    let mut p = String::from("routes");
    for m in &target[..target.len() - 1] {
        p.push_str("::");
        p.push_str(&snake(m));
    }
    format!("{}::{}", p, caps(target.last().unwrap()))
}
pub fn rust_wrap(target: &[String], v: &str) -> String {
    let mut open = String::new();
    let mut p = String::from("routes");
    for (i, m) in target.iter().enumerate() {
        open.push_str(&format!("{}::Route::{}(", p, caps(m)));
        if i + 1 < target.len() {
            p.push_str("::");
            p.push_str(&snake(m));
        }
    }
    format!("{}{}{}", open, v, ")".repeat(target.len()))
}

/// The values of one action: all combinations while they are few, otherwise
/// each parameter in turn.
fn tuples(a: &Action, conf: &Conf, few: bool) -> Vec<Vec<(String, String)>> {
    let doms: Vec<Vec<(String, String)>> = a.params().iter().map(|p| domain(p.ty, conf)).collect();
    let total: usize = doms.iter().fold(1usize, |n, x| n.saturating_mul(x.len()));
    let mut out = vec![];
    if few {
        // different values side by side
        for k in 0..if doms.is_empty() { 1 } else { 3 } {
            out.push(doms.iter().enumerate().map(|(i, x)| x[(i + i / x.len() + k) % x.len()].clone()).collect());
        }
    } else if total <= 60 {
        let mut pick = vec![0; doms.len()];
        loop {
            out.push(pick.iter().enumerate().map(|(i, k)| doms[i][*k].clone()).collect());
            let mut i = 0;
            while i < pick.len() {
                pick[i] += 1;
                if pick[i] < doms[i].len() {
                    break;
                }
                pick[i] = 0;
                i += 1;
            }
            if i == pick.len() {
                break;
            }
        }
    } else if doms.len() > 12 {
        // different values side by side, in rotations of several steps
        for (k, step) in [(0, 1), (1, 1), (2, 1), (3, 1), (0, 2), (1, 2), (0, 3), (1, 5)] {
            out.push(doms.iter().enumerate().map(|(i, x)| x[(i * step + i / x.len() + k) % x.len()].clone()).collect());
        }
    } else {
        for i in 0..doms.len() {
            for x in &doms[i] {
                let mut v: Vec<(String, String)> = doms.iter().map(|x| x[0].clone()).collect();
                v[i] = x.clone();
                out.push(v);
            }
        }
    }
    out
}

fn to_path_glue(c: &Conf, few: bool) -> String {
    let mut g = String::new();
    for a in actions(c).iter().filter(|a| !a.redirect) {
        for (n, tup) in tuples(a, c, few).iter().enumerate() {
            // keep one function small
            if n % 20 == 0 {
                if n > 0 {
                    g.push_str("}\n");
                }
                g.push_str("{\n");
            }
            let mut fields = String::new();
            for (p, v) in a.params().iter().zip(tup) {
                fields.push_str(&format!("{}: {}, ", p.name, v.0));
            }
            for q in &a.qp {
                fields.push_str(&format!("{}: None, ", q.name));
            }
            g.push_str(&format!(
                "{{ let v = {} {{ {} }}; let p1 = v.to_path(); let top = {}; let p2 = top.to_path(); let got = routes::match_route(&p1, {:?}); let same = match got {{ Ok(routes::Match::Route(ref r)) => *r == top, _ => false }}; out.push_str(&format!(\"{{}}\\x1f{{}}\\x1f{{}}\\x1f{{:?}}\\n\", p1, p2, same, got)); }}\n",
                rust_type(&a.target),
                fields,
                rust_wrap(&a.target, "v"),
                a.m.verb()
            ));
        }
        g.push_str("}\n");
    }
    g
}

pub fn path_confs(t: bool) -> Vec<Conf> {
    let mut v = chains(&[s("a"), s("ab"), dy(Ty::Str), dy(Ty::U8)], if t { 4 } else { 3 });
    for ty in TYPES {
        for ty2 in TYPES {
            v.push(number(inner(vec![(dy(ty), with(vec![anon(M::Post)], vec![(dy(ty2), leaf())]))])));
            v.push(number(inner(vec![(s("x"), inner(vec![(dy(ty), inner(vec![(s("y"), inner(vec![(dy(ty2), leaf())]))]))]))])));
        }
    }
    v.extend(typed_confs());
    v.extend(siblings(&["a", "ab", "b", "new"], 2, &DYNS, true));
    v.extend(scale(false).into_iter().filter(|c| actions(c).len() <= 16));
    v.extend(far(t).into_iter().filter(|c| actions(c).len() <= 27));
    // many parameters, also of one type, with and without words between
    for n in 3..=if t { 40 } else { 14 } {
        for kind in 0..3 {
            let mut node = leaf();
            for i in (0..n).rev() {
                let ty = match kind {
                    0 => Ty::Str,
                    1 => Ty::U8,
                    _ => [Ty::Str, Ty::U8, Ty::Bool][(i * i + i) % 3],
                };
                let mut kids = vec![(d(&format!("p{}", (i * 7 + n) % 60), ty), node)];
                if kind == 2 && i % 3 == 1 {
                    kids = vec![(s("w"), inner(kids))];
                }
                node = inner(kids);
            }
            v.push(number(node));
        }
    }
    // modules
    for (i, target) in [
        "A::B", "A::B::C", "books::show", "some_people::list_all", "A::B::C::D::E", "Admin::People::Show",
    ]
    .iter()
    .enumerate()
    {
        let m = METHODS[i % 4];
        v.push(number(inner(vec![(s("x"), with(vec![res(m, target)], vec![(dy(Ty::Str), with(vec![anon(m)], vec![]))]))])));
        v.push(number(inner(vec![(dy(Ty::U8), with(vec![res(m, target)], vec![(s("edit"), leaf())]))])));
    }
    // query parameters stay out of the path
    for n in 0..3 {
        let mut r = anon(M::Get);
        for q in 0..n {
            r.qp.push(p(["lang", "page"][q], [Ty::Str, Ty::U8][q]));
        }
        let mut node = inner(vec![(s("a"), inner(vec![(dy(Ty::Str), with(vec![r], vec![]))]))]);
        node.qp = vec![p("theme", Ty::Str)];
        v.push(number(node));
    }
    // parameter names
    for a in LOCAL_NAMES {
        v.push(number(inner(vec![(d(a, Ty::Str), inner(vec![(s("x"), inner(vec![(d("other", Ty::U8), leaf())]))]))])));
    }
    for a in ["zeta", "alpha", "mid"] {
        for b in ["beta", "y", "A"] {
            v.push(number(inner(vec![(d(a, Ty::Str), inner(vec![(d(b, Ty::Str), leaf())]))])));
        }
    }
    dedup(v)
}

pub fn c05(ctx: &Ctx) -> i32 {
    let confs = path_confs(ctx.thorough);
    round_trips(ctx, &confs, false);
    let more = pairs(ctx.thorough);
    round_trips(ctx, &more, true);
    ctx.set("configurations", confs.len() + more.len());
    let n = ctx.evals.load(std::sync::atomic::Ordering::SeqCst) as usize;
    ctx.add(&ctx.transitions, n);
    ctx.finish(
        "exploration",
        "every action of every configuration with all combinations of boundary values of its parameters (each in turn where there are more than 60); to_path of the struct and of the Route must be the declared path with the values filled in, and matching it must give an equal value back wherever the declaration says the path belongs to that action; also: every two of 18 types; 3 to 14 (40) parameters in three kinds with the values rotated; every spelling of a segment; every two of twenty features of one place together (S7; thorough: every four at their extremes); non-trivial: the action has parameters",
        &["Display and FromStr of the parameter types are inverse (std types)"],
    )
}

fn round_trips(ctx: &Ctx, confs: &[Conf], few: bool) {
    let glue = |c: &Conf| to_path_glue(c, few);
    let job = Job {
        glue: &glue,
        ..Job::new(&confs)
    };
    each_router(
        ctx,
        &job,
        &|_, c, r, code| {
            let m = Model::new(c);
            crate::ctx::slots::enter(&[b"to_path of: ", text(c).as_bytes()]);
            let got = r.glue();
            crate::ctx::slots::leave();
            let mut lines = got.lines();
            for a in m.acts.iter().filter(|a| !a.redirect) {
                for tup in tuples(a, c, few) {
                    let line = lines.next().unwrap_or("");
                    let mut want = String::new();
                    let mut it = tup.iter();
                    for sg in &a.path {
                        want.push('/');
                        match sg {
                            Seg::S(t) => want.push_str(t),
                            Seg::D(_) => want.push_str(&it.next().unwrap().1),
                        }
                    }
                    if want.is_empty() {
                        want.push('/');
                    }
                    ctx.eval(1);
                    if !tup.is_empty() {
                        ctx.add(&ctx.nontrivial, 1);
                    }
                    let mut used = 0;
                    let back = m.ask(want.as_bytes(), a.m.verb().as_bytes(), 0, &mut used);
                    // what the request leads to by declaration: this action?
                    let (mut inverse, mut dbg) = (false, String::new());
                    if let Out::Hit { redirect: false, target, debug, to_path } = &back {
                        if *target == a.target && *to_path == want {
                            inverse = true;
                            dbg = debug.clone();
                        }
                    }
                    let quirk = m.ask(want.as_bytes(), a.m.verb().as_bytes(), K1 | K2, &mut used) != back;
                    let f: Vec<&str> = line.split('\x1f').collect();
                    let fail = |what: String| Violation {
                        what: format!(
                            "{} for {} with {:?} in <<{}>> (observed {:?})",
                            what,
                            a.target.join("::"),
                            tup.iter().map(|x| &x.1).collect::<Vec<_>>(),
                            text(c).trim_end(),
                            one_line(line)
                        ),
                        files: vec![
                            ("config.routes".into(), text(c)),
                            ("routes.rs".into(), code.into()),
                            ("glue.rs".into(), to_path_glue(c, few)),
                        ],
                    };
                    if f.len() < 4 || f[0] != want || f[1] != want {
                        ctx.violate(|| fail(format!("to_path is not {:?}", want)));
                    } else if inverse && !quirk && f[2] != "true" {
                        ctx.violate(|| fail(format!("matching {:?} again does not give {} back", want, dbg)));
                    }
                }
            }
            ctx.add(&ctx.states, m.acts.len());
            ctx.add(&ctx.traces, 1);
            ctx.sample(|| format!("{} | {}", text(c).trim_end().replace('\n', " ; "), one_line(&got)));
        },
        &must_build(ctx),
    );
}

// ---------------------------------------------------------------------- C07

pub fn query_confs(t: bool) -> Vec<Conf> {
    // numbers of parameters declared at: root, child, grandchild, resource at
    // root, at child, at grandchild, second resource at child
    let mut v = vec![];
    let names = [
        ["lang", "theme", "z"],
        ["page", "b", "y"],
        ["sort", "c", "x"],
        ["one", "d", "w"],
        ["two", "e1", "v"],
        ["three", "f1", "u"],
        ["four", "g1", "k"],
    ];
    let max = if t { 3 } else { 2 };
    let mk = |place: usize, n: usize| -> Vec<P> {
        (0..n).map(|k| p(names[place][k], TYPES[(place + k) % 6])).collect()
    };
    let counts: Vec<usize> = (0..=max).collect();
    let all = seqs_exact(&counts, 7);
    for c in all {
        // keep the space at: each place up to max, in total at most 5 (7) places in use
        let used = c.iter().filter(|x| **x > 0).count();
        if used > if t { 4 } else { 3 } || c.iter().sum::<usize>() > if t { 6 } else { 5 } {
            continue;
        }
        let r = |place: usize| {
            let mut r = anon(M::Get);
            r.qp = mk(place, c[place]);
            r
        };
        let mut second = anon(M::Put);
        second.qp = mk(6, c[6]);
        for shape in 0..2 {
            let seg1 = if shape == 0 { s("a") } else { d("id", Ty::U8) };
            let grand = Node {
                qp: mk(2, c[2]),
                res: vec![r(5)],
                kids: vec![],
            };
            let child = Node {
                qp: mk(1, c[1]),
                res: vec![r(4), second.clone()],
                kids: vec![(s("g"), grand)],
            };
            let root = Node {
                qp: mk(0, c[0]),
                res: vec![r(3)],
                kids: vec![(seg1, child), (s("sib"), leaf())],
            };
            v.push(number(root));
        }
    }
    // many on one resource; names of the matcher's own variables
    for n in 1..=if t { 16 } else { 8 } {
        let mut r = anon(M::Get);
        r.qp = (0..n).map(|k| p(&format!("q{}", k), TYPES[k % 6])).collect();
        v.push(number(inner(vec![(s("a"), with(vec![r], vec![]))])));
    }
    for nm in LOCAL_NAMES {
        let mut r = anon(M::Get);
        r.qp = vec![p(nm, Ty::U8)];
        v.push(number(inner(vec![(s("a"), with(vec![r.clone()], vec![]))])));
        v.push(number(inner(vec![(d("id", Ty::Str), with(vec![r], vec![]))])));
        let mut root = inner(vec![(s("a"), leaf()), (d("id", Ty::Str), leaf())]);
        root.qp = vec![p(nm, Ty::Str)];
        v.push(number(root));
    }
    // modules
    for target in ["People::List", "A::B::C"] {
        let mut r = res(M::Get, target);
        r.qp = vec![p("q", Ty::Str), p("n", Ty::U8)];
        let mut root = inner(vec![(s("a"), with(vec![r], vec![])), (s("b"), leaf())]);
        root.qp = vec![p("lang", Ty::Str)];
        v.push(number(root));
    }
    // far out: many on one resource, on the root, on a middle node, under one type
    for &n in if t { &[12, 17, 20, 31, 32, 33, 50, 64, 65, 100][..] } else { &[12, 17, 33, 65][..] } {
        for place in 0..4 {
            let many = |ty: Option<Ty>| -> Vec<P> {
                (0..n).map(|k| p(&format!("q{}", (k * 37) % 101), ty.unwrap_or(TYPES[k % 6]))).collect()
            };
            let mut r = anon(M::Get);
            let mut mid = with(vec![], vec![(s("b"), leaf())]);
            let mut top = Node::default();
            match place {
                0 => r.qp = many(None),
                1 => top.qp = many(None),
                2 => mid.qp = many(None),
                _ => r.qp = many(Some(Ty::Str)),
            }
            mid.res = vec![r, anon(M::Delete)];
            top.kids = vec![(d("id", Ty::U8), mid), (s("c"), leaf())];
            v.push(number(top));
        }
    }
    // the same name, or the same type, in several places
    let ps: [&[P]; 5] = [
        &[],
        &[p("page", Ty::U8)],
        &[p("page", Ty::Str), p("size", Ty::Str)],
        &[p("size", Ty::Str), p("page", Ty::Str)],
        &[p("lang", Ty::Str), p("page", Ty::Str), p("size", Ty::Str)],
    ];
    for a in 0..5 {
        for b in 0..5 {
            for c in 0..5 {
                let mut x = anon(M::Get);
                x.qp = ps[a].to_vec();
                let mut y = anon(M::Post);
                y.qp = ps[b].to_vec();
                let mut z = leaf();
                z.qp = ps[c].to_vec();
                v.push(number(inner(vec![
                    (s("ab"), with(vec![x.clone(), y.clone()], vec![])),
                    (s("ac"), z.clone()),
                ])));
                v.push(number(inner(vec![
                    (s("new"), with(vec![x.clone()], vec![])),
                    (d("id", Ty::Str), with(vec![], vec![(s("x"), with(vec![y.clone()], vec![])), (s("y"), z.clone())])),
                ])));
                // a root parameter beside them all
                let mut top = inner(vec![
                    (d("id", Ty::U8), with(vec![x], vec![(d("no", Ty::U8), with(vec![y], vec![]))])),
                    (s("page"), z),
                ]);
                top.qp = vec![p("long", Ty::Str), p("mode", Ty::Str)];
                v.push(number(top));
            }
        }
    }
    // names which are nearly the same
    for a in ALMOST {
        for b in ALMOST {
            for (k, (ty, ty2)) in [(Ty::U8, Ty::U8), (Ty::Str, Ty::Bool)].iter().enumerate() {
                if !t && k == 1 && a < b {
                    continue;
                }
                let mut r = anon(M::Get);
                r.qp = vec![p(b, *ty2)];
                if a != b {
                    let mut two = anon(M::Post);
                    two.qp = vec![p(a, *ty), p(b, *ty2)];
                    let mut mid = inner(vec![(s("x"), with(vec![r.clone()], vec![])), (s("y"), leaf())]);
                    mid.qp = vec![p(a, *ty)];
                    v.push(number(inner(vec![(s("a"), mid.clone()), (s("b"), with(vec![two], vec![]))])));
                    let mut low = with(vec![anon(M::Get)], vec![(d("id", *ty), leaf())]);
                    low.qp = vec![p(b, *ty2)];
                    let mut top = inner(vec![(s("a"), low), (s("c"), leaf())]);
                    top.qp = vec![p(a, *ty)];
                    v.push(number(top));
                    mid.qp = vec![];
                    mid.res = vec![anon(M::Get)];
                    let mut top = inner(vec![(d("id", Ty::Str), mid)]);
                    top.qp = vec![p(a, *ty)];
                    v.push(number(top));
                    v.push(number(inner(vec![(d(a, *ty), inner(vec![(s("x"), with(vec![r.clone()], vec![]))]))])));
                    let mut mid = with(vec![anon(M::Put)], vec![(d(b, *ty2), leaf())]);
                    mid.qp = vec![p(a, *ty)];
                    v.push(number(inner(vec![(s("z"), mid)])));
                }
            }
        }
    }
    // depth of inheritance
    for n in (1..=if t { 10 } else { 6 }).chain([12, 17, 33]) {
        let mut node = leaf();
        for i in (0..n).rev() {
            node = inner(vec![(s("a"), node)]);
            node.qp = vec![p(&format!("q{}", i), TYPES[i % 6])];
            if i % 2 == 0 {
                node.res.push(anon(M::Get));
            }
        }
        v.push(number(node));
    }
    dedup(v)
}
fn seqs_exact<T: Clone>(items: &[T], n: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|v: Vec<T>| {
                items.iter().map(move |x| {
                    let mut w = v.clone();
                    w.push(x.clone());
                    w
                })
            })
            .collect();
    }
    out
}

/// The struct must have exactly the declared fields, with these types.
fn query_glue(c: &Conf) -> String {
    let mut g = String::new();
    for a in actions(c).iter().filter(|a| !a.redirect) {
        let mut make = String::new();
        let mut bare = String::new();
        let mut take = String::new();
        let mut names: Vec<&str> = vec![];
        for x in a.params() {
            let f = format!("{}: {}, ", x.name, domain(x.ty, c)[0].0);
            make.push_str(&f);
            bare.push_str(&f);
            take.push_str(&format!("let _: &{} = &v.{}; ", x.ty.rust(), x.name));
            names.push(&x.name);
        }
        for x in &a.qp {
            make.push_str(&format!("{}: Some({}), ", x.name, domain(x.ty, c)[0].0));
            bare.push_str(&format!("{}: None, ", x.name));
            take.push_str(&format!("let _: &Option<{}> = &v.{}; ", x.ty.rust(), x.name));
            names.push(&x.name);
        }
        let ty = rust_type(&a.target);
        // whatever they hold, the path is the same; the fields are in the declared order
        g.push_str(&format!(
            "{{ let v = {ty} {{ {make} }}; let w = {ty} {{ {bare} }}; {take} let d = format!(\"{{:?}}\", v); let mut at = Some(0usize); let names: &[&str] = &{names:?}; \
             for n in names {{ let key = format!(\" {{}}: \", n); at = at.and_then(|k: usize| d[k..].find(&key).map(|m| k + m + key.len())); }} \
             out.push_str(&format!(\"{{}} {{}} {{:?}}\\n\", v.to_path() == w.to_path() && !v.to_path().contains('?'), at.is_some(), v)); }}\n",
        ));
    }
    g
}

/// Configurations whose glue did not compile although the module alone does.
pub fn glue_only_failures(ctx: &Ctx, bad: Vec<(Conf, String)>, report: &dyn Fn(&Conf, &str)) {
    let units: Vec<crate::compile::Unit> = bad
        .iter()
        .map(|(c, _)| crate::compile::Unit {
            code: gen(c).unwrap_or_default(),
            glue: String::new(),
            ..Default::default()
        })
        .collect();
    let built = crate::compile::build(&ctx.work, &units, false, "2021");
    for ((c, m), b) in bad.iter().zip(built) {
        match b {
            crate::compile::Built::Ok(_) => report(c, m),
            crate::compile::Built::Bad(m) => must_build(ctx)(0, c, Fail::Uncompilable(m)),
            _ => ctx.add(&ctx.skipped, 1),
        }
    }
}

pub fn c07(ctx: &Ctx) -> i32 {
    let mut confs = query_confs(ctx.thorough);
    confs.extend(pairs(ctx.thorough));
    confs.extend(typed_confs());
    let confs = dedup(confs);
    let j = Judge {
        ctx,
        why: "wrong fields",
        quirks: Quirks::Elsewhere,
        proj: &|w| match values(w) {
            Some(k) if k.len() == 1 || k.starts_with('E') => None,
            k => k,
        },
    };
    let o = PathOpts {
        chars: 2,
        ext: 1,
        edits: false,
        ..PathOpts::default()
    };
    let bad = Mutex::new(vec![]);
    let job = Job {
        glue: &query_glue,
        ..Job::new(&confs)
    };
    each_router(
        ctx,
        &job,
        &|_, c, r, code| {
            crate::ctx::slots::enter(&[b"values of: ", text(c).as_bytes()]);
            let got = r.glue();
            crate::ctx::slots::leave();
            let n = actions(c).iter().filter(|a| !a.redirect).count();
            ctx.eval(n);
            if got.lines().count() != n || got.lines().any(|l| !l.starts_with("true true ")) {
                ctx.violate(|| Violation {
                    what: format!(
                        "query parameters change the rendered path (first word false) or the fields are not in the declared order (second word) in <<{}>>: {}",
                        text(c).trim_end(),
                        one_line(&got)
                    ),
                    files: vec![("config.routes".into(), text(c)), ("routes.rs".into(), code.into())],
                });
            }
            explore(ctx, c, r, code, &paths(c, &o), &verbs(c), &j)
        },
        &|_, c, f| match f {
            Fail::Uncompilable(m) => bad.lock().unwrap().push((c.clone(), m)),
            f => must_build(ctx)(0, c, f),
        },
    );
    glue_only_failures(ctx, bad.into_inner().unwrap(), &|c, m| {
        ctx.violate(|| Violation {
            what: format!(
                "the request structs do not have exactly the declared fields, query parameters as Option, in <<{}>>: {}",
                text(c).trim_end(),
                m
            ),
            files: vec![
                ("config.routes".into(), text(c)),
                ("routes.rs".into(), gen(c).unwrap_or_default()),
                ("glue.rs".into(), query_glue(c)),
            ],
        })
    });
    ctx.set("configurations", confs.len());
    ctx.finish(
        "model_checking",
        "every distribution of query parameters over seven places (three nesting levels, their resources, a second resource) with at most three (four) places in use, many on one resource, inheritance down to depth 6, 30 names; for each the compiler checks that every request struct has exactly the declared fields as Option<type> and every matched route carries None in each, and running code compares the rendered paths and the order of the fields; also: up to 65 (100) query parameters on one resource, eighteen types; every two of twenty features of one place together (S7; thorough: every four at their extremes); non-trivial: a route matched",
        &["field sets and types are decided by rustc accepting a full struct literal and typed borrows"],
    )
}

// ---------------------------------------------------------------------- C08

pub fn redirect_confs(t: bool) -> Vec<Conf> {
    let mut v = vec![];
    // (path to the target, parameters in order)
    let targets: Vec<Vec<Seg>> = vec![
        vec![],
        vec![s("a")],
        vec![s("people"), s("all")],
        vec![s("t"), d("x", Ty::Str)],
        vec![s("t"), d("x", Ty::U8)],
        vec![d("x", Ty::Str), s("t")],
        vec![s("t"), d("x", Ty::Str), d("y", Ty::U8)],
        vec![s("t"), d("x", Ty::Str), s("mid"), d("y", Ty::Str)],
        vec![s("t"), d("x", Ty::U8), d("y", Ty::U8), d("z", Ty::U8)],
    ];
    let names = ["Target", "People::Index", "A::B::Show"];
    for tp in &targets {
        let params: Vec<Seg> = tp.iter().filter(|x| matches!(x, Seg::D(_))).cloned().collect();
        for order in perms(&params) {
            // where the redirect lives: the parameters in this order with
            // words before, between and after
            let mut from: Vec<Vec<Seg>> = vec![];
            let mut a = vec![s("from")];
            a.extend(order.iter().cloned());
            from.push(a.clone());
            a.push(s("end"));
            from.push(a.clone());
            let mut b = vec![s("from")];
            for x in &order {
                b.push(x.clone());
                b.push(s("w"));
            }
            from.push(b);
            let mut c = vec![s("deep"), s("down")];
            c.extend(order.iter().cloned());
            from.push(c);
            if params.is_empty() && !tp.is_empty() {
                from.push(vec![]);
                let mut u = tp.clone();
                u.push(s("old"));
                from.push(u);
            }
            if !params.is_empty() && order == params {
                let mut u = tp.clone();
                u.push(s("old"));
                from.push(u);
            }
            for fp in &from {
                for name in names {
                    for (tm, rm) in [(M::Get, M::Get), (M::Get, M::Post), (M::Put, M::Get), (M::Delete, M::Put)] {
                        if !t && name == names[1] && tm != rm {
                            continue;
                        }
                        let mut root = Node::default();
                        insert(&mut root, tp, |n| n.res.push(res(tm, name)));
                        insert(&mut root, fp, |n| n.res.push(redir(rm, name)));
                        v.push(number(root.clone()));
                        // the redirect's node also serves something itself
                        let mut r2 = root.clone();
                        insert(&mut r2, fp, |n| {
                            let other = METHODS.iter().find(|m| n.res.iter().all(|r| r.m != **m));
                            n.res.push(anon(*other.unwrap()));
                        });
                        v.push(number(r2));
                        // declared first
                        let mut r3 = Node::default();
                        insert(&mut r3, fp, |n| n.res.push(redir(rm, name)));
                        insert(&mut r3, tp, |n| n.res.push(res(tm, name)));
                        v.push(number(r3));
                    }
                }
                // query parameters: inherited and of the target's own; the
                // redirect must name them too
                if t || fp.len() < 4 {
                    let mut root = Node {
                        qp: vec![p("lang", Ty::Str)],
                        ..Node::default()
                    };
                    let mut tr = res(M::Get, "Target");
                    tr.qp = vec![p("page", Ty::U8)];
                    let mut rr = redir(M::Get, "Target");
                    rr.qp = vec![p("page", Ty::U8)];
                    insert(&mut root, tp, |n| n.res.push(tr.clone()));
                    insert(&mut root, fp, |n| n.res.push(rr.clone()));
                    v.push(number(root));
                }
            }
        }
    }
    // further parameters
    for &n in if t { &[4, 5, 6, 8, 9, 12, 16, 17, 33][..] } else { &[4, 5, 9, 17][..] } {
        for kind in 0..4 {
            let ps: Vec<Seg> = (0..n)
                .map(|i| d(&format!("p{}", (i * 7) % 40), if kind == 0 { Ty::U8 } else { [Ty::Str, Ty::U8, Ty::Bool][i % 3] }))
                .collect();
            let mut back = ps.clone();
            back.reverse();
            let mut turn = ps.clone();
            turn.rotate_left(1);
            let (tp, fp) = match kind {
                0 => (ps.clone(), back),
                1 => (ps.clone(), turn),
                2 => (ps.iter().flat_map(|x| vec![s("w"), x.clone()]).collect(), ps.clone()),
                _ => (ps.clone(), ps.iter().flat_map(|x| vec![x.clone(), s("w")]).collect()),
            };
            let mut root = Node::default();
            let (mut t1, mut t2) = (vec![s("t")], vec![s("from")]);
            t1.extend(tp);
            t2.extend(fp);
            insert(&mut root, &t1, |nd| nd.res.push(res(M::Get, "People::Target")));
            insert(&mut root, &t2, |nd| nd.res.push(redir(M::Post, "People::Target")));
            v.push(number(root));
        }
    }
    // modules far down
    for n in [4, 5, 8, 9, 12, 17, 33] {
        let target = (0..n).map(|i| format!("M{}", i)).collect::<Vec<_>>().join("::");
        let mut root = Node::default();
        insert(&mut root, &[s("t"), d("x", Ty::U8)], |nd| nd.res.push(res(M::Get, &target)));
        insert(&mut root, &[s("old"), d("x", Ty::U8)], |nd| nd.res.push(redir(M::Get, &target)));
        v.push(number(root));
    }
    // redirects on inner nodes, at the root, beside parameters, one after another
    for n in 0..6 {
        for m in METHODS {
            let mut root = Node::default();
            insert(&mut root, &[s("t")], |nd| nd.res.push(res(M::Get, "Target")));
            insert(&mut root, &[s("t"), d("x", Ty::U8)], |nd| nd.res.push(res(M::Get, "People::Show")));
            let at: Vec<Vec<Seg>> = vec![
                vec![s("old")],
                vec![s("old"), s("er")],
                vec![],
                vec![s("ta")],
                vec![s("old"), s("er"), s("yet")],
                vec![s("older")],
            ];
            for (k, a) in at.iter().enumerate() {
                if k != n {
                    insert(&mut root, a, |nd| nd.res.push(redir(m, "Target")));
                }
            }
            for a in [vec![s("p"), d("x", Ty::U8)], vec![s("t"), d("x", Ty::U8), s("go")]] {
                insert(&mut root, &a, |nd| nd.res.push(redir(m, "People::Show")));
            }
            v.push(number(root));
        }
    }
    // what one node declares: every order of its methods, each served here or led away
    let orders: Vec<Vec<M>> = method_sets(true).into_iter().filter(|o| t || o.len() < 3 || o[0] != M::Put).collect();
    for o in &orders {
        for (k, kinds) in seqs_exact(&[0, 1, 2], o.len()).into_iter().enumerate() {
            if o.len() > 2 && kinds.contains(&2) && !(t && k % 3 == 0) || !kinds.iter().any(|x| *x > 0) {
                continue;
            }
            for under in [None, Some(d("x", Ty::U8))] {
                let mut root = Node::default();
                let mut at = vec![s("from")];
                at.extend(under.clone());
                insert(&mut root, &[s("t")], |nd| nd.res.push(res(M::Get, "Target")));
                insert(&mut root, &[s("u"), d("x", Ty::U8)], |nd| nd.res.push(res(M::Put, "People::Show")));
                insert(&mut root, &at, |nd| {
                    for (m, k) in o.iter().zip(&kinds) {
                        nd.res.push(match (k, &under) {
                            (0, _) => anon(*m),
                            (1, None) => redir(*m, "Target"),
                            (1, Some(_)) => redir(*m, "People::Show"),
                            (_, None) => redir(*m, "Other"),
                            _ => redir(*m, "Third"),
                        });
                    }
                });
                insert(&mut root, &[s("v")], |nd| nd.res.push(res(M::Post, "Other")));
                insert(&mut root, &[s("w"), d("x", Ty::U8)], |nd| nd.res.push(res(M::Delete, "Third")));
                v.push(number(root));
            }
        }
    }
    // the same name in other modules: what is served beside a redirect, and where it leads
    let alike = ["Show", "M::Show", "N::Show", "M::N::Show", "N::M::Show", "Shown::Show", "M::Other", "shows::Index"];
    for (i, here) in alike.iter().enumerate() {
        for (j, there) in alike.iter().enumerate() {
            if i == j || snake(here) == snake(there) {
                continue;
            }
            for (k, par) in [vec![], vec![d("x", Ty::U8)]].iter().enumerate() {
                for (hm, rm) in [(M::Get, M::Post), (M::Put, M::Get), (M::Post, M::Delete)] {
                    if !t && k == 1 && hm == M::Post {
                        continue;
                    }
                    let path = |w: &str| -> Vec<Seg> { [s(w)].into_iter().chain(par.iter().cloned()).collect() };
                    let mut root = Node::default();
                    insert(&mut root, &path("a"), |nd| nd.res.push(res(M::Get, there)));
                    insert(&mut root, &path("b"), |nd| {
                        nd.res.push(res(hm, here));
                        nd.res.push(redir(rm, there));
                    });
                    insert(&mut root, &path("c"), |nd| nd.res.push(redir(M::Get, here)));
                    if let Some(third) = alike.iter().find(|x| *x != here && *x != there) {
                        insert(&mut root, &path("d"), |nd| nd.res.push(res(M::Put, third)));
                        insert(&mut root, &path("b"), |nd| {
                            let m = METHODS.iter().find(|m| **m != hm && **m != rm).unwrap();
                            nd.res.push(redir(*m, third));
                        });
                    }
                    v.push(number(root));
                }
            }
        }
    }
    // many redirects to one target, and redirects to several
    for n in (1..=if t { 12 } else { 6 }).chain(if t { [17, 33, 65] } else { [9, 17, 33] }) {
        let mut root = Node::default();
        insert(&mut root, &[s("t")], |nd| nd.res.push(res(M::Get, "Target")));
        insert(&mut root, &[s("u")], |nd| nd.res.push(res(M::Get, "Other")));
        for k in 0..n {
            insert(&mut root, &[s(&format!("r{}", k))], |nd| {
                nd.res.push(redir(METHODS[k % 4], if k % 3 == 0 { "Other" } else { "Target" }));
                nd.res.push(redir(METHODS[(k + 1) % 4], "Target"));
            });
        }
        v.push(number(root));
    }
    dedup(v)
}

/// Finds or makes the node at a path and changes it.
pub fn insert(root: &mut Node, path: &[Seg], f: impl FnOnce(&mut Node)) {
    let mut n = root;
    for sg in path {
        let i = match n.kids.iter().position(|(x, _)| x == sg) {
            Some(i) => i,
            None => {
                n.kids.push((sg.clone(), Node::default()));
                n.kids.len() - 1
            }
        };
        n = &mut n.kids[i].1;
    }
    f(n)
}

pub fn c08(ctx: &Ctx) -> i32 {
    // two parameters in one place must share a name
    let mut confs: Vec<Conf> = redirect_confs(ctx.thorough).into_iter().filter(consistent).collect();
    confs.extend(pairs(ctx.thorough).into_iter().filter(|c| actions(c).iter().any(|a| a.redirect)));
    let confs = dedup(confs);
    let j = Judge {
        ctx,
        why: "wrong redirect",
        quirks: Quirks::Elsewhere,
        proj: &|w| match &w[..1.min(w.len())] {
            "D" => Some(w.to_string()),
            "R" => Some("R".into()),
            _ => None,
        },
    };
    let o = PathOpts {
        chars: 1,
        ext: 1,
        ..PathOpts::default()
    };
    each_router(
        ctx,
        &Job::new(&confs),
        &|_, c, r, code| {
            let methods: Vec<&[u8]> = METHODS.iter().map(|m| m.verb().as_bytes()).collect();
            explore(ctx, c, r, code, &paths(c, &o), &methods, &j)
        },
        &must_build(ctx),
    );
    ctx.set("configurations", confs.len());
    ctx.finish(
        "model_checking",
        "nine targets (no, one, two, three parameters; no, one, two modules) with a redirect to each from every order of its parameters at up to six places, every pair of four method combinations, with and without a neighbour on the same node, declared before and after, with query parameters, and up to 12 redirects to one target; also: targets of one name in several modules; redirects below parameters and beside static segments; those of S7 with redirects; non-trivial: the model's answer is a route or redirect",
        &["a redirect declares the same path and query parameters as its target (rustc rejects others)"],
    )
}

/// At most one parameter name below any node.
pub fn consistent(c: &Conf) -> bool {
    fn go(n: &Node) -> bool {
        let mut name: Option<&P> = None;
        for (sg, k) in &n.kids {
            if let Seg::D(x) = sg {
                if name.is_some() {
                    return false;
                }
                name = Some(x);
            }
            if !go(k) {
                return false;
            }
        }
        true
    }
    go(&c.root)
}

// ---------------------------------------------------------------------- C09

pub fn c09(ctx: &Ctx) -> i32 {
    let t = ctx.thorough;
    let mut confs = structures(t);
    let nst = confs.len();
    confs.extend(methods(false).into_iter().step_by(if t { 1 } else { 5 }));
    confs.extend(redirect_confs(false).into_iter().filter(consistent).step_by(if t { 1 } else { 7 }));
    confs.extend(scale(false));
    confs.extend(far(false));
    confs.extend(labelled(t));
    confs.extend(pairs(t));
    let o = opts(t);
    let so = scale_opts();
    let j = Judge {
        ctx,
        why: "wrong answer to doubled slashes",
        quirks: Quirks::Elsewhere,
        proj: &|w| Some(w.to_string()),
    };
    each_router(
        ctx,
        &Job::new(&confs),
        &|i, c, r, code| {
            let txt = text(c);
            let m = Model::new(c);
            let mut states = HashSet::new();
            let mut buf = vec![];
            let ps = paths(c, if i < nst { &o } else { &so });
            let vs = verbs(c);
            let mut n = 0;
            for p in &ps {
                if p.windows(2).any(|w| w == b"//") {
                    for v in &vs {
                        let a = ask(c, &txt, r, p, v, &mut buf);
                        n += 1;
                        j.one(&m, code, p, v, &a);
                    }
                }
                if p.first() != Some(&b'/') {
                    states.insert(m.state(p));
                    let mut q = vec![b'/'];
                    q.extend_from_slice(p);
                    for v in &vs {
                        let a = ask(c, &txt, r, p, v, &mut buf);
                        let b = ask(c, &txt, r, &q, v, &mut buf);
                        ctx.eval(1);
                        n += 2;
                        if a != "N" {
                            ctx.add(&ctx.nontrivial, 1);
                        }
                        if a != b {
                            ctx.violate(|| replayable(c, code, &q, v, &a, &b, "a leading slash changes the answer"));
                        }
                    }
                }
                if p.last() != Some(&b'/') && !p.is_empty() {
                    let mut q = p.clone();
                    q.push(b'/');
                    for v in &vs {
                        let a = ask(c, &txt, r, p, v, &mut buf);
                        n += 1;
                        if a == "N" {
                            // is it missed where it should be matched?
                            j.one(&m, code, p, v, &a);
                            continue;
                        }
                        if a.starts_with('P') {
                            continue;
                        }
                        let b = ask(c, &txt, r, &q, v, &mut buf);
                        n += 1;
                        ctx.eval(1);
                        ctx.add(&ctx.nontrivial, 1);
                        if a != b {
                            ctx.violate(|| replayable(c, code, &q, v, &a, &b, "a trailing slash changes the answer"));
                        }
                    }
                }
            }
            ctx.add(&ctx.states, states.len());
            ctx.add(&ctx.transitions, n);
            ctx.add(&ctx.traces, n);
            ctx.sample(|| format!("{} | {} paths", txt.trim_end().replace('\n', " ; "), ps.len()));
        },
        &skip_fail(ctx),
    );
    ctx.set("configurations", confs.len());
    ctx.finish(
        "exploration",
        "every configuration of the matching, method, redirect and scale families; every path of C01's sets is asked with and without a leading and a trailing slash; the two answers must be equal (trailing: wherever the shorter path is matched); those with a doubled slash get the reference model's answer; also: every two of twenty features of one place together (S7; thorough: every four at their extremes); non-trivial: the answer is not NotFound",
        &[],
    )
}

// ---------------------------------------------------------------------- C10

/// All orders of the children and of the resources of every node (product
/// capped per node at 24 orders).
/// All orders of up to six items; of more: as they are, reversed, and with each
/// item moved to the front, the end and past its neighbour.
fn some_perms<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    if v.len() <= 6 {
        return perms(v);
    }
    let mut out = vec![v.to_vec(), v.iter().rev().cloned().collect()];
    for i in 0..v.len() {
        for j in [0, v.len() - 1, (i + 1) % v.len()] {
            let mut w = v.to_vec();
            let x = w.remove(i);
            w.insert(j, x);
            out.push(w);
        }
    }
    out
}

fn orders(n: &Node) -> Vec<Node> {
    let mut kid_versions: Vec<Vec<(Seg, Node)>> = vec![vec![]];
    for (sg, k) in &n.kids {
        let vs = orders(k);
        kid_versions = kid_versions
            .into_iter()
            .flat_map(|pre| {
                vs.iter().take(6).map(move |v| {
                    let mut w = pre.clone();
                    w.push((sg.clone(), v.clone()));
                    w
                })
            })
            .take(24)
            .collect();
    }
    let mut out = vec![];
    for ks in kid_versions {
        for kp in some_perms(&ks) {
            for rp in some_perms(&n.res) {
                out.push(Node {
                    qp: n.qp.clone(),
                    res: rp,
                    kids: kp.clone(),
                });
                if out.len() >= 150 {
                    return out;
                }
            }
        }
    }
    out
}

fn turn(n: &Node, how: usize) -> Node {
    fn go<T>(v: &mut [T], how: usize) {
        match how {
            1 => v.reverse(),
            2 if !v.is_empty() => v.rotate_left(1),
            _ => {}
        }
    }
    let mut n = n.clone();
    go(&mut n.kids, how % 3);
    go(&mut n.res, how / 3 % 3);
    for k in &mut n.kids {
        k.1 = turn(&k.1, how);
    }
    n
}

pub fn c10(ctx: &Ctx) -> i32 {
    let t = ctx.thorough;
    let mut base = siblings(&WORDS, 3, &DYNS, true);
    if !t {
        base = base.into_iter().step_by(4).collect();
    }
    base.extend(two_level(2, &[s("a"), s("ab"), dy(Ty::Str)], &[s("a"), dy(Ty::Str)]).into_iter().step_by(if t { 1 } else { 3 }));
    base.extend(methods(false).into_iter().step_by(if t { 1 } else { 9 }));
    base.extend(redirect_confs(false).into_iter().filter(consistent).step_by(if t { 5 } else { 29 }));
    base.extend(query_confs(false).into_iter().step_by(if t { 11 } else { 67 }));
    let mods = |names: &[&str]| {
        let kids = names
            .iter()
            .enumerate()
            .map(|(i, n)| (s(["a", "ab", "b", "c"][i]), with(vec![res(M::Get, n)], vec![])))
            .collect();
        number(inner(kids))
    };
    base.extend(labelled(t).into_iter().filter(|c| actions(c).len() > 2).step_by(if t { 5 } else { 19 }));
    base.extend(conflicts(false).into_iter().map(|d| d.conf).step_by(if t { 1 } else { 3 }));
    base.push(mods(&["A::X", "A::Y", "B::X"]));
    base.push(mods(&["A::B::X", "A::Y", "A::C", "Z"]));
    base.push(mods(&["People", "People::List", "B"]));
    let base = dedup(base);
    let mut confs: Vec<Conf> = vec![];
    let mut group: Vec<usize> = vec![];
    for (g, c) in base.iter().enumerate() {
        let mut seen: HashSet<Node> = HashSet::new();
        for n in orders(&c.root) {
            if seen.insert(n.clone()) {
                confs.push(Conf {
                    headers: vec![],
                    root: n,
                });
                group.push(g);
            }
        }
    }
    let mut base = base;
    let mut merged = 0;
    // everything turned round at once: reversed, or moved on by one, children, resources or both
    let turned: Vec<Vec<Conf>> = pairs(false)
        .iter()
        .map(|c| {
            let mut set = vec![c.clone()];
            for how in 1..if t { 9 } else { 7 } {
                set.push(Conf {
                    headers: c.headers.clone(),
                    root: turn(&c.root, how),
                });
            }
            dedup(set)
        })
        .filter(|set| set.len() > 1)
        .collect();
    for set in wide_sets(t).into_iter().chain(turned) {
        let (reps, m) = consed(&set, 60);
        merged += m;
        for c in reps {
            confs.push(c);
            group.push(base.len());
        }
        ctx.eval(m);
        base.push(set.into_iter().next().unwrap());
    }
    ctx.set("orders_merged_because_the_module_is_the_same", merged);
    let base = base;
    let all: &[&[u8]] = &[b"GET", b"POST", b"PUT", b"DELETE"];
    let answers: Mutex<BTreeMap<usize, (usize, Vec<String>)>> = Mutex::new(BTreeMap::new());
    let fails: Mutex<BTreeMap<usize, Vec<(usize, String)>>> = Mutex::new(BTreeMap::new());
    let o = PathOpts {
        chars: if t { 4 } else { 3 },
        ..PathOpts::default()
    };
    let compiled: Mutex<HashSet<usize>> = Mutex::new(HashSet::new());
    each_router(
        ctx,
        &Job::new(&confs),
        &|i, c, r, code| {
            // the same questions for the whole group, in the same order
            let ps = {
                let mut v = paths(&base[group[i]], &o);
                v.sort();
                v
            };
            compiled.lock().unwrap().insert(group[i]);
            let txt = text(c);
            let mut buf = vec![];
            let m = Model::new(c);
            let mut states = HashSet::new();
            let mut got = vec![];
            let single = verbs(c).len() == 1;
            let ms = if single { &all[..1] } else { all };
            for p in &ps {
                states.insert(m.state(p));
                for v in ms {
                    got.push(ask(c, &txt, r, p, v, &mut buf));
                }
            }
            ctx.add(&ctx.states, states.len());
            ctx.add(&ctx.transitions, got.len());
            ctx.add(&ctx.traces, got.len());
            ctx.eval(1);
            let mut g = answers.lock().unwrap();
            match g.get(&group[i]) {
                None => {
                    g.insert(group[i], (i, got));
                }
                Some((k, other)) => {
                    if got.iter().any(|x| x != "N") {
                        ctx.add(&ctx.nontrivial, 1);
                    }
                    if let Some(n) = (0..got.len()).find(|n| got[*n] != other[*n]) {
                        let (pp, me) = (&ps[n / ms.len()], ms[n % ms.len()]);
                        ctx.violate(|| {
                            let mut v = replayable(c, code, pp, me, &other[n], &got[n], "the order of declarations changes the answer");
                            v.files.push(("other.routes".into(), text(&confs[*k])));
                            v
                        });
                    }
                }
            }
        },
        &|i, _, f| {
            let m = match f {
                Fail::Rejected(m) | Fail::Uncompilable(m) => m,
            };
            fails.lock().unwrap().entry(group[i]).or_default().push((i, m));
        },
    );
    // some orders build and others do not
    let done = compiled.into_inner().unwrap();
    for (g, v) in fails.into_inner().unwrap() {
        if done.contains(&g) {
            let (i, m) = &v[0];
            ctx.violate(|| Violation {
                what: format!(
                    "the order of declarations decides whether the configuration builds: <<{}>> does, <<{}>> does not: {}",
                    text(&base[g]).trim_end(),
                    text(&confs[*i]).trim_end(),
                    m
                ),
                files: vec![("config.routes".into(), text(&confs[*i]))],
            });
        } else {
            ctx.add(&ctx.skipped, v.len());
        }
    }
    ctx.set("configurations", base.len());
    ctx.set("orders_built", confs.len());
    ctx.sample(|| text(&confs[confs.len() / 2]).replace('\n', " ; "));
    ctx.finish(
        "exploration",
        "every order of the children and the resources of every node of each configuration (at most 150 orders of one configuration), and all 720 orders of sets of six siblings, of which those with the same module are asked once; all orders must answer every question alike; also: features by twos, one neighbourhood turned; configurations with conflicts are refused in every order or none; an evaluation is one order with all its questions, non-trivial: it is compared with another order, and some answer is not NotFound",
        &["the order of query parameters is the order of struct fields and is not permuted"],
    )
}

// ---------------------------------------------------------------------- C11

pub struct Decl {
    pub conf: Conf,
    what: &'static str,
}

pub fn conflicts(t: bool) -> Vec<Decl> {
    let mut v = vec![];
    let mut add = |what: &'static str, n: Node| {
        v.push(Decl {
            conf: number(n),
            what,
        })
    };
    let sites: Vec<Vec<Seg>> = vec![
        vec![],
        vec![s("a")],
        vec![s("ab"), s("c")],
        vec![dy(Ty::Str)],
        vec![s("a"), dy(Ty::U8)],
    ];
    let place = |site: &[Seg], mut n: Node| {
        for sg in site.iter().rev() {
            n = inner(vec![(sg.clone(), n)]);
        }
        n
    };
    let branch = || with(vec![anon(M::Get)], vec![(s("x"), leaf())]);
    let below = || inner(vec![(s("y"), leaf())]);
    for site in &sites {
        let dups: Vec<(Seg, Seg)> = vec![
            (s("w"), s("w")),
            (s("word"), s("word")),
            (d("n", Ty::Str), d("n", Ty::Str)),
            (d("n", Ty::Str), d("n", Ty::U8)),
            (d("n", Ty::Str), d("m", Ty::Str)),
            (d("n", Ty::U8), d("m", Ty::Str)),
            (d("n", Ty::Bool), d("m", Ty::U8)),
        ];
        for (a, b) in dups {
            for (ka, kb) in [
                (leaf(), leaf()),
                (leaf(), below()),
                (below(), leaf()),
                (branch(), below()),
                (inner(vec![(s("x"), leaf())]), below()),
                (inner(vec![(s("x"), leaf())]), inner(vec![(s("x"), leaf())])),
                (with(vec![anon(M::Post)], vec![]), leaf()),
            ] {
                for extra in [None, Some(s("other")), Some(s("wo"))] {
                    let mut kids = vec![(a.clone(), ka.clone()), (b.clone(), kb.clone())];
                    if let Some(e) = extra {
                        kids.insert(1, (e, leaf()));
                    }
                    add("two children with the same or colliding segment", place(site, inner(kids.clone())));
                    if t {
                        add(
                            "two children with the same or colliding segment",
                            place(site, with(vec![anon(M::Get)], kids)),
                        );
                    }
                }
            }
        }
        // the same method twice
        for m in METHODS {
            for other in [None, Some(M::Get), Some(M::Delete)] {
                if other == Some(m) {
                    continue;
                }
                let mut r = vec![anon(m), anon(m)];
                if let Some(o) = other {
                    r.insert(1, anon(o));
                }
                add("a method twice on one path", place(site, with(r.clone(), vec![])));
                add("a method twice on one path", place(site, with(r, vec![(s("kid"), leaf())])));
            }
            add(
                "a resource and a redirect for one method",
                place(site, with(vec![anon(m), redir(m, "T")], vec![(s("t"), with(vec![res(M::Get, "T")], vec![]))])),
            );
            add(
                "a resource and a redirect for one method",
                place(site, with(vec![redir(m, "T"), anon(m)], vec![(s("t"), with(vec![res(M::Get, "T")], vec![]))])),
            );
        }
        // one action name twice
        for name in ["Same", "A::Same", "A::B::Same"] {
            for m in [M::Get, M::Post] {
                add(
                    "one name for two resources",
                    place(
                        site,
                        inner(vec![
                            (s("a"), with(vec![res(M::Get, name)], vec![])),
                            (s("b"), with(vec![res(m, name)], vec![])),
                        ]),
                    ),
                );
            }
            add(
                "one name for two resources",
                place(site, with(vec![res(M::Get, name), res(M::Post, name)], vec![(s("z"), leaf())])),
            );
            add(
                "one name for two resources",
                place(site, with(vec![res(M::Get, name)], vec![(s("z"), with(vec![res(M::Get, name)], vec![]))])),
            );
        }
        // and at two places of several kinds
        if site.is_empty() {
            let places: Vec<Vec<Seg>> = vec![
                vec![s("a")],
                vec![s("b"), s("c")],
                vec![s("d"), d("x", Ty::U8)],
                vec![s("e"), d("x", Ty::U8), d("y", Ty::Str)],
                vec![s("f"), d("x", Ty::U8), d("y", Ty::Str), s("g")],
                vec![s("h"), d("x", Ty::U8), s("i"), d("y", Ty::Str), d("z", Ty::Bool)],
                vec![d("u", Ty::Bool)],
                vec![d("u", Ty::Bool), d("v", Ty::Bool)],
            ];
            for p1 in &places {
                for p2 in places.iter().filter(|x| *x != p1) {
                    for (k, name) in ["Same", "A::Same", "A::B::Same"].iter().enumerate() {
                        let mut root = Node::default();
                        insert(&mut root, p1, |n| n.res.push(res(M::Get, name)));
                        insert(&mut root, p2, |n| {
                            if k == 1 {
                                n.res.push(anon(M::Get));
                            }
                            n.res.push(res(M::Put, name));
                        });
                        add("one name for two resources", root);
                    }
                }
            }
            // names which differ in spelling only, as Rust will write them
            let spelled = [
                ("list_all", "ListAll"), ("list_all", "listAll"), ("ListAll", "listAll"), ("show", "Show"), ("x_1", "X1"), ("list_all", "Listall"),
                ("books::show", "Books::Show"), ("books::show", "books::Show"), ("books::show", "Books::show"), ("my_books::show", "MyBooks::show"), ("A::list_all", "A::ListAll"), ("A::B::x", "A::b::x"),
                ("A::B::x", "a::B::X"), ("s3", "S3"), ("s_3", "s3"),
            ];
            for (a, b) in spelled {
                for (a, b) in [(a, b), (b, a)] {
                    for p1 in &places[..4] {
                        for p2 in places[..4].iter().filter(|x| *x != p1) {
                            let mut root = Node::default();
                            insert(&mut root, p1, |n| n.res.push(res(M::Get, a)));
                            insert(&mut root, p2, |n| n.res.push(res(M::Get, b)));
                            add("names which differ in spelling", root);
                        }
                        let mut root = Node::default();
                        insert(&mut root, p1, |n| n.res.extend([res(M::Get, a), res(M::Post, b)]));
                        add("names which differ in spelling", root);
                    }
                }
            }
        }
        // a word with a separator against a nested one
        add(
            "a mounted path against a nested one",
            place(
                site,
                inner(vec![
                    (s("m"), inner(vec![(s("n"), leaf())])),
                    (s("m/n"), leaf()),
                ]),
            ),
        );
        add(
            "a mounted path beside a nested one",
            place(
                site,
                inner(vec![
                    (s("m"), inner(vec![(s("o"), leaf())])),
                    (s("m/n"), leaf()),
                ]),
            ),
        );
    }
    v
}

/// Request paths which by declaration belong to this action.
fn own_paths(m: &Model, a: &Action) -> Vec<Vec<u8>> {
    let doms: Vec<Vec<String>> = a
        .params()
        .iter()
        .map(|x| match x.ty {
            Ty::Str => vec!["q".into(), "Q9".into(), "other-text".into()],
            Ty::U8 => vec!["7".into(), "255".into()],
            ty => vec![ty.sample().to_string()],
        })
        .collect();
    let mut out = vec![];
    for k in 0..3 {
        let mut path = vec![];
        let mut i = 0;
        for sg in &a.path {
            path.push(b'/');
            match sg {
                Seg::S(t) => path.extend_from_slice(t.as_bytes()),
                Seg::D(_) => {
                    let dom = &doms[i];
                    path.extend_from_slice(dom[k % dom.len()].as_bytes());
                    i += 1;
                }
            }
        }
        if path.is_empty() {
            path.push(b'/');
        }
        if !out.contains(&path) {
            out.push(path);
        }
    }
    let _ = m;
    out
}

pub fn c11(ctx: &Ctx) -> i32 {
    let t = ctx.thorough;
    let decls = conflicts(t);
    let mut confs: Vec<Conf> = decls.iter().map(|d| d.conf.clone()).collect();
    let nconf = confs.len();
    // and configurations without conflict: nothing declared may be lost either
    confs.extend(structures(t));
    confs.extend(pairs(t));
    confs.extend(methods(false).into_iter().step_by(if t { 1 } else { 4 }));
    confs.extend(scale(t));
    confs.extend(far(t));
    let rejected = std::sync::atomic::AtomicU64::new(0);
    each_router(
        ctx,
        &Job::new(&confs),
        &|i, c, r, code| {
            let m = Model::new(c);
            let txt = text(c);
            let mut buf = vec![];
            let why = if i < nconf { decls[i].what } else { "a well-formed configuration" };
            let as_rust = |a: &Action| a.target.iter().map(|x| caps(x)).collect::<Vec<_>>();
            let served: Vec<&Action> = m.acts.iter().filter(|a| !a.redirect).collect();
            if let Some((n, a)) = served.iter().enumerate().find(|(n, a)| served[..*n].iter().any(|b| as_rust(b) == as_rust(a))) {
                ctx.violate(|| Violation {
                    what: format!("accepted although {} is declared as a second resource of its name (resource {}) in <<{}>>", a.target.join("::"), n, txt.trim_end()),
                    files: vec![("config.routes".into(), txt.clone()), ("routes.rs".into(), code.into())],
                });
            }
            for (k, a) in m.acts.iter().enumerate() {
                ctx.eval(1);
                ctx.add(&ctx.nontrivial, 1);
                let want = {
                    let mut w = String::new();
                    for x in &a.target {
                        w.push_str(&format!("{}(", caps(x)));
                    }
                    w.push_str(&caps(a.target.last().unwrap()));
                    w
                };
                let ps = own_paths(&m, a);
                let mut answers = vec![];
                let mut reached = false;
                for p in &ps {
                    let got = ask(c, &txt, r, p, a.m.verb().as_bytes(), &mut buf);
                    ctx.add(&ctx.traces, 1);
                    let kind = if a.redirect { "D" } else { "R" };
                    if got.starts_with(kind) && target_of(field(&got, 1)) == want {
                        // and the same declared place: equal targets elsewhere are other declarations
                        reached = true;
                    }
                    answers.push(got);
                }
                if !reached {
                    // by declaration hidden behind static siblings, or by a listed defect?
                    let p = &ps[0];
                    let v = || {
                        replayable(
                            c,
                            code,
                            p,
                            a.m.verb().as_bytes(),
                            &want,
                            &answers[0],
                            &format!("accepted ({}) although declaration {} can never be reached", why, k),
                        )
                    };
                    let mut used = 0;
                    let q = m.ask(p, a.m.verb().as_bytes(), K1 | K2, &mut used).wire();
                    let mut none = 0;
                    let ideal = m.ask(p, a.m.verb().as_bytes(), 0, &mut none).wire();
                    if used & K1 != 0 && q != ideal && q == answers[0] {
                        ctx.known("K1", v);
                    } else {
                        ctx.violate(v);
                    }
                }
            }
            ctx.sample(|| format!("{}: {}", why, txt.trim_end().replace('\n', " ; ")));
        },
        &|i, _, f| match f {
            Fail::Rejected(_) | Fail::Uncompilable(_) => {
                if i < nconf {
                    ctx.eval(1);
                    rejected.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                } else {
                    ctx.add(&ctx.skipped, 1);
                }
            }
        },
    );
    ctx.set("conflicting_configurations", nconf);
    ctx.set("rejected", rejected.into_inner());
    ctx.set("configurations", confs.len());
    ctx.finish(
        "exploration",
        "every kind of conflict (equal, colliding and differently named sibling segments; one method twice; one name twice; mounted against nested paths) at five places with several neighbours must be refused by the generator or by rustc, and in every configuration that builds each declared resource must be reachable by a path of its own; also: one name at every pair of eight places; fifteen pairs of names which differ in spelling only; one method twice at every pair of positions; every two of twenty features of one place together (S7; thorough: every four at their extremes); non-trivial: a declared resource of a configuration that built",
        &["a refusal is an error or panic of the generator, or a compile error"],
    )
}

