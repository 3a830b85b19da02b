//! Checks of composition: mounts and macros.

use super::matching::*;
use crate::ctx::{one_line, par, probe, Ctx, Violation};
use crate::explore::*;
use crate::families::*;
use crate::model::*;
use std::collections::BTreeSet;
use std::fs;
use std::process::Command;
use std::sync::Mutex;

// ---------------------------------------------------------------------- C19

/// Query parameters moved from the routes to the resources they reach.
fn inherit(n: &Node, above: &[P]) -> Node {
    let mut qp = above.to_vec();
    qp.extend(n.qp.iter().cloned());
    Node {
        qp: vec![],
        res: n
            .res
            .iter()
            .map(|r| {
                let mut q = qp.clone();
                q.extend(r.qp.iter().cloned());
                Res { qp: q, ..r.clone() }
            })
            .collect(),
        kids: n.kids.iter().map(|(sg, k)| (sg.clone(), inherit(k, &qp))).collect(),
    }
}

/// The union of two trees; `None` when they conflict.
fn union(a: &mut Node, b: Node) -> Option<()> {
    for r in b.res {
        if a.res.iter().any(|x| x.m == r.m) {
            return None;
        }
        a.res.push(r);
    }
    for (sg, k) in b.kids {
        let clash = a.kids.iter().any(|(x, _)| matches!((x, &sg), (Seg::D(_), Seg::D(_))) && *x != sg);
        if clash {
            return None;
        }
        match a.kids.iter_mut().find(|x| x.0 == sg) {
            Some(x) => union(&mut x.1, k)?,
            None => {
                // merge it into an empty place, so that it conflicts with itself if at all
                let mut fresh = Node::default();
                union(&mut fresh, k)?;
                a.kids.push((sg, fresh));
            }
        }
    }
    Some(())
}

#[derive(Clone)]
struct Tree {
    conf: Conf,
    mounts: Vec<(String, Tree)>,
}
impl Tree {
    fn leaf(conf: &Conf) -> Tree {
        Tree {
            conf: conf.clone(),
            mounts: vec![],
        }
    }
    /// through the library
    fn real(&self) -> wayfinder::RouteConfig {
        let mut c = wf_conf(&self.conf);
        for (at, t) in &self.mounts {
            c = c.mount(at, t.real());
        }
        c
    }
    /// by the reference
    fn model(&self) -> Option<Conf> {
        let mut headers = self.conf.headers.clone();
        let mut root = Node::default();
        union(&mut root, inherit(&self.conf.root, &[]))?;
        // a mounted configuration inherits what is declared at the root
        for (at, t) in &self.mounts {
            let m = t.model()?;
            headers.extend(m.headers);
            let mut n = inherit(&m.root, &self.conf.root.qp);
            for word in at.split('/').rev() {
                n = inner(vec![(s(word), n)]);
            }
            union(&mut root, n)?;
        }
        let mut seen = BTreeSet::new();
        headers.retain(|h| seen.insert(h.clone()));
        Some(Conf { headers, root })
    }
    /// the places declared, once per declaration
    fn places(&self, at: &[String], out: &mut Vec<Vec<String>>) {
        fn go(n: &Node, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
            out.push(at.clone());
            for (sg, k) in &n.kids {
                at.push(match sg {
                    Seg::S(w) => w.clone(),
                    Seg::D(x) => format!("{{{}}}", x.name),
                });
                go(k, at, out);
                at.pop();
            }
        }
        go(&self.conf.root, &mut at.to_vec(), out);
        for (point, t) in &self.mounts {
            let mut here = at.to_vec();
            here.extend(point.split('/').map(|w| w.to_string()));
            t.places(&here, out);
        }
    }
    /// Some place is declared twice, so that refusing is right as well.
    fn overlaps(&self) -> bool {
        let mut v = vec![];
        self.places(&[], &mut v);
        let n = v.len();
        v.sort();
        v.dedup();
        v.len() < n
    }
    fn show(&self) -> String {
        let mut o = format!("<<{}>>", text(&self.conf).trim_end().replace('\n', " ; "));
        for (at, t) in &self.mounts {
            o.push_str(&format!(".mount({:?}, {})", at, t.show()));
        }
        o
    }
    fn outcome(&self) -> Option<Conf> {
        let c = self.model()?;
        // one name for two resources is a conflict of another kind (C11)
        let acts = actions(&c);
        let names: BTreeSet<Vec<String>> = acts.iter().filter(|a| !a.redirect).map(|a| a.target.clone()).collect();
        if names.len() != acts.iter().filter(|a| !a.redirect).count() {
            return None;
        }
        Some(c)
    }
}

/// Gives the resources of a configuration names of their own.
fn named(c: &Conf, tag: &str) -> Conf {
    fn go(n: &mut Node, tag: &str) {
        for r in &mut n.res {
            r.target.insert(0, tag.to_string());
        }
        // (inherited under the same name they would be declared twice)
        for q in &mut n.qp {
            q.name = format!("{}_{}", q.name, tag.to_lowercase());
        }
        for k in &mut n.kids {
            go(&mut k.1, tag);
        }
    }
    let mut c = c.clone();
    go(&mut c.root, tag);
    c
}

fn pools() -> (Vec<Conf>, Vec<Conf>) {
    let q = |mut n: Node, name: &str, ty: Ty| {
        n.qp.push(p(name, ty));
        n
    };
    let h = |mut c: Conf, hs: &[&str]| {
        c.headers = hs.iter().map(|x| x.to_string()).collect();
        c
    };
    let bases = vec![
        Conf::default(),
        h(number(leaf()), &["use std::fmt::Debug;", "// base"]),
        number(with(vec![anon(M::Get)], vec![(s("x"), leaf())])),
        number(inner(vec![(s("m"), leaf())])),
        number(inner(vec![(s("m"), inner(vec![(s("n"), leaf()), (s("a"), leaf())]))])),
        number(inner(vec![(d("id", Ty::U8), with(vec![anon(M::Get)], vec![(s("a"), leaf())]))])),
        number(inner(vec![(s("m"), inner(vec![(d("id", Ty::Str), leaf())]))])),
        number(inner(vec![(s("mo"), leaf()), (s("n"), with(vec![anon(M::Post)], vec![]))])),
        number(q(with(vec![anon(M::Get)], vec![(s("m"), inner(vec![(s("z"), leaf())]))]), "lang", Ty::Str)),
        number(with(vec![], vec![(s("old"), with(vec![redir(M::Get, "H0")], vec![])), (s("new"), leaf())])),
    ];
    let subs = vec![
        h(number(leaf()), &["use std::fmt::Debug;", "// sub"]),
        number(with(vec![anon(M::Get), anon(M::Delete)], vec![(s("a"), leaf())])),
        number(inner(vec![(d("id", Ty::Str), with(vec![anon(M::Get)], vec![(s("edit"), leaf())])), (s("new"), leaf())])),
        number(inner(vec![(s("n"), with(vec![anon(M::Post)], vec![(s("a"), leaf())]))])),
        number(q(with(vec![anon(M::Put)], vec![(s("b"), leaf())]), "page", Ty::U8)),
        number(inner(vec![(s("a"), leaf()), (s("ab"), leaf()), (s("abc"), leaf())])),
        number(with(
            vec![res(M::Get, "A::B")],
            vec![(s("r"), with(vec![redir(M::Get, "A::B")], vec![])), (d("k", Ty::Bool), with(vec![res(M::Get, "C")], vec![]))],
        )),
    ];
    (bases, subs)
}

/// redirects inside a mounted configuration name its own resources
fn retarget(c: &Conf, tag: &str) -> Conf {
    named(c, tag)
}

fn mount_trees(t: bool) -> Vec<Tree> {
    let (bases, subs) = pools();
    let points = ["m", "n", "m/n", "mo", "x/y/z"];
    let sub = |i: usize, tag: &str| Tree::leaf(&retarget(&subs[i], tag));
    let mut out = vec![];
    let one: Vec<(&str, usize)> = points.iter().flat_map(|p| (0..subs.len()).map(move |i| (*p, i))).collect();
    for b in &bases {
        for (p1, i) in &one {
            let first = (p1.to_string(), sub(*i, "K1"));
            out.push(Tree {
                conf: b.clone(),
                mounts: vec![first.clone()],
            });
            for (p2, j) in &one {
                out.push(Tree {
                    conf: b.clone(),
                    mounts: vec![first.clone(), (p2.to_string(), sub(*j, "K2"))],
                });
            }
        }
    }
    // mounts of mounts, and mounts on what was mounted
    for b in bases.iter().step_by(if t { 1 } else { 3 }) {
        for (p1, i) in &one {
            for (p2, j) in &one {
                let nested = Tree {
                    conf: retarget(&subs[*i], "K1"),
                    mounts: vec![(p2.to_string(), sub(*j, "K2"))],
                };
                out.push(Tree {
                    conf: b.clone(),
                    mounts: vec![(p1.to_string(), nested.clone())],
                });
                if t && *i % 2 == 0 && *j % 2 == 0 {
                    for (p3, k) in one.iter().step_by(4) {
                        out.push(Tree {
                            conf: b.clone(),
                            mounts: vec![(p1.to_string(), nested.clone()), (p3.to_string(), sub(*k, "K3"))],
                        });
                    }
                }
            }
        }
    }
    // three mounts
    for b in bases.iter().step_by(if t { 1 } else { 5 }) {
        for (a, (p1, i)) in one.iter().enumerate() {
            for (p2, j) in one.iter().skip(a % 3).step_by(if t { 3 } else { 9 }) {
                for (p3, k) in one.iter().skip((a + j) % 4).step_by(if t { 4 } else { 12 }) {
                    out.push(Tree {
                        conf: b.clone(),
                        mounts: vec![
                            (p1.to_string(), sub(*i, "K1")),
                            (p2.to_string(), sub(*j, "K2")),
                            (p3.to_string(), sub(*k, "K3")),
                        ],
                    });
                }
            }
        }
    }
    // odd mount points, alone and next to each other
    let odd = ["v1.0", "a-b", "A", "~x", "q_1", "9", "m.n/o-p", "a/b/c/d/e/f/g", "mm", "get", "aVeryLongMountPointWhichGoesOnAndOn"];
    for (k, at) in odd.iter().enumerate() {
        for i in 0..subs.len() {
            for b in [&bases[1], &bases[5], &bases[8]] {
                out.push(Tree {
                    conf: b.clone(),
                    mounts: vec![(at.to_string(), sub(i, "K1"))],
                });
                if t || i == k % subs.len() {
                    out.push(Tree {
                        conf: b.clone(),
                        mounts: vec![
                            (at.to_string(), sub(i, "K1")),
                            (odd[(k + 1) % odd.len()].to_string(), sub((i + 1) % subs.len(), "K2")),
                            (format!("{}x", at), sub((i + 2) % subs.len(), "K3")),
                        ],
                    });
                }
            }
        }
    }
    // many mounts side by side, one in another, and at the end of long points
    for n in if t { vec![4, 5, 8, 9, 16, 17, 33, 65] } else { vec![4, 5, 9, 17, 33] } {
        out.push(Tree {
            conf: bases[8].clone(),
            mounts: (0..n).map(|k| (format!("p{}", k), sub(k % subs.len(), &format!("K{}", k)))).collect(),
        });
        out.push(Tree {
            conf: bases[0].clone(),
            mounts: (0..n).map(|k| (format!("x/y{}/z", k), sub((k + 4) % subs.len(), &format!("K{}", k)))).collect(),
        });
        let mut chain = sub(4, "Kx");
        for k in 0..n {
            chain = Tree {
                conf: retarget(&subs[[4, 1, 0, 6][k % 4]], &format!("K{}", k)),
                mounts: vec![(format!("d{}", k), chain)],
            };
        }
        out.push(chain);
        out.push(Tree {
            conf: bases[3].clone(),
            mounts: vec![((0..n).map(|k| format!("w{}", k)).collect::<Vec<_>>().join("/"), sub(2, "K1"))],
        });
    }
    // every two features of a mounted configuration
    for (k, c) in crossed(2, false).iter().enumerate() {
        let (b, at) = [(1, "m"), (2, "x/y"), (4, "m/n/o"), (0, "m")][k % 4];
        out.push(Tree {
            conf: bases[b].clone(),
            mounts: vec![(at.into(), Tree::leaf(&retarget(c, "K1")))],
        });
        // and of what it is mounted on
        let mut base = c.clone();
        if k % 2 == 0 {
            base.headers = vec!["// base".into(), "use std::fmt::Debug;".into()];
        }
        out.push(Tree {
            conf: base,
            mounts: vec![(["mm", "m/n"][k % 2].into(), Tree::leaf(&retarget(&subs[[0, 2, 5, 6][k / 2 % 4]], "K1")))],
        });
    }
    // the same configuration twice under its own names
    for i in 0..subs.len() {
        for at in points {
            out.push(Tree {
                conf: bases[1].clone(),
                mounts: vec![(at.into(), sub(i, "K1")), (at.into(), sub(i, "K1"))],
            });
        }
    }
    out
}

pub fn c19(ctx: &Ctx) -> i32 {
    let t = ctx.thorough;
    let all = mount_trees(t);
    let mut trees: Vec<Tree> = vec![];
    let mut confs: Vec<Conf> = vec![];
    let mut refused: Vec<Tree> = vec![];
    for tr in all {
        match tr.outcome() {
            Some(c) => {
                // redirects into a place with parameters of its own are C08's
                if consistent(&c) {
                    confs.push(c);
                    trees.push(tr);
                }
            }
            None => refused.push(tr),
        }
    }
    // headers: those of the parent, then new ones, once each
    par(&trees, |i, tr| {
        let got = probe(&[b"mount"], || tr.real());
        ctx.eval(1);
        match got {
            Err(e) => ctx.violate(|| Violation {
                what: format!("mounting panics: {} for {}", e, tr.show()),
                files: vec![],
            }),
            Ok(c) => {
                let hs: Vec<String> = c.headers.iter().map(|h| h.text.clone()).collect();
                if hs != confs[i].headers {
                    ctx.violate(|| Violation {
                        what: format!("the headers are {:?} instead of {:?} for {}", hs, confs[i].headers, tr.show()),
                        files: vec![],
                    });
                }
            }
        }
    });
    // every list of up to three header lines on every other, and on two
    let words = ["use a::b;", "use a::c;", "// x", "use a::b; ", "type T = u8;"];
    let lists: Vec<Vec<&str>> = seqs(&words, 3)
        .into_iter()
        .filter(|l| l.iter().enumerate().all(|(i, x)| !l[..i].contains(x)))
        .collect();
    let plain = |l: &[&str]| Conf {
        headers: l.iter().map(|x| x.to_string()).collect(),
        root: leaf(),
    };
    par(&lists, |_, a| {
        let mut n = 0;
        for b in &lists {
            for c in lists.iter().filter(|c| c.len() < 3) {
                for nested in [false, true] {
                    let third = Tree::leaf(&plain(c));
                    let mut second = Tree::leaf(&plain(b));
                    let mut first = Tree::leaf(&plain(a));
                    if nested {
                        second.mounts.push(("y".into(), third));
                        first.mounts.push(("x".into(), second));
                    } else {
                        first.mounts.push(("x".into(), second));
                        first.mounts.push(("y".into(), third));
                    }
                    n += 1;
                    let got: Vec<String> = first.real().headers.iter().map(|h| h.text.clone()).collect();
                    let want = first.model().map(|c| c.headers).unwrap_or_default();
                    if got != want {
                        ctx.violate(|| Violation {
                            what: format!("the headers are {:?} instead of {:?} for {}", got, want, first.show()),
                            files: vec![],
                        });
                    }
                }
            }
        }
        ctx.eval(n);
    });
    ctx.set("header_lists", lists.len());
    // lines which are nearly the same: every one-character edit of a few
    let mut near: Vec<(String, String)> = vec![];
    for l in ["use a::b;", "// x", "type T = u8;", "use a::{b, c};", "x"] {
        let cs: Vec<char> = l.chars().collect();
        for at in 0..=cs.len() {
            for c in " ;/,:_aB0\t\"'#!\u{e9}".chars() {
                let mut w = cs.clone();
                w.insert(at, c);
                near.push((l.into(), w.iter().collect()));
            }
            if at < cs.len() {
                let mut w = cs.clone();
                w.remove(at);
                near.push((l.into(), w.iter().collect()));
                let mut w = cs.clone();
                w[at] = if w[at].is_ascii_lowercase() { w[at].to_ascii_uppercase() } else { w[at].to_ascii_lowercase() };
                near.push((l.into(), w.iter().collect()));
            }
        }
    }
    near.retain(|(a, b)| a != b);
    ctx.set("near_equal_header_lines", near.len());
    par(&near, |_, (a, b)| {
        for (x, y) in [(a, b), (b, a)] {
            for (mine, theirs) in [(vec![x], vec![y]), (vec![x], vec![x, y]), (vec![x, y], vec![y, x]), (vec![], vec![x, y])] {
                let list = |l: &[&String]| Conf {
                    headers: l.iter().map(|x| x.to_string()).collect(),
                    root: leaf(),
                };
                let mut first = Tree::leaf(&list(&mine));
                first.mounts.push(("x".into(), Tree::leaf(&list(&theirs))));
                ctx.eval(1);
                let got: Vec<String> = first.real().headers.iter().map(|h| h.text.clone()).collect();
                let want = first.model().map(|c| c.headers).unwrap_or_default();
                if got != want {
                    ctx.violate(|| Violation {
                        what: format!("the headers are {:?} instead of {:?} for {}", got, want, first.show()),
                        files: vec![],
                    });
                }
            }
        }
    });
    // conflicts are refused
    let quiet = Mutex::new(0u64);
    par(&refused, |_, tr| {
        ctx.eval(1);
        if tr.model().is_some() {
            return; // only a name occurs twice
        }
        let r = probe(&[b"codegen of a conflicting mount"], || real_code(&tr.real()));
        *quiet.lock().unwrap() += 1;
        if let Ok(Ok(code)) = r {
            ctx.violate(|| Violation {
                what: format!("a conflicting mount is accepted: {}", tr.show()),
                files: vec![("routes.rs".into(), code)],
            });
        }
    });
    ctx.set("conflicting_histories", quiet.into_inner().unwrap());
    // one answer for one union: equal unions need one router only when the code is equal, too
    let code = |i: usize, _: &Conf| -> Result<String, String> {
        match probe(&[b"codegen of a mount"], || real_code(&trees[i].real())) {
            Ok(r) => r,
            Err(e) => Err(format!("codegen panicked: {}", e)),
        }
    };
    let step = if t { 1 } else { 5 };
    // the whole enumeration is compared as generated text first: histories with
    // equal text share one router
    let texts: Mutex<Vec<Option<Result<String, String>>>> = Mutex::new(confs.iter().map(|_| None).collect());
    par(&confs, |i, c| {
        let r = code(i, c);
        texts.lock().unwrap()[i] = Some(r);
    });
    let texts: Vec<Result<String, String>> = texts.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect();
    let mut distinct: std::collections::HashMap<(&str, &Conf), usize> = Default::default();
    let mut pick: Vec<usize> = vec![];
    for (i, r) in texts.iter().enumerate() {
        let key = (r.as_ref().map(|x| x.as_str()).unwrap_or_else(|e| e.as_str()), &confs[i]);
        if !distinct.contains_key(&key) {
            distinct.insert(key, i);
            pick.push(i);
        }
    }
    // those which may be refused and are need no router
    pick.retain(|i| texts[*i].is_ok() || !trees[*i].overlaps());
    ctx.set("refused_overlapping_histories", confs.len() - texts.iter().filter(|x| x.is_ok()).count());
    let singles = trees.iter().filter(|x| x.mounts.len() == 1 && x.mounts[0].1.mounts.is_empty()).count();
    // quick: every single mount, and the longer ones by turns
    let pick: Vec<usize> = pick
        .into_iter()
        .enumerate()
        .filter(|(n, i)| (trees[*i].mounts.len() == 1 && trees[*i].mounts[0].1.mounts.is_empty()) || n % step == 0)
        .map(|x| x.1)
        .collect();
    let chosen: Vec<Conf> = pick.iter().map(|i| confs[*i].clone()).collect();
    let job = Job {
        code: &|k, _| texts[pick[k]].clone(),
        ..Job::new(&chosen)
    };
    let o = PathOpts {
        chars: 2,
        ext: 1,
        ..PathOpts::default()
    };
    let j = Judge {
        ctx,
        why: "after mounting",
        quirks: Quirks::Elsewhere,
        proj: &|w| Some(w.to_string()),
    };
    each_router(
        ctx,
        &job,
        &|k, c, r, code| {
            ctx.sample(|| trees[pick[k]].show());
            explore(ctx, c, r, code, &paths(c, &o), &verbs(c), &j);
        },
        &|k, _, f| {
            if let (Fail::Rejected(_), true) = (&f, trees[pick[k]].overlaps()) {
                ctx.add(&ctx.skipped, 1);
                return;
            }
            let (what, m) = match f {
                Fail::Rejected(m) => ("is refused", m),
                Fail::Uncompilable(m) => ("gives code which does not compile", m),
            };
            ctx.violate(|| Violation {
                what: format!("a mount without conflict {}: {} for {}", what, one_line(&m), trees[pick[k]].show()),
                files: vec![("routes.rs".into(), texts[pick[k]].clone().unwrap_or_default())],
            });
        },
    );
    ctx.set("mount_histories", trees.len());
    ctx.set("single_mounts", singles);
    ctx.set("routers_built", pick.len());
    ctx.finish(
        "model_checking",
        "ten configurations, each with every one and every two mounts of seven others at five points (one to three segments, existing and not), mounts of mounts, and three mounts; conflicting ones must be refused, those which declare some place twice may be, all others must not; of those with distinct generated text, every single mount and every fifth (every) longer history is compiled and asked C01's kind of questions; the answers are those of the reference model of the union; also: every configuration of one feature (S7) mounted and mounted on; header lists which share lines, nearly equal lines, repeated lines; non-trivial: not NotFound",
        &["mounted resources have names of their own"],
    )
}

// ---------------------------------------------------------------------- C20

struct Case {
    /// the macro expression, an expression of type Resource, Param or Header
    expr: String,
    /// its line(s) in a file
    file: String,
    kind: &'static str,
    uses: &'static str,
}

fn macro_cases(t: bool) -> Vec<Case> {
    let mut v = vec![];
    let names = ["Show", "a", "Index_2", "r#type"];
    let types = ["String", "u8", "Uuid", "i64"];
    let pnames = ["q", "page_no", "X"];
    let mods = ["People", "b", "C_3", "D4"];
    for (m, verb) in [("get", "GET"), ("post", "POST"), ("put", "PUT"), ("delete", "DELETE")] {
        for depth in 0..=if t { 4 } else { 3 } {
            for name in &names[..3] {
                let path = |sep: &str| {
                    let mut x: Vec<&str> = mods[..depth].to_vec();
                    x.push(name);
                    x.join(sep)
                };
                v.push(Case {
                    expr: format!("{}!(-> {})", m, path("::")),
                    file: format!("  {} -> {}\n", verb, path("::")),
                    kind: "resource",
                    uses: m,
                });
                for n in 0..=if t { 4 } else { 3 } {
                    // every assignment of types for the short names, a rotation for the others
                    let combos: Vec<Vec<usize>> = if *name == "Show" {
                        seqs(&[0usize, 1, 2, 3], n).into_iter().filter(|x| x.len() == n).collect()
                    } else {
                        vec![(0..n).map(|k| (k + depth) % 4).collect()]
                    };
                    for tys in combos {
                        let mut e = format!("{}!({}", m, path("::"));
                        let mut f = format!("  {} {}\n", verb, path("::"));
                        for (k, ty) in tys.iter().enumerate() {
                            let pn = format!("{}{}", pnames[k % 3], if k > 2 { "b" } else { "" });
                            e.push_str(&format!(", param!({}: {})", pn, types[*ty]));
                            f.push_str(&format!("    [{}: {}]\n", pn, types[*ty]));
                        }
                        e.push(')');
                        v.push(Case {
                            expr: e,
                            file: f,
                            kind: "resource",
                            uses: m,
                        });
                    }
                }
            }
        }
    }
    // modules and names out of few words: repeated, nested in themselves
    for (m, verb) in [("get", "GET"), ("post", "POST"), ("put", "PUT"), ("delete", "DELETE")] {
        let words = ["Admin", "B"];
        for seq in seqs(&words, if t { 5 } else { 4 }).into_iter().filter(|x| x.len() > 1) {
            let path = seq.join("::");
            for (x, y) in [("-> ", ""), ("", ""), ("", ", param!(q: u8), param!(q2: u8)")] {
                v.push(Case {
                    expr: format!("{}!({}{}{})", m, x, path, y),
                    file: format!("  {} {}{}\n{}", verb, x, path, if y.is_empty() { "" } else { "    [q: u8]\n    [q2: u8]\n" }),
                    kind: "resource",
                    uses: m,
                });
            }
        }
    }
    for ty in ["String", "u8", "Uuid", "bool", "X_1"] {
        for n in ["a", "page_no", "Q", "_x", "get", "param", "x1"] {
            v.push(Case {
                expr: format!("param!({}: {})", n, ty),
                file: format!("  {{{}: {}}}\n    GET A\n", n, ty),
                kind: "param",
                uses: "",
            });
            v.push(Case {
                expr: format!("param!({}: {})", n, ty),
                file: format!("  [{}: {}]\n  GET A\n", n, ty),
                kind: "query",
                uses: "",
            });
        }
    }
    for h in [
        "use uuid::Uuid;",
        "use a::b::c;",
        "use std::fmt;",
        "use crate::x as y;",
        "pub use super::thing;",
        "type Id = u32;",
        "const N: usize = 3;",
        "use a::{b, c};",
        "use a::*;",
        "extern crate a;",
        "struct S;",
        "static X: u8 = 1;",
        "mod inner;",
        "use a; use b;",
        "type A = u8; type B = A; use c::d;",
    ] {
        v.push(Case {
            expr: format!("header!({})", h),
            file: format!("{}\n", h),
            kind: "header",
            uses: "",
        });
    }
    v
}

/// The program comparing the macros with the parser; `with` macros or without.
fn macro_program(cases: &[Case], with: bool) -> String {
    let mut o = String::from(
        "#![allow(warnings)]\nfn parsed(t: &str) -> Option<wayfinder::RouteConfig> { wayfinder::parse::route_config(t).ok().map(|r| r.1) }\n\
fn say(n: usize, got: String, t: &str, f: fn(&wayfinder::RouteConfig) -> String) { match parsed(t) { Some(c) => { let w = f(&c); println!(\"{} {} {:?} {:?}\", n, got == w, got, w) } None => println!(\"{} false {:?} {:?}\", n, got, \"the file does not parse\") } }\n",
    );
    if !with {
        o.push_str("fn main() { say(0, String::new(), \"/\\n\", |c| format!(\"{:?}\", c)); }\n");
        return o;
    }
    let mut mains = String::new();
    for (k, chunk) in cases.chunks(60).enumerate() {
        // each resource macro is used where no other one is in scope
        for m in ["get", "post", "put", "delete", ""] {
            let mine: Vec<(usize, &Case)> = chunk.iter().enumerate().filter(|x| x.1.uses == m).collect();
            if mine.is_empty() {
                continue;
            }
            let name = format!("part{}{}", k, m);
            o.push_str(&format!("mod {} {{\n", name));
            if m.is_empty() {
                o.push_str("use wayfinder::{param, header};\n");
            } else {
                o.push_str(&format!("use wayfinder::{{{}, param}};\n", m));
            }
            o.push_str("pub fn run() {\n");
            for (i, c) in mine {
                let (file, get) = match c.kind {
                    "resource" => (format!("/\n{}", c.file), "format!(\"{:?}\", c.routes.resources)"),
                    "param" => (format!("/\n{}", c.file), "format!(\"{:?}\", vec![&c.routes.routes[0].path_segment])"),
                    "query" => (format!("/\n{}", c.file), "format!(\"{:?}\", c.routes.query_parameters)"),
                    _ => (format!("{}/\n  GET A\n", c.file), "format!(\"{:?}\", c.headers)"),
                };
                let val = if c.kind == "param" {
                    format!("wayfinder::PathSegment::from({})", c.expr)
                } else {
                    c.expr.clone()
                };
                o.push_str(&format!(
                    "super::say({}, format!(\"{{:?}}\", vec![{}]), {:?}, |c| {});\n",
                    k * 60 + i,
                    val,
                    file,
                    get
                ));
            }
            o.push_str("}\n}\n");
            mains.push_str(&format!("{}::run();\n", name));
        }
    }
    o.push_str(&format!("fn main() {{\n{}}}\n", mains));
    o
}

fn run_program(ctx: &Ctx, name: &str, src: &str, edition: &str) -> Result<String, (bool, String)> {
    let dir = ctx.work.join(name);
    fs::create_dir_all(dir.join("src")).unwrap();
    fs::write(
        dir.join("Cargo.toml"),
        format!(
            "[package]\nname = \"{}\"\nversion = \"0.1.0\"\nedition = \"{}\"\n[dependencies]\nwayfinder = {{ path = \"/repo/wayfinder\" }}\n[profile.dev]\nopt-level = 1\ndebug = 0\noverflow-checks = true\n[workspace]\n",
            name, edition
        ),
    )
    .unwrap();
    let _ = fs::copy(ctx.verif.join("mc/Cargo.lock"), dir.join("Cargo.lock"));
    fs::write(dir.join("src/main.rs"), src).unwrap();
    let target = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| ctx.verif.join("target").display().to_string());
    let o = Command::new("cargo")
        .args(["build", "--offline", "--manifest-path"])
        .arg(dir.join("Cargo.toml"))
        .env("CARGO_TARGET_DIR", &target)
        .output()
        .expect("cargo");
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if !o.status.success() {
        return Err((false, err));
    }
    let exe = std::path::Path::new(&target).join("debug").join(name);
    let o = Command::new(&exe).output().expect("run");
    let _ = fs::remove_file(&exe);
    if !o.status.success() {
        return Err((true, format!("{:?} {}", o.status, String::from_utf8_lossy(&o.stderr))));
    }
    Ok(String::from_utf8_lossy(&o.stdout).into_owned())
}

pub fn c20(ctx: &Ctx) -> i32 {
    let cases = macro_cases(ctx.thorough);
    for edition in ["2021", "2018"] {
        let src = macro_program(&cases, true);
        let tag = format!("macros{}x{}", edition, std::process::id());
        match run_program(ctx, &tag, &src, edition) {
            Ok(out) => {
                for l in out.lines() {
                    let mut w = l.splitn(3, ' ');
                    let (n, ok, rest) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
                    let n: usize = n.parse().unwrap_or(0);
                    ctx.eval(1);
                    ctx.add(&ctx.traces, 1);
                    if cases[n].file.lines().count() > 1 || cases[n].expr.contains("::") {
                        ctx.add(&ctx.nontrivial, 1);
                    }
                    ctx.outcomes.lock().unwrap().insert(rest.to_string());
                    if ok != "true" {
                        ctx.violate(|| Violation {
                            what: format!("{} is not what the file declares by {:?}: {}", cases[n].expr, cases[n].file, rest),
                            files: vec![("main.rs".into(), src.clone())],
                        });
                    }
                }
                if out.lines().count() != cases.len() {
                    ctx.violate(|| Violation {
                        what: "the program using the macros stops early".into(),
                        files: vec![("main.rs".into(), src.clone())],
                    });
                }
            }
            Err((ran, e)) => {
                // does a program without macros build?
                let plain = run_program(ctx, &format!("plain{}x{}", edition, std::process::id()), &macro_program(&cases, false), edition);
                if plain.is_err() {
                    eprintln!("machinery: no program using the library can be built: {}", e);
                    return 3;
                }
                let e: Vec<&str> = e.lines().filter(|l| !l.starts_with("warning")).collect();
                let at = e.iter().position(|l| l.starts_with("error")).unwrap_or(0);
                ctx.violate(|| Violation {
                    what: format!(
                        "the program using the macros {}: {}",
                        if ran { "fails" } else { "does not compile" },
                        one_line(&e[at..].join("\n"))
                    ),
                    files: vec![("main.rs".into(), src.clone())],
                });
            }
        }
    }
    ctx.add(&ctx.states, cases.len());
    ctx.add(&ctx.transitions, cases.iter().map(|c| c.file.lines().count()).sum());
    for c in cases.iter().step_by(cases.len() / 6) {
        ctx.sample(|| format!("{} / {}", c.expr, c.file.trim_end()));
    }
    ctx.finish(
        "exploration",
        "four methods x redirect or not x module depth up to 3 (4) x three names x every assignment of four types to up to 3 (4) query parameters; every path of up to 4 (5) of two words; parameters as segments and as query parameters; fifteen headers; each macro in a module which imports no other resource macro; editions 2021 and 2018; values compared with those of the parsed file; non-trivial: modules or parameters are involved",
        &["header items are written the way rustc prints them"],
    )
}
