//! The spaces of route configurations which the checks enumerate.

use crate::model::*;
use std::collections::HashSet;

pub const PNAMES: [&str; 12] = ["p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "k"];

/// A parameter whose name is given by its depth (see `number`).
pub fn dy(ty: Ty) -> Seg {
    d("", ty)
}
/// A node serving GET under a name given later (see `number`).
pub fn leaf() -> Node {
    Node {
        res: vec![anon(M::Get)],
        ..Node::default()
    }
}
pub fn anon(m: M) -> Res {
    res(m, "")
}
pub fn inner(kids: Vec<(Seg, Node)>) -> Node {
    Node {
        kids,
        ..Node::default()
    }
}
pub fn with(res: Vec<Res>, kids: Vec<(Seg, Node)>) -> Node {
    Node {
        res,
        kids,
        ..Node::default()
    }
}

/// Names the anonymous resources H0, H1.. and the anonymous parameters by depth.
pub fn number(root: Node) -> Conf {
    fn go(n: &mut Node, depth: usize, k: &mut usize) {
        for r in &mut n.res {
            if r.target.len() == 1 && r.target[0].is_empty() {
                r.target[0] = format!("H{}", k);
                *k += 1;
            }
        }
        for (sg, kid) in &mut n.kids {
            let dd = match sg {
                Seg::D(x) => {
                    if x.name.is_empty() {
                        x.name = PNAMES[depth % 12].to_string();
                    }
                    1
                }
                _ => 0,
            };
            go(kid, depth + dd, k);
        }
    }
    let mut root = root;
    let mut k = 0;
    go(&mut root, 0, &mut k);
    Conf {
        headers: vec![],
        root,
    }
}

pub fn dedup(v: Vec<Conf>) -> Vec<Conf> {
    let mut seen = HashSet::new();
    v.into_iter().filter(|c| seen.insert(c.clone())).collect()
}

pub fn subsets<T: Clone>(items: &[T], max: usize) -> Vec<Vec<T>> {
    let mut out = vec![];
    for bits in 0u32..(1 << items.len()) {
        if bits.count_ones() as usize <= max {
            out.push(
                items
                    .iter()
                    .enumerate()
                    .filter(|(i, _)| bits >> i & 1 == 1)
                    .map(|(_, x)| x.clone())
                    .collect(),
            );
        }
    }
    out.sort_by_key(|v: &Vec<T>| v.len());
    out
}

pub fn perms<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut p in perms(&rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}

/// Sequences over `items` of length `0..=max`.
pub fn seqs<T: Clone>(items: &[T], max: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for x in items {
                let mut t = s.clone();
                t.push(x.clone());
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// S1: every set of up to `max` static siblings out of `words`, with or
/// without a parameter beside them.
pub fn siblings(words: &[&str], max: usize, dyns: &[Option<Ty>], deep: bool) -> Vec<Conf> {
    let mut out = vec![];
    for set in subsets(words, max) {
        for dynty in dyns {
            if set.is_empty() && dynty.is_none() {
                continue;
            }
            for root in [false, true] {
                for kind in 0..if deep { 4 } else { 3 } {
                    let kid = |i: usize| match kind {
                        0 => leaf(),
                        1 => with(vec![anon(M::Get)], vec![(s("x"), leaf())]),
                        2 => inner(vec![(s("x"), leaf())]),
                        _ => {
                            if i % 2 == 0 {
                                inner(vec![(s("b"), leaf()), (dy(Ty::Str), leaf())])
                            } else {
                                leaf()
                            }
                        }
                    };
                    let mut kids: Vec<(Seg, Node)> =
                        set.iter().enumerate().map(|(i, w)| (s(w), kid(i))).collect();
                    if let Some(t) = dynty {
                        kids.push((dy(*t), kid(set.len())));
                    }
                    out.push(number(with(
                        if root { vec![anon(M::Get)] } else { vec![] },
                        kids,
                    )));
                }
            }
        }
    }
    out
}

/// Puts every configuration under a prefix.
pub fn under(prefix: Vec<Seg>, confs: &[Conf]) -> Vec<Conf> {
    confs
        .iter()
        .map(|c| {
            let mut n = c.root.clone();
            blank(&mut n);
            for sg in prefix.iter().rev() {
                n = inner(vec![(sg.clone(), n)]);
            }
            number(n)
        })
        .collect()
}
/// Takes the generated names off again, for `number` to assign anew.
pub fn blank(n: &mut Node) {
    for r in &mut n.res {
        if r.target.len() == 1 && r.target[0].starts_with('H') && r.target[0][1..].parse::<u32>().is_ok() {
            r.target[0].clear();
        }
    }
    for (sg, k) in &mut n.kids {
        if let Seg::D(x) = sg {
            if PNAMES.contains(&x.name.as_str()) {
                x.name.clear();
            }
        }
        blank(k);
    }
}

/// S2: every chain of up to `max` segments, with a resource at every
/// combination of the nodes above the last.
pub fn chains(segs: &[Seg], max: usize) -> Vec<Conf> {
    let mut out = vec![];
    for seq in seqs(segs, max) {
        let n = seq.len();
        for bits in 0u32..(1 << n) {
            let mut node = leaf();
            for (i, sg) in seq.iter().enumerate().rev() {
                node = with(
                    if bits >> i & 1 == 1 { vec![anon(M::Get)] } else { vec![] },
                    vec![(sg.clone(), node)],
                );
            }
            out.push(number(node));
        }
    }
    out
}

/// S4: up to `max` children of the root out of {a, ab, parameter}, each with
/// its own children out of {a, b, parameter}, with or without a resource.
pub fn two_level(max: usize, first: &[Seg], second: &[Seg]) -> Vec<Conf> {
    let mut kinds: Vec<Node> = vec![];
    for set in subsets(second, second.len()) {
        for r in [true, false] {
            if !r && set.is_empty() {
                continue;
            }
            kinds.push(with(
                if r { vec![anon(M::Get)] } else { vec![] },
                set.iter().map(|x| (x.clone(), leaf())).collect(),
            ));
        }
    }
    let mut out = vec![];
    for set in subsets(first, max) {
        if set.is_empty() {
            continue;
        }
        let mut pick = vec![0usize; set.len()];
        loop {
            out.push(number(inner(
                set.iter()
                    .zip(&pick)
                    .map(|(sg, k)| (sg.clone(), kinds[*k].clone()))
                    .collect(),
            )));
            let mut i = 0;
            while i < pick.len() {
                pick[i] += 1;
                if pick[i] < kinds.len() {
                    break;
                }
                pick[i] = 0;
                i += 1;
            }
            if i == pick.len() {
                break;
            }
        }
    }
    out
}

/// Characters a static segment may have (all ASCII which needs no escape in
/// a path or in a Rust string and is no separator).
pub const SEG_CHARS: &str = "abyzABYZ0189_-.~!$&'()*+,;=:@%";

/// S3: one dimension at a time taken far beyond what a test would.
pub fn scale(big: bool) -> Vec<Conf> {
    let mut out = vec![];
    let lim = |small: usize, large: usize| if big { large } else { small };
    // depth
    for n in 1..=lim(12, 24) {
        for kind in 0..4 {
            let mut node = leaf();
            for i in (0..n).rev() {
                let sg = match kind {
                    0 => s("a"),
                    1 => s(&format!("level{}", i)),
                    2 => {
                        if i % 2 == 0 || i > 15 {
                            s("a")
                        } else {
                            dy(Ty::Str)
                        }
                    }
                    _ => {
                        if i < 12 {
                            dy(if i % 2 == 0 { Ty::Str } else { Ty::U8 })
                        } else {
                            s("tail")
                        }
                    }
                };
                node = with(if i % 3 == 0 { vec![anon(M::Get)] } else { vec![] }, vec![(sg, node)]);
            }
            out.push(number(node));
        }
    }
    // number of siblings
    for n in 1..=lim(40, 120) {
        for kind in 0..4 {
            let word = |i: usize| match kind {
                0 => format!("{}{}", (b'a' + (i % 26) as u8) as char, i / 26),
                1 => format!("item{:03}", i * 7 % 131),
                2 => "a".repeat(i + 1),
                _ => format!("{}", i),
            };
            let kids: Vec<(Seg, Node)> = (0..n).map(|i| (s(&word(i)), leaf())).collect();
            out.push(number(inner(kids.clone())));
            if kind == 3 || kind == 0 {
                let mut kids = kids;
                kids.push((dy(Ty::Str), leaf()));
                out.push(number(inner(kids)));
            }
        }
    }
    // number of siblings further down: below a word or a parameter, with or without a resource there
    for n in (2..=lim(12, 40)).chain([16, 17, 26, 27, 33]) {
        for kind in 0..2 {
            let kids: Vec<(Seg, Node)> = (0..n)
                .map(|i| {
                    let w = if kind == 0 { format!("{}{}", (b'a' + (i % 26) as u8) as char, i / 26) } else { format!("seg{:02}", i * 7 % 97) };
                    (s(&w), if i % 5 == 3 { inner(vec![(s("x"), leaf())]) } else { leaf() })
                })
                .collect();
            for served in [vec![], vec![anon(M::Get)]] {
                out.push(number(inner(vec![(s("top"), with(served.clone(), kids.clone()))])));
                out.push(number(inner(vec![(d("id", Ty::U8), with(served.clone(), kids.clone()))])));
                let mut more = kids.clone();
                more.push((d("no", Ty::Str), leaf()));
                out.push(number(inner(vec![(s("top"), with(served.clone(), more.clone())), (s("to"), with(served, more))])));
            }
        }
    }
    // shared leading text
    for n in 1..=lim(24, 70) {
        let pre = "q".repeat(n);
        for tails in [vec!["a", "b"], vec!["", "b"], vec!["a", "ab", "abc"], vec!["a", "ba", "bb"]] {
            let kids: Vec<(Seg, Node)> = tails
                .iter()
                .map(|t| (s(&format!("{}{}", pre, t)), leaf()))
                .collect();
            out.push(number(inner(kids.clone())));
            let mut kids = kids;
            kids.push((s("other"), leaf()));
            out.push(number(inner(kids)));
        }
    }
    // length of one segment
    for n in 1..=lim(70, 300) {
        let w: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        out.push(number(inner(vec![(s(&w), leaf())])));
        out.push(number(inner(vec![(s(&w), leaf()), (s("zz"), leaf())])));
        out.push(number(inner(vec![(s(&w), leaf()), (dy(Ty::Str), leaf())])));
        out.push(number(inner(vec![(
            dy(Ty::Str),
            with(vec![anon(M::Get)], vec![(s(&w), leaf())]),
        )])));
    }
    // characters
    for c in SEG_CHARS.chars() {
        for w in [format!("{}", c), format!("a{}b", c), format!("{}{}", c, c)] {
            out.push(number(inner(vec![(s(&w), leaf())])));
            out.push(number(inner(vec![(s(&w), leaf()), (dy(Ty::Str), leaf())])));
            if w != "a" {
                out.push(number(inner(vec![(s(&w), leaf()), (s("a"), leaf()), (s("c"), leaf())])));
            }
        }
    }
    // number of parameters
    for n in 1..=lim(8, 12) {
        for ty in TYPES {
            let mut node = leaf();
            for i in (0..n).rev() {
                node = with(
                    if i % 2 == 1 { vec![anon(M::Get)] } else { vec![] },
                    vec![(dy(ty), node)],
                );
            }
            out.push(number(node));
        }
    }
    // a wide tree: every segment a parameter beside two words
    for depth in 1..=lim(3, 4) {
        fn go(d: usize) -> Node {
            if d == 0 {
                return leaf();
            }
            with(
                vec![anon(M::Get)],
                vec![(s("a"), go(d - 1)), (s("b"), go(d - 1)), (dy(Ty::Str), go(d - 1))],
            )
        }
        out.push(number(go(depth)));
    }
    dedup(out)
}

/// S3 continued: single points far out, around the powers of two and ten
/// at which a limit in the generator could sit.
pub fn far(t: bool) -> Vec<Conf> {
    let mut out = vec![];
    let word = |n: usize| -> String { (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect() };
    let long: &[usize] = if t {
        &[127, 128, 129, 130, 199, 200, 201, 255, 256, 257, 258, 300, 400, 500, 511, 512, 513, 999, 1000, 1001, 1024, 1025, 2000]
    } else {
        &[100, 128, 129, 200, 256, 257, 300, 513, 1001]
    };
    for &n in long {
        let w = word(n);
        out.push(number(inner(vec![(s(&w), leaf())])));
        out.push(number(inner(vec![(s(&w), leaf()), (dy(Ty::Str), leaf())])));
        out.push(number(inner(vec![(s(&w), leaf()), (s("b"), leaf()), (dy(Ty::U8), leaf())])));
        for tails in [vec!["", "b"], vec!["a", "ba", "bb"]] {
            let mut kids: Vec<(Seg, Node)> = tails.iter().map(|x| (s(&format!("{}{}", w, x)), leaf())).collect();
            out.push(number(inner(kids.clone())));
            kids.push((s("other"), leaf()));
            kids.push((dy(Ty::Str), leaf()));
            out.push(number(inner(kids)));
        }
    }
    let wide: &[usize] = if t { &[127, 128, 129, 200, 255, 256, 257, 300] } else { &[64, 65, 101, 129, 257] };
    for &n in wide {
        for kind in 0..3 {
            let name = |i: usize| match kind {
                0 => format!("{}{}", (b'a' + (i % 26) as u8) as char, i / 26),
                1 => format!("item{:03}", i * 7 % 311),
                _ => format!("{}", i),
            };
            let kids: Vec<(Seg, Node)> = (0..n).map(|i| (s(&name(i)), leaf())).collect();
            out.push(number(inner(kids.clone())));
            if kind != 1 && n < 150 {
                let mut kids = kids;
                kids.push((dy(Ty::Str), leaf()));
                out.push(number(inner(kids)));
            }
        }
    }
    let deep: &[usize] = if t { &[25, 31, 32, 33, 40, 48, 50, 63, 64, 65, 80, 100] } else { &[16, 17, 20, 32, 33, 50, 64, 65] };
    for &n in deep {
        for kind in 0..4 {
            let mut node = leaf();
            for i in (0..n).rev() {
                let sg = match kind {
                    0 => s("a"),
                    1 => s(&format!("level{}", i)),
                    // parameters named apart, as far as the numbered names reach
                    _ => d(&format!("p{}", i), [Ty::Str, Ty::U8, Ty::Bool][i % 3]),
                };
                let mut kids = vec![(sg, node)];
                if kind == 3 && i % 2 == 1 {
                    kids = vec![(s("seg"), inner(kids))];
                }
                node = with(if i % 4 == 1 { vec![anon(M::Get)] } else { vec![] }, kids);
            }
            out.push(number(node));
        }
    }
    // how words are spelled: each beside the others, above and below parameters
    let all: Vec<Seg> = SPELLED.iter().map(|w| s(w)).collect();
    out.push(number(inner(all.iter().map(|w| (w.clone(), leaf())).collect())));
    out.push(number(inner(all.iter().map(|w| (w.clone(), leaf())).chain([(dy(Ty::Str), leaf())]).collect())));
    let below = |at: usize| -> Node { inner(all.iter().skip(at).step_by(3).map(|w| (w.clone(), leaf())).collect()) };
    for at in 0..3 {
        out.push(number(inner(vec![(d("id", Ty::Str), below(at))])));
        out.push(number(inner(vec![(d("id", Ty::U8), inner(vec![(s("Mid"), below(at)), (d("no", Ty::Str), below((at + 1) % 3))]))])));
        out.push(number(inner(
            all.iter().skip(at).step_by(3).map(|w| (w.clone(), with(vec![anon(M::Put)], vec![(d("id", Ty::Str), inner(vec![(w.clone(), leaf())]))]))).collect(),
        )));
        out.push(number(inner(all.iter().skip(at).step_by(3).map(|w| (w.clone(), below((at + 2) % 3))).collect())));
    }
    // a parameter and two words beside each other at every level
    for n in if t { 1..=14 } else { 4..=9 } {
        let mut node = leaf();
        for i in (0..n).rev() {
            node = with(
                if i % 2 == 0 { vec![anon(M::Get)] } else { vec![] },
                vec![(s("ab"), leaf()), (s("ac"), leaf()), (d(&format!("p{}", i), Ty::Str), node)],
            );
        }
        out.push(number(node));
    }
    dedup(out)
}

/// Words of all kinds of identifier characters, some the same but for their case.
pub const SPELLED: [&str; 24] = [
    "abc", "Abc", "ABC", "aBc", "abC", "a", "A", "Z", "z", "a1", "A1", "1a", "0", "00", "9", "_", "_a", "a_", "a_b", "A_b", "a__b", "self", "GET", "aZ09_z",
];

/// Names which are nearly the same, as fields.
pub const ALMOST: [&str; 12] = [
    "page", "Page", "PAGE", "pagE", "pages", "pag", "page_", "_page", "page1", "page2", "p", "egap",
];

/// Names which the generated matcher could confuse with its own.
pub const LOCAL_NAMES: [&str; 44] = [
    "i", "len", "path", "method", "start", "text", "end", "e", "t", "f", "err", "error", "index", "pos",
    "rest", "segment", "name", "value", "param", "what", "route", "routes", "result", "out", "s", "i_", "path_",
    "text_", "n", "bytes", "format", "parse", "match_route", "std", "str", "fmt", "ok", "string", "len_", "start_",
    "method_", "end_", "a", "b",
];

/// Method sets: every ordered or unordered set of methods on one node, at
/// several places.
pub fn method_sets(orders: bool) -> Vec<Vec<M>> {
    let mut v = vec![];
    for set in subsets(&METHODS, 4) {
        if orders {
            v.extend(perms(&set));
        } else {
            v.push(set);
        }
    }
    v
}
pub fn methods(big: bool) -> Vec<Conf> {
    let mut out = vec![];
    let sets = method_sets(true);
    for set in &sets {
        let r: Vec<Res> = set.iter().map(|m| anon(*m)).collect();
        if !r.is_empty() {
            out.push(number(with(r.clone(), vec![])));
            out.push(number(with(r.clone(), vec![(s("a"), leaf())])));
            out.push(number(inner(vec![(s("a"), with(r.clone(), vec![]))])));
            out.push(number(inner(vec![(s("a"), with(r.clone(), vec![(s("b"), leaf())]))])));
            out.push(number(inner(vec![(dy(Ty::Str), with(r.clone(), vec![]))])));
            out.push(number(inner(vec![
                (s("a"), with(r.clone(), vec![])),
                (dy(Ty::U8), leaf()),
            ])));
            out.push(number(with(r.clone(), vec![(dy(Ty::Str), leaf())])));
        }
    }
    // two neighbours with sets of their own: siblings, and parent and child
    let sets = method_sets(false);
    for a in &sets {
        for b in &sets {
            let ra: Vec<Res> = a.iter().map(|m| anon(*m)).collect();
            let rb: Vec<Res> = b.iter().map(|m| anon(*m)).collect();
            if !a.is_empty() && !b.is_empty() {
                out.push(number(inner(vec![
                    (s("ab"), with(ra.clone(), vec![])),
                    (s("ac"), with(rb.clone(), vec![])),
                ])));
                if big {
                    out.push(number(inner(vec![
                        (s("a"), with(ra.clone(), vec![])),
                        (dy(Ty::Str), with(rb.clone(), vec![])),
                    ])));
                }
            }
            if !b.is_empty() {
                out.push(number(inner(vec![(
                    s("a"),
                    with(ra.clone(), vec![(s("b"), with(rb.clone(), vec![]))]),
                )])));
                if big {
                    out.push(number(inner(vec![(
                        dy(Ty::Str),
                        with(ra.clone(), vec![(dy(Ty::Str), with(rb.clone(), vec![]))]),
                    )])));
                    out.push(number(with(ra, vec![(s("b"), with(rb, vec![]))])));
                }
            }
        }
    }
    dedup(out)
}

/// A resource set of a node: methods, each with whether it is a redirect.
pub type Label = &'static [(M, bool)];
pub const LABELS: [Label; 7] = [
    &[],
    &[(M::Get, false)],
    &[(M::Get, false), (M::Post, false)],
    &[(M::Get, true)],
    &[(M::Post, true)],
    &[(M::Get, false), (M::Post, false), (M::Put, false), (M::Delete, false)],
    &[(M::Get, true), (M::Delete, false)],
];

/// Every forest of `n` nodes whose siblings carry different segments.
fn forests(n: usize, segs: &[Seg], from: usize) -> Vec<Vec<(Seg, Node)>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in from..segs.len() {
        for own in 1..=n {
            for below in forests(own - 1, segs, 0) {
                for rest in forests(n - own, segs, i + 1) {
                    let mut v = vec![(segs[i].clone(), inner(below.clone()))];
                    v.extend(rest);
                    out.push(v);
                }
            }
        }
    }
    out
}

/// S5: every tree of up to `size` nodes below the root over the segments,
/// with every assignment of the labels to its nodes (leaves: not the empty
/// one).  Redirects lead to the root's GET and stand above any parameter.
pub fn decorated(size: usize, segs: &[Seg], labels: &[usize]) -> Vec<Conf> {
    fn assign(n: &Node, under: bool, labels: &[usize], root: bool) -> Vec<Node> {
        let mut kid_sets: Vec<Vec<(Seg, Node)>> = vec![vec![]];
        for (sg, k) in &n.kids {
            let u = under || matches!(sg, Seg::D(_));
            let opts = assign(k, u, labels, false);
            kid_sets = kid_sets
                .into_iter()
                .flat_map(|pre| {
                    opts.iter().map(move |o| {
                        let mut v = pre.clone();
                        v.push((sg.clone(), o.clone()));
                        v
                    })
                })
                .collect();
        }
        let mut out = vec![];
        for kids in kid_sets {
            if root {
                if kids.iter().any(|k| has_redirect(&k.1)) {
                    out.push(with(vec![res(M::Get, "Home")], kids));
                } else {
                    out.push(inner(kids.clone()));
                    out.push(with(vec![anon(M::Get), anon(M::Put)], kids.clone()));
                    out.push(with(vec![anon(M::Get)], kids));
                }
                continue;
            }
            for l in labels {
                let l = LABELS[*l];
                if l.is_empty() && kids.is_empty() || under && l.iter().any(|x| x.1) {
                    continue;
                }
                let rs = l.iter().map(|(m, r)| if *r { redir(*m, "Home") } else { anon(*m) }).collect();
                out.push(with(rs, kids.clone()));
            }
        }
        out
    }
    fn has_redirect(n: &Node) -> bool {
        n.res.iter().any(|r| r.redirect) || n.kids.iter().any(|k| has_redirect(&k.1))
    }
    let mut out = vec![];
    for n in 1..=size {
        for f in forests(n, segs, 0) {
            out.extend(assign(&inner(f), false, labels, true).into_iter().map(number));
        }
    }
    dedup(out)
}
pub fn labelled(t: bool) -> Vec<Conf> {
    let lists = [
        [s("a"), s("xyz"), dy(Ty::Str)],
        [s("ab"), s("ac"), dy(Ty::U8)],
        [s("a"), s("abc"), s("b")],
    ];
    let mut v = vec![];
    for (i, l) in lists.iter().enumerate() {
        v.extend(decorated(if i == 0 { 2 } else { 1 }, l, &[0, 1, 2, 3, 4, 5, 6]));
        v.extend(decorated(2, l, if t { &[0, 1, 2, 3, 4, 5, 6] } else { &[0, 2, 4] }));
        if t {
            v.extend(decorated(3, l, if i == 0 { &[0, 1, 2, 4] } else { &[0, 2, 4] }));
        }
    }
    dedup(v)
}

/// All orders which one or two moves of one item make of a few base orders.
pub fn moved(items: &[&'static str], twice: bool) -> Vec<Vec<&'static str>> {
    let n = items.len();
    let step = |o: &Vec<&'static str>| -> Vec<Vec<&'static str>> {
        let mut v = vec![];
        for i in 0..n {
            for j in 0..n {
                let mut w = o.clone();
                let x = w.remove(i);
                w.insert(j, x);
                v.push(w);
            }
        }
        v
    };
    let sorted = items.to_vec();
    let mut rev = sorted.clone();
    rev.reverse();
    let mut zip = vec![];
    for i in 0..n {
        zip.push(if i % 2 == 0 { sorted[i / 2] } else { sorted[n - 1 - i / 2] });
    }
    let evens: Vec<_> = (0..n).step_by(2).chain((1..n).step_by(2)).map(|i| sorted[i]).collect();
    let mut all: Vec<Vec<&'static str>> = vec![];
    for b in [sorted, rev, zip, evens] {
        for o in step(&b) {
            if twice {
                all.extend(step(&o));
            }
            all.push(o);
        }
        all.push(b);
    }
    let mut seen = HashSet::new();
    all.retain(|o| seen.insert(o.clone()));
    all
}

/// S6: sets of static siblings in every order of declaration, and bigger
/// ones in the orders one (two) moves away from sorted, reversed, zipped.
pub fn wide_sets(t: bool) -> Vec<Vec<Conf>> {
    let mut v = vec![];
    let mut sets = subsets(&["aa", "ab", "ba", "bb", "ca", "cb", "da", "db"], 6);
    sets.retain(|x| x.len() == 6 || t && x.len() == 5);
    sets.push(vec!["a", "ab", "abc", "b", "ba", "c"]);
    sets.push(vec!["aaa", "aab", "abb", "bbb", "baa", "aba"]);
    sets.push(vec!["m", "n", "o", "p", "q", "r"]);
    sets.push(vec!["aa", "ab", "b", "c", "d", "e"]);
    sets.push(vec!["xa", "xb", "x", "y", "w", "v"]);
    sets.push(vec!["aa", "ab", "ac", "b", "c", "d", "e"]);
    sets.push(vec!["a", "ab", "ac", "ad", "ae", "af", "aef"]);
    if t {
        sets.push(vec!["m", "n", "o", "p", "q", "r", "s"]);
        sets.push(vec!["a", "ab", "abc", "abd", "b", "ba", "c"]);
        sets.push(vec!["aa", "ba", "ca", "da", "ea", "ab", "bb", "eb"]);
    }
    let mut orders: Vec<Vec<Vec<&'static str>>> = sets.into_iter().map(|x| perms(&x)).collect();
    let twelve = ["aa", "ab", "ac", "b", "c", "da", "db", "e", "f", "fa", "g", "ga"];
    let long = ["p1", "p10", "p11", "p12", "p2", "p20", "p3", "p4", "p5", "p6", "p7", "p8", "p9", "q", "q1", "r", "s", "t", "u", "uv"];
    orders.push(moved(&twelve, true));
    orders.push(moved(&long, t));
    let mut orders: Vec<Vec<Vec<String>>> = orders
        .into_iter()
        .map(|set| set.into_iter().map(|o| o.into_iter().map(|x| x.to_string()).collect()).collect())
        .collect();
    // many first letters, one, two or three words to each
    let letters: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').collect();
    for n in if t { vec![12, 16, 17, 19, 26, 33, 40, 62] } else { vec![9, 17, 19, 33] } {
        for k in 1..=3 {
            let by_letter: Vec<String> = (0..n).flat_map(|i| ["a", "b", "ab"][..k].iter().map(move |e| (i, *e))).map(|(i, e)| format!("{}{}", letters[i], e)).collect();
            let by_end: Vec<String> = ["a", "b", "ab"][..k].iter().flat_map(|e| (0..n).map(move |i| (i, *e))).map(|(i, e)| format!("{}{}", letters[i], e)).collect();
            let mut out = vec![];
            for b in [by_letter, by_end] {
                let m = b.len();
                let mut back = b.clone();
                back.reverse();
                let evens: Vec<String> = (0..m).step_by(2).chain((1..m).step_by(2)).map(|i| b[i].clone()).collect();
                let odds: Vec<String> = (0..m).map(|i| if i % 2 == 0 { b[i / 2].clone() } else { b[m - 1 - i / 2].clone() }).collect();
                let third: Vec<String> = (0..3).flat_map(|k| (k..m).step_by(3)).map(|i| b[i].clone()).collect();
                for o in [b, back, evens, odds, third] {
                    for i in 0..m {
                        for j in [0, m / 3, m - 1] {
                            let mut w = o.clone();
                            let x = w.remove(i);
                            w.insert(j, x);
                            out.push(w);
                        }
                    }
                    out.push(o);
                }
            }
            orders.push(out);
        }
    }
    for set in orders {
        for param in [false, true] {
            if param && set[0].len() > 6 {
                continue;
            }
            v.push(
                set.clone()
                    .into_iter()
                    .map(|o| {
                        let mut kids: Vec<(Seg, Node)> = o
                            .iter()
                            .map(|w| (s(w), with(vec![res(M::Get, &format!("W{}", w))], vec![])))
                            .collect();
                        if param {
                            kids.insert(kids.len() / 2, (d("p", Ty::Str), with(vec![res(M::Get, "Other")], vec![])));
                        }
                        number(inner(kids))
                    })
                    .collect(),
            );
        }
    }
    v
}

/// S7: one resource with everything around it that the format allows, each
/// feature by itself a short scale (0 is the plainest), so that every two
/// (three) features can be combined at every two (three) values.
pub const FEATURES: [(&str, usize); 20] = [
    ("words above", 6),
    ("parameters above", 7),
    ("their type", 6),
    ("siblings", 5),
    ("likeness of siblings", 4),
    ("sibling parameter", 4),
    ("modules", 5),
    ("spelling of the name", 6),
    ("method", 4),
    ("further methods", 5),
    ("redirects", 5),
    ("inherited query parameters", 5),
    ("own query parameters", 4),
    ("children", 6),
    ("what the parents serve", 4),
    ("siblings of the parents", 4),
    ("spelling of the segment", 7),
    ("headers", 4),
    ("place in the order", 3),
    ("a second one", 3),
];

pub fn feature(f: &[usize; 20]) -> Conf {
    let [words, params, ty, sibs, like, sibp, mods, spell, method, more, redirs, inh, own, kids, parents, around, seg, heads, place, twin] = *f;
    let ty = TYPES[ty];
    let tail = match spell {
        0 => "Show",
        1 => "list_all",
        2 => "v2",
        3 => "aB_cD",
        4 => "ShowEveryOneOfTheThingsInHere",
        _ => "X",
    };
    let root = |tag: &str| -> Node {
        let target = |name: &str| -> String {
            let mut v: Vec<String> = (0..mods).map(|i| ["Admin", "people", "Area51", "sub_mod"][i % 4].to_string() + if i > 3 { "x" } else { "" }).collect();
            v.push(format!("{}{}", name, tag));
            v.join("::")
        };
        let me = target(tail);
        let verb = METHODS[method];
        let others: Vec<M> = METHODS.iter().cloned().filter(|m| *m != verb).collect();
        let mut r = res(verb, &me);
        r.qp = (0..own).map(|i| p(["filter", "Per_page", "q"][i], [Ty::Str, Ty::U8, Ty::Bool][i])).collect();
        let lead = |m: M| Res {
            redirect: true,
            qp: r.qp.clone(),
            ..res(m, &me)
        };
        // the node itself
        let mut node = with(vec![r.clone()], vec![]);
        for i in 0..more {
            match i {
                0 => node.res.push(anon(others[0])),
                1 => node.res.insert(0, anon(others[1])),
                2 => node.res.push(res(others[2], &target("Third"))),
                _ => node.res.reverse(),
            }
        }
        if redirs == 1 && more < 3 {
            node.res.push(lead(others[2]));
        }
        if redirs == 2 {
            node.kids.push((s("alias"), with(vec![lead(M::Get)], vec![])));
        }
        for i in 0..kids.min(4) {
            let w = ["new", "newer", "edit", "e"][i];
            node.kids.push((s(w), if i == 1 { with(vec![anon(M::Put)], vec![(s("x"), leaf())]) } else { leaf() }));
        }
        if kids >= 4 {
            node.kids.push((d("kid", if kids == 4 { Ty::Str } else { Ty::I32 }), with(vec![anon(M::Get), anon(M::Delete)], vec![(s("down"), leaf())])));
        }
        // beside it
        let own_seg = match seg {
            0 => s("item"),
            1 => s("i"),
            2 => s(&"abcdefghij".repeat(5)),
            3 => s("2021"),
            4 => s("IteM"),
            5 => s("it_em_1"),
            _ => d("own", ty),
        };
        let word = match &own_seg {
            Seg::S(w) => w.clone(),
            _ => "item".into(),
        };
        let alike: Vec<String> = match like {
            0 => ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta"].iter().map(|x| x.to_string()).collect(),
            1 => (0..8).map(|i| format!("{}{}", word, ["s", "sx", "z", "_", "9", "A", "a", "ab"][i])).collect(),
            2 => (0..8).map(|i| format!("{}{}", &word[..word.len() - 1], ["0", "b0", "X", "_0", "y", "zz", "Z0", "00"][i])).collect(),
            _ => (0..8).map(|i| format!("{}{}", ["a", "z", "A", "0", "_", "y", "b", "zz"][i], word)).collect(),
        };
        let mut level: Vec<(Seg, Node)> = vec![];
        let n = [0, 1, 2, 4, 8][sibs];
        for (i, w) in alike.into_iter().take(n).enumerate() {
            level.push((s(&w), if i % 3 == 1 { with(vec![anon(M::Post)], vec![(s("z"), leaf())]) } else { leaf() }));
        }
        if redirs == 3 {
            match &own_seg {
                Seg::S(_) => level.push((s("moved"), with(vec![lead(M::Get), lead(M::Put)], vec![]))),
                x => level.push((s("moved"), inner(vec![(x.clone(), with(vec![lead(M::Get), lead(M::Put)], vec![]))]))),
            }
        }
        if !matches!(own_seg, Seg::D(_)) {
            match sibp {
                0 => {}
                1 => level.push((d("other", Ty::Str), leaf())),
                2 => level.push((d("other", Ty::U8), with(vec![], vec![(s("x"), leaf())]))),
                _ => level.push((d("other", ty), with(vec![anon(M::Get), anon(M::Put)], vec![(s("x"), leaf()), (s("item"), leaf())]))),
            }
        }
        let at = match place {
            0 => level.len(),
            1 => 0,
            _ => level.len() / 2,
        };
        level.insert(at, (own_seg, node));
        // and above
        let mut above: Vec<Seg> = (0..words).map(|i| s(["area", "a", "b_2", "Zone", "x"][i])).collect();
        let n = [0, 1, 2, 3, 5, 8, 12][params];
        for i in 0..n {
            let at = (above.len() + i * 2) % (above.len() + 1);
            above.insert(at, Seg::D(p(&format!("p{}", i), ty)));
        }
        let mut here = inner(level);
        if inh == 2 || inh == 3 {
            here.qp.push(p("sort", Ty::Str));
        }
        if inh == 4 {
            here.qp.extend([p("sort", Ty::Str), p("b", Ty::U8), p("a", Ty::Bool)]);
        }
        for (i, sg) in above.iter().enumerate().rev() {
            match parents {
                1 if i == 0 => here.res.push(anon(M::Get)),
                2 => here.res.push(anon(METHODS[i % 4])),
                3 if i % 2 == 1 => {
                    here.res.push(anon(M::Delete));
                    here.res.push(anon(M::Get));
                }
                _ => {}
            }
            let mut kids = vec![(sg.clone(), here)];
            match around {
                1 => kids.push((s("beside"), leaf())),
                2 => kids.insert(0, (s(if i % 2 == 0 { "are" } else { "areas" }), inner(vec![(s("one"), leaf()), (s("on"), leaf())]))),
                3 => {
                    kids.push((s("beside"), inner(vec![(s("one"), leaf())])));
                    if matches!(sg, Seg::S(_)) && i % 2 == 0 {
                        kids.push((d(&format!("r{}", i), Ty::U8), inner(vec![(s("one"), leaf())])));
                    }
                }
                _ => {}
            }
            here = inner(kids);
        }
        if parents == 1 || parents == 3 {
            here.res.push(anon(M::Get));
        }
        if inh == 1 || inh == 3 {
            here.qp.insert(0, p("lang", Ty::Str));
        }
        if redirs == 4 {
            // from the far end, with the parameters of the target
            let mut path: Vec<Seg> = vec![s("past")];
            path.extend(above.iter().filter(|x| matches!(x, Seg::D(_))).cloned());
            if seg == 6 {
                path.push(d("own", ty));
            }
            let mut end = with(vec![lead(M::Get)], vec![]);
            if above.is_empty() {
                // the root declares them for both
            } else if inh == 2 || inh == 3 {
                end.qp.push(p("sort", Ty::Str));
            } else if inh == 4 {
                end.qp.extend([p("sort", Ty::Str), p("b", Ty::U8), p("a", Ty::Bool)]);
            }
            for sg in path.into_iter().rev() {
                end = inner(vec![(sg, end)]);
            }
            here.kids.append(&mut end.kids);
        }
        here
    };
    let top = match twin {
        0 => root(""),
        1 => inner(vec![(s("left"), root("")), (s("right"), root("B"))]),
        _ => inner(vec![(d("side", Ty::Str), root("Z")), (s("fixed"), root(""))]),
    };
    let mut c = number(top);
    c.headers = match heads {
        0 => vec![],
        1 => vec!["use std::fmt::Debug;".into()],
        2 => vec!["// about".into(), "// about".into(), "  use std::collections::BTreeMap; ".into()],
        _ => (0..9).map(|i| format!("pub type Alias{} = u8;", i)).collect(),
    };
    c
}

/// Every assignment with at most `n` features away from the plainest; with
/// `ends`, only to their last value.
pub fn crossed(n: usize, ends: bool) -> Vec<Conf> {
    let mut out = vec![];
    fn go(f: &mut [usize; 20], from: usize, left: usize, ends: bool, out: &mut Vec<Conf>) {
        out.push(feature(f));
        if left == 0 {
            return;
        }
        for k in from..20 {
            let last = FEATURES[k].1 - 1;
            for v in if ends { last..=last } else { 1..=last } {
                f[k] = v;
                go(f, k + 1, left - 1, ends, out);
            }
            f[k] = 0;
        }
    }
    go(&mut [0; 20], 0, n, ends, &mut out);
    dedup(out)
}

/// What the checks use which compile: all pairs; thorough, also the ends of
/// the scales in threes and fours; and every name in every place.
pub fn pairs(t: bool) -> Vec<Conf> {
    let mut v = crossed(2, false);
    v.extend(vocabulary());
    if t {
        v.extend(crossed(4, true));
    }
    dedup(v)
}

/// Every further type, as one parameter in several places, beside and below
/// other types, and as a query parameter.
pub fn typed_confs() -> Vec<Conf> {
    let mut out = vec![];
    // a parameter named as its type
    for ty in TYPES.iter().cloned().chain(MORE_TYPES).filter(|t| !matches!(t, Ty::Ipv4Addr | Ty::Slug | Ty::Level)) {
        let mut r = anon(M::Get);
        r.qp = vec![p(ty.rust(), ty)];
        out.push(number(inner(vec![(d(ty.rust(), ty), leaf()), (s("a"), with(vec![r], vec![]))])));
        out.push(number(inner(vec![(s("new"), leaf()), (s("old"), leaf()), (d(ty.rust(), ty), inner(vec![(s("x"), leaf())]))])));
    }
    for ty in MORE_TYPES {
        let mut v = vec![
            inner(vec![(dy(ty), leaf())]),
            inner(vec![(s("a"), with(vec![anon(M::Get)], vec![(dy(ty), with(vec![anon(M::Get), anon(M::Put)], vec![(s("b"), leaf())]))]))]),
            inner(vec![(s("new"), leaf()), (dy(ty), leaf())]),
            inner(vec![(s("new"), leaf()), (s("old"), leaf()), (dy(ty), with(vec![anon(M::Get)], vec![(dy(ty), leaf())]))]),
        ];
        for ty2 in TYPES.iter().cloned().chain(MORE_TYPES) {
            v.push(inner(vec![(dy(ty), inner(vec![(dy(ty2), leaf())]))]));
            v.push(inner(vec![(dy(ty2), with(vec![anon(M::Get)], vec![(s("x"), inner(vec![(dy(ty), leaf())]))]))]));
        }
        let mut r = res(M::Get, "People::Show");
        r.qp = vec![p("page", ty), p("q", Ty::Str)];
        let mut top = inner(vec![(s("a"), with(vec![r], vec![])), (d("id", ty), leaf())]);
        top.qp = vec![p("top", ty)];
        v.push(top);
        for n in v {
            let mut c = number(n);
            let t = text(&c);
            for (name, line) in [
                ("Ipv4Addr", "use std::net::Ipv4Addr;"),
                ("Slug", "use crate::ty::Slug;"),
                ("Level", "use crate::ty::{Level};"),
            ] {
                if t.contains(name) {
                    c.headers.push(line.into());
                }
            }
            out.push(c);
        }
    }
    out
}

/// Names which applications use, and which a router might take for more than
/// names.
pub const VOCABULARY: [&str; 96] = [
    "index", "new", "edit", "show", "list", "create", "update", "delete", "destroy", "remove", "add", "rest", "tail", "path", "splat",
    "wildcard", "glob", "any", "all", "other", "file", "files", "filename", "format", "ext", "id", "ids", "uuid", "key", "slug", "name",
    "page", "limit", "offset", "sort", "order", "query", "search", "q", "version", "v1", "v2", "lang", "locale", "en", "public", "static",
    "assets", "images", "api", "admin", "user", "users", "login", "logout", "session", "account", "settings", "home", "root", "main",
    "default", "fallback", "error", "not_found", "notfound", "404", "health", "status", "metrics", "favicon", "robots", "sitemap", "date",
    "year", "month", "day", "time", "token", "code", "state", "get", "post", "put", "head", "options", "test", "debug", "internal", "mod",
    "self", "null", "undefined", "none", "some", "x",
];

/// Rust's own words cannot name a field or a module.
fn free(w: &str) -> bool {
    !["static", "mod", "self"].contains(&w) && !w.as_bytes()[0].is_ascii_digit()
}

/// Every name of the vocabulary in every place which has a name.
pub fn vocabulary() -> Vec<Conf> {
    let mut out = vec![];
    let n = VOCABULARY.len();
    for (i, w) in VOCABULARY.iter().enumerate() {
        let other = VOCABULARY[(i + 37) % n];
        // a segment: above, below and beside others, with every method
        out.push(inner(vec![
            (s(w), with(vec![anon(M::Get), anon(M::Put)], vec![(dy(Ty::Str), with(vec![anon(M::Get), anon(M::Delete)], vec![(s("edit"), leaf())]))])),
            (s("books"), with(vec![anon(M::Post)], vec![(s(w), with(vec![anon(M::Get), anon(M::Post)], vec![]))])),
        ]));
        out.push(inner(vec![
            (s(w), with(vec![anon(M::Get), anon(M::Post), anon(M::Put), anon(M::Delete)], vec![])),
            (s(other), with(vec![redir(M::Get, "H0")], vec![(s(&w.to_uppercase()), leaf())])),
            (dy(Ty::Str), with(vec![anon(M::Get)], vec![(s(w), with(vec![anon(M::Put)], vec![]))])),
        ]));
        if !free(w) {
            continue;
        }
        // a parameter: alone, last, in the middle, beside a segment
        out.push(inner(vec![
            (s("files"), inner(vec![(d(w, Ty::Str), leaf())])),
            (s("books"), with(vec![anon(M::Get)], vec![(d(w, Ty::U8), with(vec![anon(M::Get), anon(M::Delete)], vec![(s("edit"), leaf())]))])),
        ]));
        out.push(inner(vec![(s("new"), leaf()), (d(w, Ty::Str), with(vec![anon(M::Get), anon(M::Put)], vec![]))]));
        out.push(inner(vec![(d(w, Ty::U8), with(vec![anon(M::Get)], vec![(s("x"), inner(vec![(d(&format!("{}_{}", other.trim_start_matches("404"), w), Ty::Str), leaf())]))]))]));
        // a query parameter, of a resource and of all below
        let mut r = anon(M::Get);
        r.qp = vec![p(w, Ty::Str), p(&format!("{}_id", w), Ty::U8)];
        out.push(inner(vec![(s("a"), with(vec![r], vec![])), (s("b"), with(vec![anon(M::Get)], vec![]))]));
        let mut top = inner(vec![(s("a"), with(vec![anon(M::Get), anon(M::Put)], vec![])), (d("key1", Ty::U8), leaf())]);
        top.qp = vec![p(w, Ty::U8)];
        out.push(top);
        // the module has an Error of its own
        if *w == "error" {
            continue;
        }
        // a resource and a module, as written and as Rust would spell them
        let camel: String = w.split('_').map(|x| x[..1].to_uppercase() + &x[1..]).collect();
        out.push(inner(vec![
            (s("a"), with(vec![res(M::Get, w), res(M::Put, &format!("Things::{}", camel))], vec![])),
            (dy(Ty::Str), with(vec![res(M::Get, &format!("Inner::{}::Act", w)), res(M::Delete, &format!("Outer::{}::Act::{}", camel, w))], vec![])),
        ]));
        out.push(inner(vec![(s("old"), with(vec![redir(M::Get, &camel)], vec![])), (s("a"), with(vec![res(M::Get, &camel)], vec![]))]));
    }
    dedup(out.into_iter().map(number).collect())
}
