//! Reference model: an independent description of route configurations and
//! of what a router generated from one must answer.  Nothing here uses code
//! of the crate under test except its plain data types (for conversion).

use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum M {
    Get,
    Post,
    Put,
    Delete,
}
pub const METHODS: [M; 4] = [M::Get, M::Post, M::Put, M::Delete];
impl M {
    pub fn verb(self) -> &'static str {
        match self {
            M::Get => "GET",
            M::Post => "POST",
            M::Put => "PUT",
            M::Delete => "DELETE",
        }
    }
    pub fn wf(self) -> wayfinder::Method {
        match self {
            M::Get => wayfinder::Method::Get,
            M::Post => wayfinder::Method::Post,
            M::Put => wayfinder::Method::Put,
            M::Delete => wayfinder::Method::Delete,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ty {
    Str,
    U8,
    I32,
    Usize,
    Bool,
    Char,
    /// a type the application brings into scope by a header (an alias of u8)
    Id,
    U16,
    U32,
    U64,
    U128,
    I8,
    I16,
    I64,
    I128,
    Isize,
    Ipv4Addr,
    Slug,
    Level,
}
/// The types not in `TYPES`.
pub const MORE_TYPES: [Ty; 12] = [
    Ty::U16, Ty::U32, Ty::U64, Ty::U128, Ty::I8, Ty::I16, Ty::I64, Ty::I128, Ty::Isize, Ty::Ipv4Addr, Ty::Slug, Ty::Level,
];
pub mod ty {
    include!("ty.rs");
}
pub const TYPES: [Ty; 6] = [Ty::Str, Ty::U8, Ty::I32, Ty::Usize, Ty::Bool, Ty::Char];

/// A parsed value, as far as it can be observed: how it prints.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Val {
    pub debug: String,
    pub display: String,
}
fn pv<T: std::str::FromStr + std::fmt::Debug + std::fmt::Display>(s: &str) -> Result<Val, String>
where
    T::Err: std::fmt::Debug,
{
    s.parse::<T>()
        .map(|v| Val {
            debug: format!("{:?}", v),
            display: format!("{}", v),
        })
        .map_err(|e| format!("{:?}", e))
}
impl Ty {
    pub fn rust(self) -> &'static str {
        match self {
            Ty::Str => "String",
            Ty::U8 => "u8",
            Ty::I32 => "i32",
            Ty::Usize => "usize",
            Ty::Bool => "bool",
            Ty::Char => "char",
            Ty::Id => "Id",
            Ty::U16 => "u16",
            Ty::U32 => "u32",
            Ty::U64 => "u64",
            Ty::U128 => "u128",
            Ty::I8 => "i8",
            Ty::I16 => "i16",
            Ty::I64 => "i64",
            Ty::I128 => "i128",
            Ty::Isize => "isize",
            Ty::Ipv4Addr => "Ipv4Addr",
            Ty::Slug => "Slug",
            Ty::Level => "Level",
        }
    }
    pub fn parse(self, s: &str) -> Result<Val, String> {
        match self {
            Ty::Str => pv::<String>(s),
            Ty::U8 => pv::<u8>(s),
            Ty::I32 => pv::<i32>(s),
            Ty::Usize => pv::<usize>(s),
            Ty::Bool => pv::<bool>(s),
            Ty::Char => pv::<char>(s),
            Ty::Id => pv::<u8>(s),
            Ty::U16 => pv::<u16>(s),
            Ty::U32 => pv::<u32>(s),
            Ty::U64 => pv::<u64>(s),
            Ty::U128 => pv::<u128>(s),
            Ty::I8 => pv::<i8>(s),
            Ty::I16 => pv::<i16>(s),
            Ty::I64 => pv::<i64>(s),
            Ty::I128 => pv::<i128>(s),
            Ty::Isize => pv::<isize>(s),
            Ty::Ipv4Addr => pv::<std::net::Ipv4Addr>(s),
            Ty::Slug => pv::<ty::Slug>(s),
            Ty::Level => pv::<ty::Level>(s),
        }
    }
    /// A text which parses, for building a path to a declared resource.
    pub fn sample(self) -> &'static str {
        match self {
            Ty::Str => "q",
            Ty::U8 | Ty::Id => "7",
            Ty::U16 | Ty::U32 | Ty::U64 | Ty::U128 => "300",
            Ty::I8 | Ty::I16 | Ty::I64 | Ty::I128 | Ty::Isize => "-8",
            Ty::Ipv4Addr => "10.0.0.1",
            Ty::Slug => "a-slug",
            Ty::Level => "high",
            Ty::I32 => "-7",
            Ty::Usize => "12",
            Ty::Bool => "true",
            Ty::Char => "k",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct P {
    pub name: String,
    pub ty: Ty,
}
pub fn p(name: &str, ty: Ty) -> P {
    P {
        name: name.into(),
        ty,
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Seg {
    S(String),
    D(P),
}
pub fn s(t: &str) -> Seg {
    Seg::S(t.into())
}
pub fn d(name: &str, ty: Ty) -> Seg {
    Seg::D(p(name, ty))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Res {
    pub m: M,
    /// modules and name
    pub target: Vec<String>,
    pub redirect: bool,
    pub qp: Vec<P>,
}
pub fn res(m: M, target: &str) -> Res {
    Res {
        m,
        target: target.split("::").map(|x| x.to_string()).collect(),
        redirect: false,
        qp: vec![],
    }
}
pub fn redir(m: M, target: &str) -> Res {
    Res {
        redirect: true,
        ..res(m, target)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default, Hash)]
pub struct Node {
    pub qp: Vec<P>,
    pub res: Vec<Res>,
    pub kids: Vec<(Seg, Node)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default, Hash)]
pub struct Conf {
    pub headers: Vec<String>,
    pub root: Node,
}

// ---------------------------------------------------------------- conversion

pub fn wf_param(x: &P) -> wayfinder::Param {
    wayfinder::Param {
        name: x.name.clone(),
        typ: x.ty.rust().into(),
    }
}
pub fn wf_res(r: &Res) -> wayfinder::Resource {
    wayfinder::Resource {
        method: r.m.wf(),
        modules: r.target[..r.target.len() - 1].to_vec(),
        name: r.target.last().unwrap().clone(),
        is_redirect: r.redirect,
        query_parameters: r.qp.iter().map(wf_param).collect(),
    }
}
pub fn wf_routes(n: &Node) -> wayfinder::Routes {
    wayfinder::Routes {
        resources: n.res.iter().map(wf_res).collect(),
        routes: n
            .kids
            .iter()
            .map(|(sg, k)| wayfinder::NestedRoutes {
                path_segment: match sg {
                    Seg::S(t) => wayfinder::PathSegment::Static(t.clone()),
                    Seg::D(x) => wayfinder::PathSegment::Dynamic(wf_param(x)),
                },
                routes: wf_routes(k),
            })
            .collect(),
        query_parameters: n.qp.iter().map(wf_param).collect(),
    }
}
pub fn wf_conf(c: &Conf) -> wayfinder::RouteConfig {
    wayfinder::RouteConfig {
        headers: c
            .headers
            .iter()
            .map(|t| wayfinder::Header { text: t.clone() })
            .collect(),
        routes: wf_routes(&c.root),
    }
}

/// The documented file format, one declaration per line.
pub fn lines(c: &Conf) -> Vec<String> {
    let mut out: Vec<String> = c.headers.clone();
    out.push("/".into());
    node_lines(&c.root, 1, &mut out);
    out
}
fn node_lines(n: &Node, level: usize, out: &mut Vec<String>) {
    let ind = "  ".repeat(level);
    for q in &n.qp {
        out.push(format!("{}[{}: {}]", ind, q.name, q.ty.rust()));
    }
    for r in &n.res {
        out.push(format!(
            "{}{}{} {}",
            ind,
            r.m.verb(),
            if r.redirect { " ->" } else { "" },
            r.target.join("::")
        ));
        for q in &r.qp {
            out.push(format!("{}  [{}: {}]", ind, q.name, q.ty.rust()));
        }
    }
    for (sg, k) in &n.kids {
        out.push(match sg {
            Seg::S(t) => format!("{}{}", ind, t),
            Seg::D(x) => format!("{}{{{}: {}}}", ind, x.name, x.ty.rust()),
        });
        node_lines(k, level + 1, out);
    }
}
pub fn text(c: &Conf) -> String {
    let mut t = lines(c).join("\n");
    t.push('\n');
    t
}

// ------------------------------------------------------------------- naming

/// `as_usual` -> `AsUsual`; for conventional names (no leading, trailing or
/// doubled underscores).
pub fn caps(name: &str) -> String {
    name.split('_')
        .map(|w| {
            let mut c = w.chars();
            match c.next() {
                None => String::new(),
                Some(f) => f.to_ascii_uppercase().to_string() + c.as_str(),
            }
        })
        .collect()
}
/// `AsUsual` -> `as_usual`: every capital but the first starts a word.
pub fn snake(name: &str) -> String {
    let mut o = String::new();
    for (i, c) in name.chars().enumerate() {
        if i > 0 && c.is_ascii_uppercase() {
            o.push('_');
        }
        o.push(c.to_ascii_lowercase());
    }
    o
}

// ------------------------------------------------------------------ actions

/// A served resource with everything the generated code knows about it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Action {
    pub m: M,
    pub target: Vec<String>,
    pub path: Vec<Seg>,
    pub qp: Vec<P>,
    pub redirect: bool,
}
impl Action {
    pub fn params(&self) -> Vec<&P> {
        self.path
            .iter()
            .filter_map(|x| match x {
                Seg::D(q) => Some(q),
                _ => None,
            })
            .collect()
    }
}
pub fn actions(c: &Conf) -> Vec<Action> {
    fn go(n: &Node, path: &mut Vec<Seg>, qp: &mut Vec<P>, out: &mut Vec<Action>) {
        let q0 = qp.len();
        qp.extend(n.qp.iter().cloned());
        for r in &n.res {
            let mut q = qp.clone();
            q.extend(r.qp.iter().cloned());
            out.push(Action {
                m: r.m,
                target: r.target.clone(),
                path: path.clone(),
                qp: q,
                redirect: r.redirect,
            });
        }
        for (sg, k) in &n.kids {
            path.push(sg.clone());
            go(k, path, qp, out);
            path.pop();
        }
        qp.truncate(q0);
    }
    let mut out = vec![];
    go(&c.root, &mut vec![], &mut vec![], &mut out);
    out
}
/// The non-redirect action a name refers to.
pub fn find_target<'a>(acts: &'a [Action], target: &[String]) -> Option<&'a Action> {
    acts.iter().find(|a| !a.redirect && a.target == target)
}

/// Debug form of the generated `Route` value for an action.
pub fn route_debug(target: &[String], fields: &[(String, String)]) -> String {
    let mut o = String::new();
    for m in target {
        write!(o, "{}(", caps(m)).unwrap();
    }
    write!(o, "{}", caps(target.last().unwrap())).unwrap();
    if !fields.is_empty() {
        o.push_str(" { ");
        for (i, (k, v)) in fields.iter().enumerate() {
            if i > 0 {
                o.push_str(", ");
            }
            write!(o, "{}: {}", k, v).unwrap();
        }
        o.push_str(" }");
    }
    for _ in target {
        o.push(')');
    }
    o
}

// ------------------------------------------------------------------ outcome

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    NotFound,
    NotAllowed,
    Hit {
        redirect: bool,
        target: Vec<String>,
        /// Debug text of the whole route value
        debug: String,
        to_path: String,
    },
    Err {
        param: String,
        what: String,
    },
    /// parameter text which is not UTF-8
    NotUtf8 {
        param: String,
    },
}
impl Out {
    /// The text form in which the compiled routers report.
    pub fn wire(&self) -> String {
        match self {
            Out::NotFound => "N".into(),
            Out::NotAllowed => "A".into(),
            Out::Hit {
                redirect,
                debug,
                to_path,
                ..
            } => format!(
                "{}\x1f{}\x1f{}",
                if *redirect { "D" } else { "R" },
                debug,
                to_path
            ),
            Out::Err { param, what } => format!(
                "E\x1fError parsing '{}' parameter {}\x1fwayfinder::Error {{ param: {:?}, what: {} }}",
                param, what, param, what
            ),
            Out::NotUtf8 { param } => format!("U\x1f{}", param),
        }
    }
}

/// Known defects of the generated code which the golden files of the test
/// suite pin down (see known_findings.txt); the model can reproduce them.
pub const K1: u8 = 1; // static siblings sharing a proper prefix beside a parameter are never matched
pub const K2: u8 = 2; // text that merely starts with the static sibling of a parameter is not found

pub struct Model<'a> {
    pub conf: &'a Conf,
    pub acts: Vec<Action>,
}

/// Where a request path leads.
struct Walk<'a> {
    node: &'a Node,
    vals: Vec<(String, Val)>,
}

impl<'a> Model<'a> {
    pub fn new(conf: &'a Conf) -> Model<'a> {
        Model {
            conf,
            acts: actions(conf),
        }
    }

    fn walk(&self, path: &[u8], quirks: u8, used: &mut u8) -> Result<Walk<'a>, Out> {
        let mut r: &[u8] = if path.first() == Some(&b'/') {
            &path[1..]
        } else {
            path
        };
        let mut node: &'a Node = &self.conf.root;
        let mut vals = vec![];
        loop {
            if r.is_empty() && !node.res.is_empty() {
                return Ok(Walk { node, vals });
            }
            let end = r.iter().position(|b| *b == b'/').unwrap_or(r.len());
            let seg = &r[..end];
            let mut stat = node.kids.iter().find_map(|(sg, k)| match sg {
                Seg::S(t) if t.as_bytes() == seg => Some(k),
                _ => None,
            });
            let mut dynamic = node.kids.iter().find_map(|(sg, k)| match sg {
                Seg::D(x) => Some((x, k)),
                _ => None,
            });
            if quirks != 0 && dynamic.is_some() {
                let words: Vec<&str> = node
                    .kids
                    .iter()
                    .filter_map(|(sg, _)| match sg {
                        Seg::S(t) => Some(t.as_str()),
                        _ => None,
                    })
                    .collect();
                if let Some((chain, branches)) = chain(&words) {
                    if branches {
                        if quirks & K1 != 0 && stat.is_some() {
                            *used |= K1;
                            stat = None;
                        }
                    } else if quirks & K2 != 0 && stat.is_none() && r.starts_with(chain.as_bytes())
                    {
                        *used |= K2;
                        dynamic = None;
                    }
                }
            }
            let next = if let Some(k) = stat {
                k
            } else if let Some((x, k)) = dynamic {
                let t = match std::str::from_utf8(seg) {
                    Ok(t) => t,
                    Err(_) => {
                        return Err(Out::NotUtf8 {
                            param: x.name.clone(),
                        })
                    }
                };
                match x.ty.parse(t) {
                    Ok(v) => vals.push((x.name.clone(), v)),
                    Err(what) => {
                        return Err(Out::Err {
                            param: x.name.clone(),
                            what,
                        })
                    }
                }
                k
            } else {
                return Err(Out::NotFound);
            };
            node = next;
            if end == r.len() {
                if node.res.is_empty() {
                    return Err(Out::NotFound);
                }
                return Ok(Walk { node, vals });
            }
            r = &r[end + 1..];
        }
    }

    /// What the router must answer; `quirks` switches known defects on and
    /// `used` collects those which made a difference on the way.
    pub fn ask(&self, path: &[u8], method: &[u8], quirks: u8, used: &mut u8) -> Out {
        let w = match self.walk(path, quirks, used) {
            Err(o) => return o,
            Ok(w) => w,
        };
        let r = match w.node.res.iter().find(|r| r.m.verb().as_bytes() == method) {
            None => return Out::NotAllowed,
            Some(r) => r,
        };
        // A redirect carries the target's fields (well-formedness: it has them).
        let target = match find_target(&self.acts, &r.target) {
            Some(t) => t,
            None => return Out::NotFound, // not well-formed; never generated
        };
        let mut fields = vec![];
        let mut to_path = String::new();
        for sg in &target.path {
            to_path.push('/');
            match sg {
                Seg::S(t) => to_path.push_str(t),
                Seg::D(x) => {
                    if let Some((_, v)) = w.vals.iter().find(|(n, _)| *n == x.name) {
                        to_path.push_str(&v.display);
                        fields.push((x.name.clone(), v.debug.clone()));
                    }
                }
            }
        }
        if to_path.is_empty() {
            to_path.push('/');
        }
        for q in &target.qp {
            fields.push((q.name.clone(), "None".to_string()));
        }
        Out::Hit {
            redirect: r.redirect,
            target: r.target.clone(),
            debug: route_debug(&r.target, &fields),
            to_path,
        }
    }

    /// State of the reference automaton after reading `path` byte by byte:
    /// the node whose segments are being read, and how far into one.
    pub fn state(&self, path: &[u8]) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        let r: &[u8] = if path.first() == Some(&b'/') {
            1u8.hash(&mut h);
            &path[1..]
        } else {
            path.is_empty().hash(&mut h);
            path
        };
        let mut node = &self.conf.root;
        let mut segs = r.split(|b| *b == b'/').peekable();
        while let Some(seg) = segs.next() {
            let last = segs.peek().is_none();
            if last {
                (node as *const Node as usize).hash(&mut h);
                // partial segment: which static words it can still become, and
                // whether a parameter can take it
                let partial = node.kids.iter().any(|(sg, _)| match sg {
                    Seg::S(t) => t.as_bytes().starts_with(seg),
                    _ => false,
                });
                let dynty = node.kids.iter().find_map(|(sg, _)| match sg {
                    Seg::D(x) => Some(x.ty),
                    _ => None,
                });
                if partial {
                    seg.hash(&mut h);
                }
                (partial, seg.is_empty()).hash(&mut h);
                if let Some(ty) = dynty {
                    std::str::from_utf8(seg)
                        .ok()
                        .map(|t| ty.parse(t).is_ok())
                        .hash(&mut h);
                }
            } else {
                let k = node
                    .kids
                    .iter()
                    .find_map(|(sg, k)| match sg {
                        Seg::S(t) if t.as_bytes() == seg => Some(k),
                        _ => None,
                    })
                    .or_else(|| {
                        node.kids.iter().find_map(|(sg, k)| match sg {
                            Seg::D(x) => match std::str::from_utf8(seg) {
                                Ok(t) if x.ty.parse(t).is_ok() => Some(k),
                                _ => None,
                            },
                            _ => None,
                        })
                    });
                match k {
                    Some(k) => node = k,
                    None => {
                        0xdeadu64.hash(&mut h);
                        break;
                    }
                }
            }
        }
        h.finish()
    }
}

/// The common leading text of the static siblings up to the first word end
/// or branch; `None` when they differ in the first byte (or there is none).
pub fn chain(words: &[&str]) -> Option<(String, bool)> {
    if words.is_empty() {
        return None;
    }
    let mut c = String::new();
    loop {
        if words.iter().any(|w| w.len() == c.len()) {
            break;
        }
        let n = words[0].as_bytes()[c.len()];
        if words.iter().any(|w| w.as_bytes()[c.len()] != n) {
            break;
        }
        c.push(n as char);
    }
    if c.is_empty() {
        None
    } else {
        let ends = words.iter().any(|w| w.len() == c.len());
        Some((c, !ends))
    }
}
