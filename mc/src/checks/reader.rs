//! A reader of the documented route file format, written apart from the one
//! under test: line by line, character by character, without a grammar library.

use wayfinder::{Header, Method, NestedRoutes, Param, PathSegment, Resource, RouteConfig, Routes};

/// What the format says about a text.
pub enum Verdict {
    Reads(RouteConfig),
    Refused,
    /// only blanks within or behind a line decide, which nobody documents
    Open,
}

enum Line {
    Query(Param),
    Res(Resource),
    Seg(PathSegment),
}

fn name(t: &str) -> bool {
    !t.is_empty() && t.chars().all(|c| c.is_alphanumeric() || c == '_')
}
fn trim(t: &str) -> &str {
    t.trim_matches(|c| c == ' ' || c == '\t')
}

/// `[name: type]` or `{name: type}` without the brackets.
fn param(t: &str) -> Option<Param> {
    let mut it = t.splitn(2, ':');
    let (n, ty) = (trim(it.next()?), trim(it.next()?));
    if name(n) && name(ty) {
        Some(Param {
            name: n.into(),
            typ: ty.into(),
        })
    } else {
        None
    }
}

/// `Some(None)`: the line is open.
fn line(t: &str) -> Option<Option<Line>> {
    let body = t.trim_end_matches(|c| c == ' ' || c == '\t');
    let open = body.len() != t.len();
    let first = body.chars().next()?;
    let kind = if first == '[' || first == '{' {
        let last = if first == '[' { ']' } else { '}' };
        if body.len() < 2 || !body.ends_with(last) {
            return None;
        }
        let p = param(&body[1..body.len() - 1])?;
        if first == '[' {
            Line::Query(p)
        } else {
            Line::Seg(PathSegment::Dynamic(p))
        }
    } else if name(body) {
        Line::Seg(PathSegment::Static(body.into()))
    } else {
        let mut found = None;
        for (w, m) in [
            ("get", Method::Get),
            ("post", Method::Post),
            ("put", Method::Put),
            ("delete", Method::Delete),
        ] {
            if body.len() > w.len() && body.is_char_boundary(w.len()) && body[..w.len()].eq_ignore_ascii_case(w) && body[w.len()..].starts_with(|c| c == ' ' || c == '\t') {
                found = Some((m, &body[w.len()..]));
            }
        }
        let (method, rest) = found?;
        let target = trim(rest);
        let redirect = target.starts_with("->");
        let words: Vec<String> = (if redirect { &target[2..] } else { target }).split("::").map(|x| trim(x).to_string()).collect();
        if !words.iter().all(|w| name(w)) {
            return None;
        }
        if !rest.starts_with(' ') || !redirect && rest[1..].starts_with(|c| c == ' ' || c == '\t') {
            return Some(None);
        }
        let mut modules = words;
        let last = modules.pop()?;
        Line::Res(Resource {
            method,
            modules,
            name: last,
            is_redirect: redirect,
            query_parameters: vec![],
        })
    };
    Some(if open { None } else { Some(kind) })
}

fn node(ls: &mut std::iter::Peekable<std::vec::IntoIter<(usize, Line)>>, level: usize) -> Option<Routes> {
    let mut out = Routes {
        query_parameters: vec![],
        resources: vec![],
        routes: vec![],
    };
    // 0: query parameters, 1: resources, 2: children
    let mut stage = 0;
    while let Some((n, _)) = ls.peek() {
        if *n < level {
            break;
        }
        let n = *n;
        match ls.next()?.1 {
            Line::Query(p) if n == level && stage == 0 => out.query_parameters.push(p),
            Line::Query(p) if n == level + 1 && stage == 1 => out.resources.last_mut()?.query_parameters.push(p),
            Line::Res(r) if n == level && stage <= 1 => {
                stage = 1;
                out.resources.push(r);
            }
            Line::Seg(path_segment) if n == level => {
                stage = 2;
                out.routes.push(NestedRoutes {
                    path_segment,
                    routes: node(ls, level + 1)?,
                });
            }
            _ => return None,
        }
    }
    if out.resources.is_empty() && out.routes.is_empty() {
        return None;
    }
    Some(out)
}

pub fn read(t: &str) -> Verdict {
    let mut ls: Vec<&str> = t.split('\n').collect();
    // whether the last line need be ended is not documented
    if ls.pop() != Some("") {
        return match read(&format!("{}\n", t)) {
            Verdict::Refused => Verdict::Refused,
            _ => Verdict::Open,
        };
    }
    let mut open = false;
    let ls: Vec<&str> = ls.into_iter().map(|l| l.strip_suffix('\r').unwrap_or(l)).collect();
    let slash = ls.iter().position(|l| *l == "/");
    // what a carriage return alone is among the header lines is not documented;
    // among the routes it is a character like others, and no name has it
    if ls[..slash.unwrap_or(ls.len())].iter().any(|l| l.contains('\r')) {
        return Verdict::Open;
    }
    let slash = match slash {
        None => return Verdict::Refused,
        Some(n) => n,
    };
    if ls[slash..].iter().any(|l| l.contains('\r')) {
        return Verdict::Refused;
    }
    let mut body = vec![];
    for l in &ls[slash + 1..] {
        if l.is_empty() {
            continue;
        }
        let text = l.trim_start_matches(' ');
        let by = l.len() - text.len();
        if text.trim().is_empty() {
            open = true;
            continue;
        }
        match line(text) {
            Some(k) if by % 2 == 0 && by > 0 => match k {
                Some(k) => body.push((by / 2, k)),
                None => return Verdict::Open,
            },
            _ => return Verdict::Refused,
        }
    }
    let mut it = body.into_iter().peekable();
    let routes = match node(&mut it, 1) {
        Some(r) if it.peek().is_none() => r,
        _ => return Verdict::Refused,
    };
    if open {
        return Verdict::Open;
    }
    Verdict::Reads(RouteConfig {
        headers: ls[..slash].iter().filter(|l| !l.is_empty()).map(|l| Header { text: l.to_string() }).collect(),
        routes,
    })
}
