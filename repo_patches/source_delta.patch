From 7b3ac89ce05b70ee75214b0631d909d2ac10d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 01/13] fix: bounds check before matching a one-byte static
 segment beside a parameter

The generated matcher indexed path[i..i+1] under 'i <= len', so a path
ending where the segment starts panicked.
---
 wayfinder/src/gen/gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 2cc4dc6..fa8a0c7 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -638,7 +638,7 @@ where
         );
 
         if match_len == 1 {
-            writeln!(w, "{}if i <= len {{", indent1)?;
+            writeln!(w, "{}if i < len {{", indent1)?;
         } else {
             writeln!(w, "{}if i + {} <= len {{", indent1, match_len)?;
         }
-- 
2.43.0


From 50f2afc612d236e9f81c2e84a56c40a754d1b0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 02/13] fix: stringify route trees nested more than seven
 levels deep

indent() stopped at level seven and wrote '--' into the output from there
on, so deeply nested configurations did not survive stringify and parse.
---
 wayfinder/src/core/mod.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/wayfinder/src/core/mod.rs b/wayfinder/src/core/mod.rs
index 1bed836..ee80fc0 100644
--- a/wayfinder/src/core/mod.rs
+++ b/wayfinder/src/core/mod.rs
@@ -61,18 +61,8 @@ pub struct Routes {
     pub query_parameters: Vec<Param>,
 }
 
-fn indent(level: usize) -> &'static str {
-    match level {
-        0 => "",
-        1 => "  ",
-        2 => "    ",
-        3 => "      ",
-        4 => "        ",
-        5 => "          ",
-        6 => "            ",
-        7 => "              ",
-        _ => "              --",
-    }
+fn indent(level: usize) -> String {
+    "  ".repeat(level)
 }
 
 impl Routes {
-- 
2.43.0


From 4c99b9a9b8f580fb831e4dc00e150879472630a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:26 +0000
Subject: [PATCH 03/13] fix: generate a router for a configuration without
 routes

Code generation underflowed slicing the empty config listing, and the
empty Route enum was matched by reference, which does not compile.
---
 wayfinder/src/gen/gen.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index fa8a0c7..7294a38 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -248,7 +248,12 @@ where
         indent
     )?;
     writeln!(w, "{}    pub fn to_path(&self) -> String {{", indent)?;
-    writeln!(w, "{}        match self {{", indent)?;
+    if module.actions.is_empty() && module.modules.is_empty() {
+        // a reference is never considered uninhabited
+        writeln!(w, "{}        match *self {{", indent)?;
+    } else {
+        writeln!(w, "{}        match self {{", indent)?;
+    }
 
     for action in module.actions.iter() {
         writeln!(
@@ -299,9 +304,9 @@ where
     writeln!(w, "    //! ```ignore")?;
     writeln!(w, "    //! /")?;
 
-    let stringified_config = str::replace(&route_config.routes.stringify(1), "\n", "\n    //! ");
-    let stringified_config = &stringified_config[..stringified_config.len() - 8];
-    write!(w, "    //! {}", stringified_config)?;
+    for line in route_config.routes.stringify(1).lines() {
+        writeln!(w, "    //! {}", line)?;
+    }
     writeln!(w, "    //! ```")?;
     writeln!(w, "    //!")?;
 
-- 
2.43.0


From a07ddc0636631d5f334502cd4b53e32d6d6e9b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:52 +0000
Subject: [PATCH 04/13] fix: generate valid code when one segment is a prefix
 of its sibling

For siblings such as 'new' and 'news' the matcher emitted a leftover
Some('/') arm, which does not compile, and had no end-of-path case.
---
 wayfinder/src/gen/gen.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 7294a38..098229f 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -670,9 +670,19 @@ where
     }
 
     // n.b. if we got here, the next character is ambiguous
-    writeln!(w, "{}if i == len {{", indent1)?;
-    writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
-    writeln!(w, "{}}}", indent1)?;
+
+    // the path may end right here if one of the options is a separator
+    let separator = trie.children.iter().find(|c| c.0 == Charlike::Separator);
+    match separator.and_then(|c| c.1.data.as_ref()) {
+        Some(route) if route.resources.len() != 0 => {
+            write_methods(w, route, indent)?;
+        }
+        _ => {
+            writeln!(w, "{}if i == len {{", indent1)?;
+            writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
+            writeln!(w, "{}}}", indent1)?;
+        }
+    }
 
     writeln!(w, "{}match &path[i..i+1] {{", indent1)?;
 
@@ -694,7 +704,12 @@ where
                 break;
             }
             Charlike::Separator => {
-                writeln!(w, "{}Some('/') => {{}}", indent2)?;
+                writeln!(w, "{}b\"/\" => {{", indent2)?;
+                writeln!(w, "{}    i += 1;", indent2)?;
+
+                codegen_trie(w, &child.1, indent + 2)?;
+
+                writeln!(w, "{}}},", indent2)?;
             }
         }
     }
-- 
2.43.0


From fb1046f7d78d8165becf05c07bc530f244d0e111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 05/13] fix: reject sibling path parameters with different
 names

Only the first of them was ever matched: the routes below the others were
silently unreachable (or the generated code did not compile).
---
 wayfinder/src/gen/gen.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 098229f..7d401f9 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -588,6 +588,18 @@ where
         None => false,
     };
 
+    // only one parameter can be matched, so a second one is never reachable
+    let is_dynamic = |c: &&(Charlike, _)| match c.0 {
+        Charlike::Dynamic(_) => true,
+        _ => false,
+    };
+    if trie.children.iter().filter(is_dynamic).count() > 1 {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "sibling path parameters must not have different names",
+        ));
+    }
+
     if has_dynamic {
         writeln!(w)?;
         writeln!(w, "{}let start = i;", indent1)?;
-- 
2.43.0


From e56a3345dadd1114efde4f9a7fb1a35335009092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:56 +0000
Subject: [PATCH 06/13] fix: generate valid code for several static segments
 next to a parameter

Siblings such as 'new', 'edit' and '{id}' put the parameter's statements
among the match arms, which does not compile.
---
 wayfinder/src/gen/gen.rs  | 56 ++++++++++++++++++++++++++++++++++-----
 wayfinder/src/gen/trie.rs |  1 +
 2 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 7d401f9..85e8720 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -681,6 +681,33 @@ where
         return Ok(());
     }
 
+    // several static segments next to a parameter: compare the whole segment
+    if let Some((Charlike::Dynamic(ref name), ref child)) = dynamic {
+        writeln!(w, "{}let mut end = start;", indent1)?;
+        writeln!(w, "{}while end < len && path[end] != b'/' {{", indent1)?;
+        writeln!(w, "{}    end += 1;", indent1)?;
+        writeln!(w, "{}}}", indent1)?;
+        writeln!(w)?;
+        writeln!(w, "{}match &path[start..end] {{", indent1)?;
+
+        let mut segments = vec![];
+        static_segments(trie, String::new(), &mut segments);
+
+        for (segment, rest) in segments.iter() {
+            writeln!(w, "{}b\"{}\" => {{", indent2, segment)?;
+            writeln!(w, "{}    i = end;", indent2)?;
+
+            codegen_trie(w, rest, indent + 2)?;
+
+            writeln!(w, "{}}},", indent2)?;
+        }
+
+        writeln!(w, "{}_ => {{}},", indent2)?;
+        writeln!(w, "{}}}", indent1)?;
+
+        return write_dynamic(w, child, indent, name);
+    }
+
     // n.b. if we got here, the next character is ambiguous
 
     // the path may end right here if one of the options is a separator
@@ -708,13 +735,7 @@ where
 
                 writeln!(w, "{}}},", indent2)?;
             }
-            Charlike::Dynamic(ref p) => {
-                write_dynamic(w, &child.1, indent, p)?;
-
-                // No further routes will possibly match.
-                // TODO: is this true still?
-                break;
-            }
+            Charlike::Dynamic(_) => unreachable!(),
             Charlike::Separator => {
                 writeln!(w, "{}b\"/\" => {{", indent2)?;
                 writeln!(w, "{}    i += 1;", indent2)?;
@@ -733,6 +754,27 @@ where
     Ok(())
 }
 
+/// Collects the static segments starting at this node, each with what follows it.
+fn static_segments(
+    trie: &Trie<Charlike, FlattenedRoute>,
+    prefix: String,
+    segments: &mut Vec<(String, Trie<Charlike, FlattenedRoute>)>,
+) {
+    for (key, child) in trie.children.iter() {
+        match key {
+            Charlike::Static(ch) => static_segments(child, format!("{}{}", prefix, ch), segments),
+            Charlike::Separator => segments.push((
+                prefix.clone(),
+                Trie {
+                    data: None,
+                    children: vec![(Charlike::Separator, child.clone())],
+                },
+            )),
+            Charlike::Dynamic(_) => {}
+        }
+    }
+}
+
 fn write_methods<W>(w: &mut W, route: &FlattenedRoute, indent: usize) -> io::Result<()>
 where
     W: Write,
diff --git a/wayfinder/src/gen/trie.rs b/wayfinder/src/gen/trie.rs
index c205e45..cf9d96d 100644
--- a/wayfinder/src/gen/trie.rs
+++ b/wayfinder/src/gen/trie.rs
@@ -1,6 +1,7 @@
 use std::fmt;
 
 /// A node of a trie, a prefix-keyed data structure.
+#[derive(Clone)]
 pub struct Trie<K, V> {
     /// If this node has data, here it is.  Leaf nodes must.
     pub data: Option<V>,
-- 
2.43.0


From 96cab7f05c552210f3d2348c3c9fb67b5d39c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 07/13] fix: keep path parameters apart from the matcher's own
 variables

A parameter called 'len', 'start', 'path' and so on shadowed (or was
shadowed by) the variable of that name in match_route, which then failed
to compile, panicked, or returned the wrong value.
---
 wayfinder/src/gen/gen.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 85e8720..9e6555f 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -775,6 +775,14 @@ fn static_segments(
     }
 }
 
+/// The variable for a path parameter, kept apart from the matcher's own variables.
+fn local_name(param: &str) -> String {
+    match param.trim_end_matches('_') {
+        "end" | "i" | "len" | "method" | "path" | "start" | "text" => format!("{}_", param),
+        _ => param.to_string(),
+    }
+}
+
 fn write_methods<W>(w: &mut W, route: &FlattenedRoute, indent: usize) -> io::Result<()>
 where
     W: Write,
@@ -816,7 +824,12 @@ where
         )?;
 
         for param in route.path.dynamics() {
-            writeln!(w, "{}            {},", indent1, param.name)?;
+            let local = local_name(&param.name);
+            if local == param.name {
+                writeln!(w, "{}            {},", indent1, local)?;
+            } else {
+                writeln!(w, "{}            {}: {},", indent1, param.name, local)?;
+            }
         }
         for param in route.query_parameters.iter() {
             writeln!(w, "{}            {}: None,", indent1, param.name)?;
@@ -862,7 +875,7 @@ where
         "{}let text = std::str::from_utf8(&path[start..i]).unwrap();",
         indent1
     )?;
-    writeln!(w, "{}let {} = text.parse()", indent1, name)?;
+    writeln!(w, "{}let {} = text.parse()", indent1, local_name(name))?;
     writeln!(
         w,
         "{}    .map_err(|e| Error::fail(\"{}\", e))?;",
-- 
2.43.0


From d31baa9b8acffd42a2d3b992bd99b998f8884f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:35 +0000
Subject: [PATCH 08/13] fix: accept header lines which start with a slash

Only a line of a single slash ends the header, but any line starting with
one did, so comments in the header made the whole file unparseable.
---
 wayfinder/src/parse/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wayfinder/src/parse/mod.rs b/wayfinder/src/parse/mod.rs
index aeef37a..b32cc2a 100644
--- a/wayfinder/src/parse/mod.rs
+++ b/wayfinder/src/parse/mod.rs
@@ -194,7 +194,10 @@ pub fn nested_routes(input: CompleteStr, level: usize) -> IResult<CompleteStr, N
 named!(pub header<CompleteStr, Header>,
     do_parse!(
         text: terminated!(
-            recognize!(pair!(not!(char!('/')), many0!(not_line_ending))),
+            recognize!(pair!(
+                not!(pair!(char!('/'), line_ending)),
+                many0!(not_line_ending)
+            )),
             many1!(line_ending)
         ) >>
         (Header::new(text))
-- 
2.43.0


From 5e4b102aa2be443ae5b6d84a5821d059458658fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:37 +0000
Subject: [PATCH 09/13] fix: reject two resources for the same method on one
 path

The generated matcher always picked the first one: the second was silently
unreachable.
---
 wayfinder/src/gen/gen.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 9e6555f..e5d43a9 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -795,7 +795,15 @@ where
     writeln!(w, "{}if i == len {{", indent1)?;
     writeln!(w, "{}    match method {{", indent1)?;
 
-    for resource in route.resources.iter() {
+    for (n, resource) in route.resources.iter().enumerate() {
+        // the first one would hide any other
+        if route.resources[..n].iter().any(|r| r.method == resource.method) {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                format!("more than one resource for {} on the same path", resource.method),
+            ));
+        }
+
         let (path, route_nest, close_parens) = {
             let mut path = String::new();
             let mut accum = String::new();
-- 
2.43.0


From 4cdf6e7ba9566294dda0298f1af8ab418227404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 10/13] fix: treat a slash in a mount point as a separator

Mounting at 'api/v1' next to 'api' left the matcher with two different
branches for the same slash, so '/api/' was not found.
---
 wayfinder/src/gen/flat.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wayfinder/src/gen/flat.rs b/wayfinder/src/gen/flat.rs
index 1b9c33b..9f3eeff 100644
--- a/wayfinder/src/gen/flat.rs
+++ b/wayfinder/src/gen/flat.rs
@@ -22,7 +22,10 @@ impl FlattenedPath {
             .map(|segment| match segment {
                 PathSegment::Static(s) => Either::Left(
                     s.chars()
-                        .map(Charlike::Static)
+                        .map(|ch| match ch {
+                            '/' => Charlike::Separator,
+                            ch => Charlike::Static(ch),
+                        })
                         .chain(std::iter::once(Charlike::Separator)),
                 ),
                 PathSegment::Dynamic(d) => Either::Right(
-- 
2.43.0


From 9a80815c47d4748cf09c39f49ad3b52b66ea96e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 11/13] fix: align the error marker on lines numbered 10000 and
 up

---
 wayfinder/src/parse/errors.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wayfinder/src/parse/errors.rs b/wayfinder/src/parse/errors.rs
index 7baf9e4..1fcb042 100644
--- a/wayfinder/src/parse/errors.rs
+++ b/wayfinder/src/parse/errors.rs
@@ -88,17 +88,17 @@ where
     let _ = line_start.next();
     let line_start = line_start.next().map(|bytes| bytes.len() + 1).unwrap_or(0);
     let line = buf[line_start..].splitn(2, '\n').next().unwrap();
-    let line_no = what_line(buf, line_start);
+    let line_no = format!("{:>4}", what_line(buf, line_start));
     let pos_in_line = buf[line_start..pos].chars().count() + 1;
     writeln!(
         out,
-        "{prefix}{:>4}:{}\n\
-         {prefix}     {:>pos$} {}",
+        "{prefix}{}:{}\n\
+         {prefix}{:>pos$} {}",
         line_no,
         line,
         "^",
         msg,
-        pos = pos_in_line,
+        pos = line_no.len() + 1 + pos_in_line,
         prefix = prefix,
     )
     .unwrap();
-- 
2.43.0


From 7f2e80cf2fb14a47d366d88617ae5cda18436e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:19 +0000
Subject: [PATCH 12/13] fix: show errors in lines of more than 65535 characters
 without a panic

---
 wayfinder/src/parse/errors.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wayfinder/src/parse/errors.rs b/wayfinder/src/parse/errors.rs
index 1fcb042..a7556b2 100644
--- a/wayfinder/src/parse/errors.rs
+++ b/wayfinder/src/parse/errors.rs
@@ -90,15 +90,15 @@ where
     let line = buf[line_start..].splitn(2, '\n').next().unwrap();
     let line_no = format!("{:>4}", what_line(buf, line_start));
     let pos_in_line = buf[line_start..pos].chars().count() + 1;
+    let indent = " ".repeat(line_no.len() + pos_in_line);
     writeln!(
         out,
         "{prefix}{}:{}\n\
-         {prefix}{:>pos$} {}",
+         {prefix}{}^ {}",
         line_no,
         line,
-        "^",
+        indent,
         msg,
-        pos = line_no.len() + 1 + pos_in_line,
         prefix = prefix,
     )
     .unwrap();
-- 
2.43.0


From 5c74085a62591140adaf5d85015ea905840ad2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:34 +0000
Subject: [PATCH 13/13] fix: read no line break as a blank within a line

A line such as `GET ->`, `GET A::` or `[a:` was silently completed from the
line after it, so that a file which breaks the format was read as some other
tree.
---
 wayfinder/src/parse/mod.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/wayfinder/src/parse/mod.rs b/wayfinder/src/parse/mod.rs
index b32cc2a..a7cfd44 100644
--- a/wayfinder/src/parse/mod.rs
+++ b/wayfinder/src/parse/mod.rs
@@ -6,9 +6,9 @@
 use lazy_static::lazy_static;
 use nom::types::CompleteStr;
 use nom::{
-    alt_complete, apply, char, complete, count, delimited, do_parse, eof, line_ending, many0,
+    alt_complete, apply, call, char, complete, count, delimited, do_parse, eof, line_ending, many0,
     many1, named, not, not_line_ending, pair, preceded, recognize, return_error, tag, tag_no_case,
-    take_while1, terminated, value, ws, IResult,
+    take_while, take_while1, terminated, value, IResult,
 };
 
 use crate::core::*;
@@ -30,6 +30,19 @@ macro_rules! indented {
     }
 }
 
+fn is_blank(ch: char) -> bool {
+    ch == ' ' || ch == '\t'
+}
+
+// Unlike nom's ws!, stays on the line.
+macro_rules! spaced {
+    (
+        $i:expr, $($content:tt)*
+    ) => {
+        delimited!($i, take_while!(is_blank), $($content)*, take_while!(is_blank))
+    }
+}
+
 pub fn is_identifier_char(ch: char) -> bool {
     ch.is_alphanumeric() || ch == '_'
 }
@@ -52,7 +65,7 @@ named!(colon<CompleteStr, CompleteStr>,
 named!(pub param<CompleteStr, Param>,
     do_parse!(
         name: take_while1!(is_identifier_char) >>
-        ws!(colon) >>
+        spaced!(call!(colon)) >>
         typ: take_while1!(is_identifier_char) >>
         (Param::new(name, typ))
     )
@@ -65,7 +78,7 @@ indented!(
             param:
                 delimited!(
                     char!('{'),
-                    ws!(param),
+                    spaced!(call!(param)),
                     return_error!(err_str!("Expected a \"}\""), char!('}'))
                 )
                 >> (PathSegment::from(param))
@@ -77,7 +90,7 @@ indented!(
     query_parameter<Param>,
     delimited!(
         char!('['),
-        ws!(param),
+        spaced!(call!(param)),
         return_error!(err_str!("Expected a \"]\""), char!(']'))
     )
 );
@@ -85,10 +98,10 @@ indented!(
 named!(target<CompleteStr, (bool, Vec<String>, String)>,
     alt_complete!(
         do_parse!(
-            ws!(tag!("->")) >>
+            spaced!(tag!("->")) >>
             modules: many0!(terminated!(
                 take_while1!(is_identifier_char),
-                ws!(tag!("::"))
+                spaced!(tag!("::"))
             )) >>
             action: take_while1!(is_identifier_char) >>
             ((true, modules.iter().map(|m| m.to_string()).collect(), action.to_string()))
@@ -96,7 +109,7 @@ named!(target<CompleteStr, (bool, Vec<String>, String)>,
         do_parse!(
             modules: many0!(terminated!(
                 take_while1!(is_identifier_char),
-                ws!(tag!("::"))
+                spaced!(tag!("::"))
             )) >>
             action: take_while1!(is_identifier_char) >>
             ((false, modules.iter().map(|m| m.to_string()).collect(), action.to_string()))
-- 
2.43.0

