From ec8efac2785ac9cc422993eb3207d6147124f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:29 +0000
Subject: [PATCH 01/28] fix: keep the first line of every description paragraph

The line that ended a run of blank lines inside a description was consumed
to leave the CollectDescNl state but never added to the description.
---
 src/parsers/markdown.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 9d4023e..c5aa85d 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -164,11 +164,12 @@ fn parse_state_line(state: State, line: &&str, context: &mut Context<'_>) -> Sta
             desc.push_str(line);
             State::CollectDesc(desc)
         }
-        State::CollectDescNl(desc) => {
+        State::CollectDescNl(mut desc) => {
             if let Some(attr_line) = ATTRIBUTE_LINE.captures(line) {
                 commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
                 start_attribute(context, &attr_line)
             } else {
+                desc.push_str(line);
                 State::CollectDesc(desc)
             }
         }
-- 
2.43.0


From 52c74509450455440900c8120c3cc996631223ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:31 +0000
Subject: [PATCH 02/28] fix: keep a requirement that is ended by an ordinary
 heading

When no further requirement followed the heading, the requirement under
construction was dropped at the end of the file.
---
 src/parsers/markdown.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index c5aa85d..0b79e6f 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -255,26 +255,20 @@ fn parse_state_eof(state: State, context: &mut Context<'_>) -> State {
 
 fn parse_state_heading(state: State, context: &mut Context<'_>) -> State {
     match state {
-        State::LookForReq => state,
-        State::LookForDesc => State::LookForReq,
-        State::CollectDesc(desc) => {
+        State::LookForReq | State::LookForDesc | State::LookForAttr => {}
+        State::CollectDesc(desc) | State::CollectDescNl(desc) => {
             commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
-            State::LookForReq
         }
-        State::CollectDescNl(desc) => {
-            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
-            State::LookForReq
-        }
-        State::LookForAttr => State::LookForReq,
         State::CollectTextAttr(attr, val) => {
             commit_attr(context, attr, val);
-            State::LookForReq
         }
         State::CollectRefLink(attr, vec) => {
             commit_link_attr(context, attr, vec);
-            State::LookForReq
         }
     }
+    // the heading ends the requirement
+    maybe_commit_req(context);
+    State::LookForReq
 }
 
 fn parse_state_req(state: State, context: &mut Context<'_>, req_line: &Captures<'_>) -> State {
-- 
2.43.0


From 3533d53833d845f1199c103d628e531e4c9f83c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:06 +0000
Subject: [PATCH 03/28] fix: treat every whitespace-only Markdown line as empty

A last line of a single character without line ending hit an assertion, and
blank lines with CRLF endings or stray whitespace did not end paragraphs.
---
 src/parsers/markdown.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 0b79e6f..4be23c1 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -90,12 +90,11 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
             Ok(0) => {
                 evt = Event::Eof;
             }
-            Ok(1) => {
-                assert!(line.starts_with('\n'));
-                evt = Event::Empty;
-            } /* TODO: Win line Endings */
             Ok(_) => {
-                if let Some(r) = REQUIREMENT_LINE.captures(&line) {
+                if line.trim().is_empty() {
+                    // also blank lines with windows line endings or stray whitespace
+                    evt = Event::Empty;
+                } else if let Some(r) = REQUIREMENT_LINE.captures(&line) {
                     req_line = r;
                     evt = Event::Req(&req_line);
                 } else if HEADING_LINE.is_match(&line) {
-- 
2.43.0


From 22cd417ffb964236526eb064d844e13a85de1ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:08 +0000
Subject: [PATCH 04/28] fix: only accept bullet points in Markdown reference
 lists

The unescaped and unanchored `^*` accepted any line that ended in a word,
which turned arbitrary text into references instead of format errors.
---
 src/parsers/markdown.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 4be23c1..f034228 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -18,7 +18,7 @@ lazy_static! {
         Regex::new(r"^(#+)\s*(\p{XID_Start}\p{XID_Continue}+):\s*(.+?)\s*$").unwrap();
     static ref ATTRIBUTE_LINE: Regex = Regex::new(r"^([A-Z][a-z]+):\s*(.*)\s*$").unwrap();
     static ref REF_LINK_LINE: Regex =
-        Regex::new(r"^*\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
+        Regex::new(r"^\s*[*+-]\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
     static ref BAD_HEADLINE_UNDERLINE: Regex = Regex::new(r"^(====*)|(----*)").unwrap(); // TODO: use
 }
 
-- 
2.43.0


From f472b36018ebecbcdb5590e0a3091a2004fd63eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:09 +0000
Subject: [PATCH 05/28] fix: separate the first line of a text attribute from
 the next line

The rest of the attribute line was captured without its line ending, so the
following line was glued to it.
---
 src/parsers/markdown.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index f034228..aa27d4c 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -391,7 +391,11 @@ fn start_attribute(context: &mut Context<'_>, attr_line: &Captures<'_>) -> State
                 log::info!("found problem {:#?}", &err);
                 context.errors.push(err);
             }
-            State::CollectTextAttr(attr.to_owned(), first_line.to_owned())
+            let mut val = first_line.to_owned();
+            if !val.is_empty() {
+                val.push('\n');
+            }
+            State::CollectTextAttr(attr.to_owned(), val)
         }
     }
 }
-- 
2.43.0


From 367e29a94e19054658b7b4701004fd2be4151aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:46 +0000
Subject: [PATCH 06/28] fix: report read errors of mono requirement files

An unreadable file (a directory, invalid UTF-8) ran into a todo!().
---
 src/parsers/monoreq.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/monoreq.rs b/src/parsers/monoreq.rs
index d2789ed..84326d9 100644
--- a/src/parsers/monoreq.rs
+++ b/src/parsers/monoreq.rs
@@ -42,7 +42,12 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
                 }
             }
 
-            Err(_) => todo!(),
+            Err(e) => {
+                let err = Error::io(path, &e);
+                log::info!("found problem {:#?}", &err);
+                errors.push(err);
+                break;
+            }
         }
     }
 
-- 
2.43.0


From c1495249c52e9a581a08137aaa02c548ad3656b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:48 +0000
Subject: [PATCH 07/28] fix: mono requirement title is the first line with word
 characters

FMT_IMPORT_MONO_REQ: lines without word characters are skipped, non-word
characters are trimmed off both ends, and the title line may hold references
like every other line.
---
 src/parsers/monoreq.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parsers/monoreq.rs b/src/parsers/monoreq.rs
index 84326d9..6848918 100644
--- a/src/parsers/monoreq.rs
+++ b/src/parsers/monoreq.rs
@@ -12,6 +12,8 @@ use crate::models::Reference;
 use crate::models::Requirement;
 
 lazy_static! {
+    /// from the first to the last word character of a line
+    static ref TITLE: Regex = Regex::new(r"\w(?:.*\w)?").unwrap();
     static ref REF_LINK_LINE: Regex =
         Regex::new(r"=>\s*(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
 }
@@ -27,8 +29,9 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
         match line {
             Ok(line) => {
                 if title.is_none() {
-                    title = Some(line);
-                } else if let Some(ref_link) = REF_LINK_LINE.captures(&line) {
+                    title = TITLE.find(&line).map(|m| m.as_str().to_owned());
+                }
+                if let Some(ref_link) = REF_LINK_LINE.captures(&line) {
                     let id = ref_link[1].into();
                     let referenced_title = ref_link.get(2).map(|m| m.as_str().to_owned());
                     let location = Location::new_with_line_no(path.to_path_buf(), no + 1);
-- 
2.43.0


From bb9975fd53ed4fc709d0df2b32f9a82fde53ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:50 +0000
Subject: [PATCH 08/28] fix: find every fat arrow of a mono requirement file

FMT_IMPORT_MONO_REQ: every requirement id that immediately follows a fat arrow
is a dependency, not only those at the end of a line.
---
 src/parsers/monoreq.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parsers/monoreq.rs b/src/parsers/monoreq.rs
index 6848918..685505b 100644
--- a/src/parsers/monoreq.rs
+++ b/src/parsers/monoreq.rs
@@ -15,7 +15,7 @@ lazy_static! {
     /// from the first to the last word character of a line
     static ref TITLE: Regex = Regex::new(r"\w(?:.*\w)?").unwrap();
     static ref REF_LINK_LINE: Regex =
-        Regex::new(r"=>\s*(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
+        Regex::new(r"=>\s*(\p{XID_Start}\p{XID_Continue}+)(?::\s*(\S.*?)\s*$)?").unwrap();
 }
 
 pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, Vec<Error>) {
@@ -31,7 +31,9 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
                 if title.is_none() {
                     title = TITLE.find(&line).map(|m| m.as_str().to_owned());
                 }
-                if let Some(ref_link) = REF_LINK_LINE.captures(&line) {
+                let mut pos = 0;
+                while let Some(ref_link) = REF_LINK_LINE.captures_at(&line, pos) {
+                    pos = ref_link.get(1).map_or(line.len(), |m| m.end());
                     let id = ref_link[1].into();
                     let referenced_title = ref_link.get(2).map(|m| m.as_str().to_owned());
                     let location = Location::new_with_line_no(path.to_path_buf(), no + 1);
-- 
2.43.0


From 402f549175ae69f76deacb7f784f1e4817d5cc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:03 +0000
Subject: [PATCH 09/28] fix: report Rust coverage marks outside of any named
 item

A mark in the initialiser of a top level constant panicked because there is
no enclosing item.
---
 src/parsers/rust.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index ca1a2bc..870e17e 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -157,6 +157,16 @@ impl Parser<'_> {
                 location: macro_location,
             };
 
+            let Some(item_location) = self.locations.last() else {
+                let err = Error::Format(
+                    reference.location,
+                    "requirement_covered!() outside of any named item".to_owned(),
+                );
+                log::info!("found problem {:#?}", &err);
+                self.errors.push(err);
+                return true;
+            };
+
             // TODO: add info from path of source file to make symbols unique
             let id = self.scope.join("::").into();
 
@@ -168,7 +178,7 @@ impl Parser<'_> {
                     let covers = vec![reference];
                     let req = Requirement {
                         id,
-                        location: self.locations.last().unwrap().clone(),
+                        location: item_location.clone(),
                         covers,
                         depends: vec![],
                         tags: vec![],
-- 
2.43.0


From 6512c3139df57f76000b12d082f224301ef30182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:04 +0000
Subject: [PATCH 10/28] fix: collect the Rust coverage marks of an item in one
 requirement

A mark that followed a nested item with marks started a second requirement
with the same id, which was then reported as duplicate and dropped.
---
 src/parsers/rust.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index 870e17e..ef50108 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -170,11 +170,11 @@ impl Parser<'_> {
             // TODO: add info from path of source file to make symbols unique
             let id = self.scope.join("::").into();
 
-            match self.requirements.last_mut() {
-                Some(last) if last.id == id => {
-                    Rc::get_mut(last).unwrap().covers.push(reference);
+            match self.requirements.iter_mut().rev().find(|r| r.id == id) {
+                Some(req) => {
+                    Rc::get_mut(req).unwrap().covers.push(reference);
                 }
-                _ => {
+                None => {
                     let covers = vec![reference];
                     let req = Requirement {
                         id,
-- 
2.43.0


From dd2d2a289d8ed2ecd748f6e46c8a0c568f15329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:06 +0000
Subject: [PATCH 11/28] fix: use the value of string literals in Rust coverage
 marks

Escape sequences were left in place, escaped quotes removed and raw strings
rejected, so such titles were reported as wrong.
---
 src/parsers/rust.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index ef50108..52c59b9 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -93,10 +93,8 @@ impl Parser<'_> {
                 if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {
                     Some((id.to_string(), None))
                 } else {
-                    let mut id = tokens[0].to_string();
-                    if id.starts_with('"') && id.ends_with('"') {
+                    if let Some(id) = string_literal(&tokens[0]) {
                         // requirement_covered!("REQU_ID")
-                        id = id.replace('"', ""); // TODO: better string parsing?
                         Some((id, None))
                     } else {
                         let err = Error::Format(
@@ -114,9 +112,7 @@ impl Parser<'_> {
             3 => {
                 // requirement_covered!(IDENT,"string_literal")
                 if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {
-                    let mut title = tokens[2].to_string(); // a literal String
-                    if title.starts_with('"') && title.ends_with('"') {
-                        title = title.replace('"', ""); // TODO: better string parsing?
+                    if let Some(title) = string_literal(&tokens[2]) {
                         Some((id.to_string(), Some(title)))
                     } else {
                         // requirement_covered!(IDENT,17)
@@ -269,6 +265,17 @@ impl<'ast> Visit<'ast> for Parser<'ast> {
     }
 }
 
+/// the value of a string literal
+fn string_literal(token: &proc_macro2::TokenTree) -> Option<String> {
+    match token {
+        proc_macro2::TokenTree::Literal(literal) => match syn::Lit::new(literal.clone()) {
+            syn::Lit::Str(s) => Some(s.value()),
+            _ => None,
+        },
+        _ => None,
+    }
+}
+
 fn location_from_span(path: &Path, span: &Span) -> Location {
     let start = span.start();
     Location::new_with_line_and_column(path.to_path_buf(), start.line, start.column)
-- 
2.43.0


From 19787faaeaf190742baa5a27293cd83e66549eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:42 +0000
Subject: [PATCH 12/28] fix: report relations with unknown artefacts and
 duplicate artefact ids

The former ran into a todo!(), of several artefacts with the same id all but
the last were silently ignored. Both are now fatal configuration errors.
---
 src/controller.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 764072a..077eb8b 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -183,35 +183,36 @@ pub struct Controller {
     traced_graph: TracedGraph,
     jobs: BTreeMap<String, Job>,
     default_jobs: Vec<String>,
+    /// set if no job can be run with this configuration
+    config_error: Option<ControllerError>,
 }
 
 impl Controller {
     pub fn new(config: Config, base_dir: &Path) -> Self {
         let mut artefacts: BTreeMap<ArtefactId, Rc<Artefact>> = BTreeMap::new();
+        let mut config_errors: Vec<Error> = Vec::new();
 
-        let relations: Vec<Relation> = config.relations;
+        let mut relations: Vec<Relation> = config.relations;
 
         let mut is_root: BTreeMap<&ArtefactId, bool> =
             config.artefacts.iter().map(|ac| (&ac.id, true)).collect();
 
         for rel in &relations {
             if is_root.get(&rel.upper).is_none() {
-                let err = Error::Config(format!(
+                config_errors.push(Error::Config(format!(
                     "Relation.upper references unknown artefact {}",
                     &rel.upper
-                ));
-                todo!("log error {err}");
+                )));
             }
 
             for lower in &rel.lower {
-                if is_root.get(&lower).is_none() {
-                    let err = Error::Config(format!(
+                match is_root.get_mut(&lower) {
+                    Some(root) => *root = false,
+                    None => config_errors.push(Error::Config(format!(
                         "Relation.lower references unknown artefact {}",
                         &lower
-                    ));
-                    todo!("log error {err}");
+                    ))),
                 }
-                *is_root.get_mut(&lower).unwrap() = false;
             }
         }
         for ac in &config.artefacts {
@@ -238,9 +239,18 @@ impl Controller {
                 reference_with_title,
             };
             let a = Rc::new(a);
-            artefacts.insert(ac.id.clone(), a);
+            if artefacts.insert(ac.id.clone(), a).is_some() {
+                config_errors.push(Error::DuplicateArtefact(ac.id.to_string()));
+            }
         }
 
+        let config_error = config_errors.first().map(|err| {
+            log::info!("found problems {:#?}", &config_errors);
+            // nothing can be traced and no job will be run
+            relations.clear();
+            ControllerError::Config(err.to_string())
+        });
+
         let graph = Graph {
             artefacts,
             relations,
@@ -255,6 +265,7 @@ impl Controller {
             traced_graph,
             jobs: config.jobs.unwrap_or_default(),
             default_jobs: config.default_jobs.unwrap_or_default(),
+            config_error,
         }
     }
 
@@ -292,6 +303,10 @@ impl Controller {
         jobs: &[&Job],
         job_names: &[String],
     ) -> Result<JobSuccess, ControllerError> {
+        if let Some(err) = &self.config_error {
+            return Err(err.clone());
+        }
+
         let start = Instant::now();
         let mut success = JobSuccess::Success;
         for (job, job_name) in jobs.iter().zip(job_names.iter()) {
-- 
2.43.0


From b865f18986a40066234774e569d652cb90543f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:44 +0000
Subject: [PATCH 13/28] fix: unsupported report formats are errors, not panics

Combinations of query and format without a formatter ran into a todo!().
---
 src/formatters/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/formatters/mod.rs b/src/formatters/mod.rs
index 56a3b63..4f9b051 100644
--- a/src/formatters/mod.rs
+++ b/src/formatters/mod.rs
@@ -34,7 +34,7 @@ pub fn requirements(graph: &Graph, format: &Format, writer: &mut impl io::Write)
             ),
         )
         .map_err(io::Error::other),
-        _ => todo!(),
+        _ => Err(unsupported("Parse", format)),
     }
 }
 
@@ -52,6 +52,13 @@ pub fn tracing(
         }
         Format::Json => serde_json::to_writer_pretty(writer, &serialize::Trace::new(traced_graph))
             .map_err(io::Error::other),
-        _ => todo!(),
+        _ => Err(unsupported("Trace", format)),
     }
 }
+
+fn unsupported(query: &str, format: &Format) -> io::Error {
+    io::Error::new(
+        io::ErrorKind::Unsupported,
+        format!("format {format:?} is not supported for query {query}"),
+    )
+}
-- 
2.43.0


From 35e05db4f7857b9a0d67d83175eedf2c921d7fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:31 +0000
Subject: [PATCH 14/28] fix: take the base directory literally when globbing

Characters like [ or * in the name of the base directory were interpreted as
part of the pattern, so the files of Rust artefacts were not found.
---
 src/controller.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index 077eb8b..8ba30df 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -39,7 +39,8 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Erro
 
     for path in paths {
         let glob = if Path::new(path).is_relative() {
-            glob::glob(&format!("{}/{}", base_dir.display(), path))
+            let base_dir = glob::Pattern::escape(&base_dir.display().to_string());
+            glob::glob(&format!("{base_dir}/{path}"))
         } else {
             glob::glob(path)
         };
-- 
2.43.0


From 2186bf6692fe670cebb5aaec0a857fb622f3c44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:33 +0000
Subject: [PATCH 15/28] fix: report missing files of Rust artefacts and keep
 reading the others

A path that does not exist was ignored silently, and one unusable pattern or
directory entry discarded all other files of the artefact.
---
 src/controller.rs | 77 ++++++++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 35 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 8ba30df..eafa598 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -34,8 +34,9 @@ pub enum JobSuccess {
     ErrorsDetected,
 }
 
-fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Error> {
+fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>) {
     let mut result = Vec::new();
+    let mut errors = Vec::new();
 
     for path in paths {
         let glob = if Path::new(path).is_relative() {
@@ -44,14 +45,29 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Erro
         } else {
             glob::glob(path)
         };
-        let glob = glob.map_err(|e| Error::Io(PathBuf::from(path), e.to_string()))?;
-        for entry in glob {
-            let entry = entry.map_err(|e| Error::Io(e.path().into(), e.to_string()))?;
-            result.push(entry);
+        match glob {
+            Err(e) => errors.push(Error::Io(PathBuf::from(path), e.to_string())),
+            Ok(entries) => {
+                let mut found = false;
+                for entry in entries {
+                    found = true;
+                    match entry {
+                        Ok(entry) => result.push(entry),
+                        Err(e) => errors.push(Error::Io(e.path().into(), e.to_string())),
+                    }
+                }
+                if !found && glob::Pattern::escape(path) == *path {
+                    // not a pattern but the path of a single file
+                    errors.push(Error::Io(base_dir.join(path), "No such file".to_owned()));
+                }
+            }
         }
     }
 
-    Ok(result)
+    for err in &errors {
+        log::info!("found problem {err:#?}");
+    }
+    (result, errors)
 }
 
 fn parse_single_file(
@@ -108,38 +124,29 @@ fn parse_multiple_files(
         return (vec![], vec![], vec![err]);
     }
 
-    match glob_paths(&config.paths, base_dir) {
-        Err(err) => (
-            config.paths.iter().map(PathBuf::from).collect(),
-            vec![],
-            vec![err],
-        ),
-        Ok(paths) => {
-            let mut requirements = Vec::new();
-            let mut errors = Vec::new();
-            for path in &paths {
-                requirement_covered!(DSG_ART_FILES);
-                match fs::File::open(path) {
-                    Err(err) => {
-                        let err = Error::Io(path.into(), err.to_string());
-                        log::info!("found problem {:#?}", &err);
-                        errors.push(err)
-                    }
-                    Ok(file) => {
-                        let mut r = io::BufReader::new(file);
-
-                        let (r, e) = match config.parser {
-                            ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
-                            _ => panic!("unexpected {:?}", config.parser),
-                        };
-                        requirements.extend(r);
-                        errors.extend(e);
-                    }
-                }
+    let (paths, mut errors) = glob_paths(&config.paths, base_dir);
+    let mut requirements = Vec::new();
+    for path in &paths {
+        requirement_covered!(DSG_ART_FILES);
+        match fs::File::open(path) {
+            Err(err) => {
+                let err = Error::Io(path.into(), err.to_string());
+                log::info!("found problem {:#?}", &err);
+                errors.push(err)
+            }
+            Ok(file) => {
+                let mut r = io::BufReader::new(file);
+
+                let (r, e) = match config.parser {
+                    ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
+                    _ => panic!("unexpected {:?}", config.parser),
+                };
+                requirements.extend(r);
+                errors.extend(e);
             }
-            (paths, requirements, errors)
         }
     }
+    (paths, requirements, errors)
 }
 
 pub fn parse_from_config(
-- 
2.43.0


From b79a69399a478460274d679208768c18a0dfc525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:35 +0000
Subject: [PATCH 16/28] fix: read files that match several patterns of an
 artefact only once

Every requirement of such a file was reported as duplicate of itself.
---
 src/controller.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/controller.rs b/src/controller.rs
index eafa598..7e60ed5 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -52,6 +52,7 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>
                 for entry in entries {
                     found = true;
                     match entry {
+                        Ok(entry) if result.contains(&entry) => {} // patterns overlap
                         Ok(entry) => result.push(entry),
                         Err(e) => errors.push(Error::Io(e.path().into(), e.to_string())),
                     }
-- 
2.43.0


From 5d5e016a8235102fd983cfdc1b929be2d7134cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:52 +0000
Subject: [PATCH 17/28] fix: detect reports that could not be written
 completely

The buffered end of a report on stdout was only written at exit, where errors
are ignored. A job that could not write its report also kept the following
jobs from running.
---
 src/controller.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 7e60ed5..d2e5831 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -318,10 +318,16 @@ impl Controller {
 
         let start = Instant::now();
         let mut success = JobSuccess::Success;
+        let mut failure = None;
         for (job, job_name) in jobs.iter().zip(job_names.iter()) {
-            match self.run(job, job_name)? {
-                JobSuccess::Success => {}
-                JobSuccess::ErrorsDetected => {
+            match self.run(job, job_name) {
+                Err(err) => {
+                    // the reports of the other jobs can still be written
+                    log::error!("Job {job_name} failed: {err}");
+                    failure.get_or_insert(err);
+                }
+                Ok(JobSuccess::Success) => {}
+                Ok(JobSuccess::ErrorsDetected) => {
                     if job.set_return_code.unwrap_or(true) {
                         requirement_covered!(DSG_CTRL_RETURN_CODE);
                         success = JobSuccess::ErrorsDetected;
@@ -330,6 +336,10 @@ impl Controller {
             }
         }
 
+        if let Some(err) = failure {
+            return Err(err);
+        }
+
         log::info!(
             "ran {} jobs in {}ms, result: {:?}",
             job_names.len(),
@@ -416,6 +426,7 @@ impl Controller {
             }
         };
 
+        let write_res = write_res.and_then(|()| out.flush());
         write_res.map_err(|e| ControllerError::Io(job.file.clone(), e.to_string()))?;
 
         match success {
-- 
2.43.0


From 991f0df743c244d61f738e47933cf1036f86aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:55 +0000
Subject: [PATCH 18/28] fix: import JSON files in the documented and exported
 format

FMT_IMPORT_JSON: the file contains an object with version and requirements.
Only a bare list was accepted, so exported files could not be imported.
---
 src/controller.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index d2e5831..ff14396 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -71,6 +71,26 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>
     (result, errors)
 }
 
+/// Parse an object as specified in FMT_IMPORT_JSON, or just the list of requirements
+fn parse_json(reader: impl io::Read) -> Result<Vec<Rc<Requirement>>, String> {
+    #[derive(serde::Deserialize)]
+    struct Requirements {
+        version: u32,
+        requirements: Vec<Rc<Requirement>>,
+    }
+
+    let text = io::read_to_string(reader).map_err(|e| e.to_string())?;
+    if text.trim_start().starts_with('{') {
+        let file: Requirements = serde_json::from_str(&text).map_err(|e| e.to_string())?;
+        if file.version > 0 {
+            return Err(format!("unknown version {}", file.version));
+        }
+        Ok(file.requirements)
+    } else {
+        serde_json::from_str(&text).map_err(|e| e.to_string())
+    }
+}
+
 fn parse_single_file(
     config: &ArtefactConfig,
     base_dir: &Path,
@@ -98,11 +118,10 @@ fn parse_single_file(
             let (reqs, errs) = match &config.parser {
                 ArtefactParser::Markdown => parsers::markdown::parse(&mut r, &path),
                 ArtefactParser::MonoRequirement => parsers::monoreq::parse(&mut r, &path),
-                ArtefactParser::Json => match serde_json::from_reader(r) {
+                ArtefactParser::Json => match parse_json(r) {
                     Ok(reqs) => (reqs, vec![]),
                     Err(err) => {
-                        let err =
-                            Error::Format(Location::new_with_no_pos(path.clone()), err.to_string());
+                        let err = Error::Format(Location::new_with_no_pos(path.clone()), err);
                         log::info!("found problem {:#?}", &err);
 
                         (vec![], vec![err])
-- 
2.43.0


From 167f5a7e425098e80cbdd8d56a8962c63f305379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:57 +0000
Subject: [PATCH 19/28] fix: replace encoding errors when reading artefacts

FMT_FILE_ENCODINGS: text that is not valid UTF-8 made the parsers drop the
rest of the file.
---
 src/controller.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index ff14396..68417cb 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -71,23 +71,29 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>
     (result, errors)
 }
 
+/// Read a file as UTF-8, encoding errors are replaced
+fn read_text(path: &Path) -> io::Result<String> {
+    requirement_covered!(FMT_FILE_ENCODINGS);
+    let bytes = fs::read(path)?;
+    Ok(String::from_utf8_lossy(&bytes).into_owned())
+}
+
 /// Parse an object as specified in FMT_IMPORT_JSON, or just the list of requirements
-fn parse_json(reader: impl io::Read) -> Result<Vec<Rc<Requirement>>, String> {
+fn parse_json(text: &str) -> Result<Vec<Rc<Requirement>>, String> {
     #[derive(serde::Deserialize)]
     struct Requirements {
         version: u32,
         requirements: Vec<Rc<Requirement>>,
     }
 
-    let text = io::read_to_string(reader).map_err(|e| e.to_string())?;
     if text.trim_start().starts_with('{') {
-        let file: Requirements = serde_json::from_str(&text).map_err(|e| e.to_string())?;
+        let file: Requirements = serde_json::from_str(text).map_err(|e| e.to_string())?;
         if file.version > 0 {
             return Err(format!("unknown version {}", file.version));
         }
         Ok(file.requirements)
     } else {
-        serde_json::from_str(&text).map_err(|e| e.to_string())
+        serde_json::from_str(text).map_err(|e| e.to_string())
     }
 }
 
@@ -106,19 +112,19 @@ fn parse_single_file(
     let path = base_dir.join(&config.paths[0]);
 
     requirement_covered!(DSG_ART_FILES);
-    match fs::File::open(&path) {
+    match read_text(&path) {
         Err(err) => {
             let err = Error::Io(path.clone(), err.to_string());
             log::info!("found problem {:#?}", &err);
             (vec![path], vec![], vec![err])
         }
-        Ok(file) => {
-            let mut r = io::BufReader::new(file);
+        Ok(text) => {
+            let mut r = text.as_bytes();
 
             let (reqs, errs) = match &config.parser {
                 ArtefactParser::Markdown => parsers::markdown::parse(&mut r, &path),
                 ArtefactParser::MonoRequirement => parsers::monoreq::parse(&mut r, &path),
-                ArtefactParser::Json => match parse_json(r) {
+                ArtefactParser::Json => match parse_json(&text) {
                     Ok(reqs) => (reqs, vec![]),
                     Err(err) => {
                         let err = Error::Format(Location::new_with_no_pos(path.clone()), err);
@@ -148,14 +154,14 @@ fn parse_multiple_files(
     let mut requirements = Vec::new();
     for path in &paths {
         requirement_covered!(DSG_ART_FILES);
-        match fs::File::open(path) {
+        match read_text(path) {
             Err(err) => {
                 let err = Error::Io(path.into(), err.to_string());
                 log::info!("found problem {:#?}", &err);
                 errors.push(err)
             }
-            Ok(file) => {
-                let mut r = io::BufReader::new(file);
+            Ok(text) => {
+                let mut r = text.as_bytes();
 
                 let (r, e) = match config.parser {
                     ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
-- 
2.43.0


From 15b25a3f33915c23a2b80be05deba8415023e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:44 +0000
Subject: [PATCH 20/28] fix: do not take trailing blanks for a Markdown title

A heading or reference that ends in a colon got a title of white space when
blanks followed the colon, and was no requirement or reference otherwise.
---
 src/parsers/markdown.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index aa27d4c..f8fe6a8 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -15,10 +15,10 @@ use crate::models::Requirement;
 lazy_static! {
     static ref HEADING_LINE: Regex = Regex::new(r"^(#+)").unwrap();
     static ref REQUIREMENT_LINE: Regex =
-        Regex::new(r"^(#+)\s*(\p{XID_Start}\p{XID_Continue}+):\s*(.+?)\s*$").unwrap();
+        Regex::new(r"^(#+)\s*(\p{XID_Start}\p{XID_Continue}+):\s*(\S.*?)\s*$").unwrap();
     static ref ATTRIBUTE_LINE: Regex = Regex::new(r"^([A-Z][a-z]+):\s*(.*)\s*$").unwrap();
     static ref REF_LINK_LINE: Regex =
-        Regex::new(r"^\s*[*+-]\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
+        Regex::new(r"^\s*[*+-]\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(\S.*?))?\s*$").unwrap();
     static ref BAD_HEADLINE_UNDERLINE: Regex = Regex::new(r"^(====*)|(----*)").unwrap(); // TODO: use
 }
 
-- 
2.43.0


From 2e1356a99fe0243c0f1056286af8a4c52ed546a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:42 +0000
Subject: [PATCH 21/28] fix: find the files of patterns below a base directory
 that ends with a slash

---
 src/controller.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index 68417cb..2eccfd0 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -41,7 +41,7 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>
     for path in paths {
         let glob = if Path::new(path).is_relative() {
             let base_dir = glob::Pattern::escape(&base_dir.display().to_string());
-            glob::glob(&format!("{base_dir}/{path}"))
+            glob::glob(&Path::new(&base_dir).join(path).display().to_string())
         } else {
             glob::glob(path)
         };
-- 
2.43.0


From fa3e81233106599d26d275ff64bd757901dfdf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:27 +0000
Subject: [PATCH 22/28] fix: report coverage marks whose arguments are not
 separated by a comma

---
 src/parsers/rust.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index 52c59b9..b6656e6 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -109,7 +109,7 @@ impl Parser<'_> {
                 }
             }
 
-            3 => {
+            3 if is_comma(&tokens[1]) => {
                 // requirement_covered!(IDENT,"string_literal")
                 if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {
                     if let Some(title) = string_literal(&tokens[2]) {
@@ -265,6 +265,10 @@ impl<'ast> Visit<'ast> for Parser<'ast> {
     }
 }
 
+fn is_comma(token: &proc_macro2::TokenTree) -> bool {
+    matches!(token, proc_macro2::TokenTree::Punct(punct) if punct.as_char() == ',')
+}
+
 /// the value of a string literal
 fn string_literal(token: &proc_macro2::TokenTree) -> Option<String> {
     match token {
-- 
2.43.0


From a582dc99b2cc54ebe8a3a3cd1397e9147a8bfab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:22 +0000
Subject: [PATCH 23/28] fix: do not panic at C string literals in Rust sources

---
 src/parsers/rust.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index b6656e6..58764c3 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -5,7 +5,6 @@ use std::rc::Rc;
 
 use proc_macro2::Span;
 use quote::ToTokens;
-use syn::parse_file;
 use syn::spanned::Spanned;
 use syn::visit::Visit;
 use syn::visit::{self};
@@ -27,7 +26,7 @@ pub fn parse(reader: &mut impl io::BufRead, path: &Path) -> (Vec<Rc<Requirement>
             log::info!("found problem {:#?}", &err);
             errors.push(err);
         }
-        Ok(_bytes) => match parse_file(&source) {
+        Ok(_bytes) => match parse_source(&source) {
             Err(e) => {
                 let pos = e.span().start();
                 let err = Error::Format(
@@ -265,6 +264,41 @@ impl<'ast> Visit<'ast> for Parser<'ast> {
     }
 }
 
+/// like `syn::parse_file`, which panics at C string literals
+fn parse_source(source: &str) -> syn::Result<syn::File> {
+    let source = source.strip_prefix('\u{feff}').unwrap_or(source);
+    let source = match source.strip_prefix("#!") {
+        Some(rest) if !rest.trim_start().starts_with('[') => {
+            source.find('\n').map_or("", |end| &source[end..])
+        }
+        _ => source,
+    };
+    let tokens: proc_macro2::TokenStream = source.parse()?;
+    syn::parse2(replace_c_strings(tokens))
+}
+
+/// replaces C string literals, which `syn` does not know, with byte string literals
+fn replace_c_strings(tokens: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
+    use proc_macro2::{Group, Literal, TokenTree};
+
+    tokens
+        .into_iter()
+        .map(|token| match token {
+            TokenTree::Group(group) => {
+                let mut replaced = Group::new(group.delimiter(), replace_c_strings(group.stream()));
+                replaced.set_span(group.span());
+                replaced.into()
+            }
+            TokenTree::Literal(literal) if literal.to_string().starts_with('c') => {
+                let mut replaced = Literal::byte_string(b"");
+                replaced.set_span(literal.span());
+                replaced.into()
+            }
+            token => token,
+        })
+        .collect()
+}
+
 fn is_comma(token: &proc_macro2::TokenTree) -> bool {
     matches!(token, proc_macro2::TokenTree::Punct(punct) if punct.as_char() == ',')
 }
-- 
2.43.0


From 2638f3566ba071d4026b18d721fe8712611d4187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:11 +0000
Subject: [PATCH 24/28] fix: accept requirement_covered!(ID: "title") again,
 which this project uses itself

---
 src/parsers/rust.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index 58764c3..bfa40c2 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -108,7 +108,7 @@ impl Parser<'_> {
                 }
             }
 
-            3 if is_comma(&tokens[1]) => {
+            3 => {
                 // requirement_covered!(IDENT,"string_literal")
                 if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {
                     if let Some(title) = string_literal(&tokens[2]) {
@@ -299,10 +299,6 @@ fn replace_c_strings(tokens: proc_macro2::TokenStream) -> proc_macro2::TokenStre
         .collect()
 }
 
-fn is_comma(token: &proc_macro2::TokenTree) -> bool {
-    matches!(token, proc_macro2::TokenTree::Punct(punct) if punct.as_char() == ',')
-}
-
 /// the value of a string literal
 fn string_literal(token: &proc_macro2::TokenTree) -> Option<String> {
     match token {
-- 
2.43.0


From 96329c55e5e63bd123f822d7181b7a5a6f172e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 25/28] fix: do not ignore coverage marks that are called like
 items

---
 src/parsers/rust.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index bfa40c2..e343099 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -62,10 +62,10 @@ struct Parser<'a> {
 }
 
 impl Parser<'_> {
-    fn parse_macro(&mut self, node: &syn::ExprMacro) -> bool {
+    fn parse_macro(&mut self, node: &syn::Macro) -> bool {
         requirement_covered!(FMT_IMPORT_RUS_COV_MARK);
 
-        let seg = &node.mac.path.segments;
+        let seg = &node.path.segments;
         if seg.len() != 1 {
             return false;
         }
@@ -73,7 +73,7 @@ impl Parser<'_> {
             return false;
         }
 
-        let tokens: Vec<_> = node.mac.tokens.clone().into_iter().collect();
+        let tokens: Vec<_> = node.tokens.clone().into_iter().collect();
         let macro_location = location_from_span(self.path, &seg[0].ident.span());
 
         if let Some((referenced_id, title)) = match tokens.len() {
@@ -190,9 +190,9 @@ impl Parser<'_> {
 }
 
 impl<'ast> Visit<'ast> for Parser<'ast> {
-    fn visit_expr_macro(&mut self, node: &'ast syn::ExprMacro) {
+    fn visit_macro(&mut self, node: &'ast syn::Macro) {
         if !self.parse_macro(node) {
-            visit::visit_expr_macro(self, node);
+            visit::visit_macro(self, node);
         }
     }
 
-- 
2.43.0


From e9c45f765fa0710c8d65053a83fceab49b385d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 26/28] fix: do not ignore coverage marks in let-else and const
 blocks

---
 src/parsers/rust.rs | 58 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index e343099..fbcbe9f 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -264,7 +264,7 @@ impl<'ast> Visit<'ast> for Parser<'ast> {
     }
 }
 
-/// like `syn::parse_file`, which panics at C string literals
+/// like `syn::parse_file`, but with more recent syntax
 fn parse_source(source: &str) -> syn::Result<syn::File> {
     let source = source.strip_prefix('\u{feff}').unwrap_or(source);
     let source = match source.strip_prefix("#!") {
@@ -274,29 +274,53 @@ fn parse_source(source: &str) -> syn::Result<syn::File> {
         _ => source,
     };
     let tokens: proc_macro2::TokenStream = source.parse()?;
-    syn::parse2(replace_c_strings(tokens))
+    syn::parse2(simplify(tokens))
 }
 
-/// replaces C string literals, which `syn` does not know, with byte string literals
-fn replace_c_strings(tokens: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
-    use proc_macro2::{Group, Literal, TokenTree};
+/// replaces syntax that `syn` panics at or keeps as mere tokens:
+/// C string literals, `const` blocks and `let ... else`
+fn simplify(tokens: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
+    use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, TokenTree};
 
-    tokens
-        .into_iter()
-        .map(|token| match token {
+    let is_ident = |t: &TokenTree, name| matches!(t, TokenTree::Ident(i) if i == name);
+    let is_block = |t: Option<&TokenTree>| matches!(t, Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace);
+
+    let mut tokens: Vec<TokenTree> = tokens.into_iter().collect();
+    // whether the current statement began with `let`
+    let mut in_let = false;
+    for i in 0..tokens.len() {
+        let span = tokens[i].span();
+        let mut replacement: TokenTree = match &tokens[i] {
             TokenTree::Group(group) => {
-                let mut replaced = Group::new(group.delimiter(), replace_c_strings(group.stream()));
-                replaced.set_span(group.span());
-                replaced.into()
+                Group::new(group.delimiter(), simplify(group.stream())).into()
             }
             TokenTree::Literal(literal) if literal.to_string().starts_with('c') => {
-                let mut replaced = Literal::byte_string(b"");
-                replaced.set_span(literal.span());
-                replaced.into()
+                Literal::byte_string(b"").into()
+            }
+            token if is_ident(token, "const") && is_block(tokens.get(i + 1)) => {
+                Ident::new("unsafe", span).into()
             }
-            token => token,
-        })
-        .collect()
+            token
+                if is_ident(token, "else")
+                    && in_let
+                    && is_block(tokens.get(i + 1))
+                    && !is_block(tokens.get(i.wrapping_sub(1))) =>
+            {
+                in_let = false;
+                Punct::new(';', Spacing::Alone).into()
+            }
+            token => {
+                in_let = match token {
+                    TokenTree::Punct(punct) if punct.as_char() == ';' => false,
+                    token => in_let || is_ident(token, "let"),
+                };
+                continue;
+            }
+        };
+        replacement.set_span(span);
+        tokens[i] = replacement;
+    }
+    tokens.into_iter().collect()
 }
 
 /// the value of a string literal
-- 
2.43.0


From adab09058e8e41696a4741b26b678e82944d81e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:15 +0000
Subject: [PATCH 27/28] fix: a byte order mark is not part of the text

---
 src/controller.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index 2eccfd0..b8ae400 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -75,7 +75,9 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>
 fn read_text(path: &Path) -> io::Result<String> {
     requirement_covered!(FMT_FILE_ENCODINGS);
     let bytes = fs::read(path)?;
-    Ok(String::from_utf8_lossy(&bytes).into_owned())
+    // a byte order mark is not part of the text
+    let bytes = bytes.strip_prefix(b"\xef\xbb\xbf").unwrap_or(&bytes);
+    Ok(String::from_utf8_lossy(bytes).into_owned())
 }
 
 /// Parse an object as specified in FMT_IMPORT_JSON, or just the list of requirements
-- 
2.43.0


From 0c545e3c06972d8868a1e825dab30f171aabe9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:23 +0000
Subject: [PATCH 28/28] fix: the comment `(/*ERROR*/)` in a Rust source made
 the tool panic

---
 src/parsers/rust.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index fbcbe9f..5f94fd1 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -278,7 +278,8 @@ fn parse_source(source: &str) -> syn::Result<syn::File> {
 }
 
 /// replaces syntax that `syn` panics at or keeps as mere tokens:
-/// C string literals, `const` blocks and `let ... else`
+/// C string literals, `const` blocks, `let ... else` and `(/*ERROR*/)`,
+/// which `proc_macro2` reads as a literal
 fn simplify(tokens: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
     use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, TokenTree};
 
@@ -297,6 +298,9 @@ fn simplify(tokens: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
             TokenTree::Literal(literal) if literal.to_string().starts_with('c') => {
                 Literal::byte_string(b"").into()
             }
+            TokenTree::Literal(literal) if literal.to_string().starts_with('(') => {
+                Group::new(Delimiter::Parenthesis, Default::default()).into()
+            }
             token if is_ident(token, "const") && is_block(tokens.get(i + 1)) => {
                 Ident::new("unsafe", span).into()
             }
-- 
2.43.0

