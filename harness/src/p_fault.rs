//! C13: failing inputs; C14: arbitrary content; C15: invalid UTF-8
use crate::cfg::*;
use crate::core::*;
use crate::model::*;
use crate::proj::*;
use crate::{ensure, viol};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeSet;

// ---------------------------------------------------------------- C13

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FailCase {
    proj: Proj,
    /// (kind, variant, position among the artefacts or paths)
    failing: Vec<(u8, u8, u8)>,
}

pub struct Failing;

const SINGLE: [&str; 3] = ["Markdown", "MonoRequirement", "Json"];

impl Prop for Failing {
    type Case = FailCase;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "the project has at least one requirement besides the failing input"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 3_500,
            Tier::Thorough => 50_000,
        }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<FailCase> {
        (proj(ProjSize { bad: false, max: 1 }), prop::collection::vec((any::<u8>(), any::<u8>(), any::<u8>()), 1..4))
            .prop_map(|(proj, failing)| FailCase { proj, failing })
            .boxed()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "a failing input is named by its file name, its pattern or the id of its artefact",
            "a pattern with metacharacters that matches nothing is not a failing input",
            "the checks run as root: missing permissions are not generated",
        ]
    }
    fn check(&self, case: &FailCase, env: &Env) -> Res<Info> {
        let p = case.proj.render();
        let d = env.dir()?;
        p.write(&d)?;
        let mut c = p.cfg();
        let jobs = all_jobs(&mut c);
        c.write(&d)?;
        let mut args = vec!["-c", "config.toml"];
        args.extend(&jobs);
        env.run(&d.0, &args)?.ran()?;
        let t0: Value = d.report_json("out/tj")?;
        let p0: ParseOut = d.report_json("out/pj")?;

        // the same with failing inputs
        let mut i = Info::new();
        let mut names: Vec<Vec<String>> = vec![];
        let mut extra: BTreeSet<String> = BTreeSet::new();
        let mut touched_rust = false;
        for (n, (kind, var, pos)) in case.failing.iter().enumerate() {
            let art = format!("failing_artefact_{n}");
            let parser = SINGLE[*var as usize % 3];
            let add = |c: &mut Cfg, a: CfgArt| {
                let at = *pos as usize % (c.arts.len() + 1);
                c.arts.insert(at, a);
            };
            let rust = c.arts.iter().position(|a| a.id == "code");
            match kind % 12 {
                0 => {
                    i.label("missing file", true);
                    let f = format!("missing_{n}.x");
                    add(&mut c, CfgArt::new(&art, parser, &f));
                    names.push(vec![f]);
                }
                1 => {
                    i.label("directory", true);
                    let f = format!("directory_{n}");
                    d.write(&format!("{f}/x"), "")?;
                    add(&mut c, CfgArt::new(&art, parser, &f));
                    names.push(vec![f]);
                }
                2 => {
                    i.label("invalid JSON", true);
                    let f = format!("invalid_{n}.json");
                    let good = r#"[{"id":"ZZ_1","title":null,"location":{"file":"f","location_in_file":null},"covers":[],"depends":[],"tags":[],"attributes":{}}]"#;
                    let text = match var % 9 {
                        0 => good[..1 + *pos as usize % (good.len() - 2)].to_owned(),
                        1 => format!("{{\"version\":{},\"requirements\":{good}}}", if pos % 2 == 0 { 1 } else { u32::from(*pos) + 1 }),
                        2 => String::new(),
                        3 => format!("{{\"requirements\":{good}}}").replace("\"id\"", "\"ID\""),
                        4 => good.replace("\"covers\":[]", "\"covers\":{}"),
                        5 => format!("{good} x"),
                        6 => "\"text\"".into(),
                        7 => good.replace("null},", "{\"Line\":-1}},"),
                        _ => "# AB_1: Title\n".into(),
                    };
                    d.write(&f, text)?;
                    add(&mut c, CfgArt::new(&art, "Json", &f));
                    names.push(vec![f]);
                }
                3 => {
                    i.label("Rust syntax error among other files", rust.is_some());
                    // between the other files of the artefact
                    let f = format!("src/r{:02}_broken_{n}.rs", pos % 4);
                    let text = ["fn (", "}", "let x = 1;", "fn f() { requirement_covered!(X_1; }", "\"unterminated", "fn f() { requirement_covered!(ZZ_1); } mod"][*var as usize % 6];
                    d.write(&f, text)?;
                    if rust.is_none() {
                        add(&mut c, CfgArt::new(&art, "Rust", "src/*.rs"));
                    }
                    touched_rust = true;
                    names.push(vec![f]);
                }
                4 | 5 => {
                    let bad = if kind % 12 == 4 {
                        i.label("missing Rust file", true);
                        format!("src/missing_{n}.rs")
                    } else {
                        i.label("invalid pattern", true);
                        match var % 4 {
                            0 => format!("src/***{n}"),
                            1 => format!("src/[{n}"),
                            2 => format!("src/x**{n}/*.rs"),
                            _ => format!("{n}a**"),
                        }
                    };
                    match rust {
                        Some(r) => {
                            let paths = &mut c.arts[r].paths;
                            let at = *pos as usize % (paths.len() + 1);
                            paths.insert(at, bad.clone());
                            touched_rust = true;
                        }
                        None => add(&mut c, CfgArt::new(&art, "Rust", &bad)),
                    }
                    names.push(vec![bad]);
                }
                6 => {
                    i.label("no path or several for a single file parser", true);
                    let mut a = CfgArt::new(&art, parser, "");
                    a.paths = match var / 3 % 3 {
                        0 => vec![],
                        1 => vec!["a.md".into(), "b.md".into()],
                        _ => vec!["config.toml".into(), "config.toml".into()],
                    };
                    add(&mut c, a);
                    names.push(vec![art.clone()]);
                }
                7 => {
                    i.label("no path for Rust", true);
                    let mut a = CfgArt::new(&art, "Rust", "");
                    a.paths.clear();
                    add(&mut c, a);
                    names.push(vec![art.clone()]);
                }
                8 => {
                    i.label("directory among Rust files", rust.is_some());
                    let f = format!("src/r{:02}_dir_{n}.rs", pos % 4);
                    d.write(&format!("{f}/x"), "")?;
                    if rust.is_none() {
                        add(&mut c, CfgArt::new(&art, "Rust", "src/*.rs"));
                    }
                    touched_rust = true;
                    names.push(vec![f]);
                }
                9 => {
                    i.label("path below a file", true);
                    let f = format!("config.toml/below_{n}");
                    add(&mut c, CfgArt::new(&art, parser, &f));
                    names.push(vec![f]);
                }
                10 => {
                    i.label("dangling symbolic link", true);
                    let f = format!("link_{n}.x");
                    std::os::unix::fs::symlink(format!("nowhere_{n}"), d.path(&f))?;
                    add(&mut c, CfgArt::new(&art, parser, &f));
                    names.push(vec![f]);
                }
                _ => {
                    i.label("symbolic link to itself among Rust files", true);
                    let f = format!("src/r{:02}_link_{n}.rs", pos % 4);
                    std::fs::create_dir_all(d.path("src"))?;
                    std::os::unix::fs::symlink(d.path(&f), d.path(&f))?;
                    if rust.is_none() {
                        add(&mut c, CfgArt::new(&art, "Rust", "src/*.rs"));
                    }
                    touched_rust = true;
                    names.push(vec![f]);
                }
            }
            extra.insert(art);
        }
        c.write(&d)?;
        for f in ["out/tj", "out/pj", "out/tm", "out/tg", "out/pm", "out/pt"] {
            let _ = std::fs::remove_file(d.path(f));
        }
        // one process per query, to see both exit statuses
        for jobs in [["tj", "tm", "tg"], ["pj", "pm", "pt"]] {
            let mut args = vec!["-c", "config.toml"];
            args.extend(jobs);
            let s = env.run(&d.0, &args)?.ran()?;
            ensure!(s == 1, "exit status {s} with failing inputs {names:?}");
        }
        let t1: Value = d.report_json("out/tj")?;
        let p1: ParseOut = d.report_json("out/pj")?;

        // named in every report that shows input errors
        let t1_errors: Vec<String> = t1["trace"]["artefacts"]
            .as_object()
            .into_iter()
            .flatten()
            .flat_map(|(_, a)| a["errors"].as_array().cloned().unwrap_or_default())
            .map(|e| e.to_string())
            .collect();
        let p1_errors: Vec<String> = p1.errors.iter().map(Value::to_string).collect();
        let texts = [
            ("Markdown trace", d.report_str("out/tm")?),
            ("GnuError trace", d.report_str("out/tg")?),
            ("Markdown parse", d.report_str("out/pm")?),
        ];
        for alt in &names {
            let named = |e: &String| alt.iter().any(|n| e.contains(&serde_json::to_string(n).unwrap().trim_matches('"').to_owned()));
            ensure!(t1_errors.iter().any(named), "no error names {alt:?} in the Json trace: {t1_errors:?}");
            ensure!(p1_errors.iter().any(named), "no error names {alt:?} in the Json export: {p1_errors:?}");
            for (what, t) in &texts {
                ensure!(alt.iter().any(|n| t.contains(n.as_str())), "{what} report does not name {alt:?}");
            }
        }

        // everything else is the same
        for a in &p.arts {
            let (a0, a1) = (&t0["trace"]["artefacts"][&a.cfg.id], &t1["trace"]["artefacts"][&a.cfg.id]);
            ensure!(
                a0["requirements"] == a1["requirements"],
                "requirements of {:?} change from {} to {}",
                a.cfg.id,
                a0["requirements"],
                a1["requirements"]
            );
            let e1 = a1["errors"].as_array().cloned().unwrap_or_default();
            for e in a0["errors"].as_array().into_iter().flatten() {
                ensure!(e1.contains(e), "error {e} of {:?} is lost", a.cfg.id);
            }
            if a.cfg.id != "code" || !touched_rust {
                ensure!(a0 == a1, "{:?} changes from {a0} to {a1}", a.cfg.id);
            }
        }
        for (id, a) in t1["trace"]["artefacts"].as_object().into_iter().flatten() {
            if extra.contains(id) {
                ensure!(
                    a["requirements"].as_object().is_none_or(|r| r.is_empty()),
                    "requirements from failing input {id:?}: {a}"
                );
            } else if !p.arts.iter().any(|x| x.cfg.id == *id) {
                viol!("unknown artefact {id:?} in the report");
            }
        }
        for k in ["traced_relations"] {
            ensure!(t0["trace"][k] == t1["trace"][k], "{k} change from {} to {}", t0["trace"][k], t1["trace"][k]);
        }
        ensure!(
            t0["trace"]["errors"] == t1["trace"]["errors"],
            "tracing errors change from {} to {}",
            t0["trace"]["errors"],
            t1["trace"]["errors"]
        );
        ensure!(p0.requirements == p1.requirements, "the exported requirements change");
        for e in &p0.errors {
            ensure!(p1.errors.contains(e), "error {e} is lost in the export");
        }
        i.label("several failing inputs", case.failing.len() > 1);
        i.nontrivial = !p0.requirements.is_empty();
        Ok(i)
    }
}

// ---------------------------------------------------------------- C14

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Content {
    Bytes(Vec<u8>),
    /// numbers of tokens
    Soup(Vec<u8>),
    /// file of a project, changed at some places
    Mutated(Box<Proj>, u8, Vec<Edit>),
    /// tokens, repeated
    Many(Vec<u8>, u16),
    /// a JSON artefact with few different ids
    Reqs(Vec<Req>),
    /// lines: how they begin, pieces, how they end
    Lines(Vec<(u8, Vec<u8>, u8)>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Edit {
    kind: u8,
    at: u16,
    len: u8,
    tok: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CrashCase {
    /// (parser, content) per artefact; Rust artefacts have one file
    arts: Vec<(u8, Content)>,
    rwt: u8,
    ignore: u8,
    rels: Vec<(u8, u8)>,
}

const TOKENS: [&str; 111] = [
    "#", "##", "### ", "# ", " ", "\n", "\n\n", "\r\n", "\t", ":", ": ", "*", "*   ", "- ", "+ ", ",", "REQ_1", "REQ_1: Title",
    "# REQ_1: Title\n", "## REQ_2: Other\n", "Covers:", "Covers: REQ_1\n", "Depends:", "Depends: REQ_2, REQ_1\n", "Comment: x\n",
    "Description: x\n", "Tags: a\n", "\nCovers:\n*   REQ_1: Title\n", "=>", "=> REQ_1", "=> REQ_1: Title", "a", "text text", "ä", "中", "\u{301}", "\u{feff}",
    "\u{2028}", "\u{0}", "🍔", "\\", "\"", "'", "`", "```\n", "fn ", "fn f() {", "}", "{", "(", ")", "[", "]", "requirement_covered!", "requirement_covered!(REQ_1);",
    "requirement_covered!(REQ_1, \"Title\");", "requirement_covered!(\"REQ_1\")", "requirement_covered!()", "requirement_covered!(REQ_1,)", "mod m {", "mod m;",
    "impl A for B {", "impl<T> X<T> {", "trait T {", "let x = ", ";", "const C: u8 = ", "static S: () = ", "if x {", "match x {", "=>", "_ => ", "|x| ", "async ", "unsafe ",
    "#[cfg(test)]", "//", "/*", "*/", "/// doc\n", "r#\"", "\"#", "b\"x\"", "'a", "'a'", "1.0e5", "0x", "macro_rules! m {", "$x", "use a::{b, c};", "struct S;", "enum E { A }",
    "[{\"id\":\"A\"", "{\"version\":0,\"requirements\":[", "\"title\":null", "\"location\":{\"file\":\"f\",\"location_in_file\":null}", "null", "-1", "1e999", "where T: ",
    "c\"x\"", "cr#\"x\"#", "let Some(x) = y else {", "const {", "requirement_covered!{A}", "else", "(/*ERROR*/)",
    "Covers: [", "Depends: [REQ_1]\n", "Covers: (ä", "<!--",
];

const PARSERS: [&str; 4] = ["Markdown", "MonoRequirement", "Rust", "Json"];

fn soup(v: &[u8]) -> Vec<u8> {
    v.iter().map(|t| TOKENS[*t as usize % TOKENS.len()]).collect::<String>().into_bytes()
}

const STARTS: [&str; 24] = [
    "", "# REQ_1", "# REQ_1: ", "## REQ_2: ", "# ", "Covers:", "Covers: ", "Depends: ", "Covers:\n* ", "* REQ_1", "* ", "    - ", "Comment: ", "Tags: ", "=> ",
    "    => ", "REQ_3: ", "REQ_4 ", "/// ", "requirement_covered!(", "// ", "fn f() { requirement_covered!(REQ_1", "```", "> ",
];
const PIECES: [&str; 32] = [
    "ä", "中", "🍔", "\u{301}", "\u{a0}", "\u{2028}", "\u{feff}", "[", "]", "(", ")", "<", ">", "{", "}", "\"", "'", "`", "*", "_", ":", ",", ", ", ": ", "=>", "#", "-",
    "REQ_1", "x", " ", "\\", "!",
];
const ENDS: [&str; 12] = ["\n", "\n", "\n", "\n\n", "\r\n", " \n", ":\n", ",\n", ");\n", "); }\n", "#\n", ""];

impl Content {
    pub fn bytes(&self, parser: &str) -> Vec<u8> {
        match self {
            Content::Bytes(b) => b.clone(),
            Content::Soup(v) => soup(v),
            Content::Many(v, n) => soup(v).repeat(*n as usize),
            Content::Lines(v) => {
                let mut t = String::new();
                for (start, pieces, end) in v {
                    t.push_str(STARTS[*start as usize % STARTS.len()]);
                    t.extend(pieces.iter().map(|p| PIECES[*p as usize % PIECES.len()]));
                    t.push_str(ENDS[*end as usize % ENDS.len()]);
                }
                t.into_bytes()
            }
            Content::Reqs(v) => serde_json::to_vec(v).unwrap(),
            Content::Mutated(p, n, edits) => {
                let p = p.render();
                let fit: Vec<&Vec<u8>> = p
                    .arts
                    .iter()
                    .filter(|a| a.cfg.parser == parser)
                    .flat_map(|a| a.files.iter())
                    .filter_map(|f| p.files.iter().find(|x| x.0 == *f).map(|x| &x.1))
                    .collect();
                let mut b = match fit.len() {
                    0 => p.files[*n as usize % p.files.len()].1.clone(),
                    k => fit[*n as usize % k].clone(),
                };
                for e in edits {
                    let at = e.at as usize % (b.len() + 1);
                    let end = (at + e.len as usize).min(b.len());
                    match e.kind % 7 {
                        0 => {
                            b.drain(at..end);
                        }
                        1 => {
                            b.splice(at..at, TOKENS[e.tok as usize % TOKENS.len()].bytes());
                        }
                        2 => {
                            let part = b[at..end].to_vec();
                            b.splice(end..end, part);
                        }
                        3 => b.truncate(at),
                        4 => b.insert(at, e.tok),
                        5 if at < b.len() => b[at] ^= 1 << (e.tok % 8),
                        _ => {
                            // without a line
                            let s = b[..at].iter().rposition(|c| *c == b'\n').map_or(0, |x| x + 1);
                            let t = b[at..].iter().position(|c| *c == b'\n').map_or(b.len(), |x| at + x + 1);
                            b.drain(s..t);
                        }
                    }
                }
                b
            }
        }
    }
}

/// ids, titles, files from small sets: anything can meet anything
fn colliding_req() -> BoxedStrategy<Req> {
    let loc = |l: u8, f: u8| {
        let n = u64::from(l / 6);
        Loc {
            file: ["f", "", "g.md"][f as usize % 3].to_owned(),
            location_in_file: match l % 6 {
                0 | 1 => Some(LocIn::Line(n % 3)),
                2 => Some(LocIn::LineAndColumn(n % 2, n % 3)),
                3 => Some(LocIn::String(["", "p", "1"][n as usize % 3].to_owned())),
                4 => None,
                _ => Some(LocIn::Line(u64::MAX - n)),
            },
        }
    };
    // texts that are cut at any byte are cut within a character by some of these
    let long = |n: usize| format!("{}{}", &"xxxxxxx"[n % 7..], ["ä", "中", "🍔", "ää x"][n % 4].repeat([9, 20, 40, 70, 300][n % 5]));
    let id = move |n: u8| match n {
        0..=239 => ["A", "B", "C", "", "REQ_1", "ä"][n as usize % 6].to_owned(),
        _ => long(n as usize % 3),
    };
    let title = move |n: u8| match n % 8 {
        0 | 1 => None,
        6 | 7 => Some(long(n as usize / 4)),
        k => Some(["T", "", "\n", "T\u{301}"][k as usize - 2].to_owned()),
    };
    let refs = prop::collection::vec((any::<u8>(), any::<u8>(), any::<u8>()), 0..3);
    let texts = prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(any::<(u8, u8)>(), 1..4)];
    (any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), refs.clone(), refs, texts)
        .prop_map(move |(i, t, l, f, covers, depends, texts)| {
            let r = |v: Vec<(u8, u8, u8)>| {
                v.into_iter().map(|(i, t, l)| Ref { id: id(i), title: title(t), location: loc(l, i / 6) }).collect()
            };
            Req {
                id: id(i),
                title: title(t),
                location: loc(l, f),
                covers: r(covers),
                depends: r(depends),
                tags: texts.iter().map(|(a, _)| id(*a)).collect(),
                attributes: texts
                    .iter()
                    .map(|(a, b)| {
                        let name = ["Description", "Comment", "Covers", "Depends", "", "ä: b"][*a as usize % 6];
                        (name.to_owned(), title(*b).unwrap_or_default())
                    })
                    .collect(),
            }
        })
        .boxed()
}

pub fn content() -> BoxedStrategy<Content> {
    let edit = (any::<u8>(), any::<u16>(), prop_oneof![3 => 1u8..6, 1 => any::<u8>()], any::<u8>())
        .prop_map(|(kind, at, len, tok)| Edit { kind, at, len, tok });
    prop_oneof![
        1 => prop::collection::vec(any::<u8>(), 0..60).prop_map(Content::Bytes),
        4 => prop::collection::vec(any::<u8>(), 0..60).prop_map(Content::Soup),
        5 => (proj(ProjSize { bad: true, max: 1 }), any::<u8>(), prop::collection::vec(edit, 1..5))
            .prop_map(|(p, n, e)| Content::Mutated(Box::new(p), n, e)),
        1 => (prop::collection::vec(any::<u8>(), 1..10), prop_oneof![5 => 2u16..30, 1 => 30u16..400]).prop_map(|(v, n)| Content::Many(v, n)),
        3 => prop::collection::vec(colliding_req(), 0..6).prop_map(Content::Reqs),
        4 => prop::collection::vec((any::<u8>(), prop::collection::vec(any::<u8>(), 0..5), any::<u8>()), 1..14).prop_map(Content::Lines),
    ]
    .boxed()
}

pub struct Crash;

impl Prop for Crash {
    type Case = CrashCase;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "an artefact gives a requirement or an error"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 8_000,
            Tier::Thorough => 150_000,
        }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<CrashCase> {
        (
            prop::collection::vec((any::<u8>(), content()), 1..4),
            any::<u8>(),
            any::<u8>(),
            prop::collection::vec((any::<u8>(), any::<u8>()), 0..3),
        )
            .prop_map(|(arts, rwt, ignore, rels)| CrashCase { arts, rwt, ignore, rels })
            .boxed()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["Rust source is nested less than 100 levels deep", "files have less than 64 KiB"]
    }
    fn check(&self, case: &CrashCase, env: &Env) -> Res<Info> {
        let d = env.dir()?;
        let mut c = Cfg::default();
        for (n, (parser, content)) in case.arts.iter().enumerate() {
            let parser = match content {
                Content::Reqs(_) => "Json",
                // lines are never JSON
                Content::Lines(_) => ["Markdown", "MonoRequirement", "Rust", "Markdown"][*parser as usize % 4],
                _ => PARSERS[*parser as usize % 4],
            };
            let f = format!("f{n}.x");
            d.write(&f, content.bytes(parser))?;
            c.arts.push(CfgArt {
                rwt: [None, Some(true)][(case.rwt >> n) as usize & 1],
                ignore: [None, Some(false)][(case.ignore >> n) as usize & 1],
                ..CfgArt::new(&format!("a{n}"), parser, &f)
            });
        }
        let n = c.arts.len();
        for (u, m) in &case.rels {
            let u = *u as usize % n;
            // any pairs, also cycles
            let l = (0..n).filter(|l| (m >> l) & 1 == 1).map(|l| format!("a{l}")).collect();
            c.rels.push((format!("a{u}"), l));
        }
        let jobs = all_jobs(&mut c);
        c.write(&d)?;
        let mut args = vec!["-c", "config.toml"];
        args.extend(&jobs);
        let run = env.run(&d.0, &args)?;
        let s = run.ran()?;
        ensure!(!String::from_utf8_lossy(&run.stderr).contains("panicked"), "panic: {}", run.describe());
        let t: TraceOut = d.report_json("out/tj")?;
        let p: ParseOut = d.report_json("out/pj")?;
        ensure!(t.trace.artefacts.len() == n, "{} of {n} artefacts in the report", t.trace.artefacts.len());
        for (_, a) in &t.trace.artefacts {
            for id in a.requirements.keys() {
                ensure!(p.requirements.iter().any(|r| r.id == *id), "{id:?} is missing in the export");
            }
        }
        let errors: usize = t.trace.artefacts.values().map(|a| a.errors.len()).sum();
        ensure!(errors == p.errors.len(), "{errors} input errors in the trace, {} in the export", p.errors.len());
        // the other reports are complete: they end with what is written last
        let tm = d.report_str("out/tm")?;
        let tg = d.report_str("out/tg")?;
        let pm = d.report_str("out/pm")?;
        let pt = d.report_str("out/pt")?;
        for (what, r) in [("Markdown trace", &tm), ("GnuError", &tg), ("Markdown", &pm), ("Tags", &pt)] {
            ensure!(r.is_empty() || r.ends_with('\n'), "the {what} report ends in the middle of a line");
        }
        for r in &p.requirements {
            ensure!(tm.contains(&format!("### {}", r.id)), "{:?} is missing in the Markdown trace", r.id);
            ensure!(pm.contains(&format!("### {}", r.id)), "{:?} is missing in the Markdown export", r.id);
            if r.location.line_no().is_some() {
                ensure!(pt.contains(&format!("{}\t", r.id)), "{:?} is missing in the tags", r.id);
            }
        }
        let mut i = Info::new();
        for (parser, content) in &case.arts {
            i.label(["Markdown", "MonoRequirement", "Rust", "Json"][*parser as usize % 4], true);
            i.label("bytes", matches!(content, Content::Bytes(_)));
            i.label("token soup", matches!(content, Content::Soup(_)));
            i.label("mutated", matches!(content, Content::Mutated(..)));
            i.label("repeated tokens", matches!(content, Content::Many(..)));
            i.label("lines of pieces", matches!(content, Content::Lines(_)));
            i.label("JSON requirements that collide", matches!(content, Content::Reqs(_)));
        }
        i.label("status 1", s == 1);
        i.label("requirements and errors", errors > 0 && !p.requirements.is_empty());
        i.labels.sort_unstable();
        i.labels.dedup();
        i.nontrivial = errors > 0 || !p.requirements.is_empty();
        Ok(i)
    }
}

// ---------------------------------------------------------------- C15

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Utf8Case {
    proj: Proj,
    /// (file, position, what)
    bad: Vec<(u8, u32, u8)>,
    /// adds text in front so that the first bad bytes are at this offset
    pad: Option<u16>,
    /// files that begin with a byte order mark
    #[serde(default)]
    bom: u8,
}

const INVALID: [&[u8]; 12] = [
    b"\xff", b"\x80", b"\xe4\xb8", b"\xc0\x80", b"\xed\xa0\x80", b"\xf0\x9f\x8d", b"\xfe\xff", b"\xe4", b"\xc3", b"\xf4\x90\x80\x80",
    b"\xff\xff\xff", b"\xf0\x80",
];

pub struct Lossy;

impl Prop for Lossy {
    type Case = Utf8Case;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "a file that gives requirements or errors contains invalid UTF-8"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 4_000,
            Tier::Thorough => 50_000,
        }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Utf8Case> {
        (
            proj(ProjSize { bad: true, max: 1 }),
            prop::collection::vec((any::<u8>(), any::<u32>(), any::<u8>()), 1..5),
            prop_oneof![6 => Just(None), 1 => (8185u16..8195).prop_map(Some), 1 => (4090u16..4100).prop_map(Some), 1 => (16380u16..16388).prop_map(Some)],
            prop_oneof![2 => Just(0u8), 1 => any::<u8>()],
        )
            .prop_map(|(proj, bad, pad, bom)| Utf8Case { proj, bad, pad, bom })
            .boxed()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["which bytes form one invalid sequence is decided as in the Unicode standard (maximal subparts), as in Rust's String::from_utf8_lossy"]
    }
    fn check(&self, case: &Utf8Case, env: &Env) -> Res<Info> {
        let mut p = case.proj.render();
        let mut hit: BTreeSet<usize> = BTreeSet::new();
        for (k, (f, at, what)) in case.bad.iter().enumerate() {
            let n = p.files.len();
            let fi = *f as usize % n;
            let (name, b) = &mut p.files[fi];
            let mut at = *at as usize % (b.len() + 1);
            if let (0, Some(pad)) = (k, case.pad) {
                // text that changes nothing, up to the offset
                let pad = pad as usize;
                let filler: Vec<u8> = if name.ends_with(".rs") {
                    let s = if b.starts_with(b"#!") { None } else { Some(()) };
                    s.map(|_| format!("/* {} */", "ä".repeat(pad)).into_bytes()).unwrap_or_default()
                } else if name.ends_with(".json") {
                    vec![b' '; pad]
                } else {
                    let mut v = "ä–中\n".repeat(pad / 9 + 1).into_bytes();
                    v.extend(b"\n");
                    v
                };
                let old = b.len();
                b.splice(0..0, filler);
                at = if pad + 3 < b.len() { pad } else { at + b.len() - old };
            }
            let seq = INVALID[*what as usize % INVALID.len()];
            if what / 12 % 3 == 0 && at < b.len() {
                // instead of what is there
                let end = (at + seq.len()).min(b.len());
                b.splice(at..end, seq.iter().copied());
            } else {
                b.splice(at..at, seq.iter().copied());
            }
            hit.insert(fi);
        }
        let mut outs = vec![];
        for lossy in [false, true] {
            let d = env.dir()?;
            for (k, (f, b)) in p.files.iter().enumerate() {
                if lossy {
                    d.write(f, String::from_utf8_lossy(b).as_bytes())?;
                } else if case.bom >> (k % 8) & 1 == 1 {
                    d.write(f, [b"\xef\xbb\xbf", b.as_slice()].concat())?;
                } else {
                    d.write(f, b)?;
                }
            }
            let mut c = p.cfg();
            let jobs = all_jobs(&mut c);
            c.write(&d)?;
            let mut args = vec!["-c", "config.toml"];
            args.extend(&jobs);
            let s = env.run(&d.0, &args)?.ran()?;
            let mut o = vec![];
            for j in &jobs {
                o.push((*j, d.report_str(&format!("out/{j}"))?));
            }
            outs.push((s, o));
        }
        let invalid = p.files.iter().any(|f| std::str::from_utf8(&f.1).is_err());
        ensure!(outs[0].0 == outs[1].0, "exit status {} instead of {}", outs[0].0, outs[1].0);
        for (a, b) in outs[0].1.iter().zip(&outs[1].1) {
            if a.1 != b.1 {
                let diff = a.1.lines().zip(b.1.lines()).find(|(x, y)| x != y);
                viol!("report {} differs from the one for the replaced text: {diff:?}", a.0);
            }
        }
        let mut i = Info::new();
        for f in &hit {
            i.label(
                match p.files[*f].0.rsplit('.').next() {
                    Some("rs") => "Rust",
                    Some("json") => "Json",
                    _ if p.files[*f].0.starts_with("doc/") => "Markdown",
                    _ => "MonoRequirement",
                },
                true,
            );
        }
        i.labels.sort_unstable();
        i.labels.dedup();
        i.label("at a buffer boundary", case.pad.is_some());
        i.label("byte order mark", case.bom != 0);
        let something = outs[0].1.iter().any(|o| o.0 == "pj" && (o.1.contains("\"id\"") || o.1.contains("\"Format\"")));
        i.nontrivial = invalid && something;
        Ok(i)
    }
}
