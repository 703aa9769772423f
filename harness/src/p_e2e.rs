//! C25: the trace of projects whose artefacts have different formats
use crate::cfg::*;
use crate::core::*;
use crate::ensure;
use crate::graph::*;
use crate::model::*;
use crate::p_graph::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct MixCase {
    graph: GraphCase,
    /// format of each artefact and how it is written
    kinds: Vec<(u8, u8)>,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Kind {
    Json,
    Markdown,
    Mono,
    Rust,
}

pub struct Mixed;

/// what the Markdown and mono-requirement parsers take for an id
fn ident(s: &str) -> bool {
    s.len() > 1 && s.starts_with(|c: char| c.is_ascii_alphabetic()) && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}

pub fn strip_dot(v: &mut serde_json::Value) {
    match v {
        serde_json::Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                match x {
                    serde_json::Value::String(s) if k == "file" => {
                        if let Some(r) = s.strip_prefix("./") {
                            *s = r.to_owned();
                        }
                    }
                    x => strip_dot(x),
                }
            }
        }
        serde_json::Value::Array(a) => a.iter_mut().for_each(strip_dot),
        _ => {}
    }
}

/// writes the artefact and sets the places
fn markdown(a: &mut Art, file: &str, style: u8) -> String {
    let mut out: Vec<String> = vec!["# Document".into(), String::new()];
    for r in &mut a.reqs {
        r.location = Loc::line(file, out.len() as u64 + 1);
        out.push(format!("{} {}: {}", "#".repeat(style as usize % 4 + 1), r.id, r.title.as_ref().unwrap()));
        out.push(String::new());
        if let Some(t) = r.attributes.get("Description") {
            out.extend(t.lines().map(str::to_owned));
            out.push(String::new());
        }
        for (name, refs) in [("Covers", &mut r.covers), ("Depends", &mut r.depends)] {
            if refs.is_empty() {
                continue;
            }
            let (mut short, mut long): (Vec<Ref>, Vec<Ref>) =
                refs.drain(..).partition(|x| !ident(&x.id) || (style & 64 != 0 && x.title.is_none()));
            for x in &mut short {
                x.title = None;
                x.location = Loc::line(file, out.len() as u64 + 1);
            }
            let ids: Vec<&str> = short.iter().map(|x| x.id.as_str()).collect();
            out.push(format!("{name}: {}", ids.join(", ")));
            for x in &mut long {
                x.location = Loc::line(file, out.len() as u64 + 1);
                out.push(match &x.title {
                    Some(t) => format!("*   {}: {t}", x.id),
                    None => format!("*   {}", x.id),
                });
            }
            out.push(String::new());
            refs.extend(short);
            refs.extend(long);
        }
        if style & 16 != 0 {
            out.push("Comment: nothing to say".into());
            out.push(String::new());
        }
    }
    out.join("\n") + "\n"
}

fn mono(a: &mut Art, file: &str) -> String {
    let r = &mut a.reqs[0];
    r.location = Loc { file: file.into(), location_in_file: None };
    let mut out = vec![format!("# {}", r.title.as_ref().unwrap()), String::new()];
    for x in &mut r.depends {
        x.location = Loc::line(file, out.len() as u64 + 1);
        out.push(match &x.title {
            Some(t) => format!("needs => {}: {t}", x.id),
            None => format!("needs => {} and so on", x.id),
        });
    }
    out.join("\n") + "\n"
}

/// the function around a function: up to two
fn outer(style: u8, i: usize) -> Option<usize> {
    let files = style as usize % 3 + 1;
    (style & 4 != 0 && (i / files) % 3 != 0).then(|| i - files)
}

fn rust(a: &mut Art, dir: &str, style: u8) -> Vec<(String, String)> {
    let files = style as usize % 3 + 1;
    let mut texts: Vec<String> = vec![String::new(); files];
    let mut open: Vec<usize> = vec![0; files];
    for (i, r) in a.reqs.iter_mut().enumerate() {
        let file = format!("{dir}/f{}.rs", i % files);
        let t = &mut texts[i % files];
        let open = &mut open[i % files];
        let inside = outer(style, i).is_some();
        if !inside {
            for _ in 0..std::mem::take(open) {
                writeln!(t, "}}").unwrap();
            }
        }
        let name = match r.id.rsplit_once("::") {
            Some((_, f)) if inside => f,
            Some((m, f)) => {
                *open += 1;
                writeln!(t, "mod {m} {{").unwrap();
                f
            }
            None => &r.id,
        };
        let line = |t: &str| t.lines().count() as u64 + 1;
        let at = |t: &str, col| Loc { file: file.clone(), location_in_file: Some(LocIn::LineAndColumn(line(t), col)) };
        r.location = at(t, 3);
        writeln!(t, "fn {name}() {{").unwrap();
        for (k, x) in r.covers.iter_mut().enumerate() {
            x.location = at(t, 4);
            if !ident(&x.id) {
                x.title = None;
            }
            let id = if x.title.is_some() || (ident(&x.id) && k % 2 == 0) { x.id.clone() } else { format!("{:?}", x.id) };
            match &x.title {
                Some(title) => writeln!(t, "    requirement_covered!({id}, {title:?});"),
                None => writeln!(t, "    requirement_covered!({id});"),
            }
            .unwrap();
        }
        *open += 1;
    }
    for (t, n) in texts.iter_mut().zip(open) {
        for _ in 0..n {
            writeln!(t, "}}").unwrap();
        }
    }
    texts.into_iter().enumerate().map(|(i, t)| (format!("{dir}/f{i}.rs"), t)).collect()
}

impl Prop for Mixed {
    type Case = MixCase;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "something is covered along a relation of artefacts with different formats"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 10_000,
            Tier::Thorough => 120_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<MixCase> {
        (graph(tier), prop::collection::vec(any::<(u8, u8)>(), 8))
            .prop_map(|(graph, kinds)| MixCase { graph, kinds })
            .boxed()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "requirement ids are unique in the project",
            "ids and titles that all formats can express (the parsers have their own properties)",
        ]
    }
    fn check(&self, case: &MixCase, env: &Env) -> Res<Info> {
        let mut w = case.graph.world(Mode::Sane);
        let d = env.dir()?;
        let mut c = Cfg::default();
        let mut kinds = vec![];
        let mut renamed: BTreeMap<String, String> = BTreeMap::new();
        for (ai, a) in w.arts.iter_mut().enumerate() {
            let (k, style) = case.kinds[ai % case.kinds.len()];
            let kind = match k % 8 {
                0 => Kind::Json,
                1..=3 => Kind::Markdown,
                4 if !a.reqs.is_empty() => Kind::Mono,
                5..=7 => Kind::Rust,
                _ => Kind::Json,
            };
            match kind {
                Kind::Json => {}
                Kind::Markdown => {
                    for r in &mut a.reqs {
                        r.title.get_or_insert_with(|| "Some title".into());
                        r.attributes.remove("Comment");
                        r.tags.clear();
                    }
                }
                Kind::Mono => {
                    a.reqs.truncate(1);
                    let r = &mut a.reqs[0];
                    // this parser takes the title from the first to the last word character
                    let title = r.title.as_deref().unwrap_or("Some title").trim_matches(|c: char| !c.is_alphanumeric());
                    r.title = Some(title.to_owned());
                    r.covers.clear();
                    r.attributes.clear();
                    r.tags.clear();
                    r.depends.retain(|x| ident(&x.id));
                }
                Kind::Rust => {
                    a.reqs.retain(|r| !r.covers.is_empty());
                    for r in &mut a.reqs {
                        r.title = None;
                        r.depends.clear();
                        r.attributes.clear();
                        r.tags.clear();
                    }
                }
            }
            let mut ids: Vec<String> = vec![];
            for (ri, r) in a.reqs.iter_mut().enumerate() {
                let new = match kind {
                    Kind::Rust if outer(style, ri).is_some() => format!("{}::g{ri}", ids[outer(style, ri).unwrap()]),
                    Kind::Rust if style & 2 == 0 => format!("m{ai}::f{ri}"),
                    Kind::Rust => format!("item_{ai}_{ri}"),
                    Kind::Markdown if !ident(&r.id) => format!("MD_{ai}_{ri}"),
                    _ => r.id.clone(),
                };
                ids.push(new.clone());
                renamed.insert(std::mem::replace(&mut r.id, new.clone()), new);
            }
            kinds.push((kind, style));
        }
        for r in w.arts.iter_mut().flat_map(|a| &mut a.reqs) {
            for x in r.covers.iter_mut().chain(&mut r.depends) {
                if let Some(n) = renamed.get(&x.id) {
                    x.id.clone_from(n);
                }
            }
        }
        for (ai, a) in w.arts.iter_mut().enumerate() {
            let (kind, style) = kinds[ai];
            if kind == Kind::Mono {
                a.reqs[0].depends.retain(|x| ident(&x.id));
            }
            let (parser, path) = match kind {
                Kind::Json => {
                    let f = format!("a{ai}.json");
                    d.write(&f, serde_json::to_vec(&a.reqs).unwrap())?;
                    ("Json", f)
                }
                Kind::Markdown => {
                    let f = format!("doc/a{ai}.md");
                    let t = markdown(a, &f, style);
                    d.write(&f, t)?;
                    ("Markdown", f)
                }
                Kind::Mono => {
                    let f = format!("doc/{}.md", a.reqs[0].id);
                    let t = mono(a, &f);
                    d.write(&f, t)?;
                    ("MonoRequirement", f)
                }
                Kind::Rust => {
                    let dir = format!("src{ai}");
                    for (f, t) in rust(a, &dir, style) {
                        d.write(&f, t)?;
                    }
                    ("Rust", format!("{dir}/*.rs"))
                }
            };
            c.arts.push(CfgArt { ignore: a.ignore, rwt: a.rwt, ..CfgArt::new(&a.id, parser, &path) });
        }
        for r in 0..w.rels.len() {
            c.rels.push(w.rel_ids(r));
        }
        let m = w.model();
        c.job("t", "Trace", "Json", "out/t.json");
        c.write(&d)?;
        let status = env.run(&d.0, &["-c", "config.toml", "t"])?.ran()?;
        let mut v: serde_json::Value = d.report_json("out/t.json")?;
        strip_dot(&mut v);
        let t: TraceOut = match serde_json::from_value(v) {
            Ok(t) => t,
            Err(e) => crate::viol!("the report has not the documented form: {e}"),
        };
        check_no_other_errors(&w, &t)?;
        check_coverage(&w, &m, &t)?;
        check_uncovered(&w, &m, &t)?;
        check_derived(&m, &t)?;
        check_dangling(&m, &t)?;
        check_titles(&w, &m, &t)?;
        ensure!(status == i32::from(m.trace_findings()), "exit status {status}, findings: {}", m.trace_findings());
        let mut i = Info::new();
        let mut pairs: BTreeSet<(Kind, Kind)> = BTreeSet::new();
        let home: BTreeMap<&str, usize> =
            w.arts.iter().enumerate().flat_map(|(ai, a)| a.reqs.iter().map(move |r| (r.id.as_str(), ai))).collect();
        for x in m.covered.iter().flatten() {
            pairs.insert((kinds[home[x.upper.as_str()]].0, kinds[home[x.lower.as_str()]].0));
        }
        for (k, upper, lower) in [
            (Kind::Json, "Json is covered", "Json covers"),
            (Kind::Markdown, "Markdown is covered", "Markdown covers"),
            (Kind::Mono, "MonoRequirement is covered", "MonoRequirement covers"),
            (Kind::Rust, "Rust is covered", "Rust covers"),
        ] {
            i.label(upper, pairs.iter().any(|p| p.0 == k));
            i.label(lower, pairs.iter().any(|p| p.1 == k));
        }
        i.nontrivial = pairs.iter().any(|(u, l)| u != l);
        Ok(i)
    }
}
