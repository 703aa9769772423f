//! C18: findings in the text reports; C19: the traceability matrix
use crate::cfg::*;
use crate::core::*;
use crate::graph::*;
use crate::md::{small_doc, Doc};
use crate::model::*;
use crate::p_parse::{attributes, link_text, solid};
use crate::proj::*;
use crate::rs::*;
use crate::{ensure, viol};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// `id` stands in `text`, not as a part of a longer id
fn has_id(text: &str, id: &str) -> bool {
    let word = |c: char| c.is_alphanumeric() || c == '_';
    text.match_indices(id).any(|(i, _)| {
        !text[..i].chars().next_back().is_some_and(word) && !text[i + id.len()..].chars().next().is_some_and(word)
    })
}

/// the location, not followed by more digits
fn has_loc(text: &str, shown: &str) -> bool {
    text.match_indices(shown).any(|(i, _)| {
        !text[..i].chars().next_back().is_some_and(|c| c.is_alphanumeric())
            && !text[i + shown.len()..].chars().next().is_some_and(|c| c.is_ascii_digit())
    })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ReportCase {
    graph: GraphCase,
    /// define a requirement again: (requirement, artefact)
    dup: Option<(u16, u8)>,
    md: Option<Doc>,
    rs: Option<RFile>,
    missing: bool,
    no_path: bool,
}

/// one thing that must be in a report
#[derive(Debug, Clone)]
struct Finding {
    /// one of these locations, as `file:line`
    locs: Vec<Loc>,
    /// all of these
    ids: Vec<String>,
    /// text that must be shown
    text: Vec<String>,
    /// what the Markdown report need not show
    md_loc: bool,
    gnu_loc: bool,
    /// the Markdown report also names these
    md_ids: Vec<String>,
    /// a note in the GnuError report leads to one of these
    note: Vec<Loc>,
    /// for a wrong title: the title that is used and the actual one
    titles: Option<(String, Option<String>)>,
    /// one entry can stand for this and another one
    alike: bool,
    what: &'static str,
}

impl Finding {
    fn new(what: &'static str, locs: Vec<Loc>, ids: &[&str]) -> Self {
        Finding { what, locs, ids: ids.iter().map(|s| (*s).to_owned()).collect(), text: vec![], md_loc: true, gnu_loc: true, md_ids: vec![], note: vec![], titles: None, alike: false }
    }
}

pub struct Reports;

fn of_error(e: &Want) -> Finding {
    match e {
        Want::E(E::Format(l)) => Finding::new("format", vec![l.clone()], &[]),
        Want::E(E::DupAttr { loc, attr, req }) => Finding::new("attribute", vec![loc.clone()], &[attr, req]),
        Want::E(E::DupReq { id, locs }) => {
            let locs: Vec<Loc> = locs.iter().cloned().collect();
            Finding { note: locs.clone(), ..Finding::new("duplicate", locs, &[id]) }
        }
        Want::E(e) => Finding { text: vec![format!("{e:?}")], ..Finding::new("other", vec![], &[]) },
        Want::Mark(f, l, lo, hi) => Finding::new(
            "mark",
            (*lo..*hi).map(|c| Loc { file: f.clone(), location_in_file: Some(LocIn::LineAndColumn(*l, c)) }).collect(),
            &[],
        ),
        Want::File(f) => Finding { text: vec![f.clone()], ..Finding::new("file", vec![], &[]) },
    }
}

/// findings of the tracer except uncovered and derived
fn tracing(w: &World, m: &Model) -> Vec<Finding> {
    let mut v = vec![];
    for ((r, id), locs) in &m.bad_covers {
        v.push(Finding::new("covers unknown", locs.clone(), &[r, id]));
    }
    for ((r, id), locs) in &m.bad_depends {
        v.push(Finding::new("depends on unknown", locs.clone(), &[r, id]));
    }
    for e in &m.titles {
        match e {
            E::WrongCover { upper, lower, title, loc } | E::WrongDepend { upper, lower, title, loc } => {
                let cover = matches!(e, E::WrongCover { .. });
                let about = if cover { upper } else { lower };
                let r = w.arts.iter().flat_map(|a| &a.reqs).find(|r| r.id == *about).unwrap();
                v.push(Finding {
                    text: std::iter::once(title.clone()).chain(r.title.clone()).collect(),
                    md_ids: vec![upper.clone(), lower.clone()],
                    note: vec![r.location.clone()],
                    titles: Some((title.clone(), r.title.clone())),
                    ..Finding::new(if cover { "covered with wrong title" } else { "depended with wrong title" }, vec![loc.clone()], &[about])
                })
            }
            E::NoTitleRef { referenced, loc } => {
                let r = w.arts.iter().flat_map(|a| &a.reqs).find(|r| r.id == *referenced).unwrap();
                v.push(Finding {
                    text: r.title.iter().cloned().collect(),
                    ..Finding::new("without title", vec![loc.clone()], &[referenced])
                })
            }
            _ => {}
        }
    }
    let rels: BTreeSet<(String, Vec<String>)> = m.unused.iter().map(|r| w.rel_ids(*r)).collect();
    let shown = |r: &(String, Vec<String>)| format!("{} => [{}]", r.0, r.1.join(", "));
    for rel in &rels {
        let (u, l) = rel;
        // those that are shown alike need not be shown twice
        let alike = rels.iter().filter(|x| shown(x) == shown(rel)).count() > 1;
        let ids: Vec<&str> = std::iter::once(u.as_str()).chain(l.iter().map(String::as_str)).collect();
        v.push(Finding { md_loc: false, gnu_loc: false, alike, ..Finding::new("unused relation", vec![], &ids) });
    }
    v
}

impl Finding {
    /// the words that tell this kind of finding from others about the same requirements
    fn words(&self) -> &'static [&'static str] {
        match self.what {
            "covers unknown" => &["covers", "unknown"],
            "depends on unknown" => &["depends", "unknown"],
            "covered with wrong title" => &["covered", "wrong title"],
            "depended with wrong title" => &["depended", "wrong title"],
            _ => &[],
        }
    }
    fn worded(&self, t: &str) -> bool {
        let t = t.to_lowercase();
        self.words().iter().all(|w| t.contains(w))
    }
    /// the used and the actual title are not mixed up
    fn titled_gnu(&self, t: &str) -> bool {
        let Some((used, actual)) = &self.titles else { return true };
        if !t.contains("Expected ") || !t.contains("actual ") {
            return true;
        }
        t.contains(&format!("actual {used:?}")) && actual.as_ref().is_none_or(|a| t.contains(&format!("Expected {a:?}")))
    }
    fn titled_md(&self, item: &str) -> bool {
        let Some((used, actual)) = &self.titles else { return true };
        let lines: Vec<&str> = item.lines().collect();
        let below = |label: &str| lines.iter().position(|l| l.trim_start_matches(['*', ' ']).starts_with(label)).and_then(|i| lines.get(i + 1));
        below("Title used").is_none_or(|l| l.contains(&format!("`{used}`")))
            && below("Title of").is_none_or(|l| actual.as_ref().is_none_or(|a| l.contains(&format!("`{a}`"))))
    }
    fn ids_in(&self, t: &str) -> bool {
        self.ids.iter().all(|i| has_id(t, i)) && self.text.iter().all(|x| t.contains(x.as_str()))
    }
    /// a line of the GnuError report and the note that follows it
    fn gnu(&self, line: &str, note: Option<&str>) -> bool {
        let starts = |line: &str, l: &Loc| line.starts_with(&format!("{}:", l.show())) || line.starts_with(&format!("./{}:", l.show()));
        match note {
            None if self.note.is_empty() => {}
            Some(n) if self.note.iter().any(|l| starts(n, l)) => {
                if self.what == "duplicate" && self.note.iter().any(|l| starts(n, l) && starts(line, l)) {
                    return false;
                }
            }
            _ => return false,
        }
        let rest = if self.locs.is_empty() || !self.gnu_loc {
            Some(line)
        } else {
            self.locs.iter().find_map(|l| {
                let p = l.show();
                line.strip_prefix(&format!("{p}:")).or_else(|| line.strip_prefix(&format!("./{p}:")))
            })
        };
        rest.is_some_and(|r| self.ids_in(r) && self.worded(r) && self.titled_gnu(r))
    }
    /// an item of the Markdown report
    fn md(&self, item: &str) -> bool {
        let loc = self.locs.is_empty()
            || !self.md_loc
            || if self.what == "duplicate" {
                self.locs.iter().all(|l| link_text(l).iter().all(|s| has_loc(item, s)))
            } else {
                self.locs.iter().any(|l| link_text(l).iter().all(|s| has_loc(item, s)))
            };
        loc && self.ids_in(item) && self.worded(item) && self.titled_md(item) && self.md_ids.iter().all(|i| has_id(item, i))
    }
}

/// entries of a report and the findings they can stand for
struct Matcher {
    what: &'static str,
    entries: Vec<(String, Vec<usize>)>,
}

impl Matcher {
    fn new(what: &'static str) -> Self {
        Matcher { what, entries: vec![] }
    }
    fn entry(&mut self, findings: &[Finding], entry: &str, f: impl Fn(&Finding) -> bool) -> Res<()> {
        let can: Vec<usize> = (0..findings.len()).filter(|i| f(&findings[*i])).collect();
        ensure!(!can.is_empty(), "{}: {entry:?} is no finding of the project", self.what);
        self.entries.push((entry.to_owned(), can));
        Ok(())
    }
    /// every finding has an entry of its own
    fn done(&self, findings: &[Finding]) -> Res<()> {
        let mut of_entry: Vec<Option<usize>> = vec![None; self.entries.len()];
        for (i, f) in findings.iter().enumerate() {
            if f.alike && self.entries.iter().any(|e| e.1.contains(&i)) {
                continue;
            }
            let mut tried = vec![false; self.entries.len()];
            ensure!(self.place(i, &mut of_entry, &mut tried), "{}: not reported: {f:?}", self.what);
        }
        Ok(())
    }
    fn place(&self, f: usize, of_entry: &mut [Option<usize>], tried: &mut [bool]) -> bool {
        for e in 0..self.entries.len() {
            if tried[e] || !self.entries[e].1.contains(&f) {
                continue;
            }
            tried[e] = true;
            if of_entry[e].is_none_or(|g| self.place(g, of_entry, tried)) {
                of_entry[e] = Some(f);
                return true;
            }
        }
        false
    }
}

impl Prop for Reports {
    type Case = ReportCase;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "the project has findings of at least two of: input errors, tracing errors, uncovered, derived"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 6_000,
            Tier::Thorough => 80_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<ReportCase> {
        (
            graph(tier),
            prop::option::weighted(0.3, any::<(u16, u8)>()),
            prop::option::weighted(0.4, small_doc(true)),
            prop::option::weighted(0.3, rfile(2, true)),
            prop::bool::weighted(0.2),
            prop::bool::weighted(0.2),
        )
            .prop_map(|(graph, dup, md, rs, missing, no_path)| ReportCase { graph, dup, md, rs, missing, no_path })
            .boxed()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "ids, titles and file names have one line and can be told apart in text",
            "relations are distinct",
            "a finding about several references of one requirement to one id is shown with one of their locations",
        ]
    }
    fn check(&self, case: &ReportCase, env: &Env) -> Res<Info> {
        let mut g = case.graph.clone();
        let mut w = distinct(&mut g);
        let m = w.model();
        let d = env.dir()?;
        let mut input: BTreeMap<String, Vec<Finding>> = BTreeMap::new();
        for (a, ids) in &m.untitled {
            let art = w.arts.iter().find(|x| x.id == *a).unwrap();
            for r in art.reqs.iter().filter(|r| ids.contains(&r.id)) {
                input
                    .entry(a.clone())
                    .or_default()
                    .push(Finding { md_loc: false, ..Finding::new("no title", vec![r.location.clone()], &[&r.id]) });
            }
        }
        let trace = &mut tracing(&w, &m);
        // a second definition at the end of the artefact changes nothing else
        if let Some((r, _)) = case.dup {
            let homes: Vec<(usize, usize)> =
                w.arts.iter().enumerate().flat_map(|(i, a)| (0..a.reqs.len()).map(move |k| (i, k))).collect();
            if !homes.is_empty() {
                let (a, k) = homes[r as usize % homes.len()];
                let mut copy = w.arts[a].reqs[k].clone();
                copy.location = Loc::line("in/again.x", 99_999);
                let first = w.arts[a].reqs[k].location.clone();
                input.entry(w.arts[a].id.clone()).or_default().push(Finding {
                    note: vec![first.clone()],
                    ..Finding::new("duplicate", vec![first, copy.location.clone()], &[&copy.id])
                });
                w.arts[a].reqs.push(copy);
            }
        }
        write_arts(&w, &d)?;
        let mut c = world_cfg(&w);
        let mut other = Proj { md: vec![], mono: vec![], rs: vec![], json: vec![], rels: vec![], dups: vec![], shared: vec![] };
        other.md.extend(case.md.clone());
        other.rs.extend(case.rs.clone());
        let mut other = other.render();
        // nothing of them is known elsewhere
        let mut known: BTreeSet<String> = BTreeSet::new();
        for r in w.arts.iter().flat_map(|a| &a.reqs) {
            known.insert(r.id.clone());
            known.extend(r.covers.iter().chain(&r.depends).map(|x| x.id.clone()));
        }
        let own: BTreeSet<String> = other.arts.iter().flat_map(|a| &a.reqs).map(|r| r.id.clone()).collect();
        let clash = other.arts.iter().flat_map(|a| &a.reqs).any(|r| {
            known.contains(&r.id) || r.covers.iter().chain(&r.depends).any(|x| known.contains(&x.id) || own.contains(&x.id))
        });
        if clash {
            other = Project::default();
        }
        other.write(&d)?;
        for a in &other.arts {
            let mut cfg = a.cfg.clone();
            cfg.id = format!("other {}", cfg.id);
            if !a.errors.is_empty() {
                input.entry(cfg.id.clone()).or_default().extend(a.errors.iter().map(of_error));
            }
            c.arts.push(cfg);
        }
        if case.missing {
            c.arts.push(CfgArt::new("gone", "Markdown", "not/there.md"));
            let mut f = Finding::new("missing file", vec![Loc { file: "not/there.md".into(), location_in_file: None }], &[]);
            f.md_loc = true;
            input.entry("gone".into()).or_default().push(f);
        }
        if case.no_path {
            let mut a = CfgArt::new("pathless", "Rust", "");
            a.paths.clear();
            c.arts.push(a);
            input.entry("pathless".into()).or_default().push(Finding {
                md_loc: false,
                gnu_loc: false,
                ..Finding::new("no path", vec![], &["pathless"])
            });
        }
        all_jobs(&mut c);
        c.write(&d)?;
        env.run(&d.0, &["-c", "config.toml", "tg", "tm"])?.ran()?;

        // references of the other artefacts: all unknown
        for a in &other.arts {
            for r in a.reqs.iter().filter(|r| !a.vague.contains(&r.id)) {
                for (refs, what) in [(&r.covers, "covers unknown"), (&r.depends, "depends on unknown")] {
                    let mut by: BTreeMap<&str, Vec<Loc>> = BTreeMap::new();
                    for x in refs.iter() {
                        by.entry(&x.id).or_default().push(x.location.clone());
                    }
                    for (id, locs) in by {
                        // item paths may contain white space
                        let ids: Vec<&str> = if a.cfg.parser == "Rust" { vec![id] } else { vec![&r.id, id] };
                        trace.push(Finding::new(what, locs, &ids));
                    }
                }
            }
        }
        let vague: BTreeSet<&String> = other.arts.iter().flat_map(|a| &a.vague).collect();
        let skip = |line: &str| {
            // what is left without the path and the words of the report
            let mut rest = line.replace("doc/d0.md", "");
            for words in ["epends on unknown ", "overs unknown ", "equirement "] {
                rest = rest.replace(words, "");
            }
            line.contains("doc/d0.md") && vague.iter().any(|v| has_id(&rest, v))
        };

        // ---------------- GnuError
        let text = d.report_str("out/tg")?;
        let mut section = String::new();
        let mut sub = String::new();
        let rel_name = |i: usize| {
            let (u, l) = w.rel_ids(i);
            format!("{u} => [{}]", l.join(", "))
        };
        let locs: BTreeMap<&str, &Loc> = {
            let mut x = BTreeMap::new();
            for r in w.arts.iter().flat_map(|a| &a.reqs) {
                x.entry(r.id.as_str()).or_insert(&r.location);
            }
            x
        };
        let mut gi = Matcher::new("GnuError report, input errors");
        let mut gt = Matcher::new("GnuError report, tracing errors");
        let all_input: Vec<Finding> = input.values().flatten().cloned().collect();
        let mut unc: Vec<(String, String)> = vec![];
        let mut der: Vec<(String, String)> = vec![];
        let simple = |line: &str, locs: &BTreeMap<&str, &Loc>| -> Option<String> {
            locs.iter().find_map(|(id, l)| {
                let rest = line.strip_prefix(&format!("{}: ", l.show()))?;
                has_id(rest, id).then(|| (*id).to_owned())
            })
        };
        let lines: Vec<&str> = text.lines().collect();
        for (at, line) in lines.iter().copied().enumerate() {
            let note = lines.get(at + 1).copied().filter(|n| n.contains(": note: "));
            let title = line.trim_start_matches('#').trim();
            match title {
                "Parsing Errors" | "Tracing Errors" | "Uncovered Requirement" | "Derived Requirement" => {
                    section = title.to_owned();
                    sub.clear();
                    continue;
                }
                _ => {}
            }
            if let Some(s) = line.strip_prefix("## ") {
                sub = s.to_owned();
                continue;
            }
            if line.contains(": note: ") {
                continue;
            }
            match section.as_str() {
                "Parsing Errors" => gi.entry(&all_input, line, |f| f.gnu(line, note))?,
                "Tracing Errors" if skip(line) => {}
                "Tracing Errors" => gt.entry(trace, line, |f| f.gnu(line, note))?,
                "Uncovered Requirement" => match simple(line, &locs) {
                    Some(id) => unc.push((sub.clone(), id)),
                    None => viol!("GnuError report, uncovered: {line:?} does not start with the location of a requirement"),
                },
                "Derived Requirement" => match simple(line, &locs) {
                    Some(id) => der.push((sub.clone(), id)),
                    None => viol!("GnuError report, derived: {line:?} does not start with the location of a requirement"),
                },
                _ => viol!("GnuError report: {line:?} is outside of the sections"),
            }
        }
        gi.done(&all_input)?;
        gt.done(trace)?;
        let want_unc: Vec<(String, String)> =
            (0..w.rels.len()).flat_map(|i| m.uncovered[i].iter().map(move |r| (i, r))).map(|(i, r)| (rel_name(i), r.clone())).collect();
        let want_der: Vec<(String, String)> =
            m.derived.iter().flat_map(|(a, d)| d.iter().map(move |r| (a.clone(), r.clone()))).collect();
        for (what, want, got) in [("uncovered", &want_unc, &unc), ("derived", &want_der, &der)] {
            if let Some(x) = crate::p_graph::first_diff(want, got) {
                viol!("GnuError report, {what}: {x}");
            }
        }

        // ---------------- Markdown
        let text = d.report_str("out/tm")?;
        let mut items: Vec<(String, String, String)> = vec![];
        let (mut section, mut sub) = (String::new(), String::new());
        for line in text.lines() {
            if let Some(s) = line.strip_prefix("# ") {
                section = s.to_owned();
                sub.clear();
                if section == "Requirements" {
                    break;
                }
            } else if let Some(s) = line.strip_prefix("## ") {
                sub = s.to_owned();
            } else if line.starts_with("*   ") {
                items.push((section.clone(), sub.clone(), line.to_owned()));
            } else if !line.trim().is_empty() {
                match items.last_mut() {
                    Some(i) if i.0 == section && i.1 == sub => {
                        i.2.push('\n');
                        i.2.push_str(line);
                    }
                    _ => viol!("Markdown report: {line:?} belongs to nothing"),
                }
            }
        }
        ensure!(section == "Requirements", "Markdown report has no list of requirements");
        unc.clear();
        der.clear();
        let mut mi: BTreeMap<String, Matcher> = BTreeMap::new();
        let mut mt = Matcher::new("Markdown report, tracing errors");
        let linked = |item: &str| -> Option<String> {
            let s = item.strip_prefix("*   [")?;
            Some(s[..s.find("](")?].to_owned())
        };
        for (section, sub, item) in &items {
            match section.as_str() {
                "Input Errors" => match input.get(sub) {
                    Some(f) => mi.entry(sub.clone()).or_insert(Matcher::new("Markdown report, input errors")).entry(f, item, |f| f.md(item))?,
                    None => viol!("Markdown report: input error of {sub:?}: {item:?}"),
                },
                "Tracing Errors" if skip(item) => {}
                "Tracing Errors" => mt.entry(trace, item, |f| f.md(item))?,
                "Uncovered Requirements" | "Derived Requirements" => {
                    let Some(id) = linked(item) else { viol!("Markdown report: no requirement in {item:?}") };
                    if section.starts_with('U') { &mut unc } else { &mut der }.push((sub.clone(), id));
                }
                s => viol!("Markdown report: unknown section {s:?}"),
            }
        }
        for (a, f) in &input {
            mi.entry(a.clone()).or_insert(Matcher::new("Markdown report, input errors")).done(f)?;
        }
        mt.done(trace)?;
        for (what, want, got) in [("uncovered", &want_unc, &unc), ("derived", &want_der, &der)] {
            if let Some(x) = crate::p_graph::first_diff(want, got) {
                viol!("Markdown report, {what}: {x}");
            }
        }

        let mut i = Info::new();
        let kinds = [!all_input.is_empty(), !trace.is_empty(), !want_unc.is_empty(), !want_der.is_empty()];
        for (l, on) in ["input errors", "tracing errors", "uncovered", "derived"].iter().zip(kinds) {
            i.label(l, on);
        }
        for f in all_input.iter().chain(trace.iter()) {
            i.label(f.what, true);
        }
        i.label("nothing found", kinds.iter().all(|k| !k));
        i.labels.sort_unstable();
        i.labels.dedup();
        i.nontrivial = kinds.iter().filter(|k| **k).count() > 1;
        Ok(i)
    }
}

/// the world of the graph, every relation once
pub fn distinct(g: &mut GraphCase) -> World {
    let mut w = g.world(Mode::Sane);
    let mut seen = BTreeSet::new();
    w.rels.retain(|r| seen.insert(r.clone()));
    w
}

// ---------------------------------------------------------------- C19

pub struct Matrix;

/// anchor of a heading, as GitHub makes it (for ASCII)
fn slug(heading: &str) -> String {
    heading
        .to_lowercase()
        .chars()
        .filter(|c| c.is_ascii_alphanumeric() || matches!(c, '_' | '-' | ' '))
        .map(|c| if c == ' ' { '-' } else { c })
        .collect()
}

/// what is shown below one relation
#[derive(Debug, Default, Clone)]
struct Along {
    relation: String,
    /// requirement and place of the reference
    coverage: Vec<(String, String)>,
    uncovered: bool,
}

#[derive(Debug, Default, Clone)]
struct Section {
    art: String,
    heading: String,
    origin: String,
    text: Vec<String>,
    up: Vec<Along>,
    derived: bool,
    down: Vec<Along>,
}

impl Prop for Matrix {
    type Case = GraphCase;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "some requirement is covered along a relation and some is not"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 10_000,
            Tier::Thorough => 120_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<GraphCase> {
        graph(tier)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "requirement ids are unique in the project; ids and titles are ASCII and have one line",
            "relations are distinct and list every lower artefact once",
            "anchors are formed as on GitHub",
        ]
    }
    fn check(&self, case: &GraphCase, env: &Env) -> Res<Info> {
        let mut g = case.clone();
        let w = distinct(&mut g);
        let m = w.model();
        let d = env.dir()?;
        write_arts(&w, &d)?;
        let mut c = world_cfg(&w);
        all_jobs(&mut c);
        c.write(&d)?;
        env.run(&d.0, &["-c", "config.toml", "tm"])?.ran()?;
        let text = d.report_str("out/tm")?;

        let mut sections: Vec<Section> = vec![];
        let mut art = String::new();
        let mut arts = vec![];
        let mut started = false;
        let mut mode = 0;
        for line in text.lines() {
            let line = line.trim_end();
            if !started {
                started = line == "# Requirements";
                continue;
            }
            if line.is_empty() {
                continue;
            }
            if let Some(h) = line.strip_prefix("### ") {
                sections.push(Section { art: art.clone(), heading: h.to_owned(), ..Section::default() });
                mode = 0;
                continue;
            }
            if let Some(a) = line.strip_prefix("## ") {
                art = a.to_owned();
                arts.push(art.clone());
                continue;
            }
            let Some(s) = sections.last_mut() else { viol!("{line:?} belongs to no requirement") };
            if let Some(o) = line.strip_prefix("Origin: ") {
                s.origin = o.to_owned();
                mode = 1;
                continue;
            }
            match line {
                "Upwards Tracing:" => {
                    mode = 2;
                    continue;
                }
                "Downwards Tracing:" => {
                    mode = 3;
                    continue;
                }
                _ => {}
            }
            match mode {
                1 => s.text.push(line.to_owned()),
                2 | 3 => {
                    let list = if mode == 2 { &mut s.up } else { &mut s.down };
                    if let Some(r) = line.strip_prefix("*   ") {
                        list.push(Along { relation: r.to_owned(), ..Along::default() });
                    } else if let Some(x) = line.trim_start().strip_prefix("*   ").map(str::trim) {
                        if x == "Derived" && mode == 2 {
                            s.derived = true;
                        } else if x == "UNCOVERED" && mode == 3 {
                            match list.last_mut() {
                                Some(l) => l.uncovered = true,
                                None => viol!("UNCOVERED outside of a relation in {:?}", s.heading),
                            }
                        } else {
                            match (list.last_mut(), x.strip_prefix('[').and_then(|x| x.split_once("](#"))) {
                                (Some(l), Some((id, _))) => l.coverage.push((id.to_owned(), String::new())),
                                _ => viol!("{line:?} in {:?} is no coverage", s.heading),
                            }
                        }
                    } else if let Some(x) = line.trim_start().strip_prefix("Reference: ") {
                        match list.last_mut().and_then(|l| l.coverage.last_mut()) {
                            Some(c) if c.1.is_empty() => c.1 = x.to_owned(),
                            _ => viol!("{line:?} in {:?} without a requirement", s.heading),
                        }
                    } else {
                        viol!("{line:?} in {:?}", s.heading);
                    }
                }
                _ => viol!("{line:?} in {:?}", s.heading),
            }
        }
        let mut want_arts: Vec<String> = w.arts.iter().map(|a| a.id.clone()).collect();
        want_arts.sort();
        arts.sort();
        ensure!(arts == want_arts, "artefacts {arts:?}, expected {want_arts:?}");
        let n: usize = w.arts.iter().map(|a| a.reqs.len()).sum();
        ensure!(sections.len() == n, "{} sections for {n} requirements", sections.len());

        let heading = |r: &Req| match &r.title {
            Some(t) => format!("{}: {t}", r.id),
            None => r.id.clone(),
        };
        let shows = |text: &str, l: &Loc| {
            let t = text.strip_prefix('[').unwrap_or_default();
            match &l.location_in_file {
                Some(LocIn::String(s)) => t.starts_with(&format!("{}](", l.file)) && t.ends_with(s.as_str()),
                _ => t.starts_with(&format!("{}](", l.show())),
            }
        };
        for (ai, a) in w.arts.iter().enumerate() {
            for r in &a.reqs {
                let mut mine = sections.iter().filter(|s| s.art == a.id && s.heading.trim_end() == heading(r).trim_end());
                let Some(s) = mine.next() else { viol!("no section {:?} below {:?}", heading(r), a.id) };
                ensure!(mine.next().is_none(), "two sections {:?}", heading(r));
                let origin = s.origin.strip_prefix(&format!("{}, ", a.id)).unwrap_or_default();
                ensure!(shows(origin, &r.location), "origin of {:?} is {:?}, expected {:?} {:?}", r.id, s.origin, a.id, r.location);
                let mut text = r.attributes.get("Description").map(|d| solid(d)).unwrap_or_default();
                text.extend(attributes(r));
                ensure!(s.text == text, "text of {:?} is {:?}, expected {text:?}", r.id, s.text);
                for (up, list) in [(true, &s.up), (false, &s.down)] {
                    let what = if up { "upwards" } else { "downwards" };
                    let mut left: Vec<&Along> = list.iter().collect();
                    let mut any = false;
                    for (ri, rel) in w.rels.iter().enumerate() {
                        if if up { !rel.1.contains(&ai) } else { rel.0 != ai } {
                            continue;
                        }
                        let (u, l) = w.rel_ids(ri);
                        let name = format!("{u} => [{}]", l.join(", "));
                        let want: Vec<(&str, &Loc)> = m.covered[ri]
                            .iter()
                            .filter(|c| if up { c.lower == r.id } else { c.upper == r.id })
                            .map(|c| (if up { c.upper.as_str() } else { c.lower.as_str() }, &c.loc))
                            .collect();
                        any |= !want.is_empty();
                        let differs = |got: &Along| -> Option<String> {
                            let mut want = want.clone();
                            if !up && got.uncovered != want.is_empty() {
                                return Some(format!("shown as {}covered", if got.uncovered { "un" } else { "" }));
                            }
                            for (id, loc) in &got.coverage {
                                match want.iter().position(|x| x.0 == id && shows(loc, x.1)) {
                                    Some(k) => {
                                        want.remove(k);
                                    }
                                    None => return Some(format!("{id:?} at {loc:?} is no coverage")),
                                }
                            }
                            (!want.is_empty()).then(|| format!("missing {want:?}"))
                        };
                        // relations can have the same name
                        let same: Vec<usize> = (0..left.len()).filter(|k| left[*k].relation == name).collect();
                        match same.iter().find(|k| differs(left[**k]).is_none()) {
                            Some(k) => {
                                left.remove(*k);
                            }
                            None => viol!(
                                "{:?} {what} along {name:?}: {}",
                                r.id,
                                same.first().and_then(|k| differs(left[*k])).unwrap_or("the relation is missing".into())
                            ),
                        }
                    }
                    ensure!(left.is_empty(), "{:?} {what}: {left:?} belongs to no relation of the artefact", r.id);
                    if up {
                        ensure!(s.derived != any, "{:?} is shown as {}", r.id, if any { "derived" } else { "not derived" });
                    }
                }
            }
        }

        // links
        let by_id: BTreeMap<&str, String> =
            w.arts.iter().flat_map(|a| &a.reqs).map(|r| (r.id.as_str(), slug(&heading(r)))).collect();
        let mut links = 0;
        for (at, _) in text.match_indices("](#") {
            let id = &text[text[..at].rfind('[').map_or(0, |x| x + 1)..at];
            let rest = &text[at + 3..];
            let anchor = &rest[..rest.find([' ', ')']).unwrap_or(rest.len())];
            match by_id.get(id) {
                None => viol!("link to {id:?}, which is no requirement"),
                Some(s) => ensure!(s == anchor, "link to {id:?} leads to #{anchor}, its heading has #{s}"),
            }
            links += 1;
        }

        let mut i = Info::new();
        let n_cov: usize = m.covered.iter().map(Vec::len).sum();
        i.label("covered along several relations", w.arts.iter().flat_map(|a| &a.reqs).any(|r| m.covered.iter().filter(|c| c.iter().any(|c| c.upper == r.id)).count() > 1));
        i.label("more than 10 links", links > 10);
        i.label("attributes", w.arts.iter().flat_map(|a| &a.reqs).any(|r| !r.attributes.is_empty()));
        i.nontrivial = n_cov > 0 && m.uncovered.iter().any(|u| !u.is_empty());
        Ok(i)
    }
}
