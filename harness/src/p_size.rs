//! C31: nothing depends on sizes
use crate::cfg::*;
use crate::core::*;
use crate::ensure;
use crate::model::*;
use crate::p_dup::norm_loc;
use crate::p_graph::*;
use crate::proj::all_jobs;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Dim {
    /// requirements of both artefacts
    Reqs,
    /// references of one requirement
    Refs,
    /// requirements that refer to one requirement
    Fan,
    /// lines in front of the references
    Lines,
    /// files of an artefact
    Files,
    /// artefacts, relations and jobs
    Arts,
    /// findings of every kind
    Findings,
    /// malformed lines or marks
    Malformed,
    /// definitions of the same id
    Dups,
    /// characters of a title, an id and a text
    Chars,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SizeCase {
    dim: Dim,
    n: u32,
    upper: u8,
    lower: u8,
    style: u8,
    /// all reports
    all: bool,
}

pub struct Sizes;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum Kind {
    Json,
    Markdown,
    Mono,
    Rust,
}

/// lines of a file that is written
#[derive(Default)]
struct Text {
    out: String,
    line: u64,
}

impl Text {
    fn put(&mut self, s: &str) -> u64 {
        self.out.push_str(s);
        self.out.push('\n');
        self.line += 1;
        self.line
    }
}

struct Written {
    parser: &'static str,
    path: String,
    files: Vec<(String, String)>,
    /// places of malformed lines
    bad: Vec<Loc>,
}

#[derive(Clone, Copy)]
struct Layout {
    gap: usize,
    files: usize,
    style: u8,
    /// so many malformed lines or marks
    bad: usize,
}

fn write_art(kind: Kind, a: &mut Art, name: &str, l: Layout) -> Written {
    let col = |file: &str, line, c| Loc { file: file.to_owned(), location_in_file: Some(LocIn::LineAndColumn(line, c)) };
    let mut bad = vec![];
    match kind {
        Kind::Json => {
            let path = format!("{name}.json");
            for (i, r) in a.reqs.iter_mut().enumerate() {
                r.location = Loc::line("x.txt", i as u64 + 1);
                for (k, x) in r.covers.iter_mut().chain(&mut r.depends).enumerate() {
                    x.location = col("y.txt", i as u64 + 1, k as u64);
                }
            }
            let text = serde_json::to_string(&a.reqs).unwrap();
            Written { parser: "Json", files: vec![(path.clone(), "\n".repeat(l.gap) + &text)], path, bad }
        }
        Kind::Markdown => {
            let path = format!("{name}.md");
            let mut t = Text::default();
            for (i, r) in a.reqs.iter_mut().enumerate() {
                r.location = Loc::line(&path, t.line + 1);
                t.put(&format!("## {}: {}", r.id, r.title.get_or_insert_with(|| "Some title".into())));
                t.put("");
                if i == 0 {
                    for k in 0..l.gap {
                        t.put(if (k as u8).wrapping_add(l.style) % 5 < l.style % 5 { "" } else { "words" });
                    }
                    t.put("");
                }
                if let Some(d) = r.attributes.get("Description") {
                    t.put(d);
                    t.put("");
                }
                for (attr, refs) in [("Covers", &mut r.covers), ("Depends", &mut r.depends)] {
                    if refs.is_empty() {
                        continue;
                    }
                    if l.style & 8 != 0 {
                        let ids: Vec<&str> = refs.iter().map(|x| x.id.as_str()).collect();
                        let at = t.put(&format!("{attr}: {}", ids.join(if l.style & 16 != 0 { ", " } else { "," })));
                        for x in refs.iter_mut() {
                            x.title = None;
                            x.location = Loc::line(&path, at);
                        }
                    } else {
                        t.put(&format!("{attr}:"));
                        for x in refs.iter_mut() {
                            let at = t.put(&match &x.title {
                                Some(s) => format!("*   {}: {s}", x.id),
                                None => format!("*   {}", x.id),
                            });
                            x.location = Loc::line(&path, at);
                        }
                    }
                    t.put("");
                }
            }
            for k in 0..l.bad {
                t.put(&format!("# BAD_{name}_{k}: Title"));
                t.put("Covers:");
                let at = t.put("this is no reference");
                bad.push(Loc::line(&path, at));
            }
            if l.bad > 0 {
                t.put("# The end");
            }
            Written { parser: "Markdown", files: vec![(path.clone(), t.out)], path, bad }
        }
        Kind::Mono => {
            let r = &mut a.reqs[0];
            let path = format!("{}.md", r.id);
            r.location = Loc { file: path.clone(), location_in_file: None };
            let mut t = Text::default();
            t.put(&format!("# {}", r.title.get_or_insert_with(|| "Some title".into())));
            for k in 0..l.gap {
                t.put(if (k as u8).wrapping_add(l.style) % 5 < l.style % 5 { "" } else { "words" });
            }
            let mut line = String::new();
            let last = r.depends.len();
            for (k, x) in r.depends.iter_mut().enumerate() {
                x.location = Loc::line(&path, t.line + 1);
                write!(line, " => {}", x.id).unwrap();
                if l.style & 8 == 0 || k + 1 == last {
                    if let Some(s) = &x.title {
                        write!(line, ": {s}").unwrap();
                    }
                    t.put(&line);
                    line.clear();
                } else {
                    x.title = None;
                }
            }
            Written { parser: "MonoRequirement", files: vec![(path.clone(), t.out)], path, bad }
        }
        Kind::Rust => {
            let mut files: Vec<(String, Text)> =
                (0..l.files).map(|i| (format!("{name}/f{i:05}.rs"), Text::default())).collect();
            for (i, r) in a.reqs.iter_mut().enumerate() {
                let (file, t) = &mut files[i % l.files];
                let (indent, at) = match r.id.rsplit_once("::") {
                    Some((m, f)) => {
                        t.put(&format!("mod {m} {{"));
                        ("    ", t.put(&format!("    fn {f}() {{")))
                    }
                    None => ("", t.put(&format!("fn {}() {{", r.id))),
                };
                r.location = col(file, at, indent.len() as u64 + 3);
                if i == 0 {
                    for k in 0..l.gap {
                        t.put(if (k as u8).wrapping_add(l.style) % 5 < l.style % 5 { "" } else { "// words" });
                    }
                }
                let mut column = 0;
                let mut line = String::new();
                let last = r.covers.len();
                for (k, x) in r.covers.iter_mut().enumerate() {
                    x.location = col(file, t.line + 1, column);
                    let mark = match &x.title {
                        Some(s) => format!("requirement_covered!({}, {s:?});", x.id),
                        None if l.style & 32 != 0 => format!("requirement_covered!({:?});", x.id),
                        None => format!("requirement_covered!({});", x.id),
                    };
                    column += mark.len() as u64;
                    line.push_str(&mark);
                    if l.style & 8 == 0 || column > 100_000 || k + 1 == last {
                        t.put(&line);
                        line.clear();
                        column = 0;
                    }
                }
                t.put(if indent.is_empty() { "}" } else { "}}" });
            }
            let (file, t) = files.last_mut().unwrap();
            if l.bad > 0 {
                t.put("fn bad() {");
                for _ in 0..l.bad {
                    let at = t.put("    requirement_covered!(1 + 1 + 1 + 1);");
                    bad.push(col(file, at, 4));
                }
                t.put("}");
            }
            Written {
                parser: "Rust",
                path: format!("{name}/*.rs"),
                files: files.into_iter().map(|(f, t)| (f, t.out)).collect(),
                bad,
            }
        }
    }
}

fn req(id: String, title: Option<String>) -> Req {
    Req {
        id,
        title,
        location: Loc::line("x", 1),
        covers: vec![],
        depends: vec![],
        tags: vec![],
        attributes: BTreeMap::new(),
    }
}

fn reference(id: String, title: Option<String>) -> Ref {
    Ref { id, title, location: Loc::line("x", 1) }
}

/// the model of a world with relations to other artefacts, unique ids, no `reference_with_title`; with indices
fn model(w: &World) -> Model {
    let mut m = Model::default();
    let mut covers: BTreeSet<&str> = BTreeSet::new();
    let mut ok: BTreeSet<(&str, &str, bool)> = BTreeSet::new();
    for (u, lowers) in &w.rels {
        let lower: BTreeMap<&str, &Req> =
            lowers.iter().flat_map(|l| &w.arts[*l].reqs).map(|r| (r.id.as_str(), r)).collect();
        let upper: BTreeMap<&str, &Req> = w.arts[*u].reqs.iter().map(|r| (r.id.as_str(), r)).collect();
        let mut cov = vec![];
        let mut unc: BTreeSet<String> = upper.keys().map(|s| (*s).to_owned()).collect();
        for lo in lower.values() {
            for x in &lo.covers {
                let Some(up) = upper.get(x.id.as_str()) else { continue };
                unc.remove(&up.id);
                covers.insert(&lo.id);
                ok.insert((&lo.id, &x.id, true));
                cov.push(MCov { upper: up.id.clone(), lower: lo.id.clone(), loc: x.location.clone(), up: true });
                if x.title.is_some() && x.title != up.title {
                    m.titles.insert(E::WrongCover {
                        upper: up.id.clone(),
                        lower: lo.id.clone(),
                        title: x.title.clone().unwrap(),
                        loc: x.location.clone(),
                    });
                }
            }
        }
        for up in upper.values() {
            for x in &up.depends {
                let Some(lo) = lower.get(x.id.as_str()) else { continue };
                unc.remove(&up.id);
                covers.insert(&lo.id);
                ok.insert((&up.id, &x.id, false));
                cov.push(MCov { upper: up.id.clone(), lower: lo.id.clone(), loc: x.location.clone(), up: false });
                if x.title.is_some() && x.title != lo.title {
                    m.titles.insert(E::WrongDepend {
                        upper: up.id.clone(),
                        lower: lo.id.clone(),
                        title: x.title.clone().unwrap(),
                        loc: x.location.clone(),
                    });
                }
            }
        }
        if cov.is_empty() {
            m.unused.insert(m.covered.len());
        }
        cov.sort();
        m.covered.push(cov);
        m.uncovered.push(unc);
    }
    let below: BTreeSet<usize> = w.rels.iter().flat_map(|r| r.1.iter().copied()).collect();
    for (ai, a) in w.arts.iter().enumerate() {
        let d = m.derived.entry(a.id.clone()).or_default();
        for r in &a.reqs {
            if below.contains(&ai) && !covers.contains(r.id.as_str()) {
                d.insert(r.id.clone());
            }
            for (refs, c, bad) in [(&r.covers, true, &mut m.bad_covers), (&r.depends, false, &mut m.bad_depends)] {
                for x in refs {
                    if !ok.contains(&(r.id.as_str(), x.id.as_str(), c)) {
                        bad.entry((r.id.clone(), x.id.clone())).or_default().push(x.location.clone());
                    }
                }
            }
        }
    }
    m
}

fn kind(k: u8, allowed: &[Kind]) -> Kind {
    allowed[k as usize % allowed.len()]
}

/// `cheap`: large sizes cost little
fn n_strategy(tier: Tier, cheap: bool) -> BoxedStrategy<u32> {
    let edge = |w: u32, base: u32| (w, (base - 3..base + 4).boxed());
    let top: u32 = match (cheap, tier) {
        (true, _) => 8,
        (false, Tier::Quick) => 1,
        (false, Tier::Thorough) => 2,
    };
    proptest::strategy::Union::new_weighted(vec![
        (10, (1u32..60).boxed()),
        edge(6, 64),
        edge(6, 100),
        edge(8, 128),
        (6, (60u32..600).boxed()),
        edge(10, 256),
        edge(4, 512),
        edge(4, 1000),
        edge(4, 1024),
        (4, (600u32..5000).boxed()),
        edge(4, 2048),
        edge(4, 4096),
        edge(2, 8192),
        edge(top, 10_000),
        edge(top, 16_384),
        (top, (5000u32..80_000).boxed()),
        edge(top, 32_768),
        edge(2 * top, 65_536),
        edge(top, 100_000),
    ])
    .boxed()
}

impl Prop for Sizes {
    type Case = SizeCase;
    fn id(&self) -> &'static str {
        "C31"
    }
    fn rule(&self) -> &'static str {
        "something is covered or reported more than sixty times"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 700,
            Tier::Thorough => 10_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<SizeCase> {
        let dim = prop::sample::select(vec![
            Dim::Reqs,
            Dim::Refs,
            Dim::Fan,
            Dim::Lines,
            Dim::Files,
            Dim::Arts,
            Dim::Findings,
            Dim::Malformed,
            Dim::Dups,
            Dim::Chars,
        ]);
        (dim, any::<u8>(), any::<u8>(), any::<u8>(), prop::bool::weighted(0.4))
            .prop_flat_map(move |(dim, upper, lower, style, all)| {
                let cheap = matches!(dim, Dim::Lines | Dim::Chars);
                n_strategy(tier, cheap).prop_map(move |n| SizeCase { dim, n, upper, lower, style, all })
            })
            .boxed()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["sizes up to some ten thousand, within 20 s of CPU time and 4 GiB", "ids are unique, except where duplicates are the point"]
    }
    fn check(&self, case: &SizeCase, env: &Env) -> Res<Info> {
        use Kind::*;
        let cap = match case.dim {
            Dim::Lines | Dim::Chars => 100_003,
            Dim::Reqs => 12_000,
            Dim::Refs if case.all => 12_000,
            Dim::Refs => 66_000,
            Dim::Fan => 5_000,
            Dim::Findings | Dim::Malformed | Dim::Dups => 5_000,
            Dim::Files => 1_100,
            Dim::Arts => 300,
        };
        let n = (case.n as usize).min(cap);
        let mut w = World::default();
        let art = |id: &str| Art { id: id.into(), ignore: None, rwt: None, reqs: vec![] };
        let mut up = art("upper");
        let mut low = art("lower");
        let mut lay = Layout { gap: 0, files: 1, style: case.style, bad: 0 };
        let (mut ku, mut kl) = (kind(case.upper, &[Json, Markdown]), kind(case.lower, &[Json, Markdown, Rust]));
        let uid = |i: usize| format!("UP_{i}");
        let title = |i: usize| Some(format!("Title {i}"));
        let lid = |i: usize| if case.style & 64 != 0 { format!("low_{i}") } else { format!("LOW_{i}") };
        let mut dups: Vec<(String, Loc, Loc)> = vec![];
        match case.dim {
            Dim::Reqs | Dim::Files => {
                if case.dim == Dim::Files {
                    kl = Rust;
                    lay.files = n;
                }
                for i in 0..n {
                    up.reqs.push(req(uid(i), title(i)));
                    let mut r = req(lid(i), None);
                    r.covers.push(reference(uid(n - 1 - i), (i % 3 == 0).then(|| title(n - 1 - i).unwrap())));
                    low.reqs.push(r);
                }
                // the last one is not covered
                up.reqs.push(req(uid(n), title(n)));
            }
            Dim::Refs => {
                for i in 0..=n {
                    up.reqs.push(req(uid(i), title(i)));
                }
                if case.style & 128 != 0 {
                    // downwards
                    ku = kind(case.upper, &[Json, Markdown, Mono]);
                    kl = kind(case.lower, &[Json, Markdown]);
                    low.reqs = std::mem::take(&mut up.reqs);
                    let mut r = req("ROOT".into(), title(0));
                    for i in 0..n {
                        r.depends.push(reference(uid(i), (i % 3 == 0).then(|| title(i).unwrap())));
                    }
                    up.reqs.push(r);
                } else {
                    let mut r = req(lid(0), None);
                    for i in 0..n {
                        r.covers.push(reference(uid(i), (i % 3 == 0).then(|| title(i).unwrap())));
                    }
                    low.reqs.push(r);
                }
            }
            Dim::Fan => {
                up.reqs.push(req(uid(0), title(0)));
                for i in 0..n {
                    let mut r = req(lid(i), None);
                    r.covers.push(reference(uid(0), (i % 3 == 0).then(|| title(0).unwrap())));
                    low.reqs.push(r);
                }
            }
            Dim::Lines => {
                lay.gap = n;
                if case.style & 128 != 0 {
                    ku = kind(case.upper, &[Markdown, Mono]);
                    kl = Json;
                    let mut r = req("ROOT".into(), title(0));
                    r.depends.push(reference(lid(0), None));
                    r.depends.push(reference(lid(1), None));
                    up.reqs.push(r);
                    low.reqs.push(req(lid(0), title(0)));
                } else {
                    ku = Json;
                    up.reqs.push(req(uid(0), title(0)));
                    let mut r = req(lid(0), None);
                    r.covers.push(reference(uid(0), None));
                    r.covers.push(reference(uid(1), None));
                    low.reqs.push(r);
                }
            }
            Dim::Arts => {
                for i in 0..3 {
                    up.reqs.push(req(uid(i), title(i)));
                }
            }
            Dim::Findings => {
                for i in 0..n {
                    // each third is covered, with a wrong title, or not at all
                    up.reqs.push(req(uid(i), title(i)));
                    let mut r = req(lid(i), None);
                    match i % 3 {
                        0 => r.covers.push(reference(uid(i), Some("Another".into()))),
                        1 => r.covers.push(reference(format!("GONE_{i}"), None)),
                        _ => r.covers.push(reference(format!("LOST_{i}"), title(i))),
                    }
                    if kl != Rust && i % 5 == 0 {
                        r.depends.push(reference(format!("NOWHERE_{i}"), None));
                    }
                    low.reqs.push(r);
                }
                lay.style &= !8;
            }
            Dim::Malformed => {
                kl = kind(case.lower, &[Markdown, Rust]);
                lay.bad = n;
                up.reqs.push(req(uid(0), title(0)));
                let mut r = req(lid(0), None);
                r.covers.push(reference(uid(0), None));
                low.reqs.push(r);
            }
            Dim::Dups => {
                kl = Json;
                up.reqs.push(req(uid(0), title(0)));
                let mut r = req(lid(0), None);
                r.covers.push(reference(uid(0), None));
                low.reqs.push(r);
            }
            Dim::Chars => {
                let long = |k: usize| format!("W{} end", "ord wör".repeat(k / 8 + 1));
                let id = format!("UP_{}", "x".repeat(n));
                up.reqs.push(req(id.clone(), Some(long(n))));
                up.reqs.push(req(uid(0), title(0)));
                if case.style & 4 != 0 {
                    up.reqs[0].attributes.insert("Description".into(), long(n));
                }
                let mut r = req(lid(0), None);
                r.covers.push(reference(id, (case.style & 2 != 0).then(|| long(n))));
                low.reqs.push(r);
                lay.style &= !8;
            }
        }
        let d = env.dir()?;
        let mut c = Cfg::default();
        let mut lower_layout = Layout { ..lay };
        let upper_layout = Layout { bad: 0, files: 1, ..lay };
        if kl != Rust {
            lower_layout.files = 1;
        }
        if kl == Markdown {
            for r in &mut low.reqs {
                r.title.get_or_insert_with(|| "Some title".into());
            }
        }
        let mut written = vec![(write_art(ku, &mut up, "u", upper_layout), &up.id), (write_art(kl, &mut low, "l", lower_layout), &low.id)];
        let bad: Vec<Loc> = written[1].0.bad.clone();
        if case.dim == Dim::Dups {
            let mut all = low.reqs.clone();
            for i in 0..n {
                let mut r = low.reqs[0].clone();
                r.location = Loc::line("again.txt", i as u64 + 1);
                dups.push((r.id.clone(), low.reqs[0].location.clone(), r.location.clone()));
                all.push(r);
            }
            written[1].0.files[0].1 = serde_json::to_string(&all).unwrap();
        }
        let mut arts = vec![];
        for (x, id) in &written {
            c.arts.push(CfgArt::new(id, x.parser, &x.path));
            for (f, t) in &x.files {
                d.write(f, t)?;
            }
            arts.push(x.parser);
        }
        drop(written);
        w.arts.push(up);
        w.arts.push(low);
        if case.dim == Dim::Arts {
            w.arts.truncate(1);
            c.arts.truncate(1);
            let mut lowers = vec![];
            for i in 0..n {
                let mut a = art(&format!("low {i}"));
                let mut r = req(lid(i), None);
                r.covers.push(reference(uid(i % 2), None));
                a.reqs.push(r);
                let x = write_art(Json, &mut a, &format!("low{i}"), Layout { files: 1, ..lay });
                d.write(&x.files[0].0, &x.files[0].1)?;
                c.arts.push(CfgArt::new(&a.id, x.parser, &x.path));
                w.arts.push(a);
                lowers.push(i + 1);
                if case.style & 1 == 0 {
                    w.rels.push((0, vec![i + 1]));
                }
            }
            if case.style & 1 == 1 {
                w.rels.push((0, lowers));
            }
        } else {
            w.rels.push((0, vec![1]));
        }
        for r in 0..w.rels.len() {
            c.rels.push(w.rel_ids(r));
        }
        let jobs = all_jobs(&mut c);
        let mut args = vec!["-c".to_owned(), "config.toml".to_owned(), "tj".to_owned()];
        if case.all {
            args.extend(jobs.iter().filter(|j| **j != "tj").map(|s| (*s).to_owned()));
        }
        if case.dim == Dim::Arts {
            for i in 0..n {
                c.job(&format!("job{i}"), "Parse", "Tags", &format!("out/x/{i}"));
                args.push(format!("job{i}"));
            }
        }
        c.write(&d)?;
        let args: Vec<&str> = args.iter().map(String::as_str).collect();
        let run = env.run(&d.0, &args)?;
        let status = run.ran()?;
        let mut t: TraceOut = d.report_json("out/tj")?;
        norm_places(&mut t);
        let m = model(&w);

        // input errors
        let mut want: Vec<E> = bad.iter().cloned().map(E::Format).collect();
        want.extend(dups.iter().map(|(id, a, b)| E::DupReq { id: id.clone(), locs: [a.clone(), b.clone()].into() }));
        let mut got: Vec<E> = t.trace.artefacts.values().flat_map(|a| errs(&a.errors)).map(crate::p_dup::norm).collect();
        want.sort();
        got.sort();
        if let Some(x) = first_diff(&want, &got) {
            crate::viol!("input errors: {x}");
        }
        for a in &mut t.trace.artefacts.values_mut() {
            a.errors.clear();
        }
        // whether a malformed requirement is kept is none of this property's business
        for ids in t.trace.derived.values_mut() {
            ids.retain(|i| !i.starts_with("BAD_"));
        }
        check_no_other_errors(&w, &t)?;
        check_coverage(&w, &m, &t)?;
        check_uncovered(&w, &m, &t)?;
        check_derived(&m, &t)?;
        check_dangling(&m, &t)?;
        check_titles(&w, &m, &t)?;
        let findings = m.trace_findings() || !want.is_empty();
        ensure!(status == i32::from(findings), "exit status {status}, findings: {findings}");
        // the requirements, and their texts
        let ids = |s: &[Req]| -> BTreeSet<String> { s.iter().map(|r| r.id.clone()).collect() };
        let mut total = 0;
        let mut tagged = 0;
        for a in &w.arts {
            let got = &t.trace.artefacts[&a.id].requirements;
            total += got.len();
            tagged += got.values().filter(|r| r.location.line_no().is_some()).count();
            let missing: Vec<String> = ids(&a.reqs).into_iter().filter(|i| !got.contains_key(i)).take(2).collect();
            ensure!(missing.is_empty(), "requirements of {:?} are missing: {missing:?}", a.id);
            let extra = got.keys().filter(|k| !k.starts_with("BAD_")).count();
            ensure!(extra == a.reqs.len(), "artefact {:?} has {extra} requirements instead of {}", a.id, a.reqs.len());
            for r in &a.reqs {
                let g = &got[&r.id];
                ensure!(g.title == r.title && g.location == r.location, "{:?} has another title or place", r.id);
                ensure!(g.covers == r.covers && g.depends == r.depends, "{:?} has other references", r.id);
            }
            if case.dim == Dim::Lines {
                for r in got.values().filter(|_| a.id == "upper" && ku == Markdown || a.id == "lower" && kl == Markdown) {
                    let lines = r.attributes.get("Description").map_or(0, |t| t.lines().filter(|l| *l == "words").count());
                    let want = (0..n).filter(|k| (*k as u8).wrapping_add(case.style) % 5 >= case.style % 5).count();
                    ensure!(lines == want, "description of {lines} lines instead of {want}");
                }
            }
        }
        if case.all {
            let p: ParseOut = d.report_json("out/pj")?;
            ensure!(p.requirements.len() == total, "{} requirements are listed, {total} are traced", p.requirements.len());
            ensure!(p.errors.len() == want.len(), "{} errors are listed, there are {}", p.errors.len(), want.len());
            let count = |f: &str, p: &dyn Fn(&str) -> bool| -> Res<usize> { Ok(d.report_str(f)?.lines().filter(|l| p(l)).count()) };
            for f in ["out/pm", "out/tm"] {
                let k = count(f, &|l| l.starts_with("### "))?;
                ensure!(k == total, "{f} has {k} requirements instead of {total}");
            }
            let k = count("out/pt", &|l| !l.starts_with('!'))?;
            ensure!(k == tagged, "{k} tags instead of {tagged}");
            let unknown = m.bad_covers.len() + m.bad_depends.len();
            for f in ["out/tg", "out/tm"] {
                let k = count(f, &|l| l.contains(" unknown "))?;
                ensure!(k == unknown, "{f} has {k} unknown references instead of {unknown}");
            }
            if !bad.is_empty() {
                let places: BTreeSet<String> = bad.iter().map(|l| format!("{}:{}:", l.file, l.line_no().unwrap_or(0))).collect();
                let pg = d.report_str("out/tg")?;
                let k = pg
                    .lines()
                    .filter_map(|l| l.strip_prefix("./").or(Some(l)))
                    .filter_map(|l| l.match_indices(':').nth(1).map(|(i, _)| l[..=i].to_owned()))
                    .filter(|p| places.contains(p))
                    .collect::<BTreeSet<_>>()
                    .len();
                ensure!(k == places.len(), "{k} malformed lines are reported instead of {}", places.len());
            }
        }
        if case.dim == Dim::Arts {
            let first = d.report("out/x/0")?;
            for i in 1..n {
                ensure!(d.report(&format!("out/x/{i}"))? == first, "report {i} differs from the first one");
            }
        }
        let mut i = Info::new();
        i.label(
            match case.dim {
                Dim::Reqs => "requirements",
                Dim::Refs => "references",
                Dim::Fan => "requirements that cover the same one",
                Dim::Lines => "lines",
                Dim::Files => "files",
                Dim::Arts => "artefacts, relations and jobs",
                Dim::Findings => "findings",
                Dim::Malformed => "malformed lines",
                Dim::Dups => "duplicates",
                Dim::Chars => "characters",
            },
            true,
        );
        i.label("more than 255", n > 255);
        i.label("more than 1023", n > 1023);
        i.label("more than 65535", n > 65_535);
        i.label("all reports", case.all);
        i.nontrivial = n > 60;
        Ok(i)
    }
}

/// paths without `./`
fn norm_places(t: &mut TraceOut) {
    for a in t.trace.artefacts.values_mut() {
        for r in a.requirements.values_mut() {
            r.location = norm_loc(r.location.clone());
            for x in r.covers.iter_mut().chain(&mut r.depends) {
                x.location = norm_loc(x.location.clone());
            }
        }
    }
    for c in t.trace.traced_relations.iter_mut().flat_map(|r| &mut r.covered) {
        c.location = norm_loc(c.location.clone());
    }
    for e in &mut t.trace.errors {
        crate::p_e2e::strip_dot(e);
    }
}
