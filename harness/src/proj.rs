//! Projects with artefacts of all parsers
use crate::cfg::*;
use crate::core::*;
use crate::md::*;
use crate::model::*;
use crate::p_dup::{norm, norm_loc};
use crate::p_md::{nreq, NReq};
use crate::p_mono::*;
use crate::rs::*;
use crate::strat::*;
use crate::{ensure, viol};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Proj {
    pub md: Vec<Doc>,
    pub mono: Vec<Mono>,
    /// the files of one Rust artefact
    pub rs: Vec<RFile>,
    pub json: Vec<Vec<Req>>,
    /// (upper, mask of lower artefacts)
    pub rels: Vec<(u8, u8)>,
    /// (json artefact, requirement) that is defined once more
    #[serde(default)]
    pub dups: Vec<(u8, u8)>,
    /// (requirement, json artefact, variant): an id that is used in another artefact too
    #[serde(default)]
    pub shared: Vec<(u16, u8, u8)>,
}

/// an error that must be reported
#[derive(Debug, Clone, PartialEq)]
pub enum Want {
    E(E),
    /// malformed Rust mark: file, line, columns
    Mark(String, u64, u64, u64),
    /// any format error in that file
    File(String),
}

impl Want {
    pub fn accepts(&self, e: &E) -> bool {
        match self {
            Want::E(w) => w == e,
            Want::File(f) => matches!(e, E::Format(l) if l.file == *f),
            Want::Mark(f, line, lo, hi) => matches!(e, E::Format(l) if l.file == *f
                && matches!(l.location_in_file, Some(LocIn::LineAndColumn(a, c)) if a == *line && *lo <= c && c < *hi)),
        }
    }
}

#[derive(Debug, Clone)]
pub struct PArt {
    pub cfg: CfgArt,
    pub files: Vec<String>,
    pub reqs: Vec<Req>,
    pub errors: Vec<Want>,
    /// ids of requirements with malformed lines: they may be incomplete or missing
    pub vague: BTreeSet<String>,
}

#[derive(Debug, Clone, Default)]
pub struct Project {
    pub files: Vec<(String, Vec<u8>)>,
    pub arts: Vec<PArt>,
    pub rels: Vec<(String, Vec<String>)>,
}

impl Proj {
    pub fn render(&self) -> Project {
        let mut p = Project::default();
        let mut ids: HashSet<String> = HashSet::new();
        if !self.rs.is_empty() {
            let mut art = PArt {
                cfg: CfgArt::new("code", "Rust", "src/*.rs"),
                files: vec![],
                reqs: vec![],
                errors: vec![],
                vague: BTreeSet::new(),
            };
            let mut first: BTreeMap<String, Loc> = BTreeMap::new();
            for (i, f) in self.rs.iter().enumerate() {
                let name = format!("src/r{i:02}.rs");
                let w = f.render(&name);
                p.files.push((name.clone(), w.out.into_bytes()));
                art.files.push(name.clone());
                if f.broken.is_some() {
                    art.errors.push(Want::File(name));
                    continue;
                }
                for (l, a, b) in &w.bad {
                    art.errors.push(Want::Mark(name.clone(), *l, *a, *b));
                }
                for r in w.reqs {
                    match first.get(&r.id) {
                        Some(l) => art.errors.push(Want::E(E::DupReq {
                            id: r.id.clone(),
                            locs: [l.clone(), r.location.clone()].into(),
                        })),
                        None => {
                            first.insert(r.id.clone(), r.location.clone());
                            ids.insert(r.id.clone());
                            art.reqs.push(r);
                        }
                    }
                }
            }
            p.arts.push(art);
        }
        for (i, m) in self.mono.iter().enumerate() {
            let mut m = m.clone();
            m.stem = uniq(&m.stem, &mut ids);
            let (text, req) = m.render();
            let file = m.file();
            p.files.push((file.clone(), text.into_bytes()));
            p.arts.push(PArt {
                cfg: CfgArt::new(&format!("mono{i}"), "MonoRequirement", &file),
                files: vec![file],
                reqs: vec![req],
                errors: vec![],
                vague: BTreeSet::new(),
            });
        }
        for (i, d) in self.md.iter().enumerate() {
            let file = format!("doc/d{i}.md");
            let r = d.render_with(&file, &mut ids);
            p.files.push((file.clone(), r.text().into_bytes()));
            p.arts.push(PArt {
                cfg: CfgArt::new(&format!("md{i}"), "Markdown", &file),
                files: vec![file],
                errors: r.errors.iter().cloned().map(Want::E).collect(),
                vague: r.bad.iter().cloned().collect(),
                reqs: r.reqs,
            });
        }
        for (i, j) in self.json.iter().enumerate() {
            let file = format!("j{i}.json");
            let mut reqs = j.clone();
            for r in &mut reqs {
                r.id = uniq(&r.id, &mut ids);
            }
            for (r, a, var) in &self.shared {
                let all: Vec<&Req> = p.arts.iter().filter(|a| a.vague.is_empty()).flat_map(|a| &a.reqs).filter(|r| r.id.as_str() > "\"").collect();
                if *a as usize % self.json.len() != i || all.is_empty() {
                    continue;
                }
                let mut again = all[*r as usize % all.len()].clone();
                let n = u64::from(*var) / 8 * 7 + 3;
                match var % 8 {
                    0 => {}
                    1 | 2 => again.location = Loc { location_in_file: Some(LocIn::Line(n)), ..again.location },
                    3 => again.location = Loc { location_in_file: Some(LocIn::LineAndColumn(n, n)), ..again.location },
                    4 => again.location = Loc { location_in_file: Some(LocIn::String(format!("pos {n}"))), ..again.location },
                    5 => again.location = Loc { location_in_file: None, ..again.location },
                    6 => again.title = Some("Another".into()),
                    _ => {
                        again.covers.clear();
                        again.location = Loc::line("again.txt", n);
                    }
                }
                if !reqs.iter().any(|q| strip(&q.id) == strip(&again.id)) {
                    reqs.push(again);
                }
            }
            let mut written = reqs.clone();
            let mut errors = vec![];
            for (n, (a, r)) in self.dups.iter().enumerate() {
                if *a as usize % self.json.len() == i && !reqs.is_empty() {
                    let first = &reqs[*r as usize % reqs.len()];
                    let mut again = first.clone();
                    again.location = Loc::line("again.txt", n as u64);
                    errors.push(Want::E(E::DupReq {
                        id: strip(&first.id),
                        locs: [norm_loc(first.location.clone()), again.location.clone()].into(),
                    }));
                    written.push(again);
                }
            }
            p.files.push((file.clone(), serde_json::to_vec(&written).unwrap()));
            p.arts.push(PArt {
                cfg: CfgArt::new(&format!("json{i}"), "Json", &file),
                files: vec![file],
                reqs,
                errors,
                vague: BTreeSet::new(),
            });
        }
        let n = p.arts.len();
        for (u, mask) in &self.rels {
            if n < 2 {
                break;
            }
            let u = *u as usize % (n - 1);
            let l: Vec<String> = (u + 1..n)
                .filter(|l| (mask >> ((l - u - 1) % 8)) & 1 == 1)
                .map(|l| p.arts[l].cfg.id.clone())
                .collect();
            p.rels.push((p.arts[u].cfg.id.clone(), l));
        }
        p
    }
}

impl Project {
    pub fn write(&self, d: &Dir) -> Res<()> {
        for (f, t) in &self.files {
            d.write(f, t)?;
        }
        Ok(())
    }
    pub fn cfg(&self) -> Cfg {
        Cfg {
            arts: self.arts.iter().map(|a| a.cfg.clone()).collect(),
            rels: self.rels.clone(),
            ..Cfg::default()
        }
    }
}

/// every supported combination of query and format
pub const ALL_JOBS: [(&str, &str, &str); 6] = [
    ("tj", "Trace", "Json"),
    ("tm", "Trace", "Markdown"),
    ("tg", "Trace", "GnuError"),
    ("pj", "Parse", "Json"),
    ("pm", "Parse", "Markdown"),
    ("pt", "Parse", "Tags"),
];

/// adds a job per combination, reports in `out/`
pub fn all_jobs(c: &mut Cfg) -> Vec<&'static str> {
    for (n, q, f) in ALL_JOBS {
        c.job(n, q, f, &format!("out/{n}"));
    }
    ALL_JOBS.iter().map(|j| j.0).collect()
}

/// requirement in comparable form; ids without white space (item paths)
pub fn preq(r: &Req) -> NReq {
    let mut n = nreq(r);
    n.id = strip(&n.id);
    n
}

pub fn perr(e: E) -> E {
    match norm(e) {
        E::DupReq { id, locs } => E::DupReq { id: strip(&id), locs },
        e => e,
    }
}

/// the errors are exactly the wanted ones
pub fn match_errors(want: &[Want], got: &[E]) -> Res<()> {
    let mut todo: Vec<&Want> = want.iter().collect();
    for e in got {
        match todo.iter().position(|w| w.accepts(e)) {
            Some(i) => {
                todo.remove(i);
            }
            None => viol!("unexpected error {e:?}"),
        }
    }
    ensure!(todo.is_empty(), "error not reported: {:?}", todo[0]);
    Ok(())
}

/// requirements of one artefact
pub fn match_reqs(a: &PArt, got: &[Req]) -> Res<()> {
    let vague = |id: &str| a.vague.contains(id);
    let want: Vec<NReq> = a.reqs.iter().filter(|r| !vague(&r.id)).map(preq).collect();
    let got: Vec<NReq> = got.iter().filter(|r| !vague(&r.id)).map(preq).collect();
    crate::p_md::compare_all(&want, &got)
}

pub fn files_of(a: &ArtOut) -> BTreeSet<String> {
    a.files
        .iter()
        .map(|f| norm_loc(Loc { file: f.clone(), location_in_file: None }).file)
        .collect()
}

// ---------------------------------------------------------------- strategies

fn sane_loc() -> BoxedStrategy<Loc> {
    let file = prop_oneof![4 => "(src/|doc/)?[a-z]{1,8}\\.(rs|md|txt)", 1 => "[a-zä ]{1,6}/[a-z .-]{0,5}[a-z]", 1 => "(\\.\\./){1,2}[a-z]{1,5}/[a-z]{1,5}\\.md", 1 => "/[a-z]{1,5}/(\\.\\./)?[a-z]{1,5}\\.md"];
    let pos = prop_oneof![
        3 => (0u64..5000).prop_map(|l| Some(LocIn::Line(l))),
        2 => (0u64..5000, 0u64..200).prop_map(|(l, c)| Some(LocIn::LineAndColumn(l, c))),
        1 => "[a-z]{1,6} [0-9]{1,3}".prop_map(|s| Some(LocIn::String(s))),
        1 => Just(None),
    ];
    (file, pos).prop_map(|(file, location_in_file)| Loc { file, location_in_file }).boxed()
}

fn wild_loc() -> BoxedStrategy<Loc> {
    let pos = prop_oneof![
        2 => any::<u64>().prop_map(|l| Some(LocIn::Line(l))),
        2 => (any::<u64>(), any::<u32>()).prop_map(|(l, c)| Some(LocIn::LineAndColumn(l, u64::from(c)))),
        1 => wild().prop_map(|s| Some(LocIn::String(s))),
        1 => Just(None),
    ];
    (wild(), pos).prop_map(|(file, location_in_file)| Loc { file, location_in_file }).boxed()
}

fn refs(id: BoxedStrategy<String>, title: BoxedStrategy<String>, loc: BoxedStrategy<Loc>) -> BoxedStrategy<Vec<Ref>> {
    let r = (id, prop::option::of(title), loc).prop_map(|(id, title, location)| Ref { id, title, location });
    prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(r, 0..4)].boxed()
}

fn req_of(
    id: BoxedStrategy<String>,
    title: BoxedStrategy<String>,
    loc: BoxedStrategy<Loc>,
    key: BoxedStrategy<String>,
    text: BoxedStrategy<String>,
) -> BoxedStrategy<Req> {
    (
        id.clone(),
        prop::option::weighted(0.8, title.clone()),
        loc.clone(),
        refs(id.clone(), title.clone(), loc.clone()),
        refs(id, title.clone(), loc),
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(title, 1..3)],
        prop::collection::btree_map(key, text, 0..3),
    )
        .prop_map(|(id, title, location, covers, depends, tags, attributes)| Req {
            id,
            title,
            location,
            covers,
            depends,
            tags,
            attributes,
        })
        .boxed()
}

/// anything JSON can hold
pub fn wild_req() -> BoxedStrategy<Req> {
    req_of(
        prop_oneof![3 => ident(), 2 => wild()].boxed(),
        prop_oneof![1 => title(), 2 => wild()].boxed(),
        prop_oneof![1 => sane_loc(), 1 => wild_loc()].boxed(),
        prop_oneof![2 => Just("Description".to_owned()), 1 => wild()].boxed(),
        prop_oneof![1 => title(), 3 => wild()].boxed(),
    )
}

fn text() -> BoxedStrategy<String> {
    prop::collection::vec(prop_oneof![5 => plain_line(), 1 => Just(String::new())], 0..5)
        .prop_map(|v| v.join("\n"))
        .boxed()
}

/// ids, titles, files of one line each
pub fn sane_req() -> BoxedStrategy<Req> {
    req_of(
        prop_oneof![
            4 => ident(),
            1 => "[a-z]{1,4}(::[a-z]{1,4}){1,3}",
            1 => "[a-z]{1,4}::\\([A-Z][a-z]{1,3} as [A-Z][a-z]{1,3}\\)::[a-z]{1,3}",
        ]
        .boxed(),
        title(),
        sane_loc(),
        prop_oneof![2 => Just("Description".to_owned()), 1 => Just("Comment".to_owned()), 1 => "[A-Z][a-z]{2,6}", 1 => prop::sample::select(ATTR_WORDS).prop_map(str::to_owned)].boxed(),
        text(),
    )
}

/// with ids that several artefacts define
pub fn with_shared(p: BoxedStrategy<Proj>) -> BoxedStrategy<Proj> {
    let shared = prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec((any::<u16>(), any::<u8>(), any::<u8>()), 1..6)];
    // now and then very many requirements
    let bulk = prop_oneof![80 => Just(0u64), 1 => 60u64..400];
    (p, shared, bulk)
        .prop_map(|(mut p, shared, bulk)| {
            let req = |n: u64| Req {
                id: format!("BULK_{}", n * 7919 % 10_007),
                title: Some(format!("Number {n}")),
                location: Loc::line("bulk.txt", n + 1),
                covers: vec![],
                depends: vec![],
                tags: vec![],
                attributes: BTreeMap::new(),
            };
            if bulk > 0 {
                p.json.push((0..bulk).map(req).collect());
            }
            Proj { shared, ..p }
        })
        .boxed()
}

#[derive(Clone, Copy)]
pub struct ProjSize {
    pub bad: bool,
    pub max: usize,
}

pub fn proj(s: ProjSize) -> BoxedStrategy<Proj> {
    (
        prop::collection::vec(small_doc(s.bad), 0..=s.max),
        prop::collection::vec(small_mono(), 0..=s.max),
        prop::collection::vec(rfile(2, s.bad), 0..=s.max + 1),
        prop::collection::vec(prop::collection::vec(sane_req(), 0..4), 0..=s.max),
        prop::collection::vec((any::<u8>(), any::<u8>()), 0..3),
        if s.bad {
            prop_oneof![5 => Just(vec![]), 1 => prop::collection::vec((any::<u8>(), any::<u8>()), 1..4)].boxed()
        } else {
            Just(vec![]).boxed()
        },
    )
        .prop_map(|(md, mono, rs, json, rels, dups)| Proj { md, mono, rs, json, rels, dups, shared: vec![] })
        .prop_filter("empty", |p| !(p.md.is_empty() && p.mono.is_empty() && p.rs.is_empty() && p.json.is_empty()))
        .boxed()
}
