//! Data as the tool reports it, and the reference tracer
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum LocIn {
    Line(u64),
    LineAndColumn(u64, u64),
    String(String),
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Loc {
    pub file: String,
    pub location_in_file: Option<LocIn>,
}

impl Loc {
    pub fn line(file: &str, line: u64) -> Self {
        Loc { file: file.into(), location_in_file: Some(LocIn::Line(line)) }
    }
    /// `file`, `file:line`, `file:line:column`
    pub fn show(&self) -> String {
        match &self.location_in_file {
            None => self.file.clone(),
            Some(LocIn::Line(l)) => format!("{}:{l}", self.file),
            Some(LocIn::LineAndColumn(l, c)) => format!("{}:{l}:{c}", self.file),
            Some(LocIn::String(s)) => format!("{}:{s}", self.file),
        }
    }
    pub fn line_no(&self) -> Option<u64> {
        match self.location_in_file {
            Some(LocIn::Line(l)) | Some(LocIn::LineAndColumn(l, _)) => Some(l),
            _ => None,
        }
    }
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Ref {
    pub id: String,
    pub title: Option<String>,
    pub location: Loc,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Req {
    pub id: String,
    pub title: Option<String>,
    pub location: Loc,
    pub covers: Vec<Ref>,
    pub depends: Vec<Ref>,
    pub tags: Vec<String>,
    pub attributes: BTreeMap<String, String>,
}

#[derive(Deserialize, Debug, Clone)]
pub struct ParseOut {
    pub version: u32,
    pub requirements: Vec<Req>,
    pub errors: Vec<Value>,
}

#[derive(Deserialize, Debug, Clone)]
pub struct Cov {
    pub upper: String,
    pub lower: String,
    pub location: Loc,
    pub direction: String,
}

#[derive(Deserialize, Debug, Clone)]
pub struct RelOut {
    pub upper: String,
    pub lower: Vec<String>,
    pub covered: Vec<Cov>,
    pub uncovered: Vec<String>,
}

#[derive(Deserialize, Debug, Clone)]
pub struct ArtOut {
    pub id: String,
    pub files: Vec<String>,
    pub requirements: BTreeMap<String, Req>,
    pub errors: Vec<Value>,
}

#[derive(Deserialize, Debug, Clone)]
pub struct TraceInner {
    pub artefacts: BTreeMap<String, ArtOut>,
    pub traced_relations: Vec<RelOut>,
    pub derived: BTreeMap<String, Vec<String>>,
    pub errors: Vec<Value>,
}

#[derive(Deserialize, Debug, Clone)]
pub struct TraceOut {
    pub version: u32,
    pub trace: TraceInner,
}

// ---------------------------------------------------------------- errors

/// An error in a form that can be compared with what is expected
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize)]
pub enum E {
    Format(Loc),
    DupReq { id: String, locs: BTreeSet<Loc> },
    DupAttr { loc: Loc, attr: String, req: String },
    Io { path: String },
    Config(String),
    WrongCover { upper: String, lower: String, title: String, loc: Loc },
    WrongDepend { upper: String, lower: String, title: String, loc: Loc },
    NoTitleRef { referenced: String, loc: Loc },
    NoTitleReq { id: String },
    DependUnknown { req: String, id: String, loc: Loc },
    CoverUnknown { req: String, id: String, loc: Loc },
    Unused { upper: String, lower: Vec<String> },
    Other(String),
}

pub fn err_of(v: &Value) -> E {
    fn go(v: &Value) -> Option<E> {
        let (k, b) = v.as_object()?.iter().next()?;
        let loc = |v: &Value| serde_json::from_value::<Loc>(v.clone()).ok();
        let s = |v: &Value| v.as_str().map(str::to_owned);
        let rid = |v: &Value| v["id"].as_str().map(str::to_owned);
        Some(match k.as_str() {
            "Format" => E::Format(loc(&b[0])?),
            "DuplicateRequirement" => {
                if rid(&b[0])? != rid(&b[1])? {
                    return None;
                }
                E::DupReq {
                    id: rid(&b[0])?,
                    locs: [loc(&b[0]["location"])?, loc(&b[1]["location"])?].into(),
                }
            }
            "DuplicateAttribute" => E::DupAttr { loc: loc(&b[0])?, attr: s(&b[1])?, req: s(&b[2])? },
            "Io" => E::Io { path: s(&b[0])? },
            "Config" => E::Config(s(b)?),
            "CoveredWithWrongTitle" => E::WrongCover {
                upper: rid(&b["upper"])?,
                lower: rid(&b["lower"])?,
                title: s(&b["wrong_title"])?,
                loc: loc(&b["location"])?,
            },
            "DependWithWrongTitle" => E::WrongDepend {
                upper: rid(&b["upper"])?,
                lower: rid(&b["lower"])?,
                title: s(&b["wrong_title"])?,
                loc: loc(&b["location"])?,
            },
            "ReferencedWithoutTitle" => {
                E::NoTitleRef { referenced: rid(&b["referenced"])?, loc: loc(&b["location"])? }
            }
            "RequirementWithoutTitle" => E::NoTitleReq { id: rid(b)? },
            "DependOnUnknownRequirement" => {
                E::DependUnknown { req: rid(&b[0])?, id: s(&b[1])?, loc: loc(&b[2])? }
            }
            "CoversUnknownRequirement" => {
                E::CoverUnknown { req: rid(&b[0])?, id: s(&b[1])?, loc: loc(&b[2])? }
            }
            "UnusedRelation" => E::Unused {
                upper: s(&b["upper"])?,
                lower: b["lower"].as_array()?.iter().filter_map(s).collect(),
            },
            _ => return None,
        })
    }
    go(v).unwrap_or_else(|| E::Other(v.to_string()))
}

pub fn errs(v: &[Value]) -> Vec<E> {
    v.iter().map(err_of).collect()
}

// ---------------------------------------------------------------- reference tracer

#[derive(Debug, Clone)]
pub struct Art {
    pub id: String,
    pub ignore: Option<bool>,
    pub rwt: Option<bool>,
    pub reqs: Vec<Req>,
}

/// Artefacts and relations (indices into `arts`)
#[derive(Debug, Clone, Default)]
pub struct World {
    pub arts: Vec<Art>,
    pub rels: Vec<(usize, Vec<usize>)>,
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct MCov {
    pub upper: String,
    pub lower: String,
    pub loc: Loc,
    pub up: bool,
}

#[derive(Debug, Default)]
pub struct Model {
    /// per relation, sorted
    pub covered: Vec<Vec<MCov>>,
    pub uncovered: Vec<BTreeSet<String>>,
    pub unused: BTreeSet<usize>,
    pub derived: BTreeMap<String, BTreeSet<String>>,
    /// (referencing requirement, referenced id) -> locations of such references
    pub bad_covers: BTreeMap<(String, String), Vec<Loc>>,
    pub bad_depends: BTreeMap<(String, String), Vec<Loc>>,
    /// wrong or missing titles in traced references
    pub titles: BTreeSet<E>,
    /// requirements without title, by artefact
    pub untitled: BTreeMap<String, BTreeSet<String>>,
}

impl World {
    pub fn rel_ids(&self, r: usize) -> (String, Vec<String>) {
        let (u, l) = &self.rels[r];
        (self.arts[*u].id.clone(), l.iter().map(|x| self.arts[*x].id.clone()).collect())
    }

    /// straight from the definitions in README.md and DESIGN.md: quadratic, no indices
    pub fn model(&self) -> Model {
        let mut m = Model::default();
        let mut covers_something: BTreeSet<&str> = BTreeSet::new();
        // (referencing requirement, referenced id) pairs that were traced
        let mut ok_cov: BTreeSet<(&str, &str)> = BTreeSet::new();
        let mut ok_dep: BTreeSet<(&str, &str)> = BTreeSet::new();
        for (ri, (u, lowers)) in self.rels.iter().enumerate() {
            let ua = &self.arts[*u];
            let mut cov = vec![];
            let mut unc = BTreeSet::new();
            for up in &ua.reqs {
                let mut any = false;
                for l in lowers {
                    let la = &self.arts[*l];
                    for lo in &la.reqs {
                        for r in lo.covers.iter().filter(|r| r.id == up.id) {
                            any = true;
                            covers_something.insert(&lo.id);
                            ok_cov.insert((&lo.id, &r.id));
                            cov.push(MCov { upper: up.id.clone(), lower: lo.id.clone(), loc: r.location.clone(), up: true });
                            match &r.title {
                                Some(t) if Some(t) != up.title.as_ref() => {
                                    m.titles.insert(E::WrongCover { upper: up.id.clone(), lower: lo.id.clone(), title: t.clone(), loc: r.location.clone() });
                                }
                                None if ua.rwt == Some(true) => {
                                    m.titles.insert(E::NoTitleRef { referenced: up.id.clone(), loc: r.location.clone() });
                                }
                                _ => {}
                            }
                        }
                        for r in up.depends.iter().filter(|r| r.id == lo.id) {
                            any = true;
                            covers_something.insert(&lo.id);
                            ok_dep.insert((&up.id, &r.id));
                            cov.push(MCov { upper: up.id.clone(), lower: lo.id.clone(), loc: r.location.clone(), up: false });
                            match &r.title {
                                Some(t) if Some(t) != lo.title.as_ref() => {
                                    m.titles.insert(E::WrongDepend { upper: up.id.clone(), lower: lo.id.clone(), title: t.clone(), loc: r.location.clone() });
                                }
                                None if la.rwt == Some(true) => {
                                    m.titles.insert(E::NoTitleRef { referenced: lo.id.clone(), loc: r.location.clone() });
                                }
                                _ => {}
                            }
                        }
                    }
                }
                if !any {
                    unc.insert(up.id.clone());
                }
            }
            if cov.is_empty() {
                m.unused.insert(ri);
            }
            cov.sort();
            m.covered.push(cov);
            m.uncovered.push(unc);
        }
        for (ai, a) in self.arts.iter().enumerate() {
            let root = !self.rels.iter().any(|(_, l)| l.contains(&ai));
            let ignore = a.ignore.unwrap_or(root);
            let d = m.derived.entry(a.id.clone()).or_default();
            for r in &a.reqs {
                if !ignore && !covers_something.contains(r.id.as_str()) {
                    d.insert(r.id.clone());
                }
                for c in &r.covers {
                    if !ok_cov.contains(&(r.id.as_str(), c.id.as_str())) {
                        m.bad_covers.entry((r.id.clone(), c.id.clone())).or_default().push(c.location.clone());
                    }
                }
                for c in &r.depends {
                    if !ok_dep.contains(&(r.id.as_str(), c.id.as_str())) {
                        m.bad_depends.entry((r.id.clone(), c.id.clone())).or_default().push(c.location.clone());
                    }
                }
                if a.rwt == Some(true) && r.title.is_none() {
                    m.untitled.entry(a.id.clone()).or_default().insert(r.id.clone());
                }
            }
        }
        m
    }
}

impl Model {
    pub fn input_errors(&self) -> bool {
        !self.untitled.is_empty()
    }
    pub fn trace_findings(&self) -> bool {
        self.input_errors()
            || !self.bad_covers.is_empty()
            || !self.bad_depends.is_empty()
            || !self.titles.is_empty()
            || !self.unused.is_empty()
            || self.uncovered.iter().any(|u| !u.is_empty())
            || self.derived.values().any(|d| !d.is_empty())
    }
}
