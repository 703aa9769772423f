//! C01..C05: the trace of a random graph against the reference tracer
use crate::core::*;
use crate::graph::*;
use crate::model::*;
use crate::{ensure, viol};
use proptest::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Coverage,
    Uncovered,
    Derived,
    Dangling,
    Titles,
}

pub struct GraphProp(pub What);

pub fn first_diff<T: Ord + std::fmt::Debug + Clone>(expected: &[T], actual: &[T]) -> Option<String> {
    let (mut e, mut a) = (expected.to_vec(), actual.to_vec());
    e.sort();
    a.sort();
    if e == a {
        return None;
    }
    let mut missing = e.clone();
    let mut extra = vec![];
    for x in &a {
        match missing.iter().position(|y| y == x) {
            Some(i) => {
                missing.remove(i);
            }
            None => extra.push(x.clone()),
        }
    }
    missing.truncate(3);
    extra.truncate(3);
    Some(format!("missing {missing:?}, not expected {extra:?}"))
}

pub fn check_relations(w: &World, t: &TraceOut) -> Res<()> {
    let got: Vec<_> = t.trace.traced_relations.iter().map(|r| (r.upper.clone(), r.lower.clone())).collect();
    let want: Vec<_> = (0..w.rels.len()).map(|r| w.rel_ids(r)).collect();
    ensure!(got == want, "traced relations {got:?} instead of {want:?}");
    Ok(())
}

pub fn coverage(rel: &RelOut) -> Res<Vec<MCov>> {
    rel.covered
        .iter()
        .map(|c| {
            Ok(MCov {
                upper: c.upper.clone(),
                lower: c.lower.clone(),
                loc: c.location.clone(),
                up: match c.direction.as_str() {
                    "Upwards" => true,
                    "Downwards" => false,
                    d => viol!("unknown direction {d}"),
                },
            })
        })
        .collect()
}

pub fn check_coverage(w: &World, m: &Model, t: &TraceOut) -> Res<()> {
    check_relations(w, t)?;
    for (i, r) in t.trace.traced_relations.iter().enumerate() {
        if let Some(d) = first_diff(&m.covered[i], &coverage(r)?) {
            viol!("coverage along relation {:?}: {d}", w.rel_ids(i));
        }
    }
    Ok(())
}

pub fn check_uncovered(w: &World, m: &Model, t: &TraceOut) -> Res<()> {
    check_relations(w, t)?;
    for (i, r) in t.trace.traced_relations.iter().enumerate() {
        let want: Vec<String> = m.uncovered[i].iter().cloned().collect();
        if let Some(d) = first_diff(&want, &r.uncovered) {
            viol!("uncovered along relation {:?}: {d}", w.rel_ids(i));
        }
    }
    // several equal relations: at least one report for them
    let want: BTreeSet<_> = m.unused.iter().map(|i| w.rel_ids(*i)).collect();
    let got: BTreeSet<_> = errs(&t.trace.errors)
        .into_iter()
        .filter_map(|e| match e {
            E::Unused { upper, lower } => Some((upper, lower)),
            _ => None,
        })
        .collect();
    ensure!(want == got, "unused relations: reported {got:?}, expected {want:?}");
    Ok(())
}

pub fn check_derived(m: &Model, t: &TraceOut) -> Res<()> {
    for (a, want) in &m.derived {
        let want: Vec<String> = want.iter().cloned().collect();
        let got = t.trace.derived.get(a).cloned().unwrap_or_default();
        if let Some(d) = first_diff(&want, &got) {
            viol!("derived requirements of {a:?}: {d}");
        }
    }
    for (a, d) in &t.trace.derived {
        ensure!(d.is_empty() || m.derived.contains_key(a), "derived requirements of unknown artefact {a:?}");
    }
    Ok(())
}

pub fn check_dangling(m: &Model, t: &TraceOut) -> Res<()> {
    for (what, want, covers) in [("covers", &m.bad_covers, true), ("depends", &m.bad_depends, false)] {
        let mut got: BTreeMap<(String, String), Vec<Loc>> = BTreeMap::new();
        for e in errs(&t.trace.errors) {
            match e {
                E::CoverUnknown { req, id, loc } if covers => got.entry((req, id)).or_default().push(loc),
                E::DependUnknown { req, id, loc } if !covers => got.entry((req, id)).or_default().push(loc),
                _ => {}
            }
        }
        for (k, locs) in want {
            match got.get(k) {
                None => viol!("unknown reference not reported: {what} {k:?}"),
                Some(g) => {
                    ensure!(
                        g.iter().all(|l| locs.contains(l)),
                        "unknown reference {what} {k:?} reported at {g:?}, it is at {locs:?}"
                    );
                }
            }
        }
        for k in got.keys() {
            ensure!(want.contains_key(k), "valid reference reported as unknown: {what} {k:?}");
        }
    }
    Ok(())
}

pub fn check_titles(w: &World, m: &Model, t: &TraceOut) -> Res<()> {
    let got: BTreeSet<E> = errs(&t.trace.errors)
        .into_iter()
        .filter(|e| matches!(e, E::WrongCover { .. } | E::WrongDepend { .. } | E::NoTitleRef { .. }))
        .collect();
    if got != m.titles {
        let missing: Vec<_> = m.titles.difference(&got).take(2).collect();
        let extra: Vec<_> = got.difference(&m.titles).take(2).collect();
        viol!("title errors: missing {missing:?}, not expected {extra:?}");
    }
    for a in &w.arts {
        let got: BTreeSet<String> = t.trace.artefacts.get(&a.id).map_or(vec![], |o| errs(&o.errors))
            .into_iter()
            .filter_map(|e| match e {
                E::NoTitleReq { id } => Some(id),
                _ => None,
            })
            .collect();
        let want = m.untitled.get(&a.id).cloned().unwrap_or_default();
        ensure!(got == want, "requirements of {:?} without title: reported {got:?}, expected {want:?}", a.id);
    }
    Ok(())
}

/// errors of the kinds the world can have and nothing else
pub fn check_no_other_errors(w: &World, t: &TraceOut) -> Res<()> {
    for a in &w.arts {
        let Some(o) = t.trace.artefacts.get(&a.id) else { viol!("artefact {:?} is missing in the report", a.id) };
        for e in errs(&o.errors) {
            ensure!(matches!(e, E::NoTitleReq { .. }), "unexpected input error {e:?}");
        }
    }
    for e in errs(&t.trace.errors) {
        ensure!(
            !matches!(e, E::DupReq { .. } | E::DupAttr { .. } | E::Format(_) | E::Io { .. } | E::Config(_) | E::Other(_) | E::NoTitleReq { .. }),
            "unexpected tracing error {e:?}"
        );
    }
    Ok(())
}

impl Prop for GraphProp {
    type Case = GraphCase;
    fn id(&self) -> &'static str {
        match self.0 {
            What::Coverage => "C01",
            What::Uncovered => "C02",
            What::Derived => "C03",
            What::Dangling => "C04",
            What::Titles => "C05",
        }
    }
    fn rule(&self) -> &'static str {
        match self.0 {
            What::Coverage => "the graph has a relation with coverage, and a reference that covers nothing or is traced more than once",
            What::Uncovered => "the graph has both covered and uncovered upper requirements, or an unused relation besides a used one",
            What::Derived => "the graph has an artefact with derived and a requirement that covers something",
            What::Dangling => "the graph has an unknown and a valid reference",
            What::Titles => "the graph has a wrong or missing title in a traced reference and a correct one",
        }
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 10_000,
            Tier::Thorough => 100_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<GraphCase> {
        graph(tier)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "requirement ids are unique in the project",
            "a relation lists every lower artefact once",
            "artefacts are given as JSON files (the other parsers have their own properties)",
        ]
    }
    fn check(&self, case: &GraphCase, env: &Env) -> Res<Info> {
        let w = case.world(Mode::Any);
        let m = w.model();
        let d = env.dir()?;
        let (_, t) = trace_world(&w, env, &d)?;
        check_no_other_errors(&w, &t)?;
        let mut i = Info::new();
        let n_cov: usize = m.covered.iter().map(Vec::len).sum();
        let n_refs: usize = w.arts.iter().flat_map(|a| &a.reqs).map(|r| r.covers.len() + r.depends.len()).sum();
        let n_bad: usize = m.bad_covers.len() + m.bad_depends.len();
        i.label("several relations", w.rels.len() > 1);
        i.label("relation with several lower artefacts", w.rels.iter().any(|r| r.1.len() > 1));
        i.label("upwards coverage", m.covered.iter().flatten().any(|c| c.up));
        i.label("downwards coverage", m.covered.iter().flatten().any(|c| !c.up));
        i.label("more than 60 references", n_refs > 60);
        i.nontrivial = match self.0 {
            What::Coverage => {
                check_coverage(&w, &m, &t)?;
                n_cov > 0 && (n_bad > 0 || n_cov != n_refs)
            }
            What::Uncovered => {
                check_uncovered(&w, &m, &t)?;
                i.label("unused relation", !m.unused.is_empty());
                i.label(
                    "covered along one relation only",
                    (0..w.rels.len()).any(|a| {
                        (0..w.rels.len()).any(|b| {
                            w.rels[a].0 == w.rels[b].0
                                && m.uncovered[a].iter().any(|r| !m.uncovered[b].contains(r))
                        })
                    }),
                );
                n_cov > 0 && (m.uncovered.iter().any(|u| !u.is_empty()) || !m.unused.is_empty())
            }
            What::Derived => {
                check_derived(&m, &t)?;
                i.label("configured to ignore", w.arts.iter().any(|a| a.ignore == Some(true)));
                i.label("configured not to ignore", w.arts.iter().any(|a| a.ignore == Some(false)));
                n_cov > 0 && m.derived.values().any(|d| !d.is_empty())
            }
            What::Dangling => {
                check_dangling(&m, &t)?;
                i.label("unknown in Covers", !m.bad_covers.is_empty());
                i.label("unknown in Depends", !m.bad_depends.is_empty());
                i.label("several references of a pair", m.bad_covers.values().chain(m.bad_depends.values()).any(|v| v.len() > 1));
                n_cov > 0 && n_bad > 0
            }
            What::Titles => {
                check_titles(&w, &m, &t)?;
                check_coverage(&w, &m, &t)?;
                i.label("wrong title in Covers", m.titles.iter().any(|e| matches!(e, E::WrongCover { .. })));
                i.label("wrong title in Depends", m.titles.iter().any(|e| matches!(e, E::WrongDepend { .. })));
                i.label("missing title", m.titles.iter().any(|e| matches!(e, E::NoTitleRef { .. })));
                i.label("requirement without title", !m.untitled.is_empty());
                n_cov > m.titles.len() && !m.titles.is_empty()
            }
        };
        Ok(i)
    }
}
