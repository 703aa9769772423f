//! C06: duplicate requirement ids
use crate::cfg::*;
use crate::core::*;
use crate::graph::*;
use crate::model::*;
use crate::p_graph::*;
use crate::{ensure, viol};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DupCase {
    graph: GraphCase,
    /// (requirement, artefact, position, own references?): defines an id again
    dups: Vec<(u16, u8, u8, u8)>,
    /// functions of a Rust artefact: per file (name, marks)
    files: Vec<Vec<(u8, u8)>>,
    /// headings of a Markdown artefact: id numbers
    md: Vec<u8>,
}

pub struct Dup;

impl Prop for Dup {
    type Case = DupCase;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "at least one id is defined more than once, or (one case in five) none is"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 8_000,
            Tier::Thorough => 80_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<DupCase> {
        (
            graph(tier),
            prop_oneof![
                1 => Just(vec![]),
                5 => prop::collection::vec((any::<u16>(), any::<u8>(), any::<u8>(), any::<u8>()), 1..5)
            ],
            prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(prop::collection::vec((0u8..8, 0u8..3), 0..4), 1..4)],
            prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(0u8..10, 1..8)],
        )
            .prop_map(|(graph, dups, files, md)| DupCase { graph, dups, files, md })
            .boxed()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["an item path is used for one item per Rust file"]
    }
    fn check(&self, case: &DupCase, env: &Env) -> Res<Info> {
        let mut w = case.graph.world(Mode::Any);
        let d = env.dir()?;
        // define ids again
        let mut n = 0;
        for (r, a, pos, refs) in &case.dups {
            let all: Vec<Req> = w.arts.iter().flat_map(|a| a.reqs.iter().cloned()).collect();
            if all.is_empty() {
                continue;
            }
            n += 1;
            let src = &all[*r as usize % all.len()];
            let mut c = src.clone();
            // one in eight: the very same, as when two artefacts read one file
            let same = refs / 4 % 8 == 7;
            if !same {
                c.location = Loc::line("in/again.x", 90_000 + n);
            }
            match refs % 4 {
                _ if same => {}
                0 => {}
                1 => {
                    c.covers.clear();
                    c.depends.clear();
                }
                2 => c.title = Some("Another".into()),
                _ => c.depends.clear(),
            }
            for x in c.covers.iter_mut().chain(c.depends.iter_mut()).filter(|_| !same) {
                x.location.file = format!("in/again{n}.x");
            }
            let k = w.arts.len();
            // two thirds in the same artefact as the source, the others anywhere
            let home = w.arts.iter().position(|x| x.reqs.contains(src)).unwrap();
            let ai = if a % 3 == 0 { home } else { *a as usize % k };
            let len = w.arts[ai].reqs.len();
            w.arts[ai].reqs.insert(*pos as usize % (len + 1), c);
        }
        write_arts(&w, &d)?;
        let mut cfg = world_cfg(&w);
        // artefacts read from other files; (artefact, requirements in reading order)
        let mut others: Vec<(String, Vec<(String, Loc)>)> = vec![];
        if !case.files.is_empty() {
            let mut defs = vec![];
            for (fi, fns) in case.files.iter().enumerate() {
                let mut seen = BTreeSet::new();
                let mut text = String::from("mod m {\n");
                let mut line = 1;
                for (name, marks) in fns {
                    line += 1;
                    let marks = marks + 1;
                    if !seen.insert(name) {
                        text.push('\n');
                        continue;
                    }
                    text.push_str(&format!("    fn f{name}() {{ "));
                    for _ in 0..marks {
                        text.push_str("requirement_covered!(NONE_X); ");
                    }
                    text.push_str("}\n");
                    defs.push((
                        format!("m::f{name}"),
                        Loc { file: format!("src/f{fi}.rs"), location_in_file: Some(LocIn::LineAndColumn(line, 7)) },
                    ));
                }
                text.push_str("}\n");
                d.write(&format!("src/f{fi}.rs"), text)?;
            }
            cfg.arts.push(CfgArt::new("zz rust", "Rust", "src/*.rs"));
            others.push(("zz rust".into(), defs));
        }
        if !case.md.is_empty() {
            let mut text = String::new();
            let mut defs = vec![];
            for (i, x) in case.md.iter().enumerate() {
                // every requirement takes three lines
                text.push_str(&format!("# MD_{x}: Title {i}\ntext\n\n"));
                defs.push((format!("MD_{x}"), Loc::line("x.md", 3 * i as u64 + 1)));
            }
            d.write("x.md", text)?;
            cfg.arts.push(CfgArt::new("zz md", "Markdown", "x.md"));
            if case.md[0] < 3 {
                // the same file once more
                cfg.arts.push(CfgArt::new("zz md again", "Markdown", "x.md"));
                others.push(("zz md again".into(), defs.clone()));
            }
            others.push(("zz md".into(), defs));
        }
        cfg.job("t", "Trace", "Json", "out/t.json");
        cfg.job("g", "Trace", "GnuError", "out/g.txt");
        cfg.job("m", "Trace", "Markdown", "out/m.md");
        cfg.write(&d)?;
        let run = env.run(&d.0, &["-c", "config.toml", "t", "g", "m"])?;
        let status = run.ran()?;
        let mut t: TraceOut = d.report_json("out/t.json")?;

        // what is expected
        let mut all: Vec<(String, Vec<(String, Loc)>)> = w
            .arts
            .iter()
            .map(|a| (a.id.clone(), a.reqs.iter().map(|r| (r.id.clone(), r.location.clone())).collect()))
            .collect();
        all.extend(others.clone());
        let mut kept: BTreeMap<String, Vec<Loc>> = BTreeMap::new();
        let mut dup_ids: BTreeSet<String> = BTreeSet::new();
        let mut any_dup = false;
        let (mut inside, mut across) = (false, false);
        for (a, defs) in &all {
            let mut first: BTreeMap<&str, &Loc> = BTreeMap::new();
            let mut want = vec![];
            for (id, loc) in defs {
                match first.get(id.as_str()) {
                    None => {
                        first.insert(id, loc);
                        kept.entry(id.clone()).or_default().push(loc.clone());
                    }
                    Some(f) => {
                        any_dup = true;
                        inside = true;
                        dup_ids.insert(id.clone());
                        want.push(E::DupReq { id: id.clone(), locs: [(*f).clone(), loc.clone()].into() });
                    }
                }
            }
            let Some(out) = t.trace.artefacts.get(a) else { viol!("artefact {a:?} is missing in the report") };
            let got: Vec<E> = errs(&out.errors).into_iter().map(norm).filter(|e| matches!(e, E::DupReq { .. })).collect();
            if let Some(x) = first_diff(&want, &got) {
                viol!("duplicates in artefact {a:?}: {x}");
            }
            for e in errs(&out.errors) {
                ensure!(matches!(e, E::DupReq { .. } | E::NoTitleReq { .. }), "unexpected input error {e:?}");
            }
            let got: BTreeMap<&str, Loc> =
                out.requirements.iter().map(|(k, v)| (k.as_str(), norm_loc(v.location.clone()))).collect();
            let want: BTreeMap<&str, Loc> = first.iter().map(|(k, v)| (*k, (*v).clone())).collect();
            ensure!(got == want, "artefact {a:?} has requirements {got:?}, expected the first definitions {want:?}");
        }
        let mut got: BTreeMap<String, Vec<BTreeSet<Loc>>> = BTreeMap::new();
        for e in errs(&t.trace.errors).into_iter().map(norm) {
            match e {
                E::DupReq { id, locs } => got.entry(id).or_default().push(locs),
                E::Other(e) => viol!("unexpected error {e}"),
                _ => {}
            }
        }
        for (id, locs) in &kept {
            if locs.len() > 1 {
                any_dup = true;
                across = true;
                dup_ids.insert(id.clone());
                let g = got.get(id).cloned().unwrap_or_default();
                ensure!(
                    g.len() == locs.len() - 1,
                    "{id:?} is defined in {} artefacts, {} duplicates reported",
                    locs.len(),
                    g.len()
                );
                let union: BTreeSet<Loc> = g.iter().flatten().cloned().collect();
                let want: BTreeSet<Loc> = locs.iter().cloned().collect();
                ensure!(
                    union == want && (want.len() < locs.len() || g.iter().all(|s| s.len() == 2)),
                    "duplicates of {id:?} at {g:?}, it is defined at {want:?}"
                );
            } else {
                ensure!(!got.contains_key(id), "{id:?} is unique but reported as duplicate");
            }
        }
        ensure!(got.keys().all(|k| kept.contains_key(k)), "unknown id reported as duplicate: {got:?}");
        if any_dup {
            ensure!(status == 1, "duplicates do not make the trace job fail");
        }

        // clean requirements are not affected
        let clean: BTreeSet<&str> = {
            let mut touched: BTreeSet<&str> = dup_ids.iter().map(String::as_str).collect();
            let mut add = BTreeSet::new();
            for r in w.arts.iter().flat_map(|a| &a.reqs) {
                for x in r.covers.iter().chain(&r.depends) {
                    if dup_ids.contains(&x.id) {
                        add.insert(r.id.as_str());
                    }
                    if dup_ids.contains(&r.id) {
                        add.insert(x.id.as_str());
                    }
                }
            }
            touched.extend(add);
            w.arts.iter().flat_map(|a| &a.reqs).map(|r| r.id.as_str()).filter(|i| !touched.contains(i)).collect()
        };
        let mut kw = w.clone();
        for a in &mut kw.arts {
            let mut seen = BTreeSet::new();
            a.reqs.retain(|r| seen.insert(r.id.clone()));
        }
        let mut m = kw.model();
        for c in &mut m.covered {
            c.retain(|c| clean.contains(c.upper.as_str()) && clean.contains(c.lower.as_str()));
        }
        for u in &mut m.uncovered {
            u.retain(|u| clean.contains(u.as_str()));
        }
        for u in m.derived.values_mut() {
            u.retain(|u| clean.contains(u.as_str()));
        }
        for r in &mut t.trace.traced_relations {
            r.covered.retain(|c| clean.contains(c.upper.as_str()) && clean.contains(c.lower.as_str()));
            r.uncovered.retain(|u| clean.contains(u.as_str()));
        }
        for (_, u) in t.trace.derived.iter_mut() {
            u.retain(|u| clean.contains(u.as_str()));
        }
        t.trace.derived.retain(|k, _| !k.starts_with("zz "));
        check_coverage(&kw, &m, &t)?;
        check_derived(&m, &t)?;
        for (i, r) in t.trace.traced_relations.iter().enumerate() {
            let want: Vec<String> = m.uncovered[i].iter().cloned().collect();
            if let Some(d) = first_diff(&want, &r.uncovered) {
                viol!("uncovered along relation {:?}: {d}", w.rel_ids(i));
            }
        }

        let mut i = Info::new();
        i.label("duplicate in one artefact", inside);
        i.label("duplicate in several artefacts", across);
        i.label("id defined three times or more", kept.values().any(|l| l.len() > 2));
        i.label("no duplicate", !any_dup);
        i.label("Rust artefact of several files", case.files.len() > 1);
        i.nontrivial = any_dup || case.dups.is_empty();
        Ok(i)
    }
}

pub fn norm_loc(mut l: Loc) -> Loc {
    while let Some(f) = l.file.strip_prefix("./") {
        l.file = f.to_owned();
    }
    l
}

pub fn norm(e: E) -> E {
    match e {
        E::DupReq { id, locs } => E::DupReq { id, locs: locs.into_iter().map(norm_loc).collect() },
        E::Format(l) => E::Format(norm_loc(l)),
        E::DupAttr { loc, attr, req } => E::DupAttr { loc: norm_loc(loc), attr, req },
        E::Io { path } => E::Io { path: path.trim_start_matches("./").to_owned() },
        e => e,
    }
}
