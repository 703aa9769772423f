//! C30: names mean nothing but themselves
use crate::cfg::*;
use crate::core::*;
use crate::graph::*;
use crate::model::*;
use crate::p_paths::findings;
use crate::proj::all_jobs;
use crate::strat::*;
use crate::{ensure, viol};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RenameCase {
    graph: GraphCase,
    ids: Vec<String>,
    titles: Vec<String>,
    arts: Vec<String>,
    files: Vec<String>,
}

pub struct Rename;

/// text that means something elsewhere
fn name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => ident(),
        3 => wild(),
        1 => "(a|A|ä|a\u{308}|á|é|e\u{301}|ﬁ|fi|ß|ss|SS|ſ|s|K|k|İ|i|ı|1|01|001|1.0|true|null|-|--|-1)",
        1 => "REQ_[0-9]{1,3}",
        2 => prop::sample::select(TITLE_WORDS).prop_map(str::to_owned),
        2 => prop::sample::select(ID_WORDS).prop_map(str::to_owned),
        1 => "[a-c](::[a-c]){0,2}",
        1 => "( |\t|\n|\u{a0}){0,2}[a-c]( |\t|\n|\u{a0}){0,2}",
        1 => "[%{}\\$\"'`<>&|*?\\[\\]()#~!;,./=+^-]{1,4}",
    ]
    .boxed()
}

/// one name to one other name
#[derive(Default)]
struct Map {
    to: BTreeMap<String, String>,
    used: HashSet<String>,
}

impl Map {
    fn add(&mut self, s: &str, pool: &[String]) {
        if self.to.contains_key(s) || pool.is_empty() {
            return;
        }
        let n = self.to.len();
        let mut t = pool[n % pool.len()].clone();
        while !self.used.insert(t.clone()) {
            t = format!("{t}{n}");
        }
        self.to.insert(s.to_owned(), t);
    }
    fn get(&self, s: &mut String) {
        if let Some(t) = self.to.get(s.as_str()) {
            s.clone_from(t);
        }
    }
}

struct Names {
    ids: Map,
    titles: Map,
    arts: Map,
    files: Map,
}

impl Names {
    fn title(&self, t: &mut Option<String>) {
        if let Some(t) = t {
            self.titles.get(t);
        }
    }
    fn req(&self, r: &mut Req) {
        self.ids.get(&mut r.id);
        self.title(&mut r.title);
        self.files.get(&mut r.location.file);
        for x in r.covers.iter_mut().chain(&mut r.depends) {
            self.ids.get(&mut x.id);
            self.title(&mut x.title);
            self.files.get(&mut x.location.file);
        }
    }
    fn err(&self, e: &mut E) {
        let loc = |l: &mut Loc| self.files.get(&mut l.file);
        match e {
            E::WrongCover { upper, lower, title, loc: l } | E::WrongDepend { upper, lower, title, loc: l } => {
                self.ids.get(upper);
                self.ids.get(lower);
                self.titles.get(title);
                loc(l);
            }
            E::NoTitleRef { referenced, loc: l } => {
                self.ids.get(referenced);
                loc(l);
            }
            E::NoTitleReq { id } => self.ids.get(id),
            E::DependUnknown { req, id, loc: l } | E::CoverUnknown { req, id, loc: l } => {
                self.ids.get(req);
                self.ids.get(id);
                loc(l);
            }
            E::Unused { upper, lower } => {
                self.arts.get(upper);
                lower.iter_mut().for_each(|l| self.arts.get(l));
            }
            _ => {}
        }
    }
}

impl Prop for Rename {
    type Case = RenameCase;
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> &'static str {
        "there is coverage, and a finding"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 5_000,
            Tier::Thorough => 60_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<RenameCase> {
        let names = || prop_oneof![1 => Just(vec![]), 4 => prop::collection::vec(name(), 1..8)];
        let files = prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(name(), 1..4)];
        (graph(tier), prop::collection::vec(name(), 1..12), names(), names(), files)
            .prop_map(|(graph, ids, titles, arts, files)| RenameCase { graph, ids, titles, arts, files })
            .boxed()
    }
    fn check(&self, case: &RenameCase, env: &Env) -> Res<Info> {
        let w = case.graph.world(Mode::Any);
        let mut names = Names { ids: Map::default(), titles: Map::default(), arts: Map::default(), files: Map::default() };
        for a in &w.arts {
            names.arts.add(&a.id, &case.arts);
            for r in &a.reqs {
                names.ids.add(&r.id, &case.ids);
                names.files.add(&r.location.file, &case.files);
                if let Some(t) = &r.title {
                    names.titles.add(t, &case.titles);
                }
                for x in r.covers.iter().chain(&r.depends) {
                    names.ids.add(&x.id, &case.ids);
                    names.files.add(&x.location.file, &case.files);
                    if let Some(t) = &x.title {
                        names.titles.add(t, &case.titles);
                    }
                }
            }
        }
        let mut v = w.clone();
        for a in &mut v.arts {
            names.arts.get(&mut a.id);
            a.reqs.iter_mut().for_each(|r| names.req(r));
        }
        let run = |w: &World| -> Res<(i32, TraceOut, Vec<usize>)> {
            let d = env.dir()?;
            write_arts(w, &d)?;
            let mut c: Cfg = world_cfg(w);
            let jobs = all_jobs(&mut c);
            c.write(&d)?;
            let mut args = vec!["-c", "config.toml"];
            args.extend(&jobs);
            let s = env.run(&d.0, &args)?.ran()?;
            let p: ParseOut = d.report_json("out/pj")?;
            Ok((s, d.report_json("out/tj")?, vec![p.requirements.len(), p.errors.len()]))
        };
        let (s0, t0, n0) = run(&w)?;
        let (s1, t1, n1) = run(&v)?;
        ensure!(s0 == s1, "exit status {s0}, with other names {s1}");
        ensure!(n0 == n1, "the parse job lists {n0:?} requirements and errors, with other names {n1:?}");
        let mut a = findings(t0);
        let b = findings(t1);
        for r in &mut a.0 {
            names.arts.get(&mut r.0);
            r.1.iter_mut().for_each(|l| names.arts.get(l));
            for c in &mut r.2 {
                names.ids.get(&mut c.upper);
                names.ids.get(&mut c.lower);
                names.files.get(&mut c.loc.file);
            }
            r.2.sort();
            r.3.iter_mut().for_each(|x| names.ids.get(x));
            r.3.sort();
        }
        a.0.sort();
        for (x, y) in a.0.iter().zip(&b.0) {
            ensure!(x == y, "relation {x:?}, with other names {y:?}");
        }
        ensure!(a.0.len() == b.0.len(), "{} relations, with other names {}", a.0.len(), b.0.len());
        let derived: BTreeMap<String, Vec<String>> = std::mem::take(&mut a.1)
            .into_iter()
            .map(|(mut k, mut v)| {
                names.arts.get(&mut k);
                v.iter_mut().for_each(|x| names.ids.get(x));
                v.sort();
                (k, v)
            })
            .collect();
        ensure!(derived == b.1, "derived {derived:?}, with other names {:?}", b.1);
        a.2.iter_mut().for_each(|e| names.err(e));
        a.2.sort();
        if let Some(x) = crate::p_graph::first_diff(&a.2, &b.2) {
            viol!("tracing errors, with other names: {x}");
        }
        ensure!(a.3.len() == b.3.len(), "{} artefacts, with other names {}", a.3.len(), b.3.len());
        for (mut k, (mut reqs, mut e)) in a.3 {
            names.arts.get(&mut k);
            reqs.iter_mut().for_each(|r| names.req(r));
            reqs.sort();
            e.iter_mut().for_each(|e| names.err(e));
            e.sort();
            let Some(y) = b.3.get(&k) else { viol!("artefact {k:?} is missing") };
            let mut yr = y.0.clone();
            yr.sort();
            ensure!(reqs == yr, "artefact {k:?} has {reqs:?}, with other names {yr:?}");
            ensure!(e == y.1, "artefact {k:?} has {e:?}, with other names {:?}", y.1);
        }
        let mut i = Info::new();
        let covered = a.0.iter().any(|r| !r.2.is_empty());
        i.label("titles, too", !case.titles.is_empty());
        i.label("artefacts, too", !case.arts.is_empty());
        i.label("places, too", !case.files.is_empty());
        i.nontrivial = covered && s0 == 1;
        Ok(i)
    }
}
