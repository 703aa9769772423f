//! C24: the reports of a parse job; C20: tags
use crate::cfg::*;
use crate::core::*;
use crate::model::*;
use crate::proj::*;
use crate::rs::strip;
use crate::{ensure, viol};
use proptest::prelude::*;
use std::collections::BTreeMap;

/// `[file:line](...)` as in the Markdown reports, up to what it shows
pub fn link_text(l: &Loc) -> Vec<String> {
    match &l.location_in_file {
        Some(LocIn::Line(n)) => vec![format!("{}:{n}", l.file)],
        Some(LocIn::LineAndColumn(n, c)) => vec![format!("{}:{n}:{c}", l.file)],
        Some(LocIn::String(s)) => vec![l.file.clone(), s.clone()],
        None => vec![l.file.clone()],
    }
}

/// lines that are not blank, without white space at the end
pub fn solid(s: &str) -> Vec<String> {
    s.lines().map(|l| l.trim_end().to_owned()).filter(|l| !l.is_empty()).collect()
}

/// the lines of a requirement below the `Origin` line
fn body(r: &Req) -> Vec<String> {
    let mut v = vec![];
    if let Some(d) = r.attributes.get("Description") {
        v.extend(solid(d));
    }
    for (name, refs) in [("Covers:", &r.covers), ("Depends:", &r.depends)] {
        if !refs.is_empty() {
            v.push(name.to_owned());
            for c in refs {
                v.extend(solid(&match &c.title {
                    Some(t) => format!("*   {}: {t}", c.id),
                    None => format!("*   {}", c.id),
                }));
            }
        }
    }
    v.extend(attributes(r));
    v
}

/// attributes other than the description, as in both Markdown reports
pub fn attributes(r: &Req) -> Vec<String> {
    let mut v = vec![];
    for (k, t) in &r.attributes {
        let t = t.trim();
        if k != "Description" && !t.is_empty() {
            v.push(format!("{k}:"));
            v.extend(solid(t));
        }
    }
    v
}

pub struct ParseJob;

impl Prop for ParseJob {
    type Case = Proj;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "the project has requirements in artefacts of at least two parsers, or in two files of an artefact"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 5_000,
            Tier::Thorough => 60_000,
        }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Proj> {
        with_shared(proj(ProjSize { bad: true, max: 2 }))
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "ids, titles, file names have one line",
            "requirements with malformed Markdown lines may be incomplete (C08)",
            "white space inside Rust item paths, blank lines and white space at line ends are not compared",
        ]
    }
    fn check(&self, case: &Proj, env: &Env) -> Res<Info> {
        let p = case.render();
        let d = env.dir()?;
        p.write(&d)?;
        let mut c = p.cfg();
        all_jobs(&mut c);
        c.write(&d)?;
        let run = env.run(&d.0, &["-c", "config.toml", "pj", "pm"])?;
        let status = run.ran()?;
        let want_errs: Vec<Want> = p.arts.iter().flat_map(|a| a.errors.clone()).collect();
        ensure!(status == i32::from(!want_errs.is_empty()), "status {status}, expected errors {want_errs:?}");

        // Json
        let out: ParseOut = d.report_json("out/pj")?;
        let all = PArt {
            cfg: CfgArt::default(),
            files: vec![],
            reqs: p.arts.iter().flat_map(|a| a.reqs.clone()).collect(),
            errors: vec![],
            vague: p.arts.iter().flat_map(|a| a.vague.clone()).collect(),
        };
        match_reqs(&all, &out.requirements)?;
        for w in out.requirements.windows(2) {
            ensure!(w[0].id.as_bytes() <= w[1].id.as_bytes(), "{:?} is listed before {:?}", w[0].id, w[1].id);
        }
        let got: Vec<E> = errs(&out.errors).into_iter().map(perr).collect();
        match_errors(&want_errs, &got)?;

        // Markdown: the same requirements in the same order
        let text = d.report_str("out/pm")?;
        let mut lines: Vec<&str> = text.lines().map(str::trim_end).filter(|l| !l.is_empty()).collect();
        let start = lines.iter().position(|l| l.starts_with("### ")).unwrap_or(lines.len());
        let head: Vec<&str> = lines.drain(..start).collect();
        let mut at = 0;
        let mut todo: Vec<&Req> = out.requirements.iter().collect();
        while !todo.is_empty() {
            // requirements with the same id are in any order
            let same = todo.iter().take_while(|r| r.id == todo[0].id).count();
            let mut fails = vec![];
            let fit = (0..same).find_map(|k| match section(&lines[at..], todo[k]) {
                Ok(n) => Some((k, n)),
                Err(e) => {
                    fails.push(e);
                    None
                }
            });
            match fit {
                Some((k, n)) => {
                    at += n;
                    todo.remove(k);
                }
                None => viol!("Markdown report: {}", fails[0]),
            }
        }
        ensure!(at == lines.len(), "Markdown report: {:?} does not belong to any requirement", lines[at]);
        // and every error
        let head = head.join("\n");
        for a in &p.arts {
            ensure!(
                head.lines().any(|l| l == format!("## {}", a.cfg.id)) == !a.errors.is_empty(),
                "Markdown report: input errors of {:?}: {head}",
                a.cfg.id
            );
        }
        let n = head.lines().filter(|l| l.starts_with("*   ")).count();
        ensure!(n == want_errs.len(), "Markdown report has {n} input errors, expected {}", want_errs.len());
        for e in &got {
            let shown = match e {
                E::Format(l) => link_text(l),
                E::DupAttr { loc, attr, .. } => [link_text(loc), vec![attr.clone()]].concat(),
                E::DupReq { locs, .. } => locs.iter().flat_map(link_text).collect(),
                _ => vec![],
            };
            for s in shown {
                ensure!(head.contains(&s), "Markdown report does not show {s:?} of {e:?}");
            }
        }

        let mut i = Info::new();
        let with: Vec<&PArt> = p.arts.iter().filter(|a| !a.reqs.is_empty()).collect();
        let mut per: BTreeMap<&str, usize> = BTreeMap::new();
        for a in &with {
            *per.entry(a.cfg.parser).or_default() += 1;
        }
        i.label("three or more parsers", per.len() > 2);
        i.label("Rust artefact with several files", case.rs.len() > 1);
        i.label("errors", !want_errs.is_empty());
        i.label("id in several artefacts", !case.shared.is_empty());
        i.label("the same item path in two files", want_errs.iter().any(|w| matches!(w, Want::E(E::DupReq { .. }))));
        i.label("more than 20 requirements", all.reqs.len() > 20);
        i.nontrivial = per.len() > 1 || (case.rs.len() > 1 && per.contains_key("Rust"));

        // Json trace: requirements, errors and files per artefact
        let run = env.run(&d.0, &["-c", "config.toml", "tj"])?;
        run.ran()?;
        let t: TraceOut = d.report_json("out/tj")?;
        ensure!(t.trace.artefacts.len() == p.arts.len(), "{} artefacts in the trace", t.trace.artefacts.len());
        for a in &p.arts {
            let Some(o) = t.trace.artefacts.get(&a.cfg.id) else { viol!("artefact {:?} is missing in the trace", a.cfg.id) };
            let want = a.files.iter().cloned().collect();
            ensure!(files_of(o) == want, "files of {:?}: {:?}, expected {want:?}", a.cfg.id, o.files);
            ensure!(o.files.len() == a.files.len(), "a file is listed twice: {:?}", o.files);
            let reqs: Vec<Req> = o.requirements.values().cloned().collect();
            match_reqs(a, &reqs)?;
            let got: Vec<E> = errs(&o.errors).into_iter().map(perr).collect();
            match_errors(&a.errors, &got)?;
        }
        Ok(i)
    }
}

/// the section of a requirement; how many lines it has
fn section(lines: &[&str], r: &Req) -> Result<usize, String> {
    let mut at = 0;
    let mut next = |what: &str, ok: &dyn Fn(&str) -> bool| match lines.get(at) {
        Some(l) if ok(l) => {
            at += 1;
            Ok(())
        }
        other => Err(format!("{what} of {:?} expected, found {other:?}", r.id)),
    };
    let heading = format!("### {}: {}", r.id, r.title.as_deref().unwrap_or_default());
    next("heading", &|l| l == heading.trim_end())?;
    let loc = &r.location;
    next(&format!("origin {loc:?}"), &|l| match (l.strip_prefix("Origin: ["), &loc.location_in_file) {
        (None, _) => false,
        (Some(l), Some(LocIn::String(s))) => l.starts_with(&format!("{}](", loc.file)) && l.ends_with(s.as_str()),
        (Some(l), _) => l.starts_with(&format!("{}](", loc.show())),
    })?;
    for want in body(r) {
        next(&format!("line {want:?}"), &|l| l == want)?;
    }
    Ok(at)
}

pub struct Tags;

impl Prop for Tags {
    type Case = Proj;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "at least two requirements have a line and one has none"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 6_000,
            Tier::Thorough => 80_000,
        }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Proj> {
        let json = prop::collection::vec(prop::collection::vec(sane_req(), 0..12), 1..3);
        with_shared((proj(ProjSize { bad: false, max: 1 }), json).prop_map(|(p, json)| Proj { json, ..p }).boxed())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "ids and file names contain no tabs or line breaks, ids do not start with a character up to `!`",
            "white space inside Rust item paths is not compared",
        ]
    }
    fn check(&self, case: &Proj, env: &Env) -> Res<Info> {
        let p = case.render();
        let d = env.dir()?;
        p.write(&d)?;
        let mut c = p.cfg();
        all_jobs(&mut c);
        c.write(&d)?;
        let run = env.run(&d.0, &["-c", "config.toml", "pt"])?;
        run.ran()?;
        let text = d.report_str("out/pt")?;
        ensure!(text.is_empty() || text.ends_with('\n'), "the last line is not complete");
        let lines: Vec<&str> = text.split_terminator('\n').collect();
        for w in lines.windows(2) {
            ensure!(w[0].as_bytes() <= w[1].as_bytes(), "not sorted: {:?} is before {:?}", w[0], w[1]);
        }
        let mut want: Vec<(String, String, u64)> = vec![];
        let mut without = 0;
        for r in p.arts.iter().flat_map(|a| &a.reqs) {
            match r.location.line_no() {
                Some(l) => want.push((strip(&r.id), r.location.file.clone(), l)),
                None => without += 1,
            }
        }
        let mut got = vec![];
        let mut sorted_1 = false;
        for l in &lines {
            if l.starts_with("!_TAG_") {
                sorted_1 |= l.starts_with("!_TAG_FILE_SORTED\t1");
                continue;
            }
            let f: Vec<&str> = l.split('\t').collect();
            let [id, file, addr, kind] = f[..] else { viol!("not a tag line: {l:?}") };
            ensure!(kind == "r", "kind {kind:?} in {l:?}");
            let Some(n) = addr.strip_suffix(";\"").and_then(|n| n.parse().ok()) else { viol!("no line number in {l:?}") };
            let file = file.strip_prefix("./").unwrap_or(file);
            got.push((strip(id), file.to_owned(), n));
        }
        ensure!(sorted_1, "the file does not say that it is sorted");
        if let Some(x) = crate::p_graph::first_diff(&want, &got) {
            viol!("tags: {x}");
        }
        let mut i = Info::new();
        i.label("more than 10 tags", want.len() > 10);
        i.label("id in several artefacts", !case.shared.is_empty());
        i.label("requirements without line", without > 0);
        i.label("Rust item paths", !case.rs.is_empty());
        i.nontrivial = want.len() > 1 && without > 0;
        Ok(i)
    }
}
