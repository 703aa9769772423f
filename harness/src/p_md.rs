//! C07, C08, C09: Markdown artefacts
use crate::cfg::*;
use crate::core::*;
use crate::md::*;
use crate::model::*;
use crate::p_dup::{norm, norm_loc};
use crate::p_graph::first_diff;
use crate::{ensure, viol};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// requirement in comparable form
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct NReq {
    pub id: String,
    pub title: Option<String>,
    pub loc: Loc,
    pub covers: Vec<Ref>,
    pub depends: Vec<Ref>,
    pub attrs: BTreeMap<String, Vec<String>>,
}

pub fn nreq(r: &Req) -> NReq {
    let refs = |v: &[Ref]| {
        v.iter().map(|r| Ref { location: norm_loc(r.location.clone()), ..r.clone() }).collect::<Vec<_>>()
    };
    NReq {
        id: r.id.clone(),
        title: r.title.clone(),
        loc: norm_loc(r.location.clone()),
        covers: refs(&r.covers),
        depends: refs(&r.depends),
        attrs: r.attributes.iter().map(|(k, v)| (k.clone(), norm_text(v))).collect(),
    }
}

/// several requirements may have the same id
pub fn compare_all(want: &[NReq], got: &[NReq]) -> Res<()> {
    let ids: BTreeSet<&str> = want.iter().chain(got).map(|r| r.id.as_str()).collect();
    for id in ids {
        let mut w: Vec<NReq> = want.iter().filter(|r| r.id == id).cloned().collect();
        let mut g: Vec<NReq> = got.iter().filter(|r| r.id == id).cloned().collect();
        ensure!(w.len() == g.len(), "requirement {id:?} is listed {} times, expected {}", g.len(), w.len());
        w.sort_by_key(|r| format!("{r:?}"));
        g.sort_by_key(|r| format!("{r:?}"));
        for (w, g) in w.into_iter().zip(g) {
            compare_reqs(&[w], &[g])?;
        }
    }
    Ok(())
}

pub fn compare_reqs(want: &[NReq], got: &[NReq]) -> Res<()> {
    let w: BTreeMap<&str, &NReq> = want.iter().map(|r| (r.id.as_str(), r)).collect();
    let mut g: BTreeMap<&str, &NReq> = BTreeMap::new();
    for r in got {
        ensure!(g.insert(&r.id, r).is_none(), "requirement {:?} is listed twice", r.id);
    }
    for (id, r) in &w {
        match g.get(id) {
            None => viol!("requirement {id:?} is missing"),
            Some(x) => {
                ensure!(x.title == r.title, "{id:?} has title {:?}, expected {:?}", x.title, r.title);
                ensure!(x.loc == r.loc, "{id:?} is at {:?}, expected {:?}", x.loc, r.loc);
                ensure!(x.covers == r.covers, "{id:?} covers {:?}, expected {:?}", x.covers, r.covers);
                ensure!(x.depends == r.depends, "{id:?} depends on {:?}, expected {:?}", x.depends, r.depends);
                ensure!(x.attrs == r.attrs, "{id:?} has attributes {:?}, expected {:?}", x.attrs, r.attrs);
            }
        }
    }
    for id in g.keys() {
        ensure!(w.contains_key(id), "unexpected requirement {id:?}");
    }
    Ok(())
}

pub fn parse_md(env: &Env, text: &[u8]) -> Res<(i32, ParseOut)> {
    let d = env.dir()?;
    d.write("x.md", text)?;
    parse_project(env, &d, vec![CfgArt::new("md", "Markdown", "x.md")])
}

fn labels(i: &mut Info, r: &Rendered, len: usize) {
    i.label("reference with title", r.reqs.iter().any(|q| q.covers.iter().chain(&q.depends).any(|x| x.title.is_some())));
    i.label("several paragraphs", r.reqs.iter().any(|q| q.attributes.get("Description").is_some_and(|d| norm_text(d).contains(&String::new()))));
    i.label("text attribute", r.reqs.iter().any(|q| q.attributes.keys().any(|k| k != "Description")));
    i.label("more than 8 KiB", len > 8192);
}

pub struct WellFormed;

impl Prop for WellFormed {
    type Case = Doc;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "the document states a requirement with a reference or a description"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 8_000,
            Tier::Thorough => 120_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Doc> {
        doc(false, tier == Tier::Thorough)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "ids are unique in the document",
            "ordinary headings inside a requirement have its level or less (deeper ones are documented but not implemented)",
            "text is compared line by line without trailing white space and repeated blank lines",
            "the attributes Description and Tags are not written as attribute paragraphs",
        ]
    }
    fn check(&self, case: &Doc, env: &Env) -> Res<Info> {
        let r = case.render("x.md");
        let text = r.text();
        let (status, out) = parse_md(env, text.as_bytes())?;
        ensure!(out.errors.is_empty(), "errors in a well-formed document: {:?}", errs(&out.errors));
        ensure!(status == 0, "status {status} for a well-formed document");
        let want: Vec<NReq> = r.reqs.iter().map(nreq).collect();
        let got: Vec<NReq> = out.requirements.iter().map(nreq).collect();
        compare_reqs(&want, &got)?;
        let mut i = Info::new();
        labels(&mut i, &r, text.len());
        i.label("ordinary heading after a requirement", case.items.windows(2).any(|w| matches!((&w[0], &w[1]), (Item::Req(_), Item::Plain(_)))));
        i.nontrivial = r.reqs.iter().any(|q| !q.covers.is_empty() || !q.depends.is_empty() || !q.attributes.is_empty());
        Ok(i)
    }
}

pub struct Malformed;

impl Prop for Malformed {
    type Case = Doc;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "the document has at least one malformed line and a requirement without one"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 8_000,
            Tier::Thorough => 120_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Doc> {
        doc(true, tier == Tier::Thorough)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "at most one malformed line per requirement",
            "nothing is said about the requirement that contains the malformed line, except that its references are among those written",
        ]
    }
    fn check(&self, case: &Doc, env: &Env) -> Res<Info> {
        let r = case.render("x.md");
        let text = r.text();
        let (status, out) = parse_md(env, text.as_bytes())?;
        let got: Vec<E> = errs(&out.errors).into_iter().map(norm).collect();
        if let Some(d) = first_diff(&r.errors, &got) {
            viol!("errors: {d}");
        }
        ensure!(status == i32::from(!r.errors.is_empty()), "status {status} with {} errors", r.errors.len());
        let want: Vec<NReq> = r.reqs.iter().filter(|q| !r.bad.contains(&q.id)).map(nreq).collect();
        let got: Vec<NReq> = out.requirements.iter().filter(|q| !r.bad.contains(&q.id)).map(nreq).collect();
        compare_reqs(&want, &got)?;
        for g in out.requirements.iter().filter(|q| r.bad.contains(&q.id)).map(nreq) {
            let w = nreq(r.reqs.iter().find(|q| q.id == g.id).unwrap());
            ensure!(g.title == w.title && g.loc == w.loc, "{:?} has title {:?} at {:?}", g.id, g.title, g.loc);
            // a repeated list may be read at its second place
            let names = |v: &[Ref]| v.iter().map(|x| (x.id.clone(), x.title.clone())).collect::<BTreeSet<_>>();
            for (a, b) in [(&g.covers, &w.covers), (&g.depends, &w.depends)] {
                ensure!(
                    names(a).is_subset(&names(b)),
                    "{:?} got references {:?} that nobody wrote ({:?})",
                    g.id,
                    names(a),
                    names(b)
                );
            }
        }
        let mut i = Info::new();
        labels(&mut i, &r, text.len());
        i.label("malformed line", r.errors.iter().any(|e| matches!(e, E::Format(_))));
        i.label("duplicate attribute", r.errors.iter().any(|e| matches!(e, E::DupAttr { .. })));
        i.nontrivial = !r.errors.is_empty() && r.bad.len() < r.reqs.len();
        Ok(i)
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct WsCase {
    doc: Doc,
    crlf: bool,
    blanks: u64,
    trailing: u64,
}

pub struct Whitespace;

impl Prop for Whitespace {
    type Case = WsCase;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "the changed document differs from the original and states a requirement with references or text"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 5_000,
            Tier::Thorough => 80_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<WsCase> {
        (
            prop_oneof![2 => doc(false, tier == Tier::Thorough), 1 => doc(true, tier == Tier::Thorough)],
            any::<bool>(),
            prop_oneof![1 => Just(0u64), 1 => Just(u64::MAX), 2 => any::<u64>()],
            prop_oneof![1 => Just(0u64), 1 => Just(u64::MAX), 2 => any::<u64>()],
        )
            .prop_map(|(doc, crlf, blanks, trailing)| WsCase { doc, crlf, blanks, trailing })
            .boxed()
    }
    fn check(&self, case: &WsCase, env: &Env) -> Res<Info> {
        let r = case.doc.render("x.md");
        let plain = r.text();
        let mut v = r.clone();
        let (mut b, mut t) = (false, false);
        for (n, (k, l)) in v.lines.iter_mut().enumerate() {
            let sel = |m: u64| m.rotate_right(n as u32 % 64) & 1 == 1;
            match k {
                Kind::Blank if sel(case.blanks) => {
                    b = true;
                    *l = [" ", "\t", "    ", " \t ", "\u{a0}"][n % 4].to_owned();
                }
                Kind::Heading | Kind::AttrLine | Kind::BulletLine if sel(case.trailing) => {
                    t = true;
                    l.push_str([" ", "\t", "   ", " \t"][n % 4]);
                }
                _ => {}
            }
        }
        let mut text = v.text();
        if case.crlf {
            text = text.replace('\n', "\r\n");
        }
        let (s1, o1) = parse_md(env, plain.as_bytes())?;
        let (s2, o2) = parse_md(env, text.as_bytes())?;
        let n = |o: &ParseOut| o.requirements.iter().map(nreq).collect::<Vec<_>>();
        compare_reqs(&n(&o1), &n(&o2))?;
        // every line of a text, blank ones too
        let texts = |o: &ParseOut| -> BTreeMap<(String, String), Vec<String>> {
            o.requirements
                .iter()
                .flat_map(|r| r.attributes.iter().map(|(k, v)| ((r.id.clone(), k.clone()), v.trim_end().lines().map(|l| l.trim_end().to_owned()).collect())))
                .collect()
        };
        let (x1, x2) = (texts(&o1), texts(&o2));
        for (k, v) in &x1 {
            ensure!(x2.get(k) == Some(v), "text of {k:?} is {:?}, expected {v:?}", x2.get(k));
        }
        let e = |o: &ParseOut| errs(&o.errors).into_iter().map(norm).collect::<Vec<_>>();
        if let Some(d) = first_diff(&e(&o1), &e(&o2)) {
            viol!("errors: {d}");
        }
        ensure!(s1 == s2, "status {s2} instead of {s1}");
        let mut i = Info::new();
        labels(&mut i, &r, text.len());
        i.label("CRLF", case.crlf);
        i.label("blank lines with white space", b);
        i.label("trailing white space", t);
        i.label("malformed lines", !r.errors.is_empty());
        i.nontrivial = text != plain && r.reqs.iter().any(|q| !q.covers.is_empty() || !q.depends.is_empty() || !q.attributes.is_empty());
        Ok(i)
    }
}
