//! C12: JSON import and export
use crate::cfg::*;
use crate::core::*;
use crate::md::uniq;
use crate::model::*;
use crate::proj::*;
use crate::ensure;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, HashSet};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct JsonCase {
    /// (form of the file, requirements) per artefact
    arts: Vec<(u8, Vec<Req>)>,
    /// artefacts that cannot be read
    failing: Vec<u8>,
    /// (artefact, requirement) that is defined once more
    #[serde(default)]
    dups: Vec<(u8, u8)>,
}

/// JSON text in one of the ways it can be written
fn emit(form: u8, reqs: &[Req]) -> Vec<u8> {
    let mut v = serde_json::to_value(reqs).unwrap();
    if form & 8 != 0 {
        // a missing title may be left out
        for r in v.as_array_mut().unwrap() {
            let o = r.as_object_mut().unwrap();
            if o["title"].is_null() {
                o.remove("title");
            }
        }
    }
    let doc = match form % 3 {
        0 => v,
        1 => serde_json::json!({"version": 0, "requirements": v}),
        _ => serde_json::json!({"requirements": v, "errors": [], "version": 0}),
    };
    let s = if form & 16 != 0 { serde_json::to_string_pretty(&doc).unwrap() } else { doc.to_string() };
    let mut out = String::new();
    if form & 32 != 0 {
        // everything beyond ASCII as escapes
        for c in s.chars() {
            if c.is_ascii() {
                out.push(c);
            } else {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{u:04x}"));
                }
            }
        }
    } else {
        out = s;
    }
    if form & 64 != 0 {
        out = format!("\n \t{out}\r\n\n");
    }
    out.into_bytes()
}

pub struct JsonProp;

fn same(want: &BTreeMap<&str, &Req>, got: &[Req], what: &str) -> Res<()> {
    for w in got.windows(2) {
        ensure!(w[0].id.as_bytes() < w[1].id.as_bytes(), "{what}: {:?} is listed before {:?}", w[0].id, w[1].id);
    }
    for r in got {
        match want.get(r.id.as_str()) {
            None => crate::viol!("{what}: unexpected requirement {r:?}"),
            Some(w) => ensure!(*w == r, "{what}: {r:?} instead of {w:?}"),
        }
    }
    for id in want.keys() {
        ensure!(got.iter().any(|r| r.id == *id), "{what}: requirement {id:?} is missing");
    }
    Ok(())
}

impl Prop for JsonProp {
    type Case = JsonCase;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "at least one requirement has a reference, an attribute or a tag"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 6_000,
            Tier::Thorough => 80_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<JsonCase> {
        let small = prop::collection::vec(wild_req(), 0..5);
        let big = prop::collection::vec(wild_req(), 20..if tier == Tier::Quick { 40 } else { 200 });
        let reqs = prop_oneof![20 => small, 1 => big];
        (
            prop::collection::vec((any::<u8>(), reqs), 1..4),
            prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 1..3)],
            prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec((any::<u8>(), any::<u8>()), 1..4)],
        )
            .prop_map(|(arts, failing, dups)| JsonCase { arts, failing, dups })
            .boxed()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["requirement ids are unique among artefacts; of duplicates in one artefact the first is kept (C06)", "text is well-formed unicode"]
    }
    fn check(&self, case: &JsonCase, env: &Env) -> Res<Info> {
        let mut ids = HashSet::new();
        let mut all: Vec<Req> = vec![];
        let mut dup_ids: Vec<String> = vec![];
        let mut arts = vec![];
        let d = env.dir()?;
        for (i, (form, reqs)) in case.arts.iter().enumerate() {
            let mut reqs = reqs.clone();
            for r in &mut reqs {
                r.id = uniq(&r.id, &mut ids);
            }
            let mut written = reqs.clone();
            for (n, (a, r)) in case.dups.iter().enumerate() {
                if *a as usize % case.arts.len() == i && !reqs.is_empty() {
                    let mut again = reqs[*r as usize % reqs.len()].clone();
                    again.location.location_in_file = Some(LocIn::Line(n as u64));
                    dup_ids.push(again.id.clone());
                    written.push(again);
                }
            }
            d.write(&format!("a{i}.json"), emit(*form, &written))?;
            arts.push(CfgArt::new(&format!("art{i}"), "Json", &format!("a{i}.json")));
            all.extend(reqs);
        }
        let mut want_err = dup_ids.len();
        for (i, f) in case.failing.iter().enumerate() {
            want_err += 1;
            let name = format!("failing{i}.json");
            match f % 3 {
                0 => {}
                1 => d.write(&name, "{\"version\": 0")?,
                _ => d.write(&name, "[{\"id\": 5}]")?,
            }
            arts.insert((*f / 3) as usize % (arts.len() + 1), CfgArt::new(&format!("failing{i}"), "Json", &name));
        }
        let want: BTreeMap<&str, &Req> = all.iter().map(|r| (r.id.as_str(), r)).collect();
        let (status, out) = parse_project(env, &d, arts)?;
        same(&want, &out.requirements, "export")?;
        ensure!(status == i32::from(want_err > 0), "status {status}, {want_err} errors expected");
        for i in 0..case.failing.len() {
            let name = format!("failing{i}.json");
            ensure!(
                out.errors.iter().any(|e| e.to_string().contains(&name)),
                "no error for {name} in the export: {:?}",
                out.errors
            );
        }
        let mut got_dups: Vec<String> = vec![];
        for e in errs(&out.errors) {
            if let E::DupReq { id, .. } = e {
                got_dups.push(id);
            }
        }
        got_dups.sort();
        dup_ids.sort();
        ensure!(got_dups == dup_ids, "duplicates of {dup_ids:?}, reported {got_dups:?}");
        ensure!(out.errors.len() == want_err, "{want_err} errors expected, reported: {:?}", out.errors);

        // import the export
        let (status, again) = parse_project(env, &d, vec![CfgArt::new("again", "Json", "out/p.json")])?;
        ensure!(status == 0 && again.errors.is_empty(), "import of the export: status {status}, {:?}", again.errors);
        same(&want, &again.requirements, "export of the imported export")?;
        let v: Value = d.report_json("out/p.json")?;
        ensure!(v["version"] == 0, "version {}", v["version"]);

        let mut i = Info::new();
        i.label("file is an object", case.arts.iter().any(|a| a.0 % 3 != 0));
        i.label("escaped", case.arts.iter().any(|a| a.0 & 32 != 0));
        i.label("text beyond the BMP or control characters", all.iter().any(|r| format!("{r:?}").contains("\\u") || serde_json::to_string(r).unwrap().chars().any(|c| c as u32 > 0xffff)));
        i.label("with failing inputs", !case.failing.is_empty());
        i.label("duplicate ids", !dup_ids.is_empty());
        i.label("more than 20 requirements", all.len() > 20);
        i.nontrivial = all.iter().any(|r| !r.covers.is_empty() || !r.depends.is_empty() || !r.attributes.is_empty() || !r.tags.is_empty());
        Ok(i)
    }
}
