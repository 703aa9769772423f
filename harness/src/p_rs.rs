//! C11: Rust coverage marks
use crate::cfg::*;
use crate::core::*;
use crate::model::*;
use crate::p_dup::{norm, norm_loc};
use crate::p_md::{compare_reqs, nreq};
use crate::rs::*;
use crate::{ensure, viol};
use proptest::prelude::*;

pub struct RustMarks;

fn parse_rs(env: &Env, text: &str) -> Res<(i32, ParseOut)> {
    let d = env.dir()?;
    d.write("src/x.rs", text)?;
    parse_project(env, &d, vec![CfgArt::new("code", "Rust", "src/*.rs")])
}

impl Prop for RustMarks {
    type Case = RFile;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "the file has a mark, and an item path of at least two segments or a mark that must be reported"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 10_000,
            Tier::Thorough => 150_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<RFile> {
        rfile(if tier == Tier::Quick { 3 } else { 4 }, true)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "marks are in item, statement or expression position, not inside the arguments of other macros",
            "an item path is used for one item of the file, apart from impl blocks without marks of their own",
            "white space inside item paths is not compared",
        ]
    }
    fn check(&self, case: &RFile, env: &Env) -> Res<Info> {
        let w = case.render("src/x.rs");
        let (status, out) = parse_rs(env, &w.out)?;
        let errors: Vec<E> = errs(&out.errors).into_iter().map(norm).collect();
        let mut i = Info::new();
        i.label("not valid Rust", case.broken.is_some());
        if case.broken.is_some() {
            ensure!(
                matches!(&errors[..], [E::Format(l)] if l.file == "src/x.rs"),
                "a file that is not valid Rust gives {errors:?}"
            );
            ensure!(status == 1, "status {status}");
            ensure!(out.requirements.is_empty(), "requirements from a file that is not valid Rust");
            i.nontrivial = true;
            return Ok(i);
        }
        let mut got: Vec<_> = out.requirements.iter().map(nreq).collect();
        for g in &mut got {
            g.id = strip(&g.id);
        }
        let want: Vec<_> = w.reqs.iter().map(nreq).collect();
        compare_reqs(&want, &got)?;
        let mut todo = w.bad.clone();
        for e in &errors {
            let E::Format(l) = e else { viol!("unexpected error {e:?}") };
            let l = norm_loc(l.clone());
            let Some(LocIn::LineAndColumn(line, col)) = l.location_in_file else {
                viol!("error without position: {e:?}")
            };
            ensure!(l.file == "src/x.rs", "error in {:?}", l.file);
            match todo.iter().position(|b| b.0 == line && b.1 <= col && col < b.2) {
                Some(k) => {
                    todo.remove(k);
                }
                None => viol!("error at {line}:{col}, malformed marks not yet reported: {todo:?}"),
            }
        }
        ensure!(todo.is_empty(), "malformed marks not reported: {todo:?}");
        ensure!(status == i32::from(!errors.is_empty()), "status {status}");
        i.label("malformed mark or mark outside of items", !w.bad.is_empty());
        i.label("path of three or more segments", w.reqs.iter().any(|r| r.id.matches("::").count() > 1));
        i.label("impl of a trait", w.reqs.iter().any(|r| r.id.contains("as")));
        i.label("title", w.reqs.iter().any(|r| r.covers.iter().any(|c| c.title.is_some())));
        i.label("several marks in an item", w.reqs.iter().any(|r| r.covers.len() > 1));
        i.nontrivial = !w.bad.is_empty() || w.reqs.iter().any(|r| r.id.contains("::"));
        Ok(i)
    }
}
