//! C27: tracing in two stages, with exported artefacts
use crate::cfg::*;
use crate::core::*;
use crate::ensure;
use crate::model::*;
use crate::p_paths::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct StageCase {
    src: Src,
    /// artefacts that are not exported first
    direct: u8,
    /// exports are made one more time
    twice: bool,
}

pub struct Stages;

impl Prop for Stages {
    type Case = StageCase;
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "an artefact with requirements is exported, and the trace has findings or coverage"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 3_000,
            Tier::Thorough => 40_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<StageCase> {
        (source(tier), prop_oneof![2 => Just(0), 1 => any::<u8>()], prop::bool::weighted(0.2))
            .prop_map(|(src, direct, twice)| StageCase { src, direct, twice })
            .boxed()
    }
    fn check(&self, case: &StageCase, env: &Env) -> Res<Info> {
        let d = env.dir()?;
        let mut input = case.src.input();
        let plain = input.cfg.clone();
        input.cfg.job("t", "Trace", "Json", "out/t.json");
        write_input(&input, &d)?;
        let s0 = env.run(&d.0, &["-c", "config.toml", "t"])?.ran()?;
        let whole: TraceOut = d.report_json("out/t.json")?;

        // every artefact for itself
        let mut staged = plain.clone();
        let mut exported = 0;
        let mut errors = vec![vec![]; plain.arts.len()];
        for (k, a) in plain.arts.iter().enumerate() {
            if case.direct >> (k % 8) & 1 == 1 {
                continue;
            }
            let mut from = a.clone();
            for round in 0..=usize::from(case.twice) {
                let file = format!("stage{round}/a{k}.json");
                let mut c = Cfg { arts: vec![from.clone()], ..Cfg::default() };
                c.job("export", "Parse", "Json", &file);
                d.write("one.toml", c.toml())?;
                let run = env.run(&d.0, &["-c", "one.toml", "export"])?;
                let s = run.ran()?;
                let p: ParseOut = d.report_json(&file)?;
                ensure!(s == i32::from(!p.errors.is_empty()), "exit status {s} of the export with errors {:?}", p.errors);
                if round == 0 {
                    errors[k] = errs(&p.errors);
                }
                exported += p.requirements.len();
                from = CfgArt { parser: "Json", paths: vec![file], ..from };
            }
            staged.arts[k] = from;
        }
        staged.job("t", "Trace", "Json", "out/t2.json");
        d.write("two.toml", staged.toml())?;
        let s1 = env.run(&d.0, &["-c", "two.toml", "t"])?.ran()?;
        let t: TraceOut = d.report_json("out/t2.json")?;
        let first_stage = errors.iter().any(|e| !e.is_empty());
        ensure!(s1 == s0 || first_stage, "exit status {s0}, from exported artefacts {s1}");
        ensure!(s1 <= s0, "exit status {s0}, from exported artefacts {s1}");
        let a = findings(whole);
        let b = findings(t);
        ensure!(a.0.len() == b.0.len(), "{} relations, from exported artefacts {}", a.0.len(), b.0.len());
        for (x, y) in a.0.iter().zip(&b.0) {
            ensure!(x == y, "relation {x:?}, from exported artefacts {y:?}");
        }
        ensure!(a.1 == b.1, "derived {:?}, from exported artefacts {:?}", a.1, b.1);
        if let Some(x) = crate::p_graph::first_diff(&a.2, &b.2) {
            crate::viol!("tracing errors, from exported artefacts: {x}");
        }
        for (k, art) in plain.arts.iter().enumerate() {
            let (Some(x), Some(y)) = (a.3.get(&art.id), b.3.get(&art.id)) else {
                crate::viol!("artefact {:?} is missing", art.id)
            };
            ensure!(x.0 == y.0, "artefact {:?} has {:?}, when it is exported first {:?}", art.id, x.0, y.0);
            if case.direct >> (k % 8) & 1 == 1 {
                ensure!(x.1 == y.1, "artefact {:?}: {:?}, then {:?}", art.id, x.1, y.1);
                continue;
            }
            let mut e = errors[k].clone();
            e.sort();
            ensure!(x.1 == e, "artefact {:?}: errors {:?} in the project, {e:?} in the export", art.id, x.1);
            // titles are missing in the export too, everything else is reported once
            let e: Vec<E> = e.into_iter().filter(|e| matches!(e, E::NoTitleReq { .. })).collect();
            ensure!(y.1 == e, "artefact {:?}: errors {:?} after the export, expected {e:?}", art.id, y.1);
        }
        let mut i = Info::new();
        i.label("exported twice", case.twice);
        i.label("some artefacts directly", case.direct != 0 && exported > 0);
        i.label("errors in the first stage", first_stage);
        i.label("ids defined twice", a.2.iter().any(|e| matches!(e, E::DupReq { .. })));
        i.label("mixed parsers", matches!(case.src, Src::Mixed(_)));
        i.nontrivial = exported > 0 && (s0 == 1 || a.0.iter().any(|r| !r.2.is_empty()));
        Ok(i)
    }
}
