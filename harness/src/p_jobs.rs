//! C16: exit status and jobs; C17: unusable configurations; C22: reports that cannot be written
use crate::cfg::*;
use crate::core::*;
use crate::graph::*;
use crate::model::*;
use crate::proj::*;
use crate::{ensure, viol};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// a small project with switches for everything that can be found
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Situation {
    Switches { on: Vec<u8>, harmless: u8 },
    Graph(GraphCase, bool),
}

fn req(id: &str, covers: &[(&str, Option<&str>)], line: u64) -> Req {
    Req {
        id: id.into(),
        title: Some(format!("Title of {id}")),
        location: Loc::line("in.x", line),
        covers: covers
            .iter()
            .map(|(c, t)| Ref { id: (*c).into(), title: t.map(str::to_owned), location: Loc::line("in.x", line + 1) })
            .collect(),
        depends: vec![],
        tags: vec![],
        attributes: BTreeMap::new(),
    }
}

pub const SWITCHES: [&str; 26] = [
    "missing file",
    "malformed Markdown",
    "requirement without title",
    "duplicate in an artefact",
    "unknown reference",
    "wrong title",
    "unused relation",
    "duplicate in two artefacts",
    "uncovered",
    "derived",
    "derived in an artefact without relations",
    "derived in an upper artefact",
    "uncovered along one of two relations",
    "unknown dependency",
    "dependency with wrong title",
    "reference without title",
    "Rust syntax error",
    "malformed mark",
    "invalid JSON",
    "no path",
    "duplicate attribute",
    "missing Rust file",
    "uncovered in its own artefact",
    "invalid pattern",
    "mark outside of items",
    "Markdown duplicate",
];

impl Situation {
    /// config without jobs; (input errors, other findings of the trace)
    pub fn build(&self, d: &Dir) -> Res<(Cfg, bool, bool)> {
        match self {
            Situation::Graph(g, missing) => {
                let w = g.world(Mode::Sane);
                let m = w.model();
                write_arts(&w, d)?;
                let mut c = world_cfg(&w);
                if *missing {
                    c.arts.push(CfgArt::new("missing artefact", "Markdown", "missing.md"));
                }
                Ok((c, m.input_errors() || *missing, m.trace_findings()))
            }
            Situation::Switches { on, harmless } => {
                let on: Vec<usize> = on.iter().map(|s| *s as usize % SWITCHES.len()).collect();
                let has = |n: usize| on.contains(&n);
                let mut up = vec![req("UP_1", &[], 1), req("UP_2", &[], 3)];
                let mut low = vec![
                    req("LOW_1", &[("UP_1", Some("Title of UP_1"))], 5),
                    req("LOW_2", &[("UP_2", None), ("UP_1", None)], 7),
                ];
                let mut c = Cfg::default();
                c.arts.push(CfgArt::new("up", "Json", "up.json"));
                c.arts.push(CfgArt::new("low", "Json", "low.json"));
                c.rels.push(("up".into(), vec!["low".into()]));
                if has(0) {
                    let parser = ["Markdown", "Json", "MonoRequirement"][*harmless as usize / 32 % 3];
                    let name = ["gone", "0", "zzz", "lower"][*harmless as usize / 64];
                    c.arts.insert(*harmless as usize % 3, CfgArt::new(name, parser, "gone.md"));
                }
                if has(1) {
                    d.write("mal.md", "# MAL_1: Malformed\n\ntext\n\nCovers:\n*   UP_1\nnonsense\n")?;
                    c.arts.insert(*harmless as usize % 3, CfgArt { ignore: Some(true), ..CfgArt::new("mal", "Markdown", "mal.md") });
                }
                if has(2) {
                    let mut r = req("NT_1", &[], 20);
                    r.title = None;
                    d.write("nt.json", serde_json::to_vec(&[r]).unwrap())?;
                    c.arts.push(CfgArt { rwt: Some(true), ..CfgArt::new("nt", "Json", "nt.json") });
                }
                if has(3) {
                    low.push(req("LOW_2", &[("UP_1", None)], 30));
                }
                if has(4) {
                    low[0].covers.push(Ref { id: "UP_3".into(), title: None, location: Loc::line("in.x", 6) });
                }
                if has(5) {
                    low[1].covers[0].title = Some("Title of UP_1".into());
                }
                if has(6) {
                    d.write("empty.json", "[]")?;
                    c.arts.push(CfgArt::new("empty", "Json", "empty.json"));
                    c.rels.insert(*harmless as usize % 2, ("empty".into(), vec!["low".into()]));
                }
                if has(7) {
                    d.write("again.json", serde_json::to_vec(&[req("UP_1", &[], 40)]).unwrap())?;
                    c.arts.push(CfgArt::new("again", "Json", "again.json"));
                }
                if has(8) {
                    up.push(req("UP_9", &[], 50));
                }
                if has(9) {
                    low.push(req("LOW_9", &[], 60));
                }
                if has(10) {
                    d.write("alone.json", serde_json::to_vec(&[req("ALONE_1", &[], 70)]).unwrap())?;
                    c.arts.push(CfgArt { ignore: Some(false), ..CfgArt::new(["alone", "zz"][*harmless as usize % 2], "Json", "alone.json") });
                }
                if has(11) {
                    c.arts.iter_mut().find(|a| a.id == "up").unwrap().ignore = Some(false);
                }
                if has(12) {
                    d.write("more.json", serde_json::to_vec(&[req("MORE_1", &[("UP_1", None)], 80)]).unwrap())?;
                    c.arts.push(CfgArt::new("more", "Json", "more.json"));
                    c.rels.insert(*harmless as usize % 2, ("up".into(), vec!["more".into()]));
                }
                let dep = |id: &str, title: Option<&str>| Ref { id: id.into(), title: title.map(str::to_owned), location: Loc::line("in.x", 2) };
                if has(13) {
                    up[0].depends.push(dep("LOW_17", None));
                }
                if has(14) {
                    up[1].depends.push(dep("LOW_1", Some("Title of LOW_2")));
                }
                if has(15) {
                    c.arts.iter_mut().find(|a| a.id == "up").unwrap().rwt = Some(true);
                }
                let inputs = [
                    (16, "Rust", "b16.rs", "fn f("),
                    (17, "Rust", "b17.rs", "fn f() { requirement_covered!(17); }"),
                    (18, "Json", "b18.json", "[{}]"),
                    (20, "Markdown", "b20.md", "# DA_1: Twice\n\nComment: a\n\nComment: b\n"),
                    (24, "Rust", "b24.rs", "const C: () = requirement_covered!(UP_1);"),
                    (25, "Markdown", "b25.md", "# DM_1: Twice\n\n# DM_1: Twice\n"),
                ];
                for (n, parser, file, text) in inputs {
                    if has(n) {
                        d.write(file, text)?;
                        let name = ["input", "0", "zzz", "lower"][*harmless as usize / 64];
                        c.arts.push(CfgArt { ignore: Some(true), ..CfgArt::new(&format!("{name}{n}"), parser, file) });
                    }
                }
                for (n, parser, paths) in [
                    (19, "Rust", vec![]),
                    (19, "Markdown", vec!["up.json".to_owned(), "low.json".to_owned()]),
                    (21, "Rust", vec!["nothing/*.rs".to_owned(), "gone.rs".to_owned()]),
                    (23, "Rust", vec!["***".to_owned(), "nothing/*.rs".to_owned()]),
                ] {
                    // no path, or too many
                    if has(n) && (n != 19 || (parser == "Rust") == (harmless & 1 == 0)) {
                        c.arts.push(CfgArt { paths, ..CfgArt::new(&format!("paths{n}"), parser, "") });
                    }
                }
                if has(22) {
                    c.rels.push(("low".into(), vec!["low".into()]));
                    low.push(req("LOW_8", &[("LOW_1", None)], 90));
                }
                // things that are not errors
                if harmless & 4 != 0 {
                    d.write("other.md", "# OTHER_1: Not covered by anything\n\nNo relation asks for it.\n")?;
                    c.arts.push(CfgArt::new("other", "Markdown", "other.md"));
                }
                if harmless & 8 != 0 {
                    c.arts.push(CfgArt::new("nothing", "Rust", "nothing/*.rs"));
                }
                if harmless & 16 != 0 {
                    // derived, but that is ignored
                    let text = "# DER_1: Derived\n\ntext\n\nCovers: DER_2\n\n# DER_2: Covered\n\nCovers: UP_1\n"
                        .replace("Covers: DER_2\n\n", "");
                    d.write("der.md", text)?;
                    c.arts.push(CfgArt { ignore: Some(true), ..CfgArt::new("der", "Markdown", "der.md") });
                    c.rels.push(("up".into(), vec!["low".into(), "der".into()]));
                }
                d.write("up.json", serde_json::to_vec(&up).unwrap())?;
                d.write("low.json", serde_json::to_vec(&low).unwrap())?;
                let input = (0..4).any(has) || (16..22).any(has) || (23..26).any(has);
                Ok((c, input, (4..16).any(has) || has(22) || has(1)))
            }
        }
    }
}

pub fn situation() -> BoxedStrategy<Situation> {
    prop_oneof![
        3 => any::<u8>().prop_map(|harmless| Situation::Switches { on: vec![], harmless }),
        6 => (any::<u8>(), any::<u8>()).prop_map(|(s, harmless)| Situation::Switches { on: vec![s], harmless }),
        2 => (prop::collection::vec(any::<u8>(), 2..4), any::<u8>()).prop_map(|(on, harmless)| Situation::Switches { on, harmless }),
        2 => (graph(Tier::Quick), any::<bool>()).prop_map(|(g, m)| Situation::Graph(g, m)),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct JobSpec {
    combo: u8,
    /// 0: stdout, others: files
    target: u8,
    rc: Option<bool>,
}

fn jobspec() -> BoxedStrategy<JobSpec> {
    (0u8..6, 0u8..6, prop_oneof![2 => Just(None), 1 => Just(Some(true)), 2 => Just(Some(false))])
        .prop_map(|(combo, target, rc)| JobSpec { combo, target, rc })
        .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct StatusCase {
    situation: Situation,
    jobs: Vec<JobSpec>,
    /// jobs in the order they are requested
    list: Vec<u8>,
    default: bool,
}

pub struct Status;

impl Prop for Status {
    type Case = StatusCase;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "something is found, or several jobs are run"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 6_000,
            Tier::Thorough => 80_000,
        }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<StatusCase> {
        (
            situation(),
            prop::collection::vec(jobspec(), 1..5),
            prop_oneof![2 => prop::collection::vec(any::<u8>(), 1..2), 4 => prop::collection::vec(any::<u8>(), 2..6), 1 => prop::collection::vec(any::<u8>(), 15..40)],
            prop::bool::weighted(0.3),
        )
            .prop_map(|(situation, jobs, list, default)| StatusCase { situation, jobs, list, default })
            .boxed()
    }
    fn check(&self, case: &StatusCase, env: &Env) -> Res<Info> {
        let d = env.dir()?;
        let (mut c, input, findings) = case.situation.build(&d)?;
        // every report for itself
        let all = all_jobs(&mut c);
        let name = |i: usize| format!("job {i}");
        for (i, j) in case.jobs.iter().enumerate() {
            let (_, query, format) = ALL_JOBS[j.combo as usize];
            c.jobs.push(CfgJob {
                name: name(i),
                query,
                format: q(format),
                file: if j.target < 2 { "-".into() } else { format!("rep/{}", j.target) },
                rc: j.rc,
            });
        }
        let list: Vec<usize> = case.list.iter().map(|l| *l as usize % case.jobs.len()).collect();
        let names: Vec<String> = list.iter().map(|i| name(*i)).collect();
        if case.default {
            c.default = Some(names.clone());
        }
        c.write(&d)?;
        let mut reference = vec![];
        for n in &all {
            // one process each
            env.run(&d.0, &["-c", "config.toml", n])?.ran()?;
            reference.push(d.report(&format!("out/{n}"))?);
        }
        let mut args = vec!["-c", "config.toml"];
        if !case.default {
            args.extend(names.iter().map(String::as_str));
        }
        let run = env.run(&d.0, &args)?;
        let status = run.ran()?;

        let found = |j: &JobSpec| {
            let parse = ALL_JOBS[j.combo as usize].1 == "Parse";
            input || (!parse && findings)
        };
        let want = list.iter().any(|i| case.jobs[*i].rc != Some(false) && found(&case.jobs[*i]));
        ensure!(
            status == i32::from(want),
            "exit status {status}, expected {}: input errors: {input}, other findings: {findings}, jobs {:?}",
            i32::from(want),
            list.iter().map(|i| &case.jobs[*i]).collect::<Vec<_>>()
        );
        let mut stdout: Vec<u8> = vec![];
        let mut files: BTreeMap<String, &Vec<u8>> = BTreeMap::new();
        for i in &list {
            let j = &case.jobs[*i];
            let r = &reference[j.combo as usize];
            if j.target < 2 {
                stdout.extend(r);
            } else {
                files.insert(format!("rep/{}", j.target), r);
            }
        }
        if run.stdout != stdout {
            viol!(
                "standard output is not the reports of the requested jobs in order: {:?} instead of {:?}",
                String::from_utf8_lossy(&run.stdout),
                String::from_utf8_lossy(&stdout)
            );
        }
        for (f, r) in &files {
            ensure!(d.report(f)? == **r, "{f} is not the report of the last job that writes it");
        }
        for t in 2..6 {
            let f = format!("rep/{t}");
            ensure!(files.contains_key(&f) || !d.path(&f).exists(), "{f} is written without a request");
        }
        let mut i = Info::new();
        if let Situation::Switches { on, .. } = &case.situation {
            i.label("nothing found", on.is_empty());
            if let [s] = on[..] {
                i.label(SWITCHES[s as usize % SWITCHES.len()], true);
            }
        }
        i.label("default jobs", case.default);
        i.label("set_return_code = false hides the findings", !want && list.iter().any(|i| found(&case.jobs[*i])));
        i.label("only a job before the last finds errors", {
            let f: Vec<bool> = list.iter().map(|i| case.jobs[*i].rc != Some(false) && found(&case.jobs[*i])).collect();
            want && !f[f.len() - 1]
        });
        i.label("several reports on standard output", list.iter().filter(|i| case.jobs[**i].target < 2).count() > 1);
        i.nontrivial = input || findings || list.len() > 1;
        Ok(i)
    }
}

// ---------------------------------------------------------------- C17

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ConfigCase {
    situation: Situation,
    jobs: Vec<JobSpec>,
    list: Vec<u8>,
    default: bool,
    version: Option<u8>,
    defect: Option<(u8, u8, u8)>,
}

pub struct BadConfig;

const DEFECTS: usize = 19;

impl Prop for BadConfig {
    type Case = ConfigCase;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "the configuration or invocation has a defect, or something is found in a usable one"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 10_000,
            Tier::Thorough => 120_000,
        }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<ConfigCase> {
        (
            situation(),
            prop::collection::vec(jobspec(), 1..4),
            prop::collection::vec(any::<u8>(), 1..4),
            prop::bool::weighted(0.3),
            prop_oneof![2 => Just(None), 1 => Just(Some(0))],
            prop_oneof![1 => Just(None), 4 => any::<(u8, u8, u8)>().prop_map(Some)],
        )
            .prop_map(|(situation, jobs, list, default, version, defect)| ConfigCase { situation, jobs, list, default, version, defect })
            .boxed()
    }
    fn check(&self, case: &ConfigCase, env: &Env) -> Res<Info> {
        let d = env.dir()?;
        let (mut c, input, findings) = case.situation.build(&d)?;
        for (i, j) in case.jobs.iter().enumerate() {
            let (_, query, format) = ALL_JOBS[j.combo as usize];
            c.jobs.push(CfgJob {
                name: format!("job{i}"),
                query,
                format: q(format),
                file: if j.target < 1 { "-".into() } else { format!("rep/{}", j.target) },
                rc: j.rc,
            });
        }
        c.version = case.version.map(u32::from);
        let mut names: Vec<String> = case.list.iter().map(|l| format!("job{}", *l as usize % case.jobs.len())).collect();
        let mut default = case.default;
        let mut i = Info::new();
        let mut args: Vec<String> = vec!["-c".into(), "config.toml".into()];
        // what the message has to name
        let mut names_it = String::new();
        let mut either = String::new();
        let mut toml: Option<Vec<u8>> = None;
        let mut no_file = false;
        let set_default = |c: &mut Cfg, names: &[String], default: bool| {
            if default {
                c.default = Some(names.to_vec());
            }
        };
        if let Some((kind, a, b)) = case.defect {
            let kind = kind as usize % DEFECTS;
            let (a, b) = (a as usize, b as usize);
            let known = c.arts[a % c.arts.len()].id.clone();
            let unknown = match b % 5 {
                0 => "unknown".to_owned(),
                1 => format!("{known} "),
                2 => known.to_uppercase() + "_",
                3 => String::new(),
                _ => known.chars().skip(1).collect::<String>() + "~",
            };
            if matches!(kind, 0..=4 | 14 | 15) {
                names_it = "config.toml".into();
            }
            match kind {
                0 => {
                    i.label("no configuration file", true);
                    no_file = true;
                }
                1 => {
                    i.label("configuration is a directory", true);
                    d.write("config.toml/x", "")?;
                    no_file = true;
                }
                2 => {
                    i.label("invalid TOML", true);
                    set_default(&mut c, &names, default);
                    let t = c.toml();
                    let junk = ["= =\n", "[[[\n", "key \"x\"\n", "a = \n", "x = \"unterminated\n", "]\n"][b % 6];
                    let lines: Vec<&str> = t.split_inclusive('\n').collect();
                    let at = a % (lines.len() + 1);
                    names_it = format!("config.toml:{}:", at + 1);
                    toml = Some(format!("{}{junk}{}", lines[..at].concat(), lines[at..].concat()).into_bytes());
                }
                3 => {
                    i.label("configuration is not UTF-8", true);
                    set_default(&mut c, &names, default);
                    let mut t = c.toml().into_bytes();
                    let at = a * 256 + b;
                    let at = at % (t.len() + 1);
                    t.splice(at..at, [0xff, 0xfe]);
                    toml = Some(t);
                }
                4 => {
                    i.label("unsupported version", true);
                    c.version = Some(match a % 12 {
                        0 => 1,
                        1 => 2,
                        2 => 17,
                        3 => u32::MAX,
                        4 => 256,
                        5 => 65_536,
                        6 => 1 << 31,
                        7 => 1 << (b % 32),
                        8 => (b as u32 | 1) << 24,
                        9 => (b as u32 + 1) << 8,
                        10 => 10 * (b as u32 + 1),
                        _ => b as u32 + 1,
                    });
                }
                5 => {
                    i.label("relation with unknown upper artefact", true);
                    let at = b % (c.rels.len() + 1);
                    names_it.clone_from(&unknown);
                    let l = match a / 4 % 4 {
                        0 => vec![],
                        1 => vec![known.clone(), c.arts[b % c.arts.len()].id.clone()],
                        2 => vec![unknown.clone()],
                        _ => vec![known],
                    };
                    c.rels.insert(at, (unknown, l));
                }
                6 => {
                    i.label("relation with unknown lower artefact", true);
                    let at = b % (c.rels.len() + 1);
                    let mut l: Vec<String> = c.arts.iter().take(a % 3).map(|x| x.id.clone()).filter(|x| *x != known).collect();
                    names_it.clone_from(&unknown);
                    l.insert(b % (l.len() + 1), unknown);
                    c.rels.insert(at, (known, l));
                }
                7 | 8 => {
                    i.label("two artefacts with the same id", true);
                    let mut x = c.arts[a % c.arts.len()].clone();
                    if kind == 8 {
                        d.write("twin.json", "[]")?;
                        x.paths = vec!["twin.json".into()];
                        x.parser = "Json";
                    }
                    names_it.clone_from(&x.id);
                    let at = b % (c.arts.len() + 1);
                    c.arts.insert(at, x);
                }
                9 => {
                    i.label("unknown job", true);
                    let j = match b % 4 {
                        0 => "unknown".to_owned(),
                        1 => "JOB0".into(),
                        2 => "job".into(),
                        _ => "job0 ".into(),
                    };
                    let at = a % (names.len() + 1);
                    names_it.clone_from(&j);
                    names.insert(at, j);
                }
                10 => {
                    i.label("no default jobs", true);
                    default = true;
                    c.default = if a % 2 == 0 { None } else { Some(vec![]) };
                }
                11 | 12 | 13 => {
                    i.label("unsupported combination of query and format", true);
                    let (query, format) = [
                        ("Parse", q("GnuError")),
                        ("Trace", q("Tags")),
                        ("Trace", "{ TemplateFile = \"t.txt\" }".to_owned()),
                        ("Parse", "{ TemplateString = \"x\" }".to_owned()),
                        ("Trace", "{ TemplateString = \"\" }".to_owned()),
                        ("Parse", "{ TemplateFile = \"up.json\" }".to_owned()),
                    ][a % 6]
                        .clone();
                    either = ["GnuError", "Tags", "Template", "Template", "Template", "Template"][a % 6].into();
                    names_it = "unusable".into();
                    c.jobs.push(CfgJob {
                        name: "unusable".into(),
                        query,
                        format,
                        file: if b % 3 == 0 { "-".into() } else { "rep/x".into() },
                        rc: [None, Some(false), Some(true)][b / 3 % 3],
                    });
                    let at = b % (names.len() + 1);
                    names.insert(at, "unusable".into());
                }
                14 => {
                    i.label("missing key", true);
                    set_default(&mut c, &names, default);
                    let t = c.toml();
                    let keys = ["id = ", "paths = ", "parser = ", "query = ", "format = ", "file = ", "upper = ", "lower = "];
                    let cand: Vec<usize> = t
                        .lines()
                        .enumerate()
                        .filter(|(_, l)| keys.iter().any(|k| l.starts_with(k)))
                        .map(|(n, _)| n)
                        .collect();
                    let drop = cand[(a * 256 + b) % cand.len()];
                    toml = Some(
                        t.lines().enumerate().filter(|(n, _)| *n != drop).map(|(_, l)| format!("{l}\n")).collect::<String>().into_bytes(),
                    );
                }
                15 => {
                    i.label("value of another type or unknown name", true);
                    set_default(&mut c, &names, default);
                    let t = c.toml();
                    let cand: Vec<usize> = t
                        .lines()
                        .enumerate()
                        .filter(|(_, l)| [
                                "id = ", "paths = ", "parser = ", "query = ", "format = ", "upper = ", "lower = ",
                                "ignore_derived_requirements = ", "reference_with_title = ", "set_return_code = ", "version = ", "default_jobs = ",
                            ]
                            .iter().any(|k| l.starts_with(k)))
                        .map(|(n, _)| n)
                        .collect();
                    let at = cand[a % cand.len()];
                    toml = Some(
                        t.lines()
                            .enumerate()
                            .map(|(n, l)| {
                                if n != at {
                                    return format!("{l}\n");
                                }
                                let key = l.split(" = ").next().unwrap();
                                let v = match key {
                                    "parser" | "query" | "format" => ["\"Nonsense\"", "\"json\"", "1", "true"][b % 4],
                                    "ignore_derived_requirements" | "reference_with_title" | "set_return_code" => {
                                        ["1", "\"true\"", "[]", "0"][b % 4]
                                    }
                                    "version" => ["\"0\"", "-1", "true", "4294967296"][b % 4],
                                    "default_jobs" => ["1", "\"job0\"", "true", "[1]"][b % 4],
                                    _ => ["1", "true", "{ x = 1 }", "1.5"][b % 4],
                                };
                                format!("{key} = {v}\n")
                            })
                            .collect::<String>()
                            .into_bytes(),
                    );
                }
                16 => {
                    i.label("unknown option", true);
                    args.push(["--nonsense", "-x", "--log-level", "-b"][a % 4].into());
                    if a % 4 > 1 {
                        // the value is missing
                        names.clear();
                        default = true;
                    }
                }
                17 => {
                    i.label("unknown default job", true);
                    default = true;
                    let mut n = names.clone();
                    names_it = "unknown".into();
                    n.insert(a % (n.len() + 1), "unknown".into());
                    c.default = Some(n);
                }
                _ => {
                    i.label("no jobs at all", true);
                    c.jobs.clear();
                }
            }
        }
        if !no_file {
            match toml {
                Some(t) => d.write("config.toml", t)?,
                None => {
                    if c.default.is_none() && !matches!(case.defect, Some((k, ..)) if k as usize % DEFECTS == 10) {
                        set_default(&mut c, &names, default);
                    }
                    c.write(&d)?;
                }
            }
        }
        if !default {
            args.extend(names);
        }
        let args: Vec<&str> = args.iter().map(String::as_str).collect();
        let run = env.run(&d.0, &args)?;
        let status = run.status()?;
        if case.defect.is_some() {
            ensure!(status == 2, "exit status {status} for an unusable configuration or invocation ({:?})", i.labels);
            ensure!(
                String::from_utf8_lossy(&run.stderr).chars().any(|c| c.is_alphanumeric()),
                "no message on standard error ({:?})",
                i.labels
            );
            ensure!(
                String::from_utf8_lossy(&run.stderr).contains(&names_it)
                    || (!either.is_empty() && String::from_utf8_lossy(&run.stderr).contains(&either)),
                "the message does not name {names_it:?} ({:?}): {:?}",
                i.labels,
                String::from_utf8_lossy(&run.stderr)
            );
            // no job is run, unless only one of them is unusable
            if names_it != "unusable" {
                ensure!(run.stdout.is_empty(), "the standard output is {:?} ({:?})", String::from_utf8_lossy(&run.stdout), i.labels);
                ensure!(!d.path("rep").exists(), "reports are written ({:?})", i.labels);
            }
            i.nontrivial = true;
        } else {
            ensure!(status != 2, "a usable configuration ends with {}", run.describe());
            i.label("usable", true);
            i.nontrivial = input || findings;
        }
        Ok(i)
    }
}

// ---------------------------------------------------------------- C22

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct WriteCase {
    situation: Situation,
    jobs: Vec<JobSpec>,
    fault: Fault,
    /// size of an additional artefact: requirements, length of a text
    #[serde(default)]
    bulk: Option<(u16, u32)>,
    /// where that artefact is and what is long
    #[serde(default)]
    shape: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Fault {
    /// no fault
    None,
    /// no file can be longer; measured from a report's size
    Limit { job: u8, at: u32 },
    /// the job's file is one that cannot be written
    File { job: u8, kind: u8 },
    /// standard output cannot be written
    Stdout { kind: u8 },
}

pub struct Writing;

impl Prop for Writing {
    type Case = WriteCase;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "a write fails"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 9_000,
            Tier::Thorough => 60_000,
        }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<WriteCase> {
        let at = prop_oneof![3 => any::<u32>(), 1 => 0u32..3, 1 => (u32::MAX - 3)..=u32::MAX];
        (
            situation(),
            prop::collection::vec(jobspec(), 1..5),
            prop_oneof![
                1 => Just(Fault::None),
                6 => (any::<u8>(), at).prop_map(|(job, at)| Fault::Limit { job, at }),
                3 => (any::<u8>(), any::<u8>()).prop_map(|(job, kind)| Fault::File { job, kind }),
                2 => any::<u8>().prop_map(|kind| Fault::Stdout { kind }),
            ],
            prop_oneof![
                6 => Just(None),
                1 => (1u16..4, 500u32..30_000).prop_map(Some),
                1 => (10u16..400, 0u32..100).prop_map(Some),
                1 => (1u16..20, 20_000u32..80_000).prop_map(Some)
            ],
            any::<u8>(),
        )
            .prop_map(|(situation, jobs, fault, bulk, shape)| WriteCase { situation, jobs, fault, bulk, shape })
            .boxed()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "faults: a limit for the size of files at any byte, a full device, a pipe without reader, a directory or a file in the place of the report's file or directory",
            "a standard output that is closed from the start is not a fault (the Rust runtime replaces it by /dev/null)",
        ]
    }
    fn check(&self, case: &WriteCase, env: &Env) -> Res<Info> {
        let d = env.dir()?;
        let (mut c, input, mut findings) = case.situation.build(&d)?;
        let n = case.jobs.len();
        if let Some((reqs, len)) = case.bulk {
            // the long text may be the last thing that is written
            let prefix = ["BULK", "ZULK"][case.shape as usize % 2];
            let long = "long text ".repeat(len as usize / 10);
            let derived = case.shape & 2 != 0;
            let reqs: Vec<Req> = (0..reqs)
                .map(|k| {
                    let mut r = req(&format!("{prefix}_{k}"), &[], 100 + u64::from(k));
                    match case.shape / 4 % 4 {
                        0 => {
                            r.attributes.insert("Comment".into(), long.clone());
                        }
                        1 => {
                            r.attributes.insert("Description".into(), long.clone());
                        }
                        2 => r.title = Some(long.clone()),
                        _ => r.id = format!("{}_{}", r.id, long.replace(' ', "_")),
                    }
                    r
                })
                .collect();
            d.write("bulk.json", serde_json::to_vec(&reqs).unwrap())?;
            c.arts.push(CfgArt { ignore: derived.then_some(false), ..CfgArt::new(&prefix.to_lowercase(), "Json", "bulk.json") });
            findings |= derived && !reqs.is_empty();
        }
        let mut targets: Vec<String> = vec![];
        for (i, j) in case.jobs.iter().enumerate() {
            let (_, query, format) = ALL_JOBS[j.combo as usize];
            c.jobs.push(CfgJob {
                name: format!("ref{i}"),
                query,
                format: q(format),
                file: format!("ref/{i}"),
                rc: None,
            });
            let fault = match case.fault {
                Fault::File { job, kind } if job as usize % n == i => Some(kind % 5),
                _ => None,
            };
            let file: String = match fault {
                Some(0) => "/dev/full".into(),
                Some(1) => {
                    d.write(&format!("dir{i}/x"), "")?;
                    format!("dir{i}")
                }
                Some(2) => format!("config.toml/{i}"),
                Some(3) => format!("config.toml/sub/{i}"),
                Some(_) => {
                    std::os::unix::fs::symlink("nowhere/x", d.path(&format!("link{i}")))?;
                    format!("link{i}")
                }
                None if j.target < 2 => "-".into(),
                None => format!("rep{}/{i}", j.target),
            };
            targets.push(file.clone());
            c.jobs.push(CfgJob { name: format!("job{i}"), query, format: q(format), file, rc: j.rc });
        }
        c.write(&d)?;
        let names: Vec<String> = (0..n).map(|i| format!("job{i}")).collect();
        let refs: Vec<String> = (0..n).map(|i| format!("ref{i}")).collect();
        let mut args = vec!["-c", "config.toml"];
        args.extend(refs.iter().map(String::as_str));
        env.run(&d.0, &args)?.ran()?;
        let reference: Vec<Vec<u8>> = (0..n).map(|i| d.report(&format!("ref/{i}"))).collect::<Res<_>>()?;
        let to_stdout = |i: usize| case.jobs[i].target < 2 && !matches!(case.fault, Fault::File { job, .. } if job as usize % n == i);
        let stdout: Vec<u8> = (0..n).filter(|i| to_stdout(*i)).flat_map(|i| reference[i].clone()).collect();

        let mut o = Opts::default();
        let mut i = Info::new();
        // which jobs cannot be completed
        let mut fails = vec![false; n];
        let mut stdout_fails = false;
        let mut stdout_file = None;
        match &case.fault {
            Fault::None => i.label("no fault", true),
            Fault::Limit { job, at } => {
                let j = *job as usize % n;
                let len = if to_stdout(j) { stdout.len() } else { reference[j].len() } as u64;
                // 0..=len+1, the ends more often
                let lim = match at {
                    0..=2 => u64::from(*at),
                    a if *a > u32::MAX - 4 => (len + 1).saturating_sub(u64::from(u32::MAX - a)),
                    a => u64::from(*a) % (len + 2),
                };
                o.fsize = Some(lim);
                for k in 0..n {
                    if !to_stdout(k) {
                        fails[k] = reference[k].len() as u64 > lim;
                    }
                }
                let f = d.path("stdout");
                stdout_fails = stdout.len() as u64 > lim;
                stdout_file = Some(f.clone());
                o.stdout = Some(f);
                i.label("limit", true);
                i.label("limit one byte too small", lim + 1 == len);
                i.label("limit just sufficient", lim == len);
            }
            Fault::File { job, kind } => {
                let j = *job as usize % n;
                fails[j] = kind % 5 != 0 || !reference[j].is_empty();
                i.label(
                    ["full device", "directory in its place", "directory is a file", "parent of the directory is a file", "link to nowhere"][*kind as usize % 5],
                    true,
                );
            }
            Fault::Stdout { kind } => {
                stdout_fails = !stdout.is_empty();
                if kind % 2 == 0 {
                    o.stdout = Some("/dev/full".into());
                    i.label("standard output is full", stdout_fails);
                } else {
                    o.broken_pipe = true;
                    i.label("standard output is a pipe without reader", stdout_fails);
                }
            }
        }
        let mut args = vec!["-c", "config.toml"];
        args.extend(names.iter().map(String::as_str));
        let run = env.run_opts(&d.0, &args, &o)?;
        let status = run.status()?;
        let any = stdout_fails || fails.iter().any(|f| *f);
        if any {
            ensure!(
                status == 2,
                "exit status {status} although a report could not be written completely ({:?}, limit {:?}, sizes {:?}, standard output {})",
                i.labels,
                o.fsize,
                reference.iter().map(Vec::len).collect::<Vec<_>>(),
                stdout.len()
            );
            ensure!(
                String::from_utf8_lossy(&run.stderr).chars().any(|c| c.is_alphanumeric()),
                "no message on standard error"
            );
            // one of the files that cannot be written, or the directory that cannot be made
            let message = String::from_utf8_lossy(&run.stderr);
            ensure!(
                (stdout_fails && (message.contains('-') || message.to_lowercase().contains("stdout") || message.contains("standard output")))
                    || (0..n).any(|k| {
                        fails[k]
                            && (message.contains(&targets[k])
                                || targets[k].rsplit_once('/').is_some_and(|(p, _)| !p.is_empty() && message.contains(p)))
                    }),
                "the message does not name a report that could not be written ({:?}): {message:?}",
                i.labels
            );
        } else {
            let found = |j: &JobSpec| input || (ALL_JOBS[j.combo as usize].1 == "Trace" && findings);
            let want = case.jobs.iter().any(|j| j.rc != Some(false) && found(j));
            ensure!(status == i32::from(want), "{}, expected {}", run.describe(), i32::from(want));
        }
        for k in 0..n {
            if to_stdout(k) || fails[k] || matches!(case.fault, Fault::File { job, .. } if job as usize % n == k) {
                continue;
            }
            let f = format!("rep{}/{k}", case.jobs[k].target);
            let got = std::fs::read(d.path(&f)).unwrap_or_default();
            ensure!(
                got == reference[k],
                "the report of job {k}, that can be written, is not complete: {} of {} bytes",
                got.len(),
                reference[k].len()
            );
        }
        if !stdout_fails {
            let got = match &stdout_file {
                Some(f) => std::fs::read(f)?,
                None => run.stdout.clone(),
            };
            if o.stdout.is_none() || stdout_file.is_some() {
                ensure!(o.broken_pipe || got == stdout, "standard output has {} of {} bytes", got.len(), stdout.len());
            }
        }
        i.label("a report of more than 64 KiB fails", (0..n).any(|k| (fails[k] || (stdout_fails && to_stdout(k))) && reference[k].len() > 65536));
        i.label("failing job with set_return_code = false", (0..n).any(|k| fails[k] && case.jobs[k].rc == Some(false)));
        i.label("a job after the failing one", fails[..n - 1].iter().any(|f| *f));
        i.nontrivial = any;
        Ok(i)
    }
}
