//! C29: the trace report names the files it depends on
use crate::core::*;
use crate::ensure;
use crate::model::*;
use crate::p_paths::differ;
use crate::proj::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FilesCase {
    proj: Proj,
    /// (file, what is wrong with it)
    bad: Vec<(u16, u8)>,
    pattern: u8,
    /// (name, content, what happens to it before the second run)
    others: Vec<(u8, u16, u8)>,
    base: bool,
}

pub struct Files;

const PATTERNS: &[&[&str]] = &[
    &["src/*.rs"],
    &["src/r[0-9][0-9].rs"],
    &["src/r00.rs", "src/r0[1-9].rs"],
    &["src/*.rs", "src/r00.rs"],
    &["src/**/*.rs"],
    &["*/r??.rs", "src/*.rs"],
    &["src/r00.rs", "src/r01.rs", "src/r02.rs"],
];

/// files that look as if they belonged to the project
const OTHERS: &[&str] = &[
    "src/x.txt", "src/r00.rs.bak", "src/r00.rs~", "src/r0.rs.rs.x", "doc/d9.md", "doc/d0.md~", "doc/README.md", "j9.json", "j0.json.orig", "requirements.toml",
    "config.toml.bak", ".reqtrace", "reqtrace.toml", ".gitignore", ".ignore", "src/.gitignore", "out/old.json", "out/tj.1", "Cargo.toml", "README.md",
    "doc/requirements/REQ.md", "src/deep/r00.txt", "tags", ".env", "r00.rsx", "doc/r00.md", "mono/x.md", "lib.json", "src/r00", "doc/d0",
    "j0.json.include", "j0.json.inc", "j0.json.local", "j0.json.override", "j0.json.d", "j0.json.lock", "j0.json.tmp", "j0.json.swp", "j0.json.1", "j0.json.new",
    "doc/d0.md.include", "doc/d0.md.inc", "doc/d0.md.local", "doc/d0.md.bak", "j0.include.json", "j0.local.json", "mono/m0.local", "config.toml.local", "config.local.toml",
    "config.toml.include", "config.d/a.toml",
];

impl Prop for Files {
    type Case = FilesCase;
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "an artefact of several files or a file that cannot be read or parsed, and another file that is edited"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 3_000,
            Tier::Thorough => 40_000,
        }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<FilesCase> {
        (
            proj(ProjSize { bad: true, max: 2 }),
            prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec((any::<u16>(), any::<u8>()), 1..4)],
            any::<u8>(),
            prop::collection::vec((any::<u8>(), any::<u16>(), any::<u8>()), 1..7),
            prop::bool::weighted(0.3),
        )
            .prop_map(|(proj, bad, pattern, others, base)| FilesCase { proj, bad, pattern, others, base })
            .boxed()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a file that does not exist is listed when it is the only file of its artefact; patterns match what exists when the tool runs"]
    }
    fn check(&self, case: &FilesCase, env: &Env) -> Res<Info> {
        let p = case.proj.render();
        let mut cfg = p.cfg();
        let d = env.dir()?;
        let at = if case.base { "proj/" } else { "" };
        let mut present: BTreeMap<String, Vec<u8>> = p.files.iter().cloned().collect();
        let names: Vec<String> = present.keys().cloned().collect();
        let mut dirs: BTreeSet<String> = BTreeSet::new();
        for (f, what) in &case.bad {
            let f = names[*f as usize % names.len()].clone();
            match what % 6 {
                0 => {
                    present.remove(&f);
                }
                1 => {
                    present.insert(f, b"{ \xff\xfe ((( fn #\n".to_vec());
                }
                2 => {
                    present.insert(f, vec![]);
                }
                3 => {
                    present.remove(&f);
                    dirs.insert(f);
                }
                4 => {
                    if let Some(t) = present.get_mut(&f) {
                        t.insert(0, 0xc3);
                    }
                }
                _ => {
                    if let Some(t) = present.get_mut(&f) {
                        t.truncate(t.len() / 2);
                    }
                }
            }
        }
        dirs.retain(|f| !present.contains_key(f));
        for f in &dirs {
            std::fs::create_dir_all(d.path(&format!("{at}{f}")))?;
        }
        for (f, t) in &present {
            d.write(&format!("{at}{f}"), t)?;
        }
        let exists = |f: &String| present.contains_key(f) || dirs.contains(f);
        let pattern = PATTERNS[case.pattern as usize % PATTERNS.len()];
        for a in &mut cfg.arts {
            if a.parser == "Rust" {
                a.paths = pattern.iter().map(|p| (*p).to_owned()).collect();
            }
        }
        let jobs = all_jobs(&mut cfg);
        let by_default = case.pattern & 0x80 != 0;
        if by_default {
            cfg.default = Some(jobs.iter().map(|j| (*j).to_owned()).collect());
        }
        cfg.write(&d)?;
        let mut others: BTreeMap<&str, (Vec<u8>, u8)> = BTreeMap::new();
        for (n, c, op) in &case.others {
            let text = p.files[*c as usize % p.files.len()].1.clone();
            let text = match c % 7 {
                0 => b"*\n".to_vec(),
                1 => b"version = 7\n[[artefacts]]\n".to_vec(),
                _ => text,
            };
            let name = OTHERS[*n as usize % OTHERS.len()];
            if !names.iter().any(|f| f == name || f.starts_with(&format!("{name}/"))) {
                others.insert(name, (text, *op));
            }
        }
        // added, deleted, edited
        for (f, (t, op)) in &others {
            if op % 3 != 0 {
                d.write(&format!("{at}{f}"), t)?;
            }
        }
        let mut args = vec!["-c", "config.toml"];
        if case.base {
            args.extend(["-b", "proj"]);
        }
        if by_default {
            // the jobs are the default jobs
        } else {
            args.extend(&jobs);
        }
        let s0 = env.run(&d.0, &args)?.ran()?;
        let mut first = BTreeMap::new();
        for j in &jobs {
            first.insert(*j, d.report(&format!("{at}out/{j}"))?);
        }
        let t: TraceOut = parse_json(&first["tj"], "tj")?;
        let mut several = false;
        for a in &p.arts {
            let Some(o) = t.trace.artefacts.get(&a.cfg.id) else { crate::viol!("artefact {:?} is missing", a.cfg.id) };
            let want: BTreeSet<String> = if a.cfg.parser == "Rust" {
                a.files.iter().filter(|f| exists(f)).cloned().collect()
            } else {
                a.files.iter().cloned().collect()
            };
            let prefix = if case.base { "proj/" } else { "" };
            let got: BTreeSet<String> =
                files_of(o).into_iter().map(|f| f.strip_prefix(prefix).map_or(format!("?{f}"), str::to_owned)).collect();
            // files of literal patterns only, when there are just so many
            let want: BTreeSet<String> = if pattern.len() == 3 && a.cfg.parser == "Rust" {
                want.into_iter().filter(|f| pattern.contains(&f.as_str())).collect()
            } else {
                want
            };
            ensure!(got == want, "artefact {:?} lists the files {got:?}, it consists of {want:?}", a.cfg.id);
            ensure!(o.files.len() == got.len(), "artefact {:?} lists a file twice: {:?}", a.cfg.id, o.files);
            several |= got.len() > 1;
        }

        // other files have no influence
        for (f, (t, op)) in &others {
            match op % 3 {
                0 => d.write(&format!("{at}{f}"), t)?,
                1 => std::fs::remove_file(d.path(&format!("{at}{f}")))?,
                _ => {
                    let mut t = t.clone();
                    t.extend_from_slice(b"\n# REQ_NEW: One more\n");
                    d.write(&format!("{at}{f}"), t)?;
                }
            }
        }
        let s1 = env.run(&d.0, &args)?.ran()?;
        ensure!(s1 == s0, "exit status {s0}, then {s1}, only files that are not listed were changed: {:?}", others.keys());
        for j in &jobs {
            let r = d.report(&format!("{at}out/{j}"))?;
            ensure!(r == first[j], "only files that are not listed were changed ({:?}), report {j}: {}", others.keys(), differ(&first[j], &r));
        }

        // what else does the tool look at? If it is not listed it has no influence either
        let home = d.path("home");
        let log = env.dir()?;
        let looks = Opts { home: Some(home.clone()), looks: Some(log.path("looks")), ..Opts::default() };
        let s2 = env.run_opts(&d.0, &args, &looks)?.ran()?;
        ensure!(s2 == s0, "exit status {s0}, then {s2} with another home directory");
        let seen = std::fs::read(log.path("looks")).unwrap_or_default();
        let seen = String::from_utf8_lossy(&seen).into_owned();
        let listed: BTreeSet<std::path::PathBuf> =
            names.iter().map(|f| format!("{at}{f}")).chain(["config.toml".into()]).map(|f| d.path(&f)).collect();
        let mut strange: BTreeSet<std::path::PathBuf> = BTreeSet::new();
        for l in seen.lines() {
            let f: std::path::PathBuf = d.0.join(l).components().collect();
            let Ok(below) = f.strip_prefix(&d.0) else { continue };
            let name = below.to_string_lossy();
            let name = name.strip_prefix(at).unwrap_or(&name);
            // reports, and what the patterns match
            let own = name.starts_with("out/") || name.starts_with("src/") && name.ends_with(".rs") || name.contains("..");
            if !own && !f.is_dir() && !listed.contains(&f) {
                strange.insert(f);
            }
        }
        let mut words: Vec<String> = jobs.iter().map(|j| (*j).to_owned()).collect();
        words.extend(t.trace.artefacts.iter().flat_map(|(a, o)| o.requirements.keys().chain([a])).cloned());
        words.extend(names.iter().cloned());
        words.push("*".to_owned());
        let texts = [words.join("\n").into_bytes(), p.files[0].1.clone(), vec![], cfg.toml().into_bytes(), b"# REQ_NEW: One more\n".to_vec(), b"1\n".to_vec()];
        for f in strange.iter().take(3) {
            let old = std::fs::read(f).ok();
            // (patterns look at what exists)
            for text in texts.iter().take(if old.is_some() { 1 } else { texts.len() }) {
                if let Some(above) = f.parent() {
                    std::fs::create_dir_all(above)?;
                }
                std::fs::write(f, text)?;
                let s = env.run_opts(&d.0, &args, &Opts { home: Some(home.clone()), ..Opts::default() })?.ran()?;
                ensure!(s == s0, "exit status {s0}, then {s}, only {f:?} was changed, which is not listed");
                for j in &jobs {
                    let r = d.report(&format!("{at}out/{j}"))?;
                    ensure!(r == first[j], "only {f:?} was changed, which is not listed, report {j}: {}", differ(&first[j], &r));
                }
            }
            match old {
                Some(t) => std::fs::write(f, t)?,
                None => std::fs::remove_file(f)?,
            }
        }

        let mut i = Info::new();
        i.label("files the tool looks at are known", !seen.is_empty());
        i.label("other files the tool looks at", !strange.is_empty());
        i.label("default jobs", by_default);
        i.label("artefact of several files", several);
        i.label("missing file", p.files.iter().any(|f| !exists(&f.0)));
        i.label("directory in place of a file", !dirs.is_empty());
        i.label("base directory", case.base);
        i.nontrivial = !others.is_empty() && (several || !case.bad.is_empty());
        Ok(i)
    }
}
