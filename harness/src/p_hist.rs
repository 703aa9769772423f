//! C28: reports reflect the files as they are now, and nothing but reports is written
use crate::cfg::*;
use crate::core::*;
use crate::ensure;
use crate::p_paths::*;
use crate::proj::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::time::{Duration, SystemTime};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    /// other letters or digits in the file, same size
    Letters { file: u16, seed: u64, how: u8 },
    /// two files change places
    Swap { a: u16, b: u16 },
    Delete { file: u16 },
    /// as at the beginning
    Restore { file: u16, how: u8 },
    /// a part is missing
    Cut { file: u16, at: u16, how: u8 },
    /// the content of another file is added
    Join { file: u16, other: u16, how: u8 },
    /// one more file in the directory of the Rust files
    Another { name: u8, file: u16 },
    Ignore { art: u8 },
    WithTitle { art: u8 },
    Relation { at: u8 },
    Nothing,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Step {
    ops: Vec<Op>,
    /// jobs that are requested
    jobs: u8,
    /// one process per job, at the same time
    parallel: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct HistCase {
    src: Src,
    steps: Vec<Step>,
}

pub struct History;

fn op() -> BoxedStrategy<Op> {
    let f = any::<u16>;
    let h = any::<u8>;
    prop_oneof![
        6 => (f(), any::<u64>(), h()).prop_map(|(file, seed, how)| Op::Letters { file, seed, how }),
        2 => (f(), f()).prop_map(|(a, b)| Op::Swap { a, b }),
        1 => f().prop_map(|file| Op::Delete { file }),
        3 => (f(), h()).prop_map(|(file, how)| Op::Restore { file, how }),
        2 => (f(), f(), h()).prop_map(|(file, at, how)| Op::Cut { file, at, how }),
        2 => (f(), f(), h()).prop_map(|(file, other, how)| Op::Join { file, other, how }),
        1 => (h(), f()).prop_map(|(name, file)| Op::Another { name, file }),
        1 => h().prop_map(|art| Op::Ignore { art }),
        1 => h().prop_map(|art| Op::WithTitle { art }),
        1 => h().prop_map(|at| Op::Relation { at }),
        1 => Just(Op::Nothing),
    ]
    .boxed()
}

fn step() -> BoxedStrategy<Step> {
    (prop::collection::vec(op(), 1..4), prop_oneof![1 => Just(63u8), 2 => any::<u8>()], prop::bool::weighted(0.25))
        .prop_map(|(ops, jobs, parallel)| Step { ops, jobs, parallel })
        .boxed()
}

/// all files, and directories, below a directory
pub fn tree(root: &Path) -> Res<BTreeMap<String, Option<Vec<u8>>>> {
    fn go(root: &Path, rel: &str, out: &mut BTreeMap<String, Option<Vec<u8>>>) -> Res<()> {
        for e in std::fs::read_dir(root.join(rel))? {
            let e = e?;
            let name = e.file_name().to_string_lossy().into_owned();
            let path = if rel.is_empty() { name } else { format!("{rel}/{name}") };
            if e.file_type()?.is_dir() {
                out.insert(path.clone(), None);
                go(root, &path, out)?;
            } else {
                out.insert(path, Some(std::fs::read(e.path())?));
            }
        }
        Ok(())
    }
    let mut out = BTreeMap::new();
    go(root, "", &mut out)?;
    Ok(out)
}

/// another letter for every third letter or so
fn letters(b: &[u8], mut seed: u64) -> Vec<u8> {
    let mut b = b.to_vec();
    let n = b.iter().filter(|c| c.is_ascii_alphanumeric()).count();
    if n == 0 {
        return b;
    }
    let mut next = || {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (seed >> 33) as usize
    };
    for _ in 0..1 + next() % 3 {
        let k = next() % n;
        let x = next();
        if let Some(c) = b.iter_mut().filter(|c| c.is_ascii_alphanumeric()).nth(k) {
            let class = match *c {
                b'0'..=b'9' => b'0'..=b'9',
                b'a'..=b'z' => b'a'..=b'z',
                _ => b'A'..=b'Z',
            };
            let size = usize::from(class.end() - class.start()) + 1;
            *c = class.start() + (x % size) as u8;
        }
    }
    b
}

/// writes a file; its times may stay as they are or be long ago
fn put(path: &Path, data: &[u8], how: u8) -> Res<()> {
    let before = std::fs::metadata(path).and_then(|m| m.modified()).ok();
    if how & 4 != 0 {
        // another file with that name
        let tmp = path.with_extension("new");
        std::fs::write(&tmp, data)?;
        std::fs::rename(&tmp, path)?;
    } else {
        if let Some(p) = path.parent() {
            std::fs::create_dir_all(p)?;
        }
        std::fs::write(path, data)?;
    }
    let time = match how % 4 {
        0 | 1 => before,
        2 => Some(SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000)),
        _ => None,
    };
    if let Some(t) = time {
        std::fs::File::options().write(true).open(path)?.set_modified(t)?;
    }
    Ok(())
}

impl Prop for History {
    type Case = HistCase;
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "a report differs from the one the same job made before an edit"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 1_500,
            Tier::Thorough => 20_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<HistCase> {
        let n = if tier == Tier::Quick { 5 } else { 9 };
        (source(tier), prop::collection::vec(step(), 2..n)).prop_map(|(src, steps)| HistCase { src, steps }).boxed()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the project is not edited while the tool runs", "requests that run at the same time write different report files"]
    }
    fn check(&self, case: &HistCase, env: &Env) -> Res<Info> {
        let mut input = case.src.input();
        let jobs = all_jobs(&mut input.cfg);
        let d = env.dir()?;
        let root = d.path("p");
        let home = d.path("home");
        std::fs::create_dir_all(&root)?;
        std::fs::create_dir_all(&home)?;
        let mut files: BTreeMap<String, Vec<u8>> = input.files.iter().cloned().collect();
        for (f, r) in &input.json {
            files.insert(f.clone(), serde_json::to_vec(r).unwrap());
        }
        let start = files.clone();
        for (f, t) in &files {
            put(&root.join(f), t, 3)?;
        }
        let opts = Opts { home: Some(home.clone()), ..Opts::default() };
        let mut cfg: Cfg = input.cfg;
        let all_rels = cfg.rels.clone();
        let names: Vec<String> = start.keys().cloned().collect();
        let mut reports: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut i = Info::new();
        let (mut differs, mut same_size) = (false, false);
        for (n, step) in case.steps.iter().enumerate() {
            // edits, not before the first run
            let mut how_now: BTreeMap<String, u8> = BTreeMap::new();
            let before = files.clone();
            for op in step.ops.iter().filter(|_| n > 0) {
                let pick = |f: &u16| names.get(*f as usize % names.len().max(1)).cloned();
                match op {
                    Op::Letters { file, seed, how } => {
                        if let Some(f) = pick(file) {
                            if let Some(t) = files.get(&f) {
                                files.insert(f.clone(), letters(t, *seed));
                                how_now.insert(f, *how);
                            }
                        }
                    }
                    Op::Swap { a, b } => {
                        if let (Some(a), Some(b)) = (pick(a), pick(b)) {
                            if a != b && files.contains_key(&a) && files.contains_key(&b) {
                                let (x, y) = (files[&a].clone(), files[&b].clone());
                                std::fs::rename(root.join(&a), root.join("swap"))?;
                                std::fs::rename(root.join(&b), root.join(&a))?;
                                std::fs::rename(root.join("swap"), root.join(&b))?;
                                files.insert(a, y);
                                files.insert(b, x);
                            }
                        }
                    }
                    Op::Delete { file } => {
                        if let Some(f) = pick(file) {
                            if files.remove(&f).is_some() {
                                std::fs::remove_file(root.join(&f))?;
                            }
                        }
                    }
                    Op::Restore { file, how } => {
                        if let Some(f) = pick(file) {
                            files.insert(f.clone(), start[&f].clone());
                            how_now.insert(f, *how);
                        }
                    }
                    Op::Cut { file, at, how } => {
                        if let Some(f) = pick(file) {
                            if let Some(t) = files.get_mut(&f) {
                                t.truncate(*at as usize % (t.len() + 1));
                                how_now.insert(f, *how);
                            }
                        }
                    }
                    Op::Join { file, other, how } => {
                        if let (Some(f), Some(o)) = (pick(file), pick(other)) {
                            let more = files.get(&o).or(start.get(&o)).cloned().unwrap_or_default();
                            if let Some(t) = files.get_mut(&f) {
                                if t.len() < 20_000 {
                                    t.extend(more);
                                    how_now.insert(f, *how);
                                }
                            }
                        }
                    }
                    Op::Another { name, file } => {
                        if let Some(o) = pick(file) {
                            let f = format!("src/{}.rs", ["a", "r00a", "zz", "r99"][*name as usize % 4]);
                            files.insert(f.clone(), start[&o].clone());
                            how_now.insert(f, 3);
                        }
                    }
                    Op::Ignore { art } => {
                        let k = *art as usize % cfg.arts.len();
                        cfg.arts[k].ignore = if cfg.arts[k].ignore.is_none() { Some(art & 128 != 0) } else { None };
                    }
                    Op::WithTitle { art } => {
                        let k = *art as usize % cfg.arts.len();
                        cfg.arts[k].rwt = if cfg.arts[k].rwt == Some(true) { None } else { Some(true) };
                    }
                    Op::Relation { at } => {
                        if cfg.rels.len() < all_rels.len() {
                            cfg.rels = all_rels.clone();
                        } else if !cfg.rels.is_empty() {
                            cfg.rels.remove(*at as usize % all_rels.len());
                        }
                    }
                    Op::Nothing => {}
                }
                // at once: an edit may be followed by a swap
                for (f, how) in std::mem::take(&mut how_now) {
                    put(&root.join(&f), &files[&f], how)?;
                }
            }
            same_size |= before.iter().any(|(f, t)| files.get(f).is_some_and(|u| u != t && u.len() == t.len()));
            std::fs::write(root.join("config.toml"), cfg.toml())?;

            // the requested jobs, here and in a fresh copy
            let mut asked: Vec<&str> = jobs.iter().enumerate().filter(|(k, _)| step.jobs >> k & 1 == 1).map(|j| *j.1).collect();
            if asked.is_empty() {
                asked.push("tj");
            }
            let status = if step.parallel {
                let all: Vec<Res<i32>> = std::thread::scope(|s| {
                    let hs: Vec<_> = asked
                        .iter()
                        .map(|j| {
                            let (root, opts) = (&root, &opts);
                            s.spawn(move || env.run_opts(root, &["-c", "config.toml", j], opts)?.ran())
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail::Infra("thread".into())))).collect()
                });
                let mut worst = 0;
                for s in all {
                    worst = worst.max(s?);
                }
                worst
            } else {
                let mut args = vec!["-c", "config.toml"];
                args.extend(&asked);
                env.run_opts(&root, &args, &opts)?.ran()?
            };
            let fresh = env.dir()?;
            for (f, t) in &files {
                fresh.write(f, t)?;
            }
            fresh.write("config.toml", cfg.toml())?;
            let mut args = vec!["-c", "config.toml"];
            args.extend(&asked);
            let want = env.run(&fresh.0, &args)?.ran()?;
            ensure!(status == want, "run {n}: exit status {status}, in a fresh copy of the project {want}");
            for j in &asked {
                let r = std::fs::read(root.join("out").join(j)).map_err(|e| Fail::Violation(format!("run {n}: no report {j}: {e}")))?;
                let w = fresh.report(&format!("out/{j}"))?;
                ensure!(r == w, "run {n}: report {j}, compared with the one of a fresh copy of the project: {}", differ(&w, &r));
                if reports.get(*j).is_some_and(|old| *old != r) {
                    differs = true;
                }
                reports.insert((*j).to_owned(), r);
            }

            // nothing else has been touched
            let now = tree(&root)?;
            for (f, t) in &files {
                ensure!(now.get(f).is_some_and(|n| n.as_ref() == Some(t)), "run {n}: the file {f} of the project was changed");
            }
            ensure!(now.get("config.toml").is_some_and(|n| n.as_deref() == Some(cfg.toml().as_bytes())), "run {n}: the configuration was changed");
            let dirs: BTreeSet<&str> = names.iter().filter_map(|f| f.split_once('/')).map(|f| f.0).chain(["out", "src"]).collect();
            for (f, t) in &now {
                let known = match t {
                    None => dirs.contains(f.as_str()),
                    Some(t) => {
                        files.contains_key(f) || f == "config.toml" || f.strip_prefix("out/").is_some_and(|j| reports.get(j) == Some(t))
                    }
                };
                ensure!(known, "run {n}: {f} was written, the requested jobs are {asked:?}");
            }
            let left = tree(&home)?;
            ensure!(left.is_empty(), "run {n}: files in the home or temporary directory: {:?}", left.keys().next());
        }
        i.label("edit that keeps the size", same_size);
        i.label("requests at the same time", case.steps.iter().any(|s| s.parallel));
        i.label("mixed parsers", matches!(case.src, Src::Mixed(_)));
        i.nontrivial = differs;
        Ok(i)
    }
}
