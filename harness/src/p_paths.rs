//! C21: reports depend only on the content; C23: base directory, paths and patterns
use crate::cfg::*;
use crate::core::*;
use crate::graph::*;
use crate::model::*;
use crate::proj::*;
use crate::{ensure, viol};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- C21

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Src {
    Graph {
        graph: GraphCase,
        /// (requirement, artefact): the artefact has a requirement with the same id
        dup: Vec<(u16, u8)>,
    },
    Mixed(Proj),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct AgainCase {
    src: Src,
    /// what the output files contain before the second run
    garbage: u16,
    log: u8,
    env: u8,
    /// one invocation per job
    split: bool,
    stdout: u8,
    perm: u64,
}

pub struct Again;

struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.0 >> 33
    }
    fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let k = (self.next() % (i as u64 + 1)) as usize;
            v.swap(i, k);
        }
    }
}

/// files and configuration
pub struct Input {
    pub files: Vec<(String, Vec<u8>)>,
    /// files with lists of requirements
    pub json: Vec<(String, Vec<Req>)>,
    pub cfg: Cfg,
}

impl Src {
    pub fn input(&self) -> Input {
        match self {
            Src::Graph { graph, dup } => {
                let mut w = graph.world(Mode::Any);
                for (r, a) in dup {
                    let homes: Vec<(usize, usize)> =
                        w.arts.iter().enumerate().flat_map(|(i, a)| (0..a.reqs.len()).map(move |k| (i, k))).collect();
                    if homes.is_empty() {
                        break;
                    }
                    let (from, k) = homes[*r as usize % homes.len()];
                    let to = *a as usize % w.arts.len();
                    let mut copy = w.arts[from].reqs[k].clone();
                    if w.arts[to].reqs.iter().any(|x| x.id == copy.id) {
                        continue;
                    }
                    copy.location.file = format!("again/{to}");
                    w.arts[to].reqs.push(copy);
                }
                Input {
                    files: vec![],
                    json: w.arts.iter().enumerate().map(|(i, a)| (format!("a{i}.json"), a.reqs.clone())).collect(),
                    cfg: world_cfg(&w),
                }
            }
            Src::Mixed(p) => {
                let p = p.render();
                let json: Vec<(String, Vec<Req>)> = p
                    .arts
                    .iter()
                    .filter(|a| a.cfg.parser == "Json")
                    .map(|a| (a.files[0].clone(), a.reqs.clone()))
                    .collect();
                Input {
                    files: p.files.iter().filter(|f| !json.iter().any(|j| j.0 == f.0)).cloned().collect(),
                    json,
                    cfg: p.cfg(),
                }
            }
        }
    }
}

pub fn source(tier: Tier) -> BoxedStrategy<Src> {
    prop_oneof![
        3 => (graph(tier), prop::collection::vec(any::<(u16, u8)>(), 0..3)).prop_map(|(graph, dup)| Src::Graph { graph, dup }),
        2 => proj(ProjSize { bad: true, max: 2 }).prop_map(Src::Mixed),
    ]
    .boxed()
}

pub fn write_input(i: &Input, d: &Dir) -> Res<()> {
    for (f, t) in &i.files {
        d.write(f, t)?;
    }
    for (f, r) in &i.json {
        d.write(f, serde_json::to_vec(r).unwrap())?;
    }
    i.cfg.write(d)
}

pub type Findings = (Vec<(String, Vec<String>, Vec<MCov>, Vec<String>)>, BTreeMap<String, Vec<String>>, Vec<E>, BTreeMap<String, (Vec<Req>, Vec<E>)>);

pub fn findings(t: TraceOut) -> Findings {
    let sorted = |mut v: Vec<String>| {
        v.sort();
        v
    };
    let mut rels: Vec<_> = t
        .trace
        .traced_relations
        .into_iter()
        .map(|r| {
            let mut c: Vec<MCov> = r
                .covered
                .into_iter()
                .map(|c| MCov { up: c.direction == "Upwards", upper: c.upper, lower: c.lower, loc: c.location })
                .collect();
            c.sort();
            (r.upper, r.lower, c, sorted(r.uncovered))
        })
        .collect();
    rels.sort();
    let mut e = errs(&t.trace.errors);
    e.sort();
    let arts = t
        .trace
        .artefacts
        .into_iter()
        .map(|(k, a)| {
            let mut e = errs(&a.errors);
            e.sort();
            (k, (a.requirements.into_values().collect(), e))
        })
        .collect();
    (rels, t.trace.derived.into_iter().map(|(k, v)| (k, sorted(v))).collect(), e, arts)
}

/// where two texts differ
pub fn differ(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let cut = |x: &[u8]| String::from_utf8_lossy(&x[k.saturating_sub(30).min(x.len())..(k + 60).min(x.len())]).into_owned();
    format!("{} and {} bytes, different from byte {k} on: {:?} and {:?}", a.len(), b.len(), cut(a), cut(b))
}

impl Prop for Again {
    type Case = AgainCase;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "the permutation changes the order of artefacts, relations or requirements, and there are findings"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 3_000,
            Tier::Thorough => 40_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<AgainCase> {
        (source(tier), any::<u16>(), any::<u8>(), any::<u8>(), any::<bool>(), any::<u8>(), any::<u64>())
            .prop_map(|(src, garbage, log, env, split, stdout, perm)| AgainCase { src, garbage, log, env, split, stdout, perm })
            .boxed()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["an artefact does not define an id twice when its list of requirements is reordered"]
    }
    fn check(&self, case: &AgainCase, env: &Env) -> Res<Info> {
        let mut input = case.src.input();
        let jobs = all_jobs(&mut input.cfg);
        for (n, q, f) in ALL_JOBS {
            input.cfg.job(&format!("std{n}"), q, f, "-");
        }
        let d = env.dir()?;
        write_input(&input, &d)?;
        let mut args = vec!["-c", "config.toml"];
        args.extend(&jobs);
        let s0 = env.run(&d.0, &args)?.ran()?;
        let mut first = BTreeMap::new();
        for j in &jobs {
            first.insert(*j, d.report(&format!("out/{j}"))?);
        }

        // again
        let junk: Vec<u8> = b"\n{\"x\": [1, 2]}\n# old *report*\n\xff".iter().copied().cycle().take(case.garbage as usize).collect();
        for (k, j) in jobs.iter().enumerate() {
            if (case.garbage as usize >> k) & 1 == 1 {
                d.write(&format!("out/{j}"), &junk)?;
            }
        }
        let opts = Opts {
            log: Some(["off", "trace", "debug", "info", "error"][case.log as usize % 5]),
            env: match case.env % 8 {
                0 => vec![],
                4.. => noise(env, u64::from(case.env / 8) << 8 ^ case.perm),
                1 => vec![("LANG", "de_DE.UTF-8"), ("LC_ALL", "C"), ("TZ", "Asia/Kolkata")],
                2 => vec![("HOME", "/nonexistent"), ("USER", "x"), ("COLUMNS", "20"), ("NO_COLOR", "1")],
                _ => vec![("REQTRACE_LOG", "warn"), ("RUST_BACKTRACE", "full"), ("CLICOLOR_FORCE", "1")],
            },
            ..Opts::default()
        };
        let s1 = if case.split {
            let mut worst = 0;
            for j in jobs.iter().rev() {
                worst = worst.max(env.run_opts(&d.0, &["-c", "config.toml", j], &opts)?.ran()?);
            }
            worst
        } else {
            env.run_opts(&d.0, &args, &opts)?.ran()?
        };
        ensure!(s0 == s1, "exit status {s0}, then {s1} for the same project");
        for j in &jobs {
            let r = d.report(&format!("out/{j}"))?;
            ensure!(r == first[j], "report {j} of the second run: {}", differ(&first[j], &r));
        }

        // to standard output
        let j = ALL_JOBS[case.stdout as usize % 6].0;
        let r = env.run_opts(&d.0, &["-c", "config.toml", &format!("std{j}")], &opts)?;
        r.ran()?;
        ensure!(r.stdout == first[j], "report {j} on standard output: {}", differ(&first[j], &r.stdout));

        // another order
        let mut rng = Rng(case.perm);
        let order = |i: &Input| (i.cfg.rels.clone(), i.cfg.arts.iter().map(|a| a.id.clone()).collect::<Vec<_>>(), i.json.clone());
        let before = order(&input);
        rng.shuffle(&mut input.cfg.arts);
        rng.shuffle(&mut input.cfg.rels);
        rng.shuffle(&mut input.cfg.jobs);
        for (_, r) in &mut input.json {
            rng.shuffle(r);
        }
        let changed = order(&input) != before;
        drop(d);
        let d = env.dir()?;
        write_input(&input, &d)?;
        let s2 = env.run(&d.0, &args)?.ran()?;
        ensure!(s0 == s2, "exit status {s0}, in another order {s2}");
        let a = findings(parse_json(&first["tj"], "tj")?);
        let b = findings(d.report_json("out/tj")?);
        for (x, y) in a.0.iter().zip(&b.0) {
            ensure!(x == y, "relation {x:?}, in another order {y:?}");
        }
        ensure!(a.0.len() == b.0.len(), "{} relations, in another order {}", a.0.len(), b.0.len());
        ensure!(a.1 == b.1, "derived {:?}, in another order {:?}", a.1, b.1);
        if let Some(x) = crate::p_graph::first_diff(&a.2, &b.2) {
            viol!("tracing errors, in another order: {x}");
        }
        for (k, x) in &a.3 {
            let Some(y) = b.3.get(k) else { viol!("artefact {k:?} is missing in another order") };
            ensure!(x == y, "artefact {k:?}: {x:?}, in another order {y:?}");
        }
        // the text reports consist of the same lines
        for j in ["tm", "tg", "pm", "pt"] {
            let lines = |t: &[u8]| {
                let mut v: Vec<Vec<u8>> = t.split(|b| *b == b'\n').map(<[u8]>::to_vec).collect();
                v.sort();
                v
            };
            let (x, y) = (lines(&first[j]), lines(&d.report(&format!("out/{j}"))?));
            if x != y {
                let only = |a: &[Vec<u8>], b: &[Vec<u8>]| a.iter().find(|l| !b.contains(l)).map(|l| String::from_utf8_lossy(l).into_owned());
                viol!("report {j}: only in the first {:?}, only in another order {:?}", only(&x, &y), only(&y, &x));
            }
        }
        let pa: ParseOut = parse_json(&first["pj"], "pj")?;
        let pb: ParseOut = d.report_json("out/pj")?;
        ensure!(pa.requirements == pb.requirements, "the parse job lists other requirements in another order");
        let (mut ea, mut eb) = (errs(&pa.errors), errs(&pb.errors));
        ea.sort();
        eb.sort();
        ensure!(ea == eb, "the parse job lists {ea:?}, in another order {eb:?}");

        let mut i = Info::new();
        i.label("findings", s0 == 1);
        i.label("mixed parsers", matches!(case.src, Src::Mixed(_)));
        i.label("ids defined twice", a.2.iter().any(|e| matches!(e, E::DupReq { .. })));
        i.label("longer old report", jobs.iter().enumerate().any(|(k, j)| (case.garbage >> k) & 1 == 1 && first[j].len() < junk.len()));
        i.nontrivial = changed && s0 == 1;
        Ok(i)
    }
}

// ---------------------------------------------------------------- C23

const BASES: &[&str] = &[
    "plain", "with blank", "[ab]", "*", "?x", "ä中", "a[!b]c", "{x,y}", "[", "]", "**", "-d", "~", "$HOME", "%20", "b\\n", "#h",
    "it's", "\"q\"", "x.", ".hid", "a]b[c", "[[]", "e\u{301}", "a", "b", "...",
];
/// directories next to the base directory that patterns in its name would match
const DIRS: &[&str] = &["src", "s", "a b", "ä", "x[1]", "x1", ".hid", "deep", "c*", "t.rs.d", "src2"];
const NAMES: &[&str] = &[
    "a.rs", "b.rs", "c.rs", "lib.rs", "x[1].rs", "x1.rs", "q?.rs", "qq.rs", "*.rs", "d.RS", "e.txt", ".h.rs", "ö.rs", "sp ace.rs",
    "-r.rs", "a.rs.bak", "9.rs", "]].rs",
];
const DIR_PAT: &[&str] = &["*", "**", "s*", "?", "[a-s]*", "*c*", "[!s]*", "*[0-9]*", "src", "deep", "x1", "s", "src2", "?*"];
const FILE_PAT: &[&str] = &[
    "*.rs", "a.rs", "?.rs", "[ab].rs", "[!a]*.rs", "*", "*.r?", "*[0-9]*", "x*", "[c-q]*.rs", "*.R[A-Z]", "lib.rs", "*a*", "?[?].rs", "*[]]*", "??.rs",
];

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Pat {
    dirs: Vec<u8>,
    /// a pattern, or one of the files
    file: u8,
    literal: bool,
    dot: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PathCase {
    base: Vec<u8>,
    /// directories and name
    files: Vec<(Vec<u8>, u8)>,
    pats: Vec<Pat>,
    abs_pats: bool,
    md: (Vec<u8>, u8),
    md_abs: bool,
    /// a file that the name of the Markdown file would match as a pattern
    report: Vec<u8>,
    report_abs: bool,
    /// paths that go up: of the report, the single file, the patterns
    #[serde(default)]
    up: (u8, u8, u8),
    /// working directory, form of the base directory, form of the configuration file
    runs: Vec<(u8, u8, u8)>,
}

fn pick<'a>(v: &[&'a str], n: u8) -> &'a str {
    v[n as usize % v.len()]
}

fn escape(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '*' | '?' | '[' | ']' => format!("[{c}]"),
            c => c.to_string(),
        })
        .collect()
}

/// one component: `*`, `?`, `[...]`
fn matches(p: &[char], s: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('*') => (0..=s.len()).any(|k| matches(&p[1..], &s[k..])),
        Some('?') => !s.is_empty() && matches(&p[1..], &s[1..]),
        Some('[') => {
            let neg = p.get(1) == Some(&'!');
            let from = if neg { 2 } else { 1 };
            // the first character may be a bracket
            let end = (from + 1..p.len()).find(|i| p[*i] == ']').expect("class");
            let set = &p[from..end];
            let Some(c) = s.first() else { return false };
            let mut k = 0;
            let mut within = false;
            while k < set.len() {
                if k + 2 < set.len() && set[k + 1] == '-' {
                    within |= set[k] <= *c && *c <= set[k + 2];
                    k += 3;
                } else {
                    within |= set[k] == *c;
                    k += 1;
                }
            }
            within != neg && matches(&p[end + 1..], &s[1..])
        }
        Some(x) => s.first() == Some(x) && matches(&p[1..], &s[1..]),
    }
}

fn path_matches(p: &[String], s: &[&str]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(x) if x == "**" => path_matches(&p[1..], s) || (!s.is_empty() && path_matches(p, &s[1..])),
        Some(x) => {
            !s.is_empty()
                && matches(&x.chars().collect::<Vec<_>>(), &s[0].chars().collect::<Vec<_>>())
                && path_matches(&p[1..], &s[1..])
        }
    }
}

fn relative(from: &Path, to: &Path) -> PathBuf {
    let f: Vec<_> = from.components().collect();
    let t: Vec<_> = to.components().collect();
    let n = f.iter().zip(&t).take_while(|(a, b)| a == b).count();
    let mut p = PathBuf::new();
    for _ in n..f.len() {
        p.push("..");
    }
    for c in &t[n..] {
        p.push(c);
    }
    if p.as_os_str().is_empty() {
        p.push(".");
    }
    p
}

fn all_files(dir: &Path, out: &mut BTreeSet<PathBuf>) -> Res<()> {
    for e in std::fs::read_dir(dir)? {
        let e = e?;
        if e.file_type()?.is_dir() {
            all_files(&e.path(), out)?;
        } else {
            out.insert(e.path());
        }
    }
    Ok(())
}

pub struct Paths;

impl Prop for Paths {
    type Case = PathCase;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "the patterns match some but not all of the files, or the base directory's name contains pattern characters"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 6_000,
            Tier::Thorough => 80_000,
        }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<PathCase> {
        let dirs = || prop_oneof![3 => prop::collection::vec(any::<u8>(), 0..2), 1 => prop::collection::vec(any::<u8>(), 2..4)];
        let pat = (dirs(), any::<u8>(), prop::bool::weighted(0.3), prop::bool::weighted(0.1))
            .prop_map(|(dirs, file, literal, dot)| Pat { dirs, file, literal, dot });
        (
            (prop::collection::vec(any::<u8>(), 1..3), prop::collection::vec((dirs(), any::<u8>()), 1..9)),
            (prop::collection::vec(pat, 1..4), prop::bool::weighted(0.2)),
            ((dirs(), any::<u8>()), prop::bool::weighted(0.2)),
            (prop::collection::vec(any::<u8>(), 1..4), prop::bool::weighted(0.2)),
            prop_oneof![1 => Just((0, 0, 0)), 1 => any::<(u8, u8, u8)>()],
            prop::collection::vec(any::<(u8, u8, u8)>(), 2..3),
        )
            .prop_map(|((base, files), (pats, abs_pats), (md, md_abs), (report, report_abs), up, runs)| PathCase {
                base,
                files,
                pats,
                abs_pats,
                md,
                md_abs,
                report,
                report_abs,
                up,
                runs,
            })
            .boxed()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "names are valid UTF-8; no symbolic links",
            "patterns match no directories, and all patterns of an artefact are relative or all are absolute",
            "wildcards also match files whose names begin with a dot",
        ]
    }
    fn check(&self, case: &PathCase, env: &Env) -> Res<Info> {
        let d = env.dir()?;
        let root = std::fs::canonicalize(&d.0)?;
        let top = root.join("top");
        let mut base = top.clone();
        for b in &case.base {
            base.push(pick(BASES, *b));
        }
        std::fs::create_dir_all(&base)?;
        let cwd_other = root.join("else where");
        std::fs::create_dir_all(&cwd_other)?;
        std::fs::create_dir_all(base.join("src"))?;

        // the tree; decoys in directories that the base directory's name would match as a pattern
        let mut files: BTreeMap<String, usize> = BTreeMap::new();
        for (dirs, n) in &case.files {
            let mut p: Vec<&str> = dirs.iter().map(|x| pick(DIRS, *x)).collect();
            p.push(pick(NAMES, *n));
            let k = files.len();
            files.entry(p.join("/")).or_insert(k);
        }
        let mut dirs: BTreeSet<String> = BTreeSet::from(["src".to_owned()]);
        for (f, k) in &files {
            d.write(base.join(f).to_str().unwrap(), format!("fn f_{k}() {{\n    requirement_covered!(REQ_{k});\n}}\n"))?;
            let mut p = Path::new(f);
            while let Some(x) = p.parent().filter(|x| !x.as_os_str().is_empty()) {
                dirs.insert(x.to_str().unwrap().to_owned());
                p = x;
            }
            for decoy in ["a", "b", "anything", "n"] {
                let mut other = base.clone();
                other.set_file_name(decoy);
                if other != base && !other.exists() || other.join("decoy").exists() {
                    d.write(other.join("decoy").to_str().unwrap(), "")?;
                    d.write(other.join(f).to_str().unwrap(), "fn decoy() {\n    requirement_covered!(DECOY);\n}\n")?;
                }
            }
        }

        // a single file is no pattern
        let mut md: Vec<String> = case.md.0.iter().map(|x| pick(DIRS, *x).to_owned()).collect();
        let name = pick(&["m.md", "m[1].md", "*.md", "?.md", "m n.md", "ü.md", "[m].md", "m.md"], case.md.1);
        md.push(name.to_owned());
        let md = md.join("/");
        for decoy in ["m1.md", "m.md", "x.md"] {
            let p = Path::new(&md).with_file_name(decoy).to_str().unwrap().to_owned();
            d.write(base.join(&p).to_str().unwrap(), "# DECOY_MD: Decoy\n\nDecoy\n\n")?;
            // patterns must not match it
            dirs.insert(p);
        }
        d.write(base.join(&md).to_str().unwrap(), "# REQ_MD: Title\n\nText\n\nDepends:\n*   REQ_X\n\n")?;
        let mut p = Path::new(&md);
        loop {
            dirs.insert(p.to_str().unwrap().to_owned());
            match p.parent().filter(|x| !x.as_os_str().is_empty()) {
                Some(x) => p = x,
                None => break,
            }
        }

        // ways from the base directory to itself
        let own_name = base.file_name().unwrap().to_str().unwrap().to_owned();
        let detour = |n: u8, glob: bool| match n % 6 {
            0 => "src/../".to_owned(),
            1 => format!("../{}/", if glob { escape(&own_name) } else { own_name.clone() }),
            _ => String::new(),
        };

        // patterns
        let mut pats: Vec<String> = vec![];
        let mut read: BTreeSet<usize> = BTreeSet::new();
        let mut missing: Vec<String> = vec![];
        let mut meta = false;
        for p in &case.pats {
            let mut comps: Vec<String> = vec![];
            if p.literal {
                let f = files.keys().nth(p.file as usize % files.len()).unwrap();
                comps.extend(f.split('/').map(escape));
            } else {
                comps.extend(p.dirs.iter().map(|x| pick(DIR_PAT, *x).to_owned()));
                comps.push(pick(FILE_PAT, p.file).to_owned());
            }
            if dirs.iter().any(|x| path_matches(&comps, &x.split('/').collect::<Vec<_>>())) {
                continue;
            }
            let hits: Vec<usize> =
                files.iter().filter(|(f, _)| path_matches(&comps, &f.split('/').collect::<Vec<_>>())).map(|(_, k)| *k).collect();
            let text = format!("{}{}", detour(case.up.2.wrapping_sub(1), true), comps.join("/"));
            let text = if p.dot { format!("./{text}") } else { text };
            let text = if case.abs_pats { format!("{}/{text}", escape(base.to_str().unwrap())) } else { text };
            let wild = text.contains(['*', '?', '[', ']']);
            meta |= wild;
            if hits.is_empty() && !wild {
                missing.push(text.clone());
            }
            read.extend(hits);
            pats.push(text);
        }
        if pats.is_empty() {
            pats.push(if case.abs_pats { format!("{}/none*", escape(base.to_str().unwrap())) } else { "none*".into() });
        }

        let mut c = Cfg::default();
        let mut code = CfgArt::new("code", "Rust", "");
        code.paths = pats;
        c.arts.push(code);
        let md_path = base.join(&md);
        let md_text = format!("{}{md}", detour(case.up.1.wrapping_sub(1), false));
        c.arts.push(CfgArt::new("doc", "Markdown", if case.md_abs { md_path.to_str().unwrap() } else { &md_text }));
        let mut report: Vec<&str> = case.report.iter().map(|r| pick(BASES, *r)).collect();
        report.insert(0, "out");
        // only `-` alone is standard output
        report.push(["r.json", "-", "-r.json", "r", "*", "[r].json", "r json", "--", "r\u{301}.-", "-"][case.report[0] as usize / BASES.len()]);
        let mut report = report.join("/");
        let flat = case.report.len() == 1 && case.report[0] % 3 == 0;
        if flat {
            report = format!("./{}", report.rsplit('/').next().unwrap());
        }
        // above or beside the base directory, or by way of another one
        let up = match case.up.0 % 8 {
            1 => "../up/",
            2 => "../../up x/",
            3 => "src/../",
            4 => "../",
            _ => "",
        };
        let from = match case.up.0 % 8 {
            1 => base.parent().unwrap().join("up"),
            2 => base.parent().unwrap().parent().unwrap().join("up x"),
            4 => base.parent().unwrap().to_owned(),
            _ => base.clone(),
        };
        let report_dir = if case.report_abs { root.join("abs out") } else { from };
        let report_path = report_dir.join(&report);
        let report = if case.report_abs { report } else { format!("{up}{report}") };
        c.job("t", "Trace", "Json", if case.report_abs { report_path.to_str().unwrap() } else { &report });
        let up_report = !case.report_abs && report.contains("../");
        let cfg_path = root.join("conf here/reqs.toml");
        d.write(cfg_path.to_str().unwrap(), c.toml())?;

        let mut before = BTreeSet::new();
        all_files(&root, &mut before)?;
        let (mut rel, mut abs, mut own) = (false, false, false);
        for (w, b, cf) in &case.runs {
            let cwd = match w % 5 {
                0 | 1 => base.clone(),
                2 => root.clone(),
                3 => cwd_other.clone(),
                _ => base.join("src"),
            };
            let mut args: Vec<String> = vec![];
            let cfg = if cf % 2 == 0 { cfg_path.clone() } else { relative(&cwd, &cfg_path) };
            args.push(format!("--config={}", cfg.display()));
            let bases = [
                relative(&cwd, &base).to_str().unwrap().to_owned(),
                base.to_str().unwrap().to_owned(),
                format!("{}/", relative(&cwd, &base).display()),
                format!("{}/src/..", relative(&cwd, &base).display()),
                format!("./{}", relative(&cwd, &base).display()),
                format!("{}/../{}", base.display(), base.file_name().unwrap().to_str().unwrap()),
            ];
            let form = *b as usize % 7;
            if form == 6 && cwd == base {
                own = true;
            } else {
                rel |= form != 1;
                abs |= form == 1;
                args.push(format!("--base={}", bases[form % 6]));
            }
            args.push("t".into());
            let how = format!("in {cwd:?} with {args:?}");
            let run = env.run(&cwd, &args.iter().map(String::as_str).collect::<Vec<_>>())?;
            // the reference of REQ_MD is unknown
            ensure!(run.status()? == 1, "{how}: {}", run.describe());
            let Ok(data) = std::fs::read(&report_path) else { viol!("{how}: no report {report_path:?}") };
            let t: TraceOut = parse_json(&data, "trace")?;
            let mut after = BTreeSet::new();
            all_files(&root, &mut after)?;
            after.remove(&report_path);
            if let Some(x) = after.difference(&before).next() {
                viol!("{how}: {x:?} was written");
            }
            let real = |f: &str| {
                let p = cwd.join(f);
                std::fs::canonicalize(&p).map_err(|e| Fail::Violation(format!("{how}: reported file {f:?}: {e}")))
            };
            let Some(code) = t.trace.artefacts.get("code") else { viol!("{how}: no artefact code") };
            let ids: BTreeSet<String> = code.requirements.keys().cloned().collect();
            let want: BTreeSet<String> = read.iter().map(|k| format!("f_{k}")).collect();
            ensure!(ids == want, "{how}: requirements {ids:?} were read, expected {want:?} of {files:?} by {:?}", c.arts[0].paths);
            let mut seen = BTreeSet::new();
            for f in &code.files {
                ensure!(seen.insert(real(f)?), "{how}: file {f:?} is listed twice");
            }
            let expected: BTreeSet<PathBuf> = files.iter().filter(|(_, k)| read.contains(k)).map(|(f, _)| base.join(f)).collect();
            ensure!(seen == expected, "{how}: files {seen:?}, expected {expected:?}");
            for (f, k) in files.iter().filter(|(_, k)| read.contains(k)) {
                let r = &code.requirements[&format!("f_{k}")];
                ensure!(r.covers.len() == 1 && r.covers[0].id == format!("REQ_{k}"), "{how}: references of {f:?}: {:?}", r.covers);
                for l in [&r.location, &r.covers[0].location] {
                    ensure!(real(&l.file)? == base.join(f), "{how}: location {l:?} is not in {f:?}");
                }
            }
            ensure!(
                code.errors.len() == missing.len(),
                "{how}: errors {:?}, files {files:?}, missing {missing:?}",
                code.errors
            );
            let Some(doc) = t.trace.artefacts.get("doc") else { viol!("{how}: no artefact doc") };
            let Some(r) = doc.requirements.get("REQ_MD") else { viol!("{how}: {md:?} was not read: {:?}", doc.errors) };
            ensure!(doc.requirements.len() == 1, "{how}: requirements {:?} in {md:?}", doc.requirements.keys());
            for f in doc.files.iter().chain([&r.location.file, &r.depends[0].location.file]) {
                ensure!(real(f)? == base.join(&md), "{how}: {f:?} is not {md:?}");
            }
            ensure!(doc.files.len() == 1 && doc.errors.is_empty(), "{how}: {:?} {:?}", doc.files, doc.errors);
            std::fs::remove_file(&report_path)?;
            let out = if case.report_abs { report_dir.clone() } else { report_dir.join("out") };
            if out.exists() {
                std::fs::remove_dir_all(out)?;
            }
        }

        let special = base.strip_prefix(&top).unwrap().to_str().unwrap().contains(['[', ']', '*', '?']);
        let mut i = Info::new();
        i.label("pattern characters in base directory", special);
        i.label("relative base", rel);
        i.label("absolute base", abs);
        i.label("default base", own);
        i.label("absolute patterns", case.abs_pats);
        i.label("absolute report", case.report_abs);
        i.label("report above the base directory", up_report);
        i.label("report file named -", report.ends_with("/-"));
        i.label("missing literal path", !missing.is_empty());
        i.label("wildcards", meta);
        i.label("some files matched, some not", !read.is_empty() && read.len() < files.len());
        i.nontrivial = special || (!read.is_empty() && read.len() < files.len());
        Ok(i)
    }
}
