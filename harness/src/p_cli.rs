//! C26: the same request, written in different ways on the command line
use crate::core::*;
use crate::ensure;
use crate::p_jobs::*;
use crate::proj::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CliCase {
    situation: Situation,
    /// requested jobs, in this order
    list: Vec<u8>,
    /// by `default_jobs`
    default: bool,
    /// jobs with names that look like something else
    names: Option<u8>,
    config: u8,
    base: u8,
    log: u8,
    quiet: u8,
    env: u8,
    /// where the options stand
    places: Vec<u8>,
    wrong: Option<(u8, u8)>,
}

const CONFIGS: &[&str] = &["requirements.toml", "config.toml", "conf/c.toml", "./c d.toml", "ä.toml", "requirements", "conf/../r.toml", "=.toml", "c=d.toml"];
const LOGS: &[&str] = &["off", "trace", "debug", "info", "warn", "error", "TRACE", "reqtrace=debug", "info,reqtrace::parsers=trace", "reqtrace::trace", "nonsense", ""];
const NAMES: &[[&str; 6]] = &[
    ["-q", "--config", "-", "--", "-x", "--help"],
    ["-c", "-b.", "-l", "--quiet", "-V", "-h"],
    ["--base=x", "---", "-1", "-ä", "-qc", "- "],
    ["help", "config.toml", "=", "a b", "", "é"],
    ["1", "a=b", "@f", "*", "\"q\"", "."],
    ["a,b", "a", "b", "A", "ab", "a b"],
    ["tj", "Tj", "TJ", "tj ", " tj", "t"],
];
const WRONG: usize = 12;

pub struct CommandLine;

impl Prop for CommandLine {
    type Case = CliCase;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "the command line is not the one of the reference run, and there are findings or several jobs or the invocation is unusable"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 8_000,
            Tier::Thorough => 100_000,
        }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<CliCase> {
        (
            situation(),
            prop_oneof![1 => Just(vec![]), 6 => prop::collection::vec(any::<u8>(), 1..6)],
            prop::bool::weighted(0.3),
            prop_oneof![1 => Just(None), 2 => any::<u8>().prop_map(Some)],
            (any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()),
            prop::collection::vec(any::<u8>(), 4),
            prop_oneof![3 => Just(None), 1 => any::<(u8, u8)>().prop_map(Some)],
        )
            .prop_map(|(situation, list, default, names, (config, base, log, quiet, env), places, wrong)| CliCase {
                situation,
                list,
                default,
                names,
                config,
                base,
                log,
                quiet,
                env,
                places,
                wrong,
            })
            .boxed()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["job names that start with a dash are given after `--`"]
    }
    fn check(&self, case: &CliCase, env: &Env) -> Res<Info> {
        let names: Vec<&str> = match case.names {
            None => ALL_JOBS.iter().map(|j| j.0).collect(),
            Some(n) => NAMES[n as usize % NAMES.len()].to_vec(),
        };
        let list: Vec<usize> = case.list.iter().map(|l| *l as usize % names.len()).collect();
        // reports on standard output: of one job, or of several
        let on_stdout = |k: usize| (case.env as usize >> 3) % 7 == k || case.places[2] & 3 == 0 && case.places[3] >> k & 1 == 1;
        let config = CONFIGS[case.config as usize % CONFIGS.len()];
        let write = |d: &Dir, config: &str| {
            let (mut c, input, findings) = case.situation.build(d)?;
            for (k, n) in names.iter().enumerate() {
                let (_, query, format) = ALL_JOBS[k];
                let file = if on_stdout(k) { "-".into() } else { format!("out/{k}") };
                c.job(n, query, format, &file);
            }
            if case.default {
                c.default = Some(list.iter().map(|k| names[*k].to_owned()).collect());
            }
            std::fs::create_dir_all(d.path("conf"))?;
            d.write(config, c.toml())?;
            Ok::<_, Fail>((input, findings))
        };
        let reports = |d: &Dir| -> Vec<Option<Vec<u8>>> { (0..6).map(|k| std::fs::read(d.path(&format!("out/{k}"))).ok()).collect() };

        // reference
        let d = env.dir()?;
        let (input, findings) = write(&d, "config.toml")?;
        let mut args = vec!["-c", "config.toml", "--"];
        if !case.default {
            args.extend(list.iter().map(|k| names[*k]));
        }
        let none = !case.default && list.is_empty();
        let first = env.run(&d.0, &args)?;
        let s0 = first.status()?;
        // nothing is requested and there are no default jobs
        ensure!((s0 == 2) == list.is_empty() || case.default, "exit status {s0} with jobs {list:?}: {}", first.describe());
        let want = reports(&d);
        if !none {
            for (k, r) in want.iter().enumerate() {
                let file = !on_stdout(k);
                ensure!(r.is_some() == (file && list.contains(&k)), "job {:?} was requested: {}, its report is written: {}", names[k], list.contains(&k), r.is_some());
            }
        }
        // the reports on standard output, in the order of the jobs
        let several = list.iter().filter(|k| on_stdout(**k)).count() > 1;
        if several {
            let mut out = vec![];
            for k in &list {
                let alone = env.run(&d.0, &["-c", "config.toml", "--", names[*k]])?;
                alone.status()?;
                out.extend(alone.stdout);
            }
            ensure!(
                first.stdout == out,
                "jobs {:?}: the standard output is not that of the jobs one after the other: {:?}",
                list.iter().map(|k| names[*k]).collect::<Vec<_>>(),
                String::from_utf8_lossy(&first.stdout)
            );
        }
        drop(d);

        // another command line
        let d = env.dir()?;
        write(&d, config)?;
        let cwd = d.0.to_str().ok_or_else(|| Fail::Infra("scratch directory".into()))?.to_owned();
        let s = |v: &[&str]| v.iter().map(|x| (*x).to_owned()).collect::<Vec<String>>();
        let mut opts: Vec<Vec<String>> = vec![];
        let form = case.config as usize / CONFIGS.len();
        match form % 6 {
            _ if form % 2 == 0 && config == "requirements.toml" => {}
            0 => opts.push(s(&["-c", config])),
            1 => opts.push(s(&["--config", config])),
            2 => opts.push(vec![format!("--config={config}")]),
            3 if !config.starts_with('=') => opts.push(vec![format!("-c{config}")]),
            4 => opts.push(vec![format!("-c={config}")]),
            _ => opts.push(vec!["--config".into(), format!("{cwd}/{config}")]),
        }
        match case.base % 8 {
            0 => {}
            1 => opts.push(s(&["-b", "."])),
            2 => opts.push(s(&["-b."])),
            3 => opts.push(s(&["--base", "."])),
            4 => opts.push(s(&["--base=."])),
            5 => opts.push(s(&["-b=."])),
            _ => {}
        }
        let l = LOGS[case.log as usize % LOGS.len()];
        match (case.log as usize / LOGS.len()) % 6 {
            0 => {}
            1 => opts.push(s(&["-l", l])),
            2 => opts.push(s(&["--log-level", l])),
            3 => opts.push(vec![format!("--log-level={l}")]),
            4 if !l.is_empty() => opts.push(vec![format!("-l{l}")]),
            _ => opts.push(vec![format!("-l={l}")]),
        }
        match case.quiet % 5 {
            0 => opts.push(s(&["-q"])),
            1 => opts.push(s(&["--quiet"])),
            _ => {}
        }
        let jobs: Vec<String> = if case.default { vec![] } else { list.iter().map(|k| names[*k].to_owned()).collect() };
        let dashed = jobs.iter().any(|j| j.starts_with('-')) || case.places.first().is_some_and(|p| p % 4 == 0);
        // options before, between and after the jobs
        let mut slots: Vec<Vec<String>> = vec![vec![]; jobs.len() + 1];
        for (k, o) in opts.into_iter().enumerate() {
            let p = case.places[k % case.places.len()] as usize;
            let slot = if dashed { 0 } else { p % slots.len() };
            if p & 0x80 != 0 {
                slots[slot].splice(0..0, o);
            } else {
                slots[slot].extend(o);
            }
        }
        let mut line: Vec<String> = vec![];
        let mut bad = false;
        let mut help = false;
        let mut names_it = None;
        if let Some((w, at)) = case.wrong {
            let at = if dashed { 0 } else { at as usize % slots.len() };
            bad = true;
            match w as usize % WRONG {
                0 => slots[at].push("--konfig".into()),
                1 => slots[at].push("-x".into()),
                2 => slots[at].push("--quiet=maybe".into()),
                3 => slots[at].push("--jobs".into()),
                4 if !dashed => slots.last_mut().unwrap().push("--config".into()),
                5 if !dashed => slots.last_mut().unwrap().push("-b".into()),
                6 if !dashed => slots.last_mut().unwrap().push("-l".into()),
                7 | 4 => {
                    slots[at].push(["--help", "-h"][case.env as usize & 1].into());
                    help = true;
                }
                8 | 5 => {
                    slots[at].push(["--version", "-V"][case.env as usize & 1].into());
                    help = true;
                }
                9 | 6 => {
                    // the default file is missing
                    slots.iter_mut().flatten().for_each(String::clear);
                    slots = slots.into_iter().map(|s| s.into_iter().filter(|x| !x.is_empty()).collect()).collect();
                    let _ = std::fs::remove_file(d.path("requirements.toml"));
                    names_it = Some("requirements.toml");
                }
                10 => {
                    let _ = std::fs::remove_file(d.path(config));
                    names_it = Some(config);
                }
                _ => {
                    // the file is a directory
                    std::fs::remove_file(d.path(config))?;
                    std::fs::create_dir(d.path(config))?;
                    names_it = Some(config);
                }
            }
        }
        for (k, o) in slots.into_iter().enumerate() {
            line.extend(o);
            if k == 0 && dashed {
                line.push("--".into());
            }
            if let Some(j) = jobs.get(k) {
                line.push(j.clone());
            }
        }
        let o = Opts {
            raw: true,
            env: match case.env % 8 {
                0 => vec![],
                1 => noise(env, u64::from_le_bytes([case.env, case.log, case.places[0], case.places[1], case.config, case.base, case.quiet, 1]).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20),
                2 => vec![("REQTRACE_LOG", "trace")],
                3 => vec![("REQTRACE_LOG", "off"), ("RUST_LOG", "trace")],
                4 => vec![("REQTRACE_LOG", "a=b=c"), ("RUST_BACKTRACE", "1")],
                5 => vec![("REQTRACE_CONFIG", "nothing.toml"), ("CONFIG", "nothing.toml"), ("BASE", "/nonexistent")],
                6 => vec![("RUST_LOG_STYLE", "always"), ("REQTRACE_LOG", "debug"), ("TERM", "xterm-256color")],
                _ => vec![("REQTRACE_LOG", ""), ("COLUMNS", "1"), ("LC_ALL", "tr_TR.UTF-8")],
            },
            stdin: (case.places[1] & 1 == 1).then(|| "/dev/zero".into()),
            ..Opts::default()
        };
        let refs: Vec<&str> = line.iter().map(String::as_str).collect();
        let run = env.run_opts(&d.0, &refs, &o)?;
        let status = run.status()?;
        let got = reports(&d);
        if bad {
            if help {
                ensure!(status == 0, "{line:?}: {}", run.describe());
                ensure!(!run.stdout.is_empty(), "{line:?}: nothing is shown");
            } else {
                ensure!(status == 2, "{line:?}: {}", run.describe());
                ensure!(run.stdout.is_empty(), "{line:?}: the output is {:?}", String::from_utf8_lossy(&run.stdout));
                ensure!(!run.stderr.is_empty(), "{line:?}: no message");
                if let Some(n) = names_it {
                    ensure!(String::from_utf8_lossy(&run.stderr).contains(n), "{line:?}: the message does not name {n}: {}", run.describe());
                }
            }
            for (k, r) in got.iter().enumerate() {
                ensure!(r.is_none(), "{line:?}: the report of job {:?} is written", names[k]);
            }
            ensure!(!d.path("out").exists(), "{line:?}: the directory of the reports is created");
        } else {
            ensure!(status == s0, "{line:?}: exit status {status}, {s0} for {args:?}: {}", run.describe());
            ensure!(
                run.stdout == first.stdout,
                "{line:?}: the standard output is {:?}, {:?} for {args:?}",
                String::from_utf8_lossy(&run.stdout),
                String::from_utf8_lossy(&first.stdout)
            );
            for (k, (a, b)) in want.iter().zip(&got).enumerate() {
                ensure!(a.is_some() == b.is_some(), "{line:?}: the report of {:?} is written: {}, {} for {args:?}", names[k], b.is_some(), a.is_some());
                ensure!(a == b, "{line:?}: the report of {:?} is not the one of {args:?}", names[k]);
            }
        }
        let mut i = Info::new();
        i.label("default jobs", case.default);
        i.label("default configuration file", !bad && config == "requirements.toml" && form % 2 == 0);
        i.label("job names like options", !case.default && jobs.iter().any(|j| j.starts_with('-')));
        i.label("several reports on standard output", several);
        i.label("report on standard output", !first.stdout.is_empty());
        i.label("no such option, or no value", bad && !help && names_it.is_none());
        i.label("help or version", help);
        i.label("no configuration file", names_it.is_some());
        i.label("no job", none);
        i.label("findings", s0 == 1);
        i.nontrivial = (input || findings || list.len() > 1 || bad) && refs != args;
        Ok(i)
    }
}
