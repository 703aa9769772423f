//! Project configurations
use crate::core::*;
use std::fmt::Write as _;

/// TOML basic string
pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04X}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn qlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "))
}

#[derive(Clone, Debug, Default)]
pub struct CfgArt {
    pub id: String,
    pub paths: Vec<String>,
    pub parser: &'static str,
    pub ignore: Option<bool>,
    pub rwt: Option<bool>,
}

impl CfgArt {
    pub fn new(id: &str, parser: &'static str, path: &str) -> Self {
        Self { id: id.into(), parser, paths: vec![path.into()], ..Self::default() }
    }
}

#[derive(Clone, Debug)]
pub struct CfgJob {
    pub name: String,
    pub query: &'static str,
    /// TOML value
    pub format: String,
    pub file: String,
    pub rc: Option<bool>,
}

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub version: Option<u32>,
    pub arts: Vec<CfgArt>,
    pub rels: Vec<(String, Vec<String>)>,
    pub jobs: Vec<CfgJob>,
    pub default: Option<Vec<String>>,
}

impl Cfg {
    pub fn job(&mut self, name: &str, query: &'static str, format: &str, file: &str) {
        self.jobs.push(CfgJob {
            name: name.into(),
            query,
            format: q(format),
            file: file.into(),
            rc: None,
        });
    }
    pub fn toml(&self) -> String {
        let mut o = String::new();
        if let Some(v) = self.version {
            writeln!(o, "version = {v}").unwrap();
        }
        if let Some(d) = &self.default {
            writeln!(o, "default_jobs = {}", qlist(d)).unwrap();
        }
        if self.rels.is_empty() {
            writeln!(o, "relations = []").unwrap();
        }
        if self.arts.is_empty() {
            writeln!(o, "artefacts = []").unwrap();
        }
        for a in &self.arts {
            writeln!(o, "[[artefacts]]\nid = {}\npaths = {}\nparser = {}", q(&a.id), qlist(&a.paths), q(a.parser)).unwrap();
            if let Some(b) = a.ignore {
                writeln!(o, "ignore_derived_requirements = {b}").unwrap();
            }
            if let Some(b) = a.rwt {
                writeln!(o, "reference_with_title = {b}").unwrap();
            }
        }
        for (u, l) in &self.rels {
            writeln!(o, "[[relations]]\nupper = {}\nlower = {}", q(u), qlist(l)).unwrap();
        }
        for j in &self.jobs {
            writeln!(o, "[jobs.{}]\nquery = {}\nformat = {}\nfile = {}", q(&j.name), q(j.query), j.format, q(&j.file)).unwrap();
            if let Some(b) = j.rc {
                writeln!(o, "set_return_code = {b}").unwrap();
            }
        }
        o
    }
    pub fn write(&self, d: &Dir) -> Res<()> {
        d.write("config.toml", self.toml())
    }
}

/// parse job to JSON over the given artefacts; returns the report
pub fn parse_project(env: &Env, d: &Dir, arts: Vec<CfgArt>) -> Res<(i32, crate::model::ParseOut)> {
    let mut c = Cfg { arts, ..Cfg::default() };
    c.job("p", "Parse", "Json", "out/p.json");
    c.write(d)?;
    let r = env.run(&d.0, &["-c", "config.toml", "p"])?;
    let s = r.ran()?;
    Ok((s, d.report_json("out/p.json")?))
}
