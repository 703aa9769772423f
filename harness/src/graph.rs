//! Random graphs of artefacts, relations, requirements and references
use crate::cfg::*;
use crate::core::*;
use crate::model::*;
use crate::strat::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};

/// Raw numbers, so that shrinking keeps every case valid; `world()` gives them a meaning
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct GraphCase {
    pub arts: Vec<GArt>,
    pub rels: Vec<(u8, u8)>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct GArt {
    pub name: u8,
    pub ignore: Option<bool>,
    pub rwt: Option<bool>,
    pub reqs: Vec<GReq>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct GReq {
    pub id: u16,
    pub title: u8,
    pub loc: u8,
    pub extra: u8,
    pub covers: Vec<GRef>,
    pub depends: Vec<GRef>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct GRef {
    pub kind: u8,
    pub a: u16,
    pub title: u8,
    pub loc: u8,
}

#[derive(Clone, Copy, Debug)]
pub struct Size {
    pub min: usize,
    pub arts: usize,
    pub reqs: usize,
    pub refs: usize,
    pub rels: usize,
}

fn gref() -> BoxedStrategy<GRef> {
    (any::<u8>(), any::<u16>(), any::<u8>(), any::<u8>())
        .prop_map(|(kind, a, title, loc)| GRef { kind, a, title, loc })
        .boxed()
}

fn greq(refs: usize) -> BoxedStrategy<GReq> {
    (
        any::<u16>(),
        any::<u8>(),
        any::<u8>(),
        any::<u8>(),
        prop::collection::vec(gref(), 0..=refs),
        prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(gref(), 0..=refs)],
    )
        .prop_map(|(id, title, loc, extra, covers, depends)| GReq { id, title, loc, extra, covers, depends })
        .boxed()
}

fn opt() -> BoxedStrategy<Option<bool>> {
    prop_oneof![3 => Just(None), 1 => Just(Some(true)), 1 => Just(Some(false))].boxed()
}

fn sized(s: Size) -> BoxedStrategy<GraphCase> {
    let art = (any::<u8>(), opt(), opt(), prop::collection::vec(greq(s.refs), 0..=s.reqs))
        .prop_map(|(name, ignore, rwt, reqs)| GArt { name, ignore, rwt, reqs });
    (
        prop::collection::vec(art, s.min..=s.arts),
        prop::collection::vec((any::<u8>(), any::<u8>()), s.min - 1..=s.rels),
    )
        .prop_map(|(arts, rels)| GraphCase { arts, rels })
        .boxed()
}

pub fn graph(tier: Tier) -> BoxedStrategy<GraphCase> {
    let mid = sized(Size { min: 2, arts: 4, reqs: 4, refs: 3, rels: 4 });
    let small = sized(Size { min: 1, arts: 3, reqs: 2, refs: 2, rels: 2 });
    let wide = sized(Size { min: 3, arts: 7, reqs: 3, refs: 3, rels: 8 });
    let deep = sized(Size { min: 2, arts: 3, reqs: 30, refs: 8, rels: 3 });
    // a few requirements with very many references, and many artefacts and relations
    let fan = sized(Size { min: 2, arts: 3, reqs: 2, refs: 70, rels: 2 });
    let many = sized(Size { min: 12, arts: 24, reqs: 2, refs: 2, rels: 30 });
    let tall = sized(Size { min: 2, arts: 3, reqs: 150, refs: 3, rels: 2 });
    // beyond any number a byte can count
    let more = sized(Size { min: 2, arts: 3, reqs: 1, refs: 300, rels: 2 });
    let long = sized(Size { min: 2, arts: 2, reqs: 300, refs: 1, rels: 1 });
    let huge = sized(Size { min: 3, arts: 6, reqs: 80, refs: 12, rels: 8 });
    match tier {
        Tier::Quick => prop_oneof![600 => mid, 240 => small, 150 => wide, 12 => deep, 2 => fan, 3 => many, 2 => tall, 1 => more, 1 => long].boxed(),
        Tier::Thorough => {
            prop_oneof![160 => mid, 40 => small, 100 => wide, 30 => deep, 3 => huge, 3 => fan, 3 => many, 1 => tall, 1 => more, 1 => long].boxed()
        },
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// everything the JSON formats can transport
    Any,
    /// ids, titles, names that can be told apart in text reports
    Sane,
}

const NAMES: &[&str] = &[
    "arch", "Req", "code", "b", "B", "a", "requirements", "Ä", "z z", "code2", "co", "0", "lower", "upper",
];

fn id_text(n: u16, mode: Mode) -> String {
    let k = n / 16 % 12;
    match (n % 16, mode) {
        (0..=3, _) => format!("REQ_{k}"),
        (4, _) => format!("REQ_{k}_"),
        (5, _) => format!("REQ_1{k}"),
        (6, Mode::Any) => format!("req_{k}"),
        (7, Mode::Any) => format!("m::(A < T > as B)::f{k}"),
        (8, Mode::Any) => format!("Ä{k}ж"),
        (9, Mode::Any) => ["x", "", " ", "REQ_1 ", " REQ_1", "a\nb", "\"", "REQ-1", "\\", "REQ_1\u{301}", "\u{fffd}", "REQ_1:"][k as usize].to_owned(),
        (10, Mode::Any) if k == 3 => "L".repeat(3000),
        (7, Mode::Sane) => format!("m::(A as B)::f{k}"),
        (8, Mode::Sane) => format!("m::f{k}"),
        (13, _) if k % 2 == 0 => format!("m::f{k}::g"),
        (13, _) => format!("m::f{}", k - 1),
        (11, _) => format!("A{k}"),
        (12, _) => format!("z_{k}_v2"),
        // words with a meaning elsewhere
        (14, _) if k % 2 == 0 => {
            let s = ID_WORDS[(n / 192) as usize % ID_WORDS.len()];
            if mode == Mode::Sane && s.len() < 4 { format!("{s}_TEXT") } else { s.to_owned() }
        }
        _ => format!("DSG_{k}"),
    }
}

fn title_text(n: u8, mode: Mode) -> Option<String> {
    Some(match n % 12 {
        0 | 1 => return None,
        2 => "Title".into(),
        3 => "title".into(),
        4 if mode == Mode::Any => "".into(),
        5 if mode == Mode::Any => "Tïtle \"quoted\" \\ 中".into(),
        6 if mode == Mode::Any => " Title ".into(),
        7 if n % 24 == 7 => "Title of REQ_1: more".into(),
        7 => title_word(n / 12 * 3 + n % 7, mode),
        9 if n >= 120 => [
            "Read & write", "C++, C# (all)", "two  blanks", "under_score - dash", "100 % of it", "it's a/b", "-- dashes --", "v1.2.3 [draft] {x}", "UPPER Case!", "a <b> c", "50$ @home ~now",
        ][usize::from(n) / 12 - 10]
        .into(),
        8 if n >= 180 => format!("{} of a long title", if mode == Mode::Any { "Wörd " } else { "Word " }.repeat(usize::from(n) - 170)),
        k => format!("Title {}", u32::from(n) * 7 % 31 + u32::from(k)),
    })
}

/// a title with a meaning elsewhere
fn title_word(n: u8, mode: Mode) -> String {
    let s = TITLE_WORDS[usize::from(n) % TITLE_WORDS.len()];
    if mode == Mode::Sane && s.len() < 4 { "Other".into() } else { s.into() }
}

/// a title that differs a little
fn near_title(s: &str, n: u8, mode: Mode) -> String {
    let swap = |from: &str, to: &str| {
        if s.contains(from) { s.replacen(from, to, 1) } else { format!("{s}{to}") }
    };
    match (n % 28, mode) {
        (21, _) => format!("{}...", s.chars().take(s.chars().count() / 2).collect::<String>()),
        (22, _) => format!("{}…", s.chars().take(s.chars().count() / 2).collect::<String>()),
        (23, _) => s.split([':', ' ', '(']).next().unwrap_or_default().to_owned(),
        (24, _) => swap("&", "and"),
        (25, _) => s.split(' ').rev().collect::<Vec<_>>().join(" "),
        (26, _) => s.replace(['.', ',', ':', '!', '(', ')', '-'], ""),
        (27, _) => swap(" ", "_"),
        (6, _) => format!("{s}."),
        (7, _) => format!("{s}!"),
        (8, _) => format!("The {s}"),
        (9, _) => swap(" ", "  "),
        (10, _) => swap(" ", "-"),
        (11, _) => swap("i", "ï"),
        (12, _) => format!("\u{201c}{s}\u{201d}"),
        (13, _) => format!("{s} (old)"),
        (14, Mode::Any) => swap(" ", "\u{a0}"),
        (15, Mode::Any) => swap(" ", "\t"),
        (16, Mode::Any) => format!(" {s}"),
        (17, Mode::Any) => format!("{s}\n"),
        (18, Mode::Any) => swap("e", "e\u{301}"),
        (19, Mode::Any) => format!("{s}\u{200b}"),
        (20, _) => swap(" ", ""),
        _ => near_miss(s, n),
    }
}

fn near_miss(s: &str, n: u8) -> String {
    match n % 6 {
        0 => format!("{s}_"),
        1 => s.to_lowercase(),
        2 => {
            let mut c = s.chars();
            c.next_back();
            c.as_str().to_owned()
        }
        3 => format!("{s}1"),
        4 => s.to_uppercase(),
        _ => s.chars().skip(1).collect(),
    }
}

struct Locs {
    n: u64,
}

impl Locs {
    /// never the same location twice
    fn next(&mut self, sel: u8, art: usize) -> Loc {
        self.n += 1;
        let n = self.n;
        // line numbers and columns of any size
        let n = match sel / 8 {
            31 => n + 65_530,
            30 => n + (1 << 32),
            29 => n + 250,
            28 => n + 99_999,
            _ => n,
        };
        let col = match sel / 8 {
            27 => 256,
            26 => 65_536,
            25 => 1000,
            k => u64::from(k),
        };
        let file = format!("in/f{art}.x");
        match sel % 8 {
            0..=3 => Loc::line(&file, n),
            4 | 5 => Loc { file, location_in_file: Some(LocIn::LineAndColumn(n, col)) },
            6 => Loc { file: format!("in/g{n}.x"), location_in_file: None },
            _ => Loc { file, location_in_file: Some(LocIn::String(format!("pos {n}"))) },
        }
    }
}

impl GraphCase {
    pub fn world(&self, mode: Mode) -> World {
        let n = self.arts.len();
        let mut used: HashSet<String> = HashSet::new();
        let mut locs = Locs { n: 0 };
        let mut w = World::default();
        let mut names: Vec<&str> = NAMES.to_vec();
        if self.arts.first().is_some_and(|a| a.name >= 236) {
            // names that are easily taken for several, or for a part of others
            names = vec!["a, b", "a", "b", "b, a", "a, b, a", "a => [b]", "x", "[a]"];
        }
        // two relations that are shown alike
        let alike = n >= 4 && self.arts[0].name >= 246;
        if alike {
            names = vec!["x", "a, b", "a", "b"];
            w.rels.push((0, vec![1]));
            w.rels.push((0, vec![2, 3]));
        }
        for (ai, a) in self.arts.iter().enumerate() {
            let name = if names.is_empty() { format!("art {ai}") } else if alike { names.remove(0).to_owned() } else { names.remove(a.name as usize % names.len()).to_owned() };
            let mut reqs = vec![];
            for r in &a.reqs {
                let mut id = id_text(r.id, mode);
                let key = |s: &str| if mode == Mode::Sane { s.to_lowercase() } else { s.to_owned() };
                while !used.insert(key(&id)) {
                    id = match r.id % 3 {
                        0 => format!("{id}0"),
                        1 => format!("{id}_x"),
                        _ => format!("{id}{}", used.len()),
                    };
                }
                let mut attributes = BTreeMap::new();
                if r.extra & 1 == 1 {
                    attributes.insert("Description".to_owned(), "What it is\nand is not\n".to_owned());
                }
                if r.extra & 6 == 2 {
                    attributes.insert("Comment".to_owned(), "no comment".to_owned());
                }
                if r.extra & 224 == 224 {
                    let k = ATTR_WORDS[usize::from(r.extra & 31) % ATTR_WORDS.len()];
                    attributes.insert(k.to_owned(), "some more".to_owned());
                }
                reqs.push(Req {
                    id,
                    title: title_text(r.title, mode),
                    location: locs.next(r.loc, ai),
                    covers: vec![],
                    depends: vec![],
                    tags: if r.extra & 24 == 8 { vec!["tag".into()] } else { vec![] },
                    attributes,
                });
            }
            w.arts.push(Art { id: name, ignore: a.ignore, rwt: a.rwt, reqs });
        }
        for (u, mask) in &self.rels {
            let uu = *u;
            // mostly not the last artefact, which has nothing below it
            let u = if *u < 240 && n > 1 { *u as usize % (n - 1) } else { *u as usize % n };
            if (225..240).contains(&uu) {
                // any artefacts: cycles and relations of an artefact with itself
                let lowers: Vec<usize> = (0..n).filter(|l| (mask >> (l % 7)) & 1 == 1).collect();
                w.rels.push((uu as usize % n, lowers));
                continue;
            }
            let mut lowers: Vec<usize> =
                (u + 1..n).filter(|l| (mask >> ((l - u - 1) % 7)) & 1 == 1).collect();
            if lowers.is_empty() && mask % 8 != 0 && u + 1 < n {
                lowers.push(u + 1 + *mask as usize % (n - u - 1));
            }
            if mask & 0x80 != 0 {
                lowers.reverse();
            }
            w.rels.push((u, lowers));
        }
        let all: Vec<(String, Option<String>)> =
            w.arts.iter().flat_map(|a| a.reqs.iter().map(|r| (r.id.clone(), r.title.clone()))).collect();
        let by_art: Vec<Vec<(String, Option<String>)>> = w
            .arts
            .iter()
            .map(|a| a.reqs.iter().map(|r| (r.id.clone(), r.title.clone())).collect())
            .collect();
        let rels = w.rels.clone();
        for (ai, a) in self.arts.iter().enumerate() {
            let uppers: Vec<usize> = rels.iter().filter(|r| r.1.contains(&ai)).map(|r| r.0).collect();
            let lowers: Vec<usize> =
                rels.iter().filter(|r| r.0 == ai).flat_map(|r| r.1.iter().copied()).collect();
            for (ri, r) in a.reqs.iter().enumerate() {
                let own = all.iter().position(|x| x.0 == w.arts[ai].reqs[ri].id).unwrap();
                for (refs, near, down) in [(&r.covers, &uppers, false), (&r.depends, &lowers, true)] {
                    let pool: Vec<&(String, Option<String>)> =
                        near.iter().flat_map(|x| by_art[*x].iter()).collect();
                    let mut out: Vec<Ref> = vec![];
                    for g in refs {
                        let pick = |p: &[&(String, Option<String>)]| {
                            if p.is_empty() { all[own].clone() } else { (*p[g.a as usize % p.len()]).clone() }
                        };
                        let every: Vec<&(String, Option<String>)> = all.iter().collect();
                        let (id, title) = match g.kind % 16 {
                            0..=8 => pick(&pool),
                            9 | 10 => pick(&every),
                            11 => all[own].clone(),
                            12 => {
                                let (i, t) = pick(if g.kind & 16 == 0 { &pool } else { &every });
                                (near_miss(&i, (g.a % 251) as u8), t)
                            }
                            13 => (format!("UNKNOWN_{}", g.a % 3), None),
                            _ => match out.last() {
                                Some(l) => (l.id.clone(), l.title.clone()),
                                None => pick(&pool),
                            },
                        };
                        let title = match g.title % 12 {
                            0..=3 => None,
                            4..=8 => title,
                            9 => title.map(|t| near_title(&t, g.title / 12 + (g.loc % 4) * 7, mode)),
                            10 => title_text(g.title / 12, mode),
                            _ if mode == Mode::Any && g.loc % 2 == 0 => Some(format!("{} ", title.unwrap_or_default())),
                            _ => Some(title_word((g.title / 12).wrapping_add(g.loc), mode)),
                        };
                        let title = if mode == Mode::Sane {
                            title.map(|t| t.trim().to_owned()).filter(|t| !t.is_empty())
                        } else {
                            title
                        };
                        let id = if mode == Mode::Sane && id.len() < 2 { "UNKNOWN_X".into() } else { id };
                        // the references of a list in one line have the same place
                        let location = match out.last() {
                            Some(l) if g.loc % 16 == 15 => l.location.clone(),
                            _ => locs.next(g.loc, ai),
                        };
                        out.push(Ref { id, title, location });
                    }
                    if down {
                        w.arts[ai].reqs[ri].depends = out;
                    } else {
                        w.arts[ai].reqs[ri].covers = out;
                    }
                }
            }
        }
        w
    }
}

/// config with one JSON artefact per artefact of the world
pub fn world_cfg(w: &World) -> Cfg {
    let mut c = Cfg::default();
    for (i, a) in w.arts.iter().enumerate() {
        c.arts.push(CfgArt { ignore: a.ignore, rwt: a.rwt, ..CfgArt::new(&a.id, "Json", &format!("a{i}.json")) });
    }
    for r in 0..w.rels.len() {
        c.rels.push(w.rel_ids(r));
    }
    c
}

pub fn write_arts(w: &World, d: &Dir) -> Res<()> {
    for (i, a) in w.arts.iter().enumerate() {
        d.write(&format!("a{i}.json"), serde_json::to_vec(&a.reqs).unwrap())?;
    }
    Ok(())
}

/// Json trace of the world; status and report
pub fn trace_world(w: &World, env: &Env, d: &Dir) -> Res<(i32, TraceOut)> {
    write_arts(w, d)?;
    let mut c = world_cfg(w);
    c.job("t", "Trace", "Json", "out/t.json");
    c.write(d)?;
    let r = env.run(&d.0, &["-c", "config.toml", "t"])?;
    let s = r.ran()?;
    Ok((s, d.report_json("out/t.json")?))
}
