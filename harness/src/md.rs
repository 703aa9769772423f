//! Markdown documents: generator, renderer, expected requirements
use crate::model::*;
use crate::strat::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Doc {
    /// lines before the first heading
    pub pre: Vec<String>,
    pub items: Vec<Item>,
    pub final_newline: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Item {
    Req(ReqItem),
    Plain(Plain),
}

/// ordinary heading and what follows
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Plain {
    pub level: u8,
    pub text: String,
    pub filler: Vec<String>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ReqItem {
    pub level: u8,
    pub id: String,
    pub title: String,
    /// white space: after the hashes, after the colon, at the end
    pub sp: (u8, u8, u8),
    /// empty lines after the heading
    pub gap: u8,
    pub desc: Vec<Para>,
    pub attrs: Vec<Attr>,
    /// empty lines at the end
    pub end: u8,
    pub bad: Option<Bad>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Para {
    pub lines: Vec<String>,
    /// empty lines after it (at least one)
    pub gap: u16,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Attr {
    Text { name: String, inline: String, lines: Vec<String>, gap: u8 },
    Refs { covers: bool, short: Vec<String>, comma: bool, bullets: Vec<Bullet>, gap: u8 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Bullet {
    pub id: String,
    pub title: Option<String>,
    pub mark: u8,
    pub indent: u8,
    pub space: u8,
}

/// one malformed line (C08)
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Bad {
    /// line in the n-th reference list, at a position
    InList { list: u8, pos: u8, line: u8 },
    /// line where an attribute is expected
    AfterList { list: u8, line: String },
    /// n-th attribute again, after all others
    Again { attr: u8 },
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Heading,
    AttrLine,
    BulletLine,
    Text,
    Blank,
    Bad,
}

#[derive(Debug, Clone)]
pub struct Rendered {
    pub lines: Vec<(Kind, String)>,
    pub reqs: Vec<Req>,
    /// (id, has a malformed line)
    pub bad: HashSet<String>,
    pub errors: Vec<E>,
    pub final_newline: bool,
}

impl Rendered {
    pub fn text(&self) -> String {
        let mut s = self.lines.iter().map(|l| l.1.as_str()).collect::<Vec<_>>().join("\n");
        if self.final_newline && !self.lines.is_empty() {
            s.push('\n');
        }
        s
    }
}

/// lines without trailing white space, without blank lines at the ends and repeated blank lines
pub fn norm_text(s: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for l in s.lines() {
        let l = l.trim_end();
        if l.is_empty() && out.last().is_none_or(|p| p.is_empty()) {
            continue;
        }
        out.push(l.to_owned());
    }
    while out.last().is_some_and(|l| l.is_empty()) {
        out.pop();
    }
    out
}

pub fn uniq(id: &str, seen: &mut HashSet<String>) -> String {
    let mut id = id.to_owned();
    while !seen.insert(id.clone()) {
        id = format!("{id}_{}", seen.len());
    }
    id
}

pub fn bad_line(n: u8, id: &str) -> String {
    match n % 16 {
        0 => "a".into(),
        1 => "*".into(),
        2 => "foo bar".into(),
        3 => format!("Depends: {id}"),
        4 => format!("*{id}"),
        5 => "* REQ-1".into(),
        6 => format!("* {id} Title words"),
        7 => format!("1. {id}"),
        8 => format!("    {id}"),
        9 => format!("see {id}"),
        10 => "* 1_A".into(),
        11 => format!("{id}: Title"),
        12 => format!("* `{id}`"),
        13 => format!("Comment: {id}"),
        14 => format!("* [{id}](#x)"),
        _ => format!("and * {id}"),
    }
}

const INDENTS: [&str; 9] = ["", " ", "  ", "   ", "\t", "    ", " \t", "            ", "\t\t\t\t\t\t\t\t\t\t"];
const SPACES: [&str; 5] = [" ", "  ", "\t", "   ", ""];

impl Doc {
    pub fn render(&self, file: &str) -> Rendered {
        self.render_with(file, &mut HashSet::new())
    }
    /// ids already in use are changed
    pub fn render_with(&self, file: &str, ids: &mut HashSet<String>) -> Rendered {
        let mut r = Rendered { lines: vec![], reqs: vec![], bad: HashSet::new(), errors: vec![], final_newline: self.final_newline };
        let mut level = 0usize;
        let mut inside = false;
        for l in &self.pre {
            let k = if l.trim().is_empty() { Kind::Blank } else { Kind::Text };
            r.lines.push((k, l.clone()));
        }
        for it in &self.items {
            match it {
                Item::Plain(p) => {
                    // a heading ends a requirement when its level is the same or less
                    let mut lv = if p.level >= 250 { p.level as usize - 240 } else { p.level as usize % 6 + 1 };
                    if inside && lv > level {
                        lv = level;
                    }
                    inside = false;
                    r.lines.push((Kind::Heading, format!("{} {}", "#".repeat(lv), p.text)));
                    for l in &p.filler {
                        let k = if l.trim().is_empty() { Kind::Blank } else { Kind::Text };
                        r.lines.push((k, l.clone()));
                    }
                }
                Item::Req(q) => {
                    level = q.level as usize + 1;
                    inside = true;
                    q.render(level, file, ids, &mut r);
                }
            }
        }
        r
    }
}

impl ReqItem {
    fn render(&self, level: usize, file: &str, ids: &mut HashSet<String>, r: &mut Rendered) {
        let here = |r: &Rendered| Loc::line(file, r.lines.len() as u64 + 1);
        let blank = |r: &mut Rendered, n: usize| {
            for _ in 0..n {
                r.lines.push((Kind::Blank, String::new()));
            }
        };
        let id = uniq(&self.id, ids);
        let mut req = Req {
            id: id.clone(),
            title: Some(self.title.clone()),
            location: here(r),
            covers: vec![],
            depends: vec![],
            tags: vec![],
            attributes: BTreeMap::new(),
        };
        let end = if self.sp.2 % 4 == 0 { " " } else { "" };
        r.lines.push((
            Kind::Heading,
            format!(
                "{}{}{id}:{}{}{end}",
                "#".repeat(level),
                SPACES[self.sp.0 as usize % 5],
                SPACES[self.sp.1 as usize % 5],
                self.title
            ),
        ));
        blank(r, self.gap as usize);
        let mut desc = String::new();
        for p in &self.desc {
            for l in &p.lines {
                r.lines.push((Kind::Text, l.clone()));
                desc.push_str(l);
                desc.push('\n');
            }
            desc.push('\n');
            blank(r, p.gap as usize + 1);
        }
        if !self.desc.is_empty() {
            req.attributes.insert("Description".into(), desc);
        }
        // attribute names once each
        let mut seen = HashSet::new();
        if !self.desc.is_empty() {
            seen.insert("Description");
        }
        let mut attrs: Vec<&Attr> = vec![];
        for a in &self.attrs {
            let name = match a {
                Attr::Text { name, .. } => name.as_str(),
                Attr::Refs { covers: true, .. } => "Covers",
                Attr::Refs { .. } => "Depends",
            };
            if seen.insert(name) {
                attrs.push(a);
            }
        }
        let lists: Vec<usize> = (0..attrs.len())
            .filter(|i| matches!(attrs[*i], Attr::Refs { short, bullets, .. } if !short.is_empty() || !bullets.is_empty()))
            .collect();
        let mut again = None;
        let mut again_desc = false;
        let (mut in_list, mut after_list) = (None, None);
        match &self.bad {
            Some(Bad::InList { list, pos, line }) if !lists.is_empty() => {
                in_list = Some((lists[*list as usize % lists.len()], *pos, *line));
            }
            Some(Bad::AfterList { list, line }) if !lists.is_empty() => {
                after_list = Some((lists[*list as usize % lists.len()], line));
            }
            Some(Bad::Again { attr }) => {
                let ok: Vec<usize> =
                    (0..attrs.len()).filter(|i| matches!(attrs[*i], Attr::Text { .. }) || lists.contains(i)).collect();
                let n = ok.len() + usize::from(!self.desc.is_empty());
                if n > 0 {
                    again = ok.get(*attr as usize % n).copied();
                    again_desc = again.is_none();
                }
            }
            _ => {}
        }
        let mut is_bad = false;
        let order: Vec<usize> = (0..attrs.len()).chain(again).collect();
        for (n, ai) in order.iter().enumerate() {
            if n == attrs.len() {
                let name = match attrs[*ai] {
                    Attr::Text { name, .. } => name.clone(),
                    Attr::Refs { covers: true, .. } => "Covers".into(),
                    Attr::Refs { .. } => "Depends".into(),
                };
                r.errors.push(E::DupAttr { loc: here(r), attr: name, req: id.clone() });
                is_bad = true;
            }
            match attrs[*ai] {
                Attr::Text { name, inline, lines, gap } => {
                    let inline = if inline.is_empty() && lines.is_empty() { "x" } else { inline };
                    r.lines.push((Kind::AttrLine, if inline.is_empty() { format!("{name}:") } else { format!("{name}:{}{inline}", SPACES[inline.len() % 5]) }));
                    let mut v = inline.to_owned();
                    for l in lines {
                        v.push('\n');
                        v.push_str(l);
                        r.lines.push((if l.trim().is_empty() { Kind::Blank } else { Kind::Text }, l.clone()));
                    }
                    req.attributes.insert(name.clone(), v);
                    // the next attribute may follow directly
                    let direct = *gap == 2 && n + 1 < order.len() && r.lines.last().is_some_and(|l| l.0 != Kind::Blank);
                    blank(r, if direct { 0 } else { *gap as usize + 1 });
                }
                Attr::Refs { covers, short, comma, bullets, gap } => {
                    let mut refs = vec![];
                    let loc = here(r);
                    let name = if *covers { "Covers" } else { "Depends" };
                    let mut l = format!("{name}:");
                    if !short.is_empty() {
                        l.push_str(SPACES[short[0].len() % 5]);
                        let n = short.iter().map(String::len).sum::<usize>();
                        l.push_str(&short.join(if *comma { [",", " ,"][n % 2] } else { [", ", ", ", " , ", ",  ", ",\t"][n % 5] }));
                        if *comma {
                            l.push(',');
                        }
                    }
                    r.lines.push((Kind::AttrLine, l));
                    for s in short {
                        refs.push(Ref { id: s.clone(), title: None, location: loc.clone() });
                    }
                    for bi in 0..=bullets.len() {
                        if let Some((l, pos, line)) = in_list {
                            if l == *ai && pos as usize % (bullets.len() + 1) == bi {
                                r.errors.push(E::Format(here(r)));
                                is_bad = true;
                                r.lines.push((Kind::Bad, bad_line(line, &self.id)));
                            }
                        }
                        if let Some(b) = bullets.get(bi) {
                            refs.push(Ref { id: b.id.clone(), title: b.title.clone(), location: here(r) });
                            let mark = ["*", "*", "-", "+"][b.mark as usize % 4];
                            let title = b.title.as_ref().map(|t| format!(":{}{t}", SPACES[b.space as usize / 4 % 5])).unwrap_or_default();
                            let sp = ["   ", " ", "  ", "\t"][b.space as usize % 4];
                            r.lines.push((
                                Kind::BulletLine,
                                format!("{}{mark}{sp}{}{title}", INDENTS[b.indent as usize % 9], b.id),
                            ));
                        }
                    }
                    if *covers {
                        req.covers = refs;
                    } else {
                        req.depends = refs;
                    }
                    blank(r, *gap as usize + 1);
                    if let Some((l, line)) = after_list {
                        if l == *ai {
                            r.errors.push(E::Format(here(r)));
                            is_bad = true;
                            r.lines.push((Kind::Bad, line.clone()));
                            blank(r, *gap as usize + 1);
                        }
                    }
                }
            }
        }
        if again_desc {
            r.errors.push(E::DupAttr { loc: here(r), attr: "Description".into(), req: id.clone() });
            is_bad = true;
            r.lines.push((Kind::AttrLine, "Description: again".into()));
            blank(r, 1);
        }
        // the last attribute or paragraph may be followed by the next heading directly
        if self.end == 0 {
            while r.lines.last().is_some_and(|l| l.0 == Kind::Blank) {
                r.lines.pop();
            }
        } else {
            blank(r, self.end as usize - 1);
        }
        if is_bad {
            r.bad.insert(id);
        }
        r.reqs.push(req);
    }
}

// ---------------------------------------------------------------- strategies

fn para(big: bool) -> BoxedStrategy<Para> {
    (
        plain_line(),
        prop_oneof![100 => prop::collection::vec(any_line(), 0..4), 1 => prop::collection::vec(any_line(), if big { 30..300 } else { 4..8 })],
        prop_oneof![1600 => Just(0u16), 400 => 1u16..4, 100 => Just(300u16), 1 => Just(if big { 65_534u16 } else { 300 })],
    )
        .prop_map(|(first, mut lines, gap)| {
            lines.insert(0, first);
            Para { lines, gap }
        })
        .boxed()
}

fn bullet() -> BoxedStrategy<Bullet> {
    (ref_ident(), prop_oneof![3 => Just(None), 2 => title().prop_map(Some), 1 => Just(Some("Same title".to_owned()))], any::<u8>(), any::<u8>(), any::<u8>())
        .prop_map(|(id, title, mark, indent, space)| Bullet { id, title, mark, indent: if indent < 200 { 0 } else { indent }, space })
        .boxed()
}

fn attr(big: bool) -> BoxedStrategy<Attr> {
    let name = prop_oneof![
        3 => Just("Comment".to_owned()),
        1 => Just("Discussion".to_owned()),
        1 => Just("Description".to_owned()),
        1 => Just("History".to_owned()),
        1 => proptest::sample::select(ATTR_WORDS).prop_map(str::to_owned),
        1 => "[A-Z][a-z]{8,40}".prop_filter("special", |s| s != "Description"),
        1 => "[A-Z][a-z]{1,8}".prop_filter("special", |s| !["Covers", "Depends", "Description", "Tags"].contains(&s.as_str())),
    ];
    let line = prop_oneof![5 => plain_line(), 1 => Just(String::new())].boxed();
    let lines = prop_oneof![100 => prop::collection::vec(line.clone(), 0..4), 1 => prop::collection::vec(line, if big { 20..200 } else { 4..8 })];
    let inline = prop_oneof![1 => Just(String::new()), 1 => title()];
    let text = (name, inline, lines, 0u8..3).prop_map(|(name, inline, mut lines, gap)| {
        while lines.last().is_some_and(|l| l.is_empty()) {
            lines.pop();
        }
        Attr::Text { name, inline, lines, gap }
    });
    let refs = (
        any::<bool>(),
        prop_oneof![50 => Just(vec![]), 50 => prop::collection::vec(ref_ident(), 1..4), 1 => prop::collection::vec(ref_ident(), if big { 10..200 } else { 4..10 })],
        any::<bool>(),
        prop_oneof![
            40 => Just(vec![]),
            160 => prop::collection::vec(bullet(), 0..4),
            40 => prop::collection::vec(bullet(), if big { 5..30 } else { 4..8 }),
            1 => prop::collection::vec(bullet(), if big { 100..300 } else { 30..40 }),
        ],
        0u8..3,
    )
        .prop_map(|(covers, short, comma, bullets, gap)| Attr::Refs { covers, short, comma, bullets, gap });
    prop_oneof![1 => text, 2 => refs].boxed()
}

fn bad() -> BoxedStrategy<Bad> {
    prop_oneof![
        3 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(list, pos, line)| Bad::InList { list, pos, line }),
        1 => (any::<u8>(), plain_line()).prop_map(|(list, line)| Bad::AfterList { list, line }),
        1 => any::<u8>().prop_map(|attr| Bad::Again { attr }),
    ]
    .boxed()
}

pub fn req_item(with_bad: bool, big: bool) -> BoxedStrategy<ReqItem> {
    (
        prop_oneof![40 => 0u8..6, 1 => 6u8..20],
        ident(),
        title(),
        (any::<u8>(), any::<u8>(), any::<u8>()),
        prop_oneof![3 => 0u8..3, 1 => 0u8..40],
        prop_oneof![150 => prop::collection::vec(para(big), 0..4), 1 => prop::collection::vec(para(big), if big { 20..60 } else { 4..6 })],
        prop_oneof![150 => prop::collection::vec(attr(big), 0..4), 1 => prop::collection::vec(attr(big), if big { 10..30 } else { 4..6 })],
        0u8..3,
        if with_bad { prop_oneof![1 => Just(None), 2 => bad().prop_map(Some)].boxed() } else { Just(None).boxed() },
    )
        .prop_map(|(level, id, title, sp, gap, desc, attrs, end, bad)| ReqItem { level, id, title, sp, gap, desc, attrs, end, bad })
        .boxed()
}

fn plain() -> BoxedStrategy<Plain> {
    let text = prop_oneof![
        3 => "[A-Z][a-z]{1,8}( [a-z]{1,6}){0,3}",
        1 => "REQ-[0-9]: [a-z]{1,6}",
        1 => "[A-Z]: [a-z]{1,6}",
        1 => "[0-9]{1,2}[A-Z]: [a-z]{1,6}",
        1 => "[A-Z]{2}_[0-9] [a-z]{1,6}: [a-z]{1,6}",
        1 => "[A-Z]{2}_[0-9]:?",
    ];
    (any::<u8>(), text, prop::collection::vec(prop_oneof![3 => any_line(), 1 => Just(String::new())], 0..5))
        .prop_map(|(level, text, filler)| Plain { level, text, filler })
        .boxed()
}

fn doc_sized(with_bad: bool, big: bool, n: std::ops::Range<usize>) -> BoxedStrategy<Doc> {
    (
        prop::collection::vec(prop_oneof![3 => any_line(), 1 => Just(String::new())], 0..4),
        prop::collection::vec(
            prop_oneof![4 => req_item(with_bad, big).prop_map(Item::Req), 1 => plain().prop_map(Item::Plain)],
            n,
        ),
        any::<bool>(),
    )
        .prop_map(|(pre, items, final_newline)| Doc { pre, items, final_newline })
        .boxed()
}

pub fn small_doc(with_bad: bool) -> BoxedStrategy<Doc> {
    doc_sized(with_bad, false, 0..4)
}

pub fn doc(with_bad: bool, big: bool) -> BoxedStrategy<Doc> {
    if big {
        prop_oneof![8 => doc_sized(with_bad, true, 1..6), 2 => doc_sized(with_bad, true, 6..30), 1 => doc_sized(with_bad, true, 30..300)].boxed()
    } else {
        prop_oneof![600 => doc_sized(with_bad, true, 1..6), 10 => doc_sized(with_bad, true, 30..60), 1 => doc_sized(with_bad, true, 120..300)].boxed()
    }
}
