//! C10: mono requirement files
use crate::cfg::*;
use crate::core::*;
use crate::ensure;
use crate::model::*;
use crate::p_md::{compare_reqs, nreq};
use crate::strat::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Mono {
    pub stem: String,
    pub ext: String,
    pub lines: Vec<MLine>,
    pub crlf: bool,
    pub final_newline: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum MLine {
    Blank,
    /// so many empty lines
    Blanks(u32),
    /// no word characters
    Punct(String),
    Text { text: String, arrows: Vec<Arrow>, title: Option<String> },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Arrow {
    pub space: u8,
    pub id: String,
    /// what follows the id; starts with something that ends an id
    pub sep: String,
    /// the arrow is not followed by an id
    pub broken: Option<String>,
}

fn word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

pub fn mono_title(line: &str) -> Option<String> {
    let a = line.find(word)?;
    let (b, c) = line.char_indices().rev().find(|x| word(x.1))?;
    Some(line[a..b + c.len_utf8()].to_owned())
}

impl Mono {
    pub fn file(&self) -> String {
        format!("{}{}", self.stem, self.ext)
    }
    pub fn text(&self) -> String {
        self.render().0
    }
    pub fn render(&self) -> (String, Req) {
        let file = self.file();
        let mut req = Req {
            id: self.stem.clone(),
            title: None,
            location: Loc { file: file.clone(), location_in_file: None },
            covers: vec![],
            depends: vec![],
            tags: vec![],
            attributes: BTreeMap::new(),
        };
        let mut out = vec![];
        for l in &self.lines {
            let loc = Loc::line(&file, out.len() as u64 + 1);
            let s = match l {
                MLine::Blank => String::new(),
                MLine::Blanks(n) => {
                    out.extend((0..*n).map(|_| String::new()));
                    continue;
                }
                MLine::Punct(p) => p.clone(),
                MLine::Text { text, arrows, title } => {
                    let mut s = text.clone();
                    for a in arrows {
                        // any text may stand before the arrow
                        s.push_str(match a.space / 4 % 16 {
                            0..=8 if s.ends_with(' ') || s.is_empty() => "=>",
                            0..=8 => " =>",
                            9 => "==>",
                            10 => "<=>",
                            11 => "\t=>",
                            12 => "(=>",
                            13 => ">=>",
                            14 => "-=>",
                            _ => "=>",
                        });
                        if let Some(b) = &a.broken {
                            s.push_str(b);
                            continue;
                        }
                        s.push_str(["", " ", "  ", "\t"][a.space as usize % 4]);
                        s.push_str(&a.id);
                        s.push_str(&a.sep);
                        req.depends.push(Ref { id: a.id.clone(), title: None, location: loc.clone() });
                    }
                    if let Some(t) = title {
                        // the last arrow has a title, or only the colon
                        if let Some(a) = arrows.last().filter(|a| a.broken.is_none()) {
                            let keep = s.len() - a.sep.len();
                            s.truncate(keep);
                            s.push_str([": ", ":", ":  ", ":\t", ": "][a.space as usize / 64]);
                            if a.id.len() % 8 != 7 {
                                s.push_str(t);
                                s.push_str(["", "", "", " ", "\t "][t.len() % 5]);
                                req.depends.last_mut().unwrap().title = Some(t.clone());
                            }
                        }
                    }
                    s
                }
            };
            if req.title.is_none() {
                req.title = mono_title(&s);
            }
            out.push(s);
        }
        let nl = if self.crlf { "\r\n" } else { "\n" };
        let mut text = out.join(nl);
        if self.final_newline {
            text.push_str(nl);
        }
        (text, req)
    }
}

fn no_arrow(s: &str) -> bool {
    !s.contains('=') && !s.contains('>')
}

fn arrow() -> BoxedStrategy<Arrow> {
    (
        any::<u8>(),
        ref_ident(),
        prop_oneof![
            2 => Just(String::new()),
            3 => "[ ,;).][a-z ,.;)-]{0,12}",
            1 => "[ ,;).-] ?[a-z]{1,5}: [a-z]{1,5}",
        ],
        prop_oneof![9 => Just(None), 1 => "( {0,2}[0-9-]{1,3} ?| X |)".prop_map(Some)],
    )
        .prop_map(|(space, id, sep, broken)| Arrow { space, id, sep, broken })
        .boxed()
}

pub fn mono() -> BoxedStrategy<Mono> {
    mono_sized(true)
}

pub fn small_mono() -> BoxedStrategy<Mono> {
    mono_sized(false)
}

fn mono_sized(big: bool) -> BoxedStrategy<Mono> {
    let text = prop_oneof![
        3 => "(\\*   |- |    )?[a-zA-Z]{1,8}( [a-zA-Z0-9,.]{1,8}){0,6}",
        1 => "(#|//|/\\*|--|\") ?[a-zA-ZäöÜ中Ω]{1,8}( [a-z:_-]{1,8}){0,3} ?(\\*/|#|!|\\.)?",
        1 => "[ -<?-~]{0,20}",
        1 => "(```[a-z]{0,4}|~~~|#if 0|#endif|<!-- |//|> |\\| |    |\t|`|\\[x\\]|See |Covers: |Depends: |# |/// )",

        1 => prop_oneof![20 => "[a-z]{1,3}".boxed(), 1 => "[a-z ä中]{300,6000}x".boxed()],
    ]
    .prop_filter("arrow", |s| no_arrow(s));
    let title = title().prop_filter("arrow", |s| no_arrow(s));
    let line = prop_oneof![
        200 => Just(MLine::Blank),
        1 => Just(MLine::Blanks(if big { 65_534 } else { 300 })),
        180 => "[-#*/. <>!\t\"(){}]{1,10}".prop_map(MLine::Punct),
        40 => "(```|~~~|````|<!--|-->|---|===|/\\*|\\*/|\"\"\"|//|> |    |\t)".prop_map(MLine::Punct),
        600 => (text, prop_oneof![100 => Just(vec![]), 200 => prop::collection::vec(arrow(), 1..4), 1 => prop::collection::vec(arrow(), if big { 20..120 } else { 4..8 })],
              prop_oneof![2 => Just(None), 1 => title.prop_map(Some)])
            .prop_map(|(text, arrows, title)| MLine::Text { text, arrows, title }),
    ]
    .boxed();
    (
        prop_oneof![3 => "[A-Z]{2,6}", 1 => "[A-Za-z_]{1,5}\\.[a-z0-9]{1,3}", 1 => "[äÖ中a-z -]{1,5}[a-z]", 1 => "\\.[a-z]{1,4}", 1 => "[A-Z]{2}_[0-9]{2}",
            1 => prop::sample::select(ID_WORDS).prop_filter("file", |s| !s.contains([':', ' ', '('])).prop_map(str::to_owned)],
        prop_oneof![Just(".md".to_owned()), Just(".txt".to_owned()), Just(".h".to_owned())],
        prop_oneof![20 => prop::collection::vec(line.clone(), 0..8), 1 => prop::collection::vec(line, if big { 100..300 } else { 8..16 })],
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(stem, ext, lines, crlf, final_newline)| Mono { stem, ext, lines, crlf, final_newline })
        .boxed()
}

pub struct MonoProp;

impl Prop for MonoProp {
    type Case = Mono;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "the file has an arrow reference and a line with word characters"
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 10_000,
            Tier::Thorough => 150_000,
        }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Mono> {
        mono()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "word characters are letters, digits and the underscore",
            "a title that follows a reference contains no further arrow",
        ]
    }
    fn check(&self, case: &Mono, env: &Env) -> Res<Info> {
        let (text, want) = case.render();
        let d = env.dir()?;
        let file = case.file();
        d.write(&file, &text)?;
        let (status, out) = parse_project(env, &d, vec![CfgArt::new("mono", "MonoRequirement", &file)])?;
        ensure!(out.errors.is_empty() && status == 0, "status {status}, errors {:?}", errs(&out.errors));
        let got: Vec<_> = out.requirements.iter().map(nreq).collect();
        compare_reqs(&[nreq(&want)], &got)?;
        let mut i = Info::new();
        let per_line = |n: usize| case.lines.iter().any(|l| matches!(l, MLine::Text { arrows, .. } if arrows.len() >= n));
        i.label("several arrows in a line", per_line(2));
        i.label("reference with title", want.depends.iter().any(|r| r.title.is_some()));
        i.label("title not in the first line", case.lines.first().is_some_and(|l| !matches!(l, MLine::Text { .. })) && want.title.is_some());
        i.label("no title", want.title.is_none());
        i.label("CRLF", case.crlf);
        i.label("more than 99 lines", case.lines.len() > 99);
        i.nontrivial = !want.depends.is_empty() && want.title.is_some();
        Ok(i)
    }
}
