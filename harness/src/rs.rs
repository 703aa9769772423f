//! Rust source files with coverage marks: generator, renderer, expected requirements
use crate::model::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RFile {
    pub items: Vec<RItem>,
    /// layout: bits decide between blanks, newlines and comments
    pub layout: u64,
    pub crlf: bool,
    pub shebang: bool,
    /// makes the file invalid
    pub broken: Option<u8>,
    /// much white space at the n-th gap
    #[serde(default)]
    pub stretch: Option<(u8, u8)>,
    /// modules around everything
    #[serde(default)]
    pub nest: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum RItem {
    Mod { name: u8, items: Vec<RItem> },
    Impl { ty: u8, trait_: Option<u8>, split: Option<u8>, items: Vec<RMember> },
    Trait { name: u8, items: Vec<RMember> },
    Fn { name: u8, body: Vec<RStmt> },
    Const { mark: RMark },
    Noise(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum RMember {
    Fn { name: u8, body: Vec<RStmt> },
    Const { mark: RMark },
    Noise(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum RStmt {
    Mark { form: u8, mark: RMark },
    Block { form: u8, body: Vec<RStmt> },
    Item(Box<RItem>),
    Noise(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RMark {
    pub id: String,
    pub kind: RKind,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum RKind {
    Ident,
    Str,
    Title(String, u8),
    Bad(u8),
}

pub struct W {
    pub out: String,
    line: u64,
    col: u64,
    layout: u64,
    file: String,
    pub reqs: Vec<Req>,
    /// (line, first column, last column) of marks that must be reported
    pub bad: Vec<(u64, u64, u64)>,
    scope: Vec<(String, Loc)>,
    stretch: Option<(u8, u8)>,
}

impl W {
    fn put(&mut self, s: &str) {
        for c in s.chars() {
            if c == '\n' {
                self.line += 1;
                self.col = 0;
            } else {
                self.col += 1;
            }
        }
        self.out.push_str(s);
    }
    fn bits(&mut self, n: u32) -> u64 {
        let r = self.layout & ((1 << n) - 1);
        self.layout = self.layout.rotate_right(n) ^ 0x9e37_79b9;
        r
    }
    /// white space between statements and items
    fn gap(&mut self) {
        if let Some((n, kind)) = &mut self.stretch {
            if *n > 0 {
                *n -= 1;
            } else {
                let s = match *kind % 5 {
                    0 => " ".repeat(300),
                    1 => " ".repeat(65_530),
                    2 => "\n".repeat(300),
                    3 => "\n".repeat(65_530),
                    _ => format!("/* {} */ ", "ä".repeat(250)),
                };
                self.stretch = None;
                self.put(&s);
            }
        }
        match self.bits(3) {
            0 => self.put(" "),
            1 => self.put("\n\n    "),
            2 => self.put(" /* ä中 requirement_covered!(IN_COMMENT) */ "),
            3 => self.put(" // requirement_covered!(IN_COMMENT);\n"),
            4 => self.put("\n\t\t"),
            _ => self.put("\n        "),
        }
    }
    fn loc(&self) -> Loc {
        Loc { file: self.file.clone(), location_in_file: Some(LocIn::LineAndColumn(self.line, self.col)) }
    }
    fn enter(&mut self, sym: &str, loc: Loc) {
        self.scope.push((sym.to_owned(), loc));
    }
    fn leave(&mut self) {
        self.scope.pop();
    }

    fn mark(&mut self, m: &RMark) {
        let loc = self.loc();
        let (line, col) = (self.line, self.col);
        let mut reference = Ref { id: m.id.clone(), title: None, location: loc };
        let mut ok = true;
        let bad = matches!(m.kind, RKind::Bad(_));
        let sp = match self.bits(4) {
            0..=7 => "",
            13 if !bad => "\n            ",
            14 if !bad => " /* x */ ",
            15 if !bad => " // requirement_covered!(IN_COMMENT)\n",
            _ => " ",
        };
        let text = match &m.kind {
            RKind::Ident => format!("{}{sp}", m.id),
            RKind::Str => format!("{sp}\"{}\"", m.id),
            RKind::Title(t, raw) => {
                reference.title = Some(t.clone());
                let lit = match raw % 5 {
                    4 if t.contains(" a") && !t.contains('"') && !t.contains('\\') => format!("\"{}\"", t.replacen(" a", " \\\n      a", 1)),
                    0 if !t.contains('"') && !t.contains('\r') => format!("r\"{t}\""),
                    1 if !t.contains("\"#") && !t.contains('\r') => format!("r#\"{t}\"#"),
                    2 => {
                        let mut s = String::from("\"");
                        for c in t.chars() {
                            match c {
                                '"' => s.push_str("\\\""),
                                '\\' => s.push_str("\\\\"),
                                c => s.push(c),
                            }
                        }
                        s + "\""
                    }
                    _ => format!("{t:?}"),
                };
                // over several lines
                match raw {
                    224.. => format!("\n    {},\n    {lit}{sp}", m.id),
                    // the macro allows this too
                    200..=223 => format!("{}:{sp}{lit}", m.id),
                    _ => format!("{},{sp}{lit}", m.id),
                }
            }
            RKind::Bad(n) => {
                ok = false;
                match n % 17 {
                    7 => format!("{} + \"x\", {}", m.id, m.id),
                    8 => format!("{}, c\"x\"", m.id),
                    9 => format!("\"{}\", \"x\"", m.id),
                    10 => format!("{}, b\"x\"", m.id),
                    11 => format!("{}, 'c'", m.id),
                    12 => format!("{},", m.id),
                    13 => format!("{}::{}", m.id, m.id),
                    14 => format!("{}.{}", m.id, m.id),
                    15 => "'c'".into(),
                    16 => format!("({})", m.id),
                    0 => String::new(),
                    1 => "17".into(),
                    2 => "17, \"x\"".into(),
                    3 => format!("{}, 17", m.id),
                    4 => format!("{} {}", m.id, m.id),
                    5 => format!("{}, \"a\", \"b\"", m.id),
                    _ => format!("{}, [x]", m.id),
                }
            }
        };
        let gap = ["", " "][self.bits(4) as usize / 15];
        let (open, close) = match self.bits(4) {
            0 => ('{', '}'),
            1 => ('[', ']'),
            _ => ('(', ')'),
        };
        self.put(&format!("requirement_covered!{gap}{open}{text}{close}"));
        let ok = ok && !self.scope.is_empty();
        if !ok {
            let end = if self.line == line { self.col } else { col + 20 };
            self.bad.push((line, col, end));
            return;
        }
        let id: String = self.scope.iter().map(|s| s.0.as_str()).collect::<Vec<_>>().join("::");
        match self.reqs.iter_mut().find(|r| r.id == id) {
            Some(r) => r.covers.push(reference),
            None => self.reqs.push(Req {
                id,
                title: None,
                location: self.scope.last().unwrap().1.clone(),
                covers: vec![reference],
                depends: vec![],
                tags: vec![],
                attributes: BTreeMap::new(),
            }),
        }
    }

    fn items(&mut self, items: &[RItem], sib: &mut HashSet<String>) {
        for i in items {
            self.gap();
            self.item(i, sib);
        }
    }

    fn item(&mut self, i: &RItem, sib: &mut HashSet<String>) {
        match i {
            RItem::Mod { name, items } => {
                let n = uniq(["m", "parser", "tests", "a", "r#try", "test", "_m"][*name as usize % 7], sib);
                self.put(
                    ["mod ", "pub mod ", "#[cfg(test)] mod ", "#[cfg(feature = \"a\")] pub(crate) mod ", "/// doc\nmod ", "#[path = \"x.rs\"] mod "]
                        [*name as usize / 7 % 6],
                );
                let l = self.loc();
                self.enter(&n, l);
                self.put(&n);
                self.put(" {");
                self.items(items, &mut HashSet::new());
                self.gap();
                self.put("}");
                self.leave();
            }
            RItem::Fn { name, body } => self.func(*name, body, sib, true, false),
            RItem::Impl { ty, trait_, split, items } => {
                let (generics, ty) = [
                    ("", "Foo"),
                    ("<T>", "Foo<T>"),
                    ("<'a>", "&'a str"),
                    ("", "[u8; 4]"),
                    ("", "crate::m::Foo"),
                    ("", "(A, B)"),
                    ("<T: Clone>", "Vec<Option<T>>"),
                    ("", "Bar"),
                ][*ty as usize % 8];
                let tr = trait_.map(|t| ["Trait", "From<u8>", "a::B", "Visit<'ast>", "!Send"][t as usize % 5]);
                let mut n = 0;
                // a type or trait of another name when the symbol is already used
                let (ty, tr, sym) = loop {
                    let suffix = if n == 0 { String::new() } else { n.to_string() };
                    let t = if n == 0 { ty.to_owned() } else { format!("Foo{suffix}") };
                    let sym = match tr {
                        Some(tr) => format!("({t} as {tr})"),
                        None => t.clone(),
                    };
                    if sib.insert(strip(&sym)) {
                        break (t, tr, sym);
                    }
                    n += 1;
                };
                let direct = items.iter().any(|m| matches!(m, RMember::Const { .. }));
                let cut = match split {
                    Some(s) if !direct && !items.is_empty() => *s as usize % (items.len() + 1),
                    _ => items.len(),
                };
                let mut members = HashSet::new();
                for part in [&items[..cut], &items[cut..]] {
                    if part.is_empty() && cut == items.len() && !items.is_empty() {
                        continue;
                    }
                    self.put(&format!("impl{generics} "));
                    if let Some(tr) = tr {
                        self.put(tr);
                        self.put(" for ");
                    }
                    let l = self.loc();
                    self.enter(&sym, l);
                    self.put(&ty);
                    self.put(["", "", "", " where Self: Sized"][ty.len() % 4]);
                    self.put(" {");
                    self.members(part, &mut members, tr.is_some());
                    self.gap();
                    self.put("}");
                    self.leave();
                    self.gap();
                    if items.is_empty() {
                        break;
                    }
                }
            }
            RItem::Trait { name, items } => {
                let n = uniq(["Trait", "T", "Parse"][*name as usize % 3], sib);
                self.put("trait ");
                let l = self.loc();
                self.enter(&n, l);
                self.put(&n);
                self.put(["", "<X>", ": Clone"][*name as usize / 3 % 3]);
                self.put(" {");
                self.members(items, &mut HashSet::new(), true);
                self.gap();
                self.put("}");
                self.leave();
            }
            RItem::Const { mark } => {
                let n = uniq("C", sib);
                let (a, b) = match mark.id.bytes().map(usize::from).sum::<usize>() % 9 {
                    // like an item
                    6 | 7 => ("", ";"),
                    0 => ("const C: () = ", ";"),
                    1 => ("static C: () = ", ";"),
                    2 => ("pub const C: () = ", ";"),
                    3 => ("enum C { A = ", ", B }"),
                    4 => ("struct C { a: [u8; ", "] }"),
                    5 => ("static mut C: [u8; 2] = [1, ", "];"),
                    8 => ("const _: () = { ", "; };"),
                    _ => ("pub(crate) const C: fn() = || { ", " };"),
                };
                self.put(&a.replacen('C', &n, 1));
                self.mark(mark);
                // no semicolon after a macro with braces that is an item
                self.put(if a.is_empty() && self.out.ends_with('}') { "" } else { b });
            }
            RItem::Noise(n) => {
                let t = uniq("N", sib);
                let s = match n % 8 {
                    0 => format!("struct {t} {{ a: u8 }}"),
                    1 => "use std::fmt;".to_owned(),
                    2 => format!("/// requirement_covered!(IN_DOC)\nenum {t} {{ A, B }}"),
                    3 => format!("const {t}: &str = \"requirement_covered!(IN_STRING);\";"),
                    4 => format!("type {t} = Vec<u8>;"),
                    5 => format!("macro_rules! mac{t} {{ ($x:ident) => {{ requirement_covered!($x) }}; }}"),
                    6 => format!("extern \"C\" {{ fn ext_{t}(); }}"),
                    _ => format!("#[derive(Debug)] struct {t};"),
                };
                self.put(&s);
            }
        }
    }

    fn members(&mut self, items: &[RMember], sib: &mut HashSet<String>, in_trait: bool) {
        for m in items {
            self.gap();
            match m {
                RMember::Fn { name, body } => self.func(*name, body, sib, !in_trait, true),
                RMember::Const { mark } => {
                    if mark.id.bytes().map(usize::from).sum::<usize>() % 3 == 0 {
                        // like an item
                        self.mark(mark);
                        if !self.out.ends_with('}') {
                            self.put(";");
                        }
                        continue;
                    }
                    let n = uniq("C", sib);
                    self.put(&format!("const {n}: () = "));
                    self.mark(mark);
                    self.put(";");
                }
                RMember::Noise(n) => {
                    let t = uniq("N", sib);
                    let s = match n % 2 {
                        0 => format!("const {t}: u8 = 1;"),
                        _ => format!("fn noise_{t}(&self) {{ foo(1); }}"),
                    };
                    self.put(&s);
                }
            }
        }
    }

    fn func(&mut self, name: u8, body: &[RStmt], sib: &mut HashSet<String>, vis: bool, method: bool) {
        let k = self.bits(6) as usize;
        let n = uniq(
            match k % 8 {
                0 => ["r#type", "_f", "test_f", "T", "r#match", "mod_", "r#fn", "with_a_long_name"][k / 8],
                1 => ["tests", "test", "default", "drop", "fmt", "bench", "example", "todo"][k / 8],
                _ => ["foo", "f", "new", "parse", "main", "grüße"][name as usize % 6],
            },
            sib,
        );
        let attr = match self.bits(4) {
            0 => "#[test] ",
            1 => "#[cfg(feature = \"x\")] ",
            2 => "/// requirement_covered!(IN_DOC)\n    ",
            3 => "#[doc = \"requirement_covered!(IN_DOC)\"] ",
            4 => "#[cfg(test)]\n#[allow(dead_code)]\n",
            5 => "#[deprecated] #[ignore] #[should_panic] ",
            6 => "#[tokio::main]\n",
            _ => "",
        };
        self.put(attr);
        let q = ["", "", "async ", "unsafe ", "const ", "extern \"C\" "][if method { name as usize / 6 % 4 } else { name as usize / 6 % 6 }];
        let v = if vis { ["", "pub ", "#[inline] pub(crate) "][name as usize / 24 % 3] } else { "" };
        self.put(&format!("{v}{q}fn "));
        let l = self.loc();
        self.enter(&n, l);
        self.put(&n);
        self.put(if method { "(&self, x: u8) " } else { "<T>(x: T) -> u8 where T: Clone " });
        self.block(body);
        self.leave();
    }

    fn block(&mut self, body: &[RStmt]) {
        self.put("{");
        let mut sib = HashSet::new();
        for s in body {
            self.gap();
            self.stmt(s, &mut sib);
        }
        self.gap();
        self.put("}");
    }

    fn stmt(&mut self, s: &RStmt, sib: &mut HashSet<String>) {
        match s {
            RStmt::Mark { form, mark } => {
                let (a, b) = match form % 28 {
                    24 => ("let Some(_q) = a[0].b + ", ".c else { return };"),
                    25 => ("const { ", " };"),
                    26 => ("let _c = 1 + const { ", " };"),
                    27 => ("let Some(_q) = q else { ", " };"),
                    14 => ("while ", " {}"),
                    15 => ("a.b(", ")?.c();"),
                    16 => ("let _w = &mut *", ";"),
                    17 => ("if x { 1 } else if ", " { 2 } else { 3 };"),
                    18 => ("let _v = move |a: u8| { ", " };"),
                    19 => ("match x { y if ", " => {} _ => {} }"),
                    20 => ("break 'a ", ";"),
                    21 => ("x[", "] = 1;"),
                    22 => ("for _ in ", " {}"),
                    23 => ("'a: loop { ", "; }"),
                    0..=4 => ("", ";"),
                    5 => ("let _x = ", ";"),
                    6 => ("match x { 1 => ", ", _ => () }"),
                    7 => ("(|| ", ")();"),
                    8 => ("return ", ";"),
                    9 => ("foo(1, ", ");"),
                    10 => ("if y { ", " }"),
                    11 => ("#[allow(unused)] let _y = (", ", 2);"),
                    12 => ("let _z = Foo { a: ", " };"),
                    _ => ("x = [", "];"),
                };
                self.put(a);
                self.mark(mark);
                self.put(b);
            }
            RStmt::Block { form, body } => {
                let (a, b) = [
                    ("", ""),
                    ("if a == b ", ""),
                    ("loop ", ""),
                    ("for i in 0..3 ", ""),
                    ("while let Some(x) = y ", ""),
                    ("unsafe ", ""),
                    ("let f = |z| ", ";"),
                    ("let g = async move ", ";"),
                    ("if a ", " else { b(); }"),
                    ("match x { Some(1) if k => ", " _ => {} }"),
                    ("let Some(q) = foo(|| { 1 }) else ", ";"),
                    ("let (Ok(q), ..): T = if a { b } else { c }.d else ", ";"),
                    ("let k = const ", ";"),
                    ("#[x] const ", ""),
                ][*form as usize % 14];
                self.put(a);
                self.block(body);
                self.put(b);
            }
            RStmt::Item(i) => match **i {
                // a statement with a constant is an item too
                RItem::Noise(1) => {}
                _ => self.item(i, sib),
            },
            RStmt::Noise(n) => {
                let s = [
                    "let a = 1;",
                    "println!(\"{} requirement_covered!(IN_STRING)\", 1);",
                    "foo::requirement_covered!(OTHER_PATH);",
                    "requirement_covered(FUNCTION);",
                    "not_requirement_covered!(OTHER);",
                    "let s = r#\"requirement_covered!(RAW)\"#;",
                    "vec![1, 2, 3];",
                    "self.requirement_covered(1)?;",
                    "let s = c\"requirement_covered!(IN_C)\";",
                    "foo(cr#\"requirement_covered!(IN_C)\"#, 'c', b'c');",
                    "macro_rules! requirement_covered { ($id:ident) => {}; }",
                    "if let Some(x) = y { a() } else { b() }",
                ][*n as usize % 12];
                self.put(s);
            }
        }
    }
}

fn uniq(name: &str, sib: &mut HashSet<String>) -> String {
    let mut n = name.to_owned();
    let mut k = 0;
    while !sib.insert(n.clone()) {
        k += 1;
        n = format!("{name}{k}");
    }
    n
}

pub fn strip(s: &str) -> String {
    let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    // raw identifiers
    s.replace("r#", "")
}

impl RFile {
    pub fn render(&self, file: &str) -> W {
        let mut w = W {
            out: String::new(),
            line: 1,
            col: 0,
            layout: self.layout,
            file: file.to_owned(),
            reqs: vec![],
            bad: vec![],
            scope: vec![],
            stretch: self.stretch,
        };
        if self.shebang {
            w.put("#!/usr/bin/env run-cargo-script\n");
        }
        for i in 0..self.nest {
            w.put("mod ");
            let n = if i % 5 == 4 { format!("{}{i}", "long_name".repeat(8)) } else { format!("m{i}") };
            let l = w.loc();
            w.enter(&n, l);
            w.put(&n);
            w.put(" {");
        }
        w.items(&self.items, &mut HashSet::new());
        for _ in 0..self.nest {
            w.put("}");
            w.leave();
        }
        w.put("\n");
        match self.broken {
            None => {}
            Some(n) => w.put(match n % 6 {
                0 => "fn (",
                1 => "}",
                2 => "let x = 1;",
                3 => "fn f() { requirement_covered!(X_1; }",
                4 => "\"unterminated",
                _ => "impl {{ }",
            }),
        }
        for r in &mut w.reqs {
            r.id = strip(&r.id);
        }
        if self.crlf {
            w.out = w.out.replace('\n', "\r\n");
        }
        w
    }
}

// ---------------------------------------------------------------- strategies

fn rmark(bad: bool) -> BoxedStrategy<RMark> {
    let id = prop_oneof![4 => "[A-Z]{1,3}_[0-9]{1,2}", 3 => "REQ_[1-3]", 1 => "[A-Z][A-Z_]{2,8}", 1 => "[ÄжΩ中][a-z_]{1,4}"];
    let title = prop_oneof![
        3 => "[A-Z][a-z]{1,6}( [a-z]{1,6}){0,3}",
        1 => Just("Same title".to_owned()),
        1 => "[ -~]{0,16}",
        1 => "[\"\\\\a-c'ä中🍔 \t#]{1,8}",
    ];
    let good = prop_oneof![
        3 => Just(RKind::Ident),
        1 => Just(RKind::Str),
        3 => (title, any::<u8>()).prop_map(|(t, r)| RKind::Title(t, r)),
    ];
    let kind = if bad {
        prop_oneof![10 => good, 1 => any::<u8>().prop_map(RKind::Bad)].boxed()
    } else {
        good.boxed()
    };
    (id, kind).prop_map(|(id, kind)| RMark { id, kind }).boxed()
}

fn body(depth: u32, bad: bool) -> BoxedStrategy<Vec<RStmt>> {
    let mark = (any::<u8>(), rmark(bad)).prop_map(|(form, mark)| RStmt::Mark { form, mark });
    let leaf = prop_oneof![5 => mark, 2 => any::<u8>().prop_map(RStmt::Noise)].boxed();
    let stmt = if depth == 0 {
        leaf
    } else {
        prop_oneof![
            6 => leaf,
            2 => (any::<u8>(), body(depth - 1, bad)).prop_map(|(form, body)| RStmt::Block { form, body }),
            1 => item(depth - 1, bad).prop_map(|i| RStmt::Item(Box::new(i))),
        ]
        .boxed()
    };
    prop_oneof![150 => prop::collection::vec(stmt.clone(), 0..5), 1 => prop::collection::vec(stmt, if depth > 1 { 5..10 } else { 20..150 })].boxed()
}

fn members(depth: u32, bad: bool) -> BoxedStrategy<Vec<RMember>> {
    prop::collection::vec(
        prop_oneof![
            6 => (any::<u8>(), body(depth, bad)).prop_map(|(name, body)| RMember::Fn { name, body }),
            1 => rmark(bad).prop_map(|mark| RMember::Const { mark }),
            1 => any::<u8>().prop_map(RMember::Noise),
        ],
        0..4,
    )
    .boxed()
}

fn item(depth: u32, bad: bool) -> BoxedStrategy<RItem> {
    let func = (any::<u8>(), body(depth, bad)).prop_map(|(name, body)| RItem::Fn { name, body });
    let noise = any::<u8>().prop_map(RItem::Noise);
    let konst = rmark(bad).prop_map(|mark| RItem::Const { mark });
    if depth == 0 {
        return prop_oneof![4 => func, 2 => noise, 1 => konst].boxed();
    }
    let inner = prop::collection::vec(item(depth - 1, bad), 0..4);
    prop_oneof![
        4 => func,
        2 => noise,
        1 => konst,
        3 => (any::<u8>(), inner).prop_map(|(name, items)| RItem::Mod { name, items }),
        3 => (any::<u8>(), any::<Option<u8>>(), any::<Option<u8>>(), members(depth - 1, bad))
            .prop_map(|(ty, trait_, split, items)| RItem::Impl { ty, trait_, split, items }),
        1 => (any::<u8>(), members(depth - 1, bad)).prop_map(|(name, items)| RItem::Trait { name, items }),
    ]
    .boxed()
}

/// `bad`: with malformed marks and syntax errors
pub fn rfile(depth: u32, bad: bool) -> BoxedStrategy<RFile> {
    let items = if bad {
        prop::collection::vec(item(depth, true), 0..6).boxed()
    } else {
        // marks outside of items are errors
        prop::collection::vec(item(depth, false).prop_filter("mark outside", |i| !matches!(i, RItem::Const { .. })), 0..6).boxed()
    };
    (
        items,
        any::<u64>(),
        any::<bool>(),
        prop_oneof![9 => Just(false), 1 => Just(true)],
        if bad { prop_oneof![12 => Just(None), 1 => any::<u8>().prop_map(Some)].boxed() } else { Just(None).boxed() },
        prop_oneof![60 => Just(None), 1 => (0u8..6, any::<u8>()).prop_map(Some)],
        prop_oneof![40 => Just(0u8), 1 => 1u8..30],
    )
        .prop_map(|(items, layout, crlf, shebang, broken, stretch, nest)| RFile { items, layout, crlf, shebang, broken, stretch, nest })
        .boxed()
}
