//! Small strategies for text
use proptest::prelude::*;

/// requirement id: `\p{XID_Start}\p{XID_Continue}+`
pub fn ident() -> BoxedStrategy<String> {
    prop_oneof![
        60 => "[A-Z]{1,4}_[0-9]{1,3}",
        20 => "[A-Za-z][A-Za-z0-9_]{1,9}",
        10 => "[ÄÖßéþΩжд中日ñ][A-Za-z0-9_äÖ·ж中ñ]{1,6}",
        10 => "REQ_[A-Z]{1,3}(_[A-Z]{1,3}){0,2}(_v[0-9])?",
        1 => long_ident(),
        4 => proptest::sample::select(ID_WORDS)
            .prop_filter("shape", |s| s.len() > 1 && s.starts_with(|c: char| c.is_ascii_alphabetic()) && !s.contains([':', '-', ' ']))
            .prop_map(str::to_owned),
    ]
    .boxed()
}

/// id of a reference: now and then the same again, or one that differs little
pub fn ref_ident() -> BoxedStrategy<String> {
    prop_oneof![
        5 => ident(),
        2 => "REQ_[1-3]",
        1 => "(REQ_1[01]?|Req_1|REQ_1_|REQ__1|REQ1|XREQ_1)",
    ]
    .boxed()
}

fn long_ident() -> BoxedStrategy<String> {
    prop_oneof!["[A-Z][A-Z0-9_]{30,80}", "[A-Z][a-zä_]{200,300}"].boxed()
}

fn long_title() -> BoxedStrategy<String> {
    prop_oneof![
        "[A-Z][a-z]{1,7}( [A-Za-zäöü中🍔]{1,12}){20,60}",
        "[A-Z][a-zä]{250,300}",
        "x( [a-z]{1,12}){800,900}",
    ]
    .boxed()
}

fn trim(s: String) -> String {
    s.trim().to_owned()
}

/// one line, not empty, no white space at the ends
pub fn title() -> BoxedStrategy<String> {
    prop_oneof![
        100 => "[A-Z][a-z]{1,7}( [A-Za-z]{1,8}){0,4}",
        40 => "[ -~]{1,30}".prop_map(trim),
        20 => "[ -~äöüß中文Ωж🍔–’\u{a0}\t]{1,24}".prop_map(trim),
        20 => "[a-z]{1,3}:? [A-Z]{2,3}_[0-9]: [a-z*#]{1,5}",
        12 => proptest::sample::select(TITLE_WORDS).prop_map(str::to_owned),
        1 => long_title(),
    ]
    .prop_filter("empty", |s| !s.is_empty())
    .boxed()
}

/// one line of running text: not blank, does not look like a heading
pub fn text_line() -> BoxedStrategy<String> {
    prop_oneof![
        5 => "[a-z]{1,8}( [A-Za-z0-9,.]{1,8}){0,8}",
        1 => prop_oneof![15 => "[a-z]{1,8}( [A-Za-z0-9,.]{1,8}){0,8}".boxed(), 1 => "[a-z]{1,8}( [A-Za-z0-9,.äö中]{1,8}){100,1200}".boxed()],
        1 => "( {1,8}|\t)[a-z]{1,8}( [a-z]{1,8}){0,3}",
        1 => " {1,4}#{1,3} [A-Z]{2,4}_[0-9]: [a-z]{2,6}",
        1 => "[*+-]   [A-Z]{2,4}_[0-9](: [a-z]{2,6})?",
        1 => "[0-9]\\. [A-Z]{2,4}_[0-9]",
        1 => "(=====|-----|\\*\\*\\*|```|\\||>|\\+)",
        2 => "[!-~äöü中Ω🍔]([ -~äöü中Ω🍔]{0,40})",
        1 => "[a-z]{2,6}: [a-z]{2,6}",
        1 => "(requirement_covered!\\([A-Z]{3}\\)|=> [A-Z]{2,4}_[0-9])",
        1 => "[a-z]{1,2}",
    ]
    .prop_map(|s| s.trim_end().to_owned())
    .prop_filter("heading or blank", |s| !s.starts_with('#') && !s.trim().is_empty())
    .boxed()
}

/// `Word:` at the beginning of the line starts an attribute
pub fn looks_like_attribute(s: &str) -> bool {
    let mut c = s.chars();
    if !c.next().is_some_and(|c| c.is_ascii_uppercase()) {
        return false;
    }
    let rest: &str = c.as_str();
    let word = rest.len() - rest.trim_start_matches(|c: char| c.is_ascii_lowercase()).len();
    word > 0 && rest[word..].starts_with(':')
}

/// a line of running text that cannot start an attribute
pub fn plain_line() -> BoxedStrategy<String> {
    text_line().prop_filter("attribute", |s| !looks_like_attribute(s)).boxed()
}

/// any line of running text, now and then one that looks like an attribute
pub fn any_line() -> BoxedStrategy<String> {
    prop_oneof![
        8 => text_line(),
        1 => "(Covers|Depends|Comment): [A-Z]{2,3}_[0-9]",
    ]
    .boxed()
}

/// titles with a meaning elsewhere
pub const TITLE_WORDS: &[&str] = &[
    "TODO", "TBD", "FIXME", "...", "…", "?", "-", "--", "n/a", "N/A", "None", "none", "null", "nil", "untitled", "*",
    "any", "ditto", "see above", "true", "false", "0", "1", "unknown", "Unknown", "draft", "DRAFT", "WIP", "tbd", "todo",
    "same", "Title", "title", "obsolete", "deprecated", "removed", "ignore", "IGNORE", "REQ_1", "Some", "XXX", "undefined",
];

/// ids with a meaning elsewhere
pub const ID_WORDS: &[&str] = &[
    "test", "tests", "main", "new", "m::tests::f", "tests::f", "test_f", "TODO", "tmp", "_x", "README", "index", "mod",
    "REQ", "draft", "DRAFT_1", "REQ_0", "deprecated", "example", "(A as Default)::default", "None", "null", "true",
    "unknown", "UNKNOWN", "test::f", "m::test::g", "TEST_1", "OLD_1", "TMP_1", "ANY", "ALL", "LICENSE", "CHANGELOG",
    "(A as Drop)::drop", "(A as Debug)::fmt", "(A as Test)::test", "bench", "m::benches::b", "example::main", "lib",
    "Cargo", "build", "crate", "Self::new", "super::x", "0", "1", "-1", "false", "INFO_1", "NOTE_1", "WIP_1", "todo",
    "FIXME_1", "TBD", "SYS_1", "DERIVED_1", "IGNORE_1", "NOT_1", "NO_1", "OPTIONAL_1", "m::mock::f", "a::generated::f",
];

/// attributes, nearly those with a meaning
pub const ATTR_WORDS: &[&str] = &[
    "Describes", "Descriptions", "Descr", "Desc", "Describe", "Covered", "Cover", "Coverage", "Depend", "Dependson", "Dependency",
    "Note", "Notes", "Comments", "Origin", "Tag", "Tagged", "Title", "Id", "Location", "Status", "Todo", "Internal", "Private",
    "Hidden", "Rationale", "Author", "Covering", "Dependants", "Discussion", "Test", "Derived",
];

/// arbitrary unicode, also control characters
pub fn wild() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[ -~]{0,20}",
        2 => proptest::collection::vec(any::<char>(), 0..12).prop_map(|v| v.into_iter().collect::<String>()),
        1 => "[\"\\\\/{}\\[\\]:,\n\r\t\u{0}\u{7f}\u{85}\u{2028}\u{feff}\u{fffd}äя🍔\u{301}]{0,10}",
        1 => Just(String::new()),
        1 => prop_oneof![5 => "[a-z]{200,400}".boxed(), 1 => "[a-zä\n]{3000,9000}".boxed(), 1 => Just("0123456789abcdef".repeat(4200)).boxed()],
    ]
    .boxed()
}
