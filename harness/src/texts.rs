//! Corpora of expressions and their observable behaviour.
use std::sync::LazyLock;

use pica_record::prelude::*;
use pica_record::primitives::{OccurrenceRef, RecordRef, SubfieldRef, TagRef};

use crate::cx::{hash, seqs};
use crate::expr::*;
use crate::rec::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Tag,
    Occ,
    Sub,
    Field,
    Record,
    Path,
    Query,
    Format,
}
pub const KINDS: [Kind; 8] =
    [Kind::Tag, Kind::Occ, Kind::Sub, Kind::Field, Kind::Record, Kind::Path, Kind::Query, Kind::Format];

/// Records on which behaviour is observed.
pub static RECS: LazyLock<Vec<Vec<u8>>> = LazyLock::new(|| {
    let fl = [
        f("003@", &["0123"]),
        f("012A", &[]),
        f("012A", &["ax"]),
        f("012A/00", &["ay", "bx"]),
        f("012A/01", &["ax", "ax", "by"]),
        f("012A/02", &["ax@y ", "bAB", "c"]),
        f("012A/011", &["bx"]),
        f("013B", &["a x@@ Y", "ba", "a\u{e4}\u{df}"]),
        f("212A/01", &["bx", "X1"]),
    ];
    let mut v: Vec<MR> = fl.iter().map(|x| vec![x.clone()]).collect();
    v.push(fl.to_vec());
    v.push(fl.iter().rev().cloned().collect());
    v.push(vec![fl[2].clone(), fl[4].clone(), fl[2].clone()]);
    v.push(vec![fl[5].clone(), fl[7].clone()]);
    v.push(vec![fl[3].clone(), fl[6].clone(), fl[8].clone()]);
    v.iter().map(ser).collect()
});
static PARSED: LazyLock<Vec<RecordRef<'static>>> = LazyLock::new(|| {
    let r: &'static Vec<Vec<u8>> = &RECS;
    r.iter().map(|b| RecordRef::from_bytes(b).unwrap()).collect()
});
const TAGS: [&str; 7] = ["003@", "012A", "012B", "013B", "112A", "212A", "299Z"];
const OCCS: [&str; 8] = ["00", "01", "02", "03", "10", "99", "011", "999"];

pub enum Parsed {
    Tag(TagMatcher),
    Occ(OccurrenceMatcher),
    Sub(SubfieldMatcher),
    Field(FieldMatcher),
    Record(RecordMatcher),
    Path(Path),
    Query(Query),
    Format(Format),
}

macro_rules! each {
    ($self:expr, $x:ident => $e:expr) => {
        match $self {
            Parsed::Tag($x) => $e,
            Parsed::Occ($x) => $e,
            Parsed::Sub($x) => $e,
            Parsed::Field($x) => $e,
            Parsed::Record($x) => $e,
            Parsed::Path($x) => $e,
            Parsed::Query($x) => $e,
            Parsed::Format($x) => $e,
        }
    };
}

impl Parsed {
    pub fn new(kind: Kind, t: &str) -> Option<Self> {
        Some(match kind {
            Kind::Tag => Parsed::Tag(TagMatcher::new(t).ok()?),
            Kind::Occ => Parsed::Occ(OccurrenceMatcher::new(t).ok()?),
            Kind::Sub => Parsed::Sub(SubfieldMatcher::new(t).ok()?),
            Kind::Field => Parsed::Field(FieldMatcher::new(t).ok()?),
            Kind::Record => Parsed::Record(RecordMatcher::new(t).ok()?),
            Kind::Path => Parsed::Path(Path::new(t).ok()?),
            Kind::Query => Parsed::Query(Query::new(t).ok()?),
            Kind::Format => Parsed::Format(Format::new(t).ok()?),
        })
    }
    /// The message of a rejected text.
    pub fn message(kind: Kind, t: &str) -> Option<String> {
        fn m<T, E: std::fmt::Display + std::fmt::Debug>(r: Result<T, E>) -> Option<String> {
            r.err().map(|e| format!("{e} {e:?}"))
        }
        match kind {
            Kind::Tag => m(TagMatcher::new(t)),
            Kind::Occ => m(OccurrenceMatcher::new(t)),
            Kind::Sub => m(SubfieldMatcher::new(t)),
            Kind::Field => m(FieldMatcher::new(t)),
            Kind::Record => m(RecordMatcher::new(t)),
            Kind::Path => m(Path::new(t)),
            Kind::Query => m(Query::new(t)),
            Kind::Format => m(Format::new(t)),
        }
    }
    pub fn text(&self) -> String {
        each!(self, x => x.to_string())
    }
    pub fn json(&self) -> Option<String> {
        Some(match self {
            Parsed::Tag(x) => serde_json::to_string(x).ok()?,
            // occurrence matchers are not serialisable
            Parsed::Occ(x) => serde_json::to_string(&x.to_string()).ok()?,
            Parsed::Sub(x) => serde_json::to_string(x).ok()?,
            Parsed::Field(x) => serde_json::to_string(x).ok()?,
            Parsed::Record(x) => serde_json::to_string(x).ok()?,
            Parsed::Path(x) => serde_json::to_string(x).ok()?,
            Parsed::Query(x) => serde_json::to_string(x).ok()?,
            Parsed::Format(x) => serde_json::to_string(x).ok()?,
        })
    }
    pub fn from_json(kind: Kind, t: &str) -> Option<Self> {
        Some(match kind {
            Kind::Tag => Parsed::Tag(serde_json::from_str(t).ok()?),
            Kind::Occ => Parsed::Occ(OccurrenceMatcher::new(&serde_json::from_str::<String>(t).ok()?).ok()?),
            Kind::Sub => Parsed::Sub(serde_json::from_str(t).ok()?),
            Kind::Field => Parsed::Field(serde_json::from_str(t).ok()?),
            Kind::Record => Parsed::Record(serde_json::from_str(t).ok()?),
            Kind::Path => Parsed::Path(serde_json::from_str(t).ok()?),
            Kind::Query => Parsed::Query(serde_json::from_str(t).ok()?),
            Kind::Format => Parsed::Format(serde_json::from_str(t).ok()?),
        })
    }
    pub fn same(&self, o: &Parsed) -> bool {
        match (self, o) {
            (Parsed::Tag(a), Parsed::Tag(b)) => a == b,
            (Parsed::Occ(a), Parsed::Occ(b)) => a == b,
            (Parsed::Sub(a), Parsed::Sub(b)) => a == b,
            (Parsed::Field(a), Parsed::Field(b)) => a == b,
            (Parsed::Record(a), Parsed::Record(b)) => a == b,
            (Parsed::Path(a), Parsed::Path(b)) => a == b,
            (Parsed::Query(a), Parsed::Query(b)) => a == b,
            (Parsed::Format(a), Parsed::Format(b)) => a == b,
            _ => false,
        }
    }
    /// Everything that can be observed on the fixed records.
    pub fn behave(&self) -> Vec<u64> {
        self.behave_on(&PARSED)
    }
    pub fn behave_on(&self, recs: &[RecordRef]) -> Vec<u64> {
        let mut out = vec![];
        for ci in [false, true] {
            let o = Opts { ci, th: 0.6 }.real();
            match self {
                Parsed::Tag(m) => {
                    for t in TAGS {
                        out.push(m.is_match(&TagRef::new(t).unwrap()) as u64);
                    }
                }
                Parsed::Occ(m) => {
                    out.push(m.is_match(None) as u64);
                    for t in OCCS {
                        out.push(m.is_match(Some(&OccurrenceRef::new(t).unwrap())) as u64);
                    }
                }
                Parsed::Sub(m) => {
                    for r in recs.iter() {
                        for f in r.fields() {
                            let s: &[SubfieldRef] = f.subfields();
                            out.push(m.is_match(s, &o) as u64);
                        }
                    }
                }
                Parsed::Field(m) => {
                    for r in recs.iter() {
                        out.push(m.is_match(r.fields(), &o) as u64);
                    }
                }
                Parsed::Record(m) => {
                    for r in recs.iter() {
                        out.push(m.is_match(r, &o) as u64);
                    }
                }
                Parsed::Path(p) => {
                    for r in recs.iter() {
                        out.push(hash(&r.path(p, &o).map(|v| v.to_vec()).collect::<Vec<_>>()));
                    }
                }
                Parsed::Query(q) => {
                    for r in recs.iter() {
                        for (s, m) in [(false, false), (true, true)] {
                            let o = QueryOptions::new().case_ignore(ci).squash(s).merge(m).strsim_threshold(0.6).separator("");
                            let rows: Vec<Vec<Vec<u8>>> = r
                                .query(q, &o)
                                .into_inner()
                                .into_iter()
                                .map(|row| row.into_iter().map(|c| c.to_vec()).collect())
                                .collect();
                            out.push(hash(&rows));
                        }
                    }
                }
                Parsed::Format(m) => {
                    for r in recs.iter() {
                        let o = FormatOptions::new().strip_overread_char(ci).case_ignore(ci).strsim_threshold(0.6);
                        out.push(hash(&r.format(m, &o).map(|v| v.to_vec()).collect::<Vec<_>>()));
                    }
                }
            }
        }
        out
    }
}

/// Accepted expressions of a kind.
pub fn corpus(kind: Kind, big: bool) -> Vec<String> {
    let cs = crits(&["a", "[ab]", "[a-cX]", "*"], &["x", "A", "\u{e4}", "it's \"\\"], &QS);
    let ct: Vec<String> = cs.iter().flat_map(|c| c.texts()).collect();
    let some: Vec<String> = ct.iter().step_by(if big { 7 } else { 23 }).cloned().collect();
    let tags = ["012A", "....", ".12A", "012[AB]", "[0-2]1[23].", "[012]01@", "01[2-3][A-B]"];
    let occs = ["", "/00", "/*", "/01", "/01-02", "/011", "/010-012"];
    let mut v: Vec<String> = vec![];
    let bools = |atoms: &dyn Fn(usize) -> String, len: usize, v: &mut Vec<String>| {
        for s in seqs(7, 1, len) {
            let t = tokens(&s);
            if parse_bool(&t, &|_| true).is_some() {
                v.push(tok_txt(&t, atoms, "^", ""));
                v.push(tok_txt(&t, atoms, "XOR", "  "));
            }
        }
    };
    let len = if big { 6 } else { 5 };
    match kind {
        Kind::Tag => {
            let p = [
                vec!["0", "2", ".", "[01]", "[0-2]"],
                vec!["1", ".", "[19]", "[0-9]"],
                vec!["2", ".", "[2-3]", "[0239]"],
                vec!["A", "@", ".", "[A-C]", "[@BA]", "[A@-C]"],
            ];
            for a in &p[0] {
                for b in &p[1] {
                    for c in &p[2] {
                        for d in &p[3] {
                            let t = format!("{a}{b}{c}{d}");
                            v.push(t);
                        }
                    }
                }
            }
        }
        Kind::Occ => {
            v.extend(["", "/*", "/00", "/01", "/99", "/000", "/001", "/123", "/01-02", "/01-99", "/001-999", "/010-011"].map(String::from))
        }
        Kind::Sub => {
            v.extend(ct);
            bools(&|k| ["a?", "X?", "b?", "[ac]?"][k % 4].into(), len + 1, &mut v);
            for a in &some {
                v.push(format!("({a})"));
                v.push(format!(" !({a} && b?) || {a}"));
            }
        }
        Kind::Field | Kind::Record => {
            for (i, c) in some.iter().enumerate() {
                for q in ["", "ANY ", "ALL "] {
                    let t = tags[i % tags.len()];
                    let o = occs[i / 7 % occs.len()];
                    v.push(format!("{q}{t}{o}.{c}"));
                    v.push(format!("{q}{t}{o}${c} "));
                    v.push(format!("{q}{t}{o} {{ {c} }}"));
                    v.push(format!(" {q}{t}{o}{{{c} || (a? && !b?)}}"));
                    v.push(format!("#{t}{o}{{{c}}} >= 1"));
                }
            }
            for t in tags {
                for o in occs {
                    v.push(format!("{t}{o}?"));
                    v.push(format!("#{t}{o} == 1"));
                    v.push(format!("# {t}{o} <2"));
                }
            }
            bools(&|k| ["012A?", "012A/*.a?", "ALL 01../*{b?}", "212A/01$X?"][k % 4].into(), len, &mut v);
        }
        Kind::Path => {
            for (i, t) in tags.iter().enumerate() {
                for o in occs {
                    for c in ["a", "*", "[ab]", "[a-cX]"] {
                        v.push(format!("{t}{o}.{c}"));
                        v.push(format!(" {t}{o}.{c} "));
                        v.push(format!("{t}{o}{{{c}}}"));
                        v.push(format!("{t}{o} {{ ( {c} , b ) }}"));
                        v.push(format!("{t}{o}{{{c}, [bc], a}}"));
                        v.push(format!("{t}{o}{{({c},b) | {} }}", some[i % some.len()]));
                    }
                    for c in ["a", "*", "ab", "aXb"] {
                        v.push(format!("{t}{o}${c}"));
                        v.push(format!("{t}{o} $ {c}"));
                        v.push(format!("{t}{o}{{${c}, $b}}"));
                    }
                }
            }
            for c in &some {
                v.push(format!("012A/*{{a | {c}}}"));
                v.push(format!("012A/*{{(a, b) |({c}) && b?}}"));
            }
        }
        Kind::Format => {
            let frag = ["a", "b..", "'p' a '; '", "?u a", "?ol [ab]..2", "*.."];
            for s in seqs(6, 1, if big { 5 } else { 4 }) {
                // sequence of fragment choice and operator
                if s.len() % 2 == 0 {
                    continue;
                }
                let mut t = String::new();
                for (i, k) in s.iter().enumerate() {
                    if i % 2 == 0 {
                        t.push_str(frag[*k]);
                    } else {
                        t.push_str([" <$> ", " <*> ", "<$>", "<*>", " <$> ", " <*>\n"][*k]);
                    }
                }
                v.push(format!("012A/*{{{t}}}"));
                if s.len() > 1 {
                    v.push(format!("01..{{(?t {t}) <*> a}}"));
                    v.push(format!("012A/00{{ a <$> ( {t} ) | a? }} "));
                }
            }
            for c in &some {
                v.push(format!("....{{a|{c}}}"));
            }
        }
        Kind::Query => {
            let fr = [
                "003@.0",
                "'lit, x'",
                "\"it's\"",
                "012A/*.a",
                "012A/*{a, b}",
                "012A/*{(a, [bc]) | a == 'x'}",
                "013B{a <$> b}",
                "012A/*{'(' a.. ')' | b?}",
                "012A$a",
            ];
            for s in seqs(fr.len(), 1, if big { 4 } else { 3 }) {
                for sep in [",", " , "] {
                    v.push(s.iter().map(|k| fr[*k]).collect::<Vec<_>>().join(sep));
                    if s.len() == 1 {
                        break;
                    }
                }
            }
        }
    }
    v
}

/// Rejected expressions of a kind.
pub fn rejected(kind: Kind) -> Vec<&'static str> {
    match kind {
        Kind::Tag => vec!["", "012", "3.2A", "012a", "0123", "[]12A", "012AA", "0[9-1]2A", "012[A", " 012A "],
        Kind::Occ => vec!["/", "/1", "01", "/02-01", "/01-001", "/1234", "/**", "/01-", "//01", "/0a"],
        Kind::Sub => vec!["", "a", "a ==", "a == x", "(a?", "a?)", "!a == 'x'", "a? &&", "a =~ '('", "a in []", "#a =^ 1"],
        Kind::Field | Kind::Record => {
            vec!["", "012A", "012A.a", "(012A?", "012A?)", "012A{a?", "012A? && ", "|| 012A?", "#012A", "!012A.a == 'x'", "012A{(a?}"]
        }
        Kind::Path => vec!["", "012A", "012A.", "012A{}", "012A{a", "012A{a,}", "012A{(a}", "012A{a|}", "012A{a| a}", "012A.ab", "3.2A.a"],
        Kind::Query => vec!["", ",", "012A.a,", ",012A.a", "012A.a 012A.b", "'x", "012A{a <$>}", "012A", "012A.a;"],
        Kind::Format => vec!["", "012A", "012A{}", "012A{a <$>}", "012A{<*> a}", "012A{(a}", "012A{((a))}", "012A{a <> b}", "012A{?x a}", "012A{a | b}", "012A{a b}"],
    }
}
