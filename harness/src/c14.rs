//! C14: totality of the parsers and of the evaluation.
use std::os::unix::process::ExitStatusExt;

use pica_record::prelude::*;
use pica_record::primitives::*;
use pica_record::{ByteRecord, StringRecord};
use serde_json::json;

use crate::cx::{Cx, Radix, esc, guard, seqs};
use crate::expr::*;
use crate::rec::*;
use crate::texts::*;

/// Values that are awkward: invalid UTF-8, cut characters, combining
/// characters, characters that change their length with the case.
const AWKWARD: &[&[u8]] = &[
    b"", b"a", b" ", b"@", b"@@", b"x@y", b"\xff", b"\xc3", b"a\xcc", b"\xcc\x81a", b"\xe2\x82", b"\xed\xa0\x80",
    b"\xf0\x9f\x98", b"a\xffb", b"\xc3\xa4", b"\xc3\x9f", b"\xc4\xb0", b"\xef\xac\x81", b"\xf0\x9f\x98\x80b",
    b"a\xcc\x88o", b"\0", b"\r", b"\"'\\", b"@\xff", b"\xff@ ", b"\xc3\xa4@\xc3\xa4",
];

/// Everything the API offers for an accepted expression.
fn exercise(p: &Parsed, recs: &[RecordRef<'_>], o: &Opts) -> u64 {
    let mo = o.real();
    let mut n = 0u64;
    match p {
        Parsed::Tag(m) => {
            for r in recs {
                n += r.fields().iter().filter(|f| m.is_match(f.tag())).count() as u64;
            }
        }
        Parsed::Occ(m) => {
            for r in recs {
                n += r.fields().iter().filter(|f| m.is_match(f.occurrence())).count() as u64;
            }
        }
        Parsed::Sub(m) => {
            for r in recs {
                n += r.fields().iter().filter(|f| m.is_match(f.subfields(), &mo)).count() as u64;
            }
        }
        Parsed::Field(m) => {
            for r in recs {
                n += m.is_match(r.fields(), &mo) as u64;
            }
        }
        Parsed::Record(m) => {
            for r in recs {
                n += m.is_match(r, &mo) as u64;
            }
        }
        Parsed::Path(p) => {
            for r in recs {
                n += r.path(p, &mo).count() as u64;
            }
        }
        Parsed::Query(q) => {
            for r in recs {
                for (s, m) in [(false, false), (true, false), (false, true), (true, true)] {
                    let o = QueryOptions::new().case_ignore(o.ci).squash(s).merge(m).strsim_threshold(o.th).separator("|");
                    n += r.query(q, &o).into_inner().len() as u64;
                }
            }
        }
        Parsed::Format(m) => {
            for r in recs {
                for s in [false, true] {
                    let o = FormatOptions::new().strip_overread_char(s).case_ignore(o.ci).strsim_threshold(o.th);
                    n += r.format(m, &o).count() as u64;
                }
            }
        }
    }
    n
}

fn awkward_records() -> Vec<Vec<u8>> {
    let mut v = vec![];
    let one = |tag: &str, occ: Option<&str>, subs: Vec<(char, Vec<u8>)>| MF { tag: tag.into(), occ: occ.map(String::from), subs };
    for x in AWKWARD {
        v.push(ser(&vec![one("012A", None, vec![('a', x.to_vec())])]));
        v.push(ser(&vec![
            one("012A", Some("01"), vec![('a', x.to_vec()), ('b', b"x".to_vec()), ('a', x.to_vec())]),
            one("013B", None, vec![('a', x.to_vec())]),
            one("012A", None, vec![]),
        ]));
    }
    v.push(ser(&vec![one("012A", None, vec![])]));
    v.push(ser(&vec![one("012A", None, AWKWARD.iter().map(|x| ('a', x.to_vec())).collect())]));
    v.push(ser(&AWKWARD.iter().map(|x| one("012A", Some("02"), vec![('a', x.to_vec()), ('b', x.to_vec())])).collect()));
    v
}

/// Tokens of the expression languages, including characters outside of
/// them.
fn lexemes(kind: Kind) -> Vec<&'static str> {
    match kind {
        Kind::Tag => vec!["0", "2", "9", "A", "@", ".", "[", "]", "-", "a", " ", "\u{e4}", "\u{1F600}", "\0"],
        Kind::Occ => vec!["/", "0", "1", "9", "*", "-", ".", "a", " ", "\u{e4}", "\u{1F600}", "\0"],
        Kind::Sub => vec![
            "a", "[", "]", "*", "?", "==", "=~", "=*", "=?", " in ", "not ", "'", "\"", "\\", "x", "(", ")", "!", "&&", "||", "^",
            "#", ">=", "1", "99999999999999999999", ",", "\u{e4}", "\u{1F600}", " ", "ALL ", "'x'", "a-c",
        ],
        Kind::Field | Kind::Record => vec![
            "012A", "012A.a", "/01", "/*", "/01-", "{", "}", ".", "$", "a", "?", "==", "=~", "'x'", "'", "\\", "(", ")", "!", "&&", "||",
            " XOR ", "#", ">=", "99999999999999999999", "1", "\u{e4}", "\u{1F600}", " ", "ANY ", "[",
        ],
        Kind::Path => vec![
            "012A", "012A.", "/01", "/*", "{", "}", ".", "$", "a", "*", "[", "]", "-", "(", ")", ",", "|", "?", "'x'", "\u{e4}", "\u{1F600}", " ",
        ],
        Kind::Query => vec![
            "012A.a", "012A{", "/01", "}", "a", "b", "(", ")", ",", "|", "?", "'x'", "'", "\"", "\\", "<$>", "..", "1", "\u{e4}", "\u{1F600}", " ",
        ],
        Kind::Format => vec![
            "012A{", "/01", "}", "a", "[ab]", "b", "(", ")", "<$>", "<*>", "|", "?", "?u ", "?lort ", "'x'", "'", "\\", "..", "..0", "..1", "2..",
            "..99999999999999999999", "1", "\u{e4}", "\u{1F600}", " ",
        ],
    }
}

fn contexts(kind: Kind) -> Vec<(&'static str, &'static str)> {
    match kind {
        Kind::Tag => vec![("", ""), ("012", "")],
        Kind::Occ => vec![("", ""), ("/", ""), ("/01-", "")],
        Kind::Sub => vec![("", ""), ("a == ", "")],
        Kind::Field | Kind::Record => vec![("", ""), ("012A{", "}"), ("012A.a ", "")],
        Kind::Path => vec![("", ""), ("012A{", "}")],
        Kind::Query => vec![("", ""), ("012A{", "}"), ("'l', 012A.a", "")],
        Kind::Format => vec![("", ""), ("012A{", "}"), ("012A{a", "}")],
    }
}

// ------------------------------------------------- growing expressions

type Grow = (&'static str, Kind, fn(usize) -> String);

fn rep(a: &str, m: &str, b: &str, n: usize) -> String {
    format!("{}{m}{}", a.repeat(n), b.repeat(n))
}

const GROW: &[Grow] = &[
    ("(..)", Kind::Record, |n| rep("(", "012A?", ")", n)),
    ("(.. unclosed", Kind::Record, |n| format!("{}012A?", "(".repeat(n))),
    ("..)", Kind::Record, |n| format!("012A?{}", ")".repeat(n))),
    ("( ..", Kind::Record, |n| "(".repeat(n)),
    ("!..", Kind::Record, |n| format!("{}012A?", "!".repeat(n))),
    ("!.. only", Kind::Record, |n| "!".repeat(n)),
    ("!(..)", Kind::Record, |n| rep("!(", "012A?", ")", n)),
    ("! ! (", Kind::Record, |n| format!("{}(012A?)", "! ".repeat(n))),
    ("&&", Kind::Record, |n| format!("012A?{}", " && 012A.a?".repeat(n))),
    ("||", Kind::Record, |n| format!("012A?{}", " || 099Z.a?".repeat(n))),
    ("^", Kind::Record, |n| format!("012A?{}", " ^ 012A.a?".repeat(n))),
    ("mixed", Kind::Record, |n| format!("012A?{}", " && 012A.a? || 012A? ^ !012A?".repeat(n))),
    ("groups", Kind::Record, |n| format!("(012A?){}", " || (012A? && !(013B?))".repeat(n))),
    ("(a && ..)", Kind::Record, |n| rep("(012A? && ", "012A?", ")", n)),
    ("(.. || a)", Kind::Record, |n| rep("(", "012A?", " || 012A?)", n)),
    ("{(..)}", Kind::Record, |n| format!("012A{{{}}}", rep("(", "a?", ")", n))),
    ("{!..}", Kind::Record, |n| format!("012A{{{}a?}}", "!".repeat(n))),
    ("{&&}", Kind::Record, |n| format!("012A{{a?{}}}", " && b?".repeat(n))),
    ("{||}", Kind::Record, |n| format!("012A{{a?{}}}", " || b? ^ a == 'x'".repeat(n))),
    ("({(..)})", Kind::Record, |n| rep("(", &format!("012A{{{}}}", rep("(", "a?", ")", n)), ")", n)),
    ("value", Kind::Record, |n| format!("012A.a == '{}'", "x".repeat(n))),
    ("escapes", Kind::Record, |n| format!("012A.a == '{}'", "\\'".repeat(n))),
    ("in", Kind::Record, |n| format!("012A.a in ['x'{}]", ",'y'".repeat(n))),
    ("codes", Kind::Record, |n| format!("012A.[{}] == 'x'", "a".repeat(n))),
    ("tag", Kind::Record, |n| format!("0[{}]2A?", "1".repeat(n))),
    ("cardinality", Kind::Record, |n| format!("#012A >= {}", "9".repeat(n))),
    ("spaces", Kind::Record, |n| format!("{}012A?{}", " ".repeat(n), " ".repeat(n))),
    ("regex groups", Kind::Record, |n| format!("012A.a =~ '{}'", rep("(", "x", ")", n))),
    ("regex length", Kind::Record, |n| format!("012A.a =~ '{}'", "x".repeat(n))),
    ("regex set", Kind::Record, |n| format!("012A.a =~ ['x'{}]", ",'x.*y'".repeat(n.min(2000)))),
    ("regex repetition", Kind::Record, |n| format!("012A.a =~ 'x{{{n}}}'")),
    ("contains", Kind::Record, |n| format!("012A.a =? ['x'{}]", ",'yz'".repeat(n))),
    ("similar", Kind::Record, |n| format!("012A.a =* '{}'", "x\u{e4}".repeat(n))),
    ("field &&", Kind::Field, |n| format!("012A?{}", " && 012A.a?".repeat(n))),
    ("field (..)", Kind::Field, |n| rep("(", "012A?", ")", n)),
    ("field !", Kind::Field, |n| format!("{}012A?", "!".repeat(n))),
    ("sub (..)", Kind::Sub, |n| rep("(", "a?", ")", n)),
    ("sub !..", Kind::Sub, |n| format!("{}a?", "!".repeat(n))),
    ("sub !(..)", Kind::Sub, |n| rep("!(", "a?", ")", n)),
    ("sub &&", Kind::Sub, |n| format!("a?{}", " && b?".repeat(n))),
    ("sub mixed", Kind::Sub, |n| format!("a?{}", " && b? || a? ^ !(b?)".repeat(n))),
    ("path codes", Kind::Path, |n| format!("012A{{a{}}}", ",b".repeat(n))),
    ("path group", Kind::Path, |n| format!("012A{{(a{})}}", ",b".repeat(n))),
    ("path filter", Kind::Path, |n| format!("012A{{a | {}}}", rep("(", "b?", ")", n))),
    ("path filter !", Kind::Path, |n| format!("012A{{a | {}b?}}", "!".repeat(n))),
    ("path filter &&", Kind::Path, |n| format!("012A{{a | b?{}}}", " && b?".repeat(n))),
    ("path ((..", Kind::Path, |n| format!("012A{{{}a{}}}", "(".repeat(n), ")".repeat(n))),
    ("query", Kind::Query, |n| format!("012A.a{}", ",003@.0".repeat(n))),
    ("query literals", Kind::Query, |n| format!("'x'{}", ",'y'".repeat(n))),
    ("query filter", Kind::Query, |n| format!("012A{{a | {}}}", rep("(", "b?", ")", n))),
    ("query format", Kind::Query, |n| format!("012A{{{}a{}}}", "(b <$> ".repeat(n), ")".repeat(n))),
    ("format nested", Kind::Format, |n| format!("012A{{{}a{}}}", "(b <*> ".repeat(n), ")".repeat(n))),
    ("format ((..", Kind::Format, |n| format!("012A{{{}a{}}}", "(".repeat(n), ")".repeat(n))),
    ("format <*>", Kind::Format, |n| format!("012A{{a{}}}", " <*> b".repeat(n))),
    ("format <$>", Kind::Format, |n| format!("012A{{a{}}}", " <$> b".repeat(n))),
    ("format <$> <*>", Kind::Format, |n| format!("012A{{a{}}}", " <$> b <*> a".repeat(n))),
    ("format groups", Kind::Format, |n| format!("012A{{a{}}}", " <$> (b <*> a)".repeat(n))),
    ("format (? .. )", Kind::Format, |n| format!("012A{{{}a{}}}", "(?u ".repeat(n), ")".repeat(n))),
    ("format literal", Kind::Format, |n| format!("012A{{'{}' a}}", "x".repeat(n))),
    ("format modifiers", Kind::Format, |n| format!("012A{{?{} a}}", "u".repeat(n))),
    ("format range", Kind::Format, |n| format!("012A{{a..{}}}", "9".repeat(n))),
    ("format filter", Kind::Format, |n| format!("012A{{a | {}}}", rep("(", "b?", ")", n))),
    ("tag class", Kind::Tag, |n| format!("01[{}]A", "0-9".repeat(n))),
    ("tag long", Kind::Tag, |n| ".".repeat(n)),
    ("occurrence", Kind::Occ, |n| format!("/{}", "0".repeat(n))),
];

/// Runs one growing expression in this process. The stack has the
/// usual size of a main thread.
pub fn child(k: usize, n: usize) -> i32 {
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let (_, kind, f) = GROW[k];
            let t = f(n);
            match Parsed::new(kind, &t) {
                None => 11,
                Some(p) => {
                    let recs = awkward_records();
                    let recs: Vec<RecordRef> = recs[..6].iter().map(|b| RecordRef::from_bytes(b).unwrap()).collect();
                    if n <= 100 || (kind != Kind::Query && kind != Kind::Path) {
                        exercise(&p, &recs, &Opts::default());
                    } else {
                        // the number of rows grows with the product
                        exercise(&p, &recs[..1], &Opts { ci: true, th: 0.5 });
                    }
                    let _ = p.text();
                    let _ = p.json();
                    drop(p);
                    10
                }
            }
        })
        .unwrap();
    h.join().unwrap_or(101)
}

/// Waits for a process; one that takes too long is ended.
pub fn limited(mut c: std::process::Child, secs: u64) -> Option<std::process::Output> {
    let t0 = std::time::Instant::now();
    let mut nap = 200;
    loop {
        match c.try_wait() {
            Ok(Some(_)) => return c.wait_with_output().ok(),
            _ if t0.elapsed().as_secs() >= secs => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            _ => {
                std::thread::sleep(std::time::Duration::from_micros(nap));
                nap = (nap * 2).min(20_000);
            }
        }
    }
}

fn bytes_total(b: &[u8]) -> (bool, bool) {
    let a = ByteRecord::from_bytes(&b);
    let ok = a.is_ok();
    match a {
        Ok(r) => {
            let _ = r.ppn();
            let _ = format!("{r:?}");
            let _ = r.validate();
            if let Ok(s) = StringRecord::try_from(r) {
                let _ = (s.ppn(), format!("{s:?}"));
            }
        }
        Err(e) => {
            let _ = format!("{e} {e:?}");
        }
    }
    if let Ok(r) = RecordRef::from_bytes(b) {
        let _ = format!("{:?}", Record::from(r));
    }
    let f = FieldRef::from_bytes(b);
    if let Ok(ref f) = f {
        let _ = format!("{f:?} {:?}", f.level());
        let _ = f.validate();
        let _ = Field::from(f.clone());
    }
    let _ = OccurrenceRef::from_bytes(b).map(|o| o.to_string());
    let _ = TagRef::from_bytes(b).map(|t| (t.to_string(), t.level()));
    let _ = SubfieldRef::from_bytes(b).map(|s| format!("{s:?}"));
    (ok, f.is_ok())
}

pub fn run(cx: &Cx) {
    cx.assume("stack of 8 MiB (default of the main thread), optimised build with overflow checks and debug assertions");
    cx.assume("expressions up to 200000 repetitions of an element; available memory suffices");

    // ---- byte strings
    let al: [u8; 12] = [b'0', b'2', b'9', b'A', b'@', b'a', b'/', b' ', 0x1f, 0x1e, b'\n', 0xc3];
    let len = cx.pick(5usize, 6);
    let prefixes: [&[u8]; 5] = [b"", b"012A", b"012A/01", b"012A \x1fa", b"012A/01 \x1faX\x1e"];
    let per: u64 = (0..=len as u32).map(|k| 12u64.pow(k)).sum();
    cx.space(
        "byte strings",
        "5 prefixes x all byte strings of length 0..=5 (thorough 6) over 12 byte classes, read as record, field, subfield, tag, occurrence; incl. PPN, validation, display, conversion",
        prefixes.len() as u64 * per,
        |i, st| {
            let p = prefixes[(i % 5) as usize];
            let mut k = i / 5;
            let mut n = 0;
            while k >= 12u64.pow(n) {
                k -= 12u64.pow(n);
                n += 1;
            }
            let mut b = p.to_vec();
            for _ in 0..n {
                b.push(al[(k % 12) as usize]);
                k /= 12;
            }
            st.state();
            st.step();
            st.trace();
            match guard(|| bytes_total(&b)) {
                Ok(o) => {
                    st.outcome(&o);
                    st.sample(|| json!({"bytes": esc(&b), "record": o.0, "field": o.1}));
                }
                Err(e) => st.fail(format!("panic on the byte string {}: {e}", esc(&b)), json!({"bytes": esc(&b), "panic": e})),
            }
        },
    );

    // ---- texts of all languages
    let recs = awkward_records();
    let few: Vec<RecordRef> = recs.iter().step_by(5).map(|b| RecordRef::from_bytes(b).unwrap()).collect();
    for kind in KINDS {
        let lx = lexemes(kind);
        let len = cx.pick(4usize, 5);
        let len = if lx.len() <= 14 { len + 1 } else if lx.len() > 30 && cx.thorough { len - 1 } else { len };
        let ss = seqs(lx.len(), 0, len);
        let cs = contexts(kind);
        cx.space(
            &format!("{kind:?} texts"),
            "all sequences of up to 4 (thorough 5 for languages of up to 30 tokens; tags and occurrences one more) tokens of the language and foreign characters in 1..=3 contexts; accepted ones are displayed, serialised and evaluated",
            (ss.len() * cs.len()) as u64,
            |i, st| {
                let mut r = Radix(i);
                let (a, z) = *r.of(&cs);
                let s = r.of(&ss);
                let t: String = a.to_string() + &s.iter().map(|k| lx[*k]).collect::<String>() + z;
                st.state();
                st.step();
                st.trace();
                let res = guard(|| {
                    let p = Parsed::new(kind, &t);
                    if p.is_none() {
                        let _ = Parsed::message(kind, &t);
                    }
                    p.map(|p| {
                        let d = p.text();
                        let _ = p.json();
                        let _ = Parsed::from_json(kind, &serde_json::to_string(&t).unwrap());
                        let n = exercise(&p, &few, &Opts { ci: i % 2 == 0, th: 0.7 });
                        (d, n)
                    })
                });
                match res {
                    Ok(o) => {
                        st.outcome(&o);
                        st.sample(|| json!({"text": t, "accepted": o.is_some()}));
                    }
                    Err(e) => st.fail(format!("panic on the {kind:?} expression {t}: {e}"), json!({"text": t, "panic": e})),
                }
            },
        );
    }

    // ---- the position of the characters in long texts
    let lens: Vec<usize> = (1..=cx.pick(300usize, 1100)).chain([4094, 4095, 4096, 4097, 65_535, 65_536, 65_537]).collect();
    let shapes: [(&str, &str); 9] = [
        ("", ""),
        ("'", "'"),
        ("012A", ""),
        ("012A.a == '", "'"),
        ("012A.a == '", ""),
        ("a == \"", "\""),
        ("012A{a | b == '", "'}"),
        ("012A{'", "' a}"),
        ("012A?", ""),
    ];
    cx.space(
        "long texts",
        "8 languages, records, fields, tags, occurrences and subfields x texts of 1..=300 (thorough 1100) and around 4096 and 65536 characters of 1 to 4 bytes x shifted by 0..3 bytes x 9 shapes (accepted and rejected); the messages are displayed",
        lens.len() as u64 * 4 * 4 * 9,
        |i, st| {
            let mut x = Radix(i);
            let ch = *x.of(&["x", "\u{e4}", "\u{20ac}", "\u{1F600}"]);
            let shift = x.take(4);
            let (a, z) = *x.of(&shapes);
            let n = *x.of(&lens);
            let t = format!("{a}{}{}{z}", "x".repeat(shift), ch.repeat(n));
            st.state();
            for kind in KINDS {
                st.step();
                st.trace();
                match guard(|| Parsed::new(kind, &t).map(|p| p.text()).ok_or_else(|| Parsed::message(kind, &t))) {
                    Ok(o) => st.outcome(&(i, format!("{kind:?}"), o)),
                    Err(e) => {
                        let t: String = t.chars().take(400).collect();
                        st.fail(format!("panic on the {kind:?} text {t}: {e}"), json!({"text": t, "characters": n, "panic": e}));
                        return;
                    }
                }
            }
            st.step();
            let res = guard(|| {
                let mut ok = bytes_total(t.as_bytes()).0;
                let l = format!("012A \x1fa{t}\x1e\n");
                ok |= bytes_total(l.as_bytes()).0;
                let _ = TagRef::new(&t).map_err(|e| format!("{e} {e:?}"));
                let _ = Tag::new(&t).map_err(|e| format!("{e} {e:?}"));
                let _ = OccurrenceRef::new(&t).map_err(|e| format!("{e} {e:?}"));
                let _ = Occurrence::new(&t).map_err(|e| format!("{e} {e:?}"));
                let _ = SubfieldRef::new('a', &t).map_err(|e| format!("{e} {e:?}"));
                let _ = SubfieldCode::new(t.chars().next_back().unwrap_or('a')).map_err(|e| format!("{e} {e:?}"));
                let _ = pica_record::matcher::RecordMatcherBuilder::<String>::new(t.clone()).map_err(|e| format!("{e} {e:?}"));
                ok
            });
            match res {
                Ok(o) => {
                    st.outcome(&o);
                    st.sample(|| json!({"shape": a, "characters": n}));
                }
                Err(e) => st.fail(format!("panic on {n} characters {ch} after {shift} bytes: {e}"), json!({"characters": n, "character": ch, "panic": e})),
            }
        },
    );

    // ---- evaluation of every accepted expression on every record
    let all: Vec<RecordRef> = recs.iter().map(|b| RecordRef::from_bytes(b).unwrap()).collect();
    for kind in KINDS {
        let mut c = corpus(kind, cx.thorough);
        if kind == Kind::Format {
            for v in ["a..1", "a 2..3", "?u a", "?l [ab]", "?tro a", "'(' a ')'", "a..0"] {
                c.push(format!("....{{{v}}}"));
                c.push(format!("..../*{{a <$> (?t {v} <*> b)}}"));
            }
        }
        cx.space(
            &format!("evaluation: {kind:?}"),
            "corpus of accepted expressions x awkward records (invalid UTF-8, cut characters, case changing lengths, no subfields) x {case sensitive, case-ignore} x thresholds 0, 0.5, 1",
            c.len() as u64,
            |i, st| {
                let t = &c[i as usize];
                st.state();
                let Some(p) = Parsed::new(kind, t) else { return };
                for ci in [false, true] {
                    for th in [0.0, 0.5, 1.0] {
                        st.step();
                        st.trace();
                        let o = Opts { ci, th };
                        match guard(|| exercise(&p, &all, &o)) {
                            Ok(n) => {
                                st.outcome(&(i, n));
                            }
                            Err(e) => {
                                // find the record
                                let bad = all.iter().zip(&recs).find(|(r, _)| guard(|| exercise(&p, std::slice::from_ref(*r), &o)).is_err());
                                let b = bad.map(|x| esc(x.1)).unwrap_or_default();
                                st.fail(
                                    format!("{kind:?} {t} panics on the record {b}: {e}"),
                                    json!({"expression": t, "record": b, "case_ignore": ci, "threshold": th, "panic": e}),
                                );
                                return;
                            }
                        }
                    }
                }
                st.sample(|| json!({"expression": t}));
            },
        );
    }

    // ---- operators on all short byte strings
    let ops: Vec<String> = {
        let mut v = vec![];
        for x in ["", "a", "\u{e4}", "\u{130}", "\u{df}", "a@"] {
            for op in ["==", "!=", "=^", "!^", "=$", "!$", "=*", "!*", "=?", "!?"] {
                v.push(format!("a {op} '{x}'"));
                if matches!(op, "=?" | "!?" | "=^" | "!^" | "=$" | "!$") {
                    v.push(format!("a {op} ['{x}', 'b']"));
                }
            }
            v.push(format!("a in ['{x}']"));
        }
        for re in ["", ".", "^.$", "\\w+", "(?i)\u{e4}", "[^a]", "\\xff", "(?-u:\\xff)", "a|b", "\\p{L}"] {
            v.push(format!("a =~ '{re}'"));
            v.push(format!("ALL a !~ ['{re}', 'b']"));
        }
        v
    };
    let va: [&[u8]; 9] = [b"a", b"B", b"@", b" ", b"\xff", b"\xc3", b"\xa4", b"\xc4", b"\xb0"];
    let vs = seqs(va.len(), 0, cx.pick(4, 5));
    let ms: Vec<(String, SubfieldMatcher)> = ops.iter().filter_map(|t| SubfieldMatcher::new(t).ok().map(|m| (t.clone(), m))).collect();
    let fm: Vec<Format> = [
        "012A{a}", "012A{a..0}", "012A{a..1}", "012A{a 1..}", "012A{a..2}", "012A{?u a}", "012A{?l a}", "012A{?o a}", "012A{?t a}", "012A{?r a}",
        "012A{(?lrt 'x' a 'y')}",
    ]
    .iter()
    .filter_map(|t| Format::new(t).ok())
    .collect();
    cx.space(
        "operators x byte strings",
        "all operators with literal and multi-byte operands x all values of up to 4 (thorough 5) units over 9 (bytes of cut and whole characters) x case-ignore; format modifiers and ranges on the same values",
        vs.len() as u64,
        |i, st| {
            let v: Vec<u8> = vs[i as usize].iter().flat_map(|k| va[*k].to_vec()).collect();
            let b = ser(&vec![MF { tag: "012A".into(), occ: None, subs: vec![('a', v.clone())] }]);
            let r = RecordRef::from_bytes(&b).unwrap();
            st.state();
            for (t, m) in &ms {
                for ci in [false, true] {
                    st.step();
                    st.trace();
                    match guard(|| m.is_match(r.fields()[0].subfields(), &Opts { ci, th: 0.7 }.real())) {
                        Ok(_) => {}
                        Err(e) => {
                            st.fail(
                                format!("{t} panics on the value {}: {e}", esc(&v)),
                                json!({"expression": t, "value": esc(&v), "panic": e}),
                            );
                            return;
                        }
                    }
                }
            }
            for f in &fm {
                for s in [false, true] {
                    st.step();
                    match guard(|| r.format(f, &FormatOptions::new().strip_overread_char(s)).map(|x| x.len()).sum::<usize>()) {
                        Ok(n) => st.outcome(&(&v, n)),
                        Err(e) => {
                            st.fail(format!("{f} panics on the value {}: {e}", esc(&v)), json!({"format": f.to_string(), "value": esc(&v), "panic": e}));
                            return;
                        }
                    }
                }
            }
            st.sample(|| json!({"value": esc(&v)}));
        },
    );

    // ---- the size of compiled regular expressions
    let units = ["x", "\u{e4}", ".", "[a-z]", "\\w", "\\pL", "(?i)k", "(?-u)\\w", "(a|b)", "\\b."];
    let reps: Vec<usize> = cx.pick(
        vec![1, 10, 50, 100, 200, 250, 300, 1000, 10_000, 50_000, 100_000, 130_000, 160_000, 200_000, 250_000, 300_000],
        (1..60).map(|k| 1usize.max(2 * k * k * k)).chain((1..60).map(|k| k * 10)).collect(),
    );
    let sets: Vec<usize> = cx.pick(vec![0, 1, 2, 5, 10, 40], (0..20).chain([40, 80]).collect());
    cx.space(
        "large regular expressions",
        "10 units x 16 (thorough: 118) numbers of repetitions x one expression and lists of 1..40 (thorough: 80) of them x case-ignore; every accepted one is evaluated",
        (units.len() * reps.len() * sets.len()) as u64,
        |i, st| {
            let mut x = Radix(i);
            let k = *x.of(&sets);
            let u = *x.of(&units);
            let n = *x.of(&reps);
            if n * k > 400_000 {
                return;
            }
            let u2 = u.replace('\\', "\\\\");
            let t = match k {
                0 => format!("a =~ '{u2}{{{n}}}'"),
                _ => format!("a =~ [{}]", (0..k).map(|j| format!("'{u2}{{{n}}}{j}'")).collect::<Vec<_>>().join(", ")),
            };
            st.state();
            let res = guard(|| {
                SubfieldMatcher::new(&t).ok().map(|m| {
                    let b = ser(&vec![MF { tag: "012A".into(), occ: None, subs: vec![('a', b"x1".to_vec()), ('a', b"xxxxxxxxxxK0".to_vec())] }]);
                    let r = RecordRef::from_bytes(&b).unwrap();
                    [false, true].map(|ci| m.is_match(r.fields()[0].subfields(), &Opts { ci, th: 0.7 }.real()))
                })
            });
            st.step();
            st.trace();
            match res {
                Ok(o) => {
                    st.outcome(&(u, n, k, o));
                    st.sample(|| json!({"expression": t.chars().take(100).collect::<String>(), "result": o}));
                }
                Err(e) => {
                    let t: String = t.chars().take(200).collect();
                    st.fail(format!("the accepted expression {t} panics: {e}"), json!({"expression": t, "list": k, "unit": u, "repetitions": n, "panic": e}));
                }
            }
        },
    );

    // ---- nesting and repetition, one process each
    let sizes: Vec<usize> = cx.pick(
        vec![1, 2, 31, 32, 33, 255, 256, 257, 1000, 30_000, 200_000],
        vec![1, 2, 3, 15, 16, 31, 32, 33, 64, 100, 127, 128, 254, 255, 256, 257, 511, 512, 1000, 4096, 30_000, 65_536, 100_000, 200_000],
    );
    let exe = std::env::current_exe().unwrap();
    cx.space(
        "nested and repeated elements",
        "66 constructions (groups, negations, chains, lists, literals, ranges, ... closed and unclosed) x sizes 1..200000 around the nesting limits; parse, evaluate, display, serialise and drop on an 8 MiB stack, in a process of its own",
        (GROW.len() * sizes.len()) as u64,
        |i, st| {
            let k = i as usize % GROW.len();
            let n = sizes[i as usize / GROW.len()];
            // the work of these grows faster than their size
            let n = match GROW[k].0 {
                "query" | "query literals" | "regex repetition" | "regex groups" => n.min(1000),
                "similar" | "regex length" => n.min(30_000),
                _ => n,
            };
            st.state();
            st.step();
            st.trace();
            let out = std::process::Command::new(&exe)
                .args(["C14", "child", &k.to_string(), &n.to_string()])
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::piped())
                .spawn()
                .expect("child");
            let Some(out) = limited(out, 60) else {
                // work is not the subject of this property
                cx.not_exhaustive();
                return;
            };
            match out.status.code() {
                Some(c @ (10 | 11)) => {
                    st.outcome(&(k, c));
                    st.sample(|| json!({"construction": GROW[k].0, "size": n, "accepted": c == 10}));
                }
                c => {
                    let err = String::from_utf8_lossy(&out.stderr).trim().to_string();
                    st.fail(
                        format!(
                            "{:?} expression '{}' with {n} elements ends the process: {}",
                            GROW[k].1,
                            GROW[k].0,
                            c.map(|c| format!("status {c}")).unwrap_or_else(|| format!("signal {:?}", out.status.signal()))
                        ),
                        json!({"construction": GROW[k].0, "kind": format!("{:?}", GROW[k].1), "size": n, "beginning": GROW[k].2(n.min(3)), "stderr": err}),
                    );
                }
            }
        },
    );
}
