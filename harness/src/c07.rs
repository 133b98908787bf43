//! C07: Boolean expressions and field criteria.
use pica_record::prelude::*;
use pica_record::primitives::{RecordRef, SubfieldRef};
use serde_json::json;

use crate::cx::{Cx, Radix, St, esc, seqs};
use crate::expr::*;
use crate::rec::*;

const SEPS: [&str; 4] = ["", " ", "\n", " \t\r\n"];

enum Level {
    Subfield,
    Bracket,
    Field,
}

/// Evaluates an accepted expression under every assignment.
fn assignments(
    st: &mut St,
    level: &Level,
    txt: &str,
    want: Option<&B>,
    n: usize,
) {
    let o = MatcherOptions::default();
    let (mut sm, mut rm) = (None, None);
    let ok = match level {
        Level::Subfield => {
            sm = SubfieldMatcher::new(txt).ok();
            sm.is_some()
        }
        Level::Bracket => {
            rm = RecordMatcher::new(format!("012A{{{txt}}}")).ok();
            rm.is_some()
        }
        Level::Field => {
            rm = RecordMatcher::new(txt).ok();
            rm.is_some()
        }
    };
    st.step();
    st.outcome(&want.is_some());
    if ok != want.is_some() {
        st.fail(
            format!("expression '{}' accepted={ok}", txt.escape_debug()),
            json!({"expression": txt, "accepted": ok}),
        );
        return;
    }
    let Some(b) = want else { return };
    for bits in 0..1u32 << n {
        let expect = b.eval(&|k| bits >> k & 1 == 1);
        st.trace();
        let got = match level {
            Level::Subfield => {
                let subs: Vec<SubfieldRef> = (0..n)
                    .filter(|k| bits >> k & 1 == 1)
                    .map(|k| SubfieldRef::new((b'a' + k as u8) as char, "1").unwrap())
                    .collect();
                sm.as_ref().unwrap().is_match(&subs, &o)
            }
            Level::Bracket => {
                let mut fld = f("012A", &["Z0"]);
                for k in (0..n).filter(|k| bits >> k & 1 == 1) {
                    fld.subs.push(((b'a' + k as u8) as char, b"1".to_vec()));
                }
                let bytes = ser(&vec![fld]);
                rm.as_ref().unwrap().is_match(&RecordRef::from_bytes(&bytes).unwrap(), &o)
            }
            Level::Field => {
                let mut r = vec![f("003@", &["00"])];
                for k in 0..n {
                    // the field is present but the criterion fails
                    let present = bits >> k & 1 == 1;
                    r.push(f(
                        &format!("01{k}A"),
                        if present { &["a1"] } else { &["b1"] },
                    ));
                    if present {
                        r.push(f(&format!("02{k}A"), &["a1"]));
                    }
                }
                let bytes = ser(&r);
                rm.as_ref().unwrap().is_match(&RecordRef::from_bytes(&bytes).unwrap(), &o)
            }
        };
        st.outcome(&(txt, bits, expect));
        if got != expect {
            st.fail(
                format!("'{}' with true atoms {bits:b}: {got}", txt.escape_debug()),
                json!({"expression": txt, "assignment": bits, "expected": expect}),
            );
            return;
        }
    }
}

pub fn run(cx: &Cx) {
    let len = cx.pick(7, 8);
    let ss = seqs(7, 1, len);
    let sub_atom = |k: usize| format!("{}?", (b'a' + k as u8) as char);
    for (name, level) in [
        ("subfield tokens", Level::Subfield),
        ("field tokens", Level::Field),
        ("bracket tokens", Level::Bracket),
    ] {
        let m = if matches!(level, Level::Bracket) {
            ss.partition_point(|s| s.len() < len)
        } else {
            ss.len()
        };
        cx.space(
            name,
            "all token sequences of length 1..=7 (thorough 8, bracket one less) over atom ! ( ) && ^ ||, all assignments; separators none, blank, newline, mixed; ^ or XOR",
            m as u64,
            |i, st| {
                let s = &ss[i as usize];
                let t = tokens(s);
                let n = s.iter().filter(|k| **k == 0).count();
                let want = parse_bool(&t, &|_| true);
                st.state();
                // malformed sequences are tried with one or two separators
                let seps = if want.is_some() { &SEPS[..] } else { &SEPS[i as usize % 2..][..1] };
                let xors: &[&str] = if s.contains(&5) && (want.is_some() || i % 3 == 0) {
                    &["^", "XOR"]
                } else {
                    &["^"]
                };
                for sep in seps {
                    for xor in xors {
                        let atom = |k: usize| match level {
                            Level::Field => match k % 2 {
                                0 => format!("01{k}A.a?"),
                                _ => format!("02{k}A?"),
                            },
                            _ => sub_atom(k),
                        };
                        let mut txt = tok_txt(&t, &atom, xor, sep);
                        if sep.len() > 1 && !matches!(level, Level::Bracket) {
                            txt = format!("{sep}{txt}{sep}");
                        }
                        assignments(st, &level, &txt, want.as_ref(), n);
                        if st.failed() {
                            return;
                        }
                    }
                }
                if want.is_some() && n > 1 {
                    st.sample(|| json!({"expression": tok_txt(&t, &|k| sub_atom(k), "^", " ")}));
                }
            },
        );
    }

    // mixed atoms: criteria which cannot be negated without a group
    let ms = seqs(7, 1, cx.pick(5, 6));
    cx.space(
        "kinds of atoms",
        "all token sequences of length 1..=5 (thorough 6) x rotation of 8 kinds of field atoms and 4 kinds of subfield atoms; relations and cardinalities can be negated in a group only",
        ms.len() as u64 * 8,
        |i, st| {
            let s = &ms[(i / 8) as usize];
            let rot = (i % 8) as usize;
            let t = tokens(s);
            let n = s.iter().filter(|k| **k == 0).count();
            st.state();
            // field level
            let fatom = |k: usize| match (k + rot) % 8 {
                0 => format!("01{k}A.a?"),
                1 => format!("01{k}A.a == '1'"),
                2 => format!("#01{k}A{{a?}} == 1"),
                3 => format!("01{k}A{{a? && !b?}}"),
                4 => format!("02{k}A?"),
                5 => format!("01{k}A$a?"),
                6 => format!("#02{k}A > 0"),
                _ => format!("01{k}A{{(a? ^ b?) && a =~ '^1'}}"),
            };
            let neg = |k: usize| !matches!((k + rot) % 8, 1 | 2 | 6);
            let want = parse_bool(&t, &neg);
            for sep in [" ", ""] {
                let txt = tok_txt(&t, &fatom, "^", sep);
                assignments(st, &Level::Field, &txt, want.as_ref(), n);
            }
            if rot < 4 {
                let satom = |k: usize| {
                    let c = (b'a' + k as u8) as char;
                    match (k + rot) % 4 {
                        0 => format!("{c}?"),
                        1 => format!("{c} == '1'"),
                        2 => format!("#{c} >= 1"),
                        _ => format!("{c} in ['1', '2']"),
                    }
                };
                let neg = |k: usize| (k + rot) % 4 == 0;
                let want = parse_bool(&t, &neg);
                let txt = tok_txt(&t, &satom, "XOR", " ");
                assignments(st, &Level::Subfield, &txt, want.as_ref(), n);
            }
            if want.is_some() && n > 1 {
                st.sample(|| json!({"expression": tok_txt(&t, &fatom, "^", " ")}));
            }
        },
    );

    // long chains and deep groups
    cx.space(
        "long and deep expressions",
        "chains of 2..=60 operands x 3 operators x position of the deviating operand; groups and negations nested 1..=120",
        60 * 3 + 120,
        |i, st| {
            st.state();
            let o = MatcherOptions::default();
            if i < 180 {
                let n = (i / 3) as usize + 2;
                let op = ["&&", "^", "||"][(i % 3) as usize];
                let txt = (0..n).map(|k| format!("{:03}A?", 100 + k)).collect::<Vec<_>>().join(op);
                let m = RecordMatcher::new(&txt);
                let Ok(m) = m else {
                    st.fail(format!("chain of {n} rejected"), json!({"expression": txt}));
                    return;
                };
                for dev in 0..=n {
                    for base in [false, true] {
                        let v: Vec<bool> = (0..n).map(|k| base ^ (k == dev)).collect();
                        let want = match op {
                            "&&" => v.iter().all(|x| *x),
                            "||" => v.iter().any(|x| *x),
                            _ => v.iter().filter(|x| **x).count() % 2 == 1,
                        };
                        let mut r = vec![f("003@", &["01"])];
                        r.extend((0..n).filter(|k| v[*k]).map(|k| f(&format!("{:03}A", 100 + k), &["a1"])));
                        let b = ser(&r);
                        st.step();
                        st.trace();
                        st.outcome(&(i, want));
                        if m.is_match(&RecordRef::from_bytes(&b).unwrap(), &o) != want {
                            st.fail(format!("{txt} on {}", esc(&b)), json!({"expression": txt, "record": esc(&b), "expected": want}));
                            return;
                        }
                    }
                }
            } else {
                let d = (i - 180) as usize + 1;
                for (txt, odd) in [
                    (format!("{}012A?{}", "(".repeat(d), ")".repeat(d)), false),
                    (format!("{}012A?", "!".repeat(d)), d % 2 == 1),
                    (format!("{}012A?{}", "!(".repeat(d), ")".repeat(d)), d % 2 == 1),
                    (format!("012A{{{}a?{}}}", "(".repeat(d), ")".repeat(d)), false),
                    (format!("012A{{{}a?{}}}", "!(".repeat(d), ")".repeat(d)), d % 2 == 1),
                ] {
                    let Ok(m) = RecordMatcher::new(&txt) else {
                        st.fail(format!("nesting {d} rejected: {txt}"), json!({"expression": txt}));
                        return;
                    };
                    for (r, has) in [(b"012A \x1fa1\x1e\n".as_slice(), true), (b"012B \x1fa1\x1e\n", false)] {
                        st.step();
                        st.trace();
                        let want = if txt.starts_with("012A{") { has && !odd } else { has ^ odd };
                        st.outcome(&(&txt, want));
                        if m.is_match(&RecordRef::from_bytes(r).unwrap(), &o) != want {
                            st.fail(format!("{txt} on {}", esc(r)), json!({"expression": txt, "record": esc(r), "expected": want}));
                        }
                    }
                }
            }
            st.sample(|| json!({"item": i}));
        },
    );

    // field criteria
    let falpha: Vec<MF> = [
        ("012A", vec![]),
        ("012A", vec!["ax"]),
        ("012A/00", vec!["ay"]),
        ("012A/01", vec!["ax", "by"]),
        ("012A/02", vec!["ay", "ax"]),
        ("012A/011", vec!["bx"]),
        ("012B", vec!["ax"]),
        ("212A/01", vec!["bx"]),
    ]
    .iter()
    .map(|(t, s)| f(t, s))
    .collect();
    let recs: Vec<MR> = seqs(falpha.len(), 0, cx.pick(3, 4))
        .iter()
        .map(|s| {
            let mut r: MR = s.iter().map(|k| falpha[*k].clone()).collect();
            if r.is_empty() {
                r.push(f("003@", &["01"]));
            }
            r
        })
        .collect();
    let rbytes: Vec<Vec<u8>> = recs.iter().map(ser).collect();
    let tags = ["012A", "....", ".12A", "012[AB]", "[0-2]1[23].", "012B", "099A"];
    let occs = ["", "/00", "/*", "/01", "/01-02", "/011", "/03-99"];
    let cs = crits(&["a", "b", "[ab]", "*"], &["x", "y"], &QS);
    let cs: Vec<&Crit> = cs
        .iter()
        .filter(|c| match c {
            Crit::Card(_, op, n) => *n < 3 && (*op == "==" || *op == ">="),
            Crit::Rel(_, _, op, _) => ["==", "!="].contains(op),
            Crit::Regex(_, _, k, _) => k == &[0],
            Crit::Contains(..) => false,
            _ => true,
        })
        .collect();
    let o = Opts::default();
    cx.space(
        "field criteria",
        "quantifier (default, ANY, ALL) x 7 tag patterns x 7 occurrence patterns x subfield criteria x notation (dot, dollar, bracket) x all records of 0..=3 (thorough 4) fields over 8; bare existence",
        (3 * tags.len() * occs.len() * cs.len()) as u64,
        |i, st| {
            let mut r = Radix(i);
            let q = *r.of(&QS);
            let tag = *r.of(&tags);
            let occ = *r.of(&occs);
            let c = *r.of(&cs);
            let ct = &c.texts()[0];
            let mut txts = vec![
                format!("{}{tag}{occ}.{ct}", q.txt()),
                format!("{}{tag}{occ}${ct}", q.txt()),
                format!("{}{tag}{occ}{{{ct}}}", q.txt()),
                format!("{}{tag}{occ} {{ ({ct}) }} ", q.txt()),
            ];
            if c.is_regex() {
                txts.truncate(1);
            }
            let ms: Result<Vec<_>, _> =
                txts.iter().map(|t| RecordMatcher::new(t).map_err(|_| t)).collect();
            let ms = match ms {
                Ok(m) => m,
                Err(t) => {
                    st.fail(format!("'{t}' rejected"), json!({"expression": t}));
                    return;
                }
            };
            let ro = o.real();
            for (n, (rec, b)) in recs.iter().zip(&rbytes).enumerate() {
                if c.is_regex() && n % cx.pick(29, 7) != 0 {
                    continue; // each evaluation compiles the expression
                }
                st.state();
                let want = q.fold(
                    field_sel(rec, tag, occ).iter().map(|f| c.eval(&f.subs, &o)),
                );
                let real = RecordRef::from_bytes(b).unwrap();
                // the notations differ in parsing only
                let many = n < 75 || i % 16 == 0;
                for (m, t) in ms.iter().zip(&txts).take(if many { 4 } else { 1 }) {
                    st.step();
                    if m.is_match(&real, &ro) != want {
                        st.fail(
                            format!("{t} on {}: expected {want}", esc(b)),
                            json!({"expression": t, "record": esc(b), "expected": want}),
                        );
                        return;
                    }
                }
                st.trace();
                st.outcome(&(i, want));
            }
            st.sample(|| json!({"expression": txts[0]}));
        },
    );
    cx.space(
        "existence and cardinality of fields",
        "7 tag patterns x 7 occurrence patterns x {existence, 6 operators x 0..=4 x (no criterion, 6 subfield expressions)} x all records of 0..=3 (thorough 4) fields over 8",
        (tags.len() * occs.len()) as u64 * (1 + 6 * 5 * 7),
        |i, st| {
            let mut r = Radix(i);
            let tag = *r.of(&tags);
            let occ = *r.of(&occs);
            let k = r.take(1 + 6 * 5 * 7);
            let subx: [(&str, fn(&MF) -> bool); 7] = [
                ("", |_| true),
                ("{a?}", |f| f.subs.iter().any(|s| s.0 == 'a')),
                ("{!a?}", |f| !f.subs.iter().any(|s| s.0 == 'a')),
                ("{a == 'x' && b?}", |f| f.subs.iter().any(|s| s.0 == 'a' && s.1 == b"x") && f.subs.iter().any(|s| s.0 == 'b')),
                (" { a == 'x' || b == 'x' } ", |f| f.subs.iter().any(|s| (s.0 == 'a' || s.0 == 'b') && s.1 == b"x")),
                ("{#[ab] == 2}", |f| f.subs.len() == 2),
                ("{ALL * == 'x'}", |f| f.subs.iter().all(|s| s.1 == b"x")),
            ];
            let (txt, op, num, sx) = if k == 0 {
                (format!("{tag}{occ}?"), ">=", 1, 0)
            } else {
                let mut r = Radix(k as u64 - 1);
                let op = *r.of(&CARDS);
                let n = r.take(5);
                let s = r.take(7);
                let t = match i % 2 {
                    0 => format!("#{tag}{occ}{} {op} {n}", subx[s].0),
                    _ => format!(" # {tag}{occ}{}{op}{n} ", subx[s].0),
                };
                (t, op, n, s)
            };
            let Ok(m) = RecordMatcher::new(&txt) else {
                st.fail(format!("'{txt}' rejected"), json!({"expression": txt}));
                return;
            };
            let ro = o.real();
            for (rec, b) in recs.iter().zip(&rbytes) {
                st.state();
                st.step();
                let cnt = field_sel(rec, tag, occ).into_iter().filter(|f| subx[sx].1(f)).count();
                let want = cmp(op, cnt, num);
                let real = RecordRef::from_bytes(b).unwrap();
                if m.is_match(&real, &ro) != want {
                    st.fail(
                        format!("{txt} on {}: expected {want}", esc(b)),
                        json!({"expression": txt, "record": esc(b), "expected": want}),
                    );
                    return;
                }
                st.trace();
                st.outcome(&(i, want));
            }
            st.sample(|| json!({"expression": txt}));
        },
    );
    let bad = [
        "", " ", "012A", "012A.", "012A.a", "012A.a ==", "012A{a?", "012A a?}", "{a?}", "012A{}", "012A{a?}}",
        "012A/0.a?", "012A/1-2.a?", "012A/05-01.a?", "3.2A?", "012a?", "#012A", "#012A ==", "#012A == x", "#012A =^ 1",
        "#012A == -1", "#012A{} == 1", "012A? &&", "&& 012A?", "012A? 012B?", "012A? & 012B?", "012A? | 012B?", "012A? AND 012B?",
        "012A? and 012B?", "012A? xor 012B?", "()", "(012A?", "012A?)", "!", "!!", "ALL 012A? 012B?", "NOT 012A?", "012A.a?b?",
        "012A{a? b?}", "012A{a? &&}", "012A{(a?}", "012A{a?)}", "012A? && && 012B?", "012A? || ^ 012B?", "!012A.a == 'x'", "!#012A == 1",
        "012A.a == 'x' 012B?", "012A? \0", "012A? ;",
    ];
    cx.space("malformed expressions", "49 malformed expressions, alone, in a group, as right and left operand, negated group", bad.len() as u64, |i, st| {
        let b = bad[i as usize];
        st.state();
        for t in [
            b.to_string(),
            format!("({b})"),
            format!("003@? && {b}"),
            format!("{b} || 003@?"),
            format!("!({b})"),
            format!("003@? ^ ({b}) && 003@?"),
        ] {
            st.step();
            st.trace();
            st.outcome(&t);
            if RecordMatcher::new(&t).is_ok() {
                st.fail(format!("'{t}' accepted"), json!({"expression": t}));
            }
        }
        st.sample(|| json!({"expression": b}));
    });
    crate::ctor::fld(cx);
    crate::long::lib(cx);
}
