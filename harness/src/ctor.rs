//! The constructors of the single kinds of criteria: each accepts
//! exactly the criteria of its kind and gives a matcher with the
//! meaning and the text of the general one.
use std::fmt::Display;

use pica_record::matcher::{field, subfield};
use pica_record::prelude::*;
use pica_record::primitives::{FieldRef, RecordRef, SubfieldRef};
use serde_json::json;

use crate::cx::{Cx, esc};
use crate::expr::*;
use crate::rec::{MR, f, ser};

type Subs<'a> = &'a [SubfieldRef<'a>];
struct M<X> {
    what: &'static str,
    text: String,
    run: X,
}
type SubM = M<Box<dyn Fn(Subs, &MatcherOptions) -> bool>>;
type FldM = M<Box<dyn Fn(&RecordRef, &MatcherOptions) -> bool>>;

/// Whether text and debug output are the same as that of a clone.
fn shown(m: &(impl Display + Clone + PartialEq)) -> String {
    let s = m.to_string();
    if m.clone() == *m && s == m.clone().to_string() { s } else { "the clone differs".into() }
}

macro_rules! subs {
    ($v:ident, $t:expr, $($k:ident),*) => {$(
        if let Ok(m) = subfield::$k::new($t) {
            $v.push(M { what: stringify!($k), text: shown(&m), run: Box::new(move |s: Subs, o: &MatcherOptions| m.is_match(s.iter(), o)) });
        }
    )*};
}
macro_rules! fields {
    ($v:ident, $t:expr, $($k:ident),*) => {$(
        if let Ok(m) = field::$k::new($t) {
            $v.push(M { what: stringify!($k), text: shown(&m), run: Box::new(move |r: &RecordRef, o: &MatcherOptions| m.is_match(r.fields(), o)) });
        }
    )*};
}

pub fn sub(cx: &Cx) {
    let all = crits(&["a", "[ab]", "*", "[b-dX0-9]"], &["", "a", "AB", "\u{e4}b", "a b'\"\\"], &QS);
    let lists: Vec<Vec<Vec<u8>>> = [vec![], vec!["aa"], vec!["aAB"], vec!["bab"], vec!["Xa b'\"\\", "a"], vec!["aa", "bAB"], vec!["a\u{e4}b", "ca", "aa"], vec!["za"]]
        .iter()
        .map(|l| l.iter().map(|s: &&str| { let mut b = vec![0x1f]; b.extend(s.bytes()); b }).collect())
        .collect();
    cx.space(
        "every constructor",
        "all criteria over 4 code sets and 5 values x the constructors of the 7 single kinds, of single criteria and of expressions x 8 lists of subfields x case-ignore",
        all.len() as u64,
        |i, st| {
            let c = &all[i as usize];
            let kind = match c {
                Crit::Exists(_) => "ExistsMatcher",
                Crit::Rel(..) => "RelationMatcher",
                Crit::Contains(..) => "ContainsMatcher",
                Crit::In(..) => "InMatcher",
                Crit::Regex(_, _, k, _) if k.len() == 1 => "RegexMatcher",
                Crit::Regex(..) => "RegexSetMatcher",
                Crit::Card(..) => "CardinalityMatcher",
            };
            // a single expression in a list is a set
            for t in c.texts() {
                let kind = if kind == "RegexMatcher" && t.contains('[') && t.ends_with(']') { "RegexSetMatcher" } else { kind };
                let mut v: Vec<SubM> = vec![];
                subs!(v, &t, ExistsMatcher, RelationMatcher, ContainsMatcher, InMatcher, RegexMatcher, RegexSetMatcher, CardinalityMatcher, SingletonMatcher, SubfieldMatcher);
                st.state();
                st.step();
                let got: Vec<&str> = v.iter().map(|m| m.what).collect();
                let regex = matches!(c, Crit::Regex(..));
                let ok = got.len() == 3 && (got[0] == kind || regex && got[0].starts_with("Regex")) && got[1] == "SingletonMatcher" && got[2] == "SubfieldMatcher";
                if !ok {
                    st.fail(format!("'{t}' is accepted by {got:?}, expected {kind}"), json!({"criterion": t, "accepted": got, "expected": kind}));
                    return;
                }
                if v.iter().any(|m| m.text != v[2].text) {
                    st.fail(format!("'{t}' has the texts {:?}", v.iter().map(|m| &m.text).collect::<Vec<_>>()), json!({"criterion": t}));
                    return;
                }
                for l in &lists {
                    let s: Vec<SubfieldRef> = l.iter().map(|b| SubfieldRef::from_bytes(b).unwrap()).collect();
                    let m: Vec<Sub> = l.iter().map(|b| (b[1] as char, b[2..].to_vec())).collect();
                    for ci in [false, true] {
                        let o = Opts { ci, th: 0.6 };
                        let want = c.eval(&m, &o);
                        for x in &v {
                            st.step();
                            st.trace();
                            st.outcome(&(i, want));
                            if (x.run)(&s, &o.real()) != want {
                                st.fail(format!("{}::new(\"{t}\") on {:?}: expected {want}", x.what, l.iter().map(|b| esc(b)).collect::<Vec<_>>()), json!({"criterion": t, "constructor": x.what, "expected": want}));
                                return;
                            }
                        }
                        // a single subfield is a list of one
                        if s.len() == 1 && SubfieldMatcher::new(&t).unwrap().is_match(&s[0], &o.real()) != want {
                            st.fail(format!("'{t}' on the subfield {}: expected {want}", esc(&l[0])), json!({"criterion": t, "expected": want}));
                            return;
                        }
                    }
                }
            }
            st.sample(|| json!({"criterion": c.texts()}));
        },
    );
    // what no single kind accepts
    let comp = ["a? && b?", "a? || b?", "a? ^ b?", "(a?)", "!a?", "!(a == 'b')", "", " ", "a", "a == ", "a == 'b' c", "ALL a?", "#a =^ 1"];
    cx.space("composite criteria", "13 expressions that are no criterion of a single kind x 8 constructors", comp.len() as u64, |i, st| {
        let t = comp[i as usize];
        let mut v: Vec<SubM> = vec![];
        subs!(v, t, ExistsMatcher, RelationMatcher, ContainsMatcher, InMatcher, RegexMatcher, RegexSetMatcher, CardinalityMatcher, SingletonMatcher);
        st.state();
        st.step();
        st.trace();
        st.outcome(&v.len());
        if let Some(m) = v.first() {
            st.fail(format!("'{t}' is accepted by {}", m.what), json!({"criterion": t, "accepted": m.what}));
        }
        st.sample(|| json!({"criterion": t}));
    });
}

pub fn fld(cx: &Cx) {
    let recs: Vec<MR> = vec![
        vec![f("003@", &["0x"])],
        vec![f("012A", &["ax"])],
        vec![f("012A/01", &["ax", "by"]), f("012A", &["ay"])],
        vec![f("012A", &[]), f("012A/03", &["bx"])],
        vec![f("012B/01", &["ax"]), f("012A/02", &["aX"]), f("012A/02", &["ax"])],
    ];
    let mut cases: Vec<(String, &str)> = vec![];
    for t in ["012A", "....", "012[AB]"] {
        for o in ["", "/*", "/01", "/01-02"] {
            cases.push((format!("{t}{o}?"), "ExistsMatcher"));
            for q in ["", "ANY ", "ALL "] {
                for c in ["a?", "a == 'x'", "#a == 1", "[ab] in ['x', 'y']", "* =~ '^x'", "a != 'x'", "b =? 'x'"] {
                    cases.push((format!("{q}{t}{o}.{c}"), "SubfieldsMatcher"));
                    cases.push((format!("{q}{t}{o}{{{c}}}"), "SubfieldsMatcher"));
                    cases.push((format!("{q}{t}{o}{{{c} || b?}}"), "SubfieldsMatcher"));
                }
            }
            for op in CARDS {
                for n in 0..4 {
                    cases.push((format!("#{t}{o} {op} {n}"), "CardinalityMatcher"));
                    cases.push((format!("#{t}{o}{{a == 'x'}} {op} {n}"), "CardinalityMatcher"));
                }
            }
        }
    }
    for t in ["012A? && 012B?", "012A? || 012B?", "(012A?)", "!012A?", "!(012A.a == 'x')", "012A.a? ^ 012B?", "012A", "012A{", "", "ALL 012A?", "#012A =^ 1", "012A? x"] {
        cases.push((t.into(), ""));
    }
    cx.space(
        "every constructor",
        "existence, subfield criteria (two notations, expressions) and cardinality over 3 tag and 4 occurrence patterns, 12 expressions of no single kind x the constructors of the single kinds, the general one and that of the record matcher x 5 records x case-ignore",
        cases.len() as u64,
        |i, st| {
            let (t, kind) = &cases[i as usize];
            let mut v: Vec<FldM> = vec![];
            fields!(v, t, ExistsMatcher, SubfieldsMatcher, CardinalityMatcher, SingletonMatcher);
            st.state();
            st.step();
            let want = match *kind {
                "" => vec![],
                "CardinalityMatcher" => vec![*kind],
                k => vec![k, "SingletonMatcher"],
            };
            let got: Vec<&str> = v.iter().map(|m| m.what).collect();
            if got != want {
                st.fail(format!("'{t}' is accepted by {got:?}, expected {want:?}"), json!({"expression": t, "accepted": got, "expected": want}));
                return;
            }
            if kind.is_empty() {
                st.trace();
                return;
            }
            fields!(v, t, FieldMatcher);
            let (Some(g), Ok(r)) = (v.last().filter(|m| m.what == "FieldMatcher"), RecordMatcher::new(t)) else {
                st.fail(format!("'{t}' rejected"), json!({"expression": t}));
                return;
            };
            let text = g.text.clone();
            if v.iter().any(|m| m.text != text) || shown(&r) != text {
                st.fail(format!("'{t}' has the texts {:?}", v.iter().map(|m| &m.text).collect::<Vec<_>>()), json!({"expression": t}));
                return;
            }
            for rec in &recs {
                let b = ser(rec);
                let x = RecordRef::from_bytes(&b).unwrap();
                for ci in [false, true] {
                    let o = MatcherOptions::new().case_ignore(ci);
                    let want = r.is_match(&x, &o);
                    st.outcome(&(i, want));
                    for m in &v {
                        st.step();
                        st.trace();
                        if (m.run)(&x, &o) != want {
                            st.fail(format!("{}::new(\"{t}\") on {} is not {want} like the record matcher", m.what, esc(&b)), json!({"expression": t, "record": esc(&b), "constructor": m.what, "expected": want}));
                            return;
                        }
                    }
                    // a single field is a list of one
                    if let [f] = x.fields() {
                        let f: &FieldRef = f;
                        if FieldMatcher::new(t).unwrap().is_match(f, &o) != want {
                            st.fail(format!("'{t}' on the field of {}: expected {want}", esc(&b)), json!({"expression": t, "record": esc(&b)}));
                            return;
                        }
                    }
                }
            }
            st.sample(|| json!({"expression": t}));
        },
    );
}
