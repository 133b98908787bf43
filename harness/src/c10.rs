//! C10: text forms and serialisation.
use pica_record::prelude::*;
use pica_record::primitives::{Field, FieldRef, Occurrence, OccurrenceRef, Record, RecordRef, Subfield, SubfieldRef, Tag, TagRef};
use serde_json::json;

use crate::cx::{Cx, esc, seqs};
use crate::rec::*;
use crate::texts::*;

pub fn run(cx: &Cx) {
    crate::eq::run(cx);
    cx.assume("borrowed records are serialised but not deserialised: JSON has no borrowed byte strings");
    for kind in KINDS {
        let c = corpus(kind, true);
        cx.space(
            &format!("{kind:?} text forms"),
            "generated corpus of accepted expressions: text form accepted, same behaviour on 14 records x case-ignore; same after JSON",
            c.len() as u64,
            |i, st| {
                let t = &c[i as usize];
                let case = json!({"kind": format!("{kind:?}"), "expression": t});
                st.state();
                st.step();
                let Some(m) = Parsed::new(kind, t) else {
                    st.fail(format!("{kind:?} '{t}' rejected"), case);
                    return;
                };
                let b = m.behave();
                let d = m.text();
                let Some(m2) = Parsed::new(kind, &d) else {
                    st.fail(format!("{kind:?} '{t}': text form '{d}' rejected"), case);
                    return;
                };
                st.step();
                if m2.behave() != b {
                    st.fail(format!("{kind:?} '{t}': text form '{d}' behaves differently"), case);
                    return;
                }
                let Some(js) = m.json() else {
                    st.fail(format!("{kind:?} '{t}' cannot be serialised"), case);
                    return;
                };
                let Some(m3) = Parsed::from_json(kind, &js) else {
                    st.fail(format!("{kind:?} '{t}': {js} cannot be deserialised"), case);
                    return;
                };
                st.step();
                if m3.behave() != b || !m3.same(&m2) || m3.text() != m2.text() {
                    st.fail(format!("{kind:?} '{t}': {js} is another expression"), case);
                    return;
                }
                st.trace();
                st.outcome(&(t, b));
                st.sample(|| json!({"kind": format!("{kind:?}"), "expression": t, "text": d, "json": js}));
            },
        );
    }
    literals(cx);
    cx.space("malformed documents", "10 malformed expressions of each kind as text and JSON string, and 6 JSON values of other types", 8, |i, st| {
        let kind = KINDS[i as usize];
        for t in rejected(kind) {
            st.state();
            st.step();
            st.trace();
            let js = serde_json::to_string(t).unwrap();
            if Parsed::new(kind, t).is_some() || Parsed::from_json(kind, &js).is_some() {
                st.fail(format!("{kind:?} '{t}' accepted"), json!({"expression": t}));
            }
            st.outcome(&t);
        }
        for t in ["null", "1", "true", "[]", "{}", "[\"012A?\"]"] {
            st.step();
            if Parsed::from_json(kind, t).is_some() {
                st.fail(format!("{kind:?} {t} accepted"), json!({"json": t}));
            }
        }
        st.sample(|| json!({"kind": format!("{kind:?}")}));
    });

    // records: equality and serialisation
    let tags = ["003@", "012A", "012A/00", "012A/01", "012A/001", "012B"];
    let subs: Vec<Vec<(char, &[u8])>> = vec![
        vec![],
        vec![('a', b"")],
        vec![('a', b"x")],
        vec![('b', b"x")],
        vec![('a', b"x"), ('a', b"x")],
        vec![('a', b"x"), ('b', b"x")],
        vec![('b', b"x"), ('a', b"x")],
        vec![('a', b"\xff")],
        vec![('a', "\u{e4}".as_bytes())],
    ];
    let fields: Vec<MF> = tags
        .iter()
        .flat_map(|t| {
            subs.iter().map(|s| {
                let mut x = f(t, &[]);
                x.subs = s.iter().map(|(c, v)| (*c, v.to_vec())).collect();
                x
            })
        })
        .collect();
    let few: Vec<usize> = vec![0, 2, 11, 13, 20, 31, 40, 52];
    let mut recs: Vec<MR> = fields.iter().map(|x| vec![x.clone()]).collect();
    for s in seqs(few.len(), 2, cx.pick(3, 4)) {
        recs.push(s.iter().map(|k| fields[few[*k]].clone()).collect());
    }
    let bytes: Vec<Vec<u8>> = recs.iter().map(ser).collect();
    let refs: Vec<RecordRef> = bytes.iter().map(|b| RecordRef::from_bytes(b).unwrap()).collect();
    let owned: Vec<Record> = refs.iter().map(|r| Record::from(r.clone())).collect();
    cx.space(
        "equality of records",
        "all pairs of 54 one-field records and all records of 2..=3 (thorough 4) fields over 8: borrowed, owned, mixed, ByteRecord",
        recs.len() as u64,
        |i, st| {
            let i = i as usize;
            let bi = ByteRecord::from_bytes(&bytes[i]).unwrap();
            for j in 0..recs.len() {
                st.state();
                let want = recs[i] == recs[j];
                let mut all = vec![
                    refs[i] == refs[j],
                    refs[i] == owned[j],
                    owned[i] == refs[j],
                ];
                if j % 16 == i % 16 {
                    all.push(bi == ByteRecord::from_bytes(&bytes[j]).unwrap());
                    all.push(bi == ByteRecord::from(refs[j].clone()));
                }
                if recs[i].len() == 1 && recs[j].len() == 1 {
                    let (a, b): (&FieldRef, &FieldRef) = (&refs[i].fields()[0], &refs[j].fields()[0]);
                    let (x, y): (Field, Field) = (a.clone().into(), b.clone().into());
                    all.extend([a == b, x == y, *a == y, x == *b]);
                }
                st.step();
                st.outcome(&want);
                if all.iter().any(|x| *x != want) {
                    st.fail(
                        format!("{} and {}: {all:?}, equal {want}", esc(&bytes[i]), esc(&bytes[j])),
                        json!({"left": esc(&bytes[i]), "right": esc(&bytes[j]), "equal": want}),
                    );
                    return;
                }
            }
            st.trace();
            st.sample(|| json!({"record": esc(&bytes[i])}));
        },
    );
    let parts_t = ["003@", "012A", "012B", "112A", "212A"];
    let parts_o = ["00", "01", "10", "001", "010"];
    cx.space("equality and serialisation of parts", "all pairs of 5 tags, 5 occurrences, 54 subfields", 1, |_, st| {
        let mut check = |ok: bool, what: String| {
            st.state();
            st.step();
            st.trace();
            st.outcome(&what);
            if !ok {
                st.fail(what.clone(), json!({"case": what}));
            }
        };
        for a in parts_t {
            for b in parts_t {
                let (ra, rb) = (TagRef::new(a).unwrap(), TagRef::new(b).unwrap());
                let (oa, ob) = (Tag::from(ra.clone()), Tag::from(rb.clone()));
                let w = a == b;
                check(
                    [ra == rb, oa == ob, ra == ob, oa == rb, ra == b, oa == b].iter().all(|x| *x == w)
                        && oa.to_string() == a
                        && ra.to_string() == a,
                    format!("tags {a} {b}"),
                );
                let js = serde_json::to_string(&oa).unwrap();
                check(
                    serde_json::from_str::<Tag>(&js).is_ok_and(|t| t == oa)
                        && serde_json::to_string(&ra).unwrap() == js,
                    format!("tag {a} as JSON"),
                );
            }
        }
        for a in parts_o {
            for b in parts_o {
                let (ra, rb) = (OccurrenceRef::new(a).unwrap(), OccurrenceRef::new(b).unwrap());
                let (oa, ob) = (Occurrence::from(ra.clone()), Occurrence::from(rb.clone()));
                let w = a == b;
                check(
                    [ra == rb, oa == ob, ra == ob, ra == b, oa == b].iter().all(|x| *x == w)
                        && oa.as_bytes() == a.as_bytes(),
                    format!("occurrences {a} {b}"),
                );
                let js = serde_json::to_string(&oa).unwrap();
                check(
                    serde_json::from_str::<Occurrence>(&js).is_ok_and(|t| t == oa)
                        && serde_json::to_string(&ra).unwrap() == js,
                    format!("occurrence {a} as JSON"),
                );
            }
        }
        let all: Vec<(char, &[u8])> = "abXZ09"
            .chars()
            .flat_map(|c| [&b""[..], b"x", b"y", b"xy", b"\xff", b"'\""].into_iter().map(move |v| (c, v)))
            .collect();
        let bs: Vec<Vec<u8>> = all.iter().map(|(c, v)| [&[0x1f, *c as u8], *v].concat()).collect();
        for i in 0..all.len() {
            for j in 0..all.len() {
                let (a, b) = (SubfieldRef::from_bytes(&bs[i]).unwrap(), SubfieldRef::from_bytes(&bs[j]).unwrap());
                let (x, y) = (Subfield::from(a.clone()), Subfield::from(b.clone()));
                check(
                    [a == b, x == y, a == y].iter().all(|e| *e == (all[i] == all[j])),
                    format!("subfields {:?} {:?}", esc(&bs[i]), esc(&bs[j])),
                );
                check(
                    (a.value() == b.value()) == (all[i].1 == all[j].1)
                        && (x.value() == b.value()) == (all[i].1 == all[j].1)
                        && (a.value() == y.value()) == (all[i].1 == all[j].1)
                        && (a.code() == b.code()) == (all[i].0 == all[j].0),
                    format!("parts of {:?} {:?}", esc(&bs[i]), esc(&bs[j])),
                );
            }
            let x = Subfield::from(SubfieldRef::from_bytes(&bs[i]).unwrap());
            let js = serde_json::to_string(&x).unwrap();
            check(
                serde_json::from_str::<Subfield>(&js).is_ok_and(|t| t == x),
                format!("{js} as JSON"),
            );
        }
        st.sample(|| json!({"parts": "all"}));
    });
    cx.space("serialisation of records", "the same records: owned JSON round trip, borrowed JSON equals owned JSON", recs.len() as u64, |i, st| {
        let i = i as usize;
        st.state();
        st.step();
        let js = serde_json::to_string(&owned[i]).unwrap();
        let jr = serde_json::to_string(&refs[i]).unwrap();
        let mut back = vec![];
        let ok = match serde_json::from_str::<Record>(&js) {
            Ok(r) => {
                r.write_to(&mut back).unwrap();
                r == refs[i] && back == bytes[i]
            }
            Err(_) => false,
        };
        if !ok || jr != js {
            st.fail(format!("{} -> {js} -> {}", esc(&bytes[i]), esc(&back)), json!({"record": esc(&bytes[i]), "json": js, "borrowed": jr}));
        }
        for cut in 1..js.len() {
            if serde_json::from_str::<Record>(&js[..cut]).is_ok() {
                st.fail(format!("truncated {} accepted", &js[..cut]), json!({"json": &js[..cut]}));
                return;
            }
            if cut > 200 {
                break;
            }
        }
        st.trace();
        st.outcome(&js);
        st.sample(|| json!({"record": esc(&bytes[i]), "json": js}));
    });
}

/// Text forms of expressions with all kinds of strings.
fn literals(cx: &Cx) {
    // (in single quotes, in double quotes, value)
    let frags = [
        ("x", "x", "x"),
        (" ", " ", " "),
        ("  ", "  ", "  "),
        ("\t", "\t", "\t"),
        ("\u{e4}", "\u{e4}", "\u{e4}"),
        ("\\'", "'", "'"),
        ("\"", "\\\"", "\""),
        ("\\\\", "\\\\", "\\"),
        ("\\n", "\\n", "\n"),
        ("\\t", "\\t", "\t"),
        ("\\ \n", "\\ \n", ""),
        ("}", "}", "}"),
        ("|", "|", "|"),
        (")", ")", ")"),
        (",", ",", ","),
        ("&&", "&&", "&&"),
    ];
    let places: [(Kind, &str); 23] = [
        (Kind::Sub, "a == S"),
        (Kind::Sub, "ALL a in ['q', S]"),
        (Kind::Sub, " a =? S "),
        (Kind::Sub, "a not in[S]"),
        (Kind::Sub, "!(a =^ S) && a?"),
        (Kind::Sub, "(a =$ S) || b == S"),
        (Kind::Field, "012A.a == S"),
        (Kind::Field, "ALL 012A{ a == S }"),
        (Kind::Field, "#012A{a == S}  >=  1"),
        (Kind::Field, "!012A{a == S || b == S}"),
        (Kind::Record, "012A.a == S && (012A? || 013A?)"),
        (Kind::Record, "(012A$a == S)"),
        (Kind::Path, "012A{a | a == S}"),
        (Kind::Path, "012A{ (a, b) | a in [S] }"),
        (Kind::Query, "S"),
        (Kind::Query, "012A.a ,  S"),
        (Kind::Query, "S, 012A{a, b | a == S}"),
        (Kind::Query, "012A{S a}"),
        (Kind::Format, "012A{S a}"),
        (Kind::Format, "012A{ a S }"),
        (Kind::Format, "012A{a | a == S}"),
        (Kind::Format, "012A{(?t S a <*> b S)}"),
        (Kind::Format, "012A{a <$>   (b S)}"),
    ];
    let ss = seqs(frags.len(), 0, cx.pick(3, 4));
    cx.space(
        "strings in text forms",
        "all strings of 0..=3 (thorough 4) of 16 fragments (blanks, tabs, escapes, quotes, delimiters) in both quotes at 23 places of all kinds: the text form and the JSON form denote the same, on records with the string, its trimmed and its squeezed form",
        ss.len() as u64 * 2,
        |i, st| {
            let q = i % 2;
            let s = &ss[i as usize / 2];
            let lit: String = if q == 0 {
                format!("'{}'", s.iter().map(|k| frags[*k].0).collect::<String>())
            } else {
                format!("\"{}\"", s.iter().map(|k| frags[*k].1).collect::<String>())
            };
            let val: String = s.iter().map(|k| frags[*k].2).collect();
            let forms = [
                val.clone(),
                val.trim().to_string(),
                val.split_whitespace().collect::<Vec<_>>().join(" "),
                val.replace(' ', ""),
                lit[1..lit.len() - 1].to_string(),
                "z".into(),
            ];
            let bytes: Vec<Vec<u8>> = forms
                .iter()
                .map(|v| {
                    let mut x = f("012A", &["a", "bz"]);
                    x.subs[0].1 = v.clone().into_bytes();
                    ser(&vec![x])
                })
                .collect();
            let recs: Vec<RecordRef> = bytes.iter().map(|b| RecordRef::from_bytes(b).unwrap()).collect();
            for (kind, p) in places {
                let t = p.replace('S', &lit);
                let case = json!({"kind": format!("{kind:?}"), "expression": t});
                st.state();
                st.step();
                let Some(m) = Parsed::new(kind, &t) else {
                    st.fail(format!("{kind:?} '{t}' rejected"), case);
                    return;
                };
                let b = m.behave_on(&recs);
                let d = m.text();
                let ok = Parsed::new(kind, &d).is_some_and(|m| m.behave_on(&recs) == b);
                let js = m.json().and_then(|j| Parsed::from_json(kind, &j));
                if !ok || !js.is_some_and(|m| m.behave_on(&recs) == b) {
                    st.fail(format!("{kind:?} '{t}': text form '{d}' is another expression"), case);
                    return;
                }
                st.trace();
                st.outcome(&b);
            }
        },
    );
}
