//! C01: acceptance and contents of records (conformance of the parser
//! with the record automaton, W-method).
use std::str::FromStr;

use pica_record::primitives::*;
use pica_record::{ByteRecord, StringRecord};
use serde_json::json;

use crate::cx::{Cx, Radix, St, esc, seqs};
use crate::rec::{self, MF, MR};

/// Access sequences: every state of the automaton is reached, some of
/// them in different surroundings.
fn access() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        "", "0", "00", "003", "003@", "003@/", "003@/0", "003@/01",
        "003@/012", "003@ ", "003@ \x1f", "003@ \x1fa", "003@ \x1e",
        "003@ \x1e\n", "003@ \x1e\nx", "x", "2", "29", "299", "299Z",
        "003@/00 \x1f0", "003@ \x1fa\u{fc}\x1fb", "003@ \x1fa\x1f",
        "003@ \x1faX\x1e203@/99", "003@ \x1faX\x1e2", "003@ \x1e003@ ",
        "012A/00 \x1faa\x1fbb\x1fcc\x1e101@ \x1fa1\x1e",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    let mut long = b"003@ \x1fa".to_vec();
    long.extend(vec![b'v'; 5000]);
    v.push(long);
    v
}

/// A suffix per state that leads to acceptance.
const SUFFIX: [&str; 14] = [
    "",
    "\n",
    "\x1e\n",
    "a\x1e\n",
    " \x1e\n",
    "1 \x1e\n",
    "11 \x1e\n",
    "@ \x1e\n",
    "3@ \x1e\n",
    "03@ \x1e\n",
    "003@ \x1e\n",
    "\x1fa\x1e\n",
    "/01 \x1fa\x1e\n",
    "\x1f0v\x1e112A/001 \x1fzW\x1f9\x1e\n",
];

fn check(s: &[u8], st: &mut St) {
    st.state();
    let want = rec::parse(s);
    let got = ByteRecord::from_bytes(&s);
    st.trace();
    match (&want, got) {
        (None, Ok(_)) => st.fail(
            format!("malformed record accepted: {}", esc(s)),
            json!({"input": esc(s), "expected": "rejected"}),
        ),
        (Some(_), Err(_)) => st.fail(
            format!("well-formed record rejected: {}", esc(s)),
            json!({"input": esc(s), "expected": "accepted"}),
        ),
        (None, Err(_)) => {
            st.outcome(&0);
        }
        (Some(m), Ok(r)) => {
            if let Err(e) = rec::same(&r, m) {
                st.fail(
                    format!("wrong contents of {}: {e}", esc(s)),
                    json!({"input": esc(s), "difference": e}),
                );
            }
            let utf8 = rec::utf8(m);
            if r.validate().is_ok() != utf8
                || StringRecord::try_from(r).is_ok() != utf8
            {
                st.fail(
                    format!("text record iff UTF-8 fails: {}", esc(s)),
                    json!({"input": esc(s), "utf8": utf8}),
                );
            }
            st.outcome(m);
            st.sample(|| json!({"input": esc(s), "fields": m.len()}));
        }
    }
}

fn tag_ok(b: &[u8]) -> bool {
    b.len() == 4
        && (b'0'..=b'2').contains(&b[0])
        && b[1].is_ascii_digit()
        && b[2].is_ascii_digit()
        && (b[3].is_ascii_uppercase() || b[3] == b'@')
}

fn occ_ok(b: &[u8]) -> bool {
    (b.len() == 2 || b.len() == 3) && b.iter().all(u8::is_ascii_digit)
}

fn check_tag(b: &[u8], st: &mut St) {
    st.state();
    let want = tag_ok(b);
    let mut got = vec![("from_bytes", TagRef::from_bytes(b).is_ok())];
    if let Ok(s) = std::str::from_utf8(b) {
        got.push(("TagRef::new", TagRef::new(s).is_ok()));
        got.push(("Tag::new", Tag::new(s).is_ok()));
        if want {
            let t = TagRef::new(s).unwrap();
            let o = Tag::new(s).unwrap();
            let lvl = match b[0] {
                b'0' => Level::Main,
                b'1' => Level::Local,
                _ => Level::Copy,
            };
            let mut w = vec![];
            t.write_to(&mut w).unwrap();
            let mut w2 = vec![];
            o.write_to(&mut w2).unwrap();
            if t.level() != lvl
                || t.to_string() != s
                || o.to_string() != s
                || o.as_bytes() != b
                || w != b
                || w2 != b
                || (0..4).any(|i| t[i] != b[i])
            {
                st.fail(format!("tag {s}"), json!({"tag": s}));
            }
        }
    }
    st.trace();
    for (n, g) in got {
        if g != want {
            st.fail(
                format!("{n}({}) accepted={g}", esc(b)),
                json!({"constructor": n, "input": esc(b), "expected": want}),
            );
        }
    }
    st.outcome(&want);
    st.sample(|| json!({"tag": esc(b), "accepted": want}));
}

fn check_occ(b: &[u8], st: &mut St) {
    st.state();
    let want = occ_ok(b);
    let mut got =
        vec![("from_bytes", OccurrenceRef::from_bytes(b).is_ok())];
    if let Ok(s) = std::str::from_utf8(b) {
        got.push(("OccurrenceRef::new", OccurrenceRef::new(s).is_ok()));
        got.push(("Occurrence::new", Occurrence::new(s).is_ok()));
        if want
            && (OccurrenceRef::new(s).unwrap().as_bytes() != b
                || Occurrence::new(s).unwrap().as_bytes() != b)
        {
            st.fail(format!("occurrence {s}"), json!({"occurrence": s}));
        }
    }
    st.trace();
    for (n, g) in got {
        if g != want {
            st.fail(
                format!("{n}({}) accepted={g}", esc(b)),
                json!({"constructor": n, "input": esc(b), "expected": want}),
            );
        }
    }
    st.outcome(&want);
    st.sample(|| json!({"occurrence": esc(b), "accepted": want}));
}

fn check_sub_bytes(b: &[u8], st: &mut St) {
    st.state();
    let want = b.len() >= 2
        && b[0] == 0x1f
        && b[1].is_ascii_alphanumeric()
        && !b[2..].iter().any(|c| *c == 0x1e || *c == 0x1f);
    let got = SubfieldRef::from_bytes(b);
    st.trace();
    if got.is_ok() != want {
        st.fail(
            format!("subfield {} accepted={}", esc(b), got.is_ok()),
            json!({"input": esc(b), "expected": want}),
        );
    } else if let Ok(s) = got
        && (s.code().as_byte() != b[1] || s.value().as_bytes() != &b[2..])
    {
        st.fail(format!("subfield {}", esc(b)), json!({"input": esc(b)}));
    }
    let want_v = !b.iter().any(|c| *c == 0x1e || *c == 0x1f);
    if SubfieldValueRef::from_bytes(b).is_ok() != want_v {
        st.fail(
            format!("value {} accepted={}", esc(b), !want_v),
            json!({"value": esc(b), "expected": want_v}),
        );
    }
    if let Ok(s) = std::str::from_utf8(b)
        && (SubfieldValueRef::new(s).is_ok() != want_v
            || SubfieldValue::new(s).is_ok() != want_v
            || SubfieldRef::new('a', s).is_ok() != want_v
            || Subfield::new('a', s).is_ok() != want_v)
    {
        st.fail(
            format!("value {} accepted={}", esc(b), !want_v),
            json!({"value": esc(b), "expected": want_v}),
        );
    }
    st.outcome(&(want, want_v));
    st.sample(|| json!({"input": esc(b), "subfield": want, "value": want_v}));
}

pub fn run(cx: &Cx) {
    cx.assume("the record automaton in harness/src/rec.rs is the PICA+ grammar of the documentation");
    cx.assume("W-method: an implementation with at most one (thorough: two) states more than the automaton differs on one of the explored strings");
    let acc = access();
    // every state x two bytes x every distinguishing suffix
    cx.space(
        "record: state x byte x byte x suffix",
        "all access sequences x all 256^2 byte pairs x 14 suffixes, and one byte less",
        acc.len() as u64 * 256,
        |i, st| {
            let mut r = Radix(i);
            let b0 = r.take(256) as u8;
            let a = &acc[r.take(acc.len())];
            let mut s = a.clone();
            s.push(b0);
            let n = s.len();
            for suf in SUFFIX {
                s.truncate(n);
                s.extend_from_slice(suf.as_bytes());
                check(&s, st);
                st.step();
            }
            // long access sequences only with one byte
            if a.len() > 1000 && !cx.thorough {
                return;
            }
            for b1 in 0..=255u8 {
                s.truncate(n);
                s.push(b1);
                for suf in SUFFIX {
                    s.truncate(n + 1);
                    s.extend_from_slice(suf.as_bytes());
                    check(&s, st);
                    st.step();
                }
                if st.failed() {
                    return;
                }
            }
        },
    );
    if cx.thorough {
        let acc: Vec<_> =
            acc.iter().filter(|a| a.len() < 1000).take(16).collect();
        cx.space(
            "record: state x three bytes x suffix",
            "16 access sequences x all 256^3 byte triples x 4 suffixes",
            acc.len() as u64 * 65536,
            |i, st| {
                let mut r = Radix(i);
                let b0 = r.take(256) as u8;
                let b1 = r.take(256) as u8;
                let mut s = acc[r.take(acc.len())].clone();
                s.extend([b0, b1]);
                let n = s.len();
                for b2 in 0..=255u8 {
                    for suf in ["", "\n", "\x1e\n", " \x1e\n"] {
                        s.truncate(n);
                        s.push(b2);
                        s.extend_from_slice(suf.as_bytes());
                        check(&s, st);
                        st.step();
                    }
                    if st.failed() {
                        return;
                    }
                }
            },
        );
    }

    // structures: all small records, and each with one byte damaged
    let fields: Vec<MF> = vec![
        rec::f("003@", &["0123"]),
        rec::f("012A/00", &[]),
        rec::f("101@", &["a", "b\u{fc}"]),
        rec::f("299Z/999", &["Zx", "9", "a\n\r\t\0"]),
        MF {
            tag: "045E/01".into(),
            occ: None,
            subs: vec![('a', vec![0xff, 0xfe]), ('b', vec![0xc3])],
        },
    ]
    .into_iter()
    .map(|mut f| {
        f.tag.truncate(4);
        f
    })
    .collect();
    let combos = seqs(fields.len(), 1, cx.pick(3, 4));
    cx.space(
        "record: structures and single byte damages",
        "all sequences of 1..=3 (thorough 4) fields over 5 shapes; each byte replaced by 12 values, deleted or duplicated",
        combos.len() as u64,
        |i, st| {
            let m: MR =
                combos[i as usize].iter().map(|k| fields[*k].clone()).collect();
            let s = rec::ser(&m);
            check(&s, st);
            for p in 0..s.len() {
                let mut t = s.clone();
                t.remove(p);
                check(&t, st);
                let mut t = s.clone();
                t.insert(p, s[p]);
                check(&t, st);
                for b in [0u8, 0x1e, 0x1f, b'\n', b'\r', b' ', b'/', b'0', b'3', b'@', b'a', 0x80] {
                    let mut t = s.clone();
                    t[p] = b;
                    check(&t, st);
                    st.step();
                }
            }
        },
    );

    // sizes
    let sizes: Vec<usize> = vec![
        0, 1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 999, 1000, 4095,
        4096, 4097, 8191, 8192, 8193, 65534, 65535, 65536, 65537, 262145,
        1 << 20,
    ];
    let ns = sizes.len();
    cx.space(
        "record: size boundaries",
        "values, subfield counts, field counts at powers of two +-1 up to 2^20; damage at begin, middle, end",
        (ns * 3 * 4) as u64,
        |i, st| {
            let mut r = Radix(i);
            let damage = r.take(4);
            let kind = r.take(3);
            let n = sizes[r.take(ns)];
            if kind != 0 && (n > 70_000 || n == 0) {
                return;
            }
            let m: MR = match kind {
                0 => vec![
                    rec::f("003@", &["0X"]),
                    MF {
                        tag: "012A".into(),
                        occ: None,
                        subs: vec![('a', vec![b'v'; n]), ('b', b"end".to_vec())],
                    },
                ],
                1 => vec![MF {
                    tag: "012A".into(),
                    occ: Some("01".into()),
                    subs: (0..n)
                        .map(|k| ((b'a' + (k % 26) as u8) as char, vec![b'x'; k % 3]))
                        .collect(),
                }],
                _ => (0..n)
                    .map(|k| MF {
                        tag: format!("{}{:02}@", k % 3, k % 100),
                        occ: (k % 2 == 1).then(|| format!("{:02}", k % 100)),
                        subs: vec![('a', format!("{k}").into_bytes())],
                    })
                    .collect(),
            };
            let mut s = rec::ser(&m);
            let l = s.len();
            match damage {
                0 => {}
                1 => s[3] = b'x',
                2 => s.truncate(l - 1),
                _ => s[l / 2] = 0x1f,
            }
            if s.len() <= 70_000 {
                check(&s, st);
            } else {
                // error messages of large records are expensive
                check(&s, st);
            }
            st.step();
        },
    );

    // UTF-8
    let ub: Vec<u8> = vec![
        b'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2,
        0xdf, 0xe0, 0xe1, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff,
    ];
    let nb = ub.len();
    let depth = cx.pick(4u32, 5u32);
    cx.space(
        "text records: UTF-8 boundary bytes",
        "all strings of 1..=4 (thorough 5) bytes over the 22 UTF-8 class boundaries, in the first, middle and last of 3x2 subfields",
        (nb as u64).pow(depth),
        |i, st| {
            let mut r = Radix(i);
            let mut v = vec![];
            for _ in 0..depth {
                v.push(ub[r.take(nb)]);
            }
            for pos in [0usize, 3, 5] {
                // the leading ASCII bytes cover shorter strings
                let mut m: MR = vec![];
                for f in 0..3 {
                    let mut subs = vec![];
                    for k in 0..2 {
                        subs.push((
                            'a',
                            if f * 2 + k == pos { v.clone() } else { b"\xc3\xbc".to_vec() },
                        ));
                    }
                    m.push(MF { tag: "012A".into(), occ: None, subs });
                }
                check(&rec::ser(&m), st);
                st.step();
                if i % 7 != 0 {
                    break;
                }
            }
        },
    );
    cx.space(
        "text records: position of the invalid value",
        "one invalid value at each position of records with up to 300 subfields in up to 20 fields",
        20 * 20,
        |i, st| {
            let nf = 1 + i as usize / 20;
            let nsub = 1 + i as usize % 20;
            for pos in 0..nf * nsub {
                let m: MR = (0..nf)
                    .map(|f| MF {
                        tag: "012A".into(),
                        occ: None,
                        subs: (0..nsub)
                            .map(|k| {
                                (
                                    'a',
                                    if f * nsub + k == pos {
                                        vec![b'x', 0xc3]
                                    } else {
                                        b"x".to_vec()
                                    },
                                )
                            })
                            .collect(),
                    })
                    .collect();
                check(&rec::ser(&m), st);
                st.step();
            }
        },
    );

    // constructors
    cx.space(
        "tags",
        "each position any byte; all strings of up to 5 over an alphabet; all 8100 tags",
        1,
        |_, st| {
            let base = *b"012A";
            for p in 0..4 {
                for b in 0..=255u8 {
                    let mut t = base;
                    t[p] = b;
                    check_tag(&t, st);
                    for q in 0..4 {
                        for b2 in [b'0', b'2', b'3', b'9', b'@', b'A', b'Z', b'[', b'a', b' ', 0xc3] {
                            let mut t = t;
                            t[q] = b2;
                            check_tag(&t, st);
                            st.step();
                        }
                    }
                }
            }
            for s in seqs(6, 0, 5) {
                let t: Vec<u8> = s.iter().map(|k| b"02A@/ "[*k]).collect();
                check_tag(&t, st);
                st.step();
            }
            for a in 0..3 {
                for b in 0..10 {
                    for c in 0..10 {
                        for d in "ABCDEFGHIJKLMNOPQRSTUVWXYZ@".chars() {
                            check_tag(format!("{a}{b}{c}{d}").as_bytes(), st);
                            st.step();
                        }
                    }
                }
            }
            for (s, l) in [
                ("main", Some(Level::Main)),
                ("local", Some(Level::Local)),
                ("copy", Some(Level::Copy)),
                ("", None),
                ("Main", None),
                ("copy ", None),
                ("0", None),
            ] {
                if Level::from_str(s).ok() != l {
                    st.fail(format!("level {s}"), json!({"level": s}));
                }
            }
        },
    );
    cx.space(
        "occurrences",
        "all strings of up to 4 over 12 bytes; each position any byte; all of 1..4 digits",
        1,
        |_, st| {
            for s in seqs(12, 0, 4) {
                let t: Vec<u8> =
                    s.iter().map(|k| b"0159:/aA \n\xb2-"[*k]).collect();
                check_occ(&t, st);
                st.step();
            }
            for l in 1..=4usize {
                for n in 0..10usize.pow(l as u32) {
                    check_occ(format!("{n:0l$}").as_bytes(), st);
                    st.step();
                }
                for p in 0..l {
                    for b in 0..=255u8 {
                        let mut t = vec![b'1'; l];
                        t[p] = b;
                        check_occ(&t, st);
                        st.step();
                    }
                }
            }
        },
    );
    cx.space(
        "subfield codes",
        "all Unicode scalar values",
        0x110,
        |i, st| {
            for k in 0..0x1000u32 {
                let Some(c) = char::from_u32(i as u32 * 0x1000 + k) else {
                    continue;
                };
                st.state();
                st.step();
                let want = c.is_ascii_alphanumeric();
                let got = SubfieldCode::new(c);
                let got2 = SubfieldRef::new(c, "v");
                let got3 = Subfield::new(c, "v");
                let got4 = FieldRef::new("003@", None, vec![(c, "v")]);
                st.trace();
                if got.is_ok() != want
                    || got2.is_ok() != want
                    || got3.is_ok() != want
                    || got4.is_ok() != want
                    || got.is_ok_and(|g| g != c || g.as_byte() as u32 != c as u32)
                {
                    st.fail(format!("code {c:?}"), json!({"code": c as u32}));
                }
                st.outcome(&want);
            }
            st.sample(|| json!({"codes": format!("U+{:06x}..", i * 0x1000)}));
        },
    );
    cx.space(
        "subfields and values",
        "all byte strings of up to 3 bytes",
        65536 + 257,
        |i, st| {
            if i < 65536 {
                for b in 0..=255u8 {
                    check_sub_bytes(&[(i >> 8) as u8, i as u8, b], st);
                    check_sub_bytes(&[0x1f, (i >> 8) as u8, i as u8, b], st);
                    st.step();
                }
                check_sub_bytes(&[(i >> 8) as u8, i as u8], st);
            } else if i < 65536 + 256 {
                check_sub_bytes(&[(i - 65536) as u8], st);
            } else {
                check_sub_bytes(&[], st);
            }
        },
    );
    let tags = ["003@", "299Z", "303@", "03@", "003@ ", "003a"];
    let occs = [None, Some("01"), Some("999"), Some("1"), Some("1234"), Some("0a"), Some("")];
    let codes = ['0', 'a', 'Z', '!', '\u{e4}'];
    let vals = ["", "x", "\u{fc}\n", "a\x1eb", "\x1f"];
    let subs = seqs(codes.len() * vals.len(), 0, 2);
    cx.space(
        "fields and records built from parts",
        "tags x occurrences x up to two subfields over codes x values; records of such fields",
        (tags.len() * occs.len() * subs.len()) as u64,
        |i, st| {
            let mut r = Radix(i);
            let t = *r.of(&tags);
            let o = *r.of(&occs);
            let sv: Vec<(char, &str)> = r
                .of(&subs)
                .iter()
                .map(|k| (codes[k % codes.len()], vals[k / codes.len()]))
                .collect();
            let want = tag_ok(t.as_bytes())
                && o.is_none_or(|o| occ_ok(o.as_bytes()))
                && sv.iter().all(|(c, v)| {
                    c.is_ascii_alphanumeric() && !v.contains(['\x1e', '\x1f'])
                });
            st.state();
            let a = FieldRef::new(t, o, sv.clone());
            let b = Field::new(t, o, sv.clone());
            let c = RecordRef::new(vec![("003@", None, vec![('0', "1")]), (t, o, sv.clone())]);
            st.trace();
            if a.is_ok() != want || b.is_ok() != want || c.is_ok() != want {
                st.fail(
                    format!("field {t} {o:?} {sv:?}: expected accepted={want}"),
                    json!({"tag": t, "occurrence": o, "subfields": format!("{sv:?}")}),
                );
            } else if want {
                let m = MF {
                    tag: t.into(),
                    occ: o.map(String::from),
                    subs: sv.iter().map(|(c, v)| (*c, v.as_bytes().to_vec())).collect(),
                };
                let a = a.unwrap();
                let mut s = vec![];
                m.ser(&mut s);
                let mut w1 = vec![];
                a.write_to(&mut w1).unwrap();
                let mut w2 = vec![];
                b.unwrap().write_to(&mut w2).unwrap();
                let full = vec![rec::f("003@", &["01"]), m.clone()];
                if w1 != s
                    || w2 != s
                    || FieldRef::from_bytes(&s).ok().as_ref() != Some(&a)
                    || rec::same(&c.unwrap(), &full).is_err()
                    || codes.iter().any(|k| {
                        a.contains(*k) != m.subs.iter().any(|(c, _)| c == k)
                            || a.find(|s| s.code() == *k).map(|s| s.value().as_bytes().to_vec())
                                != m.subs.iter().find(|(c, _)| c == k).map(|(_, v)| v.clone())
                    })
                {
                    st.fail(format!("field {t} {o:?} {sv:?}"), json!({"field": esc(&s)}));
                }
                for extra in [&b"\n"[..], b" ", b"0", b"\x1e"] {
                    let mut x = s.clone();
                    x.extend_from_slice(extra);
                    if FieldRef::from_bytes(&x).is_ok()
                        || FieldRef::from_bytes(&s[..s.len() - 1]).is_ok()
                    {
                        st.fail("malformed field accepted", json!({"field": esc(&x)}));
                    }
                }
                st.outcome(&s);
                st.sample(|| json!({"field": esc(&s)}));
            }
            st.step();
        },
    );
    crate::long::lib(cx);
}
