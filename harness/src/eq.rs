//! Equality of records and their parts, borrowed and owned, built and
//! parsed: the contents decide.
use std::hash::{BuildHasher, Hash, RandomState};

use pica_record::prelude::*;
use pica_record::primitives::{Field, FieldRef, Occurrence, OccurrenceRef, Record, RecordRef, Subfield, SubfieldCode, SubfieldRef, SubfieldValue, SubfieldValueRef, Tag, TagRef};
use serde_json::json;

use crate::cx::{Cx, St, esc, seqs};
use crate::rec::{MF, MR, ser};

/// Reports those comparisons that differ from `want`.
fn judge(st: &mut St, a: &str, b: &str, want: bool, got: &[(&str, bool)]) {
    st.state();
    st.trace();
    st.outcome(&(a, b, want));
    for (w, g) in got {
        st.step();
        if *g != want {
            st.fail(format!("{w}: '{a}' == '{b}' is {g}"), json!({"comparison": w, "left": a, "right": b, "expected": want}));
            return;
        }
    }
}
/// Equal things have equal hashes.
fn hashes(st: &mut St, s: &RandomState, a: &str, b: &str, x: &impl Hash, y: &impl Hash) {
    if s.hash_one(x) != s.hash_one(y) {
        st.fail(format!("'{a}' and '{b}' are equal but their hashes are not"), json!({"left": a, "right": b}));
    }
}

pub fn run(cx: &Cx) {
    let rs = RandomState::new();
    let tags = ["003@", "003A", "004@", "013@", "103@", "203@", "203A", "012A", "021A", "112A", "200Z"];
    cx.space("equal tags", "all pairs of 11 tags, borrowed and owned, with each other and with strings", 121, |i, st| {
        let (a, b) = (tags[i as usize / 11], tags[i as usize % 11]);
        let (x, y) = (TagRef::new(a).unwrap(), TagRef::from_bytes(b).unwrap());
        let (v, w) = (Tag::new(a).unwrap(), Tag::from(y.clone()));
        let g = [("refs", x == y), ("ref, str", x == b), ("&ref, str", &x == b), ("owned", v == w), ("owned, str", v == b), ("owned, ref", v == y), ("ref, owned", x == w), ("text", x.to_string() == w.to_string())];
        judge(st, a, b, a == b, &g);
        st.sample(|| json!([a, b]));
    });
    let occs: Vec<String> = (0..100).map(|i| format!("{i:02}")).chain([0, 1, 10, 11, 12, 21, 99, 100, 101, 110, 111, 999].iter().map(|i| format!("{i:03}"))).collect();
    let n = occs.len() as u64;
    cx.space("equal occurrences", "all pairs of the 100 short and 12 long occurrences", n * n, |i, st| {
        let (a, b) = (&occs[(i / n) as usize][..], &occs[(i % n) as usize][..]);
        let (x, y) = (OccurrenceRef::new(a).unwrap(), OccurrenceRef::from_bytes(b.as_bytes()).unwrap());
        let (v, w) = (Occurrence::new(a).unwrap(), Occurrence::from(y.clone()));
        let g = [("refs", x == y), ("ref, bytes", x == b.as_bytes()), ("ref, str", x == b), ("owned", v == w), ("owned, str", v == b), ("ref, owned", x == w)];
        judge(st, a, b, a == b, &g);
        st.sample(|| json!([a, b]));
    });
    // values
    let al: [&[u8]; 7] = [b"a", b"A", b"b", b" ", b"\x00", b"\xff", "\u{e4}".as_bytes()];
    let vals: Vec<Vec<u8>> = seqs(al.len(), 0, 2).iter().map(|s| s.iter().flat_map(|k| al[*k].to_vec()).collect()).collect();
    let n = vals.len() as u64;
    cx.space("equal values and subfields", "all pairs of strings of up to two of 7 characters (one not UTF-8) as values, as subfields x all pairs of 5 codes", n * n, |i, st| {
        let (a, b) = (&vals[(i / n) as usize], &vals[(i % n) as usize]);
        let (ea, eb) = (esc(a), esc(b));
        let (x, y) = (SubfieldValueRef::from_bytes(a).unwrap(), SubfieldValueRef::from_bytes(b).unwrap());
        let (v, w) = (SubfieldValue::from(x.clone()), SubfieldValue::from(y.clone()));
        let mut g = vec![("refs", x == y), ("ref, bytes", x == *b), ("owned", v == w), ("owned, bytes", v == *b), ("owned, ref", v == y), ("ref, owned", x == w)];
        if let Ok(s) = std::str::from_utf8(b) {
            g.push(("ref, str", x == *s));
            g.push(("owned, str", v == *s));
            g.push(("ref, new", x == SubfieldValueRef::new(s).unwrap()));
            g.push(("owned, new", v == SubfieldValue::new(s).unwrap()));
        }
        judge(st, &ea, &eb, a == b, &g);
        if a == b {
            hashes(st, &rs, &ea, &eb, &x, &y);
            hashes(st, &rs, &ea, &eb, &v, &w);
        }
        for c in ['a', 'b', 'A', '0', 'z'] {
            let cc = SubfieldCode::new(c).unwrap();
            for d in ['a', 'b', 'A', '0', 'z'] {
                let dc = SubfieldCode::new(d).unwrap();
                let (sa, sb): (Vec<u8>, Vec<u8>) = ([&[0x1f, c as u8], &a[..]].concat(), [&[0x1f, d as u8], &b[..]].concat());
                let (x, y) = (SubfieldRef::from_bytes(&sa).unwrap(), SubfieldRef::from_bytes(&sb).unwrap());
                let (v, w) = (Subfield::from(x.clone()), Subfield::from(y.clone()));
                let want = c == d && a == b;
                judge(st, &esc(&sa), &esc(&sb), want, &[("refs", x == y), ("owned", v == w), ("ref, owned", x == w)]);
                judge(st, &c.to_string(), &d.to_string(), c == d, &[("codes", cc == dc), ("code, char", cc == d), ("&code, char", &cc == d), ("of a subfield", *x.code() == *w.code())]);
                if want {
                    hashes(st, &rs, &ea, &eb, &x, &y);
                    hashes(st, &rs, &ea, &eb, &v, &w);
                }
                let mut it = (&x).into_iter();
                if it.next() != Some(&x) || it.next().is_some() {
                    st.fail("a subfield is not the list of itself".to_string(), json!({"subfield": esc(&sa)}));
                }
            }
        }
        st.sample(|| json!([ea, eb]));
    });
    // fields and records
    let sub = [('a', "x"), ('a', ""), ('b', "x"), ('a', "y")];
    let lists = seqs(sub.len(), 0, 2);
    let mut fields: Vec<MF> = vec![];
    for t in ["012A", "012B", "212A"] {
        for o in [None, Some("01"), Some("001"), Some("02")] {
            for l in &lists {
                fields.push(MF { tag: t.into(), occ: o.map(String::from), subs: l.iter().map(|k| (sub[*k].0, sub[*k].1.as_bytes().to_vec())).collect() });
            }
        }
    }
    let n = fields.len() as u64;
    let text = |f: &MF| {
        let mut b = vec![];
        f.ser(&mut b);
        b
    };
    cx.space("equal fields", "all pairs of fields over 3 tags, 4 occurrences and all lists of up to two of 4 subfields", n * n, |i, st| {
        let (a, b) = (&fields[(i / n) as usize], &fields[(i % n) as usize]);
        let (ba, bb) = (text(a), text(b));
        let (x, y) = (FieldRef::from_bytes(&ba).unwrap(), FieldRef::from_bytes(&bb).unwrap());
        let (v, w) = (Field::from(x.clone()), Field::from(y.clone()));
        judge(st, &esc(&ba), &esc(&bb), ba == bb, &[("refs", x == y), ("owned", v == w), ("owned, ref", v == y), ("ref, owned", x == w)]);
        let mut it = (&x).into_iter();
        if it.next() != Some(&x) || it.next().is_some() {
            st.fail("a field is not the list of itself".to_string(), json!({"field": esc(&ba)}));
        }
        st.sample(|| json!([esc(&ba), esc(&bb)]));
    });
    let alpha: Vec<MF> = [("003@", None, vec![('0', "1")]), ("012A", None, vec![]), ("012A", None, vec![('a', "")]), ("012A", Some("01"), vec![]), ("012A", None, vec![('a', "x"), ('b', "")]), ("012A", None, vec![('b', ""), ('a', "x")])]
        .iter()
        .map(|(t, o, s)| MF { tag: t.to_string(), occ: o.map(String::from), subs: s.iter().map(|(c, v): &(char, &str)| (*c, v.as_bytes().to_vec())).collect() })
        .collect();
    let recs: Vec<MR> = seqs(alpha.len(), 1, cx.pick(3, 4)).iter().map(|s| s.iter().map(|k| alpha[*k].clone()).collect()).collect();
    let n = recs.len() as u64;
    cx.space("equal records", "all pairs of records of up to 3 (thorough 4) fields over 6: borrowed, owned, byte records as read, built from parts and with the one or the other altered and restored", n * n, |i, st| {
        let (ba, bb) = (ser(&recs[(i / n) as usize]), ser(&recs[(i % n) as usize]));
        let (x, y) = (RecordRef::from_bytes(&ba).unwrap(), RecordRef::from_bytes(&bb).unwrap());
        let (v, w) = (Record::from(x.clone()), Record::from(y.clone()));
        let (p, q) = (ByteRecord::from_bytes(&ba).unwrap(), ByteRecord::from_bytes(&bb).unwrap());
        let (r, s) = (ByteRecord::from(x.clone()), ByteRecord::from(y.clone()));
        let mut t = ByteRecord::from_bytes(&bb).unwrap();
        t.retain(|_| true);
        let want = ba == bb;
        judge(st, &esc(&ba), &esc(&bb), want, &[
            ("refs", x == y), ("owned, ref", v == y), ("ref, owned", x == w), ("as read", p == q), ("as read, built", p == s), ("built, as read", r == q), ("built", r == s),
            ("as read, altered", p == t), ("altered, as read", t == p), ("as read, ref", *p == y), ("hashes", p.sha256() == q.sha256()), ("hashes of built ones", r.sha256() == t.sha256()), ("hashes as read and built", p.sha256() == s.sha256()),
        ]);
        if want {
            for (l, m) in [(&p, &q), (&p, &s), (&r, &q), (&r, &s), (&p, &t)] {
                hashes(st, &rs, &esc(&ba), &esc(&bb), l, m);
            }
        }
        let _ = w;
        st.sample(|| json!([esc(&ba), esc(&bb)]));
    });
}
