//! C11: paths.
use pica_record::StringRecord;
use pica_record::prelude::*;
use pica_record::primitives::RecordRef;
use serde_json::json;

use crate::cx::{Cx, Radix, esc, seqs};
use crate::expr::*;
use crate::rec::*;

/// Conditions in curly braces with their meaning.
pub type Cond = (&'static str, fn(&[Sub]) -> bool);
fn has(s: &[Sub], c: char) -> bool {
    s.iter().any(|x| x.0 == c)
}
fn val(s: &[Sub], c: char, v: &str) -> bool {
    s.iter().any(|x| x.0 == c && x.1 == v.as_bytes())
}
pub const CONDS: [Cond; 9] = [
    ("", |_| true),
    ("b?", |s| has(s, 'b')),
    ("!b?", |s| !has(s, 'b')),
    ("a == 'x'", |s| val(s, 'a', "x")),
    ("ALL a == 'x'", |s| s.iter().all(|x| x.0 != 'a' || x.1 == b"x")),
    ("a == 'x' && b?", |s| val(s, 'a', "x") && has(s, 'b')),
    ("(a == 'y' || !(b?))", |s| val(s, 'a', "y") || !has(s, 'b')),
    ("a? ^ b == 'y'", |s| has(s, 'a') != val(s, 'b', "y")),
    ("#a > 1", |s| s.iter().filter(|x| x.0 == 'a').count() > 1),
];

/// Values selected by a path.
pub fn eval<'a>(r: &'a MR, tag: &str, occ: &str, codes_: &[&str], cond: Cond) -> Vec<&'a [u8]> {
    field_sel(r, tag, occ)
        .into_iter()
        .filter(|f| cond.1(&f.subs))
        .flat_map(|f| f.subs.iter())
        .filter(|(c, _)| codes_.iter().any(|s| codes(s, *c)))
        .map(|(_, v)| v.as_slice())
        .collect()
}

pub fn alpha() -> Vec<MF> {
    [
        ("003@", vec!["0p"]),
        ("003@", vec!["aq", "0r", "0s"]),
        ("012A", vec![]),
        ("012A", vec!["ax", "by"]),
        ("012A/00", vec!["by", "ax", "ay"]),
        ("012A/01", vec!["ax", "ax", "c\u{e4}", "b"]),
        ("012A/02", vec!["b", "Xz"]),
        ("012A/011", vec!["ay"]),
        ("012B", vec!["ax", "by"]),
        ("212A/01", vec!["bx"]),
    ]
    .iter()
    .map(|(t, s)| f(t, s))
    .collect()
}

pub fn records(max: usize) -> Vec<MR> {
    let a = alpha();
    seqs(a.len(), 1, max).iter().map(|s| s.iter().map(|k| a[*k].clone()).collect()).collect()
}

/// Recogniser of paths without blanks.
struct P<'a>(&'a [u8], usize);
impl P<'_> {
    fn peek(&self) -> u8 {
        *self.0.get(self.1).unwrap_or(&0)
    }
    fn eat(&mut self, s: &str) -> bool {
        let ok = self.0[self.1..].starts_with(s.as_bytes());
        if ok {
            self.1 += s.len();
        }
        ok
    }
    fn codes(&mut self) -> bool {
        if self.eat("*") {
            return true;
        }
        if self.eat("[") {
            // the alphabet has no ranges
            let mut n = 0;
            while self.peek().is_ascii_alphanumeric() {
                self.1 += 1;
                n += 1;
            }
            return n > 0 && self.eat("]");
        }
        let ok = self.peek().is_ascii_alphanumeric();
        self.1 += 1;
        ok
    }
    fn compat(&mut self) -> bool {
        if self.eat("*") {
            return true;
        }
        let mut n = 0;
        while self.peek().is_ascii_alphanumeric() {
            self.1 += 1;
            n += 1;
        }
        n > 0
    }
    fn item(&mut self) -> bool {
        if self.eat("$") { self.compat() } else { self.codes() }
    }
    fn items(&mut self) -> bool {
        loop {
            if !self.item() {
                return false;
            }
            if !self.eat(",") {
                return true;
            }
        }
    }
    fn or(&mut self) -> bool {
        loop {
            let ok = if self.eat("(") {
                self.or() && self.eat(")")
            } else {
                self.codes() && self.eat("?")
            };
            if !ok {
                return false;
            }
            if !self.eat("||") {
                return true;
            }
        }
    }
    fn path(&mut self) -> bool {
        if !self.eat("012A") {
            return false;
        }
        self.eat("/01");
        let ok = if self.eat(".") {
            self.codes()
        } else if self.eat("$") {
            self.compat()
        } else if self.eat("{") {
            let list = if self.eat("(") { self.items() && self.eat(")") } else { self.items() };
            list && (!self.eat("|") || self.or()) && self.eat("}")
        } else {
            false
        };
        ok && self.1 == self.0.len()
    }
}

pub fn run(cx: &Cx) {
    let recs = records(cx.pick(3, 4));
    let bytes: Vec<Vec<u8>> = recs.iter().map(ser).collect();
    let tags = ["012A", "....", ".12A", "012[AB]", "003@"];
    let occs = ["", "/00", "/*", "/01", "/01-02", "/011"];
    let sets: Vec<Vec<&str>> = vec![
        vec!["a"],
        vec!["*"],
        vec!["[ab]"],
        vec!["[a-cX]"],
        vec!["0"],
        vec!["a", "b"],
        vec!["b", "a"],
        vec!["a", "a"],
        vec!["[ab]", "c", "*"],
    ];
    let n = tags.len() * occs.len() * sets.len() * CONDS.len();
    let o = MatcherOptions::default();
    cx.space(
        "paths x records",
        "5 tag x 6 occurrence patterns x 9 lists of code sets x 9 conditions, all notations x all records of 1..=3 (thorough 4) fields over 10; text records, first value",
        n as u64,
        |i, st| {
            let mut r = Radix(i);
            let tag = *r.of(&tags);
            let occ = *r.of(&occs);
            let set = r.of(&sets);
            let cond = *r.of(&CONDS);
            let mut txts = vec![];
            let l = set.join(", ");
            let compat: Option<Vec<String>> = set
                .iter()
                .map(|s| match *s {
                    "[a-cX]" => None,
                    s => Some(format!("${}", s.trim_matches(['[', ']']))),
                })
                .collect();
            if cond.0.is_empty() {
                if set.len() == 1 {
                    txts.push(format!("{tag}{occ}.{l}"));
                    txts.push(format!(" {tag}{occ}.{l}\n"));
                    if let Some(c) = &compat {
                        txts.push(format!("{tag}{occ}{}", c[0]));
                        txts.push(format!("{tag}{occ} $ {} ", &c[0][1..]));
                    }
                }
                txts.push(format!("{tag}{occ}{{{}}}", set.join(",")));
                txts.push(format!("{tag}{occ} {{ ( {} ) }} ", set.join(" , ")));
                if let Some(c) = &compat {
                    txts.push(format!("{tag}{occ}{{{}}}", c.join(",")));
                    txts.push(format!("{tag}{occ}{{({})}}", c.join(" , ")));
                }
            } else {
                txts.push(format!("{tag}{occ}{{{}|{}}}", set.join(","), cond.0));
                txts.push(format!("{tag}{occ} {{ ({l}) | {} }}", cond.0));
                txts.push(format!("{tag}{occ}{{ {l} | ({}) }}", cond.0));
                if let Some(c) = &compat {
                    txts.push(format!("{tag}{occ}{{{}|{}}}", c.join(", "), cond.0));
                }
            }
            let mut ps = vec![];
            for t in &txts {
                match Path::new(t) {
                    Ok(p) => ps.push(p),
                    Err(_) => {
                        st.fail(format!("path '{t}' rejected"), json!({"path": t}));
                        return;
                    }
                }
                if t.parse::<Path>().is_err() {
                    st.fail(format!("path '{t}' rejected by from_str"), json!({"path": t}));
                }
            }
            for (k, (m, b)) in recs.iter().zip(&bytes).enumerate() {
                st.state();
                let want = eval(m, tag, occ, set, cond);
                let real = RecordRef::from_bytes(b).unwrap();
                let many = if k < 110 || (k as u64) % 8 == i % 8 { ps.len() } else { 1 };
                for (p, t) in ps.iter().zip(&txts).take(many) {
                    st.step();
                    let got: Vec<&[u8]> = real.path(p, &o).map(|v| v.as_ref()).collect();
                    let first: Option<&[u8]> = real.first(p, &o).map(|v| v.as_ref());
                    if got != want || first != want.first().copied() {
                        st.fail(
                            format!("path '{t}' on {}: {:?}", esc(b), got.iter().map(|v| esc(v)).collect::<Vec<_>>()),
                            json!({"path": t, "record": esc(b), "expected": want.iter().map(|v| esc(v)).collect::<Vec<_>>()}),
                        );
                        return;
                    }
                }
                if many > 1 {
                    let s = StringRecord::try_from(ByteRecord::from_bytes(b).unwrap()).unwrap();
                    let got: Vec<&[u8]> = s.path(&ps[0], &o).map(|v| v.as_bytes()).collect();
                    if got != want {
                        st.fail(format!("path '{}' on the text record {}", txts[0], esc(b)), json!({"path": txts[0], "record": esc(b)}));
                        return;
                    }
                }
                st.trace();
                st.outcome(&(i, want));
            }
            st.sample(|| json!({"paths": txts}));
        },
    );

    // identification number
    let ids: Vec<MF> = [
        ("003@", vec![]),
        ("003@", vec!["0a"]),
        ("003@", vec!["0"]),
        ("003@", vec!["ab", "0c", "0d"]),
        ("003@/00", vec!["0e"]),
        ("003@/01", vec!["0f"]),
        ("003A", vec!["0g"]),
        ("103@", vec!["0h"]),
    ]
    .iter()
    .map(|(t, s)| f(t, s))
    .collect();
    let ss = seqs(ids.len(), 0, cx.pick(5, 6));
    cx.space("identification number", "all records of 0..=5 (thorough 6) fields over 8 around 003@ $0", ss.len() as u64, |i, st| {
        let mut m: MR = ss[i as usize].iter().map(|k| ids[*k].clone()).collect();
        m.insert(0, f("002@", &["0X"]));
        let b = ser(&m);
        st.state();
        st.step();
        let want = m
            .iter()
            .filter(|f| f.tag == "003@" && f.occ.as_deref().is_none_or(|o| o == "00"))
            .flat_map(|f| f.subs.iter())
            .find(|s| s.0 == '0')
            .map(|s| s.1.clone());
        let r = ByteRecord::from_bytes(&b).unwrap();
        let got = r.ppn().map(|v| v.to_vec());
        let s = StringRecord::try_from(ByteRecord::from_bytes(&b).unwrap()).unwrap();
        let got2 = s.ppn().map(|v| v.as_bytes().to_vec());
        if got != want || got2 != want {
            st.fail(format!("ppn of {}: {got:?} {got2:?}", esc(&b)), json!({"record": esc(&b), "expected": want}));
        }
        st.trace();
        st.outcome(&want);
        st.sample(|| json!({"record": esc(&b)}));
    });

    // matcher options reach the condition
    cx.space("conditions with options", "case-ignore x similarity thresholds in the condition", 2 * 5, |i, st| {
        let mut r = Radix(i);
        let ci = r.bool();
        let th = *r.of(&[0.0, 0.3, 0.5, 0.7, 0.9]);
        let b = ser(&vec![f("012A", &["aXY", "b1"]), f("012A", &["axyz", "b2"]), f("012A", &["axy", "b3"])]);
        let rec = RecordRef::from_bytes(&b).unwrap();
        let m = parse(&b).unwrap();
        let op = Opts { ci, th };
        for (t, c) in [
            ("012A{b | a == 'xy'}", Crit::Rel(Q::Any, "a".into(), "==", b"xy".to_vec())),
            ("012A{b | a =* 'xy'}", Crit::Rel(Q::Any, "a".into(), "=*", b"xy".to_vec())),
            ("012A{b | a =~ '^xy'}", Crit::Rel(Q::Any, "a".into(), "=^", b"xy".to_vec())),
        ] {
            st.state();
            st.step();
            st.trace();
            let p = Path::new(t).unwrap();
            let want: Vec<&[u8]> = m.iter().filter(|f| c.eval(&f.subs, &op)).map(|f| f.subs[1].1.as_slice()).collect();
            let got: Vec<&[u8]> = rec.path(&p, &op.real()).map(|v| v.as_ref()).collect();
            st.outcome(&(t, i, &want));
            if got != want {
                st.fail(format!("{t}, ignore case {ci}, threshold {th}: {got:?}"), json!({"path": t, "case_ignore": ci, "threshold": th}));
            }
        }
        st.sample(|| json!({"case_ignore": ci, "threshold": th}));
    });

    // syntax
    let toks = ["012A", "/01", ".", "$", "a", "[ab]", "*", "{", "}", "(", ")", ",", "|", "b?"];
    let len = cx.pick(6, 7);
    let total: u64 = (0..=len).map(|d| 14u64.pow(d as u32)).sum();
    cx.space("path syntax", "all sequences of up to 6 (thorough 7) of 14 tokens after the tag", total, |i, st| {
        let mut k = i;
        let mut d = 0u32;
        while k >= 14u64.pow(d) {
            k -= 14u64.pow(d);
            d += 1;
        }
        let mut r = Radix(k);
        let mut s = String::from("012A");
        for _ in 0..d {
            s.push_str(toks[r.take(14)]);
        }
        st.state();
        st.step();
        let want = P(s.as_bytes(), 0).path();
        let got = Path::new(&s).is_ok();
        if got != want {
            st.fail(format!("path '{s}' accepted={got}"), json!({"path": s, "expected": want}));
        }
        if want {
            st.trace();
            st.outcome(&s);
            st.sample(|| json!({"path": s}));
        }
    });
    crate::long::lib(cx);
}
