//! C13: format expressions.
use pica_record::StringRecord;
use pica_record::prelude::*;
use pica_record::primitives::RecordRef;
use serde_json::json;

use crate::c11::CONDS;
use crate::cx::{Cx, Radix, esc, seqs};
use crate::expr::*;
use crate::rec::*;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Mo(pub &'static str);

impl Mo {
    fn has(&self, c: char) -> bool {
        self.0.contains(c)
    }
    pub fn apply(&self, v: Vec<u8>) -> Vec<u8> {
        let mut v = v;
        if self.has('o') {
            v = strip(&v);
        }
        if self.has('t') {
            // characters and invalid bytes
            let mut cs: Vec<(Option<char>, Vec<u8>)> = vec![];
            for ch in v.utf8_chunks() {
                for c in ch.valid().chars() {
                    cs.push((Some(c), c.to_string().into_bytes()));
                }
                if !ch.invalid().is_empty() {
                    cs.push((None, ch.invalid().to_vec()));
                }
            }
            let blank = |x: &(Option<char>, Vec<u8>)| x.0.is_some_and(|c| c.is_whitespace());
            while cs.first().is_some_and(blank) {
                cs.remove(0);
            }
            while cs.last().is_some_and(blank) {
                cs.pop();
            }
            v = cs.into_iter().flat_map(|c| c.1).collect();
        }
        if self.has('w') {
            v.retain(|b| *b != b' ');
        }
        if self.has('l') {
            v = lower(&v);
        }
        if self.has('u') {
            let mut out = vec![];
            for ch in v.utf8_chunks() {
                for c in ch.valid().chars() {
                    let s: String = c.to_uppercase().collect();
                    out.extend_from_slice(s.as_bytes());
                }
                out.extend_from_slice(ch.invalid());
            }
            v = out;
        }
        v
    }
}

fn strip(v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    if let Some(p) = v.iter().position(|b| *b == b'@') {
        v.remove(p);
    }
    v
}

#[derive(Clone, Debug, PartialEq)]
pub enum F {
    Val { mo: Mo, pre: &'static str, codes: &'static str, max: usize, suf: &'static str },
    Grp(Mo, Box<F>),
    And(Vec<F>),
    Cons(Vec<F>),
}

impl F {
    pub fn render(&self, f: &MF, over: bool) -> Vec<u8> {
        match self {
            F::Val { mo, pre, codes: c, max, suf } => {
                let mut out = vec![];
                for (_, v) in f.subs.iter().filter(|s| codes(c, s.0)).take(*max) {
                    out.extend_from_slice(pre.as_bytes());
                    out.extend(if over { strip(v) } else { v.clone() });
                    out.extend_from_slice(suf.as_bytes());
                }
                mo.apply(out)
            }
            F::Grp(mo, f2) => mo.apply(f2.render(f, over)),
            F::And(l) => {
                let mut out = vec![];
                for x in l {
                    let p = x.render(f, over);
                    if p.is_empty() {
                        break;
                    }
                    out.extend(p);
                }
                out
            }
            F::Cons(l) => l.iter().flat_map(|x| x.render(f, over)).collect(),
        }
    }
}

fn value(k: usize) -> (F, &'static str) {
    let v = |mo, pre, codes, max, suf| F::Val { mo: Mo(mo), pre, codes, max, suf };
    match k % 9 {
        0 => (v("", "", "a", 1, ""), "a"),
        1 => (v("", "", "b", usize::MAX, ""), "b.."),
        2 => (v("", "<", "[ac]", 2, ">"), "'<' [ac]..2 '>'"),
        3 => (v("u", "", "a", 1, " "), "?u a' '"),
        4 => (v("", ", ", "*", 3, ""), "\", \" *..3"),
        5 => (v("", "", "c", 1, ""), "c"),
        6 => (v("tl", "", "b", 1, ""), "?lt b"),
        7 => (v("o", "", "[a-c]", usize::MAX, "; "), "?o [a-c].. '; '"),
        _ => (v("", "x", "X", 1, ""), "'x' X"),
    }
}

/// Grammar over the tokens value, '(', '(?u', ')', '<$>', '<*>'.
struct P<'a> {
    t: &'a [usize],
    p: usize,
    rot: usize,
    n: usize,
    taken: bool,
}
impl P<'_> {
    fn peek(&self) -> Option<usize> {
        self.t.get(self.p).copied()
    }
    fn list(&mut self) -> Option<F> {
        let mut v = vec![self.then()?];
        while self.peek() == Some(5) {
            self.p += 1;
            v.push(self.then()?);
        }
        Some(if v.len() == 1 { v.remove(0) } else { F::Cons(v) })
    }
    fn then(&mut self) -> Option<F> {
        let mut v = vec![self.item()?];
        while self.peek() == Some(4) {
            self.p += 1;
            v.push(self.item()?);
        }
        Some(if v.len() == 1 { v.remove(0) } else { F::And(v) })
    }
    fn item(&mut self) -> Option<F> {
        let k = self.peek()?;
        self.p += 1;
        match k {
            0 => {
                self.n += 1;
                let mut v = value(self.n - 1 + self.rot).0;
                if std::mem::take(&mut self.taken)
                    && let F::Val { ref mut mo, .. } = v
                {
                    *mo = Mo("");
                }
                Some(v)
            }
            1 | 2 => {
                // a modifier after the parenthesis belongs to the group
                let mut mo = if k == 2 { "u" } else { "" };
                if k == 1 && self.peek() == Some(0) {
                    if let (F::Val { mo: m, .. }, _) = value(self.n + self.rot) {
                        mo = m.0;
                    }
                    self.taken = true;
                }
                let inner = self.list()?;
                if self.peek() != Some(3) || matches!(inner, F::Grp(..)) {
                    return None;
                }
                self.p += 1;
                Some(F::Grp(Mo(mo), Box::new(inner)))
            }
            _ => None,
        }
    }
}

/// Expression of a token sequence and its text, if well-formed.
pub fn build(t: &[usize], rot: usize) -> (Option<F>, String) {
    let mut p = P { t, p: 0, rot, n: 0, taken: false };
    let ast = p.list().filter(|_| p.p == t.len());
    let mut n = 0;
    let mut s = String::new();
    for k in t {
        let x = match k {
            0 => {
                n += 1;
                value(n - 1 + rot).1
            }
            1 => "(",
            2 => "(?u ",
            3 => ")",
            4 => " <$> ",
            _ => [" <*> ", "<*>"][rot % 2],
        };
        s.push_str(x);
    }
    (ast, s)
}

pub fn fields() -> Vec<MF> {
    [
        vec![],
        vec!["ax"],
        vec!["b y@ "],
        vec!["ax", "by"],
        vec!["by", "ax", "az"],
        vec!["a", "b"],
        vec!["cA@b@", "c q", "ax y"],
        vec!["X1", "bB", "bC", "b", "a\u{e4}\u{df}"],
        vec!["a ", "c\u{2003}d "],
    ]
    .iter()
    .map(|s| f("012A/01", s))
    .collect()
}

pub fn run(cx: &Cx) {
    let fs = fields();
    let one: Vec<Vec<u8>> = fs.iter().map(|x| ser(&vec![x.clone()])).collect();
    let len = cx.pick(8, 9);
    let total: u64 = (1..=len).map(|d| 6u64.pow(d as u32)).sum();
    cx.space(
        "lists and groups",
        "all sequences of up to 8 (thorough 9) tokens (value, group, group with modifier, end of group, <$>, <*>); 9 kinds of values rotated by position x 9 fields x strip option",
        total,
        |i, st| {
            let mut k = i;
            let mut d = 1u32;
            while k >= 6u64.pow(d) {
                k -= 6u64.pow(d);
                d += 1;
            }
            let mut r = Radix(k);
            let t: Vec<usize> = (0..d).map(|_| r.take(6)).collect();
            st.state();
            let (ok, _) = build(&t, 0);
            let rots = if ok.is_some() { 9 } else { 1 };
            for rot in 0..rots {
                let (ast, txt) = build(&t, rot + (i % 9) as usize);
                let txt = format!("012A/01{{{txt}}}");
                st.step();
                let real = Format::new(&txt);
                if real.is_ok() != ast.is_some() {
                    st.fail(format!("format '{txt}' accepted={}", real.is_ok()), json!({"format": txt}));
                    return;
                }
                let (Some(ast), Ok(real)) = (ast, real) else { return };
                for (m, b) in fs.iter().zip(&one) {
                    for over in [false, true] {
                        let o = FormatOptions::new().strip_overread_char(over);
                        let want = ast.render(m, over);
                        let rec = RecordRef::from_bytes(b).unwrap();
                        let got: Vec<Vec<u8>> = rec.format(&real, &o).map(|v| v.to_vec()).collect();
                        let exp: Vec<Vec<u8>> = if want.is_empty() { vec![] } else { vec![want] };
                        st.trace();
                        st.outcome(&exp);
                        if got != exp {
                            st.fail(
                                format!("'{txt}' on {} (strip {over}): {:?}", esc(b), got.iter().map(|v| esc(v)).collect::<Vec<_>>()),
                                json!({"format": txt, "record": esc(b), "strip_overread_char": over,
                                       "expected": exp.iter().map(|v| esc(v)).collect::<Vec<_>>()}),
                            );
                            return;
                        }
                    }
                }
                st.sample(|| json!({"format": txt}));
            }
        },
    );

    // values
    let mods = ["", "l", "u", "t", "w", "o", "lu", "ul", "to", "ot", "wt", "tw", "wo", "ow", "lo", "uo", "twol", "lowtu", "ooo", "otw"];
    let pres: [(&str, &str); 4] = [("", ""), ("'p'", "p"), ("' @ '", " @ "), ("\"\\\"\u{e9}\"", "\"\u{e9}")];
    let cods = ["a", "*", "[ab]", "[b-c]", "X"];
    let bnds: [(&str, usize); 7] = [("", 1), ("..", usize::MAX), ("..0", 0), ("..1", 1), ("..2", 2), ("..03", 3), ("..1000000", 1000000)];
    let vals: [&[u8]; 6] = [b"", b"x", b" @A b ", "\u{c4}@@\u{df} ".as_bytes(), b"\xffz ", "\u{2003}q\t".as_bytes()];
    let cs = ['a', 'b', 'X'];
    let al: Vec<Sub> = cs.iter().flat_map(|c| vals.iter().map(|v| (*c, v.to_vec()))).collect();
    let mut lists: Vec<Vec<Sub>> = seqs(al.len(), 0, cx.pick(2, 3)).iter().map(|s| s.iter().map(|k| al[*k].clone()).collect()).collect();
    lists.extend(seqs(4, 3, 4).iter().map(|s| s.iter().map(|k| al[[1, 2, 8, 13][*k]].clone()).collect::<Vec<_>>()));
    let lb: Vec<Vec<u8>> = lists.iter().map(|l| ser(&vec![MF { tag: "012A".into(), occ: None, subs: l.clone() }])).collect();
    let texts = lists.iter().map(|l| l.iter().all(|s| std::str::from_utf8(&s.1).is_ok())).collect::<Vec<_>>();
    cx.space(
        "values",
        "20 modifiers x 4 prefixes x 4 suffixes x 5 code sets x 7 bounds x strip option x all lists of 0..=2 (thorough 3) subfields over 18 and of 3..=4 over 4; text records",
        (mods.len() * pres.len() * pres.len() * cods.len() * bnds.len() * 2) as u64,
        |i, st| {
            let mut r = Radix(i);
            let mo = *r.of(&mods);
            let pre = *r.of(&pres);
            let suf = *r.of(&pres);
            let co = *r.of(&cods);
            let bd = *r.of(&bnds);
            let over = r.bool();
            let m = if mo.is_empty() { String::new() } else { format!("?{mo} ") };
            let txt = match i % 3 {
                0 => format!("012A{{{m}{}{co}{}{}}}", pre.0, bd.0, suf.0),
                1 => format!("012A {{ {m} {} {co}{} {} }} ", pre.0, bd.0, suf.0),
                _ => format!("012A{{({m}{}{co}{}{})}}", pre.0, bd.0, suf.0),
            };
            let Ok(real) = Format::new(&txt) else {
                st.fail(format!("'{txt}' rejected"), json!({"format": txt}));
                return;
            };
            let ast = F::Val { mo: Mo(mo), pre: pre.1, codes: co, max: bd.1, suf: suf.1 };
            let o = FormatOptions::new().strip_overread_char(over);
            // every list for each modifier, bound and code set; fewer for prefixes
            let step = if pre.0.is_empty() || suf.0.is_empty() { 1 } else { cx.pick(7, 1) };
            for (k, l) in lists.iter().enumerate().skip(i as usize % step).step_by(step) {
                let field = MF { tag: "012A".into(), occ: None, subs: l.clone() };
                let want = ast.render(&field, over);
                let rec = RecordRef::from_bytes(&lb[k]).unwrap();
                let got: Vec<Vec<u8>> = rec.format(&real, &o).map(|v| v.to_vec()).collect();
                st.state();
                st.step();
                let exp: Vec<Vec<u8>> = if want.is_empty() { vec![] } else { vec![want] };
                let mut ok = got == exp;
                if texts[k] && k % 8 == i as usize % 8 {
                    let s = StringRecord::try_from(ByteRecord::from_bytes(&lb[k]).unwrap()).unwrap();
                    ok &= s.format(&real, &o).map(|v| v.into_bytes()).collect::<Vec<_>>() == exp;
                }
                if !ok {
                    st.fail(
                        format!("'{txt}' on {} (strip {over}): {:?}", esc(&lb[k]), got.iter().map(|v| esc(v)).collect::<Vec<_>>()),
                        json!({"format": txt, "record": esc(&lb[k]), "expected": exp.iter().map(|v| esc(v)).collect::<Vec<_>>()}),
                    );
                    return;
                }
                st.trace();
                st.outcome(&exp);
            }
            st.sample(|| json!({"format": txt}));
        },
    );

    let block = 0x400u64;
    cx.space(
        "characters",
        "all Unicode scalar values (without newline, separators, sigma) at the beginning, inside and at the end of a value, 20 modifiers",
        0x110000 / block,
        |i, st| {
            let fm: Vec<(&str, Format)> = mods
                .iter()
                .map(|m| (*m, Format::new(&format!("012A{{{}{}a}}", if m.is_empty() { "" } else { "?" }, if m.is_empty() { String::new() } else { format!("{m} ") })).unwrap()))
                .collect();
            for k in 0..block {
                let Some(c) = char::from_u32((i * block + k) as u32) else { continue };
                if matches!(c, '\n' | '\x1e' | '\x1f' | '\u{3a3}' | '\u{3c3}' | '\u{3c2}') {
                    continue;
                }
                let l = vec![('a', format!("{c}a {c} B{c}").into_bytes())];
                let m = MF { tag: "012A".into(), occ: None, subs: l };
                let b = ser(&vec![m.clone()]);
                let rec = RecordRef::from_bytes(&b).unwrap();
                for (mo, real) in &fm {
                    st.state();
                    st.step();
                    let ast = F::Val { mo: Mo(mo), pre: "", codes: "a", max: 1, suf: "" };
                    let want = ast.render(&m, false);
                    let got: Vec<Vec<u8>> = rec.format(real, &FormatOptions::new()).map(|v| v.to_vec()).collect();
                    if got != [want.clone()] {
                        st.fail(
                            format!("012A{{?{mo} a}} on {}: {:?}", esc(&b), got.iter().map(|v| esc(v)).collect::<Vec<_>>()),
                            json!({"modifier": mo, "record": esc(&b), "expected": esc(&want)}),
                        );
                        return;
                    }
                    st.trace();
                }
                st.outcome(&(c as u32 / 16));
            }
        },
    );

    // records
    let recs = crate::c11::records(cx.pick(3, 4));
    let rb: Vec<Vec<u8>> = recs.iter().map(ser).collect();
    let tags = ["012A", "....", "012[AB]", "003@"];
    let occs = ["", "/*", "/01", "/01-02"];
    let shapes: Vec<Vec<usize>> = vec![vec![0], vec![0, 4, 0], vec![0, 5, 0], vec![2, 0, 4, 0, 3, 5, 0]];
    cx.space(
        "formats x records",
        "4 tag x 4 occurrence patterns x 9 conditions x 4 shapes x 9 values x all records of 1..=3 (thorough 4) fields over 10",
        (tags.len() * occs.len() * CONDS.len() * shapes.len() * 9) as u64,
        |i, st| {
            let mut r = Radix(i);
            let tag = *r.of(&tags);
            let occ = *r.of(&occs);
            let cond = *r.of(&CONDS);
            let shape = r.of(&shapes);
            let rot = r.take(9);
            let (ast, t) = build(shape, rot);
            let ast = ast.unwrap();
            let txt = if cond.0.is_empty() { format!("{tag}{occ}{{{t}}}") } else { format!("{tag}{occ}{{ {t} | {} }}", cond.0) };
            let Ok(real) = Format::new(&txt) else {
                st.fail(format!("'{txt}' rejected"), json!({"format": txt}));
                return;
            };
            let o = FormatOptions::new();
            for (k, (m, b)) in recs.iter().zip(&rb).enumerate() {
                if k >= 110 && k as u64 % 4 != i % 4 && !cx.thorough {
                    continue;
                }
                let want: Vec<Vec<u8>> = field_sel(m, tag, occ)
                    .into_iter()
                    .filter(|f| cond.1(&f.subs))
                    .map(|f| ast.render(f, false))
                    .filter(|v| !v.is_empty())
                    .collect();
                let rec = RecordRef::from_bytes(b).unwrap();
                let got: Vec<Vec<u8>> = rec.format(&real, &o).map(|v| v.to_vec()).collect();
                st.state();
                st.step();
                if got != want {
                    st.fail(
                        format!("'{txt}' on {}: {:?}", esc(b), got.iter().map(|v| esc(v)).collect::<Vec<_>>()),
                        json!({"format": txt, "record": esc(b), "expected": want.iter().map(|v| esc(v)).collect::<Vec<_>>()}),
                    );
                    return;
                }
                st.trace();
                st.outcome(&want);
            }
            st.sample(|| json!({"format": txt}));
        },
    );
    cx.space("conditions with options", "case-ignore x similarity thresholds in the condition", 2 * 5, |i, st| {
        let mut r = Radix(i);
        let ci = r.bool();
        let th = *r.of(&[0.0, 0.3, 0.5, 0.7, 0.9]);
        let b = ser(&vec![f("012A", &["aXY", "b1"]), f("012A", &["axyz", "b2"]), f("012A", &["axy", "b3"])]);
        let rec = RecordRef::from_bytes(&b).unwrap();
        let m = parse(&b).unwrap();
        let op = Opts { ci, th };
        for (t, c) in [
            ("012A{b | a == 'xy'}", Crit::Rel(Q::Any, "a".into(), "==", b"xy".to_vec())),
            ("012A{b | a =* 'xy'}", Crit::Rel(Q::Any, "a".into(), "=*", b"xy".to_vec())),
        ] {
            st.state();
            st.step();
            st.trace();
            let p = Format::new(t).unwrap();
            let want: Vec<Vec<u8>> = m.iter().filter(|f| c.eval(&f.subs, &op)).map(|f| f.subs[1].1.clone()).collect();
            let o = FormatOptions::new().case_ignore(ci).strsim_threshold(th);
            let got: Vec<Vec<u8>> = rec.format(&p, &o).map(|v| v.to_vec()).collect();
            st.outcome(&(t, i, &want));
            if got != want {
                st.fail(format!("{t}, ignore case {ci}, threshold {th}: {got:?}"), json!({"format": t, "case_ignore": ci, "threshold": th}));
            }
        }
        st.sample(|| json!({"case_ignore": ci, "threshold": th}));
    });
    cx.space("nested groups", "groups nested 1..=31 with both operators and modifiers", 31 * 4, |i, st| {
        let d = (i / 4) as usize + 1;
        let (op, mo) = (["<*>", "<$>"][(i % 2) as usize], ["", "?u "][(i / 2 % 2) as usize]);
        let txt = format!("012A{{{}a{}}}", format!("({mo}a {op} ").repeat(d), ")".repeat(d));
        st.state();
        st.step();
        st.trace();
        let Ok(p) = Format::new(&txt) else {
            st.fail(format!("nesting of {d} rejected: {txt}"), json!({"format": txt}));
            return;
        };
        let b = ser(&vec![f("012A", &["ax"])]);
        let got: Vec<Vec<u8>> =
            RecordRef::from_bytes(&b).unwrap().format(&p, &FormatOptions::default()).map(|v| v.to_vec()).collect();
        let want = vec![if mo.is_empty() { "x" } else { "X" }.repeat(d + 1).into_bytes()];
        st.outcome(&want);
        if got != want {
            st.fail(format!("{txt}: {got:?}"), json!({"format": txt}));
        }
        st.sample(|| json!({"format": txt}));
    });
    crate::long::lib(cx);
}
