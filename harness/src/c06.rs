//! C06: subfield criteria.
use pica_record::prelude::*;
use pica_record::primitives::SubfieldRef;
use serde_json::json;

use crate::cx::{Cx, Radix, St, esc, seqs};
use crate::expr::*;

fn show(s: &[Sub]) -> String {
    s.iter().map(|(c, v)| format!("${c}{}", esc(v))).collect()
}

pub fn run(cx: &Cx) {
    cx.assume("final sigma is excluded: per-character and per-string lower case differ there");
    let cs = ["a", "b", "[ab]", "[a-c]", "*", "[0X]", "[Z-b]", "[b-dX0-9]"];
    let vals = ["", "a", "A", "ab", "abc", "\u{e4}b", "\u{130}", "\u{df}x", "a b'\"\\"];
    let mut all = crits(&cs, &vals, &QS);
    if !cx.thorough {
        // the default quantifier is ANY; keep it for the first code sets
        all.retain(|c| match c {
            Crit::Rel(Q::Any, c, ..)
            | Crit::Contains(Q::Any, c, ..)
            | Crit::In(Q::Any, c, ..)
            | Crit::Regex(Q::Any, c, ..) => c == "a" || c == "[ab]",
            _ => true,
        });
    }
    // subfield lists
    let rv: Vec<Vec<u8>> = vec![
        b"".to_vec(),
        b"a".to_vec(),
        b"AB".to_vec(),
        b"abc".to_vec(),
        "\u{c4}B".as_bytes().to_vec(),
        "i\u{307}".as_bytes().to_vec(),
        b"a\xffb".to_vec(),
    ];
    let rc = ['a', 'b', 'X'];
    let alpha: Vec<Sub> =
        rc.iter().flat_map(|c| rv.iter().map(|v| (*c, v.clone()))).collect();
    let lists: Vec<Vec<Sub>> = seqs(alpha.len(), 0, 2)
        .iter()
        .map(|s| s.iter().map(|k| alpha[*k].clone()).collect())
        .collect();
    // longer lists over fewer values
    let beta: Vec<Sub> = vec![
        ('a', b"a".to_vec()),
        ('a', b"AB".to_vec()),
        ('b', b"a".to_vec()),
        ('c', b"abc".to_vec()),
        ('0', b"".to_vec()),
    ];
    let mut long: Vec<Vec<Sub>> = seqs(beta.len(), 3, cx.pick(3, 5))
        .iter()
        .map(|s| s.iter().map(|k| beta[*k].clone()).collect())
        .collect();
    long.push(vec![('a', b"a".to_vec()); 300]);
    let opts: Vec<Opts> = vec![
        Opts { ci: false, th: 0.8 },
        Opts { ci: true, th: 0.8 },
        Opts { ci: false, th: 0.0 },
        Opts { ci: false, th: 0.5 },
        Opts { ci: true, th: 0.3 },
        Opts { ci: false, th: 1.0 },
        Opts { ci: false, th: 2.0 / 3.0 },
    ];
    cx.space(
        "criteria x subfield lists",
        "all criteria (7 relations, contains, in, not in, regex (sets), existence, cardinality) over 8 code sets, 9 values, quantifiers x case-ignore x thresholds x all lists of 0..=2 subfields over 21 and of 3 (thorough ..5) over 5",
        all.len() as u64,
        |i, st| {
            let c = &all[i as usize];
            let texts = c.texts();
            let ms: Vec<SubfieldMatcher> = match texts
                .iter()
                .map(|t| SubfieldMatcher::new(t).map_err(|e| (t.clone(), e)))
                .collect::<Result<_, _>>()
            {
                Ok(m) => m,
                Err((t, e)) => {
                    st.fail(format!("'{t}' rejected: {e}"), json!({"criterion": t}));
                    return;
                }
            };
            let sim = matches!(c, Crit::Rel(_, _, "=*", _));
            for (k, o) in opts.iter().enumerate() {
                if k >= 2 && !sim {
                    break;
                }
                let ro = o.real();
                let ls: Box<dyn Iterator<Item = &Vec<Sub>>> = if c.is_regex() {
                    // each evaluation compiles the expression
                    Box::new(lists.iter().filter(|l| l.len() < 2 || l[0].0 != 'X').step_by(cx.pick(3, 1)))
                } else {
                    Box::new(lists.iter().chain(long.iter()))
                };
                for l in ls {
                    st.state();
                    let b = subs_bytes(l);
                    let subs: Vec<SubfieldRef> =
                        b.iter().map(|x| SubfieldRef::from_bytes(x).unwrap()).collect();
                    let want = c.eval(l, o);
                    for (m, t) in ms.iter().zip(&texts).take(3) {
                        st.step();
                        let got = m.is_match(subs.iter(), &ro);
                        if got != want {
                            st.fail(
                                format!("'{t}' on {} (ignore case {}, threshold {}): {got}, expected {want}", show(l), o.ci, o.th),
                                json!({"criterion": t, "subfields": show(l), "case_ignore": o.ci,
                                       "threshold": o.th, "expected": want}),
                            );
                            return;
                        }
                    }
                    st.trace();
                    st.outcome(&(i, want));
                }
            }
            st.sample(|| json!({"criterion": texts}));
        },
    );

    letters(cx);
    similarity(cx);
    dollar(cx);
    defaults(cx);
    crate::ctor::sub(cx);

    // strings
    let frag: Vec<(&str, Option<&[u8]>)> = vec![
        ("x", Some(b"x")),
        ("\u{e4}", Some("\u{e4}".as_bytes())),
        ("\\n", Some(b"\n")),
        ("\\r", Some(b"\r")),
        ("\\t", Some(b"\t")),
        ("\\b", Some(b"\x08")),
        ("\\f", Some(b"\x0c")),
        ("\\\\", Some(b"\\")),
        ("\\/", Some(b"/")),
        ("\\ \t\n", Some(b"")),
        ("Q", None),   // the quote, escaped
        ("O", None),   // the other quote
        ("\\x", None), // not an escape
        ("E", None),   // the other quote, escaped: rejected
        (" ", Some(b" ")),
    ];
    let ss = seqs(frag.len(), 0, cx.pick(4, 5));
    cx.space(
        "string literals",
        "all strings of 0..=4 (thorough 5) fragments over 15 (characters, every escape, invalid escapes) x both quotes",
        ss.len() as u64 * 2,
        |i, st| {
            let single = i % 2 == 0;
            let (q, o) = if single { ('\'', '"') } else { ('"', '\'') };
            let mut txt = String::new();
            let mut val: Option<Vec<u8>> = Some(vec![]);
            let mut seq = ss[(i / 2) as usize].clone();
            // an escaped blank swallows following blanks
            let mut skip_ws = false;
            seq.retain(|_| true);
            for k in seq {
                let (t, v) = &frag[k];
                match *t {
                    "Q" => {
                        txt.push('\\');
                        txt.push(q);
                        if let Some(x) = val.as_mut() { x.push(q as u8) }
                        skip_ws = false;
                    }
                    "O" => {
                        txt.push(o);
                        if let Some(x) = val.as_mut() { x.push(o as u8) }
                        skip_ws = false;
                    }
                    "E" => {
                        txt.push('\\');
                        txt.push(o);
                        val = None;
                    }
                    "\\x" => {
                        txt.push_str(t);
                        val = None;
                    }
                    " " if skip_ws => txt.push_str(t),
                    _ => {
                        txt.push_str(t);
                        if let (Some(x), Some(v)) = (val.as_mut(), v) {
                            x.extend_from_slice(v)
                        }
                        skip_ws = k == 9;
                    }
                }
            }
            st.state();
            st.step();
            st.trace();
            let e = format!("a == {q}{txt}{q}");
            let m = SubfieldMatcher::new(&e);
            let Some(v) = val else {
                if m.is_ok() {
                    st.fail(format!("{e} accepted"), json!({"criterion": e}));
                }
                st.outcome(&"rejected");
                return;
            };
            let Ok(m) = m else {
                st.fail(format!("{e} rejected"), json!({"criterion": e}));
                return;
            };
            st.outcome(&v);
            let o = MatcherOptions::default();
            for (w, want) in [(v.clone(), true), ([&v[..], b"!"].concat(), false), ([b"!", &v[..]].concat(), false)] {
                let b = subs_bytes(&[('a', w)]);
                let s = SubfieldRef::from_bytes(&b[0]).unwrap();
                if m.is_match([&s], &o) != want {
                    st.fail(
                        format!("{e} on {}: expected {want}", esc(&b[0])),
                        json!({"criterion": e, "value": esc(&b[0]), "expected": want}),
                    );
                }
            }
            st.sample(|| json!({"criterion": e}));
        },
    );

    // code sets
    let cchars = ["a", "b", "Z", "0", "9", "-", "[", "]", "*", "."];
    let cc = seqs(cchars.len(), 1, cx.pick(5, 6));
    cx.space(
        "code sets",
        "all code specifications of up to 5 (thorough 6) characters over 10 x all 62 codes",
        cc.len() as u64,
        |i, st| {
            let s: String = cc[i as usize].iter().map(|k| cchars[*k]).collect();
            st.state();
            st.step();
            st.trace();
            let an = |c: u8| c.is_ascii_alphanumeric();
            let b = s.as_bytes();
            let want = if s == "*" || (b.len() == 1 && an(b[0])) {
                true
            } else if b.len() >= 3 && b[0] == b'[' && b[b.len() - 1] == b']' {
                let v = &b[1..b.len() - 1];
                let mut k = 0;
                let mut ok = true;
                while k < v.len() && ok {
                    ok = an(v[k]);
                    if k + 1 < v.len() && v[k + 1] == b'-' {
                        ok &= k + 2 < v.len() && an(v[k + 2]) && v[k] < v[k + 2];
                        k += 3;
                    } else {
                        k += 1;
                    }
                }
                ok
            } else {
                false
            };
            let e = format!("{s}?");
            let m = SubfieldMatcher::new(&e);
            if m.is_ok() != want {
                st.fail(format!("'{e}' accepted={}", m.is_ok()), json!({"criterion": e, "expected": want}));
                return;
            }
            st.outcome(&want);
            let Ok(m) = m else { return };
            let o = MatcherOptions::default();
            for c in ('0'..='9').chain('a'..='z').chain('A'..='Z') {
                st.step();
                let r = SubfieldRef::new(c, "").unwrap();
                if m.is_match([&r], &o) != codes(&s, c) {
                    st.fail(format!("'{e}' on ${c}"), json!({"criterion": e, "code": c.to_string()}));
                }
            }
            st.sample(|| json!({"criterion": e}));
        },
    );

    // rejected forms and numbers
    let bad = [
        "a > 'x'", "a >= 'x'", "a == x", "a == 'x", "a = 'x'", "#a == 'x'", "#a == -1", "#a =^ 1",
        "#a == 18446744073709551616", "a in []", "a in 'x'", "a in ''", "a in ['x' 'y']", "a =? []",
        "a =~ '('", "a =~ ['a', '(']", "a =~ []", "NONE a == 'x'", "all a == 'x'", "a ?", "", " ", "?",
        "a == 'x' y", "a not ['x']", "not in ['x']", "#a", "# == 1", "a =~ 'x'i",
    ];
    cx.space("rejected criteria", "29 malformed criteria, alone and in parentheses", bad.len() as u64, |i, st| {
        st.state();
        for t in [bad[i as usize].to_string(), format!("({})", bad[i as usize])] {
            st.step();
            st.trace();
            st.outcome(&t);
            if SubfieldMatcher::new(&t).is_ok() {
                st.fail(format!("'{t}' accepted"), json!({"criterion": t}));
            }
        }
        st.sample(|| json!({"criterion": bad[i as usize]}));
    });
    let nums: [(&str, usize); 7] = [
        ("0", 0), ("00", 0), ("007", 7), ("1", 1), ("300", 300),
        ("18446744073709551615", usize::MAX), ("4294967296", 1 << 32),
    ];
    cx.space("cardinality numbers", "6 operators x 7 numbers x counts 0, 1, 7, 299..301", 6 * 7 * 6, |i, st| {
        let mut r = Radix(i);
        let op = *r.of(&CARDS);
        let (t, n) = *r.of(&nums);
        let cnt = *r.of(&[0usize, 1, 7, 299, 300, 301]);
        st.state();
        st.step();
        st.trace();
        let e = format!("#[ab] {op} {t}");
        let s = SubfieldRef::new('a', "x").unwrap();
        let other = SubfieldRef::new('c', "x").unwrap();
        let mut v = vec![&s; cnt];
        v.push(&other);
        match SubfieldMatcher::new(&e) {
            Ok(m) if m.is_match(v, &MatcherOptions::default()) == cmp(op, cnt, n) => {}
            r => st.fail(format!("{e} with {cnt}: {r:?}"), json!({"criterion": e, "count": cnt})),
        }
        st.outcome(&(i, cmp(op, cnt, n)));
        st.sample(|| json!({"criterion": e, "count": cnt}));
    });
    crate::long::lib(cx);
}

/// One criterion on one value; true if the model and the code agree.
fn agree(st: &mut St, c: &Crit, v: &[u8], opts: &[Opts]) -> bool {
    let t = &c.texts()[0];
    let m = match SubfieldMatcher::new(t) {
        Ok(m) => m,
        Err(e) => {
            st.fail(format!("'{t}' rejected: {e}"), json!({"criterion": t}));
            return false;
        }
    };
    let l = vec![('a', v.to_vec())];
    let b = subs_bytes(&l);
    let subs: Vec<SubfieldRef> = b.iter().map(|x| SubfieldRef::from_bytes(x).unwrap()).collect();
    for o in opts {
        st.state();
        st.step();
        let want = c.eval(&l, o);
        let got = m.is_match(subs.iter(), &o.real());
        if got != want {
            st.fail(
                format!("'{t}' on {} (ignore case {}, threshold {}): {got}, expected {want}", show(&l), o.ci, o.th),
                json!({"criterion": t, "subfields": show(&l), "case_ignore": o.ci,
                       "threshold": o.th, "expected": want}),
            );
            return false;
        }
        st.trace();
        st.outcome(&(t.as_bytes()[2..5.min(t.len())].to_vec(), want));
    }
    true
}

fn letters(cx: &Cx) {
    let ops = [Opts { ci: false, th: 0.8 }, Opts { ci: true, th: 0.8 }];
    let cased: Vec<char> = (0..=0x10ffffu32)
        .filter_map(char::from_u32)
        .filter(|c| *c != '\u{3a3}' && *c != '\u{3c3}' && *c != '\u{3c2}')
        .filter(|c| {
            c.to_lowercase().collect::<String>() != c.to_string()
                || c.to_uppercase().collect::<String>() != c.to_string()
        })
        .collect();
    cx.space(
        "letters",
        "all Unicode letters with case (without sigma): all pairs of {the letter, lower, upper, next letter} alone, before and after another letter x all relations, contains, in x case-ignore",
        cased.len() as u64,
        |i, st| {
            let c = cased[i as usize];
            let mut forms = vec![
                c.to_string(),
                c.to_lowercase().collect::<String>(),
                c.to_uppercase().collect::<String>(),
                cased[(i as usize + 1) % cased.len()].to_string(),
            ];
            forms.dedup();
            for x in &forms {
                for (pre, post) in [("", ""), ("b", ""), ("", "b"), ("\u{c4}", "b")] {
                    for y in &forms {
                        let v = format!("{pre}{y}{post}").into_bytes();
                        for r in RELS {
                            let k = Crit::Rel(Q::Default, "a".into(), r, x.clone().into_bytes());
                            if !agree(st, &k, &v, &ops) {
                                return;
                            }
                        }
                        let w = vec![format!("{pre}{x}{post}").into_bytes()];
                        for k in [
                            Crit::Rel(Q::Default, "a".into(), "==", w[0].clone()),
                            Crit::Contains(Q::Default, "a".into(), vec![x.clone().into_bytes()]),
                            Crit::In(Q::Default, "a".into(), w.clone(), false),
                            Crit::In(Q::Default, "a".into(), w.clone(), true),
                        ] {
                            if !agree(st, &k, &v, &ops) {
                                return;
                            }
                        }
                    }
                }
            }
        },
    );
    let block = 0x400u64;
    cx.space(
        "characters",
        "all Unicode scalar values c (without newline, record and unit separator, sigma): == and =? c on c and on its successor x case-ignore",
        0x110000 / block,
        |i, st| {
            let bad = |c: char| matches!(c, '\n' | '\x1e' | '\x1f' | '\u{3a3}' | '\u{3c3}' | '\u{3c2}');
            for k in 0..block {
                let Some(c) = char::from_u32((i * block + k) as u32) else { continue };
                let x = c.to_string().into_bytes();
                let n = char::from_u32(c as u32 + 1).unwrap_or('a');
                for v in [c, n] {
                    if bad(v) || bad(c) {
                        continue;
                    }
                    for m in [
                        Crit::Rel(Q::Default, "a".into(), "==", x.clone()),
                        Crit::Contains(Q::Default, "a".into(), vec![x.clone()]),
                    ] {
                        if !agree(st, &m, v.to_string().as_bytes(), &ops) {
                            return;
                        }
                    }
                }
            }
        },
    );
}

fn similarity(cx: &Cx) {
    let alpha = ["a", "b", "\u{e4}", "A"];
    let words: Vec<String> = seqs(alpha.len(), 0, cx.pick(4, 5))
        .iter()
        .map(|s| s.iter().map(|k| alpha[*k]).collect())
        .collect();
    // every score of two strings of at most eight characters, and a bit less
    let mut ths = vec![0.0, 1.0];
    for n in 1..=6u32 {
        for k in 0..=n {
            let s = 1.0 - f64::from(k) / f64::from(n);
            ths.extend([s, s - 1e-9, s + 1e-9]);
        }
    }
    ths.retain(|t| (0.0..=1.0).contains(t));
    ths.sort_by(f64::total_cmp);
    ths.dedup();
    let opts: Vec<Opts> = ths
        .iter()
        .flat_map(|th| [Opts { ci: false, th: *th }, Opts { ci: true, th: *th }])
        .collect();
    let other: Vec<&String> = words.iter().filter(|w| w.chars().count() <= cx.pick(3, 4)).collect();
    cx.space(
        "similarity",
        "all words of <= 4 (5) over {a, b, ä, A} against all words of <= 3 (4), both ways x every threshold at, just below and just above k/n for n <= 6 x case-ignore",
        words.len() as u64,
        |i, st| {
            let w = words[i as usize].as_bytes();
            for o in &other {
                for (x, v) in [(w, o.as_bytes()), (o.as_bytes(), w)] {
                    let k = Crit::Rel(Q::Default, "a".into(), "=*", x.to_vec());
                    if !agree(st, &k, v, &opts) {
                        return;
                    }
                }
            }
        },
    );
}

/// The legacy syntax with a dollar sign means the same as the other one.
fn dollar(cx: &Cx) {
    let codes = ["a", "b", "ab", "ba", "a0", "X", "ab0X", "*"];
    let qs = ["", "ANY ", "ALL "];
    let mut crits: Vec<String> = vec![];
    for op in ["==", "!=", "=^", "!^", "=$", "!$", "=*"] {
        crits.push(format!(" {op} 'ab'"));
    }
    for c in [" =? 'a'", "=?'a'", " =? ['a', 'x']", " =? ['b',]", "=='ab'"] {
        crits.push(c.into());
    }
    // a single criterion after the dollar sign has all operators
    let single = [
        "a?", "[ab]?", "*?", "a == 'ab'", "[ab] != 'ab'", "a =^ 'a'", "a =$ 'b'", "* =* 'ab'", "a in ['ab', 'x']",
        "a not in ['ab']", "[ab] =~ '^a'", "a !~ 'b$'", "a =? 'b'", "ALL a == 'ab'", "ANY [ab] =^ 'a'",
    ];
    let n = codes.len() * qs.len() * crits.len();
    let vals: [&[&str]; 9] = [
        &["aab"], &["aba"], &["bab"], &["Xab", "00"], &["aab", "bx"], &["ax", "bab"], &["aab", "aba"], &["aab", "bab", "0ab", "Xab"], &["cab"],
    ];
    let recs: Vec<Vec<u8>> = vals
        .iter()
        .flat_map(|v| ["012A", "012A/01", "013A"].map(|t| crate::rec::ser(&vec![crate::rec::f(t, v)])))
        .chain([crate::rec::ser(&vec![crate::rec::f("012A", &["aab"]), crate::rec::f("012A", &["ax"])])])
        .collect();
    cx.space(
        "legacy syntax",
        "tag{$codes op value} for 8 code lists, 3 quantifiers and 12 relations, and tag$criterion for 15 criteria x 3 tags, against the modern syntax, on 28 records x case-ignore",
        (n + single.len() * 3) as u64,
        |i, st| {
            let mut r = Radix(i);
            let (old, new) = if i < n as u64 {
                let q = *r.of(&qs);
                let c = *r.of(&codes);
                let x = r.of(&crits);
                let m = if c == "*" { c.to_string() } else { format!("[{c}]") };
                (format!("012A{{{q}${c}{x}}}"), format!("012A{{{q}{m}{x}}}"))
            } else {
                let mut r = Radix(i - n as u64);
                let t = *r.of(&["012A", "012A/01", "01[23]A/*"]);
                let c = *r.of(&single);
                (format!("{t}${c}"), format!("{t}{{{c}}}"))
            };
            let p = |t: &str, st: &mut St| match RecordMatcher::new(t) {
                Ok(m) => Some(m),
                Err(e) => {
                    st.fail(format!("'{t}' rejected: {e}"), json!({"expression": t}));
                    None
                }
            };
            let (Some(a), Some(b)) = (p(&old, st), p(&new, st)) else { return };
            st.sample(|| json!({"legacy": old, "modern": new}));
            for ci in [false, true] {
                let o = MatcherOptions::new().case_ignore(ci);
                for d in &recs {
                    let rec = ByteRecord::from_bytes(d).unwrap();
                    let (x, y) = (a.is_match(&rec, &o), b.is_match(&rec, &o));
                    st.state();
                    st.step();
                    st.trace();
                    st.outcome(&(i, x));
                    if x != y {
                        st.fail(
                            format!("'{old}': {x}, '{new}': {y} on {}", esc(d)),
                            json!({"legacy": old, "modern": new, "record": esc(d), "case_ignore": ci}),
                        );
                        return;
                    }
                }
            }
        },
    );
}

/// The default similarity threshold is 0.8 everywhere.
fn defaults(cx: &Cx) {
    let pat = "abcdefghij";
    let n = pat.len();
    cx.space(
        "default options",
        "scores k/10 of a similarity criterion in matchers, paths, queries and formats with default options, and options derived from each other",
        n as u64 + 1,
        |i, st| {
            let k = i as usize;
            let v = format!("{}{}", &pat[..k], "Z".repeat(n - k));
            let want = k > 8;
            let d = crate::rec::ser(&vec![crate::rec::f("012A", &[&format!("a{v}"), "bx"])]);
            let rec = ByteRecord::from_bytes(&d).unwrap();
            let m = RecordMatcher::new("012A{a =* 'abcdefghij'}").unwrap();
            let q = Query::new("012A{b | a =* 'abcdefghij'}").unwrap();
            let fm = Format::new("012A{b | a =* 'abcdefghij'}").unwrap();
            let p = Path::new("012A{b | a =* 'abcdefghij'}").unwrap();
            let mut got = vec![
                ("matcher", m.is_match(&rec, &MatcherOptions::default())),
                ("matcher, new", m.is_match(&rec, &MatcherOptions::new())),
                ("path", rec.path(&p, &MatcherOptions::default()).next().is_some()),
                ("query", rec.query(&q, &QueryOptions::default()).into_inner() == vec![vec!["x".to_string()]]),
                ("query, new", rec.query(&q, &QueryOptions::new()).into_inner() == vec![vec!["x".to_string()]]),
                ("format", rec.format(&fm, &FormatOptions::default()).count() == 1),
                ("format, new", rec.format(&fm, &FormatOptions::new()).count() == 1),
                ("from query options", m.is_match(&rec, &MatcherOptions::from(QueryOptions::new()))),
                ("from query options, by reference", m.is_match(&rec, &MatcherOptions::from(&QueryOptions::new()))),
                ("from format options", m.is_match(&rec, &MatcherOptions::from(&FormatOptions::new()))),
                ("formats from query options", rec.format(&fm, &FormatOptions::from(&QueryOptions::new())).count() == 1),
            ];
            for (w, g) in got.drain(..) {
                st.state();
                st.step();
                st.trace();
                st.outcome(&(w, g));
                if g != want {
                    st.fail(format!("{w}: score {k}/10 by default is {g}, expected {want}"), json!({"options": w, "score": k}));
                }
            }
            // options derived from others keep case-ignore and threshold
            for ci in [false, true] {
                for th in [0.05, 0.35, 0.55, 0.95] {
                    for pat in ["a == 'abcdefghij'", "a =* 'ABCDEFGHIJ'", "a =* 'abcdefghij'", "a =^ 'ABC'"] {
                        let m = RecordMatcher::new(&format!("012A{{{pat}}}")).unwrap();
                        let fm = Format::new(&format!("012A{{b | {pat}}}")).unwrap();
                        let q = || QueryOptions::new().case_ignore(ci).strsim_threshold(th).squash(true).separator("+");
                        let fo = FormatOptions::new().case_ignore(ci).strsim_threshold(th).strip_overread_char(true);
                        let want = m.is_match(&rec, &MatcherOptions::new().case_ignore(ci).strsim_threshold(th));
                        for (w, g) in [
                            ("query options", m.is_match(&rec, &MatcherOptions::from(q()))),
                            ("query options by reference", m.is_match(&rec, &MatcherOptions::from(&q()))),
                            ("format options", m.is_match(&rec, &MatcherOptions::from(&fo))),
                            ("formats", rec.format(&fm, &FormatOptions::from(&q())).count() == 1),
                        ] {
                            st.state();
                            st.step();
                            st.trace();
                            st.outcome(&(w, g, ci));
                            if g != want {
                                st.fail(
                                    format!("{pat} with options from {w} (ignore case {ci}, threshold {th}) on {v}: {g}, expected {want}"),
                                    json!({"criterion": pat, "options": w, "value": v, "case_ignore": ci, "threshold": th}),
                                );
                            }
                        }
                    }
                }
            }
        },
    );
}
