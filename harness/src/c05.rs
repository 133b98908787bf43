//! C05: tag and occurrence patterns.
use pica_record::matcher::{OccurrenceMatcher, TagMatcher};
use pica_record::primitives::{OccurrenceRef, TagRef};
use serde_json::json;

use crate::c02::{occ_match, tag_match};
use crate::cx::{Cx, Radix, seqs};

/// Independent recogniser of tag patterns.
fn tag_pattern(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    for allowed in [&b"012"[..], b"0123456789", b"0123456789", b"@ABCDEFGHIJKLMNOPQRSTUVWXYZ"] {
        match b.get(i) {
            Some(b'.') => i += 1,
            Some(b'[') => {
                i += 1;
                let mut items = 0;
                loop {
                    match b.get(i) {
                        Some(b']') if items > 0 => break,
                        Some(c) if allowed.contains(c) => {
                            if b.get(i + 1) == Some(&b'-') {
                                match b.get(i + 2) {
                                    Some(d) if allowed.contains(d) && d > c => i += 3,
                                    _ => return false,
                                }
                            } else {
                                i += 1;
                            }
                            items += 1;
                        }
                        _ => return false,
                    }
                }
                i += 1;
            }
            Some(c) if allowed.contains(c) => i += 1,
            _ => return false,
        }
    }
    i == b.len()
}

fn occ_pattern(s: &str) -> bool {
    let d = |s: &str| (s.len() == 2 || s.len() == 3) && s.bytes().all(|c| c.is_ascii_digit());
    match s.strip_prefix('/') {
        None => s.is_empty(),
        Some("*") => true,
        Some(p) => match p.split_once('-') {
            None => d(p),
            Some((a, b)) => d(a) && d(b) && a.len() == b.len() && a < b,
        },
    }
}

pub fn run(cx: &Cx) {
    let mut tags = vec![];
    for a in 0..3 {
        for b in 0..10 {
            for c in 0..10 {
                for d in "@ABCDEFGHIJKLMNOPQRSTUVWXYZ".chars() {
                    tags.push(format!("{a}{b}{c}{d}"));
                }
            }
        }
    }
    let p0 = ["0", "1", "2", ".", "[0]", "[01]", "[0-1]", "[12]", "[0-2]", "[20]", "[1-2]"];
    let p1 = ["0", "9", ".", "[0-9]", "[13-5]", "[0-38]", "[97]"];
    let p3 = ["@", "A", "Z", ".", "[A-Z]", "[@]", "[A@]", "[B-DZ]", "[A-Z@]", "[@-C]", "[X-Z]"];
    cx.space(
        "tag patterns",
        "all patterns over 11 x 7 x 7 x 11 position fragments x all 8100 tags",
        (p0.len() * p1.len() * p1.len() * p3.len()) as u64,
        |i, st| {
            let mut r = Radix(i);
            let p = format!("{}{}{}{}", r.of(&p0), r.of(&p1), r.of(&p1), r.of(&p3));
            st.state();
            let m = match TagMatcher::new(&p) {
                Ok(m) => m,
                Err(e) => {
                    st.fail(format!("pattern {p} rejected: {e}"), json!({"pattern": p}));
                    return;
                }
            };
            let mut hits = 0u32;
            // the reference decides position by position
            for t in &tags {
                st.step();
                let want = tag_match(&p, t);
                hits += u32::from(want);
                if m.is_match(&TagRef::new(t).unwrap()) != want {
                    st.fail(
                        format!("{p} on {t}: expected {want}"),
                        json!({"pattern": p, "tag": t, "expected": want}),
                    );
                    return;
                }
            }
            st.trace();
            st.outcome(&hits);
            st.sample(|| json!({"pattern": p, "matching tags": hits}));
        },
    );
    let depth = cx.pick(7u32, 8u32);
    let al = ["0", "2", "3", ".", "[", "]", "-", "A", "@", "a"];
    cx.space(
        "tag pattern syntax",
        "all strings of 0..=7 (thorough 8) characters over 10, and lists at every position",
        10u64.pow(depth) / 100,
        |i, st| {
            let mut head = String::new();
            let mut r = Radix(i);
            for _ in 0..depth - 2 {
                head.push_str(r.of(&al));
            }
            let mut cand = vec![];
            for a in al {
                for b in al {
                    cand.push(format!("{head}{a}{b}"));
                }
            }
            if i < 100_000 {
                // shorter strings: prefixes of the first positions
                for k in 0..head.len() {
                    cand.push(head[..k].to_string());
                }
                cand.push(head.clone());
            }
            for p in &cand {
                st.state();
                st.step();
                st.trace();
                let want = tag_pattern(p);
                let got = TagMatcher::new(p).is_ok();
                if got != want {
                    st.fail(
                        format!("pattern '{p}' accepted={got}"),
                        json!({"pattern": p, "expected": want}),
                    );
                    return;
                }
                st.outcome(&want);
            }
            st.sample(|| json!({"patterns": &cand[..2]}));
        },
    );
    let lists = seqs(7, 1, cx.pick(5, 6));
    cx.space(
        "tag pattern lists",
        "one position replaced by every bracketed string of up to 5 (thorough 6) characters over 7",
        lists.len() as u64 * 4,
        |i, st| {
            let pos = (i % 4) as usize;
            let chars = [["0", "1", "2", "3", "-", "]", "["], ["0", "5", "9", "A", "-", "]", "."], ["@", "A", "M", "Z", "-", "a", "0"]];
            let al = &chars[match pos { 0 => 0, 3 => 2, _ => 1 }];
            let inner: String = lists[(i / 4) as usize].iter().map(|k| al[*k]).collect();
            let mut parts = vec!["0".to_string(), "1".into(), "2".into(), "A".into()];
            parts[pos] = format!("[{inner}]");
            let p = parts.concat();
            st.state();
            st.step();
            st.trace();
            let want = tag_pattern(&p);
            match TagMatcher::new(&p) {
                Ok(m) if want => {
                    for c in 0..=255u8 {
                        let mut t = *b"012A";
                        t[pos] = c;
                        if !c.is_ascii() { continue; }
                        let t = std::str::from_utf8(&t).unwrap();
                        if let Ok(tag) = TagRef::new(t) {
                            st.step();
                            if m.is_match(&tag) != tag_match(&p, t) {
                                st.fail(format!("{p} on {t}"), json!({"pattern": p, "tag": t}));
                            }
                        }
                    }
                }
                Err(_) if !want => {}
                r => st.fail(
                    format!("pattern '{p}' accepted={}", r.is_ok()),
                    json!({"pattern": p, "expected": want}),
                ),
            }
            st.outcome(&want);
            st.sample(|| json!({"pattern": p}));
        },
    );

    let mut occs: Vec<Option<String>> = vec![None];
    occs.extend((0..100).map(|n| Some(format!("{n:02}"))));
    occs.extend((0..1000).map(|n| Some(format!("{n:03}"))));
    let mut pats = vec!["".to_string(), "/*".into()];
    pats.extend((0..100).map(|n| format!("/{n:02}")));
    pats.extend((0..1000).map(|n| format!("/{n:03}")));
    for a in 0..100 {
        for b in a + 1..100 {
            pats.push(format!("/{a:02}-{b:02}"));
        }
    }
    let b3: Vec<u32> = if cx.thorough {
        (0..1000).step_by(7).chain([1, 9, 10, 99, 100, 101, 998, 999]).collect()
    } else {
        vec![0, 1, 2, 9, 10, 11, 19, 20, 99, 100, 101, 109, 110, 199, 200, 500, 899, 900, 989, 990, 998, 999]
    };
    for a in &b3 {
        for b in &b3 {
            if a < b {
                pats.push(format!("/{a:03}-{b:03}"));
            }
        }
    }
    cx.space(
        "occurrence patterns",
        "none, any, all exact, all two digit ranges and three digit ranges over boundary values x all 1101 occurrences",
        pats.len() as u64,
        |i, st| {
            let p = &pats[i as usize];
            st.state();
            st.trace();
            let m = match OccurrenceMatcher::new(p) {
                Ok(m) => m,
                Err(e) => {
                    st.fail(format!("{p} rejected: {e}"), json!({"pattern": p}));
                    return;
                }
            };
            let mut hits = 0u32;
            for o in &occs {
                st.step();
                let want = occ_match(p.strip_prefix('/'), o.as_deref());
                hits += u32::from(want);
                let real = o.as_ref().map(|s| OccurrenceRef::new(s).unwrap());
                if m.is_match(real.as_ref()) != want {
                    st.fail(
                        format!("{p} on {o:?}: expected {want}"),
                        json!({"pattern": p, "occurrence": o, "expected": want}),
                    );
                    return;
                }
            }
            st.outcome(&hits);
            st.sample(|| json!({"pattern": p, "matching": hits}));
        },
    );
    let strs = seqs(8, 0, cx.pick(6, 7));
    cx.space(
        "occurrence pattern syntax",
        "all strings of up to 6 (thorough 7) characters over 8, with and without leading slash",
        strs.len() as u64,
        |i, st| {
            let al = ["/", "0", "1", "9", "-", "*", "a", " "];
            let s: String = strs[i as usize].iter().map(|k| al[*k]).collect();
            for p in [s.clone(), format!("/{s}"), format!("/12-{s}"), format!("/012-{s}")] {
                st.state();
                st.step();
                st.trace();
                let want = occ_pattern(&p);
                let got = OccurrenceMatcher::new(&p).is_ok();
                if got != want {
                    st.fail(
                        format!("pattern '{p}' accepted={got}"),
                        json!({"pattern": p, "expected": want}),
                    );
                    return;
                }
                st.outcome(&want);
            }
            st.sample(|| json!({"pattern": s}));
        },
    );
}
