//! Similarity thresholds and case folding of conditions wherever they
//! can be given: filter options, conditions in queries, rules.
use crate::c17::verdict;
use crate::cli::{Cli, job};
use crate::cx::{Cx, Radix, esc};
use crate::long::same;

/// 100 characters.
pub fn base() -> String {
    "abcdefghij".repeat(10)
}
/// A value at distance k: similarity 1 - k/100.
pub fn at(k: usize, upper: bool) -> String {
    let s = "_".repeat(k) + &base()[k..];
    if upper { s.to_uppercase() } else { s }
}

/// The record with the value at distance k.
pub fn rec(k: usize, upper: bool) -> Vec<u8> {
    format!("003@ \x1f0{k}\x1e012A \x1fa{k}\x1fx{}\x1e\n", at(k, upper)).into_bytes()
}

/// The distances of the records for threshold t (in percent), without
/// the one whose similarity is the threshold up to rounding.
pub fn dist(t: usize) -> Vec<usize> {
    (0..=100).filter(|k| 100 - k != t || matches!(t, 25 | 50 | 75 | 100)).collect()
}
/// Greater than the threshold.
pub fn hit(k: usize, t: usize) -> bool {
    100 - k > t
}

pub fn commands(cx: &Cx, cli: &Cli) {
    let ths: Vec<Option<usize>> = [None].into_iter().chain((0..100).map(Some)).collect();
    cx.space(
        "similarity thresholds",
        "no threshold and 0..=99 x values of every similarity 0.00, 0.01, .. 1.00 in the same, lower and upper case x --ignore-case",
        ths.len() as u64 * 4,
        |i, st| {
            let mut x = Radix(i);
            let t = *x.of(&ths);
            let (upper, ic) = (x.bool(), x.bool());
            let n = t.unwrap_or(75);
            let ks = dist(n);
            let input: Vec<u8> = ks.iter().flat_map(|k| rec(*k, upper)).collect();
            let mut opts: Vec<String> = vec![];
            if let Some(t) = t {
                opts.extend(["--strsim-threshold".into(), t.to_string()]);
            }
            if ic {
                opts.push("-i".into());
            }
            // upper case letters differ, the replaced characters do not
            let sel = |k: usize| {
                if upper && !ic { hit(100, n) } else { hit(k, n) }
            };
            let m: Vec<usize> = ks.iter().copied().filter(|k| sel(*k)).collect();
            let cond = format!("x =* '{}'", base());
            let (a, w): (Vec<String>, Vec<u8>) = match cx.id.as_str() {
                "C15" => (vec!["filter".into(), format!("012A{{{cond}}}")], m.iter().flat_map(|k| rec(*k, upper)).collect()),
                "C23" => {
                    let mut v: Vec<String> = m.iter().map(|k| format!("{k},1\n")).collect();
                    v.sort();
                    (vec!["frequency".into(), format!("012A{{a | {cond}}}")], v.concat().into_bytes())
                }
                _ => (vec!["select".into(), format!("012A{{a | {cond}}}")], m.iter().map(|k| format!("{k}\n")).collect::<String>().into_bytes()),
            };
            // upper case without folding: the letters of the value at
            // distance k differ in all 100 places
            let a: Vec<String> = [&a[..1], &opts, &a[1..]].concat();
            let j = job(&a).stdin(&input);
            let o = cli.run(&j);
            st.transitions += ks.len() as u64;
            let ok = o.code == 0 && o.files.is_empty() && o.out == w;
            verdict(st, &j, &o, ok, &same("standard output", &o.out, &w).err().unwrap_or_else(|| esc(&w)));
        },
    );
}

pub fn rules(cx: &Cx, cli: &Cli) {
    let b = base();
    let cond = format!("x =* '{b}'");
    // every kind of check with a condition; each selected field of the
    // stream violates it
    let kinds: Vec<(&str, String)> = vec![
        ("allow", format!("path = \"012A{{a | {cond}}}\"\nlist = {{ filename = \"l.csv\", column = \"v\" }}")),
        ("datetime", format!("path = \"012A{{a | {cond}}}\"")),
        ("duplicates", format!("query = \"012A{{a | {cond}}}\"\nthreshold = 1")),
        ("filter", format!("filter = \"012A{{{cond}}}\"")),
        ("filter", format!("filter = \"012A{{{cond}}}\"\ninvert-match = true")),
        ("isni", format!("path = \"012A{{a | {cond}}}\"")),
        ("iso639-2b", format!("path = \"012A{{a | {cond}}}\"")),
        ("jelc", format!("path = \"012A{{a | {cond}}}\"")),
        ("link", format!("source.path = \"012A{{a | {cond}}}\"\ntarget.path = \"099Z.t\"")),
        // the target's condition: links to unselected targets are missing
        ("link", format!("source.path = \"012A.a\"\ntarget.path = \"012A{{a | {cond}}}\"")),
        ("link", format!("source.path = \"012A.a\"\ntarget = {{ path = \"003@.0\", filter = \"012A{{{cond}}}\" }}")),
    ];
    let mut ths: Vec<Option<usize>> = vec![None, Some(0), Some(1), Some(10), Some(25), Some(50), Some(60), Some(74), Some(75), Some(76), Some(79), Some(81), Some(99), Some(100)];
    if cx.thorough {
        ths = [None].into_iter().chain((0..=100).map(Some)).collect();
    }
    cx.space(
        "rule options",
        "11 rules of the 8 kinds with a condition x no threshold and 13 (thorough: 101) thresholds x values of every similarity 0.00, 0.01, .. 1.00 in lower and upper case x case-ignore",
        (kinds.len() * ths.len() * 4) as u64,
        |i, st| {
            let mut x = Radix(i);
            let (upper, ic) = (x.bool(), x.bool());
            let t = *x.of(&ths);
            let (kind, body) = x.of(&kinds);
            let n = t.unwrap_or(80);
            let ks: Vec<usize> = dist(n).into_iter().filter(|k| t.is_some() || *k != 20).collect();
            let mut rule = format!("[rule.R]\ncheck = \"{kind}\"\n{body}\n");
            if let Some(t) = t {
                rule.push_str(&format!("strsim-threshold = {}.{:02}\n", t / 100, t % 100));
            }
            if ic {
                rule.push_str("case-ignore = true\n");
            }
            let sel = |k: usize| {
                if upper && !ic { hit(100, n) } else { hit(k, n) }
            };
            let neg = body.contains("invert") || body.contains("target = {") || body.contains("target.path = \"012A");
            let msg = |k: usize| if *kind == "filter" { String::new() } else { k.to_string() };
            let mut m: Vec<String> = ks.iter().filter(|k| sel(**k) != neg).map(|k| format!("{k},R,error,{}\n", msg(*k))).collect();
            if *kind == "link" {
                m.sort();
            }
            let w = if m.is_empty() { vec![] } else { format!("ppn,rule,level,message\n{}", m.concat()).into_bytes() };
            let input: Vec<u8> = ks.iter().flat_map(|k| rec(*k, upper)).collect();
            let j = job(&["check", "-R", "r.toml"]).file("r.toml", rule.as_bytes()).file("l.csv", b"v\nother\n").stdin(&input);
            let o = cli.run(&j);
            st.transitions += ks.len() as u64;
            let ok = o.code == 0 && o.files.is_empty() && o.out == w;
            verdict(st, &j, &o, ok, &same("standard output", &o.out, &w).err().unwrap_or_else(|| esc(&w)));
        },
    );
}
