//! C17 slice, C18 split and concat, C19 partition, C20 concat --unique,
//! C21 explode.
use std::collections::{BTreeMap, HashSet};

use serde_json::json;

use crate::c02::{gunzip, gzip, occ_match, tag_match};
use crate::cli::{Cli, Job, Line, Out, bad, cat, job, line, ppn, raw};
use crate::cx::{Cx, Radix, St, esc, seqs};
use crate::rec::{MF, MR, f, ser};

fn numbered(n: usize) -> Line {
    let v = format!("0{n}");
    let w = format!("a{}", "v".repeat(n));
    line("n", &[f("003@", &[&v]), f("012A", &[&w])])
}

pub fn verdict(st: &mut St, j: &Job, o: &Out, ok: bool, want: &str) {
    st.state();
    st.step();
    st.trace();
    st.outcome(o);
    st.sample(|| json!({"run": j.replay(), "got": o.show()}));
    if !ok {
        st.fail(
            format!("{}: {}; expected {want}", j.line(), o.show()),
            json!({"run": j.replay(), "expected": want, "got": o.show()}),
        );
    }
}

const MAX: usize = usize::MAX;

/// Positions `start..end` or `length` records from `start`.
fn slice_model(
    ls: &[Line],
    start: usize,
    end: usize,
    len: usize,
    limit: usize,
) -> (Vec<usize>, usize) {
    let mut out = vec![];
    let mut last = 0;
    for (i, l) in ls.iter().enumerate() {
        let inside = i >= start
            && (end == 0 || i < end)
            && (len == 0 || out.len() < len)
            && (limit == 0 || out.len() < limit);
        if inside && l.rec.is_some() {
            out.push(i);
            last = i;
        }
    }
    (out, last)
}

pub fn run17(cx: &Cx) {
    let cli = Cli::new("c17");
    let n = cx.pick(5, 6);
    // bit i: line i is invalid
    let mut words: Vec<Vec<Line>> = vec![];
    for len in 0..=n {
        for m in 0..1u32 << len {
            words.push(
                (0..len)
                    .map(|i| {
                        if m >> i & 1 == 1 {
                            bad("bad", b"x\n")
                        } else {
                            numbered(i)
                        }
                    })
                    .collect(),
            );
        }
    }
    let starts: Vec<Option<usize>> =
        vec![None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(6)];
    let starts = if cx.thorough {
        let mut s = starts;
        s.extend([Some(5), Some(7)]);
        s
    } else {
        starts
    };
    // (end, length)
    let mut lim = vec![(0, 0)];
    for k in 1..=n as usize + 1 {
        lim.push((k, 0));
        lim.push((0, k));
    }
    cx.space(
        "ranges",
        "every stream of up to 5 (thorough: 6) valid or invalid lines x start x end or length x --skip-invalid",
        (words.len() * starts.len() * lim.len() * 2) as u64,
        |i, st| {
            let mut x = Radix(i);
            let skip = x.bool();
            let (end, len) = *x.of(&lim);
            let start = *x.of(&starts);
            let w = x.of(&words);
            let has_bad = w.iter().any(|l| l.rec.is_none());
            if skip && !has_bad {
                return;
            }
            let input = cat(w);
            let mut a = vec!["slice".to_string()];
            if skip {
                a.push("-s".into());
            }
            if let Some(s) = start {
                a.extend(["--start".into(), s.to_string()]);
            }
            if end > 0 {
                a.extend(["--end".into(), end.to_string()]);
            }
            if len > 0 {
                a.extend(["--length".into(), len.to_string()]);
            }
            let j = job(&a).stdin(&input);
            let o = cli.run(&j);
            st.transitions += w.len() as u64;
            let (sel, last) =
                slice_model(w, start.unwrap_or(0), end, len, 0);
            let want = cat(sel.iter().map(|i| &w[*i]));
            let ok = if skip || !has_bad {
                o.code == 0 && o.out == want
            } else {
                // the records up to the first invalid line
                let first =
                    w.iter().position(|l| l.rec.is_none()).unwrap();
                let must_fail = sel.last().is_some() && first < last
                    || (end == 0 && len == 0);
                o.clean()
                    && (o.code == 0 || want.starts_with(&o.out) || o.out.is_empty())
                    && (o.code != 0 || (!must_fail && o.out == want))
            };
            verdict(st, &j, &o, ok, &esc(&want));
        },
    );

    let ext = [
        0usize,
        1,
        2,
        3,
        4,
        MAX / 2,
        MAX / 2 + 1,
        MAX - 2,
        MAX - 1,
        MAX,
    ];
    let w: Vec<Line> = (0..4)
        .map(|i| if i == 2 { bad("bad", b"\n") } else { numbered(i) })
        .collect();
    let input = cat(&w);
    cx.space(
        "extremes",
        "start, end, length and limit over 0..4 and the limits of the number range",
        (ext.len() * ext.len() * 3) as u64,
        |i, st| {
            let mut x = Radix(i);
            let start = *x.of(&ext);
            let v = *x.of(&ext);
            let mode = x.take(3);
            let (opt, end, len, limit) = match mode {
                0 => ("--end", v, 0, 0),
                1 => ("--length", 0, v, 0),
                _ => ("--limit", 0, 0, v),
            };
            let a = [
                "slice".to_string(),
                "-s".into(),
                "--start".into(),
                start.to_string(),
                opt.into(),
                v.to_string(),
            ];
            let j = job(&a).stdin(&input);
            let o = cli.run(&j);
            st.transitions += w.len() as u64;
            let (sel, _) = slice_model(&w, start, end, len, limit);
            let want = cat(sel.iter().map(|i| &w[*i]));
            let ok = o.code == 0 && o.out == want;
            verdict(st, &j, &o, ok, &esc(&want));
        },
    );

    // positions run across inputs
    let w: Vec<Line> = (0..5)
        .map(|i| if i == 1 { bad("bad", b"\n") } else { numbered(i) })
        .collect();
    let lim2: Vec<_> = lim.clone();
    cx.space(
        "several inputs",
        "every split of five lines over three inputs x start x end or length x limit",
        (21 * starts.len() * lim2.len() * 3) as u64,
        |i, st| {
            let mut x = Radix(i);
            let limit = x.take(3);
            let (end, len) = *x.of(&lim2);
            let start = x.of(&starts).unwrap_or(0);
            let mut cuts = vec![];
            for a in 0..=5 {
                for b in a..=5 {
                    cuts.push((a, b));
                }
            }
            let (p, q) = *x.of(&cuts);
            let (b1, b2, b3) =
                (cat(&w[..p]), gzip(&cat(&w[p..q])), cat(&w[q..]));
            let mut a = vec![
                "slice".to_string(),
                "-s".into(),
                format!("--start={start}"),
            ];
            if end > 0 {
                a.push(format!("--end={end}"));
            }
            if len > 0 {
                a.push(format!("--length={len}"));
            }
            if limit > 0 {
                a.push(format!("--limit={limit}"));
            }
            a.extend(["1.dat".into(), "2.dat.gz".into(), "3.dat".into()]);
            let j = job(&a)
                .file("1.dat", &b1)
                .file("2.dat.gz", &b2)
                .file("3.dat", &b3);
            let o = cli.run(&j);
            st.transitions += w.len() as u64;
            let (sel, _) = slice_model(&w, start, end, len, limit);
            let want = cat(sel.iter().map(|i| &w[*i]));
            let ok = o.code == 0 && o.out == want;
            verdict(st, &j, &o, ok, &esc(&want));
        },
    );
    cx.assume("filter options do not advance the position of records that are filtered out (C26 covers them)");
    crate::c26::options(cx, &cli, &["slice"]);
    crate::long::cli(cx, &cli);
    crate::prims::cli(cx, &cli);
}

fn unz(name: &str, b: &[u8]) -> Vec<u8> {
    if name.ends_with(".gz") {
        gunzip(b).unwrap_or(b"(not a complete gzip stream)".to_vec())
    } else {
        b.to_vec()
    }
}

pub fn run18(cx: &Cx) {
    let cli = Cli::new("c18");
    let nmax = cx.pick(8, 13);
    let chunks: Vec<u64> = (1..=nmax as u64 + 1)
        .chain([100, 4294967295])
        .collect();
    let templates: [Option<&str>; 4] =
        [None, Some("c-{}.dat"), Some("{}.dat.gz"), Some("x{}y")];
    cx.space(
        "split",
        "0..8 (thorough: 13) records x every chunk size x gzip x 4 templates x output directory x \
         invalid lines in between, into an empty directory and over existing longer files; the chunks are concatenated again",
        ((nmax + 1) * chunks.len() * 2 * 4 * 3) as u64,
        |i, st| {
            let mut x = Radix(i);
            let n = x.take(nmax + 1);
            let k = *x.of(&chunks) as usize;
            let gz = x.bool();
            let t = *x.of(&templates);
            let mode = x.take(3);
            let recs: Vec<Line> = (0..n).map(numbered).collect();
            let mut input = vec![];
            for (i, r) in recs.iter().enumerate() {
                if mode == 1 && i % 2 == 0 {
                    input.extend_from_slice(b"bad\n");
                }
                input.extend_from_slice(&r.bytes);
            }
            let mut a = vec!["split".to_string(), k.to_string()];
            if gz {
                a.push("--gzip".into());
            }
            if mode == 1 {
                a.push("--skip-invalid".into());
            }
            if let Some(t) = t {
                a.extend(["--template".into(), t.into()]);
            }
            let dir = if mode == 2 { "new/out/" } else { "" };
            if mode == 2 {
                a.extend(["-o".into(), "new/out".into()]);
            }
            a.push("in.dat".into());
            let j = job(&a).file("in.dat", &input);
            let o = cli.run(&j);
            st.transitions += n as u64;
            let t = t.unwrap_or(if gz { "{}.dat.gz" } else { "{}.dat" });
            let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
            let mut names = vec![];
            let parts: Vec<&[Line]> = if n == 0 {
                vec![&[]]
            } else {
                recs.chunks(k).collect()
            };
            for (i, c) in parts.iter().enumerate() {
                let name =
                    format!("{dir}{}", t.replace("{}", &i.to_string()));
                want.insert(name.clone(), cat(c.iter()));
                names.push(name);
            }
            let got: BTreeMap<String, Vec<u8>> = o
                .files
                .iter()
                .map(|(k, v)| {
                    let v = if gz && !k.ends_with(".gz") {
                        gunzip(v).unwrap_or(b"(gzip)".to_vec())
                    } else {
                        unz(k, v)
                    };
                    (k.clone(), v)
                })
                .collect();
            let ok = o.code == 0 && o.out.is_empty() && got == want;
            verdict(
                st,
                &j,
                &o,
                ok,
                &format!("{:?}", want.iter().map(|(k, v)| (k, esc(v))).collect::<Vec<_>>()),
            );
            if st.failed() || (gz && !t.ends_with(".gz")) {
                return;
            }
            // the same over existing files
            let old = cat(&(0..40).map(|n| numbered(n + 50)).collect::<Vec<_>>());
            let mut j = job(&a).file("in.dat", &input);
            for n in &names {
                j = j.file(n, &old);
            }
            let o2 = cli.run(&j);
            verdict(st, &j, &o2, (o2.code, &o2.out, &o2.files) == (0, &o.out, &o.files), "the same files as without existing ones");
            if st.failed() {
                return;
            }
            // and back
            let mut a = vec!["concat".to_string()];
            a.extend(names);
            let j = job(&a).keep();
            let o = cli.run(&j);
            let want = cat(&recs);
            let ok = o.code == 0 && o.out == want;
            verdict(st, &j, &o, ok, &esc(&want));
        },
    );

    // concat
    let files: Vec<(&str, Vec<u8>)> = vec![
        ("e.dat", vec![]),
        ("a.dat", numbered(1).bytes),
        ("b.dat", cat(&[numbered(2), numbered(3)])),
        ("g.dat.gz", gzip(&cat(&[numbered(4), numbered(1)]))),
    ];
    let words = seqs(files.len(), 0, cx.pick(3, 4));
    cx.space(
        "concat",
        "every list of up to 3 (thorough: 4) of 4 inputs x stdout, -o, gzip, --tee, --tee with -o, --append x existing contents x all/unique by number/unique by hash",
        words.len() as u64 * 9 * 2 * 3,
        |i, st| {
            let mut x = Radix(i);
            let dest = x.take(9);
            let old = x.bool();
            let unique = x.take(3);
            let w = x.of(&words);
            if w.is_empty() {
                return;
            }
            let mut a = vec!["concat".to_string()];
            // (-o, --tee, appended)
            let (out, tee, app) = match dest {
                0 => (None, None, false),
                1 => (Some("o.dat"), None, false),
                2 => (Some("o.dat.gz"), None, false),
                3 => (Some("o.dat"), None, true),
                4 => (None, Some("t.dat"), false),
                5 => (None, Some("t.dat"), true),
                6 => (Some("o.dat"), Some("t.dat"), false),
                7 => (Some("o.dat.gz"), Some("t.dat"), false),
                _ => (Some("o.dat"), Some("t.dat"), true),
            };
            let names: Vec<&str> = out.into_iter().chain(tee).collect();
            if let Some(n) = out {
                a.extend(["-o".into(), n.into()]);
            }
            if let Some(n) = tee {
                a.extend(["--tee".into(), n.into()]);
            }
            match unique {
                1 => a.push("--unique".into()),
                2 => a.extend(["--unique".into(), "--unique-strategy".into(), "hash".into()]),
                _ => {}
            }
            if app {
                a.push("--append".into());
            }
            let mut want: Vec<Vec<u8>> = vec![];
            for i in w {
                a.push(files[*i].0.into());
                for l in unz(files[*i].0, &files[*i].1).split_inclusive(|c| *c == b'\n') {
                    if unique == 0 || !want.contains(&l.to_vec()) {
                        want.push(l.to_vec());
                    }
                }
            }
            let want = want.concat();
            let mut j = job(&a);
            for f in &files {
                j = j.file(f.0, &f.1);
            }
            let prev = numbered(7).bytes;
            if old {
                for n in &names {
                    j = j.file(n, &prev);
                }
            }
            let o = cli.run(&j);
            st.transitions += w.len() as u64;
            let mut full = if app && old { prev.clone() } else { vec![] };
            full.extend_from_slice(&want);
            let mut ok = o.code == 0;
            for n in names {
                let got = o
                    .files
                    .get(n)
                    .cloned()
                    .or(old.then(|| prev.clone()));
                ok &= got.map(|v| unz(n, &v)) == Some(full.clone());
            }
            ok &= o.out == if out.is_none() { want } else { vec![] };
            verdict(st, &j, &o, ok, &esc(&full));
        },
    );

    // tee and output at the same time
    cx.seq("tee with output", "both destinations", |st| {
        for app in [false, true] {
            let (a, b) = (numbered(1).bytes, numbered(2).bytes);
            let mut v =
                vec!["concat", "a.dat", "b.dat", "-o", "o.dat", "--tee", "t.dat.gz"];
            if app {
                v.push("--append");
            }
            let j = job(&v).file("a.dat", &a).file("b.dat", &b);
            for n in 1..=2 {
                let o = cli.run(&if n == 1 {
                    job(&v).file("a.dat", &a).file("b.dat", &b)
                } else {
                    job(&v).keep()
                });
                st.step();
                let mut want = [a.clone(), b.clone()].concat();
                if n == 2 && app {
                    want = [want.clone(), want].concat();
                }
                let ok = o.code == 0
                    && o.out.is_empty()
                    && o.files.get("o.dat") == Some(&want)
                    && o.files
                        .get("t.dat.gz")
                        .and_then(|v| gunzip(v).ok())
                        == Some(want.clone());
                verdict(st, &j, &o, ok, &esc(&want));
            }
        }
    });
    destinations(cx, &cli, &[None]);
    crate::c26::options(cx, &cli, &["split"]);
    crate::long::cli(cx, &cli);
    crate::prims::cli(cx, &cli);
}

pub fn run19(cx: &Cx) {
    let cli = Cli::new("c19");
    let mk = |n: usize, fs: &[MF]| {
        let v = format!("0{n}");
        let mut r = vec![f("003@", &[&v])];
        r.extend_from_slice(fs);
        Line { name: "r", bytes: ser(&r), rec: Some(r) }
    };
    // value sets of a record
    let sets: Vec<Vec<MF>> = vec![
        vec![],
        vec![f("012A", &["aa"])],
        vec![f("012A", &["ab"])],
        vec![f("012A", &["aa", "ab"])],
        vec![f("012A", &["ab", "ba", "aa"])],
        vec![f("012A", &["aa", "aa"])],
        vec![f("012A", &["aa"]), f("012A", &["ax"]), f("012A", &["aa"])],
        vec![f("012A/01", &["aa", "b1"]), f("012A/01", &["a\u{e4} ."])],
        vec![f("012A", &["bb", "b1"]), f("013A", &["aa"])],
        vec![f("012A", &["aA"])],
        vec![raw("012A", 'a', b"\xff")],
        vec![raw("012A", 'a', b"\xfe")],
        // values that are alike
        vec![f("012A", &["aa", "aA", "bA"])],
        vec![f("012A", &["aa ", "a a", "aa"])],
        vec![f("012A", &["a\u{e4}", "aa\u{308}", "bA\u{308}"])],
        vec![f("012A", &["a1", "a01", "b10", "a1.0"])],
    ];
    // path and the values it selects
    type Sel = fn(&MR) -> Vec<&[u8]>;
    fn pick<'a>(
        r: &'a MR,
        p: &dyn Fn(&MF) -> bool,
        codes: &str,
    ) -> Vec<&'a [u8]> {
        r.iter()
            .filter(|f| p(f))
            .flat_map(|f| f.subs.iter())
            .filter(|s| codes.contains(s.0))
            .map(|s| &s.1[..])
            .collect()
    }
    let paths: Vec<(&str, Sel)> = vec![
        ("012A.a", |r| {
            pick(r, &|f| f.tag == "012A" && f.occ.is_none(), "a")
        }),
        ("012A/*.a", |r| pick(r, &|f| f.tag == "012A", "a")),
        ("012A/*.[ab]", |r| pick(r, &|f| f.tag == "012A", "ab")),
        ("012A{ a | b? }", |r| {
            pick(
                r,
                &|f| {
                    f.tag == "012A"
                        && f.occ.is_none()
                        && f.subs.iter().any(|s| s.0 == 'b')
                },
                "a",
            )
        }),
        ("01[2-3]A.a", |r| {
            pick(
                r,
                &|f| {
                    (f.tag == "012A" || f.tag == "013A")
                        && f.occ.is_none()
                },
                "a",
            )
        }),
    ];
    let templates: [(Option<&str>, bool); 5] = [
        (None, false),
        (None, true),
        (Some("p-{}.dat"), false),
        (Some("{}.gz"), false),
        (Some("{}-{}"), true),
    ];
    let words = seqs(sets.len(), 0, cx.pick(2, 3));
    let long = seqs(4, 3, cx.pick(3, 5));
    let one = |st: &mut St, w: &[usize], p: &(&str, Sel), t: (Option<&str>, bool), limit: usize, dir: bool| {
        let recs: Vec<Line> = w
            .iter()
            .enumerate()
            .map(|(n, s)| mk(n, &sets[*s]))
            .collect();
        let input = cat(&recs);
        let mut a = vec!["partition".to_string()];
        if t.1 {
            a.push("--gzip".into());
        }
        if let Some(t) = t.0 {
            a.extend(["--template".into(), t.into()]);
        }
        if limit > 0 {
            a.extend(["--limit".into(), limit.to_string()]);
        }
        if dir {
            a.extend(["--outdir".into(), "x/y".into()]);
        }
        a.extend([p.0.into(), "in.dat".into()]);
        let j = job(&a).file("in.dat", &input);
        let o = cli.run(&j);
        st.transitions += w.len() as u64;
        let tpl = t.0.unwrap_or(if t.1 { "{}.dat.gz" } else { "{}.dat" });
        let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut n = 0;
        for r in &recs {
            let mut done = HashSet::new();
            for v in p.1(r.rec.as_ref().unwrap()) {
                let v = String::from_utf8_lossy(v);
                let name = format!(
                    "{}{}",
                    if dir { "x/y/" } else { "" },
                    tpl.replace("{}", &v)
                );
                if done.insert(name.clone()) {
                    want.entry(name).or_default().extend(&r.bytes);
                }
            }
            if !done.is_empty() {
                n += 1;
                if limit > 0 && n == limit {
                    break;
                }
            }
        }
        let plain = |o: &crate::cli::Out| -> BTreeMap<String, Vec<u8>> {
            o.files
                .iter()
                .map(|(k, v)| {
                    let v = if t.1 || k.ends_with(".gz") {
                        gunzip(v).unwrap_or(b"(not gzip)".to_vec())
                    } else {
                        v.clone()
                    };
                    (k.clone(), v)
                })
                .collect()
        };
        let ok = o.code == 0 && o.out.is_empty() && plain(&o) == want;
        let text: Vec<_> =
            want.iter().map(|(k, v)| (k.clone(), esc(v))).collect();
        verdict(st, &j, &o, ok, &format!("{text:?}"));
        if st.failed() || want.is_empty() {
            return;
        }
        // the same over existing files
        let old = cat(&(0..9).map(numbered).collect::<Vec<_>>());
        let mut j = job(&a).file("in.dat", &input);
        for n in want.keys() {
            j = j.file(n, &old);
        }
        let o = cli.run(&j);
        let ok = o.code == 0 && o.out.is_empty() && plain(&o) == want;
        verdict(st, &j, &o, ok, &format!("{text:?} instead of the existing files"));
    };
    cx.space(
        "partitions",
        "every stream of up to 2 (thorough: 3) records over 16 sets of values x 5 paths x 5 templates, into an empty directory and over existing longer files",
        words.len() as u64 * 5 * 5,
        |i, st| {
            let mut x = Radix(i);
            let t = *x.of(&templates);
            let p = *x.of(&paths);
            let w = x.of(&words).clone();
            one(st, &w, &p, t, 0, i % 3 == 0);
        },
    );
    cx.space(
        "longer streams and limits",
        "every stream of 3 (thorough: up to 5) records over 4 sets of values x 2 paths x limit 0..3",
        long.len() as u64 * 2 * 4,
        |i, st| {
            let mut x = Radix(i);
            let limit = x.take(4);
            let p = paths[x.take(2)];
            let w: Vec<usize> =
                x.of(&long).iter().map(|i| [0, 3, 4, 6][*i]).collect();
            one(st, &w, &p, (None, false), limit, false);
        },
    );
    // many partitions at once
    cx.seq("many partitions", "1000 records with 300 values", |st| {
        let recs: Vec<Line> = (0..1000)
            .map(|n| {
                let v = format!("av{}", n * 7 % 300);
                mk(n, &[f("012A", &[&v])])
            })
            .collect();
        let input = cat(&recs);
        let j = job(&["partition", "012A.a", "in.dat"])
            .file("in.dat", &input);
        let o = cli.run(&j);
        st.transitions += 1000;
        let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for (n, r) in recs.iter().enumerate() {
            want.entry(format!("v{}.dat", n * 7 % 300))
                .or_default()
                .extend(&r.bytes);
        }
        let ok = o.code == 0 && o.files == want;
        st.state();
        st.trace();
        if !ok {
            st.fail(
                "1000 records with 300 values".to_string(),
                json!({"run": "partition 012A.a", "files": o.files.len()}),
            );
        }
    });
    cx.assume("values are plain file names (no '/') that fit the file system, and the template contains {}");
    crate::c26::options(cx, &cli, &["partition"]);
    crate::long::cli(cx, &cli);
    crate::prims::cli(cx, &cli);
}

/// concat (with or without --unique) to all combinations of its
/// destinations.
fn destinations(cx: &Cx, cli: &Cli, unique: &[Option<bool>]) {
    let ls = [
        line("a", &[f("003@", &["01"]), f("012A", &["ax"])]),
        line("a2", &[f("003@", &["01"]), f("012A", &["ay"])]),
        line("b", &[f("003@", &["02"]), f("012A", &["ax"])]),
        line("n", &[f("012A", &["ax"])]),
        bad("bad", b"003@ \x1f01\n"),
    ];
    let words = seqs(ls.len(), 0, cx.pick(3, 4));
    // the name of the output and of the tee output
    let outs: [(Option<&str>, Option<&str>); 8] = [
        (None, None),
        (Some("o.dat"), None),
        (Some("o.dat.gz"), None),
        (None, Some("t.dat")),
        (None, Some("t.dat.gz")),
        (Some("o.dat"), Some("t.dat")),
        (Some("o.dat.gz"), Some("t.dat")),
        (Some("o.dat"), Some("t.dat.gz")),
    ];
    let old = b"003@ \x1f01\x1e\n003@ \x1f09\x1e\n".to_vec();
    cx.space(
        "destinations",
        "every sequence of up to 3 (thorough: 4) of 5 lines (equal numbers, equal records, no number, invalid) over two inputs x standard output, -o, --tee and both, plain or .gz x new, existing, appended",
        (words.len() * unique.len() * outs.len() * 3) as u64,
        |i, st| {
            let mut x = Radix(i);
            let u = *x.of(unique);
            let (o, t) = *x.of(&outs);
            let mode = x.take(3);
            let w = x.of(&words);
            if o.is_none() && t.is_none() && mode > 0 {
                return;
            }
            let mut v = vec!["concat", "-s"];
            if let Some(h) = u {
                v.extend(["-u", "--unique-strategy", if h { "hash" } else { "idn" }]);
            }
            if let Some(o) = o {
                v.extend(["-o", o]);
            }
            if let Some(t) = t {
                v.extend(["--tee", t]);
            }
            if mode == 2 {
                v.push("--append");
            }
            v.extend(["1.dat", "2.dat"]);
            let mut seen = HashSet::new();
            let want: Vec<u8> = cat(w.iter().map(|k| &ls[*k]).filter(|l| {
                let Some(r) = &l.rec else { return false };
                match u {
                    None => true,
                    Some(true) => seen.insert(l.bytes.clone()),
                    Some(false) => ppn(r).is_some_and(|p| seen.insert(p.to_vec())),
                }
            }));
            let cut = w.len() / 2;
            let part = |r: &[usize]| cat(r.iter().map(|k| &ls[*k]));
            let (a, b) = (part(&w[..cut]), part(&w[cut..]));
            let mut j = job(&v).file("1.dat", &a).file("2.dat", &b);
            let prev = |n: &str| if n.ends_with("gz") { gzip(&old) } else { old.clone() };
            let (po, pt) = (o.map(prev), t.map(prev));
            if mode > 0 {
                for (n, p) in [(o, &po), (t, &pt)] {
                    if let (Some(n), Some(p)) = (n, p) {
                        j = j.file(n, p);
                    }
                }
            }
            let r = cli.run(&j);
            let full = if mode == 2 { [old.clone(), want.clone()].concat() } else { want.clone() };
            let mut ok = r.ok() && r.out == if o.is_none() { want.clone() } else { vec![] };
            for (n, p) in [(o, &po), (t, &pt)] {
                if let (Some(n), Some(p)) = (n, p) {
                    // only changed files are reported
                    let got = r.files.get(n).cloned().or((mode > 0).then(|| p.clone()));
                    let got = got.and_then(|g| if n.ends_with("gz") { gunzip(&g).ok() } else { Some(g) });
                    ok &= got.as_ref() == Some(&full);
                }
            }
            verdict(st, &j, &r, ok, &esc(&full));
        },
    );
}

pub fn run20(cx: &Cx) {
    let cli = Cli::new("c20");
    let recs: Vec<Line> = vec![
        line("a", &[f("003@", &["01"]), f("012A", &["ax"])]),
        line("a2", &[f("003@", &["01"]), f("012A", &["ay"])]),
        line("b", &[f("003@", &["02"]), f("012A", &["ax"])]),
        line("n", &[f("012A", &["ax"])]),
        line("n2", &[f("012A", &["ay"]), f("012A", &["ax"])]),
        line("ff", &[raw("003@", '0', b"\xff")]),
        line("fe", &[raw("003@", '0', b"\xfe")]),
        line("two", &[f("003@", &["02", "01"])]),
        line("occ", &[f("003@/01", &["01"])]),
    ];
    let key = |l: &Line, hash: bool| -> Option<Vec<u8>> {
        if hash {
            Some(l.bytes.clone())
        } else {
            ppn(l.rec.as_ref().unwrap()).map(|p| p.to_vec())
        }
    };
    let model = |w: &[usize], hash: bool| -> Vec<usize> {
        let mut seen = HashSet::new();
        w.iter()
            .copied()
            .filter(|i| {
                key(&recs[*i], hash).is_some_and(|k| seen.insert(k))
            })
            .collect()
    };
    let words = seqs(recs.len(), 0, cx.pick(3, 4));
    let mut sub = seqs(5, 4, 5);
    if cx.thorough {
        sub = seqs(5, 5, 6);
    }
    let all: Vec<Vec<usize>> = words
        .into_iter()
        .chain(sub)
        .collect();
    cx.space(
        "histories",
        "every sequence of up to 3 (thorough: 4) of 9 and of 4 and 5 (6) of 5 records, spread over three inputs x strategy",
        all.len() as u64 * 2,
        |i, st| {
            let mut x = Radix(i);
            let hash = x.bool();
            let w = x.of(&all);
            // the distribution varies with the sequence
            let p = (i as usize * 7 + 3) % (w.len() + 1);
            let q = p + (i as usize * 5 + 1) % (w.len() - p + 1);
            let part = |r: &[usize]| cat(r.iter().map(|i| &recs[*i]));
            let (a, b, c) = (part(&w[..p]), gzip(&part(&w[p..q])), part(&w[q..]));
            let mut v = vec!["concat", "--unique"];
            if hash {
                v.extend(["--unique-strategy", "hash"]);
            } else if i % 4 == 0 {
                v.extend(["--unique-strategy", "idn"]);
            }
            v.extend(["1.dat", "2.dat.gz", "3.dat"]);
            let j = job(&v)
                .file("1.dat", &a)
                .file("2.dat.gz", &b)
                .file("3.dat", &c);
            let o = cli.run(&j);
            st.transitions += w.len() as u64;
            let sel = model(w, hash);
            let want = part(&sel);
            let ok = o.code == 0 && o.out == want;
            verdict(st, &j, &o, ok, &esc(&want));
        },
    );
    // all distributions and the repetition
    let words = seqs(5, 0, 3);
    cx.space(
        "distributions",
        "every sequence of up to 3 of 5 records x every distribution over three inputs x strategy; the result is fed back",
        words.len() as u64 * 2,
        |i, st| {
            let mut x = Radix(i);
            let hash = x.bool();
            let w = x.of(&words);
            let part = |r: &[usize]| cat(r.iter().map(|i| &recs[*i]));
            let s = if hash { "hash" } else { "idn" };
            let want = part(&model(w, hash));
            for p in 0..=w.len() {
                for q in p..=w.len() {
                    let (a, b, c) =
                        (part(&w[..p]), part(&w[p..q]), part(&w[q..]));
                    let j = job(&["concat", "-u", "--unique-strategy", s, "1", "2", "3"])
                        .file("1", &a)
                        .file("2", &b)
                        .file("3", &c);
                    let o = cli.run(&j);
                    st.transitions += w.len() as u64;
                    let ok = o.code == 0 && o.out == want;
                    verdict(st, &j, &o, ok, &esc(&want));
                    if st.failed() {
                        return;
                    }
                }
            }
            let j = job(&["concat", "-u", "--unique-strategy", s, "--tee", "t"])
                .stdin(&want);
            let o = cli.run(&j);
            let ok = o.code == 0
                && o.out == want
                && o.files.get("t") == Some(&want);
            verdict(st, &j, &o, ok, &esc(&want));
        },
    );
    // a longer input
    cx.seq("many records", "3000 records with 1000 numbers", |st| {
        for hash in [false, true] {
            let r: Vec<Line> = (0..3000usize)
                .map(|i| {
                    let v = format!("0{}", i * i % 1000);
                    let w = format!("a{}", i % 2);
                    line("r", &[f("003@", &[&v]), f("012A", &[&w])])
                })
                .collect();
            let mut seen = HashSet::new();
            let want = cat(r.iter().filter(|l| {
                seen.insert(key(l, hash).unwrap())
            }));
            let input = cat(&r);
            let s = if hash { "hash" } else { "idn" };
            let j = job(&["concat", "-u", "--unique-strategy", s, "i"])
                .file("i", &input);
            let o = cli.run(&j);
            st.transitions += 3000;
            st.state();
            st.trace();
            if o.code != 0 || o.out != want {
                st.fail(
                    format!("unique by {s} over 3000 records"),
                    json!({"strategy": s, "length": o.out.len()}),
                );
            }
        }
    });
    destinations(cx, &cli, &[Some(false), Some(true)]);
    cx.assume("with the strategy idn, records without identification number are not written, as the help text documents");
    crate::long::cli(cx, &cli);
    crate::prims::cli(cx, &cli);
}

fn level(f: &MF) -> u8 {
    f.tag.as_bytes()[0] - b'0'
}

/// The exploded records of a record (main fields first).
fn explode(r: &MR, lvl: usize) -> Vec<MR> {
    if lvl == 0 {
        return vec![r.clone()];
    }
    let m = r.iter().take_while(|f| level(f) == 0).count();
    let (main, rest) = r.split_at(m);
    // a local block starts with each local field that does not follow
    // a local field
    let mut blocks: Vec<Vec<MF>> = vec![];
    for (i, f) in rest.iter().enumerate() {
        if i == 0 || (level(f) == 1 && level(&rest[i - 1]) == 2) {
            blocks.push(vec![]);
        }
        blocks.last_mut().unwrap().push(f.clone());
    }
    let mut out = vec![];
    for b in blocks {
        if lvl == 1 {
            out.push([main.to_vec(), b].concat());
            continue;
        }
        let n = b.iter().take_while(|f| level(f) == 1).count();
        let (local, copies) = b.split_at(n);
        for c in copies.chunk_by(|a, b| a.occ == b.occ) {
            out.push([main, local, c].concat());
        }
    }
    out
}

pub fn run21(cx: &Cx) {
    let cli = Cli::new("c21");
    let alpha = [
        f("101@", &["a1"]),
        f("144Z/05", &["ax"]),
        f("203@/01", &["0c1"]),
        f("208@/01", &["ad"]),
        f("203@/02", &["0c2"]),
        f("220B", &["ae"]),
    ];
    let n = cx.pick(6, 7);
    let words = seqs(alpha.len(), 0, n);
    let levels = ["main", "local", "copy"];
    let rec = |k: usize, w: &[usize], mains: usize| -> MR {
        let v = format!("0{k}");
        let mut r = vec![f("003@", &[&v])];
        if mains > 1 {
            r.push(f("021A", &["at", "by"]));
        }
        r.extend(w.iter().map(|i| alpha[*i].clone()));
        r
    };
    let batch = 500usize;
    let nb = words.len().div_ceil(batch);
    cx.space(
        "levels",
        "every sequence of up to 6 (thorough: 7) local and copy fields over 6 fields after one or two \
         main fields x 3 levels, 500 records per run",
        (nb * 3 * 2) as u64,
        |i, st| {
            let mut x = Radix(i);
            let lvl = x.take(3);
            let mains = 1 + x.take(2);
            let b = x.take(nb);
            let ws = &words[b * batch..((b + 1) * batch).min(words.len())];
            let recs: Vec<MR> = ws
                .iter()
                .enumerate()
                .map(|(k, w)| rec(k, w, mains))
                .collect();
            let input: Vec<u8> = recs.iter().flat_map(ser).collect();
            let j = job(&["explode", levels[lvl]]).stdin(&input);
            let o = cli.run(&j);
            let mut pos = 0;
            for r in &recs {
                st.state();
                st.transitions += r.len() as u64;
                let want: Vec<u8> =
                    explode(r, lvl).iter().flat_map(ser).collect();
                if !o.out[pos.min(o.out.len())..].starts_with(&want) {
                    let got = &o.out[pos.min(o.out.len())
                        ..(pos + want.len() + 200).min(o.out.len())];
                    st.fail(
                        format!(
                            "explode {} of '{}': '{}...', expected '{}'",
                            levels[lvl],
                            esc(&ser(r)),
                            esc(got),
                            esc(&want)
                        ),
                        json!({"level": levels[lvl], "record": esc(&ser(r)), "got": esc(got), "expected": esc(&want)}),
                    );
                    return;
                }
                pos += want.len();
                st.trace();
                st.outcome(&want.len());
                if i == 2 {
                    st.sample(|| json!({"level": levels[lvl], "record": esc(&ser(r)), "exploded": esc(&want)}));
                }
            }
            if o.code != 0 || pos != o.out.len() {
                st.fail(
                    format!("explode {}: status {}, surplus output", levels[lvl], o.code),
                    json!({"level": levels[lvl], "surplus": esc(&o.out[pos..])}),
                );
            }
        },
    );

    // options apply to the exploded records
    type P = &'static [(&'static str, Option<&'static str>)];
    let lists: [(&str, P); 5] = [
        ("", &[]),
        ("003@", &[("003@", None)]),
        ("2.../*", &[("2...", Some("*"))]),
        ("003@,203@/01", &[("003@", None), ("203@", Some("01"))]),
        ("0...,1.../*", &[("0...", None), ("1...", Some("*"))]),
    ];
    type W = fn(&MR) -> bool;
    let wheres: [(&str, W); 4] = [
        ("", |_| true),
        ("203@/*?", |r| r.iter().any(|f| f.tag == "203@")),
        ("101@?", |r| r.iter().any(|f| f.tag == "101@")),
        ("#203@/* == 1", |r| {
            r.iter().filter(|f| f.tag == "203@").count() == 1
        }),
    ];
    let small: Vec<MR> = seqs(alpha.len(), 0, 4)
        .iter()
        .enumerate()
        .filter(|(k, _)| cx.thorough || k % 3 == 0)
        .map(|(k, w)| rec(k, w, 2))
        .collect();
    let input: Vec<u8> = small.iter().flat_map(ser).collect();
    let hit = |f: &MF, p: P| {
        p.iter().any(|(t, o)| {
            tag_match(t, &f.tag) && occ_match(*o, f.occ.as_deref())
        })
    };
    cx.space(
        "options",
        "3 levels x 5 x 5 lists of kept and discarded fields x 4 filters x limit, on 500 records",
        3 * 5 * 5 * 4 * 4,
        |i, st| {
            let mut x = Radix(i);
            let lvl = x.take(3);
            let kp = x.of(&lists);
            let dc = x.of(&lists);
            let wh = x.of(&wheres);
            let limit = *x.of(&[0usize, 1, 3, 40]);
            let mut a = vec!["explode".to_string()];
            if !kp.0.is_empty() {
                a.extend(["--keep".into(), kp.0.into()]);
            }
            if !dc.0.is_empty() {
                a.extend(["--discard".into(), dc.0.into()]);
            }
            if !wh.0.is_empty() {
                a.extend(["--where".into(), wh.0.into()]);
            }
            if limit > 0 {
                a.extend(["--limit".into(), limit.to_string()]);
            }
            a.push(levels[lvl].into());
            let j = job(&a).stdin(&input);
            let o = cli.run(&j);
            let mut want = vec![];
            let mut n = 0;
            'o: for r in &small {
                st.step();
                for e in explode(r, lvl) {
                    if !wh.1(&e) {
                        continue;
                    }
                    let p: MR = e
                        .iter()
                        .filter(|f| kp.1.is_empty() || hit(f, kp.1))
                        .filter(|f| !hit(f, dc.1))
                        .cloned()
                        .collect();
                    if !p.is_empty() {
                        want.extend(ser(&p));
                    }
                    n += 1;
                    if limit > 0 && n == limit {
                        break 'o;
                    }
                }
            }
            st.state();
            st.trace();
            st.outcome(&o.out);
            if o.code != 0 || o.out != want {
                st.fail(
                    format!("{}: status {}, got '{}', expected '{}'", j.line(), o.code, esc(&o.out), esc(&want)),
                    json!({"run": j.line(), "got": esc(&o.out), "expected": esc(&want)}),
                );
            }
        },
    );
    cx.assume("the main level fields precede the local and copy level fields, as in all PICA+ data");
    crate::c26::options(cx, &cli, &["explode main", "explode local", "explode copy"]);
    crate::long::cli(cx, &cli);
    crate::prims::cli(cx, &cli);
}
