//! C15: filter writes exactly the matching records.
use serde_json::json;

use crate::c02::{gunzip, gzip, occ_match, tag_match};
use crate::cli::{Cli, Line, cat, debruijn, job, lines, vals};
use crate::cx::{Cx, Radix, St, esc, seqs};
use crate::rec::{MR, ser};

/// A filter expression and its meaning (case-ignore, threshold in %).
pub type Ev = fn(&MR, bool, u8) -> bool;

pub const EXPRS: &[(&str, Ev)] = &[
    ("003@?", |r, _, _| r.iter().any(|f| f.tag == "003@")),
    ("012A.a == 'x'", |r, ic, _| {
        vals(r, "012A", 'a').iter().any(|v| eq(v, "x", ic))
    }),
    ("012A.a != 'x'", |r, ic, _| {
        vals(r, "012A", 'a').iter().any(|v| !eq(v, "x", ic))
    }),
    ("012A/*.a in ['x', 'y']", |r, ic, _| {
        r.iter().filter(|f| f.tag == "012A").any(|f| {
            f.subs.iter().any(|s| {
                s.0 == 'a' && (eq(&s.1, "x", ic) || eq(&s.1, "y", ic))
            })
        })
    }),
    ("012A/01-02?", |r, _, _| {
        r.iter().any(|f| {
            f.tag == "012A"
                && matches!(f.occ.as_deref(), Some("01" | "02"))
        })
    }),
    ("!012A?", |r, _, _| {
        !r.iter().any(|f| f.tag == "012A" && f.occ.is_none())
    }),
    ("003@.0 =* '12'", |r, _, th| {
        // one of two characters: a similarity of 0.5
        vals(r, "003@", '0').iter().any(|v| {
            (**v == *b"1" || **v == *b"2") && 50 > th
        })
    }),
    ("012A/*.a =~ '^[xä]'", |r, ic, _| {
        r.iter().filter(|f| f.tag == "012A").any(|f| {
            f.subs.iter().any(|s| {
                s.0 == 'a'
                    && (s.1.starts_with(b"x")
                        || (ic && s.1.starts_with(b"X"))
                        || s.1.starts_with("ä".as_bytes()))
            })
        })
    }),
    ("#012A/* >= 2", |r, _, _| {
        r.iter().filter(|f| f.tag == "012A").count() >= 2
    }),
    ("012A.b? || 013H.a?", |r, _, _| {
        !vals(r, "012A", 'b').is_empty()
            || !vals(r, "013H", 'a').is_empty()
    }),
];

pub fn eq(v: &[u8], s: &str, ic: bool) -> bool {
    if ic {
        String::from_utf8_lossy(v).to_lowercase() == s.to_lowercase()
    } else {
        v == s.as_bytes()
    }
}

pub type Preds = &'static [(&'static str, &'static str)];
/// field lists and their (tag, occurrence) matchers
pub const LISTS: &[(&str, Preds)] = &[
    ("", &[]),
    ("012A", &[("012A", "")]),
    ("012A/*", &[("012A", "/*")]),
    ("003@,012A/01", &[("003@", ""), ("012A", "/01")]),
    (" 0..@ , 013H ", &[("0..@", ""), ("013H", "")]),
    ("01[2-3][AH]/01-03", &[("01[2-3][AH]", "/01-03")]),
    ("0.../*", &[("0...", "/*")]),
];

pub fn hits(f: &crate::rec::MF, p: Preds) -> bool {
    p.iter().any(|(t, o)| {
        tag_match(t, &f.tag)
            && occ_match(o.strip_prefix('/'), f.occ.as_deref())
    })
}

/// Applies the field lists to a record.
fn project(r: &MR, discard: Preds, keep: Preds) -> Vec<u8> {
    let fields: MR = r
        .iter()
        .filter(|f| !hits(f, discard))
        .filter(|f| keep.is_empty() || hits(f, keep))
        .cloned()
        .collect();
    if fields.is_empty() { vec![] } else { ser(&fields) }
}

pub struct Fo {
    pub expr: usize,
    pub and: Vec<usize>,
    pub or: Vec<usize>,
    pub not: Vec<usize>,
    pub invert: bool,
    pub ic: bool,
    pub th: Option<u8>,
    pub limit: usize,
}

impl Fo {
    pub fn new(expr: usize) -> Self {
        Fo {
            expr,
            and: vec![],
            or: vec![],
            not: vec![],
            invert: false,
            ic: false,
            th: None,
            limit: 0,
        }
    }
    pub fn sel(&self, r: &MR) -> bool {
        let ev = |e: usize| EXPRS[e].1(r, self.ic, self.th.unwrap_or(75));
        let mut v = ev(self.expr);
        for e in &self.and {
            v = v && ev(*e);
        }
        for e in &self.or {
            v = v || ev(*e);
        }
        for e in &self.not {
            v = v && !ev(*e);
        }
        v != self.invert
    }
    pub fn args(&self) -> Vec<String> {
        let mut a: Vec<String> = vec![];
        for (n, l) in
            [("--and", &self.and), ("--or", &self.or), ("--not", &self.not)]
        {
            for e in l {
                a.push(n.into());
                a.push(EXPRS[*e].0.into());
            }
        }
        if self.invert {
            a.push("--invert-match".into());
        }
        if self.ic {
            a.push("--ignore-case".into());
        }
        if let Some(t) = self.th {
            a.extend(["--strsim-threshold".into(), t.to_string()]);
        }
        if self.limit > 0 {
            a.extend(["--limit".into(), self.limit.to_string()]);
        }
        a
    }
    fn expected<'a>(
        &self,
        ls: impl IntoIterator<Item = &'a Line>,
        discard: Preds,
        keep: Preds,
    ) -> Vec<u8> {
        let mut out = vec![];
        let mut n = 0;
        for l in ls {
            let Some(ref r) = l.rec else { continue };
            if self.sel(r) {
                out.extend_from_slice(&project(r, discard, keep));
                n += 1;
                if self.limit > 0 && n >= self.limit {
                    break;
                }
            }
        }
        out
    }
}

fn check(
    cli: &Cli,
    st: &mut St,
    j: crate::cli::Job,
    want: &[u8],
    tee: Option<&str>,
) {
    let o = cli.run(&j);
    st.trace();
    st.state();
    st.transitions += j.stdin.map_or(1, |b| b.iter().filter(|c| **c == b'\n').count() as u64);
    st.outcome(&o.out);
    let mut bad = o.code != 0 || o.out != want;
    if let Some(t) = tee {
        bad |= o.files.get(t).map(|v| &v[..]) != Some(want);
    }
    st.sample(|| json!({"run": j.replay(), "stdout": esc(&o.out)}));
    if bad {
        st.fail(
            format!("{}: {}, expected '{}'", j.line(), o.show(), esc(want)),
            json!({"run": j.replay(), "expected": esc(want), "got": o.show()}),
        );
    }
}

pub fn run(cx: &Cx) {
    let cli = Cli::new("c15");
    let ls = lines();
    let ne = EXPRS.len() as u64;

    // the whole alphabet in every order of three (thorough: four)
    let order: Vec<&Line> = debruijn(ls.len(), cx.pick(3, 4))
        .into_iter()
        .map(|i| &ls[i])
        .collect();
    let stream = cat(order.iter().copied());

    // lists of extra predicates
    let none: Vec<usize> = vec![];
    let mut ext: Vec<(Vec<usize>, Vec<usize>, Vec<usize>)> =
        vec![(none.clone(), none.clone(), none.clone())];
    let k = EXPRS.len();
    for a in 0..k {
        ext.push((vec![a], none.clone(), none.clone()));
        ext.push((none.clone(), vec![a], none.clone()));
        ext.push((none.clone(), none.clone(), vec![a]));
    }
    let pairs: Vec<(usize, usize)> = (0..k)
        .flat_map(|a| (0..k).map(move |b| (a, b)))
        .filter(|(a, b)| cx.thorough || (a * 3 + b) % 4 == 0)
        .collect();
    for (a, b) in pairs {
        ext.push((vec![a, b], none.clone(), none.clone()));
        ext.push((none.clone(), vec![a, b], none.clone()));
        ext.push((none.clone(), none.clone(), vec![a, b]));
        ext.push((vec![a], none.clone(), vec![b]));
    }
    cx.space(
        "selection",
        "10 expressions x lists of up to two further predicates as --and/--or/--not x \
         --invert-match x --ignore-case on a stream with every sequence of three lines",
        ne * ext.len() as u64 * 2 * 2,
        |i, st| {
            let mut x = Radix(i);
            let mut o = Fo::new(x.take(EXPRS.len()));
            let e = x.of(&ext);
            o.and = e.0.clone();
            o.or = e.1.clone();
            o.not = e.2.clone();
            o.invert = x.bool();
            o.ic = x.bool();
            let mut a = vec!["filter".to_string(), "-s".into()];
            a.extend(o.args());
            a.push(EXPRS[o.expr].0.into());
            let want = o.expected(order.iter().copied(), &[], &[]);
            check(&cli, st, job(&a).stdin(&stream), &want, None);
        },
    );

    let ths = [0u8, 49, 50, 51, 75, 99];
    cx.space(
        "threshold",
        "10 expressions x 6 thresholds x --ignore-case",
        ne * ths.len() as u64 * 2,
        |i, st| {
            let mut x = Radix(i);
            let mut o = Fo::new(x.take(EXPRS.len()));
            o.th = Some(*x.of(&ths));
            o.ic = x.bool();
            let mut a = vec!["filter".to_string(), "-s".into()];
            a.extend(o.args());
            a.push(EXPRS[o.expr].0.into());
            let want = o.expected(order.iter().copied(), &[], &[]);
            check(&cli, st, job(&a).stdin(&stream), &want, None);
        },
    );

    // keep and discard lists
    let nl = LISTS.len();
    cx.space(
        "keep-discard",
        "7 x 7 lists of kept and discarded fields x 3 expressions x limit",
        (nl * nl * 3 * 3) as u64,
        |i, st| {
            let mut x = Radix(i);
            let d = x.of(LISTS);
            let kp = x.of(LISTS);
            let mut o = Fo::new(x.take(3));
            o.limit = x.take(3) * 7;
            let mut a = vec!["filter".to_string(), "-s".into()];
            a.extend(o.args());
            if !d.0.is_empty() {
                a.extend(["--discard".into(), d.0.into()]);
            }
            if !kp.0.is_empty() {
                a.extend(["--keep".into(), kp.0.into()]);
            }
            a.push(EXPRS[o.expr].0.into());
            let want = o.expected(order.iter().copied(), d.1, kp.1);
            check(&cli, st, job(&a).stdin(&stream), &want, None);
        },
    );

    // all short streams x limit x distribution over files
    let sub: Vec<&Line> = [0, 1, 3, 4, 7].iter().map(|i| &ls[*i]).collect();
    let words = seqs(sub.len(), 0, cx.pick(3, 4));
    cx.space(
        "limit and files",
        "every sequence of up to 3 (thorough: 4) of 5 lines x limit 0..3 x invert x every split over two files",
        words.len() as u64 * 4 * 2,
        |i, st| {
            let mut x = Radix(i);
            let w = x.of(&words);
            let mut o = Fo::new(1);
            o.limit = x.take(4);
            o.invert = x.bool();
            for cut in 0..=w.len() {
                let b: Vec<u8> =
                    cat(w[..cut].iter().map(|i| sub[*i]));
                let c: Vec<u8> =
                    cat(w[cut..].iter().map(|i| sub[*i]));
                let mut a = vec!["filter".to_string(), "-s".into()];
                a.extend(o.args());
                a.extend([
                    EXPRS[1].0.into(),
                    "b.dat".into(),
                    "c.dat".into(),
                ]);
                let want =
                    o.expected(w.iter().map(|i| sub[*i]), &[], &[]);
                check(
                    &cli,
                    st,
                    job(&a).file("b.dat", &b).file("c.dat", &c),
                    &want,
                    None,
                );
                if st.failed() {
                    return;
                }
            }
        },
    );

    // destinations
    let words = seqs(3, 0, 2);
    cx.space(
        "destinations",
        "sequences of up to two lines x stdout/-o/.gz name/--gzip/--tee/--append x expression file x existing contents",
        words.len() as u64 * 7 * 2 * 2,
        |i, st| {
            let mut x = Radix(i);
            let w = x.of(&words);
            let dest = x.take(7);
            let exprfile = x.bool();
            let old = x.bool();
            let b = cat(w.iter().map(|i| sub[*i]));
            let o = Fo::new(1);
            let want = o.expected(w.iter().map(|i| sub[*i]), &[], &[]);
            let prev = sub[1].bytes.clone();
            let mut a = vec!["filter".to_string()];
            let (name, append, gz) = match dest {
                0 => (None, false, false),
                1 => (Some("o.dat"), false, false),
                2 => (Some("o.dat.gz"), false, true),
                3 => (Some("o.bin"), false, true),
                4 => (Some("t.dat"), false, false),
                5 => (Some("o.dat"), true, false),
                _ => (Some("t.dat"), true, false),
            };
            match dest {
                1 | 2 => a.extend(["-o".into(), name.unwrap().into()]),
                3 => a.extend([
                    "-o".into(),
                    name.unwrap().into(),
                    "--gzip".into(),
                ]),
                5 => a.extend([
                    "-o".into(),
                    name.unwrap().into(),
                    "--append".into(),
                ]),
                4 => a.extend(["--tee".into(), name.unwrap().into()]),
                6 => a.extend([
                    "--append".into(),
                    "--tee".into(),
                    name.unwrap().into(),
                ]),
                _ => {}
            }
            let ef = format!(" {}\n", EXPRS[1].0);
            let mut j;
            if exprfile {
                a.extend(["--file".into(), "expr".into(), "in.dat".into()]);
            } else {
                a.extend([EXPRS[1].0.into(), "in.dat".into()]);
            }
            j = job(&a).file("in.dat", &b);
            if exprfile {
                j = j.file("expr", ef.as_bytes());
            }
            if let (true, Some(n)) = (old, name) {
                j = j.file(n, &prev);
            }
            let got = cli.run(&j);
            st.trace();
            st.state();
            let mut full = vec![];
            if append && old {
                full.extend_from_slice(&prev);
            }
            full.extend_from_slice(&want);
            let mut ok = got.code == 0;
            if let Some(n) = name {
                // an unchanged existing file is not listed
                let raw = match got.files.get(n) {
                    Some(v) => v.clone(),
                    None if old => prev.clone(),
                    None => {
                        ok = false;
                        vec![]
                    }
                };
                let v = if gz {
                    gunzip(&raw).unwrap_or(b"not gzip".to_vec())
                } else {
                    raw
                };
                ok &= v == full;
                ok &= got.files.keys().all(|k| k == n);
            } else {
                ok &= got.files.is_empty();
            }
            ok &= got.out
                == if matches!(dest, 0 | 4 | 6) {
                    want.clone()
                } else {
                    vec![]
                };
            st.sample(|| json!({"run": j.replay(), "got": got.show()}));
            st.outcome(&got);
            if !ok {
                st.fail(
                    format!("{}: {}", j.line(), got.show()),
                    json!({"run": j.replay(), "expected": esc(&full), "got": got.show()}),
                );
            }
        },
    );

    let words = seqs(3, 0, 3);
    cx.space(
        "expression file and inputs",
        "every list of up to three of three inputs (standard input included) with the filter as argument or file",
        words.len() as u64 * 2,
        |i, st| {
            let mut x = Radix(i);
            let file = x.bool();
            let w = x.of(&words);
            let names = ["p1.dat", "p2.dat.gz", "-"];
            if w.iter().filter(|k| **k == 2).count() > 1 {
                return;
            }
            let rec = |k: usize| format!("003@ \x1f0{k}\x1e\n003@ \x1f0{k}{k}\x1e\n004@ \x1f0{k}\x1e\n").into_bytes();
            let good = |k: usize| format!("003@ \x1f0{k}\x1e\n003@ \x1f0{k}{k}\x1e\n").into_bytes();
            let mut a: Vec<String> = vec!["filter".into()];
            if file {
                a.extend(["-F".into(), "e".into()]);
            } else {
                a.push("003@?".into());
            }
            a.extend(w.iter().map(|k| names[*k].to_string()));
            let (b0, b1, b2) = (rec(0), gzip(&rec(1)), rec(2));
            let j = job(&a).file("p1.dat", &b0).file("p2.dat.gz", &b1).file("e", b"003@?\n").stdin(&b2);
            let o = cli.run(&j);
            let want: Vec<u8> = if w.is_empty() { good(2) } else { w.iter().flat_map(|k| good(*k)).collect() };
            crate::c17::verdict(st, &j, &o, o.code == 0 && o.files.is_empty() && o.out == want, &esc(&want));
        },
    );

    // every value survives the way to the matcher
    let sp: Vec<char> = (32u8..127).map(char::from).filter(|c| !c.is_ascii_alphanumeric()).chain(['\t', 'n', '\u{e4}', '\u{2028}']).collect();
    let mut words: Vec<String> = (33u8..127).map(|c| char::from(c).to_string()).collect();
    words.push(" ".into());
    words.push("\t".into());
    for a in &sp {
        for b in &sp {
            words.push(format!("{a}{b}"));
        }
    }
    for a in &sp {
        words.push(format!("{a}{a}{a}"));
        words.push(format!("x {a} y"));
        words.push(format!("x{a}{a} {a}y"));
    }
    const SRC: [&str; 9] = ["argument", "-F", "-F without a line end", "-F over two lines", "--and", "--not", "--where", "check", "select"];
    cx.space(
        "values in expressions",
        "all values of one printable character, of two special characters, and three patterns of a special character x single and double quotes x 9 places of the expression (argument, file, --and, --not, --where, rule file, condition of a path)",
        (words.len() * 2 * SRC.len()) as u64,
        |i, st| {
            let mut x = Radix(i);
            let src = x.take(SRC.len());
            let q = *x.of(&['"', '\'']);
            let p = x.of(&words);
            let mut lit = String::from(q);
            for c in p.chars() {
                if c == q || c == '\\' {
                    lit.push('\\');
                }
                lit.push(c);
            }
            lit.push(q);
            let e = format!("012A.a == {lit}");
            let first: String = p.chars().take(1).collect();
            let last: String = p.chars().next_back().into_iter().collect();
            let mut vals = vec![p.clone()];
            for v in [first, last, format!("{p}x"), format!("x{p}"), p.trim().to_string(), "x".into(), String::new(), lit.clone()] {
                if !vals.contains(&v) {
                    vals.push(v);
                }
            }
            let rec = |k: usize| ser(&vec![crate::rec::f("003@", &[&format!("0{k}")]), crate::rec::f("012A", &[&format!("a{}", vals[k])])]);
            let b: Vec<u8> = (0..vals.len()).flat_map(rec).collect();
            let one = rec(0);
            let rest: Vec<u8> = (1..vals.len()).flat_map(rec).collect();
            let broken = e.replacen(" == ", "\n==\n", 1);
            let rules = format!("[rule.R]\ncheck = \"filter\"\nfilter = {}\n", serde_json::to_string(&e).unwrap());
            let cond = format!("012A{{a | a == {lit}}}");
            let (a, f): (Vec<&str>, String) = match src {
                0 => (vec!["filter", &e], String::new()),
                1 => (vec!["filter", "-F", "e"], format!("{e}\n")),
                2 => (vec!["filter", "-F", "e"], e.clone()),
                3 => (vec!["filter", "-F", "e"], format!("\n{broken}\n\n")),
                4 => (vec!["filter", "003@?", "--and", &e], String::new()),
                5 => (vec!["filter", "003@?", "--not", &e], String::new()),
                6 => (vec!["hash", "--where", &e], String::new()),
                7 => (vec!["check", "-R", "e"], rules),
                _ => (vec!["select", "--tsv", "--quote-style", "never", &cond], String::new()),
            };
            let mut a: Vec<String> = a.into_iter().map(String::from).collect();
            a.push("in.dat".into());
            let j = job(&a).file("in.dat", &b).file("e", f.as_bytes());
            let o = cli.run(&j);
            let want = match src {
                5 => rest,
                6 => {
                    use sha2::Digest;
                    let h: String = sha2::Sha256::digest(&one).iter().map(|b| format!("{b:02x}")).collect();
                    format!("ppn,hash\n0,{h}\n").into_bytes()
                }
                7 => b"ppn,rule,level,message\n0,R,error,\n".to_vec(),
                8 => format!("{p}\n").into_bytes(),
                _ => one,
            };
            crate::c17::verdict(st, &j, &o, o.ok() && o.out == want, &esc(&want));
        },
    );

    cx.assume("filter expressions are decided by C05-C08; here ten fixed expressions with hand written meanings are used");
    crate::c26::options(cx, &cli, &["filter"]);
    crate::sim::commands(cx, &cli);
    crate::long::cli(cx, &cli);
    crate::prims::cli(cx, &cli);
}
