//! C25: the check command.
use std::collections::{BTreeMap, BTreeSet};

use crate::c17::verdict;
use crate::c23::{SELS, csv};
use crate::cli::{Cli, Line, cat, job, ppn, raw, vals};
use crate::codes::{ISO, JEL};
use crate::cx::{Cx, Radix, St, esc, seqs};
use crate::rec::{MF, MR, f, ser};

type Row = Vec<Vec<u8>>;
type Eval = Box<dyn Fn(&MR) -> Option<Vec<u8>> + Sync>;

enum Kind {
    Each(Eval),
    /// source values, target values
    Link(fn(&MR) -> Vec<Vec<u8>>, fn(&MR) -> Vec<Vec<u8>>),
}

struct Rule {
    id: &'static str,
    body: String,
    level: &'static str,
    tags: &'static [&'static str],
    kind: Kind,
}

#[derive(Default)]
struct Set<'a> {
    scope: Option<(&'static str, fn(&MR) -> bool)>,
    fast: bool,
    rules: Vec<&'a Rule>,
}

fn rule(id: &'static str, body: impl Into<String>, e: impl Fn(&MR) -> Option<Vec<u8>> + Sync + 'static) -> Rule {
    Rule { id, body: body.into(), level: "", tags: &[], kind: Kind::Each(Box::new(e)) }
}

fn lossy(v: &[u8]) -> Vec<u8> {
    String::from_utf8_lossy(v).into_owned().into_bytes()
}
fn listed<'a>(v: impl IntoIterator<Item = &'a [u8]>) -> Option<Vec<u8>> {
    let l: Vec<Vec<u8>> = v.into_iter().map(lossy).collect();
    if l.is_empty() { None } else { Some(l.join(&b", "[..])) }
}
/// The values of a subfield in fields with any occurrence that satisfy
/// a condition.
fn at<'a>(r: &'a MR, tag: &str, code: char, c: impl Fn(&MF) -> bool) -> Vec<&'a [u8]> {
    r.iter().filter(|m| m.tag == tag && c(m)).flat_map(|m| m.subs.iter().filter(|s| s.0 == code).map(|s| &s.1[..])).collect()
}
fn sub(m: &MF, code: char, p: impl Fn(&[u8]) -> bool) -> bool {
    m.subs.iter().any(|s| s.0 == code && p(&s.1))
}

impl Set<'_> {
    fn text(&self) -> String {
        let mut s = String::new();
        if let Some((e, _)) = self.scope {
            s.push_str(&format!("scope = {e:?}\n"));
        }
        if self.fast {
            s.push_str("termination = \"fast\"\n");
        }
        // in reverse order: the order in the file has no meaning
        for r in self.rules.iter().rev() {
            s.push_str(&format!("[rule.{}]\n{}\n", r.id, r.body));
            if !r.level.is_empty() {
                s.push_str(&format!("level = \"{}\"\n", r.level));
            }
            if !r.tags.is_empty() {
                s.push_str(&format!("tags = {:?}\n", r.tags));
            }
        }
        s
    }
}

/// The rows of the report.
fn report(sets: &[Set], recs: &[&MR]) -> Vec<Row> {
    let row = |p: &[u8], r: &Rule, m: Vec<u8>| -> Row {
        vec![p.to_vec(), r.id.as_bytes().to_vec(), if r.level.is_empty() { b"error".to_vec() } else { r.level.as_bytes().to_vec() }, m]
    };
    let mut rows = vec![];
    type Pending = Vec<(Vec<u8>, Vec<u8>)>;
    let mut pend: BTreeMap<(usize, &str), (Pending, BTreeSet<Vec<u8>>)> = BTreeMap::new();
    for r in recs {
        let id = ppn(r).unwrap_or_default();
        for (k, s) in sets.iter().enumerate() {
            let mut rules = s.rules.clone();
            rules.sort_by_key(|r| r.id);
            for l in &rules {
                if let Kind::Link(_, t) = &l.kind {
                    pend.entry((k, l.id)).or_default().1.extend(t(r));
                }
            }
            if s.scope.is_some_and(|c| !c.1(r)) {
                continue;
            }
            for l in &rules {
                match &l.kind {
                    Kind::Link(src, _) => {
                        let e = pend.entry((k, l.id)).or_default();
                        e.0.extend(src(r).into_iter().map(|v| (id.to_vec(), v)));
                    }
                    Kind::Each(e) => {
                        if let Some(m) = e(r) {
                            rows.push(row(id, l, m));
                            if s.fast {
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
    for (k, s) in sets.iter().enumerate() {
        let mut rules = s.rules.clone();
        rules.sort_by_key(|r| r.id);
        for l in rules {
            if let Some((p, seen)) = pend.get(&(k, l.id)) {
                let mut by: BTreeMap<&[u8], Vec<&[u8]>> = BTreeMap::new();
                for (id, v) in p.iter().filter(|x| !seen.contains(&x.1)) {
                    by.entry(id).or_default().push(v);
                }
                for (id, v) in by {
                    rows.push(row(id, l, listed(v).unwrap()));
                }
            }
        }
    }
    rows
}

fn text(r: &[Row]) -> String {
    let r: Vec<String> = r.iter().take(40).map(|r| r.iter().map(|c| esc(c)).collect::<Vec<_>>().join(",")).collect();
    format!("{r:?}")
}

#[allow(clippy::too_many_arguments)]
fn go(cli: &Cli, st: &mut St, sets: &[Set], args: &[&str], w: &[&Line], sel: usize, dest: usize, want: Vec<Row>) {
    let mut a: Vec<String> = vec!["check".into(), "-s".into()];
    let names: Vec<String> = (0..sets.len()).map(|k| format!("r{k}.toml")).collect();
    let texts: Vec<String> = sets.iter().map(|s| s.text()).collect();
    for n in &names {
        a.extend(["-R".into(), n.clone()]);
    }
    a.extend(args.iter().map(|s| s.to_string()));
    a.extend(SELS[sel].args());
    let out = ["", "o.csv", "o.tsv", "o.txt"][dest];
    if dest > 0 {
        a.extend(["-o".into(), out.into()]);
    }
    a.extend(["b.dat".into(), "c.dat".into()]);
    let cut = w.len() / 2;
    let (b, c) = (cat(w[..cut].iter().copied()), cat(w[cut..].iter().copied()));
    let mut j = job(&a).file("b.dat", &b).file("c.dat", &c).file("list.csv", LIST.as_bytes()).file("list.tsv", TLIST.as_bytes());
    for (n, t) in names.iter().zip(&texts) {
        j = j.file(n, t.as_bytes());
    }
    let o = cli.run(&j);
    let got = if dest > 0 { o.files.get(out).cloned().unwrap_or(b"missing".to_vec()) } else { o.out.clone() };
    let mut ok = o.ok() && if dest > 0 { o.out.is_empty() && o.files.len() == 1 } else { o.files.is_empty() };
    let mut want = want;
    if dest == 3 {
        want.iter_mut().for_each(|r| r.truncate(1));
    } else if !want.is_empty() {
        want.insert(0, ["ppn", "rule", "level", "message"].iter().map(|s| s.as_bytes().to_vec()).collect());
    }
    ok &= csv(&got, if dest == 2 { b'\t' } else { b',' }).as_ref() == Some(&want);
    verdict(st, &j, &o, ok, &text(&want));
}

const LIST: &str = "hsg,other\n1,x\n2,y\n\u{e4},1\n\"a,b\",z\n";
const TLIST: &str = "other\thsg\nx\t1\n1\tX\n";

fn date(y: u32, m: u32, d: u32) -> bool {
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let n = match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 28 + leap as u32,
        _ => 0,
    };
    (1..=n).contains(&d)
}
fn digits(v: &[u8]) -> Option<u32> {
    if v.iter().all(u8::is_ascii_digit) { std::str::from_utf8(v).ok()?.parse().ok() } else { None }
}
/// yyyy-mm-dd
fn iso_date(v: &[u8]) -> bool {
    v.len() == 10
        && v[4] == b'-'
        && v[7] == b'-'
        && matches!((digits(&v[..4]), digits(&v[5..7]), digits(&v[8..])), (Some(y), Some(m), Some(d)) if date(y, m, d))
}

/// Validity of an identifier by ISO 7064 MOD 11-2: characters before
/// the digits in the code table are separators.
fn isni(v: &[u8]) -> bool {
    let v: Vec<u8> = v.iter().copied().filter(|c| *c >= b'0').collect();
    if v.len() != 16 {
        return false;
    }
    let mut sum = 0u32;
    for (i, c) in v.iter().enumerate() {
        let d = match c {
            b'0'..=b'9' => (c - b'0') as u32,
            b'X' if i == 15 => 10,
            _ => return false,
        };
        sum += d * (1 << (15 - i));
    }
    sum % 11 == 1
}

fn rows_dup(rows: Vec<Row>, th: usize, sep: &str) -> Option<Vec<u8>> {
    let mut m: BTreeMap<Row, usize> = BTreeMap::new();
    for r in rows.into_iter().filter(|r| r.iter().any(|c| !c.is_empty())) {
        *m.entry(r).or_default() += 1;
    }
    let l: Vec<Vec<u8>> =
        m.into_iter().filter(|x| x.1 >= th).map(|x| x.0.iter().map(|c| lossy(c)).collect::<Vec<_>>().join(sep.as_bytes())).collect();
    if l.is_empty() { None } else { Some(l.join(&b"; "[..])) }
}
/// The rows of `045E/*{(a, b)}`: the product of the values of each field.
fn pairs(r: &MR) -> Vec<Row> {
    let mut o = vec![];
    for m in r.iter().filter(|m| m.tag == "045E") {
        let v = |c| {
            let v: Vec<Vec<u8>> = m.subs.iter().filter(|s| s.0 == c).map(|s| s.1.clone()).collect();
            if v.is_empty() { vec![vec![]] } else { v }
        };
        for a in v('a') {
            for b in v('b') {
                o.push(vec![a.clone(), b]);
            }
        }
    }
    o
}

/// Unicode normal forms of the values used here: (value, nfc, nfkc,
/// nfd, nfkd).
const UNI: [(&str, [bool; 4]); 8] = [
    ("", [true, true, true, true]),
    ("a", [true, true, true, true]),
    ("\u{e4}", [true, true, false, false]),
    ("a\u{308}", [false, false, true, true]),
    ("\u{fb01}", [true, false, true, false]),
    ("q\u{308}", [true, true, true, true]),
    ("q\u{307}\u{323}", [false, false, false, false]),
    ("\u{212b}", [false, false, false, false]),
];
fn is_nf(v: &[u8], k: usize) -> Option<bool> {
    let s = std::str::from_utf8(v).ok()?;
    if s.is_ascii() {
        return Some(true);
    }
    Some(UNI.iter().filter(|u| !u.0.is_ascii() && s.contains(u.0)).all(|u| u.1[k]))
}

fn rules() -> Vec<Rule> {
    let list = |v: &&[u8]| !matches!(**v, [b'1'] | [b'2'] | [0xc3, 0xa4] | [b'a', b',', b'b']);
    let tlist = |v: &&[u8]| !matches!(**v, [b'1'] | [b'X']);
    let mut l = vec![
        rule("A1", "check = \"allow\"\npath = \"045E.e\"\nlist = { filename = \"list.csv\", column = \"hsg\" }", move |r| {
            listed(vals(r, "045E", 'e').into_iter().filter(list))
        }),
        rule("A2", "check = \"allow\"\npath = \"045E/*{e | H == 'npi'}\"\ncase-ignore = true\nlist = { filename = \"list.tsv\", column = \"hsg\" }", move |r| {
            listed(at(r, "045E", 'e', |m| sub(m, 'H', |v| v.eq_ignore_ascii_case(b"npi"))).into_iter().filter(tlist))
        }),
        rule("D1", "check = \"datetime\"\npath = \"010@.D\"", |r| listed(vals(r, "010@", 'D').into_iter().filter(|v| !iso_date(v)))),
        rule("D2", "check = \"datetime\"\npath = \"010@.E\"\noffset = 1\nformat = \"%Y-%m-%d\"", |r| {
            listed(vals(r, "010@", 'E').into_iter().filter(|v| {
                // the first character is one of those of the alphabet
                let n = match v.first() {
                    Some(0xc3) if v.len() > 1 && v[1] == 0xa4 => 2,
                    _ => 1,
                };
                !v.get(n..).is_some_and(iso_date)
            }))
        }),
        rule("D3", "check = \"datetime\"\npath = \"010@.d\"\nformat = \"%d.%m.%Y\"", |r| {
            listed(vals(r, "010@", 'd').into_iter().filter(|v| {
                !(v.len() == 10
                    && v[2] == b'.'
                    && v[5] == b'.'
                    && matches!((digits(&v[6..]), digits(&v[3..5]), digits(&v[..2])), (Some(y), Some(m), Some(d)) if date(y, m, d)))
            }))
        }),
        rule("F1", "check = \"filter\"\nfilter = \"045E.e == 'x'\"", |r| {
            vals(r, "045E", 'e').contains(&&b"x"[..]).then(Vec::new)
        }),
        rule("F2", "check = \"filter\"\nfilter = \"045E.e == 'x'\"\ncase-ignore = true\ninvert-match = true", |r| {
            (!vals(r, "045E", 'e').iter().any(|v| v.eq_ignore_ascii_case(b"x"))).then(Vec::new)
        }),
        rule("F3", "check = \"filter\"\nfilter = \"045E/*.H =* 'npx'\"", |_| None),
        rule("F4", "check = \"filter\"\nfilter = \"045E/*.H =* 'npx'\"\nstrsim-threshold = 0.6", |r| {
            // one of three characters differs
            at(r, "045E", 'H', |_| true).contains(&&b"npi"[..]).then(Vec::new)
        }),
        rule("I1", "check = \"isni\"\npath = \"028A.y\"", |r| listed(vals(r, "028A", 'y').into_iter().filter(|v| !isni(v)))),
        rule("I2", "check = \"isni\"\npath = \"028A.y\"\nprefix = \"(orcid)\"", |r| {
            listed(vals(r, "028A", 'y').into_iter().filter(|v| v.strip_prefix(b"(orcid)").is_some_and(|v| !isni(v))))
        }),
        rule("J1", "check = \"jelc\"\npath = \"045Z.a\"", |r| {
            listed(vals(r, "045Z", 'a').into_iter().filter(|v| !JEL.split_whitespace().any(|c| c.as_bytes() == *v)))
        }),
        rule("L1", "check = \"iso639-2b\"\npath = \"010@/*.a\"", |r| {
            listed(at(r, "010@", 'a', |_| true).into_iter().filter(|v| !ISO.split_whitespace().any(|c| c.as_bytes() == *v)))
        }),
        rule("U0", "check = \"unicode\"", |r| {
            r.iter().flat_map(|m| &m.subs).any(|s| std::str::from_utf8(&s.1).is_err()).then(Vec::new)
        }),
    ];
    for (id, k, nf) in [("U1", 0, "nfc"), ("U2", 1, "nfkc"), ("U3", 2, "nfd"), ("U4", 3, "nfkd")] {
        l.push(rule(id, format!("check = \"unicode\"\nnormalization = \"{nf}\""), move |r| {
            let all: Vec<&[u8]> = r.iter().flat_map(|m| m.subs.iter().map(|s| &s.1[..])).collect();
            if all.iter().any(|v| std::str::from_utf8(v).is_err()) {
                return Some(vec![]);
            }
            listed(all.into_iter().filter(|v| is_nf(v, k) == Some(false)))
        }));
    }
    let one = |r: &MR| -> Vec<Row> {
        let v = at(r, "045E", 'a', |_| true);
        v.into_iter().map(|v| vec![v.to_vec()]).collect()
    };
    l.push(rule("P1", "check = \"duplicates\"\nquery = \"045E/*.a\"", move |r| rows_dup(one(r), 2, "|")));
    l.push(rule("P2", "check = \"duplicates\"\nquery = \"045E/*.a\"\nthreshold = 3", move |r| rows_dup(one(r), 3, "|")));
    l.push(rule("P3", "check = \"duplicates\"\nquery = \"045E/*.a\"\nthreshold = 1", move |r| rows_dup(one(r), 1, "|")));
    l.push(rule("P4", "check = \"duplicates\"\nquery = \"045E/*{(a, b)}\"", |r| rows_dup(pairs(r), 2, "|")));
    l.push(rule("P5", "check = \"duplicates\"\nquery = \"045E/*{(a, b)}\"\nseparator = \"\"", |r| rows_dup(pairs(r), 2, "")));
    l
}

/// Records with all sequences of up to `n` of the given fields.
fn records(alpha: &[MF], n: usize) -> Vec<Line> {
    seqs(alpha.len(), 0, n)
        .iter()
        .enumerate()
        .map(|(k, s)| {
            let mut r: MR = vec![f("003@", &[&format!("0{k}")])];
            r.extend(s.iter().map(|i| alpha[*i].clone()));
            Line { name: "r", bytes: ser(&r), rec: Some(r) }
        })
        .collect()
}
/// One record per 50 values.
fn packed(tag: &str, code: char, v: &[Vec<u8>]) -> Vec<Line> {
    v.chunks(50)
        .enumerate()
        .map(|(k, c)| {
            let mut m = f(tag, &[]);
            m.subs = c.iter().map(|v| (code, v.clone())).collect();
            let r = vec![f("003@", &[&format!("0{k}")]), m];
            Line { name: "r", bytes: ser(&r), rec: Some(r) }
        })
        .collect()
}

fn link_rules() -> Vec<Rule> {
    fn src(r: &MR) -> Vec<Vec<u8>> {
        vals(r, "065R", '9').into_iter().map(<[u8]>::to_vec).collect()
    }
    fn tgt(r: &MR) -> Vec<Vec<u8>> {
        vals(r, "003@", '0').into_iter().map(<[u8]>::to_vec).collect()
    }
    let l = |id, body: &str, s, t| Rule { id, body: format!("check = \"link\"\n{body}"), level: "warning", tags: &["l"], kind: Kind::Link(s, t) };
    vec![
        l("K1", "source.path = '065R.9'\ntarget.path = '003@.0'", src, tgt),
        l("K2", "source.path = '065R{ 9 | 4 == \"ortw\" }'\ntarget.path = '003@.0'", |r| {
            at(r, "065R", '9', |m| m.occ.is_none() && sub(m, '4', |v| v == b"ortw")).into_iter().map(<[u8]>::to_vec).collect()
        }, tgt),
        l("K3", "source.path = '065R.9'\ntarget = { path = '003@.0', filter = '002@.0 =^ \"Tg\"' }", src, |r| {
            if vals(r, "002@", '0').iter().any(|v| v.starts_with(b"Tg")) { tgt(r) } else { vec![] }
        }),
        l("K4", "source.path = '065R.9'\ntarget.path = '003@.0'\ncase-ignore = true", src, tgt),
        l("K5", "source.path = '003@.0'\ntarget.path = '065R.9'", tgt, src),
    ]
}

fn link_lines() -> Vec<Line> {
    let l = |v: &[MF]| Line { name: "l", bytes: ser(&v.to_vec()), rec: Some(v.to_vec()) };
    vec![
        l(&[f("002@", &["0Tp1"]), f("003@", &["01"]), f("065R", &["92", "4ortw"]), f("065R", &["93", "4ortg"])]),
        l(&[f("002@", &["0Tg1"]), f("003@", &["02"]), f("065R", &["91"])]),
        l(&[f("002@", &["0Tp1"]), f("003@", &["03"]), f("065R", &["93", "4ortw"]), f("065R", &["92", "9x"])]),
        l(&[f("002@", &["0Tg2"]), f("065R", &["93", "9", "4ortw"])]),
        l(&[f("002@", &["0Tg3"]), f("003@", &["03"]), f("065R", &["92"])]),
    ]
}

pub fn run(cx: &Cx) {
    let cli = Cli::new("c25");
    let rl = rules();
    let all = || Set { rules: rl.iter().collect(), ..Default::default() };

    let fams: Vec<(&str, Vec<Line>)> = {
        let s = |l: &[&str], tag: &str| -> Vec<MF> { l.iter().map(|v| f(tag, &[v])).collect() };
        let mut allow = s(&["e1", "e2", "ex", "eX", "e", "e\u{e4}", "ea,b", "H"], "045E");
        allow.extend([f("045E", &["e3", "Hnpi"]), f("045E/01", &["e1", "ex", "HNPI"]), raw("045E", 'e', b"\xff")]);
        let lang: Vec<MF> = ["ager", "aGER", "axxx", "a", "aeng", "age", "agerr"].iter().map(|v| f("010@", &[v])).chain([f("010@/02", &["aqqq", "afre"])]).collect();
        let dup: Vec<MF> = [
            f("045E", &["ax"]),
            f("045E", &["ax|y", "bz"]),
            f("045E", &["ax", "by|z"]),
            f("045E/01", &["ax", "ay", "b"]),
            f("045E", &["a"]),
            raw("045E", 'a', b"\xff"),
            raw("045E", 'a', b"\xfe"),
        ]
        .to_vec();
        let uni: Vec<MF> = UNI.iter().map(|u| f("021A", &[&format!("a{}", u.0)])).chain([raw("021A", 'a', b"\xc3"), f("021A", &["a\u{e4}", "b\u{fb01}"])]).collect();
        let jel: Vec<MF> = ["aA00", "aZ0", "aA0", "aA", "aZ99", "a", "aa00"].iter().map(|v| f("045Z", &[v])).collect();
        let dat: Vec<MF> = ["D2020-02-29", "D2021-02-29", "D", "D\u{e4}", "D2020-01-01 ", "d31.12.1999", "d31.11.1999", "Ex2020-01-01", "E\u{e4}2020-01-01", "Ex", "E", "E\u{e4}\u{e4}2020-01-01", "Ex2021-02-29"]
            .iter()
            .map(|v| f("010@", &[v]))
            .collect();
        let isn: Vec<MF> = ["y0000-0002-1825-0097", "y(orcid)0000-0002-1825-0097", "y(orcid)0000-0002-1825-0098", "y", "y(orcid)", "y000000012146438X", "y00000001214643xX"]
            .iter()
            .map(|v| f("028A", &[v]))
            .collect();
        vec![
            ("allow", records(&allow, cx.pick(2, 3))),
            ("language", records(&lang, cx.pick(2, 3))),
            ("duplicates", records(&dup, cx.pick(3, 4))),
            ("unicode", records(&uni, cx.pick(2, 3))),
            ("jel", records(&jel, cx.pick(2, 3))),
            ("date", records(&dat, cx.pick(2, 3))),
            ("isni", records(&isn, cx.pick(2, 3))),
        ]
    };
    // pieces of at most 40 records
    let pieces: Vec<&[Line]> = fams.iter().flat_map(|f| f.1.chunks(40)).collect();
    cx.space(
        "rules x records",
        "23 rules of all 9 kinds on all records of up to 2-3 (thorough 3-4) fields over 7 alphabets of 7-11 fields",
        pieces.len() as u64,
        |i, st| {
            let w: Vec<&Line> = pieces[i as usize].iter().collect();
            let recs: Vec<&MR> = w.iter().filter_map(|l| l.rec.as_ref()).collect();
            let s = [all()];
            let want = report(&s, &recs);
            for _ in &recs {
                st.state();
            }
            go(&cli, st, &s, &[], &w, 0, 0, want);
        },
    );

    // value sets that are large
    let one: Vec<Rule> = rules().into_iter().filter(|r| ["I1", "J1", "L1", "D1", "D3"].contains(&r.id)).collect();
    let mut big: Vec<Line> = vec![];
    {
        let mut v: Vec<Vec<u8>> = vec![];
        for a in b'a'..=b'z' {
            for b in b'a'..=b'z' {
                for c in b'a'..=b'z' {
                    v.push(vec![a, b, c]);
                }
            }
        }
        big.extend(packed("010@", 'a', &v));
        let mut v: Vec<Vec<u8>> = vec![];
        for a in b'A'..=b'Z' {
            v.push(vec![a]);
            for b in b'0'..=b'9' {
                v.push(vec![a, b]);
                for c in b'0'..=b'9' {
                    v.push(vec![a, b, c]);
                }
            }
        }
        big.extend(packed("045Z", 'a', &v));
        // every byte at every position, every pair of digits
        let mut v: Vec<Vec<u8>> = vec![];
        for base in [b"0000000218250097", b"000000012146438X"] {
            for p in 0..16 {
                for c in 0x20..=0xffu8 {
                    let mut x = base.to_vec();
                    x[p] = c;
                    v.push(x);
                }
                for q in 0..p {
                    for k in 0..100u8 {
                        if !cx.thorough && (k as usize + p + q) % 3 != 0 {
                            continue;
                        }
                        let mut x = base.to_vec();
                        x[p] = b'0' + k % 10;
                        x[q] = b'0' + k / 10;
                        v.push(x);
                    }
                }
            }
            for n in 0..16 {
                v.push(base[..n].to_vec());
                v.push([&base[..], &base[..n]].concat());
                v.push([&base[..n], b"-", &base[n..]].concat());
                v.push([&base[..n], b" ", &base[n..]].concat());
            }
        }
        big.extend(packed("028A", 'y', &v));
        let mut v: Vec<Vec<u8>> = vec![];
        let mut w: Vec<Vec<u8>> = vec![];
        for y in [1900, 1999, 2000, 2023, 2024] {
            for m in 0..14 {
                for d in 0..33 {
                    v.push(format!("{y:04}-{m:02}-{d:02}").into_bytes());
                    w.push(format!("{d:02}.{m:02}.{y:04}").into_bytes());
                }
            }
        }
        big.extend(packed("010@", 'D', &v));
        big.extend(packed("010@", 'd', &w));
    }
    let pieces: Vec<&[Line]> = big.chunks(20).collect();
    cx.space(
        "values",
        "all strings of three lower case letters as language, of a letter and up to two digits as JEL code; every byte at every position, every pair of digits (quick: a third), every prefix and separator of two ISNIs; every day 0..32 and month 0..13 of 5 years",
        pieces.len() as u64,
        |i, st| {
            let w: Vec<&Line> = pieces[i as usize].iter().collect();
            let recs: Vec<&MR> = w.iter().filter_map(|l| l.rec.as_ref()).collect();
            let s = [Set { rules: one.iter().collect(), ..Default::default() }];
            let want = report(&s, &recs);
            st.states += recs.iter().map(|r| r[1].subs.len() as u64).sum::<u64>();
            go(&cli, st, &s, &[], &w, 0, 0, want);
        },
    );

    // links: order of the records
    let ll = link_lines();
    let lr = link_rules();
    let words = seqs(ll.len(), 0, cx.pick(4, 5));
    const SCOPES: [Option<(&str, fn(&MR) -> bool)>; 2] =
        [None, Some(("002@.0 =^ 'Tp'", |r| vals(r, "002@", '0').iter().any(|v| v.starts_with(b"Tp"))))];
    cx.space(
        "links",
        "all sequences of up to 4 (thorough 5) of 5 linked records over two files x scope x 4 link rules",
        words.len() as u64 * 2,
        |i, st| {
            let mut x = Radix(i);
            let scope = *x.of(&SCOPES);
            let w: Vec<&Line> = x.of(&words).iter().map(|k| &ll[*k]).collect();
            let recs: Vec<&MR> = w.iter().filter_map(|l| l.rec.as_ref()).collect();
            let s = [Set { scope, rules: lr.iter().collect(), fast: false }];
            go(&cli, st, &s, &[], &w, 0, 0, report(&s, &recs));
        },
    );

    // rule sets
    let mix: Vec<Rule> = {
        let mut v = vec![
            rule("M1", "check = \"filter\"\nfilter = \"065R?\"\ndescription = \"d\"\nlink = \"l\"", |r| (!at(r, "065R", '9', |m| m.occ.is_none()).is_empty()).then(Vec::new)),
            rule("M2", "check = \"duplicates\"\nquery = \"065R.9, 003@.0\"\nthreshold = 1", |r| {
                let a = vals(r, "065R", '9');
                let b = ppn(r).unwrap_or_default();
                rows_dup(a.iter().map(|x| vec![x.to_vec(), b.to_vec()]).collect(), 1, "|")
            }),
            rule("m3", "check = \"filter\"\nfilter = \"002@.0 == 'Tp1'\"", |r| vals(r, "002@", '0').contains(&&b"Tp1"[..]).then(Vec::new)),
        ];
        v[0].level = "warning";
        v[0].tags = &["x"];
        v[1].level = "info";
        v[1].tags = &["x", "y"];
        v.extend(link_rules().into_iter().take(1));
        v
    };
    /// rule selection: arguments and predicate
    type Pick = (&'static [&'static str], fn(&Rule) -> bool);
    const PICKS: [Pick; 6] = [
        (&[], |_| true),
        (&["--tags", "x"], |r| r.tags.contains(&"x")),
        (&["-t", "y, l"], |r| r.tags.contains(&"y") || r.tags.contains(&"l")),
        (&["-r", "^M[12]$"], |r| r.id.starts_with('M')),
        (&["-r", "3", "--rule", "K"], |r| r.id == "m3" || r.id == "K1"),
        (&["-r", "M", "-t", "y"], |r| r.id == "M2"),
    ];
    let words = seqs(ll.len(), 0, 2);
    let long: Vec<Vec<usize>> = seqs(ll.len(), 4, 4).into_iter().step_by(cx.pick(60, 12)).collect();
    let words: Vec<Vec<usize>> = words.into_iter().chain(long).collect();
    cx.space(
        "rule sets",
        "all subsets of 4 rules x scope x termination x 6 rule selections x sequences of up to 2 (and some of 4) of 5 records (thorough: more)",
        16 * 2 * 2 * 6 * words.len() as u64,
        |i, st| {
            let mut x = Radix(i);
            let m = x.take(16);
            let scope = *x.of(&SCOPES);
            let fast = x.bool();
            let p = x.of(&PICKS);
            let w: Vec<&Line> = x.of(&words).iter().map(|k| &ll[*k]).collect();
            let sel = (i % 5) as usize % 3;
            let recs: Vec<&MR> = SELS[sel].of(w.iter().copied());
            let rules: Vec<&Rule> = mix.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|x| x.1).collect();
            let s = [Set { scope, fast, rules: rules.clone() }];
            let e = [Set { scope, fast, rules: rules.into_iter().filter(|r| p.1(r)).collect() }];
            go(&cli, st, &s, p.0, &w, sel, 0, report(&e, &recs));
        },
    );
    cx.space(
        "several rule sets and outputs",
        "pairs of rule sets (4 subsets each, one fast, one with scope) x stdout/csv/tsv/txt x 5 selections of records x sequences of records",
        4 * 4 * 4 * 3 * words.len() as u64,
        |i, st| {
            let mut x = Radix(i);
            let (a, b) = (*x.of(&[1, 6, 8, 15]), *x.of(&[0, 2, 12, 15]));
            let dest = x.take(4);
            let sel = x.take(3);
            let w: Vec<&Line> = x.of(&words).iter().map(|k| &ll[*k]).collect();
            let recs: Vec<&MR> = SELS[sel].of(w.iter().copied());
            let sub = |m: i32| -> Vec<&Rule> { mix.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|x| x.1).collect() };
            let s = [Set { scope: None, fast: true, rules: sub(a) }, Set { scope: SCOPES[1], fast: false, rules: sub(b) }];
            go(&cli, st, &s, &[], &w, sel, dest, report(&s, &recs));
        },
    );
    // malformed rule sets
    let bad: &[&str] = &[
        "x",
        "[rule.A]\n",
        "[rule.A]\ncheck = \"nope\"\n",
        "[rule.A]\ncheck = \"filter\"\n",
        "[rule.A]\ncheck = \"filter\"\nfilter = \"003@\"\n",
        "scope = \"003@\"\n",
        "termination = \"slow\"\n",
        "[rule.A]\ncheck = \"allow\"\npath = \"003@.0\"\nlist = { filename = \"missing.csv\", column = \"x\" }\n",
        "[rule.A]\ncheck = \"allow\"\npath = \"003@.0\"\nlist = { filename = \"list.csv\", column = \"x\" }\n",
        "[rule.A]\ncheck = \"filter\"\nfilter = \"003@?\"\nlevel = \"fatal\"\n",
        "[rule.A]\ncheck = \"unicode\"\nnormalization = \"x\"\n",
        "[rule.A]\ncheck = \"datetime\"\npath = \"003@\"\n",
    ];
    cx.space("malformed rule sets", "12 rule sets that cannot be used", bad.len() as u64, |i, st| {
        let b = ser(&vec![f("003@", &["01"])]);
        let j = job(&["check", "-R", "r.toml"]).stdin(&b).file("r.toml", bad[i as usize].as_bytes()).file("list.csv", LIST.as_bytes());
        let o = cli.run(&j);
        verdict(st, &j, &o, o.clean() && !o.ok() && !o.err.is_empty() && o.out.is_empty(), "an error");
    });
    cx.assume("rules of a set are evaluated in the order of their identifiers");
    cx.assume("the rows of link rules are at the end of the report; records with the same identification number are summed up there");
    cx.assume("the code lists in harness/src/codes.rs (ISO 639-2/B and JEL) are right");
    crate::sim::rules(cx, &cli);
    crate::c26::options(cx, &cli, &["check"]);
    crate::long::cli(cx, &cli);
    crate::prims::cli(cx, &cli);
}
