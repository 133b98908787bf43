//! C23 count, frequency, hash, describe; C24 select.
use std::collections::{BTreeMap, BTreeSet};

use sha2::{Digest, Sha256};

use crate::c11::CONDS;
use crate::c12::{Fr, QOpt, fragments, table};
use crate::c15::{EXPRS, LISTS, hits};
use crate::c17::verdict;
use crate::cli::{Cli, Job, Line, Out, cat, debruijn, job, line, lines, ppn, raw};
use crate::cx::{Cx, Radix, St, esc, seqs};
use crate::rec::{MF, MR, f};

type Row = Vec<Vec<u8>>;

/// Decodes a table with quotes as in RFC 4180.
pub fn csv(b: &[u8], delim: u8) -> Option<Vec<Row>> {
    let mut rows = vec![];
    let mut i = 0;
    while i < b.len() {
        let mut row = vec![];
        loop {
            let mut cell = vec![];
            if b.get(i) == Some(&b'"') {
                i += 1;
                loop {
                    match b.get(i)? {
                        b'"' if b.get(i + 1) == Some(&b'"') => {
                            cell.push(b'"');
                            i += 2;
                        }
                        b'"' => {
                            i += 1;
                            break;
                        }
                        c => {
                            cell.push(*c);
                            i += 1;
                        }
                    }
                }
            } else {
                while i < b.len() && b[i] != delim && b[i] != b'\n' {
                    if b[i] == b'"' || b[i] == b'\r' {
                        return None;
                    }
                    cell.push(b[i]);
                    i += 1;
                }
            }
            row.push(cell);
            match b.get(i) {
                Some(c) if *c == delim => i += 1,
                Some(b'\n') => {
                    i += 1;
                    break;
                }
                _ => return None,
            }
        }
        rows.push(row);
    }
    Some(rows)
}

/// A restriction of the records.
#[derive(Clone, Copy, Debug)]
pub struct Sel {
    pub expr: Option<usize>,
    pub limit: usize,
}
pub const SELS: &[Sel] = &[
    Sel { expr: None, limit: 0 },
    Sel { expr: None, limit: 1 },
    Sel { expr: None, limit: 2 },
    Sel { expr: Some(1), limit: 0 },
    Sel { expr: Some(5), limit: 1 },
];
impl Sel {
    pub fn args(&self) -> Vec<String> {
        let mut a = vec![];
        if let Some(e) = self.expr {
            a.extend(["--where".into(), EXPRS[e].0.into()]);
        }
        if self.limit > 0 {
            a.extend(["--limit".into(), self.limit.to_string()]);
        }
        a
    }
    pub fn of<'a>(&self, ls: impl IntoIterator<Item = &'a Line>) -> Vec<&'a MR> {
        let it = ls
            .into_iter()
            .filter_map(|l| l.rec.as_ref())
            .filter(|r| self.expr.is_none_or(|e| EXPRS[e].1(r, false, 75)));
        if self.limit > 0 { it.take(self.limit).collect() } else { it.collect() }
    }
}

/// Runs the command on the lines, distributed over two files.
fn on<'a>(args: &[String], w: &[&Line], store: &'a mut (Vec<u8>, Vec<u8>)) -> Job<'a> {
    let cut = w.len() / 2;
    store.0 = cat(w[..cut].iter().copied());
    store.1 = cat(w[cut..].iter().copied());
    let mut a = args.to_vec();
    a.extend(["b.dat".into(), "c.dat".into()]);
    job(&a).file("b.dat", &store.0).file("c.dat", &store.1)
}

/// Compares the output at its destination; `o` is the name of the file
/// and its previous content.
fn at(o: &Out, dest: Option<(&str, Option<&[u8]>)>) -> Option<Vec<u8>> {
    match dest {
        None if o.files.is_empty() => Some(o.out.clone()),
        Some((n, old)) if o.out.is_empty() && o.files.keys().all(|k| k == n) => {
            o.files.get(n).cloned().or(old.map(<[u8]>::to_vec))
        }
        _ => None,
    }
}

fn utf8(v: &[u8]) -> Vec<u8> {
    String::from_utf8_lossy(v).into_owned().into_bytes()
}

fn rows_text(r: &[Row]) -> String {
    format!("{:?}", r.iter().map(|r| r.iter().map(|c| esc(c)).collect::<Vec<_>>()).collect::<Vec<_>>())
}

/// The alphabet of the short streams.
fn some(ls: &[Line]) -> Vec<&Line> {
    [0, 1, 2, 3, 4, 5, 6].iter().map(|i| &ls[*i]).collect()
}

fn qpath(tag: &'static str, occ: &'static str, s: &[&'static str], c: usize) -> Fr {
    Fr::Path(tag, occ, s.to_vec(), CONDS[c])
}

fn queries() -> Vec<Vec<Fr>> {
    vec![
        vec![qpath("003@", "", &["0"], 0)],
        vec![qpath("012A", "", &["a"], 0)],
        vec![qpath("012A", "/*", &["a", "b"], 0)],
        vec![qpath("003@", "", &["0"], 0), qpath("012A", "/*", &["a"], 0)],
        vec![qpath("012A", "/*", &["[ab]"], 1)],
        vec![Fr::Lit("k,\"'\t"), qpath("012A", "/*", &["*"], 0), qpath("013H", "", &["a"], 0)],
        vec![qpath("0...", "/*", &["*"], 2)],
        vec![Fr::Lit("")],
        vec![qpath("003@", "", &["0"], 0), fragments()[4].clone()],
    ]
}

const NF: [&str; 5] = ["", "nfc", "nfd", "nfkc", "nfkd"];
/// The normal form of a cell (of the characters that are used here).
fn normal(v: &[u8], nf: usize) -> Vec<u8> {
    match nf {
        0 => v.to_vec(),
        1 | 3 => utf8(v),
        _ => String::from_utf8_lossy(v).replace('\u{e4}', "a\u{308}").replace('\u{c4}', "A\u{308}").into_bytes(),
    }
}

const CODES: [&str; 6] = ["a", "b", "c", "d", "e", "g"];
/// Records of up to k subfields, every one absent, empty or with a
/// value.
fn partial(k: usize) -> Vec<Line> {
    (0..3usize.pow(k as u32))
        .map(|mut n| {
            let mut m = f("012A", &[]);
            for c in &CODES[..k] {
                match n % 3 {
                    1 => m.subs.push((c.chars().next().unwrap(), vec![])),
                    2 => m.subs.push((c.chars().next().unwrap(), b"v".to_vec())),
                    _ => {}
                }
                n /= 3;
            }
            let r = vec![f("003@", &["01"]), m];
            Line { name: "p", bytes: crate::rec::ser(&r), rec: Some(r) }
        })
        .collect()
}
/// Queries with k columns on these records.
fn columns(k: usize, form: usize) -> Vec<Fr> {
    let all = CODES[..k].to_vec();
    match form {
        0 => vec![qpath("012A", "", &all, 0)],
        1 => CODES[..k].iter().map(|c| qpath("012A", "", &[c], 0)).collect(),
        2 => vec![qpath("012A", "", &all[..1], 0), qpath("012A", "", &all, 0)],
        3 => vec![Fr::Lit(""), qpath("012A", "", &all, 0), Fr::Lit("")],
        _ => CODES[..k].iter().rev().map(|c| qpath("012A", "/*", &[c], 1)).collect(),
    }
}

fn qtext(q: &[Fr], v: usize) -> String {
    q.iter().map(|f| f.text(v)).collect::<Vec<_>>().join(", ")
}

/// Lines with values that need quotes, repeated values and values
/// whose order is not that of their lengths.
fn special() -> Vec<Line> {
    vec![
        line("q", &[f("003@", &["01"]), f("012A", &["ax,y", "a\"", "b\t"]), f("012A", &["a"])]),
        line("r", &[f("003@", &["010"]), f("012A", &["ax", "ax", "bz"]), f("012A/01", &["ax"])]),
        line("s", &[f("003@", &["02"]), raw("012A", 'a', b"x\ry"), f("013H", &["a#"])]),
        // 1 + 0x and 10 + x
        line("u", &[f("003@", &["01"]), f("012A", &["a0x"])]),
        line("t", &[f("003@", &["03", "04"]), f("012A", &["a x", "bZ"]), raw("012A", 'a', b"\xff")]),
    ]
}

/// Every order of two lines.
fn stream(ls: &[Line]) -> Vec<&Line> {
    debruijn(ls.len(), 2).into_iter().map(|i| &ls[i]).collect()
}

pub fn run(cx: &Cx) {
    let cli = Cli::new("c23");
    let ls = lines();
    let sub = some(&ls);
    let words = seqs(sub.len(), 0, cx.pick(2, 3));
    let word = |i: &[usize]| -> Vec<&Line> { i.iter().map(|k| sub[*k]).collect() };
    let mut all: Vec<Line> = lines();
    all.extend(special());
    let big = stream(&all);
    let half: Vec<&Line> = big.iter().copied().step_by(3).collect();
    let streams: [&[&Line]; 2] = [&big, &half];

    // count
    let forms: &[&[&str]] = &[
        &[],
        &["-r"],
        &["--fields"],
        &["--subfields"],
        &["--csv"],
        &["--tsv"],
        &["--csv", "--no-header"],
        &["--tsv", "--no-header"],
    ];
    cx.space(
        "count",
        "all sequences of up to 2 (thorough 3) of 7 lines, over two files, x 8 formats x 5 selections x stdout/new file/existing file/append",
        words.len() as u64 * 8 * 5 * 4,
        |i, st| {
            let mut x = Radix(i);
            let dest = x.take(4);
            let fm = x.take(8);
            let sel = x.of(SELS);
            let w = word(x.of(&words));
            count(&cli, st, forms[fm], fm, sel, &w, dest);
        },
    );
    cx.space("count long", "2 streams with every pair of 14 lines x 8 formats x 5 selections", 2 * 8 * 5, |i, st| {
        let mut x = Radix(i);
        let fm = x.take(8);
        let sel = x.of(SELS);
        count(&cli, st, forms[fm], fm, sel, x.of(&streams), 0);
    });

    // frequency
    let qs = queries();
    cx.space(
        "frequency options",
        "9 queries x 7 combinations of squash, merge and separator x --unique x --reverse x -n 0..2 x --threshold 0,1,2,5 x CSV/TSV x 2 streams with every pair of 14 lines",
        qs.len() as u64 * 7 * 2 * 2 * 3 * 4 * 2 * 2,
        |i, st| {
            let mut x = Radix(i);
            let q = x.of(&qs);
            let o = x.take(7);
            let unique = x.bool();
            let rev = x.bool();
            let n = x.take(3);
            let th = *x.of(&[0u64, 1, 2, 5]);
            let tsv = x.bool();
            let w = x.of(&streams);
            let head = i % 3 == 0;
            freq(&cli, st, q, o, (unique, rev, n, th, tsv, head), &SELS[0], w, (i % 2) as usize);
        },
    );
    cx.space(
        "frequency streams",
        "all sequences of up to 2 (thorough 3) of 7 lines x 9 queries x 5 selections x --unique x --reverse",
        words.len() as u64 * qs.len() as u64 * 5 * 4,
        |i, st| {
            let mut x = Radix(i);
            let unique = x.bool();
            let rev = x.bool();
            let q = x.of(&qs);
            let sel = x.of(SELS);
            let w = word(x.of(&words));
            freq(&cli, st, q, 0, (unique, rev, 0, 0, false, false), sel, &w, 1);
        },
    );
    let kmax = cx.pick(5, 6);
    cx.space(
        "frequency columns",
        "queries of 1..=5 (thorough 6) columns in 5 forms x all records whose subfields are absent, empty or have a value x --unique x 7 combinations of squash, merge and separator x CSV/TSV",
        kmax as u64 * 5 * 2 * 7 * 2,
        |i, st| {
            let mut x = Radix(i);
            let (unique, tsv) = (x.bool(), x.bool());
            let o = x.take(7);
            let form = x.take(5);
            let k = x.take(kmax) + 1;
            let ls = partial(k);
            let w: Vec<&Line> = ls.iter().collect();
            freq(&cli, st, &columns(k, form), o, (unique, i % 3 == 0, 0, 0, tsv, i % 5 == 0), &SELS[0], &w, (i % 2) as usize);
        },
    );
    // all histories of counts: which values occur how often
    let hist = seqs(3, 0, cx.pick(5, 7));
    let vl: Vec<Line> = [&["aB"][..], &["ab"], &["aB", "ac", "aB"]].iter().map(|s| line("v", &[f("012A", s)])).collect();
    cx.space(
        "frequency order",
        "all sequences of up to 5 (thorough 7) of 3 records with shared values x --unique x --reverse x -n x --threshold",
        hist.len() as u64 * 2 * 2 * 2,
        |i, st| {
            let mut x = Radix(i);
            let unique = x.bool();
            let rev = x.bool();
            let part = x.bool();
            let w: Vec<&Line> = x.of(&hist).iter().map(|k| &vl[*k]).collect();
            let (n, th) = if part { (1, 2) } else { (0, 0) };
            freq(&cli, st, &qs[1], 0, (unique, rev, n, th, false, false), &SELS[0], &w, 0);
        },
    );
    // normal forms
    const NFS: [(&str, [&str; 3]); 4] = [
        ("nfc", ["\u{e4}", "\u{e5}", "\u{fb01}"]),
        ("nfd", ["a\u{308}", "a\u{30a}", "\u{fb01}"]),
        ("nfkc", ["\u{e4}", "\u{e5}", "fi"]),
        ("nfkd", ["a\u{308}", "a\u{30a}", "fi"]),
    ];
    cx.space("frequency normal form", "4 normal forms and none x composed/decomposed/compatibility characters x CSV/TSV", 5 * 2, |i, st| {
        let mut x = Radix(i);
        let nf = x.take(5);
        let tsv = x.bool();
        let src = ["\u{e4}", "a\u{30a}", "\u{fb01}"];
        let w: Vec<Line> = (0..6).map(|k| line("n", &[f("012A", &[&format!("a{}", src[k % 3])])])).take(5).collect();
        let b = cat(&w);
        let mut a: Vec<String> = vec!["frequency".into(), "012A.a".into()];
        let want: Vec<&str> = match nf {
            0 => src.to_vec(),
            k => {
                a.extend(["--translit".into(), NFS[k - 1].0.into()]);
                NFS[k - 1].1.to_vec()
            }
        };
        if tsv {
            a.push("-t".into());
        }
        let j = job(&a).stdin(&b);
        let o = cli.run(&j);
        // order: by count, then by the value as read
        let rows: Vec<Row> = [1, 0, 2].iter().map(|k| vec![want[*k].as_bytes().to_vec(), if *k == 2 { b"1" } else { b"2" }.to_vec()]).collect();
        let ok = o.ok() && csv(&o.out, if tsv { b'\t' } else { b',' }).as_ref() == Some(&rows);
        verdict(st, &j, &o, ok, &rows_text(&rows));
    });

    // hash
    cx.space(
        "hash",
        "all sequences of up to 2 (thorough 3) of 7 lines and a stream with every pair of 14 lines x 5 selections x CSV/TSV x header x stdout/file",
        (words.len() + 1) as u64 * 5 * 2 * 2,
        |i, st| {
            let mut x = Radix(i);
            let tsv = x.bool();
            let head = x.bool();
            let sel = x.of(SELS);
            let k = x.take(words.len() + 1);
            let w = if k < words.len() { word(&words[k]) } else { big.clone() };
            let mut a: Vec<String> = vec!["hash".into(), "-s".into()];
            if tsv {
                a.push("--tsv".into());
            }
            let mut rows: Vec<Row> = vec![vec![b"ppn".to_vec(), b"hash".to_vec()]];
            if head {
                a.extend(["-H".into(), "i, \"h".into()]);
                rows[0] = vec![b"i".to_vec(), b"\"h".to_vec()];
            }
            a.extend(sel.args());
            let file = i % 2 == 1;
            if file {
                a.extend(["-o".into(), "o.csv".into()]);
            }
            for r in sel.of(w.iter().copied()) {
                let h: String = Sha256::digest(crate::rec::ser(r)).iter().map(|b| format!("{b:02x}")).collect();
                rows.push(vec![utf8(ppn(r).unwrap_or_default()), h.into_bytes()]);
            }
            let mut s = Default::default();
            let j = on(&a, &w, &mut s);
            let o = cli.run(&j);
            let got = at(&o, file.then_some(("o.csv", None)));
            let ok = o.ok() && got.and_then(|b| csv(&b, if tsv { b'\t' } else { b',' })).as_ref() == Some(&rows);
            verdict(st, &j, &o, ok, &rows_text(&rows));
        },
    );

    // describe
    let nd = LISTS.len();
    cx.space(
        "describe",
        "all sequences of up to 2 (thorough 3) of 7 lines and a stream x 5 selections x 5 destinations; 7 x 7 kept/discarded lists on the stream",
        (words.len() + 1) as u64 * 5 * 5 + (nd * nd) as u64 * 5,
        |i, st| {
            let n0 = (words.len() + 1) as u64 * 25;
            let mut x = Radix(if i < n0 { i } else { i - n0 });
            let dest = x.take(5);
            let (w, sel, keep, disc);
            if i < n0 {
                sel = x.of(SELS);
                let k = x.take(words.len() + 1);
                w = if k < words.len() { word(&words[k]) } else { big.clone() };
                keep = &LISTS[0];
                disc = &LISTS[0];
            } else {
                sel = &SELS[0];
                w = big.clone();
                keep = x.of(LISTS);
                disc = x.of(LISTS);
            }
            let mut a: Vec<String> = vec!["describe".into(), "-s".into()];
            a.extend(sel.args());
            if !keep.0.is_empty() {
                a.extend(["--keep".into(), keep.0.into()]);
            }
            if !disc.0.is_empty() {
                a.extend(["-d".into(), disc.0.into()]);
            }
            let recs = sel.of(w.iter().copied());
            let want = description(&recs, |m| !(hits(m, disc.1) || !keep.0.is_empty() && !hits(m, keep.1)));
            let (name, delim) = match dest {
                0 => (None, 0),
                1 => (Some("o.csv"), b','),
                2 => (Some("o.tsv"), b'\t'),
                3 => (Some("o.x"), b','),
                _ => (Some("o.y"), b'\t'),
            };
            if let Some(n) = name {
                a.extend(["-o".into(), n.into()]);
            }
            match dest {
                3 => a.push("--csv".into()),
                4 => a.push("--tsv".into()),
                _ => {}
            }
            let mut s = Default::default();
            let j = on(&a, &w, &mut s);
            let o = cli.run(&j);
            let got = at(&o, name.map(|n| (n, None)));
            let got = match (got, dest) {
                (Some(b), 0) => boxes(&b),
                (Some(b), _) => csv(&b, delim),
                _ => None,
            };
            verdict(st, &j, &o, o.ok() && got.as_ref() == Some(&want), &rows_text(&want));
        },
    );
    // the Arrow table is read back as a filter list
    cx.space(
        "describe arrow",
        "all sequences of up to 2 of 7 lines and a stream: the columns of the Arrow file read back with --allow-list",
        words.len().min(57) as u64 + 1,
        |i, st| {
            let w = if (i as usize) < words.len().min(57) { word(&words[i as usize]) } else { half.clone() };
            let recs = SELS[0].of(w.iter().copied());
            let want = description(&recs, |_| true);
            let mut s = Default::default();
            let j = on(&["describe".into(), "-s".into(), "-o".into(), "o.ipc".into()], &w, &mut s);
            let o = cli.run(&j);
            let Some(ipc) = o.files.get("o.ipc") else {
                verdict(st, &j, &o, false, "an Arrow file");
                return;
            };
            let mut cand: BTreeSet<Vec<u8>> = (0..40).map(|n| n.to_string().into_bytes()).collect();
            for l in &lines() {
                for m in l.rec.iter().flatten() {
                    cand.insert(m.tag.clone().into_bytes());
                }
            }
            cand.extend(want.iter().flatten().cloned());
            let probe: Vec<MR> = cand.iter().map(|v| vec![raw("003@", '0', v)]).collect();
            let input: Vec<u8> = probe.iter().flat_map(crate::rec::ser).collect();
            for (c, name) in want[0].iter().enumerate() {
                let col: BTreeSet<&Vec<u8>> = want[1..].iter().map(|r| &r[c]).collect();
                let exp: Vec<u8> = probe.iter().filter(|r| col.contains(&r[0].subs[0].1)).flat_map(crate::rec::ser).collect();
                let name = String::from_utf8_lossy(name);
                let j = job(&["filter", "-A", "o.ipc", "--filter-set-column", &name, "003@?"]).file("o.ipc", ipc).stdin(&input);
                let o = cli.run(&j);
                verdict(st, &j, &o, o.ok() && o.out == exp, &esc(&exp));
                if st.failed() {
                    return;
                }
            }
        },
    );
    cx.assume("values that are not valid UTF-8 are shown with replacement characters by frequency and hash");
    cx.assume("the values of an Arrow table are compared column by column as sets");
    crate::sim::commands(cx, &cli);
    crate::c26::options(cx, &cli, &["count", "frequency", "hash", "describe"]);
    crate::long::cli(cx, &cli);
    crate::prims::cli(cx, &cli);
}

fn count(cli: &Cli, st: &mut St, form: &[&str], fm: usize, sel: &Sel, w: &[&Line], dest: usize) {
    let mut a: Vec<String> = vec!["count".into(), "-s".into()];
    a.extend(form.iter().map(|s| s.to_string()));
    a.extend(sel.args());
    if dest > 0 {
        a.extend(["-o".into(), "o.txt".into()]);
    }
    if dest == 3 {
        a.push("--append".into());
    }
    let recs = sel.of(w.iter().copied());
    let r = recs.len();
    let fl: usize = recs.iter().map(|r| r.len()).sum();
    let s: usize = recs.iter().flat_map(|r| r.iter()).map(|m| m.subs.len()).sum();
    let mut want = if dest == 3 { b"old\n".to_vec() } else { vec![] };
    want.extend(
        match fm {
            0 => format!("records: {r}\nfields: {fl}\nsubfields: {s}\n"),
            1 => format!("{r}\n"),
            2 => format!("{fl}\n"),
            3 => format!("{s}\n"),
            4 => format!("records,fields,subfields\n{r},{fl},{s}\n"),
            5 => format!("records\tfields\tsubfields\n{r}\t{fl}\t{s}\n"),
            6 => format!("{r},{fl},{s}\n"),
            _ => format!("{r}\t{fl}\t{s}\n"),
        }
        .into_bytes(),
    );
    let mut store = Default::default();
    let mut j = on(&a, w, &mut store);
    if dest >= 2 {
        j = j.file("o.txt", b"old\n");
    }
    let o = cli.run(&j);
    let got = at(&o, (dest > 0).then_some(("o.txt", None)));
    verdict(st, &j, &o, o.ok() && got.as_ref() == Some(&want), &esc(&want));
}

const OPTS: [QOpt; 7] = [
    QOpt { squash: false, merge: false, sep: "|" },
    QOpt { squash: true, merge: false, sep: "|" },
    QOpt { squash: true, merge: false, sep: "; " },
    QOpt { squash: false, merge: true, sep: "|" },
    QOpt { squash: false, merge: true, sep: "" },
    QOpt { squash: true, merge: false, sep: "" },
    QOpt { squash: false, merge: true, sep: "; " },
];
fn oargs(o: &QOpt) -> Vec<String> {
    let mut a = vec![];
    if o.squash {
        a.push("--squash".into());
    }
    if o.merge {
        a.push("--merge".into());
    }
    if o.sep != "|" {
        a.extend(["--separator".into(), o.sep.into()]);
    }
    a
}

#[allow(clippy::too_many_arguments)]
fn freq(cli: &Cli, st: &mut St, q: &[Fr], o: usize, p: (bool, bool, usize, u64, bool, bool), sel: &Sel, w: &[&Line], v: usize) {
    let (unique, rev, n, th, tsv, head) = p;
    let mut a: Vec<String> = vec!["frequency".into(), "-s".into()];
    a.extend(oargs(&OPTS[o]));
    a.extend(sel.args());
    if unique {
        a.push("-u".into());
    }
    if rev {
        a.push("--reverse".into());
    }
    if n > 0 {
        a.extend(["-n".into(), n.to_string()]);
    }
    if th > 0 {
        a.extend(["--threshold".into(), th.to_string()]);
    }
    if tsv {
        a.push("--tsv".into());
    }
    let width: usize = q.iter().map(|f| f.width()).sum();
    let mut want: Vec<Row> = vec![];
    if head {
        let h: Vec<String> = (0..=width).map(|k| format!("c{k}")).collect();
        a.extend(["-H".into(), h.join(" , ")]);
        want.push(h.into_iter().map(String::into_bytes).collect());
    }
    let file = head && unique;
    if file {
        a.extend(["-o".into(), "o.csv".into()]);
    }
    a.push(qtext(q, v));
    let mut m: BTreeMap<Row, u64> = BTreeMap::new();
    for r in sel.of(w.iter().copied()) {
        let mut rows = table(q, r, &OPTS[o]);
        rows.retain(|r| r.iter().any(|c| !c.is_empty()));
        if unique {
            let mut s = BTreeSet::new();
            rows.retain(|r| s.insert(r.clone()));
        }
        for r in rows {
            *m.entry(r).or_default() += 1;
        }
    }
    let mut l: Vec<(Row, u64)> = m.into_iter().filter(|x| x.1 >= th).collect();
    // stable: equal counts remain in ascending order of the values
    if rev {
        l.sort_by_key(|x| x.1);
    } else {
        l.sort_by_key(|x| std::cmp::Reverse(x.1));
    }
    if n > 0 {
        l.truncate(n);
    }
    for (mut r, c) in l {
        r.iter_mut().for_each(|c| *c = utf8(c));
        r.push(c.to_string().into_bytes());
        want.push(r);
    }
    let mut store = Default::default();
    let j = on(&a, w, &mut store);
    let o = cli.run(&j);
    let got = at(&o, file.then_some(("o.csv", None))).and_then(|b| csv(&b, if tsv { b'\t' } else { b',' }));
    verdict(st, &j, &o, o.ok() && got.as_ref() == Some(&want), &rows_text(&want));
}

fn description(recs: &[&MR], keep: impl Fn(&MF) -> bool) -> Vec<Row> {
    let mut m: BTreeMap<&str, BTreeMap<char, usize>> = BTreeMap::new();
    for x in recs.iter().flat_map(|r| r.iter()).filter(|m| keep(m)) {
        let e = m.entry(&x.tag).or_default();
        for s in &x.subs {
            *e.entry(s.0).or_default() += 1;
        }
    }
    let codes: BTreeSet<char> = m.values().flat_map(|m| m.keys().copied()).collect();
    let mut rows = vec![vec![b"field".to_vec()]];
    rows[0].extend(codes.iter().map(|c| c.to_string().into_bytes()));
    for (t, c) in m {
        let mut r = vec![t.as_bytes().to_vec()];
        r.extend(codes.iter().map(|k| c.get(k).unwrap_or(&0).to_string().into_bytes()));
        rows.push(r);
    }
    rows
}

/// Reads the table that is shown on the screen.
fn boxes(b: &[u8]) -> Option<Vec<Row>> {
    let s = std::str::from_utf8(b).ok()?;
    let rows: Vec<Row> = s
        .lines()
        .filter(|l| l.starts_with('\u{2502}'))
        .map(|l| l.trim_matches('\u{2502}').split(['\u{2506}', '\u{2502}']).map(|c| c.trim().as_bytes().to_vec()).collect())
        .collect();
    Some(rows)
}

pub fn run24(cx: &Cx) {
    let cli = Cli::new("c24");
    let ls = lines();
    let mut all = lines();
    all.extend(special());
    let sub: Vec<&Line> = [0, 1, 3, 4, 6, 9, 10].iter().map(|i| &all[*i]).collect();
    let words = seqs(sub.len(), 0, cx.pick(2, 3));
    let big = stream(&all);
    let qs = queries();
    let _ = ls;
    struct P {
        o: usize,
        noempty: bool,
        unique: bool,
        tsv: bool,
        quote: usize,
        head: bool,
        dest: usize,
        nf: usize,
    }
    let go = |st: &mut St, q: &[Fr], p: &P, sel: &Sel, w: &[&Line], v: usize| {
        let mut a: Vec<String> = vec!["select".into(), "-s".into()];
        a.extend(oargs(&OPTS[p.o]));
        a.extend(sel.args());
        for (b, s) in [(p.noempty, "--no-empty-columns"), (p.unique, "-u"), (p.tsv, "--tsv"), (p.dest == 3, "--append")] {
            if b {
                a.push(s.into());
            }
        }
        if p.nf > 0 {
            a.extend(["--translit".into(), NF[p.nf].into()]);
        }
        if p.quote > 0 {
            a.extend(["--quote-style".into(), ["necessary", "always", "non-numeric"][p.quote].into()]);
        }
        let width: usize = q.iter().map(|f| f.width()).sum();
        let mut want: Vec<Row> = vec![];
        if p.dest == 3 {
            want.push(vec![b"old".to_vec()]);
        }
        if p.head {
            let h: Vec<String> = (0..width).map(|k| format!("c {k}")).collect();
            a.extend(["-H".into(), h.join(", ")]);
            want.push(h.into_iter().map(String::into_bytes).collect());
        }
        if p.dest > 0 {
            a.extend(["-o".into(), "o.csv".into()]);
        }
        a.push(qtext(q, v));
        let mut seen = BTreeSet::new();
        for r in sel.of(w.iter().copied()) {
            for row in table(q, r, &OPTS[p.o]) {
                if row.iter().all(|c| c.is_empty()) || p.noempty && row.iter().any(|c| c.is_empty()) || p.unique && !seen.insert(row.clone()) {
                    continue;
                }
                want.push(row.iter().map(|c| normal(c, p.nf)).collect());
            }
        }
        let mut store = Default::default();
        let mut j = on(&a, w, &mut store);
        if p.dest >= 2 {
            j = j.file("o.csv", b"old\n");
        }
        let o = cli.run(&j);
        // an append without rows leaves the file as it is
        let old: Option<&[u8]> = (p.dest == 3).then_some(b"old\n");
        let got = at(&o, (p.dest > 0).then_some(("o.csv", old)));
        let got = got.and_then(|b| csv(&b, if p.tsv { b'\t' } else { b',' }));
        verdict(st, &j, &o, o.ok() && got.as_ref() == Some(&want), &rows_text(&want));
    };
    cx.space(
        "options",
        "9 queries x 7 combinations of squash, merge and separator x 5 normal forms (in rotation) x --no-empty-columns x --unique x CSV/TSV x 3 quote styles x header x stdout/new/existing/append on a stream with every pair of 14 lines",
        qs.len() as u64 * 7 * 2 * 2 * 2 * 3 * 2 * 4,
        |i, st| {
            let mut x = Radix(i);
            let q = x.of(&qs);
            let p = P { nf: (i % 37 % 5) as usize, o: x.take(7), noempty: x.bool(), unique: x.bool(), tsv: x.bool(), quote: x.take(3), head: x.bool(), dest: x.take(4) };
            go(st, q, &p, &SELS[0], &big, (i % 3) as usize);
        },
    );
    cx.space(
        "streams",
        "all sequences of up to 2 (thorough 3) of 7 lines over two files x 9 queries x 5 selections x --unique x --no-empty-columns x squash/merge x 5 normal forms (in rotation)",
        words.len() as u64 * qs.len() as u64 * 5 * 2 * 2 * 4,
        |i, st| {
            let mut x = Radix(i);
            let (unique, noempty, o) = (x.bool(), x.bool(), *x.of(&[0, 1, 3, 5]));
            let q = x.of(&qs);
            let sel = x.of(SELS);
            let w: Vec<&Line> = x.of(&words).iter().map(|k| sub[*k]).collect();
            let p = P { nf: (i % 31 % 5) as usize, o, noempty, unique, tsv: false, quote: 0, head: i % 5 == 0, dest: 0 };
            go(st, q, &p, sel, &w, (i % 3) as usize);
        },
    );
    let kmax = cx.pick(5, 6);
    cx.space(
        "columns",
        "queries of 1..=5 (thorough 6) columns in 5 forms x all records whose subfields are absent, empty or have a value x --unique x --no-empty-columns x 7 combinations of squash, merge and separator x CSV/TSV",
        kmax as u64 * 5 * 2 * 7 * 2 * 2,
        |i, st| {
            let mut x = Radix(i);
            let (unique, noempty, tsv) = (x.bool(), x.bool(), x.bool());
            let o = x.take(7);
            let form = x.take(5);
            let k = x.take(kmax) + 1;
            let ls = partial(k);
            let w: Vec<&Line> = ls.iter().collect();
            let p = P { nf: 0, o, noempty, unique, tsv, quote: (i % 3) as usize, head: i % 5 == 0, dest: 0 };
            go(st, &columns(k, form), &p, &SELS[0], &w, (i % 3) as usize);
        },
    );
    // cells: every string of up to three special characters
    let ab: [&[u8]; 8] = [b",", b"\t", b"\"", b"\r", b"'", b" ", b"1", b"\xff"];
    let cells = seqs(ab.len(), 0, cx.pick(2, 3));
    cx.space(
        "cells",
        "all pairs of values of up to 2 (thorough: up to 3, in groups) of 8 special characters x CSV/TSV x 3 quote styles",
        cells.len() as u64 * 2 * 3,
        |i, st| {
            let mut x = Radix(i);
            let p = P { nf: 0, o: 0, noempty: false, unique: false, tsv: x.bool(), quote: x.take(3), head: false, dest: 0 };
            let v = |c: &[usize]| -> Vec<u8> { c.iter().flat_map(|k| ab[*k].iter().copied()).collect() };
            let first = v(x.of(&cells));
            let step = cx.pick(1, 7);
            let recs: Vec<Line> = cells
                .iter()
                .skip(first.len() % step)
                .step_by(step)
                .map(|c| {
                    let mut m = raw("012A", 'a', &first);
                    m.subs.push(('b', v(c)));
                    Line { name: "c", bytes: crate::rec::ser(&vec![m.clone()]), rec: Some(vec![m]) }
                })
                .collect();
            let w: Vec<&Line> = recs.iter().collect();
            let q = [qpath("012A", "", &["a", "b"], 0)];
            go(st, &q, &p, &SELS[0], &w, 2);
            let q = [qpath("012A", "", &["a"], 0)];
            go(st, &q, &p, &SELS[1], &w, 2);
        },
    );
    // normal forms
    cx.space("normal form", "4 normal forms and none on composed, decomposed and compatibility characters", 5, |i, st| {
        let src = ["\u{e4}", "a\u{30a}", "\u{fb01}"];
        let nfs: [(&str, [&str; 3]); 5] = [
            ("", src),
            ("nfc", ["\u{e4}", "\u{e5}", "\u{fb01}"]),
            ("nfd", ["a\u{308}", "a\u{30a}", "\u{fb01}"]),
            ("nfkc", ["\u{e4}", "\u{e5}", "fi"]),
            ("nfkd", ["a\u{308}", "a\u{30a}", "fi"]),
        ];
        let w: Vec<Line> = src.iter().map(|s| line("n", &[f("003@", &["01"]), f("012A", &[&format!("a{s}")])])).collect();
        let b = cat(&w);
        let mut a = vec!["select", "003@.0, 012A.a"];
        if i > 0 {
            a.extend(["--translit", nfs[i as usize].0]);
        }
        let j = job(&a).stdin(&b);
        let o = cli.run(&j);
        let want: Vec<Row> = nfs[i as usize].1.iter().map(|v| vec![b"1".to_vec(), v.as_bytes().to_vec()]).collect();
        verdict(st, &j, &o, o.ok() && csv(&o.out, b',').as_ref() == Some(&want), &rows_text(&want));
    });
    // the result is the same for every number of columns in the header
    cx.space("other headers", "headers with one column more or less are an error or written as given, never lost rows", 2 * 2, |i, st| {
        let mut x = Radix(i);
        let h = *x.of(&["a", "a,b,c"]);
        let n = x.take(2);
        let w: Vec<&Line> = big.iter().copied().take(n * 3).collect();
        let mut s = Default::default();
        let j = on(&["select".into(), "-s".into(), "-H".into(), h.into(), "003@.0, 012A.a".into()], &w, &mut s);
        let o = cli.run(&j);
        let rows: usize = SELS[0]
            .of(w.iter().copied())
            .iter()
            .map(|r| table(&[qpath("003@", "", &["0"], 0), qpath("012A", "", &["a"], 0)], r, &OPTS[0]).iter().filter(|r| r.iter().any(|c| !c.is_empty())).count())
            .sum();
        let got = o.out.iter().filter(|c| **c == b'\n').count();
        verdict(st, &j, &o, o.clean() && (!o.ok() || got == rows + 1), "an error or all rows");
    });
    cx.assume("the quote style never cannot represent every cell and is not decoded");
    crate::sim::commands(cx, &cli);
    crate::c26::options(cx, &cli, &["select"]);
    crate::long::cli(cx, &cli);
    crate::prims::cli(cx, &cli);
}
