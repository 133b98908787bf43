//! C26: filter options of all commands.
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

use serde_json::json;

use crate::c02::gzip;
use crate::c15::{EXPRS, Fo};
use crate::c17::verdict;
use crate::cli::{Cli, Job, Line, Out, cat, debruijn, job, line, lines, raw, vals};
use crate::cmds::{CMDS, Cmd};
use crate::cx::{Cx, Radix, St, esc, seqs};
use crate::rec::{self, MR, f, ser};

type Eff = (i32, Vec<u8>, BTreeMap<String, Vec<u8>>);
fn eff(o: &Out) -> Eff {
    (o.code, o.out.clone(), o.files.clone())
}

/// A list file.
#[derive(Clone, Debug)]
struct List {
    name: String,
    bytes: Vec<u8>,
}

const FORMATS: [&str; 8] = ["csv", "tsv", "txt", "csv.gz", "tsv.gz", "txt.gz", "lst", "dat.gz"];

/// A list with the values in the given format; the column is between
/// two others where the format has columns.
fn list(name: &str, fmt: usize, col: &str, v: &[&str]) -> List {
    let ext = FORMATS[fmt];
    let d = if ext.starts_with("tsv") { '\t' } else { ',' };
    let q = |s: &str| if s.contains([d, '"']) { format!("\"{}\"", s.replace('"', "\"\"")) } else { s.to_string() };
    let mut s = String::new();
    if ext.starts_with("txt") {
        for x in v {
            s.push_str(&format!("{x}\n"));
        }
    } else {
        s.push_str(&format!("z{d}{col}{d}y\n"));
        for (k, x) in v.iter().enumerate() {
            s.push_str(&format!("{k}{d}{}{d}4\n", q(x)));
        }
    }
    let b = s.into_bytes();
    List { name: format!("{name}.{ext}"), bytes: if ext.ends_with("gz") { gzip(&b) } else { b } }
}

fn opts(allow: &[List], deny: &[List]) -> Vec<String> {
    let mut a = vec![];
    for l in allow {
        a.extend(["-A".into(), l.name.clone()]);
    }
    for l in deny {
        a.extend(["--deny-list".into(), l.name.clone()]);
    }
    a
}
fn with<'a>(mut j: Job<'a>, l: &'a [List]) -> Job<'a> {
    for x in l {
        j = j.file(&x.name, &x.bytes);
    }
    j
}

/// Membership in the lists; `None`: no list is given.
fn pass(keys: &[&[u8]], allow: Option<&[&str]>, deny: Option<&[&str]>) -> bool {
    let inn = |l: &[&str]| keys.iter().any(|k| l.iter().any(|x| x.as_bytes() == *k));
    !deny.is_some_and(inn) && allow.is_none_or(inn)
}

fn set(m: usize, v: &[&'static str]) -> Option<Vec<&'static str>> {
    if m == 0 { None } else { Some(v.iter().enumerate().filter(|x| (m - 1) >> x.0 & 1 == 1).map(|x| *x.1).collect()) }
}

fn alphabet() -> Vec<Line> {
    vec![
        line("p1", &[f("003@", &["01"]), f("012A", &["ax", "by"])]),
        line("p2", &[f("003@", &["02"]), f("012A", &["ay"]), f("012A/01", &["ax"])]),
        line("p3", &[f("003@", &["03"]), f("013H", &["a"])]),
        line("p12", &[f("003@", &["01"]), f("003@", &["02"]), f("012A", &["aX"])]),
        line("none", &[f("012A", &["ax"])]),
        line("raw", &[raw("003@", '0', b"\xff"), f("012A", &["a1"])]),
        line("p01", &[f("003@", &["001"]), f("012A", &["a2"])]),
    ]
}

/// The memory of runs without options.
struct Memo {
    m: Mutex<HashMap<(usize, Vec<u8>), Eff>>,
}
impl Memo {
    fn get(&self, cli: &Cli, c: usize, input: &[u8]) -> Eff {
        let k = (c, input.to_vec());
        if let Some(e) = self.m.lock().unwrap().get(&k) {
            return e.clone();
        }
        let e = eff(&CMDS[c].on(cli, &["-s"], input));
        self.m.lock().unwrap().insert(k, e.clone());
        e
    }
}

fn commands() -> Vec<usize> {
    (0..CMDS.len()).filter(|c| CMDS[*c].filt || CMDS[*c].name == "filter").collect()
}

/// Compares a command with options to the command without them on the
/// selected records.
#[allow(clippy::too_many_arguments)]
fn compare(cli: &Cli, memo: &Memo, st: &mut St, c: usize, o: &[String], ls: &[&Line], sel: &dyn Fn(&MR) -> bool, limit: usize, files: &[List]) {
    compare_at(cli, memo, st, c, o, ls, sel, limit, files, 0)
}
/// As `compare`, with the lines from `cut` on in a second input.
#[allow(clippy::too_many_arguments)]
fn compare_at(cli: &Cli, memo: &Memo, st: &mut St, c: usize, o: &[String], ls: &[&Line], sel: &dyn Fn(&MR) -> bool, limit: usize, files: &[List], cut: usize) {
    let cmd: &Cmd = &CMDS[c];
    let input = cat(ls.iter().copied());
    let mut a = vec!["-s".to_string()];
    a.extend(o.iter().cloned());
    if limit > 0 {
        a.extend(["-l".into(), limit.to_string()]);
    }
    let explode = cmd.name.starts_with("explode");
    let want = if explode {
        // the options select exploded records
        let (code, out, fl) = memo.get(cli, c, &input);
        let mut w = vec![];
        let mut n = 0;
        for l in out.split_inclusive(|b| *b == b'\n') {
            let Some(r) = rec::parse(l) else {
                verdict(st, &cmd.job(&a, &["in.dat"]).file("in.dat", &input), &Out::default(), false, "a valid exploded record");
                return;
            };
            if sel(&r) {
                w.extend_from_slice(l);
                n += 1;
                if n == limit {
                    break;
                }
            }
        }
        (code, w, fl)
    } else {
        let it = ls.iter().filter(|l| l.rec.as_ref().is_some_and(sel)).filter(|l| {
            // only records with a value are counted by partition
            cmd.name != "partition" || crate::cli::ppn(l.rec.as_ref().unwrap()).is_some()
        });
        let pre = if limit > 0 { cat(it.take(limit).copied()) } else { cat(it.copied()) };
        memo.get(cli, c, &pre)
    };
    let (i1, i2);
    let j = if cut == 0 {
        cmd.job(&a, &["in.dat"]).file("in.dat", &input)
    } else {
        (i1, i2) = (cat(ls[..cut].iter().copied()), cat(ls[cut..].iter().copied()));
        cmd.job(&a, &["in.dat", "in2.dat"]).file("in.dat", &i1).file("in2.dat", &i2)
    };
    let j = with(j, files);
    let got = cli.run(&j);
    st.state();
    st.step();
    st.trace();
    st.outcome(&got);
    st.sample(|| json!({"run": j.replay(), "got": got.show()}));
    let e = eff(&got);
    if e != want || e.0 != 0 {
        st.fail(
            format!("{}: {}; expected '{}' {:?}", j.line(), got.show(), esc(&want.1), want.2.iter().map(|(k, v)| format!("{k}: {}", esc(v))).collect::<Vec<_>>()),
            json!({"run": j.replay(), "got": got.show(), "expected": esc(&want.1)}),
        );
    }
}

/// The filter options of single commands (checked for every command by
/// C26): the result is that of the command without them on the selected
/// records.
pub fn options(cx: &Cx, cli: &Cli, names: &[&str]) {
    let memo = Memo { m: Default::default() };
    let cmds: Vec<usize> = names.iter().map(|n| CMDS.iter().position(|c| c.name == *n).unwrap()).collect();
    let al = alphabet();
    let all = lines();
    // matching, denied, not matching, with two numbers, without number, invalid
    let ab = [&al[0], &al[1], &al[2], &al[3], &al[4], &all[6]];
    let words = seqs(6, 0, cx.pick(2, 3));
    let wheres: Vec<Option<Fo>> = {
        let mut v = vec![None];
        let mut fo = |and: &[usize], or: &[usize], not: &[usize], ic: bool| {
            let mut x = Fo::new(1);
            (x.and, x.or, x.not, x.ic) = (and.to_vec(), or.to_vec(), not.to_vec(), ic);
            v.push(Some(x));
        };
        fo(&[], &[], &[], false);
        fo(&[0], &[], &[], false);
        fo(&[], &[3], &[], true);
        fo(&[], &[], &[0], false);
        v
    };
    let lists: [(usize, usize); 3] = [(0, 0), (4, 0), (0, 3)];
    let keys = ["1", "2", "3"];
    cx.space(
        "filter options",
        "all sequences of up to 2 (thorough 3) of 6 lines (selected, denied, not matching, with two numbers, without number, invalid) x 5 filters (with --and/--or/--not/--ignore-case) x allow/deny list x limit 0..2 x one input or two",
        (words.len() * cmds.len() * 5 * 3 * 3 * 2) as u64,
        |i, st| {
            let mut x = Radix(i);
            let c = *x.of(&cmds);
            let fo = x.of(&wheres);
            let (a, d) = *x.of(&lists);
            let limit = x.take(3);
            let two = x.bool();
            let w: Vec<&Line> = x.of(&words).iter().map(|k| ab[*k]).collect();
            if two && w.len() < 2 {
                return;
            }
            if CMDS[c].name == "filter" && fo.as_ref().is_some_and(|f| !f.or.is_empty()) {
                // excluded by --and
                return;
            }
            let (a, d) = (set(a, &keys), set(d, &keys));
            let la: Vec<List> = a.iter().map(|v| list("a", 0, "ppn", v)).collect();
            let ld: Vec<List> = d.iter().map(|v| list("d", 2, "ppn", v)).collect();
            let mut o = vec![];
            if let Some(fo) = fo {
                // the filter command has a filter that is always true
                let n = if CMDS[c].name == "filter" { "--and" } else { "--where" };
                o.extend([n.into(), EXPRS[fo.expr].0.into()]);
                o.extend(fo.args());
            }
            o.extend(opts(&la, &ld));
            let files: Vec<List> = la.into_iter().chain(ld).collect();
            let sel = |r: &MR| {
                let k = vals(r, "003@", '0');
                pass(&k, a.as_deref(), d.as_deref()) && fo.as_ref().is_none_or(|f| f.sel(r))
            };
            compare_at(cli, &memo, st, c, &o, &w, &sel, limit, &files, two as usize);
        },
    );
}

pub fn run(cx: &Cx) {
    let cli = Cli::new("c26");
    let memo = Memo { m: Default::default() };
    let al = alphabet();
    let bad = &lines()[6];
    let mut order: Vec<&Line> = debruijn(al.len(), 2).into_iter().map(|i| &al[i]).collect();
    order.insert(9, bad);
    let cmds = commands();
    let keys = ["1", "2", "3"];
    let key = |r: &MR| -> Vec<Vec<u8>> { vals(r, "003@", '0').into_iter().map(<[u8]>::to_vec).collect() };
    let ok = |r: &MR, a: &Option<Vec<&str>>, d: &Option<Vec<&str>>| {
        let k = key(r);
        let k: Vec<&[u8]> = k.iter().map(|v| &v[..]).collect();
        pass(&k, a.as_deref(), d.as_deref())
    };

    cx.space(
        "lists x commands",
        "all allow lists and deny lists over 3 keys (or none) x 15 commands on a stream with every pair of 7 records (one key, two keys, no key, a key that is not UTF-8)",
        81 * cmds.len() as u64,
        |i, st| {
            let mut x = Radix(i);
            let c = *x.of(&cmds);
            let (a, d) = (set(x.take(9), &keys), set(x.take(9), &keys));
            let fmt = (i % 8) as usize;
            let al: Vec<List> = a.iter().map(|v| list("a", fmt, "ppn", v)).collect();
            let de: Vec<List> = d.iter().map(|v| list("d", (fmt + 1) % 8, "idn", v)).collect();
            // an empty list needs a header
            if al.iter().chain(&de).any(|l| l.bytes.is_empty() || l.name.ends_with("txt.gz")) && (a.as_ref().is_some_and(|v| v.is_empty()) || d.as_ref().is_some_and(|v| v.is_empty())) {
                return;
            }
            let o = opts(&al, &de);
            let files: Vec<List> = al.into_iter().chain(de).collect();
            compare(&cli, &memo, st, c, &o, &order, &|r| ok(r, &a, &d), 0, &files);
        },
    );

    // the same lists in every format and number of files
    cx.space(
        "formats",
        "all allow and deny lists over 3 keys x 8 x 8 formats x distribution over one, two or three files (filter and count)",
        81 * 8 * 3 * cx.pick(2, 8),
        |i, st| {
            let mut x = Radix(i);
            let (a, d) = (set(x.take(9), &keys), set(x.take(9), &keys));
            let f1 = x.take(8);
            let split = x.take(3);
            let f2 = (f1 + x.take(cx.pick(2, 8)) * cx.pick(3, 1)) % 8;
            let make = |n: &str, v: &Option<Vec<&'static str>>| -> Vec<List> {
                let Some(v) = v else { return vec![] };
                match split {
                    0 => vec![list(&format!("{n}0"), f1, "ppn", v)],
                    1 => {
                        let k = v.len() / 2;
                        vec![list(&format!("{n}0"), f1, "ppn", &v[..k]), list(&format!("{n}1"), f2, "idn", &v[k..])]
                    }
                    _ => (0..3).map(|k| list(&format!("{n}{k}"), (f1 + k * f2) % 8, "ppn", &v[k.min(v.len())..(k + 1).min(v.len())])).collect(),
                }
            };
            let (la, ld) = (make("a", &a), make("d", &d));
            if la.iter().chain(&ld).any(|l| l.bytes.is_empty() || l.name.ends_with("txt.gz") && crate::c02::gunzip(&l.bytes).is_ok_and(|b| b.is_empty())) {
                return;
            }
            let o = opts(&la, &ld);
            let files: Vec<List> = la.into_iter().chain(ld).collect();
            let c = if i % 7 == 0 { 5 } else { 4 };
            compare(&cli, &memo, st, c, &o, &order, &|r| ok(r, &a, &d), 0, &files);
        },
    );

    // values
    let vs: Vec<&'static str> = vec!["1", "01", "001", " 1", "1 ", "1.0", "true", "null", "\u{e4}", "123456789012345678901234567890", "1e3", "-1", "x y", "a,b", "c\td", "q\"r", "'", "#"];
    let recs: Vec<MR> = vs.iter().map(|v| vec![raw("003@", '0', v.as_bytes()), f("012A", &["ax"])]).collect();
    cx.space(
        "values",
        "every single value and every pair of 18 values (leading zeros, blanks, numbers, words with a meaning, delimiters, quotes) in 8 formats as allow and as deny list against records with all of them",
        (18 * 18 * 8 * 2) as u64,
        |i, st| {
            let mut x = Radix(i);
            let v: Vec<&'static str> = { vec![*x.of(&vs), *x.of(&vs)] };
            let fmt = x.take(8);
            let deny = x.bool();
            // a text list has no quotes
            if FORMATS[fmt].starts_with("txt") && v.iter().any(|s| s.contains([',', '"'])) {
                return;
            }
            let l = list("l", fmt, "ppn", &v);
            let input: Vec<u8> = recs.iter().flat_map(ser).collect();
            let want: Vec<u8> = recs
                .iter()
                .filter(|r| v.iter().any(|s| s.as_bytes() == &r[0].subs[0].1[..]) != deny)
                .flat_map(ser)
                .collect();
            let j = job(&["filter", if deny { "-D" } else { "-A" }, &l.name, "003@?"]).stdin(&input).file(&l.name, &l.bytes);
            let o = cli.run(&j);
            verdict(st, &j, &o, o.ok() && o.out == want, &esc(&want));
        },
    );

    // columns and sources
    let heads: &[&[&str]] = &[&["ppn"], &["idn"], &["ppn", "idn"], &["idn", "ppn"], &["x"], &["x", "idn"], &["PPN"], &["x", "ppn", "y"]];
    let cols: [Option<&str>; 6] = [None, Some("ppn"), Some("idn"), Some("x"), Some("y"), Some("nope")];
    type Src = (Option<&'static str>, fn(&MR) -> Vec<&[u8]>);
    fn any<'a>(r: &'a MR, tag: &str, codes: &[char]) -> Vec<&'a [u8]> {
        r.iter().filter(|m| m.tag == tag).flat_map(|m| m.subs.iter().filter(|s| codes.contains(&s.0)).map(|s| &s.1[..])).collect()
    }
    let srcs: [Src; 5] = [
        (None, |r| vals(r, "003@", '0')),
        (Some("003@.0"), |r| vals(r, "003@", '0')),
        (Some("012A.a"), |r| vals(r, "012A", 'a')),
        (Some("012A/*.[ab]"), |r| any(r, "012A", &['a', 'b'])),
        (Some("012A{a | b?}"), |r| {
            r.iter().filter(|m| m.tag == "012A" && m.occ.is_none() && m.subs.iter().any(|s| s.0 == 'b')).flat_map(|m| m.subs.iter().filter(|s| s.0 == 'a').map(|s| &s.1[..])).collect()
        }),
    ];
    // column k has its own values
    let cv: [&[&str]; 3] = [&["1", "x"], &["2", "y"], &["X", "3"]];
    cx.space(
        "columns and sources",
        "8 headers x 6 --filter-set-column x 5 --filter-set-source x allow/deny x CSV/TSV x 15 commands",
        (8 * 6 * 5 * 2 * 2 * cmds.len()) as u64,
        |i, st| {
            let mut x = Radix(i);
            let c = *x.of(&cmds);
            let h = *x.of(heads);
            let col = *x.of(&cols);
            let (sp, sf) = *x.of(&srcs);
            let deny = x.bool();
            let tsv = x.bool();
            if !cx.thorough && c != 4 && (i / cmds.len() as u64) % 5 != 0 {
                return;
            }
            let d = if tsv { "\t" } else { "," };
            let mut b = h.join(d) + "\n";
            for k in 0..2 {
                b.push_str(&(0..h.len()).map(|n| cv[n][k]).collect::<Vec<_>>().join(d));
                b.push('\n');
            }
            let l = List { name: if tsv { "l.tsv".into() } else { "l.csv".into() }, bytes: b.into_bytes() };
            let mut o = vec![if deny { "-D" } else { "-A" }.to_string(), l.name.clone()];
            if let Some(c) = col {
                o.extend(["--filter-set-column".into(), c.into()]);
            }
            if let Some(s) = sp {
                o.extend(["--filter-set-source".into(), s.into()]);
            }
            let n = match col {
                Some(c) => h.iter().position(|x| *x == c),
                None => h.iter().position(|x| *x == "ppn").or(h.iter().position(|x| *x == "idn")),
            };
            let Some(n) = n else {
                let input = cat(order.iter().copied());
                let mut a = vec!["-s".to_string()];
                a.extend(o);
                let files = [l];
                let j = with(CMDS[c].job(&a, &["in.dat"]).file("in.dat", &input), &files);
                let o = cli.run(&j);
                verdict(st, &j, &o, o.clean() && !o.ok() && !o.err.is_empty(), "an error: the column is missing");
                return;
            };
            let v = cv[n];
            let sel = |r: &MR| sf(r).iter().any(|k| v.iter().any(|x| x.as_bytes() == *k)) != deny;
            compare(&cli, &memo, st, c, &o, &order, &sel, 0, &[l]);
        },
    );

    // filters together with lists and limits
    let ne = EXPRS.len();
    let mut combos: Vec<(Option<usize>, Vec<usize>, Vec<usize>, Vec<usize>)> = vec![(None, vec![], vec![], vec![])];
    for e in 0..ne {
        combos.push((Some(e), vec![], vec![], vec![]));
        for g in 0..ne {
            if !cx.thorough && (e * 3 + g) % 4 != 0 {
                continue;
            }
            combos.push((Some(e), vec![g], vec![], vec![]));
            combos.push((Some(e), vec![], vec![g], vec![]));
            combos.push((Some(e), vec![], vec![], vec![g]));
            combos.push((Some(e), vec![g], vec![], vec![(e + g) % ne]));
            combos.push((Some(e), vec![], vec![g, (g + 1) % ne], vec![]));
        }
    }
    let rest = lines();
    let mut order2: Vec<&Line> = order.iter().copied().step_by(2).collect();
    order2.extend(rest.iter());
    let listopts: [(usize, usize); 4] = [(0, 0), (4, 0), (0, 3), (8, 2)];
    cx.space(
        "filters",
        "10 expressions x lists of up to two further predicates as --and/--or/--not x --ignore-case x threshold x lists x limit x 14 commands on a stream of 30 lines",
        (combos.len() * cmds.len()) as u64 * 2,
        |i, st| {
            let mut x = Radix(i);
            let c = *x.of(&cmds);
            let k = x.take(combos.len());
            let round = x.take(2);
            let v = &combos[k];
            if !CMDS[c].filt && v.0.is_some() {
                return;
            }
            // covering the other options in a fixed rotation
            let n = k + 7 * round + c;
            let mut fo = Fo::new(v.0.unwrap_or(0));
            fo.and = v.1.clone();
            fo.or = v.2.clone();
            fo.not = v.3.clone();
            fo.ic = n % 2 == 1;
            fo.th = [None, Some(49), Some(50), Some(99)][n / 2 % 4];
            let limit = [0, 1, 2, 5][n / 3 % 4];
            let (a, d) = listopts[(n / 2 + n / 8) % 4];
            let (a, d) = (set(a, &keys), set(d, &keys));
            let la: Vec<List> = a.iter().map(|v| list("a", n % 2, "ppn", v)).collect();
            let ld: Vec<List> = d.iter().map(|v| list("d", 3, "ppn", v)).collect();
            let mut o = vec![];
            if let Some(e) = v.0 {
                o.extend(["--where".into(), EXPRS[e].0.into()]);
            }
            o.extend(fo.args());
            o.extend(opts(&la, &ld));
            let files: Vec<List> = la.into_iter().chain(ld).collect();
            let sel = |r: &MR| ok(r, &a, &d) && (v.0.is_none() || fo.sel(r));
            compare(&cli, &memo, st, c, &o, &order2, &sel, limit, &files);
        },
    );

    // short streams: every position of the records
    let words = seqs(4, 0, cx.pick(3, 4));
    cx.space(
        "streams and limits",
        "all sequences of up to 3 (thorough 4) of 4 lines (selected, denied, not matching, invalid) x limit 0..3 x 15 commands",
        (words.len() * 4 * cmds.len()) as u64,
        |i, st| {
            let mut x = Radix(i);
            let c = *x.of(&cmds);
            let limit = x.take(4);
            let w: Vec<&Line> = x.of(&words).iter().map(|k| [&al[0], &al[1], &al[4], bad][*k]).collect();
            let d = Some(vec!["2"]);
            let files = [list("d", 0, "ppn", &["2"])];
            let mut o = opts(&[], &files);
            let filt = CMDS[c].filt;
            if filt {
                o.extend(["--where".into(), "003@?".into()]);
            }
            let sel = |r: &MR| ok(r, &None, &d) && (!filt || r.iter().any(|m| m.tag == "003@"));
            compare(&cli, &memo, st, c, &o, &w, &sel, limit, &files);
        },
    );

    // other list files
    let many: Vec<String> = (0..5000).map(|k| format!("{k:05}")).collect();
    let odd: Vec<(List, Vec<&str>)> = vec![
        (List { name: "crlf.csv".into(), bytes: b"ppn\r\n1\r\n2\r\n".to_vec() }, vec!["1", "2"]),
        (List { name: "crlf.txt".into(), bytes: b"1\r\n2\r\n".to_vec() }, vec!["1", "2"]),
        (List { name: "noeol.csv".into(), bytes: b"ppn\n1\n2".to_vec() }, vec!["1", "2"]),
        (List { name: "noeol.txt".into(), bytes: b"1\n2".to_vec() }, vec!["1", "2"]),
        (List { name: "bom.csv".into(), bytes: b"\xef\xbb\xbfppn\n1\n".to_vec() }, vec!["1"]),
        (List { name: "quoted.csv".into(), bytes: b"\"ppn\",\"x\"\n\"1\",\"2\"\n\"3\",\n".to_vec() }, vec!["1", "3"]),
        (List { name: "null.csv".into(), bytes: b"x,ppn\n1,\n2,3\n".to_vec() }, vec!["3"]),
        (List { name: "big.csv".into(), bytes: format!("ppn\n{}\n1\n", many.join("\n")).into_bytes() }, vec!["1", "00001", "04999"]),
        (List { name: "big.txt.gz".into(), bytes: gzip(format!("2\n{}\n3\n", many.join("\n")).as_bytes()) }, vec!["2", "3", "00001", "04999"]),
        (List { name: "head.csv".into(), bytes: b"ppn\n".to_vec() }, vec![]),
        (List { name: "dup.csv".into(), bytes: b"ppn\n1\n1\n1\n".to_vec() }, vec!["1"]),
    ];
    let mut stream: Vec<Line> = alphabet();
    stream.push(line("m", &[f("003@", &["000001"])]));
    stream.push(line("m", &[f("003@", &["004999"])]));
    cx.space(
        "files",
        "11 list files (CRLF, no final newline, BOM, quotes, empty cells, 5000 rows, header only, repeated values) x allow/deny x 15 commands",
        (odd.len() * 2 * cmds.len()) as u64,
        |i, st| {
            let mut x = Radix(i);
            let c = *x.of(&cmds);
            let (l, v) = x.of(&odd);
            let deny = x.bool();
            let w: Vec<&Line> = stream.iter().collect();
            let o = vec![if deny { "-D" } else { "-A" }.to_string(), l.name.clone()];
            let (a, d) = if deny { (None, Some(v.clone())) } else { (Some(v.clone()), None) };
            compare(&cli, &memo, st, c, &o, &w, &|r| ok(r, &a, &d), 0, std::slice::from_ref(l));
        },
    );
    // an Arrow table: the tags listed by describe are the keys
    cx.space("arrow", "an Arrow list with every subset of 3 keys (written by describe) as allow and deny list x 15 commands", (8 * 2 * cmds.len()) as u64, |i, st| {
        let mut x = Radix(i);
        let c = *x.of(&cmds);
        let m = x.take(8) + 1;
        let deny = x.bool();
        let tags = ["011A", "012A", "013A"];
        let v = set(m, &tags).unwrap();
        let r: MR = v.iter().map(|t| f(t, &["ax"])).collect();
        if r.is_empty() {
            return;
        }
        let b = ser(&r);
        let o = cli.run(&job(&["describe", "-o", "l.ipc"]).stdin(&b));
        let Some(ipc) = o.files.get("l.ipc") else {
            st.fail("describe wrote no Arrow file", json!({"got": o.show()}));
            return;
        };
        let l = List { name: "l.ipc".into(), bytes: ipc.clone() };
        let ls: Vec<Line> = tags.iter().map(|t| line("t", &[f("003@", &[&format!("0{t}")]), f("012A", &["ax"])])).collect();
        let w: Vec<&Line> = ls.iter().collect();
        let o = vec![if deny { "-D" } else { "-A" }.to_string(), l.name.clone(), "--filter-set-column".into(), "field".into()];
        let (a, d) = if deny { (None, Some(v)) } else { (Some(v), None) };
        compare(&cli, &memo, st, c, &o, &w, &|r| ok(r, &a, &d), 0, &[l]);
    });
    // lists that cannot be used
    let broken: Vec<List> = vec![
        List { name: "x.csv.gz".into(), bytes: gzip(b"ppn\n1\n")[..15].to_vec() },
        List { name: "x.ipc".into(), bytes: b"ppn\n1\n".to_vec() },
        List { name: "x.csv".into(), bytes: b"a,b\n1,2\n".to_vec() },
        List { name: "x.tsv".into(), bytes: b"a\tb\n1\t2\n".to_vec() },
        List { name: "".into(), bytes: vec![] },
    ];
    cx.space("unusable lists", "5 list files that are missing, truncated or without the column x allow/deny x 15 commands", (broken.len() * 2 * cmds.len()) as u64, |i, st| {
        let mut x = Radix(i);
        let c = *x.of(&cmds);
        let l = x.of(&broken);
        let deny = x.bool();
        let input = cat(order.iter().copied());
        let name = if l.name.is_empty() { "missing.csv" } else { &l.name };
        let mut j = CMDS[c].job(&["-s", if deny { "-D" } else { "-A" }, name], &["in.dat"]).file("in.dat", &input);
        if !l.name.is_empty() {
            j = j.file(&l.name, &l.bytes);
        }
        let o = cli.run(&j);
        verdict(st, &j, &o, o.clean() && !o.ok() && !o.err.is_empty() && o.out.is_empty(), "an error");
    });
    cx.assume("text lists are empty or contain values without quotes and commas");
    // thresholds of --where
    let ths = [None, Some(0), Some(25), Some(50), Some(60), Some(74), Some(75), Some(76), Some(90), Some(99)];
    cx.space(
        "similarity",
        "10 thresholds of --where x values of every similarity 0.00 .. 1.00 in lower or upper case x --ignore-case x 15 commands",
        (cmds.len() * ths.len() * 4) as u64,
        |i, st| {
            use crate::sim;
            let mut x = Radix(i);
            let c = *x.of(&cmds);
            let t = *x.of(&ths);
            let (upper, ic) = (x.bool(), x.bool());
            if CMDS[c].name == "filter" {
                return;
            }
            let n = t.unwrap_or(75);
            let ls: Vec<Line> = sim::dist(n)
                .into_iter()
                .map(|k| {
                    let b = sim::rec(k, upper);
                    Line { name: "sim", rec: rec::parse(&b), bytes: b }
                })
                .collect();
            let ls: Vec<&Line> = ls.iter().collect();
            let mut o = vec!["--where".to_string(), format!("012A.x =* '{}'", sim::base())];
            if let Some(t) = t {
                o.extend(["--strsim-threshold".into(), t.to_string()]);
            }
            if ic {
                o.push("--ignore-case".into());
            }
            let sel = |r: &MR| {
                let k: usize = String::from_utf8_lossy(&r[0].subs[0].1).parse().unwrap();
                if upper && !ic { sim::hit(100, n) } else { sim::hit(k, n) }
            };
            compare(&cli, &memo, st, c, &o, &ls, &sel, 0, &[]);
        },
    );
    crate::long::cli(cx, &cli);
    crate::prims::cli(cx, &cli);
}
