//! Every tag, every occurrence, every subfield code, every byte and
//! values that are easily mistaken for each other, through every
//! command.
use std::collections::{BTreeMap, BTreeSet};

use sha2::{Digest, Sha256};

use crate::c22::{FORMATS, decode};
use crate::c23::csv;
use crate::cli::Cli;
use crate::cx::{Cx, esc};
use crate::long::{B, Case, Cases, Files, Want, case, diff, run, same};
use crate::rec;

macro_rules! add {
    ($v:expr, $e:expr) => {
        $v.push(Box::new(move || $e))
    };
}

/// Values that a sloppy comparison takes for equal.
pub fn alike() -> Vec<B> {
    let mut v: Vec<B> = [
        "a", "A", "\u{e4}", "a\u{308}", "\u{c4}", "ae", " a", "a ", "a  b", "a b", "a\tb", "ab", "aB", "AB", "a.b", "a,b", "a;b", "a|b", "a-b",
        "1", "01", "001", "1.0", "+1", "1e0", "10", "100", "0x1", "1x", "1X", "12345678X", "12345678x", "123456789", "9007199254740993",
        "9007199254740992", "18446744073709551616", "1.10", "1.1", "0", "-0", "00", "\"a\"", "'a'", "\"", "'", "a\"", "\u{df}", "ss", "SS",
        "\u{17f}", "s", "k", "K", "\u{212a}", "\u{fb01}", "fi", "\u{130}", "i\u{307}", "i", "I", "nan", "NaN", "null", "NULL", "true", "True",
        "a\u{200b}", "\u{200b}a", "\u{feff}a", "a\u{a0}", "a\r", "\ra", "...", "a.", ".a", "@a", "a@", "#a", "$a", "\\a", "{a}", "[a]", "a*",
        "a?", "%a", "\u{3a9}", "\u{2126}", "\u{1f600}", "\u{1f601}", "2020-01-01", "2020-1-1",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    for c in ["x", "y"] {
        v.push(format!("{}{c}", "p".repeat(120)).into_bytes());
        v.push(format!("{c}{}", "p".repeat(120)).into_bytes());
    }
    v
}
/// The same and values that are not UTF-8.
fn alike8() -> Vec<B> {
    let mut v = alike();
    v.extend([b"".as_slice(), b"\xff", b"\xfe", b"\xff\xff", b"a\xff", b"\xffa", b"\xc3", b"\xa4", b"\xc3\xa4\xc3", "\u{fffd}".as_bytes(), "a\u{fffd}".as_bytes()].map(<[u8]>::to_vec));
    v
}

fn tags(levels: &str) -> Vec<String> {
    let mut v = vec![];
    for a in levels.chars() {
        for b in '0'..='9' {
            for c in '0'..='9' {
                for d in ('A'..='Z').chain(['@']) {
                    v.push(format!("{a}{b}{c}{d}"));
                }
            }
        }
    }
    v
}
fn occs() -> Vec<String> {
    (0..100).map(|i| format!("{i:02}")).chain((0..1000).map(|i| format!("{i:03}"))).collect()
}
fn codes() -> Vec<char> {
    ('0'..='9').chain('a'..='z').chain('A'..='Z').collect()
}
fn bytes() -> Vec<u8> {
    (0..=255).filter(|b| !matches!(b, 0x0a | 0x1e | 0x1f)).collect()
}
fn field(tag: &str, occ: &str, subs: &[(char, &[u8])]) -> B {
    let mut b = tag.as_bytes().to_vec();
    if !occ.is_empty() {
        b.extend(format!("/{occ}").bytes());
    }
    b.push(b' ');
    for (c, v) in subs {
        b.extend([0x1f, *c as u8]);
        b.extend(*v);
    }
    b.push(0x1e);
    b
}
fn id(v: &[u8]) -> B {
    field("003@", "", &[('0', v)])
}
fn rec(fields: &[B]) -> B {
    let mut b = fields.concat();
    b.push(b'\n');
    b
}

/// One record for each of the tags, occurrences, codes (each also in
/// pairs) and bytes.
fn heads() -> Vec<B> {
    let mut v = vec![];
    for t in tags("012") {
        v.push(rec(&[field(&t, "", &[('a', t.as_bytes())])]));
    }
    for o in occs() {
        v.push(rec(&[id(o.as_bytes()), field("012A", &o, &[('a', b"x")])]));
        v.push(rec(&[field("203@", &o, &[('0', o.as_bytes()), ('b', b"")])]));
    }
    for c in codes() {
        v.push(rec(&[id(b"c"), field("012A", "", &[(c, b"x")])]));
        for d in codes() {
            v.push(rec(&[field("012A", "", &[(c, b"1"), (d, b"2")])]));
        }
    }
    v
}
fn values() -> Vec<B> {
    let mut v: Vec<B> = bytes().into_iter().flat_map(|b| [vec![b], vec![b'x', b], vec![b, b'x'], vec![b'$', b]]).collect();
    v.extend(alike8());
    v
}
fn every() -> Vec<B> {
    let mut v = heads();
    for x in values() {
        v.push(rec(&[id(&x), field("012A", "", &[('a', &x), ('b', &x)])]));
    }
    v
}
fn all() -> B {
    every().concat()
}
fn model(recs: &[B]) -> Vec<rec::MR> {
    recs.iter().map(|r| rec::parse(r).expect("a record")).collect()
}

/// Every line of one and two bytes that is no record (none is).
fn short_lines() -> B {
    let mut b = vec![];
    for x in 0..=255u8 {
        if x != b'\n' {
            b.extend([x, b'\n']);
            for y in 0..=255u8 {
                if y != b'\n' {
                    b.extend([x, y, b'\n']);
                }
            }
        }
    }
    b
}
/// Every record of `base` with one byte removed, doubled or changed
/// into one of a few others.
fn damaged() -> Vec<B> {
    let base: [&[u8]; 3] = [b"003@ \x1f0x\x1e\n", b"012A/01 \x1fax\x1fby\x1e\n", b"003@ \x1e203@/001 \x1fa\x1e\n"];
    let mut v = vec![];
    for b in base {
        for i in 0..b.len() - 1 {
            let mut x = b.to_vec();
            x.remove(i);
            v.push(x);
            let mut x = b.to_vec();
            x.insert(i, b[i]);
            v.push(x);
            for c in [b' ', b'@', b'A', b'a', b'0', b'9', b'/', 0x1e, 0x1f, b'\r', 0, 0xff, b'Z', b'3'] {
                let mut x = b.to_vec();
                x[i] = c;
                v.push(x);
                let mut x = b.to_vec();
                x.insert(i, c);
                v.push(x);
            }
        }
    }
    v
}

fn rows(b: &[u8], want: &[Vec<B>]) -> Result<(), String> {
    let got = csv(b, b',').ok_or("not a table")?;
    if got.len() != want.len() {
        return Err(format!("{} rows instead of {}", got.len(), want.len()));
    }
    match got.iter().zip(want).position(|(a, b)| a != b) {
        None => Ok(()),
        Some(k) => Err(format!("row {k} is {:?} instead of {:?}", got[k].iter().map(|c| esc(c)).collect::<Vec<_>>(), want[k].iter().map(|c| esc(c)).collect::<Vec<_>>())),
    }
}
fn table(want: Vec<Vec<B>>) -> Want {
    Want::Is(Box::new(move |o| rows(&o.out, &want)))
}
fn printed(recs: &[rec::MR]) -> B {
    let mut b = vec![];
    for r in recs {
        for f in r {
            b.extend(f.tag.bytes());
            if let Some(o) = &f.occ {
                b.extend(format!("/{o}").bytes());
            }
            for (c, v) in &f.subs {
                b.extend(format!(" ${c} {}", String::from_utf8_lossy(v)).bytes());
            }
            b.push(b'\n');
        }
        b.push(b'\n');
    }
    b
}
fn hex(b: &[u8]) -> B {
    Sha256::digest(b).iter().map(|c| format!("{c:02x}")).collect::<String>().into_bytes()
}
fn quoted(v: &[u8]) -> B {
    let mut o = vec![b'"'];
    for c in v {
        if *c == b'"' {
            o.push(b'"');
        }
        o.push(*c);
    }
    o.extend(b"\"\n");
    o
}
fn lists(v: &[B]) -> B {
    v.iter().flat_map(|x| quoted(x)).collect()
}
/// The records that have the values as identification numbers.
fn ids(v: &[B]) -> Vec<B> {
    v.iter().map(|x| rec(&[id(x), field("012A", "", &[('a', b"x")])])).collect()
}

pub fn cli(cx: &Cx, cli: &Cli) {
    let mut v: Cases = vec![];
    let what;
    match cx.id.as_str() {
        "C15" => {
            what = "records with each of the 8100 tags, 1100 occurrences, 62 codes and their pairs, 253 bytes and 110 look-alike values x filters that select all of them, none of them or those with one value; --tee with reductions";
            add!(v, case("filter ..../*?", Want::Out(all())).stdin(all()));
            add!(v, case("filter -v ..../*?", Want::Out(vec![])).stdin(all()));
            add!(v, case("filter -v 012B.z~==~'none'", Want::Out(all())).file("i.dat", all()));
            add!(v, case("filter -k ..../* ..../*?", Want::Out(all())).file("i.dat", all()));
            add!(v, case("filter -g -o o.dat.gz ..../*?", Want::Files([("o.dat.gz".into(), all())].into())).stdin(all()));
            add!(v, case("filter --tee t.dat ..../*?", Want::Is(Box::new(|o| {
                same("standard output", &o.out, &all())?;
                same("tee", o.files.get("t.dat").map_or(b"", |b| b), &all())
            }))).stdin(all()));
            // one value at a time
            for x in alike() {
                if x.iter().any(|c| matches!(c, b'\'' | b'\\' | b'\r' | b'\t')) {
                    continue;
                }
                let t = format!("003@.0 == '{}'", String::from_utf8_lossy(&x));
                add!(v, {
                    let mut c = case("filter", Want::Out(ids(&[x.clone()]).concat()));
                    c.args.push(t.clone());
                    c.file("i.dat", ids(&alike8()).concat())
                });
            }
            // all destinations have the reduced records
            for o in ["-d 012A", "-k 012A", "-k 003@,012A/* -d 012A/01", "-d 003@", "-l 2", "-v -d 012A/*", "-k 045Z", "-d ..../*"] {
                for tee in ["t.dat", "t.dat.gz"] {
                    let input = || [rec(&[id(b"1"), field("012A", "", &[('a', b"x")]), field("012A", "01", &[('a', b"y")])]), rec(&[field("012A", "", &[('b', b"x")])]), rec(&[id(b"3"), field("012A", "01", &[('a', b"y")])])].concat();
                    let e = if o.starts_with("-v") { "045Z?" } else { "..../*?" };
                    add!(v, case(&format!("filter {o} --tee {tee} {e}"), Want::Is(Box::new(move |out| {
                        let t = out.files.get(tee).cloned().unwrap_or_default();
                        let t = if tee.ends_with("gz") { crate::c02::gunzip(&t).map_err(|e| e.to_string())? } else { t };
                        same("the tee", &t, &out.out)
                    }))).stdin(input()));
                }
            }
        }
        "C16" => {
            what = "all lines of one and two bytes, with and without line end; records with one byte removed, doubled, inserted or changed; records with every tag, occurrence, code, byte";
            add!(v, case("invalid", Want::Out(vec![])).stdin(all()));
            add!(v, case("invalid", Want::Out(short_lines())).stdin(short_lines()));
            add!(v, case("invalid", Want::Out(short_lines())).stdin([all(), short_lines()].concat()));
            add!(v, case("concat -s", Want::Out(all())).stdin([short_lines(), all(), short_lines()].concat()));
            for c in ["filter -s ..../*?", "slice -s", "explode -s main", "convert -s -t plus"] {
                add!(v, case(c, Want::Out(all())).stdin([short_lines(), all(), short_lines()].concat()));
            }
            // last lines without a line end
            let lasts: Vec<B> = (0..=255u8).filter(|b| *b != b'\n').map(|b| vec![b]).chain((0..=255u8).filter(|b| *b != b'\n').map(|b| vec![b, b' '])).collect();
            for part in lasts.chunks(64).map(<[B]>::to_vec) {
                add!(v, {
                    let c = case("invalid", Want::Out(part.concat()));
                    part.iter().enumerate().fold(c, |c, (i, b)| c.file(&format!("{i}.dat"), [rec(&[id(b"1")]), b.clone()].concat()))
                });
            }
            let bad = || -> (Vec<B>, Vec<B>) { damaged().into_iter().partition(|b| rec::accepts(b)) };
            add!(v, case("invalid", Want::Out(bad().1.concat())).stdin(damaged().concat()));
            add!(v, case("concat -s", Want::Out(bad().0.concat())).stdin(damaged().concat()));
        }
        "C17" => {
            what = "slices of records with every tag, occurrence, code, byte and look-alike value";
            add!(v, case("slice", Want::Out(all())).stdin(all()));
            for k in [1usize, 4000, 8099, 12_000] {
                add!(v, case(&format!("slice --start {k}"), Want::Out(every()[k..].concat())).stdin(all()));
                add!(v, case(&format!("slice --end {k}"), Want::Out(every()[..k].concat())).file("i.dat", all()));
            }
        }
        "C18" => {
            what = "split and concat of records with every tag, occurrence, code, byte and look-alike value";
            let parts = |k: usize, ext: &str| -> Files { every().chunks(k).enumerate().map(|(i, c)| (format!("{i}{ext}"), c.concat())).collect() };
            add!(v, case("split 1000", Want::Files(parts(1000, ".dat"))).stdin(all()));
            add!(v, case("split -g 1000", Want::Files(parts(1000, ".dat.gz"))).stdin(all()));
            add!(v, case("concat", Want::Out(all())).stdin(all()));
            add!(v, case("concat --tee t.dat -o o.dat.gz", Want::Files([("t.dat".into(), all()), ("o.dat.gz".into(), all())].into())).stdin(all()));
        }
        "C19" => {
            what = "110 look-alike values, 62 codes and 8100 tags: a file for each value with its records";
            let usable = || -> Vec<B> { alike().into_iter().filter(|x| !x.contains(&b'/')).collect() };
            let want = move |n: usize| -> Files {
                usable().iter().map(|x| (format!("{}.dat", String::from_utf8_lossy(x)), ids(&[x.clone()]).concat().repeat(n))).collect()
            };
            add!(v, case("partition 003@.0", Want::Files(want(1))).file("in.d", ids(&usable()).concat()));
            add!(v, case("partition 003@.0", Want::Files(want(3))).file("in.d", ids(&usable()).concat()).file("in2.d", ids(&usable()).concat()).file("in3.d", ids(&usable().into_iter().rev().collect::<Vec<_>>()).concat()));
            // all values in one record
            add!(v, {
                let vals = usable();
                let subs: Vec<(char, &[u8])> = vals.iter().chain(vals.iter()).map(|x| ('a', &x[..])).collect();
                let r = rec(&[field("012A", "", &subs)]);
                case("partition 012A.a", Want::Files(vals.iter().map(|x| (format!("{}.dat", String::from_utf8_lossy(x)), r.clone())).collect())).file("in.d", r)
            });
            for c in codes() {
                add!(v, {
                    let r = |k: char| rec(&[field("012A", "", &[(k, &[k as u8])])]);
                    case(&format!("partition 012A.{c}"), Want::Files([(format!("{c}.dat"), r(c))].into())).file("in.d", codes().into_iter().flat_map(r).collect())
                });
            }
        }
        "C20" => {
            what = "120 look-alike keys; records that differ in one tag, occurrence, code or byte: each of them twice x strategies";
            let twice = |v: Vec<B>| [v.clone(), v.clone(), v.into_iter().rev().collect()].concat().concat();
            add!(v, case("concat -u", Want::Out(ids(&alike8()).into_iter().filter(|r| *r != ids(&[vec![]])[0]).collect::<Vec<_>>().concat())).stdin(twice(ids(&alike8().into_iter().filter(|x| !x.is_empty()).collect::<Vec<_>>()))));
            add!(v, case("concat -u --unique-strategy hash", Want::Out(ids(&alike8()).concat())).stdin(twice(ids(&alike8()))));
            add!(v, case("concat -u --unique-strategy hash", Want::Out(all())).stdin(twice(dedup(every()))).file_first());
        }
        "C21" => {
            what = "records with each tag of a level and each occurrence of copies x levels";
            let main: B = tags("0").iter().flat_map(|t| field(t, "", &[('a', t.as_bytes())])).collect();
            let local: B = tags("1").iter().flat_map(|t| field(t, "", &[('a', t.as_bytes())])).collect();
            let copies: Vec<B> = occs().iter().zip(tags("2")).map(|(o, t)| [field("203@", o, &[('0', o.as_bytes())]), field(&t, o, &[('a', b"x")])].concat()).collect();
            let end = |b: B| [b, b"\n".to_vec()].concat();
            let whole = end([main.clone(), local.clone(), copies.concat()].concat());
            for l in ["main", "local"] {
                let w = whole.clone();
                add!(v, case(&format!("explode {l}"), Want::Out(w.clone())).stdin(w.clone()));
            }
            add!(v, case("explode copy", Want::Out(copies.iter().flat_map(|c| end([main.clone(), local.clone(), c.clone()].concat())).collect())).stdin(whole.clone()));
            add!(v, case("explode main", Want::Out(all())).stdin(all()));
            // records of single fields
            for (l, t) in [("local", "12"), ("copy", "2")] {
                let one = |t: &str| -> B { tags(t).iter().flat_map(|t| rec(&[field(t, "", &[('a', b"x")])])).collect() };
                add!(v, case(&format!("explode {l}"), Want::Out(one(t))).stdin(one("012")));
            }
        }
        "C22" => {
            what = "records with every tag, occurrence, code (and pair of codes) and look-alike value x 6 encodings";
            for (k, f) in FORMATS.iter().enumerate() {
                let input = move || -> Vec<B> {
                    let mut h = heads();
                    h.extend(ids(&alike().into_iter().filter(|x| k != 5 || !x.contains(&b'\r')).collect::<Vec<_>>()));
                    // the XML output has no occurrences (known finding)
                    h.retain(|r| k != 5 || !r.contains(&b'/'));
                    h
                };
                add!(v, case(&format!("convert -t {f}"), Want::Is(Box::new(move |o| {
                    let got = decode(k, &o.out).map_err(|e| format!("the output cannot be decoded: {e}"))?;
                    let want = model(&input());
                    if got.len() != want.len() {
                        return Err(format!("{} records instead of {}", got.len(), want.len()));
                    }
                    match got.iter().zip(&want).position(|(a, b)| a != b) {
                        None => Ok(()),
                        Some(k) => Err(format!("record {k} differs {}", diff(&rec::ser(&got[k]), &rec::ser(&want[k])))),
                    }
                }))).stdin(input().concat()));
            }
        }
        "C23" => {
            what = "count, frequency, hash and describe of records with every tag, occurrence, code, byte and look-alike value";
            let m = || model(&every());
            add!(v, {
                let m = m();
                let (r, f, s) = (m.len(), m.iter().map(Vec::len).sum::<usize>(), m.iter().flatten().map(|f| f.subs.len()).sum::<usize>());
                case("count", Want::Out(format!("records: {r}\nfields: {f}\nsubfields: {s}\n").into_bytes())).stdin(all())
            });
            add!(v, case("hash", table([vec![b"ppn".to_vec(), b"hash".to_vec()]].into_iter().chain(every().iter().zip(m()).map(|(b, r)| vec![String::from_utf8_lossy(crate::cli::ppn(&r).unwrap_or_default()).into_owned().into_bytes(), hex(b)])).collect())).stdin(all()));
            add!(v, {
                let mut t: BTreeMap<String, BTreeMap<char, usize>> = BTreeMap::new();
                for f in m().iter().flatten() {
                    let e = t.entry(f.tag.clone()).or_default();
                    for s in &f.subs {
                        *e.entry(s.0).or_default() += 1;
                    }
                }
                let cs: BTreeSet<char> = t.values().flat_map(|m| m.keys().copied()).collect();
                let mut rowv = vec![[b"field".to_vec()].into_iter().chain(cs.iter().map(|c| c.to_string().into_bytes())).collect::<Vec<_>>()];
                for (tag, m) in &t {
                    rowv.push([tag.clone().into_bytes()].into_iter().chain(cs.iter().map(|c| m.get(c).unwrap_or(&0).to_string().into_bytes())).collect());
                }
                case("describe --csv -o d.csv", Want::Is(Box::new(move |o| rows(o.files.get("d.csv").ok_or("no file")?, &rowv)))).stdin(all())
            });
            for (o, n) in [("", 3usize), ("-u", 2), ("-r", 3)] {
                // twice in one record and once in another
                add!(v, {
                    let vals = alike8();
                    let input: B = vals.iter().flat_map(|x| [rec(&[field("012A", "", &[('a', x)]), field("012A", "", &[('a', x)])]), rec(&[field("012A", "", &[('a', x)])])]).flatten().collect();
                    let mut t: Vec<B> = vals.into_iter().filter(|x| !x.is_empty() && std::str::from_utf8(x).is_ok()).collect();
                    t.sort();
                    let want: Vec<Vec<B>> = t.into_iter().map(|x| vec![x, n.to_string().into_bytes()]).collect();
                    // values that are not UTF-8 look like others in the output
                    let reduce = |v: Vec<Vec<B>>| -> Vec<Vec<B>> { v.into_iter().filter(|r| !String::from_utf8_lossy(&r[0]).contains('\u{fffd}')).collect() };
                    let want = reduce(want);
                    case(&format!("frequency {o} 012A.a").replace("  ", " "), Want::Is(Box::new(move |o| {
                        let got = reduce(csv(&o.out, b',').ok_or("not a table")?);
                        if got == want { Ok(()) } else { Err(format!("{:?}", got.iter().zip(&want).find(|(a, b)| a != b).map(|(a, b)| (esc(&a.concat()), esc(&b.concat()))))) }
                    }))).stdin(input)
                });
            }
            // pairs of values
            add!(v, {
                let vals: Vec<B> = alike().into_iter().take(40).collect();
                let mut pairs: Vec<Vec<B>> = vals.iter().flat_map(|a| vals.iter().map(|b| vec![a.clone(), b.clone()])).collect();
                let input: B = pairs.iter().flat_map(|p| rec(&[field("012A", "", &[('a', &p[0]), ('b', &p[1])])])).collect();
                pairs.sort();
                for p in &mut pairs {
                    p.push(b"1".to_vec());
                }
                case("frequency 012A{a,b}", table(pairs)).stdin(input)
            });
        }
        "C24" => {
            what = "select of every tag, occurrence, code and byte; look-alike values and their pairs with and without --unique";
            add!(v, {
                let want: Vec<Vec<B>> = model(&every()).iter().flatten().filter(|f| f.tag == "012A").flat_map(|f| f.subs.clone()).filter(|s| !s.1.is_empty() && std::str::from_utf8(&s.1).is_ok()).map(|s| vec![s.1]).collect();
                case("select 012A/*.*", Want::Is(Box::new(move |o| {
                    let got: Vec<Vec<B>> = csv(&o.out, b',').ok_or("not a table")?.into_iter().filter(|r| !String::from_utf8_lossy(&r[0]).contains('\u{fffd}')).collect();
                    let want: Vec<Vec<B>> = want.iter().filter(|r| !String::from_utf8_lossy(&r[0]).contains('\u{fffd}')).cloned().collect();
                    if got == want { Ok(()) } else { Err(format!("{} rows instead of {}, first difference {:?}", got.len(), want.len(), got.iter().zip(&want).find(|(a, b)| a != b).map(|(a, b)| (esc(&a.concat()), esc(&b.concat()))))) }
                }))).stdin(all())
            });
            add!(v, case("select ..../*.a", Want::Is(Box::new(|o| {
                let want = model(&every()).iter().flatten().flat_map(|f| f.subs.clone()).filter(|s| s.0 == 'a' && !s.1.is_empty()).count();
                let got = csv(&o.out, b',').ok_or("not a table")?.len();
                if got == want { Ok(()) } else { Err(format!("{got} rows instead of {want}")) }
            }))).stdin(all()));
            for u in ["", "-u"] {
                add!(v, {
                    let vals: Vec<B> = alike().into_iter().take(40).chain([b"".to_vec()]).collect();
                    let pairs: Vec<Vec<B>> = vals.iter().flat_map(|a| vals.iter().map(|b| vec![a.clone(), b.clone()])).filter(|p| p.iter().any(|x| !x.is_empty())).collect();
                    let once: B = pairs.iter().flat_map(|p| rec(&[field("012A", "", &[('a', &p[0]), ('b', &p[1])])])).collect();
                    let want = if u.is_empty() { [pairs.clone(), pairs].concat() } else { pairs };
                    let mut c = case("select", table(want)).stdin(once.repeat(2));
                    if !u.is_empty() {
                        c.args.push(u.into());
                    }
                    c.args.push("012A{a, b}".into());
                    c
                });
                add!(v, {
                    let vals: Vec<Vec<B>> = alike().into_iter().map(|x| vec![x]).collect();
                    let input = ids(&alike()).concat();
                    case(&format!("select {u} 003@.0").replace("  ", " "), table(if u.is_empty() { [vals.clone(), vals].concat() } else { vals })).stdin(input.repeat(2))
                });
            }
        }
        "C25" => {
            what = "rules on look-alike values: duplicates, links, filters; records with up to 64 violations of one rule";
            const H: &str = "ppn,rule,level,message\n";
            // no two of them are duplicates, but each is one of itself
            add!(v, {
                let vals = alike();
                let subs: Vec<B> = vals.iter().map(|x| field("012A", "", &[('a', x)])).collect();
                let one = rec(&[id(b"1"), subs.concat()]);
                let two: Vec<B> = vals.iter().map(|x| rec(&[id(b"2"), subs.concat(), field("012A", "", &[('a', x)])])).collect();
                let want: Vec<Vec<B>> = [["ppn", "rule", "level", "message"].map(|s| s.as_bytes().to_vec()).to_vec()].into_iter().chain(vals.iter().map(|x| vec![b"2".to_vec(), b"D".to_vec(), b"error".to_vec(), x.clone()])).collect();
                case("check -R r.toml", table(want)).aux("r.toml", b"[rule.D]\ncheck=\"duplicates\"\nquery=\"012A.a\"\n".to_vec()).stdin([vec![one], two].concat().concat())
            });
            // every second one is a target
            for odd in [0usize, 1] {
                add!(v, {
                    let vals = alike();
                    let src: B = vals.iter().enumerate().flat_map(|(i, x)| rec(&[field("003@", "", &[('0', format!("s{i:03}").as_bytes())]), field("029F", "", &[('9', x)])])).collect();
                    let dst: B = vals.iter().enumerate().filter(|(i, _)| i % 2 == odd).flat_map(|(i, x)| rec(&[id(format!("t{i:03}").as_bytes()), field("007K", "", &[('a', x)])])).collect();
                    let want: Vec<Vec<B>> = [["ppn", "rule", "level", "message"].map(|s| s.as_bytes().to_vec()).to_vec()].into_iter().chain(vals.iter().enumerate().filter(|(i, _)| i % 2 != odd).map(|(i, x)| vec![format!("s{i:03}").into_bytes(), b"L".to_vec(), b"error".to_vec(), x.clone()])).collect();
                    case("check -R r.toml", table(want)).aux("r.toml", b"[rule.L]\ncheck=\"link\"\nsource.path=\"029F.9\"\ntarget.path=\"007K.a\"\n".to_vec()).stdin([src, dst].concat())
                });
            }
            // the number of violations in one record
            for n in (0..=20usize).chain([63, 64, 65, 300]) {
                for (check, opts, good, badv) in [
                    ("unicode", "normalization=\"nfc\"\n", "\u{e4}", "a\u{308}"),
                    ("datetime", "path=\"012A.a\"\n", "2024-02-29", "2023-02-29-"),
                    ("isni", "path=\"012A.a\"\n", "0000000121032683", "000000012103268"),
                    ("iso639-2b", "path=\"012A.a\"\n", "ger", "deu"),
                    ("jelc", "path=\"012A.a\"\n", "A00", "A0x"),
                    ("allow", "path=\"012A.a\"\nlist={filename=\"l.csv\",column=\"v\"}\n", "ok", "no"),
                    ("link", "source.path=\"012A.a\"\ntarget.path=\"007K.a\"\n", "t", "u"),
                ] {
                    add!(v, {
                        let one = |i: usize| -> Vec<u8> { if i % 2 == 0 || n < 4 { format!("{badv}{i}") } else { good.to_string() }.into_bytes() };
                        let fs: B = (0..n).flat_map(|i| field("012A", "", &[('b', b""), ('a', &one(i))])).collect();
                        let msg: Vec<String> = (0..n).map(|i| String::from_utf8_lossy(&one(i)).to_string()).filter(|x| x != good).collect();
                        let mut want = vec![];
                        if !msg.is_empty() {
                            want.push(["ppn", "rule", "level", "message"].map(|s| s.as_bytes().to_vec()).to_vec());
                            want.push(["1", "R", "error", &msg.join(", ")].map(|s| s.as_bytes().to_vec()).to_vec());
                        }
                        case("check -R r.toml", table(want))
                            .aux("r.toml", format!("[rule.R]\ncheck=\"{check}\"\n{opts}").into_bytes())
                            .aux("l.csv", b"v\nok\n".to_vec())
                            .stdin([rec(&[id(b"1"), fs]), rec(&[field("007K", "", &[('a', b"t")])])].concat())
                    });
                }
                // n different values, twice each
                add!(v, {
                    let fs: B = (0..n).chain(0..n).flat_map(|i| field("012A", "", &[('a', format!("v{i:03}").as_bytes())])).collect();
                    let msg: Vec<String> = (0..n).map(|i| format!("v{i:03}")).collect();
                    let want = if n == 0 { vec![] } else { format!("{H}1,D,error,{}\n", msg.join("; ")).into_bytes() };
                    case("check -R r.toml", Want::Out(want)).aux("r.toml", b"[rule.D]\ncheck=\"duplicates\"\nquery=\"012A.a\"\n".to_vec()).stdin(rec(&[id(b"1"), fs]))
                });
            }
        }
        "C26" => {
            what = "lists with one or all but one of 110 look-alike values: the records with exactly these values";
            let vals = alike();
            for (k, x) in vals.iter().enumerate() {
                for (opt, deny) in [("-A", false), ("-D", true)] {
                    for (ext, most) in [("csv", false), ("csv", true), ("txt", true), ("tsv", false)] {
                        if most && (k + ext.len()) % 2 == 0 && !cx.thorough {
                            continue;
                        }
                        let (x, vals) = (x.clone(), vals.clone());
                        add!(v, {
                            let keys: Vec<B> = if most { vals.iter().filter(|y| **y != x).cloned().collect() } else { vec![x.clone()] };
                            let want: B = ids(&vals.iter().filter(|y| keys.contains(y) != deny).cloned().collect::<Vec<_>>()).concat();
                            let l = if ext == "txt" { lists(&keys) } else { [b"ppn\n".to_vec(), lists(&keys)].concat() };
                            case(&format!("filter 003@? {opt} l.{ext}"), Want::Out(want)).aux(&format!("l.{ext}"), l).file("i.dat", ids(&vals).concat())
                        });
                    }
                }
            }
        }
        "C28" => {
            what = "samples as large as the input of records with every tag, occurrence, code, byte and look-alike value";
            for seed in [1, 2] {
                add!(v, case(&format!("sample --seed {seed} 100000"), Want::Is(Box::new(|o| {
                    let sorted = |b: &[u8]| { let mut v: Vec<B> = b.split_inclusive(|c| *c == b'\n').map(<[u8]>::to_vec).collect(); v.sort(); v.concat() };
                    same("the sorted sample", &sorted(&o.out), &sorted(&all()))
                }))).stdin(all()));
            }
        }
        "C30" => {
            what = "print of records with every tag, occurrence, code, byte and look-alike value";
            add!(v, case("print", Want::Is(Box::new(|o| same("standard output", String::from_utf8_lossy(&o.out).as_bytes(), &printed(&model(&every())))))).stdin(all()));
            add!(v, case("print -o o.txt", Want::Is(Box::new(|o| same("o.txt", String::from_utf8_lossy(o.files.get("o.txt").ok_or("no file")?).as_bytes(), &printed(&model(&every())))))).stdin(all()));
        }
        _ => unreachable!(),
    }
    run(cx, cli, "every primitive", what, &v);
}

fn dedup(v: Vec<B>) -> Vec<B> {
    let mut seen = BTreeSet::new();
    v.into_iter().filter(|x| seen.insert(x.clone())).collect()
}

/// The output of the first occurrences.
trait First {
    fn file_first(self) -> Self;
}
impl First for Case {
    fn file_first(mut self) -> Self {
        self.want = Want::Out(dedup(every()).concat());
        self
    }
}
