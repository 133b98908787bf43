//! Streams, records, values and lists that are longer than the usual
//! widths of counters and buffers (2^8, 2^16, 64 KiB).
use std::collections::{BTreeMap, BTreeSet};

use serde_json::json;
use sha2::{Digest, Sha256};

use crate::c02::{gunzip, gzip};
use crate::cli::{Cli, Out, job};
use crate::cx::{Cx, St, esc};

pub type B = Vec<u8>;
pub type Files = BTreeMap<String, B>;

/// What a run has to give.
pub enum Want {
    Out(B),
    Files(Files),
    Fails(Vec<String>),
    Is(Box<dyn Fn(&Out) -> Result<(), String>>),
}

pub struct Case {
    pub args: Vec<String>,
    pub stdin: Option<B>,
    pub files: Vec<(String, B)>,
    pub want: Want,
}

fn strs(s: &str) -> Vec<String> {
    s.split(' ').map(|s| s.replace('~', " ")).collect()
}
pub fn case(args: &str, want: Want) -> Case {
    Case { args: strs(args), stdin: None, files: vec![], want }
}
impl Case {
    pub fn stdin(mut self, b: B) -> Self {
        self.stdin = Some(b);
        self
    }
    pub fn file(mut self, n: &str, b: B) -> Self {
        self.args.push(n.into());
        self.files.push((n.into(), b));
        self
    }
    pub fn aux(mut self, n: &str, b: B) -> Self {
        self.files.push((n.into(), b));
        self
    }
}

/// The first difference, in context.
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let w = |v: &[u8]| esc(&v[k.saturating_sub(40).min(v.len())..(k + 40).min(v.len())]);
    format!("at byte {k} of {} (expected {}): '{}' instead of '{}'", a.len(), b.len(), w(a), w(b))
}

pub fn same(what: &str, a: &[u8], b: &[u8]) -> Result<(), String> {
    if a == b { Ok(()) } else { Err(format!("{what} differs {}", diff(a, b))) }
}

fn check(o: &Out, w: &Want) -> Result<(), String> {
    if let Want::Fails(m) = w {
        let e = String::from_utf8_lossy(&o.err).to_string();
        return if o.clean() && o.code > 0 && m.iter().all(|m| e.contains(m)) { Ok(()) } else { Err(format!("status {} with message '{}', expected an error with {m:?}", o.code, &e[..e.len().min(300)])) };
    }
    if o.code != 0 {
        return Err(format!("status {}, '{}'", o.code, esc(&o.err[..o.err.len().min(300)])));
    }
    match w {
        Want::Out(b) => {
            if let Some(f) = o.files.keys().next() {
                return Err(format!("unexpected file {f}"));
            }
            same("standard output", &o.out, b)
        }
        Want::Files(m) => {
            let (x, y): (BTreeSet<_>, BTreeSet<_>) = (o.files.keys().collect(), m.keys().collect());
            if x != y {
                let z: Vec<_> = x.symmetric_difference(&y).take(4).collect();
                return Err(format!("files {z:?} are missing or superfluous"));
            }
            for (n, b) in m {
                let got = &o.files[n];
                if n.ends_with(".gz") {
                    same(n, &gunzip(got).map_err(|e| format!("{n}: {e}"))?, b)?
                } else {
                    same(n, got, b)?
                }
            }
            same("standard output", &o.out, b"")
        }
        Want::Is(f) => f(o),
        Want::Fails(_) => unreachable!(),
    }
}

pub fn run(cx: &Cx, cli: &Cli, space: &str, what: &str, cases: &[Box<dyn Fn() -> Case + Sync>]) {
    cx.space(space, what, cases.len() as u64, |i, st: &mut St| {
        let c = cases[i as usize]();
        let mut j = job(&c.args);
        j.cpu = 120;
        for (n, b) in &c.files {
            j = j.file(n, b);
        }
        if let Some(b) = &c.stdin {
            j = j.stdin(b);
        }
        let o = cli.run(&j);
        let r = check(&o, &c.want);
        st.state();
        st.trace();
        st.transitions += c.files.iter().map(|f| &f.1).chain(&c.stdin).map(|b| b.iter().filter(|c| **c == b'\n').count() as u64).sum::<u64>();
        st.outcome(&(o.code, &o.out, o.files.len()));
        let line: String = j.line().chars().take(300).collect();
        st.sample(|| json!({"run": line, "records": st_len(&c)}));
        if let Err(e) = r {
            st.fail(
                format!("{line}: {e}"),
                json!({"run": line, "input": "see long.rs and prims.rs for the records", "stdin bytes": c.stdin.as_ref().map(|b| b.len()), "files": c.files.iter().take(5).map(|(n, b)| json!([n, b.len(), esc(&b[..b.len().min(200)])])).collect::<Vec<_>>(), "difference": e}),
            );
        }
    });
}
fn st_len(c: &Case) -> usize {
    c.files.iter().map(|f| f.1.len()).chain(c.stdin.as_ref().map(|b| b.len())).sum()
}

/// Record number i.
fn r(i: usize) -> B {
    format!("003@ \x1f0{i}\x1e012A \x1fa{}\x1fb{i}\x1e\n", i % 7).into_bytes()
}
fn rs(it: impl IntoIterator<Item = usize>) -> B {
    it.into_iter().flat_map(r).collect()
}
pub fn txt(it: impl IntoIterator<Item = String>) -> B {
    it.into_iter().flat_map(String::into_bytes).collect()
}
const BAD: &[u8] = b"x\n";
/// The records below n with an invalid line before those at `bad`.
fn with_bad(n: usize, bad: impl Fn(usize) -> bool) -> B {
    let mut o = vec![];
    for i in 0..n {
        if bad(i) {
            o.extend(BAD)
        }
        o.extend(r(i));
    }
    o
}
/// A record with n fields and one with n subfields.
fn wide(id: &str, n: usize) -> B {
    let mut b = format!("003@ \x1f0{id}\x1e").into_bytes();
    for i in 0..n {
        b.extend(format!("012A/{:02} \x1fa{i}\x1fxy\x1e", i % 100).into_bytes());
    }
    b.push(b'\n');
    b
}
fn deep(id: &str, n: usize) -> B {
    let mut b = format!("003@ \x1f0{id}\x1e012A ").into_bytes();
    for i in 0..n {
        b.extend(format!("\x1fa{i}").into_bytes());
    }
    b.extend(b"\x1e\n");
    b
}
fn value(id: &str, n: usize) -> B {
    let mut b = format!("003@ \x1f0{id}\x1e012A \x1fa").into_bytes();
    b.extend((0..n).map(|i| b'a' + (i % 26) as u8));
    b.extend(b"\x1e\n");
    b
}

pub const N: usize = 70_000;
const SMALL: [usize; 3] = [255, 256, 257];
const EDGE: [usize; 6] = [255, 256, 257, 65535, 65536, 65537];

pub type Cases = Vec<Box<dyn Fn() -> Case + Sync>>;
macro_rules! add {
    ($v:expr, $e:expr) => {
        $v.push(Box::new(move || $e))
    };
}

pub fn cli(cx: &Cx, cli: &Cli) {
    let mut v: Cases = vec![];
    let edges: Vec<usize> = if cx.thorough {
        EDGE.iter().copied().chain([127, 128, 129, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 69_999, 70_000, 70_001]).collect()
    } else {
        EDGE.to_vec()
    };
    let what;
    match cx.id.as_str() {
        "C15" => {
            what = "filter: 70000 records x filters, limits, inversion; records with 300 and 70000 fields or subfields x keep, discard; lists of 300 predicates";
            for k in edges.clone() {
                add!(v, case(&format!("filter -l {k} 003@?"), Want::Out(rs(0..k.min(N)))).stdin(rs(0..N)));
                add!(v, case(&format!("filter -s -v --limit {k} 012A.a~==~'0'"), Want::Out(rs((0..N).filter(|i| i % 7 != 0).take(k)))).file("i.dat", with_bad(N, |i| i % 500 == 0)));
                add!(v, case(&format!("filter 003@.0~==~'{k}'"), Want::Out(rs((k..k + 1).filter(|k| *k < N)))).file("i.dat", rs(0..N)));
            }
            for (n, src) in [(300usize, 0), (N, 0), (300, 1), (N, 1), (N, 2)] {
                let mk = move |s: &str| ([wide, deep, value] as [fn(&str, usize) -> B; 3])[src](s, n);
                add!(v, case("filter 003@?", Want::Out([mk("1"), r(2), mk("3")].concat())).stdin([mk("1"), r(2), mk("3")].concat()));
                add!(v, case("filter -k 012A/* 003@?", Want::Out([mk("1")[b"003@ \x1f01\x1e".len()..].to_vec(), r(2)[b"003@ \x1f02\x1e".len()..].to_vec()].concat())).stdin([mk("1"), r(2)].concat()));
                add!(v, case("filter -d 012A/* 003@?", Want::Out(b"003@ \x1f01\x1e\n003@ \x1f02\x1e\n".to_vec())).stdin([mk("1"), r(2)].concat()));
            }
            for n in [255usize, 256, 257] {
                // the last of n alternatives is the only one that holds
                let ors: String = (0..n).map(|i| format!(" --or 003@.0~==~'{}'", i + 1)).collect();
                add!(v, case(&format!("filter 003@.0~==~'none'{ors}"), Want::Out(rs(1..n + 1))).file("i.dat", rs(0..400)));
                let not: String = (0..n).map(|i| format!(" --not 003@.0~==~'{}'", i + 1)).collect();
                add!(v, case(&format!("filter 003@?{not}"), Want::Out(rs((0..400).filter(|i| *i == 0 || *i > n)))).file("i.dat", rs(0..400)));
            }
        }
        "C16" => {
            what = "70000 lines of which every 1000th or all but one are invalid x invalid and skipping; a single invalid line at the positions around 2^8 and 2^16 in 6 commands; 300 inputs";
            add!(v, case("invalid", Want::Out(BAD.repeat(N / 1000))).stdin(with_bad(N, |i| i % 1000 == 7)));
            add!(v, case("invalid", Want::Out(BAD.repeat(N))).stdin([BAD.repeat(N), r(1)].concat()));
            add!(v, case("filter -s 003@?", Want::Out(r(1))).stdin([BAD.repeat(N), r(1)].concat()));
            add!(v, case("concat -s", Want::Out(rs(0..N))).file("i.dat", with_bad(N, |i| i % 1000 == 7)));
            for c in ["filter 003@?", "count", "convert -t plain", "hash", "select 003@.0", "print", "frequency 003@.0", "describe", "concat", "slice", "sample 3", "explode main"] {
                for k in edges.clone() {
                    add!(v, case(c, Want::Fails(vec![format!("line {} ", k + 1), "i.dat".into()])).file("i.dat", with_bad(N, |i| i == k)));
                }
            }
            add!(v, (0..300).fold(case("invalid", Want::Out(BAD.repeat(300))), |c, i| c.file(&format!("{i}.dat"), [r(i), BAD.to_vec()].concat())));
        }
        "C17" => {
            what = "70000 records x start, end, length, limit around 2^8 and 2^16 x invalid lines";
            for k in edges.clone() {
                add!(v, case(&format!("slice --start {k}"), Want::Out(rs(k..N.max(k)))).stdin(rs(0..N)));
                add!(v, case(&format!("slice --end {k}"), Want::Out(rs(0..k.min(N)))).stdin(rs(0..N)));
                add!(v, case(&format!("slice --length {k}"), Want::Out(rs(0..k.min(N)))).stdin(rs(0..N)));
                add!(v, case(&format!("slice --start 1 --length {k}"), Want::Out(rs(1..(k + 1).min(N)))).stdin(rs(0..N)));
                add!(v, case(&format!("slice --start {k} --length 2"), Want::Out(rs(k.min(N)..(k + 2).min(N)))).stdin(rs(0..N)));
                add!(v, case(&format!("slice -l {k}"), Want::Out(rs(0..k.min(N)))).stdin(rs(0..N)));
                // every second line is invalid
                add!(v, case(&format!("slice -s --start {k} --end {}", k + 10), Want::Out(rs((0..N).filter(|i| (k..k + 10).contains(&(2 * i + 1)))))).stdin(with_bad(N, |_| true)));
            }
        }
        "C18" => {
            what = "split of 70000 records into chunks around 2^8, 2^16 and of 200 records; 300 chunks; concat of 300 inputs and --tee of 70000 records; long records";
            let names = |n: usize, k: usize| -> Files { (0..n.div_ceil(k)).map(|c| (format!("{c}.dat"), rs(c * k..((c + 1) * k).min(n)))).collect() };
            for k in edges.iter().copied().chain([200]).filter(|k| *k < 100 || N / k < 1000) {
                add!(v, case(&format!("split {k}"), Want::Files(names(N, k))).stdin(rs(0..N)));
                add!(v, case(&format!("split -s --limit {} {k}", 66_000), Want::Files(names(66_000, k))).stdin(with_bad(N, |i| i % 255 == 0)));
            }
            add!(v, case("split 1", Want::Files(names(300, 1))).stdin(rs(0..300)));
            add!(v, case("split -g 1", Want::Files(names(300, 1).into_iter().map(|(n, b)| (n.replace(".dat", ".dat.gz"), b)).collect())).stdin(rs(0..300)));
            add!(v, (0..300).fold(case("concat", Want::Out(rs(0..300))), |c, i| c.file(&format!("{i}.dat"), r(i))));
            add!(v, (0..300).fold(case("concat", Want::Out(rs(0..300))), |c, i| c.file(&format!("{i}.dat.gz"), gzip(&r(i)))));
            add!(v, case("concat", Want::Out(rs(0..N))).file("i.dat.gz", gzip(&rs(0..N))));
            add!(v, case("concat --tee t.dat -o o.dat", Want::Files([("t.dat".into(), rs(0..N)), ("o.dat".into(), rs(0..N))].into())).stdin(rs(0..N)));
            for n in [300, N] {
                let all = move || [wide("1", n), r(2), deep("3", n), value("4", n)].concat();
                add!(v, case("concat", Want::Out(all())).file("i.dat", all()));
                add!(v, case("split 4", Want::Files([("0.dat".into(), all())].into())).file("i.dat", all()));
            }
        }
        "C19" => {
            what = "70000 records in 7 files, 300 files, records with 300 values, long values in other fields";
            let parts = |n: usize, m: usize| -> Files { (0..m).map(|c| (format!("{c}.dat"), rs((0..n).filter(|i| i % m == c)))).collect() };
            add!(v, case("partition 012A.a", Want::Files(parts(N, 7))).stdin(rs(0..N)));
            add!(v, case("partition -s 012A.a", Want::Files(parts(N, 7))).stdin(with_bad(N, |i| i % 300 == 0)));
            add!(v, case("partition -g 012A.a", Want::Files(parts(N, 7).into_iter().map(|(n, b)| (n + ".gz", b)).collect())).stdin(rs(0..N)));
            add!(v, case("partition 012A.b", Want::Files(parts(300, 300))).stdin(rs(0..300)));
            add!(v, case("partition 012A.b -l 280", Want::Files(parts(280, 280))).stdin(rs(0..300)));
            for k in edges.clone() {
                add!(v, case(&format!("partition 012A.a -l {k}"), Want::Files(parts(k.min(N), 7))).stdin(rs(0..N)));
            }
            add!(v, case("partition 012A.a", Want::Files((0..300).map(|i| (format!("{i}.dat"), deep("1", 300))).collect())).file("in.d", deep("1", 300)));
            add!(v, case("partition 012A/*.a", Want::Files((0..300).map(|i| (format!("{i}.dat"), wide("1", 300))).collect())).file("in.d", wide("1", 300)));
        }
        "C20" => {
            what = "70000 distinct keys, then the same and others again, x strategies x one and two inputs; 300 inputs with the same record";
            for s in ["idn", "hash"] {
                let twice = || rs((0..N).chain(0..N).chain(N..N + 300));
                add!(v, case(&format!("concat -u --unique-strategy {s}"), Want::Out(rs(0..N + 300))).stdin(twice()));
                add!(v, case(&format!("concat -u --unique-strategy {s}"), Want::Out(rs(0..N + 300))).file("a.dat", rs(0..N)).file("b.dat", rs((0..N + 300).rev().collect::<Vec<_>>().into_iter().filter(|i| *i < N))).file("c.dat", rs(N..N + 300)));
                add!(v, case(&format!("concat -u --unique-strategy {s} -s"), Want::Out(r(5))).stdin([r(5).repeat(N), BAD.to_vec(), r(5)].concat()));
                add!(v, (0..300).fold(case(&format!("concat -u --unique-strategy {s}"), Want::Out(rs(0..2))), move |c, i| c.file(&format!("{i}.dat"), r(i % 2))));
                // keys with a common prefix of 70000 bytes
                let long = |c: char| { let mut b = format!("003@ \x1f0{}{c}\x1e012A \x1fa", "k".repeat(N)).into_bytes(); b.extend(b"\x1e\n"); b };
                add!(v, case(&format!("concat -u --unique-strategy {s}"), Want::Out([long('x'), long('y')].concat())).stdin([long('x'), long('y'), long('x'), long('y')].concat()));
            }
        }
        "C21" => {
            what = "records with 300 and 70000 local blocks or copies x levels, 70000 records, limits";
            let mainf = "003@ \x1f01\x1e012A \x1fam\x1e";
            for n in [255usize, 256, 257, 999] {
                // n copies in one library (three digit occurrences above 99)
                let copy = |i: usize| if i < 100 { format!("203@/{:02} \x1f0c{i}\x1e208@/{:02} \x1fax\x1e", i, i) } else { format!("203@/{i:03} \x1f0c{i}\x1e208@/{i:03} \x1fax\x1e") };
                let rec = move || txt([mainf.to_string(), "101@ \x1fal\x1e".into()].into_iter().chain((1..=n).map(copy)).chain(["\n".into()]));
                add!(v, case("explode copy", Want::Out(txt((1..=n).map(|i| format!("{mainf}101@ \x1fal\x1e{}\n", copy(i)))))).stdin(rec()));
                add!(v, case("explode local", Want::Out(rec())).stdin(rec()));
                add!(v, case("explode main", Want::Out(rec())).stdin(rec()));
            }
            for n in [300usize, 5000] {
                let lib = |i: usize| format!("101@ \x1fal{i}\x1e144Z \x1fax\x1e203@/01 \x1f0c\x1e203@/02 \x1f0d{i}\x1e");
                let rec = move || txt([mainf.to_string()].into_iter().chain((0..n).map(lib)).chain(["\n".into()]));
                add!(v, case("explode local", Want::Out(txt((0..n).map(|i| format!("{mainf}{}\n", lib(i)))))).stdin(rec()));
                add!(v, case("explode copy", Want::Out(txt((0..n).flat_map(|i| [format!("{mainf}101@ \x1fal{i}\x1e144Z \x1fax\x1e203@/01 \x1f0c\x1e\n"), format!("{mainf}101@ \x1fal{i}\x1e144Z \x1fax\x1e203@/02 \x1f0d{i}\x1e\n")])))).stdin(rec()));
            }
            for k in edges.clone() {
                add!(v, case(&format!("explode main -l {k}"), Want::Out(rs(0..k.min(N)))).stdin(rs(0..N)));
            }
            add!(v, case("explode main", Want::Out([wide("1", N), deep("1", N), value("1", N)].concat())).stdin([wide("1", N), deep("1", N), value("1", N)].concat()));
        }
        "C22" => {
            what = "70000 records and records with 70000 fields, subfields or bytes x 6 encodings";
            for fmt in 0..6usize {
                let mk = |which: usize| -> B {
                    match which {
                        0 => rs(0..N),
                        1 => [r(1), wide("1", 300), r(2)].concat(),
                        2 => [r(1), wide("1", N), r(2)].concat(),
                        3 => [r(1), deep("1", N), r(2)].concat(),
                        _ => [r(1), value("1", 65535), value("1", 65536), value("1", 99_999), r(2)].concat(),
                    }
                };
                for which in 0..5 {
                    if fmt == 5 && (1..=2).contains(&which) {
                        continue; // known finding xml-occurrence
                    }
                    add!(v, {
                        let input = mk(which);
                        let want: Vec<_> = input.split_inclusive(|c| *c == b'\n').map(|l| crate::rec::parse(l).unwrap()).collect();
                        case(
                            &format!("convert -t {}", crate::c22::FORMATS[fmt]),
                            Want::Is(Box::new(move |o| {
                                let got = crate::c22::decode(fmt, &o.out).map_err(|e| format!("the output cannot be decoded: {e}"))?;
                                if got.len() != want.len() {
                                    return Err(format!("{} records instead of {}", got.len(), want.len()));
                                }
                                match got.iter().zip(&want).position(|(a, b)| a != b) {
                                    None => Ok(()),
                                    Some(k) => Err(format!("record {k} differs {}", diff(&crate::rec::ser(&got[k]), &crate::rec::ser(&want[k])))),
                                }
                            })),
                        )
                        .stdin(input)
                    });
                }
            }
        }
        "C23" => {
            what = "count, frequency, hash, describe on 70000 records, on records with 70000 fields or subfields; limits and thresholds around 2^8 and 2^16";
            let c = |r: usize, f: usize, s: usize| Want::Out(format!("records: {r}\nfields: {f}\nsubfields: {s}\n").into_bytes());
            add!(v, case("count", c(N, 2 * N, 3 * N)).stdin(rs(0..N)));
            add!(v, case("count", c(2, N + 2, 2 * N + 2)).stdin([wide("1", N), b"003@ \x1f02\x1e\n".to_vec()].concat()));
            add!(v, case("count", c(2, 4, N + 4)).stdin([deep("1", N), r(2)].concat()));
            add!(v, case("count", c(2 * N, 4 * N, 6 * N)).file("a.dat", rs(0..N)).file("b.dat", rs(0..N)));
            for k in edges.clone() {
                let m = k.min(N);
                add!(v, case(&format!("count -l {k}"), c(m, 2 * m, 3 * m)).stdin(rs(0..N)));
                // k times a, k + 1 times b
                let ab = move || txt((0..2 * k + 1).map(|i| format!("003@ \x1f0{i}\x1e012A \x1fa{}\x1e\n", if i % 2 == 0 { "b" } else { "a" })));
                add!(v, case("frequency 012A.a", Want::Out(format!("b,{}\na,{k}\n", k + 1).into_bytes())).stdin(ab()));
                add!(v, case("frequency -r 012A.a", Want::Out(format!("a,{k}\nb,{}\n", k + 1).into_bytes())).stdin(ab()));
                add!(v, case(&format!("frequency --threshold {} 012A.a", k + 1), Want::Out(format!("b,{}\n", k + 1).into_bytes())).stdin(ab()));
                add!(v, case(&format!("frequency -n {k} 012A.b"), Want::Out({ let mut t: Vec<String> = (0..N).map(|i| i.to_string()).collect(); t.sort(); txt(t.into_iter().take(k).map(|x| format!("{x},1\n"))) })).stdin(rs(0..N)));
                add!(v, case("describe --csv -o d.csv", Want::Files([("d.csv".into(), format!("field,0,a\n003@,{},0\n012A,0,{}\n", 2 * k + 1, 2 * k + 1).into_bytes())].into())).stdin(ab()));
            }
            for n in [300, N] {
                add!(v, case("frequency 012A.a", Want::Out({ let mut t: Vec<String> = (0..n).map(|i| i.to_string()).collect(); t.sort(); txt(t.into_iter().map(|x| format!("{x},1\n"))) })).stdin(deep("1", n)));
                add!(v, case("frequency 012A/*.x", Want::Out(format!("y,{n}\n").into_bytes())).stdin(wide("1", n)));
                add!(v, case("frequency -u 012A/*.x", Want::Out(b"y,1\n".to_vec())).stdin(wide("1", n)));
                add!(v, case("describe --csv -o d.csv", Want::Files([("d.csv".into(), format!("field,0,a,x\n003@,1,0,0\n012A,0,{n},{n}\n").into_bytes())].into())).stdin(wide("1", n)));
            }
            let sha = |b: &[u8]| Sha256::digest(b).iter().map(|c| format!("{c:02x}")).collect::<String>();
            add!(v, case("hash", Want::Out(txt(["ppn,hash\n".to_string()].into_iter().chain((0..N).map(|i| { let b = r(i); format!("{i},{}\n", sha(&b[..b.len()])) }))))).stdin(rs(0..N)));
            add!(v, case("hash", Want::Out(txt(["ppn,hash\n".to_string()].into_iter().chain([wide("1", N), deep("2", N), value("3", N)].iter().enumerate().map(|(i, b)| format!("{},{}\n", i + 1, sha(b))))))).stdin([wide("1", N), deep("2", N), value("3", N)].concat()));
        }
        "C24" => {
            what = "select on 70000 records x options; products of 300 x 300 rows; 300 columns; long values";
            add!(v, case("select 003@.0,012A{a,b}", Want::Out(txt((0..N).map(|i| format!("{i},{},{i}\n", i % 7))))).stdin(rs(0..N)));
            add!(v, case("select -u 012A.a", Want::Out(txt((0..7).map(|i| format!("{i}\n"))))).stdin(rs(0..N)));
            add!(v, case("select -u 003@.0", Want::Out(txt((0..N).map(|i| format!("{i}\n"))))).stdin(rs((0..N).chain((0..N).rev()))));
            for k in edges.clone() {
                add!(v, case(&format!("select -l {k} 003@.0"), Want::Out(txt((0..k.min(N)).map(|i| format!("{i}\n"))))).stdin(rs(0..N)));
            }
            for n in SMALL {
                add!(v, case("select 012A/*.a,012A/*.a", Want::Out(txt((0..n).flat_map(move |i| (0..n).map(move |j| format!("{i},{j}\n")))))).stdin(wide("1", n)));
                add!(v, case("select 012A{a,a}", Want::Out(txt((0..n).flat_map(move |i| (0..n).map(move |j| format!("{i},{j}\n")))))).stdin(deep("1", n)));
                add!(v, case(&format!("select {}", vec!["003@.0"; n].join(",")), Want::Out(txt([format!("{}\n", vec!["7"; n].join(","))]))).stdin(r(7)));
            }
            for n in [300, N] {
                add!(v, case("select --squash 003@.0,012A.a", Want::Out(txt([format!("1,{}\n", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join("|"))]))).stdin(deep("1", n)));
                add!(v, case("select --merge 003@.0,012A/*.a", Want::Out(txt([format!("1,{}\n", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join("|"))]))).stdin(wide("1", n)));
                add!(v, case("select 012A.a", Want::Out(txt([(0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect::<String>() + "\n"]))).stdin(value("1", n)));
            }
        }
        "C25" => {
            what = "violations of 70000 records; duplicate thresholds around 2^8; link sources and targets 70000 records apart; 300 rules; 300 rule sets";
            const H: &str = "ppn,rule,level,message\n";
            add!(v, case("check -R r.toml", Want::Out(txt([H.to_string()].into_iter().chain((0..N).map(|i| format!("{i},F,error,\n")))))).aux("r.toml", b"[rule.F]\ncheck=\"filter\"\nfilter=\"012A?\"\n".to_vec()).stdin(rs(0..N)));
            for k in edges.clone() {
                add!(v, case("check -R r.toml", Want::Out(if k < N { format!("{H}{k},F,error,\n").into_bytes() } else { vec![] })).aux("r.toml", format!("[rule.F]\ncheck=\"filter\"\nfilter=\"012A.b == '{k}'\"\n").into_bytes()).stdin(rs(0..N)));
                if k < 1000 {
                    // k times the same value
                    for t in [k - 1, k, k + 1] {
                        let hit = k >= t;
                        let rec = format!("003@ \x1f01\x1e{}\n", "012A \x1fax\x1e".repeat(k)).into_bytes();
                        let rule = format!("[rule.D]\ncheck=\"duplicates\"\nquery=\"012A.a\"\nthreshold={t}\n").into_bytes();
                        add!(v, case("check -R r.toml", Want::Is(Box::new(move |o| {
                            let hit2 = !o.out.is_empty();
                            if hit2 == hit { Ok(()) } else { Err(format!("{k} times the same value with threshold {t}: '{}'", esc(&o.out))) }
                        }))).aux("r.toml", rule.clone()).stdin(rec.clone()));
                    }
                }
            }
            add!(v, {
                let link = |src: &str| format!("003@ \x1f0s\x1e029F \x1f9{src}\x1e\n").into_bytes();
                case("check -R r.toml", Want::Out(format!("{H}s,L,error,nowhere\n").into_bytes()))
                    .aux("r.toml", b"[rule.L]\ncheck=\"link\"\nsource.path=\"029F.9\"\ntarget.path=\"003@.0\"\n".to_vec())
                    .stdin([link(&(N - 1).to_string()), link("nowhere"), rs(0..N), link("0"), link("65536")].concat())
            });
            add!(v, {
                let rules = txt((0..300).map(|i| format!("[rule.R{i:03}]\ncheck=\"filter\"\nfilter=\"012A.b == '{i}'\"\n")));
                case("check -R r.toml", Want::Out(txt([H.to_string()].into_iter().chain((0..300).map(|i| format!("{i},R{i:03},error,\n")))))).aux("r.toml", rules).stdin(rs(0..1000))
            });
            add!(v, {
                let args: String = (0..300).map(|i| format!(" -R r{i}.toml")).collect();
                let c = case(&format!("check{args}"), Want::Out(txt([H.to_string()].into_iter().chain((0..300).map(|i| format!("{i},R{i:03},error,\n"))))));
                (0..300).fold(c, |c, i| c.aux(&format!("r{i}.toml"), format!("[rule.R{i:03}]\ncheck=\"filter\"\nfilter=\"012A.b == '{i}'\"\n").into_bytes())).stdin(rs(0..1000))
            });
        }
        "C26" => {
            what = "lists of 70000 keys and 300 lists x allow/deny x 70000 records; keys of 70000 bytes; source paths with 300 values";
            let csv = |it: Vec<usize>| txt(["ppn\n".to_string()].into_iter().chain(it.into_iter().map(|i| format!("{i}\n"))));
            for (o, deny) in [("-A", false), ("-D", true)] {
                for k in edges.clone() {
                    // the first k even numbers
                    let inn = move |i: usize| i % 2 == 0 && i / 2 < k;
                    add!(v, case(&format!("filter 003@? {o} l.csv"), Want::Out(rs((0..N).filter(|i| inn(*i) != deny)))).aux("l.csv", csv((0..k).map(|i| 2 * i).collect())).stdin(rs(0..N)));
                    add!(v, case(&format!("select 003@.0 {o} l.txt.gz --filter-set-source 012A.b"), Want::Out(txt((0..N).filter(|i| inn(*i) != deny).map(|i| format!("{i}\n"))))).aux("l.txt.gz", gzip(&txt((0..k).map(|i| format!("{}\n", 2 * i))))).stdin(rs(0..N)));
                }
                add!(v, {
                    let args: String = (0..300).map(|i| format!(" {o} {i}.csv")).collect();
                    let c = case(&format!("filter 003@?{args}"), Want::Out(rs((0..1000).filter(|i| (*i >= 1 && *i <= 300) != deny))));
                    (0..300).fold(c, |c, i| c.aux(&format!("{i}.csv"), format!("ppn\n{}\n", i + 1).into_bytes())).stdin(rs(0..1000))
                });
                add!(v, case(&format!("filter 003@? {o} l.csv --filter-set-source 012A.a"), Want::Out(if deny { vec![] } else { deep("1", 300) })).aux("l.csv", csv(vec![299])).stdin(deep("1", 300)));
                add!(v, case(&format!("filter 003@? {o} l.csv --filter-set-source 012A.a"), Want::Out(if deny { r(3) } else { value("1", N) })).aux("l.csv", [b"ppn\n".to_vec(), (0..N).map(|i| b'a' + (i % 26) as u8).collect(), b"\n".to_vec()].concat()).stdin([value("1", N), r(3)].concat()));
            }
        }
        "C28" => {
            what = "samples of 255 to 70001 of 70000 records: distinct records of the input, the same again with the same seed, spread over the whole input";
            for k in edges.clone().into_iter().chain([N]) {
                for seed in [1, 2] {
                    add!(v, case(&format!("sample --seed {seed} {k}"), Want::Is(Box::new(move |o| {
                        let mut ids: Vec<usize> = vec![];
                        for l in o.out.split_inclusive(|c| *c == b'\n') {
                            let t = String::from_utf8_lossy(l).to_string();
                            let i: usize = t.strip_prefix("003@ \x1f0").and_then(|t| t.split('\x1e').next()).and_then(|t| t.parse().ok()).ok_or(format!("not a record: {}", esc(l)))?;
                            same("a record", l, &r(i))?;
                            ids.push(i);
                        }
                        let n = ids.len();
                        let set: BTreeSet<usize> = ids.into_iter().collect();
                        if n != k.min(N) || set.len() != n || set.iter().any(|i| *i >= N) {
                            return Err(format!("{n} records, {} distinct ones, expected {}", set.len(), k.min(N)));
                        }
                        // each seventh of the input has its share (more than ten standard deviations)
                        for s in 0..7 {
                            let c = set.iter().filter(|i| **i / 10_000 == s).count() as f64;
                            let e = n as f64 / 7.0;
                            if (c - e).abs() > 10.0 * e.sqrt() {
                                return Err(format!("{c} of {n} records from the records {}..{}", s * 10_000, (s + 1) * 10_000));
                            }
                        }
                        Ok(())
                    }))).stdin(rs(0..N)));
                }
            }
        }
        "C30" => {
            what = "print of 70000 records x limits; records with 70000 fields, subfields or bytes";
            let p = |i: usize| format!("003@ $0 {i}\n012A $a {} $b {i}\n\n", i % 7);
            add!(v, case("print", Want::Out(txt((0..N).map(p)))).stdin(rs(0..N)));
            for k in edges.clone() {
                add!(v, case(&format!("print -l {k}"), Want::Out(txt((0..k.min(N)).map(p)))).stdin(rs(0..N)));
            }
            add!(v, case("print", Want::Out(txt(["003@ $0 1\n".to_string()].into_iter().chain((0..N).map(|i| format!("012A/{:02} $a {i} $x y\n", i % 100))).chain(["\n".into()])))).stdin(wide("1", N)));
            add!(v, case("print", Want::Out(txt(["003@ $0 1\n012A".to_string()].into_iter().chain((0..N).map(|i| format!(" $a {i}"))).chain(["\n\n".into()])))).stdin(deep("1", N)));
            add!(v, case("print", Want::Out([b"003@ $0 1\n012A $a ".to_vec(), (0..N).map(|i| b'a' + (i % 26) as u8).collect(), b"\n\n".to_vec()].concat())).stdin(value("1", N)));
        }
        _ => unreachable!(),
    }
    run(cx, cli, "long", what, &v);
}

/// The same for the library: one labelled check per item.
type Checks = Vec<(String, Box<dyn Fn() -> Result<(), String> + Sync>)>;

pub fn lib(cx: &Cx) {
    use pica_record::matcher::RecordMatcherBuilder;
    use pica_record::prelude::*;
    use pica_record::primitives::RecordRef;
    use std::io::Read;

    let mut v: Checks = vec![];
    macro_rules! chk {
        ($name:expr, $body:expr) => {{
            let n: String = $name;
            v.push((n, Box::new(move || $body)))
        }};
    }
    fn is<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
        if got == want { Ok(()) } else { Err(format!("{what}: {got:?}, expected {want:?}")) }
    }
    fn on(b: &[u8], m: &str) -> Result<bool, String> {
        let m = RecordMatcher::new(m).map_err(|e| e.to_string())?;
        Ok(m.is_match(&RecordRef::from_bytes(b).map_err(|_| "rejected")?, &MatcherOptions::default()))
    }
    let sizes: Vec<usize> = if cx.thorough { vec![127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 140_000] } else { vec![128, 255, 256, 257, 65535, 65536, 65537] };
    let some: Vec<usize> = (2..=20).chain([31, 32, 33, 63, 64, 65, 100]).chain(sizes.iter().copied()).collect();
    // numbers of elements of an expression
    let counts: Vec<usize> = (2..=20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]).collect();
    let code = |i: usize| b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[i % 62] as char;
    let what;
    match cx.id.as_str() {
        "C01" => {
            what = "records with 128 to 65537 fields, subfields or bytes in a value";
            for n in sizes {
                chk!(format!("{n} fields"), {
                    let b = wide("1", n);
                    let want = crate::rec::parse(&b).unwrap();
                    let r = RecordRef::from_bytes(&b).map_err(|_| "rejected")?;
                    is("fields", r.fields().len(), n + 1)?;
                    is("contents", r.fields().iter().zip(&want).all(|(f, w)| f.tag().to_string() == w.tag && f.occurrence().map(|o| o.to_string().trim_start_matches('/').to_string()) == w.occ && f.subfields().len() == w.subs.len() && f.subfields().iter().zip(&w.subs).all(|(s, x)| s.code() == x.0 && s.value().as_ref() as &[u8] == &x.1[..])), true)
                });
                chk!(format!("{n} subfields"), {
                    let b = deep("1", n);
                    let r = RecordRef::from_bytes(&b).map_err(|_| "rejected")?;
                    is("subfields", r.fields()[1].subfields().len(), n)?;
                    is("contents", r.fields()[1].subfields().iter().enumerate().all(|(i, s)| s.value().as_ref() as &[u8] == i.to_string().as_bytes()), true)
                });
                chk!(format!("a value of {n} bytes, and the same record without its last bytes"), {
                    let b = value("1", n);
                    let r = RecordRef::from_bytes(&b).map_err(|_| "rejected")?;
                    is("value", r.fields()[1].subfields()[0].value().len(), n)?;
                    for k in 1..3 {
                        is("truncated", RecordRef::from_bytes(&b[..b.len() - k]).is_err(), true)?;
                    }
                    Ok(())
                });
            }
        }
        "C02" => {
            what = "70000 records and long records written by each writer and read back";
            for gz in [false, true] {
                for n in [300, N] {
                    chk!(format!("{n} records, gzip {gz}"), {
                        let dir = crate::c02::Scratch::new(&format!("c02l{gz}{n}"));
                        let p = dir.0.join("x.dat");
                        let all = [rs(0..n), wide("1", n), deep("1", n), value("1", n), rs(0..3)].concat();
                        let mut w = WriterBuilder::new().gzip(gz).from_path(&p).map_err(|e| e.to_string())?;
                        for l in all.split_inclusive(|c| *c == b'\n') {
                            w.write_byte_record(&ByteRecord::from_bytes(&l).map_err(|_| "rejected")?).map_err(|e| e.to_string())?;
                        }
                        w.finish().map_err(|e| e.to_string())?;
                        let got = std::fs::read(&p).map_err(|e| e.to_string())?;
                        let got = if gz { gunzip(&got).map_err(|e| e.to_string())? } else { got };
                        same("the file", &got, &all)
                    });
                }
            }
        }
        "C03" => {
            what = "70000 lines with every 1000th or a single invalid one x chunk sizes x byte/text records; line numbers beyond 2^16";
            struct Chunked(B, usize, usize);
            impl Read for Chunked {
                fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                    let n = b.len().min(self.2).min(self.0.len() - self.1);
                    b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
                    self.1 += n;
                    Ok(n)
                }
            }
            for chunk in [7usize, 8191, 8192, 65536, usize::MAX] {
                for one in [None, Some(255usize), Some(256), Some(65534), Some(65535), Some(65536), Some(69_999)] {
                    chk!(format!("chunks of {chunk}, invalid line {one:?}"), {
                        let is_bad = |i: usize| one.map_or(i % 1000 == 3, |k| i == k);
                        let d: B = (0..N).flat_map(|i| if is_bad(i) { BAD.to_vec() } else { r(i) }).collect();
                        let mut rd = ReaderBuilder::new().from_reader(Chunked(d, 0, chunk), None);
                        let mut i = 0;
                        while let Some(x) = rd.next_byte_record() {
                            match x {
                                Ok(rec) if !is_bad(i) => is("the number of the record", rec.ppn().map(|p| p.to_string()), Some(i.to_string()))?,
                                Err(ref e) if is_bad(i) => is(&format!("'{e}' names the line {}", i + 1), e.to_string().split(|c: char| !c.is_ascii_digit()).any(|w| w == (i + 1).to_string()), true)?,
                                other => return Err(format!("line {}: {:?}", i + 1, other.map(|r| r.ppn().map(|p| p.to_string())))),
                            }
                            i += 1;
                        }
                        is("lines", i, N)
                    });
                }
            }
        }
        "C04" => {
            what = "records with 128 to 65537 fields x keep and discard x all views";
            for n in sizes {
                for kind in 0..4usize {
                    chk!(format!("{n} fields, operation {kind}"), {
                        let b = wide("1", n);
                        let mut rec = ByteRecord::from_bytes(&b).map_err(|_| "rejected")?;
                        let all: Vec<B> = (0..n).map(|i| format!("012A/{:02} \x1fa{i}\x1fxy\x1e", i % 100).into_bytes()).collect();
                        let spec = |s: &str| vec![(TagMatcher::new("012A").unwrap(), OccurrenceMatcher::new(s).unwrap())];
                        let head = b"003@ \x1f01\x1e".to_vec();
                        let pick = |f: &dyn Fn(usize) -> bool| all.iter().enumerate().filter(|x| f(x.0)).flat_map(|x| x.1.clone()).collect::<B>();
                        let want = match kind {
                            0 => {
                                rec.keep(&spec("/27"));
                                pick(&|i| i % 100 == 27)
                            }
                            1 => {
                                rec.discard(&spec("/27"));
                                [head, pick(&|i| i % 100 != 27)].concat()
                            }
                            2 => {
                                rec.discard(&spec("/*"));
                                head
                            }
                            _ => {
                                rec.keep(&spec("/02-10"));
                                pick(&|i| (2..=10).contains(&(i % 100)))
                            }
                        };
                        let want = [want, b"\n".to_vec()].concat();
                        let mut got = vec![];
                        rec.write_to(&mut got).map_err(|e| e.to_string())?;
                        same("the record", &got, &want)?;
                        let fresh = ByteRecord::from_bytes(&want).map_err(|_| "rejected")?;
                        is("equality", rec == fresh, true)?;
                        is("digest", rec.sha256(), fresh.sha256())
                    });
                }
            }
        }
        "C06" => {
            what = "fields with 128 to 65537 subfields x cardinalities at the size +-1; the only (un)equal value is the last one; lists of 2 to 300 values and classes of 2 to 62 codes with the hit at every place; values of that length";
            for n in counts.clone() {
                chk!(format!("{n} values and codes"), {
                    let b = crate::rec::ser(&vec![crate::rec::f("003@", &["01"]), crate::rec::f("012A", &["ax7y"])]);
                    for hit in 0..=n {
                        for (op, neg) in [("in", false), ("not in", true), ("=?", false), ("=~", false), ("!~", true)] {
                            let v = match op {
                                "=?" => "7",
                                _ => "x7y",
                            };
                            let l: Vec<String> = (0..n).map(|i| if i == hit { format!("'{v}'") } else { format!("'z{}z'", 1000 + i) }).collect();
                            let t = format!("012A.a {op} [{}]", l.join(", "));
                            is(&t, on(&b, &t)?, (hit < n) != neg)?;
                        }
                        if n <= 61 {
                            let c: String = (0..n).map(|i| if i == hit { 'a' } else { code(i + 1) }).collect();
                            let t = format!("012A.[{c}] == 'x7y'");
                            is(&t, on(&b, &t)?, hit < n)?;
                            let t = format!("012A.[{c}]?");
                            is(&t, on(&b, &t)?, hit < n)?;
                        }
                    }
                    Ok(())
                });
            }
            for n in sizes {
                for (op, f) in [("==", (|a, b| a == b) as fn(usize, usize) -> bool), ("!=", |a, b| a != b), (">=", |a, b| a >= b), (">", |a, b| a > b), ("<=", |a, b| a <= b), ("<", |a, b| a < b)] {
                    chk!(format!("{n} subfields {op}"), {
                        let b = deep("1", n);
                        for k in [0, 1, n % 256, n % 65536, n - 1, n, n + 1, n + 256, n + 65536] {
                            let t = format!("012A{{#a {op} {k}}}");
                            is(&t, on(&b, &t)?, f(n, k))?;
                        }
                        Ok(())
                    });
                }
                chk!(format!("quantifiers over {n} subfields"), {
                    let b = deep("1", n);
                    for (t, w) in [
                        (format!("012A.a == '{}'", n - 1), true),
                        (format!("012A.a == '{n}'"), false),
                        (format!("012A{{ALL a != '{}'}}", n - 1), false),
                        (format!("012A{{ALL a != '{n}'}}"), true),
                        (format!("012A{{ALL a =~ '^[0-9]+$'}}"), true),
                        (format!("012A.a in [{}, '0']", (0..300).map(|i| format!("'x{i}'")).collect::<Vec<_>>().join(", ")), true),
                        (format!("012A.a in ['{}', {}]", n, (0..300).map(|i| format!("'x{i}'")).collect::<Vec<_>>().join(", ")), false),
                        (format!("012A.a in [{}, '{}']", (0..300).map(|i| format!("'x{i}'")).collect::<Vec<_>>().join(", "), n - 1), true),
                    ] {
                        is(&t[t.len().saturating_sub(60)..], on(&b, &t)?, w)?;
                    }
                    Ok(())
                });
                chk!(format!("a value of {n} bytes"), {
                    let b = value("1", n);
                    let v: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                    let mut x = v.clone();
                    x.pop();
                    x.push('_');
                    for (t, w) in [
                        (format!("012A.a == '{v}'"), true),
                        (format!("012A.a == '{x}'"), false),
                        (format!("012A.a =^ '{x}'"), false),
                        (format!("012A.a =$ '{}'", &v[n - 30..]), true),
                        (format!("012A.a =? '{}'", &v[n - 30..]), true),
                        (format!("012A.a =? '{}'", &x[n - 30..]), false),
                        (format!("012A.a =~ '{}$'", &v[n - 30..]), true),
                    ] {
                        is(&format!("{}...{}", &t[..12], &t[t.len() - 40..]), on(&b, &t)?, w)?;
                    }
                    Ok(())
                });
            }
        }
        "C07" => {
            what = "records with 128 to 65537 fields x field cardinalities at the size +-1; the only matching field is the last one; connectives of 2 to 3000 operands";
            for n in sizes {
                for (op, f) in [("==", (|a, b| a == b) as fn(usize, usize) -> bool), ("!=", |a, b| a != b), (">=", |a, b| a >= b), (">", |a, b| a > b), ("<=", |a, b| a <= b), ("<", |a, b| a < b)] {
                    chk!(format!("{n} fields {op}"), {
                        let b = wide("1", n);
                        for k in [0, 1, n % 256, n % 65536, n - 1, n, n + 1, n + 256, n + 65536] {
                            let t = format!("#012A/* {op} {k}");
                            is(&t, on(&b, &t)?, f(n, k))?;
                            let t = format!("#012A/*{{x == 'y'}} {op} {k}");
                            is(&t, on(&b, &t)?, f(n, k))?;
                        }
                        Ok(())
                    });
                }
                chk!(format!("quantifiers over {n} fields"), {
                    let b = wide("1", n);
                    for (t, w) in [
                        (format!("012A/*.a == '{}'", n - 1), true),
                        (format!("012A/*.a == '{n}'"), false),
                        (format!("ALL 012A/*.a != '{}'", n - 1), false),
                        (format!("ALL 012A/*.a != '{n}'"), true),
                        (format!("012A/*{{a == '{}' && x == 'y'}}", n - 1), true),
                    ] {
                        is(&t, on(&b, &t)?, w)?;
                    }
                    Ok(())
                });
            }
            for n in counts.iter().copied().chain([3000]) {
                chk!(format!("{n} operands"), {
                    let b = wide("1", 3);
                    for hit in [0, 1, n / 2, n - 1, n] {
                        let l = |o: &str, a: &str, z: &str| (0..n).map(|i| if i == hit { a } else { z }).collect::<Vec<_>>().join(o);
                        is("or", on(&b, &l(" || ", "003@?", "004@?"))?, hit < n)?;
                        is("and", on(&b, &l(" && ", "004@?", "003@?"))?, hit == n)?;
                        is("xor", on(&b, &l(" ^ ", "003@?", "004@?"))?, hit < n)?;
                        is("xor", on(&b, &l(" XOR ", "004@?", "003@?"))?, (n - usize::from(hit < n)) % 2 == 1)?;
                        is("subfield or", on(&b, &format!("012A{{{}}}", l(" || ", "a?", "b?")))?, hit < n)?;
                        is("subfield and", on(&b, &format!("012A{{{}}}", l(" && ", "b?", "a?")))?, hit == n)?;
                        is("subfield xor", on(&b, &format!("012A{{{}}}", l(" ^ ", "b?", "a?")))?, (n - usize::from(hit < n)) % 2 == 1)?;
                    }
                    Ok(())
                });
            }
        }
        "C08" => {
            what = "builders with 2 to 1000 steps of each kind";
            for n in counts.iter().copied().chain([1000]) {
                for kind in 0..3usize {
                    chk!(format!("{n} steps, kind {kind}"), {
                        let b = wide("1", 3);
                        let rec = RecordRef::from_bytes(&b).map_err(|_| "rejected")?;
                        for hit in [0, n / 2, n - 1, n] {
                            let l = |a: &str, z: &str| (0..n).map(|i| if i == hit { a } else { z }.to_string()).collect::<Vec<String>>();
                            let new = |s: &str| RecordMatcherBuilder::<String>::new(s.into()).map_err(|e| e.to_string());
                            let (m, want) = match kind {
                                0 => (new("004@?")?.or(l("003@?", "004@?")), hit < n),
                                1 => (new("003@?")?.and(l("004@?", "003@?")), hit == n),
                                _ => (new("003@?")?.not(l("003@?", "004@?")), hit == n),
                            };
                            let m = m.map_err(|e| e.to_string())?.build();
                            is("builder", m.is_match(&rec, &MatcherOptions::default()), want)?;
                            let m = RecordMatcher::new(&m.to_string()).map_err(|e| format!("text form: {e}"))?;
                            is("text form", m.is_match(&rec, &MatcherOptions::default()), want)?;
                        }
                        Ok(())
                    });
                }
            }
        }
        "C11" => {
            what = "paths on records with 2 to 65537 fields or subfields; paths with 2 to 62 codes in four spellings";
            for n in 2..=62usize {
                chk!(format!("{n} codes"), {
                    let subs: Vec<String> = (0..n).map(|i| format!("{}{i}", code(i))).collect();
                    let fl = crate::rec::f("012A", &subs.iter().map(|s| &s[..]).collect::<Vec<_>>());
                    let b = crate::rec::ser(&vec![crate::rec::f("003@", &["01"]), fl]);
                    let rec = RecordRef::from_bytes(&b).map_err(|_| "rejected")?;
                    let cs: Vec<char> = (0..n).map(code).collect();
                    let j = |s: &str| cs.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(s);
                    let texts = [format!("012A{{{}}}", j(", ")), format!("012A{{({})}}", j(", ")), format!("012A{{[{}]}}", j("")), format!("012A.[{}]", j("")), format!("012A${}", j("")), format!("012A{{[{}], {}}}", &j("")[..n - 1], cs[n - 1])];
                    for t in texts {
                        let Ok(p) = Path::new(&t) else {
                            // not every spelling is part of the language
                            if t.contains('(') || t.contains('$') {
                                continue;
                            }
                            return Err(format!("{t} is rejected"));
                        };
                        let got: Vec<String> = rec.path(&p, &Default::default()).map(|v| v.to_string()).collect();
                        is(&t, got, (0..n).map(|i| i.to_string()).collect())?;
                        // only one of the codes occurs
                        for hit in 0..n {
                            let b = crate::rec::ser(&vec![crate::rec::f("012A", &["_x", &subs[hit], "_y"][1..2])]);
                            let rec = RecordRef::from_bytes(&b).map_err(|_| "rejected")?;
                            let got: Vec<String> = rec.path(&p, &Default::default()).map(|v| v.to_string()).collect();
                            is(&t, got, vec![hit.to_string()])?;
                            is(&t, rec.first(&p, &Default::default()).map(|v| v.to_string()), Some(hit.to_string()))?;
                        }
                    }
                    Ok(())
                });
            }
            for n in some {
                chk!(format!("{n} fields"), {
                    for (b, t) in [(wide("1", n), "012A/*.a"), (deep("1", n), "012A.a")] {
                        let rec = RecordRef::from_bytes(&b).map_err(|_| "rejected")?;
                        let p = Path::new(t).map_err(|e| e.to_string())?;
                        let got: Vec<String> = rec.path(&p, &Default::default()).map(|v| v.to_string()).collect();
                        is("the number of values", got.len(), n)?;
                        is("the values", got.iter().enumerate().all(|(i, v)| *v == i.to_string()), true)?;
                        is("first", rec.first(&p, &Default::default()).map(|v| v.to_string()), Some("0".into()))?;
                        let p = Path::new(&format!("012A/*{{x | a == '{}'}}", n - 1)).map_err(|e| e.to_string())?;
                        is("the values of the last field", rec.path(&p, &Default::default()).count(), usize::from(t.contains('*')))?;
                    }
                    Ok(())
                });
            }
        }
        "C12" => {
            what = "queries on records with 2 to 65537 fields or subfields; products of up to 300 x 300 rows; 2 to 300 columns, literals and fragments";
            for n in counts.clone() {
                chk!(format!("{n} columns"), {
                    let m = n.min(62);
                    let subs: Vec<String> = (0..m).map(|i| format!("{}{i}", code(i))).collect();
                    let refs: Vec<&str> = subs.iter().map(|s| &s[..]).collect();
                    let fl = crate::rec::f("012A", &refs);
                    let tail = crate::rec::f("012A/01", &refs[m - 1..]);
                    let b = crate::rec::ser(&vec![crate::rec::f("003@", &["0p"]), fl.clone(), tail]);
                    let rec = RecordRef::from_bytes(&b).map_err(|_| "rejected")?;
                    let run = |t: &str, o: QueryOptions| -> Result<Vec<Vec<String>>, String> {
                        let q = Query::new(t).map_err(|e| format!("{t}: {e}"))?;
                        Ok(rec.query(&q, &o).into_inner().into_iter().map(|r| r.iter().map(|c| c.to_string()).collect()).collect())
                    };
                    let cs: Vec<String> = (0..m).map(|i| code(i).to_string()).collect();
                    // one path with the codes: a row per field
                    let full: Vec<String> = (0..m).map(|i| i.to_string()).collect();
                    let mut last = vec![String::new(); m];
                    last[m - 1] = (m - 1).to_string();
                    for o in [QueryOptions::new(), QueryOptions::new().squash(true).separator("|")] {
                        let t = format!("012A/*{{{}}}", cs.join(", "));
                        is(&t, run(&t, o)?, vec![full.clone(), last.clone()])?;
                    }
                    // a fragment per column
                    let t = (0..n).map(|i| format!("012A.{}", cs[i % m])).collect::<Vec<_>>().join(", ");
                    is(&t, run(&t, QueryOptions::new())?, vec![(0..n).map(|i| (i % m).to_string()).collect()])?;
                    // only the last column has a value
                    let t = (0..n).map(|i| if i + 1 < n { "099Z.a".to_string() } else { "003@.0".into() }).collect::<Vec<_>>().join(", ");
                    let mut w = vec![String::new(); n];
                    w[n - 1] = "p".into();
                    is(&t, run(&t, QueryOptions::new())?, vec![w])?;
                    // literals
                    let t = (0..n).map(|i| format!("'l{i}'")).chain(["003@.0".to_string()]).collect::<Vec<_>>().join(", ");
                    is(&t, run(&t, QueryOptions::new())?, vec![(0..n).map(|i| format!("l{i}")).chain(["p".to_string()]).collect()])
                });
            }
            for n in some {
                chk!(format!("{n} rows"), {
                    for (b, t) in [(wide("1", n), "012A/*.a"), (deep("1", n), "012A.a")] {
                        let rec = RecordRef::from_bytes(&b).map_err(|_| "rejected")?;
                        let q = Query::new(&format!("003@.0, {t}")).map_err(|e| e.to_string())?;
                        let got = rec.query(&q, &QueryOptions::new()).into_inner();
                        is("rows", got.len(), n)?;
                        is("cells", got.iter().enumerate().all(|(i, r)| r.len() == 2 && r[0] == "1" && r[1] == i.to_string()), true)?;
                        for o in [QueryOptions::new().merge(true), QueryOptions::new().squash(true)] {
                            let got = rec.query(&q, &o.separator("|")).into_inner();
                            let joined = (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join("|");
                            if got.len() == 1 {
                                is("joined cell", got[0][1] == joined, true)?;
                            } else {
                                is("rows", got.len(), n)?;
                            }
                        }
                    }
                    Ok(())
                });
            }
            for n in counts {
                chk!(format!("{n} x {n} rows"), {
                    let b = wide("1", n);
                    let rec = RecordRef::from_bytes(&b).map_err(|_| "rejected")?;
                    let q = Query::new("012A/*.a, 012A/*.a").map_err(|e| e.to_string())?;
                    let got = rec.query(&q, &QueryOptions::new()).into_inner();
                    is("rows", got.len(), n * n)?;
                    is("cells", got.iter().enumerate().all(|(i, r)| r[0] == (i / n).to_string() && r[1] == (i % n).to_string()), true)?;
                    let q = Query::new(&vec!["003@.0"; n].join(", ")).map_err(|e| e.to_string())?;
                    let got = rec.query(&q, &QueryOptions::new()).into_inner();
                    is("columns", got.len() == 1 && got[0].len() == n && got[0].iter().all(|c| c == "1"), true)
                });
            }
        }
        "C13" => {
            what = "formats on records with 2 to 65537 fields or subfields; bounds at the size +-1; 2 to 300 terms";
            for n in counts {
                chk!(format!("{n} terms"), {
                    let m = n.min(62);
                    let subs: Vec<String> = (0..m).map(|i| format!("{}<{i}>", code(i))).collect();
                    let b = crate::rec::ser(&vec![crate::rec::f("012A", &subs.iter().map(|s| &s[..]).collect::<Vec<_>>())]);
                    let rec = RecordRef::from_bytes(&b).map_err(|_| "rejected")?;
                    let run = |t: &str| -> Result<Vec<String>, String> {
                        let f = Format::new(t).map_err(|e| format!("{t}: {e}"))?;
                        Ok(rec.format(&f, &Default::default()).map(|v| v.to_string()).collect())
                    };
                    let all: String = (0..n).map(|i| format!("<{}>", i % m)).collect();
                    let t = format!("012A{{{}}}", (0..n).map(|i| code(i % m).to_string()).collect::<Vec<_>>().join(" <$> "));
                    is(&t, run(&t)?, vec![all.clone()])?;
                    // a missing term at the front, in the middle, at the end
                    for (hole, op) in [(0, " <*> "), (n / 2, " <*> "), (n - 1, " <*> ")] {
                        let t = format!("012A{{{}}}", (0..n).map(|i| if i == hole { "_".replace('_', if m < 62 { "9" } else { "a" }) } else { code(i % m).to_string() }).collect::<Vec<_>>().join(op));
                        if m == 62 {
                            continue;
                        }
                        let w: String = (0..n).filter(|i| *i != hole).map(|i| format!("<{i}>")).collect();
                        is(&t, run(&t)?, vec![w])?;
                    }
                    // the first value with one of the codes
                    let t = format!("012A{{[{}]}}", (0..m).map(code).collect::<String>());
                    is(&t, run(&t)?, vec!["<0>".to_string()])?;
                    let b = crate::rec::ser(&vec![crate::rec::f("012A", &[&subs[m - 1][..]])]);
                    let last = RecordRef::from_bytes(&b).map_err(|_| "rejected")?;
                    let f = Format::new(&t).map_err(|e| format!("{t}: {e}"))?;
                    is(&t, last.format(&f, &Default::default()).map(|v| v.to_string()).collect::<Vec<_>>(), vec![format!("<{}>", m - 1)])?;
                    let t = format!("012A{{{}}}", (0..n).map(|i| code(i % m).to_string()).collect::<Vec<_>>().join(" <*> "));
                    is(&t, run(&t)?, vec![all])
                });
            }
            for n in some {
                chk!(format!("{n}"), {
                    let b = wide("1", n);
                    let rec = RecordRef::from_bytes(&b).map_err(|_| "rejected")?;
                    let f = Format::new("012A/*{a <$> x}").map_err(|e| e.to_string())?;
                    let got: Vec<String> = rec.format(&f, &Default::default()).map(|v| v.to_string()).collect();
                    is("texts", got.len() == n && got.iter().enumerate().all(|(i, t)| *t == format!("{i}y")), true)?;
                    let b = deep("1", n);
                    let rec = RecordRef::from_bytes(&b).map_err(|_| "rejected")?;
                    for k in [1, 2, n % 256, n % 65536, n - 1, n, n + 1, n + 256, usize::MAX] {
                        if k == 0 {
                            continue;
                        }
                        let t = if k == usize::MAX { "012A{a..}".into() } else { format!("012A{{a..{k}}}") };
                        let f = Format::new(&t).map_err(|e| format!("{t}: {e}"))?;
                        let got: Vec<String> = rec.format(&f, &Default::default()).map(|v| v.to_string()).collect();
                        let want: String = (0..n.min(k)).map(|i| i.to_string()).collect();
                        is(&format!("{t} has {} bytes instead of {}", got.concat().len(), want.len()), got.concat() == want, true)?;
                    }
                    Ok(())
                });
            }
        }
        _ => unreachable!(),
    }
    cx.space("long", what, v.len() as u64, |i, st| {
        let (n, f) = &v[i as usize];
        st.state();
        st.step();
        st.trace();
        st.outcome(n);
        st.sample(|| json!({"case": n}));
        if let Err(e) = f() {
            let e: String = e.chars().take(600).collect();
            st.fail(format!("{n}: {e}"), json!({"case": n, "input": "see harness/src/long.rs", "difference": e}));
        }
    });
}
