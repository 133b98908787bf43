//! C32: the result of a command is a function of its options and of the
//! lines of its inputs: neither the way the lines are stored nor the
//! random seeds of the process nor its environment matter.
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

use crate::c02::gzip;
use crate::cli::{Cli, Job, Line, Out, bad, cat, job, line};
use crate::cx::{Cx, Radix, St, seqs};
use crate::rec::f;

/// The arguments before the inputs.
const ARGS: &[&[&str]] = &[
    &["concat"],
    &["concat", "-u"],
    &["concat", "-u", "--unique-strategy", "hash", "-o", "o.dat"],
    &["concat", "--tee", "t.dat.gz", "-o", "o.dat"],
    &["convert", "-t", "binary"],
    &["convert", "-t", "import"],
    &["convert", "-t", "json"],
    &["convert", "-t", "plain"],
    &["convert", "-t", "plus"],
    &["convert", "-t", "xml"],
    &["convert", "-f", "plus", "-t", "json", "-o", "o.json"],
    &["count"],
    &["count", "--csv", "-o", "o.csv"],
    &["count", "--tsv", "--no-header"],
    &["count", "-r", "-l", "2"],
    &["count", "--fields", "--where", "012A.a?"],
    &["count", "--subfields"],
    &["describe"],
    &["describe", "--csv", "-o", "o.csv"],
    &["describe", "-o", "o.ipc"],
    &["describe", "-l", "1"],
    &["explode", "main"],
    &["explode", "local", "-k", "003@, 101@"],
    &["explode", "copy", "-d", "012A", "-o", "o.dat"],
    &["explode", "copy", "-l", "1"],
    &["filter", "012A/*.a?"],
    &["filter", "-v", "012A.a == 'x'", "-o", "o.dat"],
    &["filter", "-l", "2", "003@? || 012A?"],
    &["filter", "-k", "012A/*", "--tee", "t.dat", "012A?"],
    &["filter", "-d", "003@", "-g", "012A?"],
    &["filter", "-A", "list.csv", "003@?"],
    &["filter", "-D", "list.csv", "003@?", "-o", "o.dat.gz"],
    &["filter", "-F", "expr.txt"],
    &["frequency", "012A/*.a"],
    &["frequency", "003@.0, 012A/*.a", "--header", "a,b,n"],
    &["frequency", "--reverse", "012A/*{(a, b)}"],
    &["frequency", "--threshold", "2", "--tsv", "012A/*.a"],
    &["frequency", "-n", "1", "012A/*.a", "-o", "o.csv"],
    &["frequency", "--unique", "--squash", "012A/*.a"],
    &["frequency", "-l", "2", "--merge", "012A/*.a"],
    &["hash"],
    &["hash", "--tsv", "-o", "o.tsv"],
    &["hash", "-l", "2"],
    &["invalid"],
    &["invalid", "-o", "o.dat"],
    &["partition", "-t", "{}.dat", "012A/*.a"],
    &["partition", "-g", "-o", "out", "003@.0"],
    &["partition", "-t", "{}.x", "-l", "2", "003@.0"],
    &["print"],
    &["print", "-o", "o.txt", "--translit", "nfd"],
    &["print", "-l", "1"],
    &["sample", "--seed", "1", "2"],
    &["sample", "--seed", "2", "-l", "2", "1"],
    &["sample", "--seed", "3", "-o", "o.dat.gz", "3"],
    &["select", "003@.0, 012A/*.a"],
    &["select", "-u", "012A/*.a"],
    &["select", "--tsv", "-H", "a, b", "003@.0, 012A/*.a", "-o", "o.tsv"],
    &["select", "--no-empty-columns", "--squash", "012A/*.a, 013H.a"],
    &["select", "-l", "2", "--merge", "--translit", "nfc", "012A/*.a"],
    &["slice"],
    &["slice", "--start", "1"],
    &["slice", "--end", "2", "-o", "o.dat"],
    &["slice", "--start", "1", "--length", "1"],
    &["slice", "-l", "2"],
    &["split", "1"],
    &["split", "2", "-g"],
    &["split", "-o", "out", "-l", "2", "1"],
    &["check", "-R", "rules.toml"],
    &["check", "-R", "rules.toml", "-o", "o.csv"],
    &["check", "-R", "rules.toml", "-o", "o.txt"],
    &["check", "-R", "rules.toml", "-R", "fast.toml", "-o", "o.tsv"],
    &["check", "-R", "fast.toml", "-l", "2"],
];

const RULES: &str = r#"
[rule.Al]
check = "allow"
path = "012A/*.a"
list = { filename = "list.csv", column = "ppn" }
[rule.Dt]
check = "datetime"
path = "012A/*.a"
[rule.Du]
check = "duplicates"
query = "012A/*.a"
[rule.Fi]
check = "filter"
filter = "012A?"
level = "info"
[rule.Is]
check = "isni"
path = "012A.b"
[rule.La]
check = "iso639-2b"
path = "012A.a"
[rule.Je]
check = "jelc"
path = "012A.a"
[rule.Li]
check = "link"
source.path = "065R.9"
target.path = "003@.0"
[rule.Lj]
check = "link"
source.path = "003@.0"
target.path = "065R.9"
[rule.Un]
check = "unicode"
level = "warning"
"#;
const FAST: &str = r#"
scope = "012A?"
termination = "fast"
[rule.X]
check = "filter"
filter = "012A.a == 'x'"
[rule.Y]
check = "unicode"
[rule.Z]
check = "duplicates"
query = "012A/*.a"
"#;
const LIST: &str = "ppn,x\n1,1\n2,1\nx,1\n";

/// Can be given a progress bar.
fn bar(c: usize) -> bool {
    ARGS[c].contains(&"-o") || ARGS[c][0] == "split" || ARGS[c][0] == "partition"
}

/// A command on inputs (file arguments, files, standard input).
fn mk<'a>(c: usize, skip: bool, inputs: &[String], files: &'a [(String, Vec<u8>)], stdin: Option<&'a [u8]>) -> Job<'a> {
    let mut a: Vec<String> = ARGS[c].iter().map(|s| s.to_string()).collect();
    if skip && a[0] != "invalid" {
        a.insert(1, "-s".into());
    }
    a.extend(inputs.iter().cloned());
    let mut j = job(&a).file("list.csv", LIST.as_bytes()).file("rules.toml", RULES.as_bytes()).file("fast.toml", FAST.as_bytes()).file("expr.txt", b"012A/*.a?\n");
    for (n, b) in files {
        j = j.file(n, b);
    }
    if let Some(b) = stdin {
        j = j.stdin(b);
    }
    j
}
type Eff = (i32, Vec<u8>, BTreeMap<String, Vec<u8>>);
fn eff(o: &Out) -> Eff {
    (o.code, o.out.clone(), o.files.clone())
}

/// The runs on one plain file.
struct Memo(Mutex<HashMap<(usize, bool, Vec<u8>), Eff>>);
impl Memo {
    fn get(&self, cli: &Cli, c: usize, skip: bool, data: &[u8]) -> Eff {
        let k = (c, skip, data.to_vec());
        if let Some(e) = self.0.lock().unwrap().get(&k) {
            return e.clone();
        }
        let files = [("in.dat".to_string(), data.to_vec())];
        let e = eff(&cli.run(&mk(c, skip, &["in.dat".into()], &files, None)));
        self.0.lock().unwrap().insert(k, e.clone());
        e
    }
}
fn compare(st: &mut St, want: &Eff, j: &Job, o: &Out, what: &str) {
    st.trace();
    st.outcome(&eff(o));
    let got = eff(o);
    // what is written before a failure is not determined
    let ok = if want.0 == 0 { got == *want && o.clean() } else { got.0 == want.0 && o.clean() && !o.err.is_empty() };
    if !ok && !st.failed() {
        let mut d = String::new();
        if got.0 != want.0 {
            d = format!("status {} instead of {}", got.0, want.0);
        } else if got.1 != want.1 {
            d = format!("standard output '{}' instead of '{}'", crate::cx::esc(&got.1), crate::cx::esc(&want.1));
        } else {
            for n in want.2.keys().chain(got.2.keys()) {
                let (a, b) = (want.2.get(n), got.2.get(n));
                if a != b {
                    let s = |x: Option<&Vec<u8>>| x.map_or("(missing)".into(), |b| crate::cx::esc(b));
                    d = format!("file {n} is '{}' instead of '{}'", s(b), s(a));
                    break;
                }
            }
        }
        let cut: String = d.chars().take(1500).collect();
        st.fail(format!("{what}: {}: {cut}; stderr '{}'", j.line(), crate::cx::esc(&o.err)), j.replay());
    }
}

fn alphabet() -> Vec<Line> {
    vec![
        line("p1", &[f("003@", &["01"]), f("012A", &["ax"]), f("065R", &["92"]), f("101@", &["a1"]), f("203@/01", &["0e1"]), f("203@/02", &["0e2"])]),
        line("p2", &[f("003@", &["02"]), f("012A", &["ay", "bz"]), f("012A/01", &["ax", "ax"]), f("101@", &["a1"]), f("201@/01", &["x"]), f("101@", &["a2"]), f("203@/01", &["0e3"])]),
        line("none", &[f("012A", &["ax", "by"]), f("065R", &["99"])]),
        bad("bad", b"012a \x1fax\x1e\n"),
        line("p3", &[f("003@", &["03"]), f("012A", &["aa\u{308}", "ax"]), f("013H", &["a"])]),
    ]
}

/// How a part of the stream is given.
const KINDS: [&str; 7] = ["plain file", "gzip", "gzip with a member per line", "standard input", "after an empty file", "file without extension in a directory", "gzip of a header with a name"];
struct Given {
    inputs: Vec<String>,
    files: Vec<(String, Vec<u8>)>,
    stdin: Option<Vec<u8>>,
}
fn give(parts: &[(usize, Vec<&Line>)]) -> Option<Given> {
    let mut g = Given { inputs: vec![], files: vec![], stdin: None };
    for (k, (kind, lines)) in parts.iter().enumerate() {
        let data = cat(lines.iter().copied());
        let mut add = |n: String, b: Vec<u8>| {
            g.inputs.push(n.clone());
            g.files.push((n, b));
        };
        match kind {
            0 => add(format!("p{k}.dat"), data),
            1 => add(format!("p{k}.dat.gz"), gzip(&data)),
            2 => {
                let mut b = gzip(b"");
                for l in lines {
                    b.extend(gzip(&l.bytes));
                }
                b.extend(gzip(b""));
                add(format!("p{k}.gz"), b)
            }
            3 => {
                if g.stdin.is_some() {
                    return None;
                }
                g.inputs.push("-".into());
                g.stdin = Some(data);
            }
            4 => {
                add(format!("e{k}.dat"), vec![]);
                add(format!("p{k}.dat"), data)
            }
            5 => add(format!("sub dir/p{k}"), data),
            _ => {
                use std::io::Write;
                let mut e = flate2::GzBuilder::new().filename("x.dat").comment("c").mtime(7).write(vec![], flate2::Compression::none());
                e.write_all(&data).unwrap();
                add(format!("p{k}.pp.gz"), e.finish().unwrap())
            }
        }
    }
    Some(g)
}
/// The cuts of a sequence of `n` lines: the ends of its parts.
fn cuts(n: usize) -> Vec<Vec<usize>> {
    (0..1usize << (n - 1)).map(|m| (1..n).filter(|i| m >> (i - 1) & 1 == 1).chain([n]).collect()).collect()
}
fn split<'a>(l: &[&'a Line], ends: &[usize]) -> Vec<Vec<&'a Line>> {
    let mut a = 0;
    ends.iter()
        .map(|&e| {
            let p = l[a..e].to_vec();
            a = e;
            p
        })
        .collect()
}

pub fn run(cx: &Cx) {
    let cli = Cli::new("c32");
    let memo = Memo(Mutex::new(HashMap::new()));
    let al = alphabet();
    let n = ARGS.len();
    cx.assume("sample is given a seed; the output of a failing command is not determined");

    // the commands of the table work
    cx.space("every command of the table succeeds", &format!("{n} commands"), n as u64, |i, st| {
        let d = cat([&al[0], &al[1], &al[2], &al[4]]);
        let files = [("in.dat".to_string(), d)];
        let j = mk(i as usize, false, &["in.dat".into()], &files, None);
        st.state();
        let o = cli.run(&j);
        st.trace();
        st.outcome(&eff(&o));
        st.sample(|| serde_json::json!({"command": j.line(), "result": o.show().chars().take(300).collect::<String>()}));
        if !o.ok() {
            st.fail(format!("{}: {}", j.line(), o.show()), j.replay());
        }
    });

    // every distribution of every stream
    let len = cx.pick(3, 4);
    let ss = seqs(al.len(), 2, len);
    let cs: Vec<_> = (0..=len).map(|l| if l == 0 { vec![] } else { cuts(l) }).collect();
    let items: Vec<(usize, usize)> = ss.iter().enumerate().flat_map(|(s, v)| (1..cs[v.len()].len()).map(move |c| (s, c))).collect();
    cx.space(
        "streams x distributions over plain files",
        &format!("{n} commands, all streams of 2 to {len} lines of {} (one invalid, with --skip-invalid), all distributions over two and more files", al.len()),
        (n * items.len()) as u64,
        |i, st| {
            let mut r = Radix(i);
            let c = r.take(n);
            let (s, k) = items[r.take(items.len())];
            let lines: Vec<&Line> = ss[s].iter().map(|&x| &al[x]).collect();
            let skip = lines.iter().any(|l| l.rec.is_none());
            st.state();
            let want = memo.get(&cli, c, skip, &cat(lines.iter().copied()));
            let parts: Vec<_> = split(&lines, &cs[lines.len()][k]).into_iter().map(|p| (0, p)).collect();
            st.step();
            let g = give(&parts).unwrap();
            let j = mk(c, skip, &g.inputs, &g.files, g.stdin.as_deref());
            compare(st, &want, &j, &cli.run(&j), "distribution over files");
        },
    );

    // every kind of every part
    let streams: Vec<Vec<usize>> = if cx.pick(true, false) { vec![vec![0, 1, 0], vec![1, 3, 4], vec![2, 4, 2]] } else { vec![vec![0, 1, 0], vec![1, 3, 4], vec![2, 4, 2], vec![3, 0, 0], vec![4, 2, 1], vec![1, 1, 3]] };
    let mut ways: Vec<(usize, Vec<usize>)> = vec![];
    for (k, c) in cuts(3).iter().enumerate() {
        for t in seqs(KINDS.len(), c.len(), c.len()) {
            if t.iter().filter(|x| **x == 3).count() < 2 && (c.len() < 3 || cx.pick(t.iter().collect::<std::collections::HashSet<_>>().len() == 3 && t.contains(&3), true)) {
                ways.push((k, t));
            }
        }
    }
    let c3 = cuts(3);
    cx.space(
        "streams x distributions x kinds of inputs",
        &format!("{n} commands, {} streams of 3 lines, {} combinations of a distribution and of {:?} for each part, and no input argument at all", streams.len(), ways.len(), KINDS),
        (n * streams.len() * (ways.len() + 1)) as u64,
        |i, st| {
            let mut r = Radix(i);
            let c = r.take(n);
            let s = r.of(&streams);
            let w = r.take(ways.len() + 1);
            let lines: Vec<&Line> = s.iter().map(|&x| &al[x]).collect();
            let skip = lines.iter().any(|l| l.rec.is_none());
            st.state();
            let data = cat(lines.iter().copied());
            let want = memo.get(&cli, c, skip, &data);
            st.step();
            if w == ways.len() {
                let j = mk(c, skip, &[], &[], Some(&data));
                compare(st, &want, &j, &cli.run(&j), "standard input without an argument");
                return;
            }
            let (k, t) = &ways[w];
            let parts: Vec<_> = t.iter().copied().zip(split(&lines, &c3[*k])).collect();
            let g = give(&parts).unwrap();
            let j = mk(c, skip, &g.inputs, &g.files, g.stdin.as_deref());
            compare(st, &want, &j, &cli.run(&j), "kinds of inputs");
        },
    );

    // an invalid line is an error in every kind of input
    let ways1: Vec<(usize, Vec<usize>)> = ways.iter().filter(|w| w.1.len() < 3).cloned().collect();
    cx.space(
        "errors",
        &format!("{n} commands without --skip-invalid, streams with an invalid line at every position, {} combinations", ways1.len()),
        (n * 3 * ways1.len()) as u64,
        |i, st| {
            let mut r = Radix(i);
            let c = r.take(n);
            let p = r.take(3);
            let (k, t) = r.of(&ways1);
            let mut lines = vec![&al[0], &al[1], &al[4]];
            lines[p] = &al[3];
            st.state();
            let want = memo.get(&cli, c, false, &cat(lines.iter().copied()));
            st.step();
            let parts: Vec<_> = t.iter().copied().zip(split(&lines, &c3[*k])).collect();
            let g = give(&parts).unwrap();
            let j = mk(c, false, &g.inputs, &g.files, g.stdin.as_deref());
            compare(st, &want, &j, &cli.run(&j), "kinds of inputs");
        },
    );

    // the same file several times
    cx.space("repeated inputs", &format!("{n} commands, all sequences of 2 and 3 mentions of two files"), (n * 12) as u64, |i, st| {
        let mut r = Radix(i);
        let c = r.take(n);
        let w = &seqs(2, 2, 3)[r.take(12)];
        let parts = [vec![&al[0], &al[1]], vec![&al[4]]];
        let names = ["a.dat", "b.dat.gz"];
        let files = vec![(names[0].to_string(), cat(parts[0].iter().copied())), (names[1].to_string(), gzip(&cat(parts[1].iter().copied())))];
        let lines: Vec<&Line> = w.iter().flat_map(|&k| parts[k].clone()).collect();
        st.state();
        let want = memo.get(&cli, c, false, &cat(lines.iter().copied()));
        st.step();
        let j = mk(c, false, &w.iter().map(|&k| names[k].to_string()).collect::<Vec<_>>(), &files, None);
        compare(st, &want, &j, &cli.run(&j), "repeated inputs");
    });

    // names of files
    const NAMES: &[&str] = &["a b.dat", "\u{e4}.dat", "a\u{308}", "x.gz.dat", "x.dat.", "*.dat", "{}", "a,b", "012A", "003@.0", "./-x", "..x", "a.csv", "a.txt", "a.GZ", "main", "2", "x.gzip", "\"q\".dat", "a\nb"];
    cx.space("names of files", &format!("{n} commands, {} names", NAMES.len()), (n * NAMES.len()) as u64, |i, st| {
        let mut r = Radix(i);
        let c = r.take(n);
        let name = *r.of(NAMES);
        let lines = [&al[0], &al[1], &al[4]];
        let d = cat(lines);
        st.state();
        let want = memo.get(&cli, c, false, &d);
        st.step();
        let files = vec![(name.to_string(), d)];
        let j = mk(c, false, &[name.to_string()], &files, None);
        let mut o = cli.run(&j);
        if o.files.get(name.trim_start_matches("./")).is_some_and(|b| *b == files[0].1) {
            o.files.remove(name.trim_start_matches("./"));
        }
        compare(st, &want, &j, &o, "name of the input");
    });

    // random seeds
    let seeds = cx.pick(12u64, 100);
    let many: Vec<Line> = (0..40).map(|k| line("", &[f("003@", &[&format!("0{k}")]), f("012A", &[&format!("a{}", k % 13), &format!("b{}", k % 7)]), f("065R", &[&format!("9{}", k * 7)]), f(&format!("0{}0A", k % 10), &["x", "y"])])).collect();
    let inputs = [cat([&al[0], &al[1], &al[2], &al[4]]), cat(many.iter())];
    cx.space("random seeds", &format!("{n} commands, 2 streams, {seeds} seeds of the process (what getrandom returns: the order of hash tables)"), n as u64 * 2 * seeds, |i, st| {
        let mut r = Radix(i);
        let c = r.take(n);
        let d = r.of(&inputs);
        let s = r.take(seeds as usize) as u64;
        st.state();
        let want = memo.get(&cli, c, false, d);
        st.step();
        let files = vec![("in.dat".to_string(), d.clone())];
        let j = mk(c, false, &["in.dat".into()], &files, None).seed(s);
        let o = cli.run(&j);
        compare(st, &want, &j, &o, "random seed");
        // the injection works
        if ARGS[c][0] == "frequency" && !o.hit && !st.failed() {
            st.fail("getrandom was not called", j.replay());
        }
    });

    // environment variables
    const ENV: &[(&str, &str)] = &[
        ("LC_ALL", "C"), ("LC_ALL", "de_DE.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("LC_ALL", ""), ("LANG", "de_DE"), ("TZ", "Pacific/Auckland"),
        ("TZ", ""), ("HOME", ""), ("HOME", "/nonexistent"), ("PATH", ""), ("RUST_BACKTRACE", "1"), ("NO_COLOR", "1"), ("CLICOLOR_FORCE", "1"),
        ("TERM", "dumb"), ("TERM", "xterm-256color"), ("COLUMNS", "20"), ("POLARS_FMT_MAX_ROWS", "100"), ("TMPDIR", "/nonexistent"), ("RAYON_NUM_THREADS", "4"), ("POLARS_MAX_THREADS", "8"),
        ("XDG_CONFIG_HOME", "/nonexistent"), ("LINES", "5"),
    ];
    cx.space("environment", &format!("{n} commands x {} settings of an environment variable", ENV.len()), (n * ENV.len()) as u64, |i, st| {
        let mut r = Radix(i);
        let c = r.take(n);
        let (k, v) = *r.of(ENV);
        // the table on the terminal is made for the terminal
        if ARGS[c] == ["describe"] && (k == "COLUMNS" || k.starts_with("POLARS")) {
            return;
        }
        st.state();
        let want = memo.get(&cli, c, false, &inputs[0]);
        st.step();
        let files = vec![("in.dat".to_string(), inputs[0].clone())];
        let j = mk(c, false, &["in.dat".into()], &files, None).env(k, v);
        compare(st, &want, &j, &cli.run(&j), &format!("{k}={v}"));
    });

    // the progress bar
    let bars: Vec<usize> = (0..n).filter(|c| bar(*c)).collect();
    cx.space("progress bar", &format!("{} commands with and without --progress, 4 streams", bars.len()), (bars.len() * 4) as u64, |i, st| {
        let mut r = Radix(i);
        let c = *r.of(&bars);
        let k = r.take(4);
        let d = [inputs[0].clone(), inputs[1].clone(), cat([&al[0], &al[3], &al[1], &al[3]]), vec![]][k].clone();
        st.state();
        let want = memo.get(&cli, c, k == 2, &d);
        st.step();
        let files = vec![("in.dat".to_string(), d)];
        let mut j = mk(c, k == 2, &["in.dat".into()], &files, None);
        j.args.insert(1, "--progress".into());
        compare(st, &want, &j, &cli.run(&j), "progress");
    });

    // sizes around the buffers
    let sizes: Vec<usize> = [4095usize, 4096, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537].to_vec();
    cx.space(
        "buffer boundaries",
        &format!("{n} commands, a stream whose second line starts at one of {sizes:?}, kinds of inputs, cut before or after that line or not at all"),
        (n * sizes.len() * 9) as u64,
        |i, st| {
            let mut r = Radix(i);
            let c = r.take(n);
            let s = *r.of(&sizes);
            let cut = r.take(3);
            let kind = [0, 2, 3][r.take(3)];
            let base = line("", &[f("003@", &["07"]), f("012A", &["a"])]).bytes.len();
            let long = line("", &[f("003@", &["07"]), f("012A", &[&format!("a{}", "v".repeat(s - base))])]);
            let lines = vec![&long, &al[1], &al[4]];
            st.state();
            let want = memo.get(&cli, c, false, &cat(lines.iter().copied()));
            st.step();
            let ends: &[usize] = [&[3][..], &[1, 3], &[2, 3]][cut];
            let parts: Vec<_> = split(&lines, ends).into_iter().enumerate().map(|(k, p)| (if k == 0 { kind } else { 0 }, p)).collect();
            let g = give(&parts).unwrap();
            let j = mk(c, false, &g.inputs, &g.files, g.stdin.as_deref());
            compare(st, &want, &j, &cli.run(&j), "buffer boundary");
        },
    );
}
