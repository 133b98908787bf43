//! C27: output is complete and failures to write it are reported.
use std::collections::BTreeMap;
use std::sync::Mutex;

use serde_json::json;

use crate::c02::{gunzip, gzip};
use crate::cli::{Cli, Job, Out, To, job, raw};
use crate::cx::{Cx, Radix, esc, seqs};
use crate::rec::{MR, f, ser};

const RULES: &str = "[rule.T1]\ncheck = \"filter\"\nfilter = \"012A.c == '1' || 003@?\"\n";

/// A way to run a command: `@` stands for the output's name.
struct Spec {
    args: &'static [&'static str],
    /// name of the output file; None: standard output only
    out: Option<&'static str>,
    /// takes no input
    bare: bool,
    /// output is the same every time
    rules: bool,
}
const fn s(args: &'static [&'static str], out: Option<&'static str>) -> Spec {
    Spec { args, out, bare: false, rules: false }
}
const fn r(args: &'static [&'static str], out: Option<&'static str>) -> Spec {
    Spec { args, out, bare: false, rules: true }
}
const fn b(args: &'static [&'static str], out: Option<&'static str>) -> Spec {
    Spec { args, out, bare: true, rules: false }
}

const SPECS: &[Spec] = &[
    s(&["concat"], None),
    s(&["concat", "-u"], None),
    s(&["concat", "-o", "@"], Some("o.dat")),
    s(&["concat", "-o", "@"], Some("o.dat.gz")),
    s(&["concat", "--append", "-o", "@"], Some("o.dat")),
    s(&["concat", "--tee", "@"], Some("t.dat")),
    s(&["concat", "--tee", "@"], Some("t.dat.gz")),
    s(&["convert", "-t", "binary"], None),
    s(&["convert", "-t", "import"], None),
    s(&["convert", "-t", "json"], None),
    s(&["convert", "-t", "plain"], None),
    s(&["convert", "-t", "plus"], None),
    s(&["convert", "-t", "xml"], None),
    s(&["convert", "-t", "binary", "-o", "@"], Some("o.x")),
    s(&["convert", "-t", "import", "-o", "@"], Some("o.x")),
    s(&["convert", "-t", "json", "-o", "@"], Some("o.x")),
    s(&["convert", "-t", "plain", "-o", "@"], Some("o.x")),
    s(&["convert", "-t", "plus", "-o", "@"], Some("o.x")),
    s(&["convert", "-t", "plus", "-o", "@"], Some("o.dat.gz")),
    s(&["convert", "-t", "xml", "-o", "@"], Some("o.x")),
    s(&["count"], None),
    s(&["count", "--csv"], None),
    s(&["count", "-o", "@"], Some("o.txt")),
    s(&["count", "--tsv", "--append", "-o", "@"], Some("o.txt")),
    s(&["describe"], None),
    s(&["describe", "--csv", "-o", "@"], Some("o.csv")),
    s(&["describe", "--tsv", "-o", "@"], Some("o.tsv")),
    s(&["describe", "-o", "@"], Some("o.ipc")),
    s(&["explode", "main"], None),
    s(&["explode", "-g", "main"], None),
    s(&["explode", "-o", "@", "main"], Some("o.dat")),
    s(&["explode", "-o", "@", "main"], Some("o.dat.gz")),
    s(&["filter", "003@?"], None),
    s(&["filter", "-g", "003@?"], None),
    s(&["filter", "-o", "@", "003@?"], Some("o.dat")),
    s(&["filter", "-o", "@", "003@?"], Some("o.dat.gz")),
    s(&["filter", "-g", "-o", "@", "003@?"], Some("o.dat")),
    s(&["filter", "--append", "-o", "@", "003@?"], Some("o.dat")),
    s(&["filter", "--append", "-o", "@", "003@?"], Some("o.dat.gz")),
    s(&["filter", "--tee", "@", "003@?"], Some("t.dat")),
    s(&["filter", "--tee", "@", "003@?"], Some("t.dat.gz")),
    s(&["frequency", "012A.a"], None),
    s(&["frequency", "-o", "@", "012A.a"], Some("o.csv")),
    s(&["hash"], None),
    s(&["hash", "-o", "@"], Some("o.csv")),
    s(&["invalid"], None),
    s(&["invalid", "-o", "@"], Some("o.dat")),
    s(&["partition", "-t", "{}.dat", "012A.c"], None),
    s(&["partition", "-g", "-t", "{}.dat", "012A.c"], None),
    s(&["print"], None),
    s(&["print", "-o", "@"], Some("o.txt")),
    s(&["sample", "--seed", "3", "999"], None),
    s(&["sample", "--seed", "3", "-g", "999"], None),
    s(&["sample", "--seed", "3", "-o", "@", "999"], Some("o.dat")),
    s(&["sample", "--seed", "3", "-o", "@", "999"], Some("o.dat.gz")),
    s(&["select", "003@.0, 012A.a"], None),
    s(&["select", "--tsv", "-H", "a,b", "003@.0, 012A.a"], None),
    s(&["select", "-o", "@", "003@.0, 012A.a"], Some("o.csv")),
    s(&["select", "--append", "-o", "@", "003@.0, 012A.a"], Some("o.csv")),
    s(&["slice"], None),
    s(&["slice", "-g"], None),
    s(&["slice", "-o", "@"], Some("o.dat")),
    s(&["slice", "--append", "-o", "@"], Some("o.dat")),
    s(&["slice", "-o", "@"], Some("o.dat.gz")),
    s(&["split", "--template", "{}.dat", "2"], None),
    s(&["split", "--template", "{}.dat.gz", "150"], None),
    s(&["split", "-g", "--template", "{}.dat", "7"], None),
    r(&["check", "-R", "rules.toml"], None),
    r(&["check", "-R", "rules.toml", "-o", "@"], Some("o.csv")),
    r(&["check", "-R", "rules.toml", "-o", "@"], Some("o.tsv")),
    r(&["check", "-R", "rules.toml", "-o", "@"], Some("o.txt")),
    b(&["config", "--get", "skip-invalid"], None),
    b(&["config", "normalization"], None),
    b(&["completions", "bash"], None),
    b(&["completions", "elvish"], None),
    b(&["completions", "fish"], None),
    b(&["completions", "powershell"], None),
    b(&["completions", "zsh"], None),
    b(&["completions", "bash", "-o", "@"], Some("o.sh")),
    b(&["completions", "zsh", "-o", "@"], Some("o.sh")),
];

impl Spec {
    /// The record processing commands have a progress bar.
    fn prog(&self) -> bool {
        !self.bare && self.args.contains(&"-o")
    }
    fn job<'a>(&self, out: Option<&str>, input: &'a [u8], progress: bool) -> Job<'a> {
        let out = out.or(self.out).unwrap_or("");
        let mut a: Vec<String> = self.args.iter().map(|a| if *a == "@" { out.into() } else { a.to_string() }).collect();
        if self.args[0] != "invalid" && !self.bare {
            a.insert(1, "-s".into());
        }
        if progress {
            a.insert(1, "-p".into());
        }
        if !self.bare {
            a.push("in.dat".into());
        }
        let mut j = job(&a);
        if !self.bare {
            j = j.file("in.dat", input);
        }
        if self.rules {
            j = j.file("rules.toml", RULES.as_bytes());
        }
        j
    }
}

fn record(k: usize, pad: usize) -> MR {
    vec![
        f("003@", &[&format!("0{k:04}")]),
        f("012A", &[&format!("a{}{k}", "v".repeat(pad)), &format!("c{}", k % 3)]),
        f("013H/01", &["x", "y\u{e4}"]),
    ]
}
/// n records, each followed by an invalid line.
fn stream(n: usize, pad: usize) -> Vec<u8> {
    let mut v = vec![];
    for k in 0..n {
        v.extend(ser(&record(k, pad)));
        v.extend(format!("bad {k}{}\n", "-".repeat(pad)).bytes());
    }
    v
}

/// The inputs: (name, bytes).
fn inputs() -> Vec<(&'static str, Vec<u8>)> {
    let mut wide: MR = record(0, 0);
    wide[1].subs[0].1 = vec![b'w'; 9000];
    // values that a gzip stream cannot shrink below its buffer
    let mut noise = 12345u32;
    let mut hard = vec![];
    for k in 0..3 {
        let v: Vec<u8> = (0..12000)
            .map(|_| {
                noise = noise.wrapping_mul(1664525).wrapping_add(1013904223);
                b'0' + (noise >> 24) as u8 % 70
            })
            .collect();
        hard.extend(ser(&vec![f("003@", &[&format!("0{k}")]), raw("012A", 'a', &v), f("013A", &["c1"])]));
        hard.extend(b"bad\n");
    }
    let mut w = ser(&wide);
    w.extend([b'-'; 9000]);
    w.push(b'\n');
    w.extend(stream(2, 0));
    vec![("two records", stream(2, 0)), ("200 records", stream(200, 40)), ("long record", w), ("hard to compress", hard)]
}

/// Sizes at which the output is cut off: everything for a short
/// output, the ends and the borders of buffers for a long one.
fn cuts(len: usize, dense: usize, step: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=len + 1)
        .filter(|n| {
            *n <= dense || *n + dense >= len || {
                let m = n % step;
                m <= 1 || m == step - 1
            }
        })
        .collect();
    v.dedup();
    v
}

/// A run in which standard output is a file.
fn to_file(cli: &Cli, j: Job, limit: Option<usize>) -> (Out, Vec<u8>) {
    let p = cli.wd().1.join("stdout");
    std::fs::write(&p, b"").unwrap();
    let mut j = j.to(To::File(p.clone()));
    if let Some(n) = limit {
        j = j.fsize(n as u64);
    }
    let o = cli.run(&j);
    (o, std::fs::read(&p).unwrap())
}

struct Base {
    spec: usize,
    input: usize,
    out: Vec<u8>,
    files: BTreeMap<String, Vec<u8>>,
}
impl Base {
    /// the longest of the outputs
    fn len(&self) -> usize {
        self.files.values().map(|f| f.len()).chain([self.out.len()]).max().unwrap()
    }
}

fn reported(o: &Out) -> bool {
    o.code > 0 && o.clean() && !o.err.is_empty()
}

/// Writers that can append: (name, options, output option).
#[derive(Clone, Copy)]
struct App {
    name: &'static str,
    pre: &'static [&'static str],
    pos: &'static [&'static str],
    out: &'static str,
    append: bool,
    gz: bool,
    g: bool,
}
const APPS: &[App] = &[
    App { name: "concat", pre: &["concat", "-s"], pos: &[], out: "-o", append: true, gz: true, g: false },
    App { name: "concat --tee", pre: &["concat", "-s"], pos: &[], out: "--tee", append: true, gz: true, g: false },
    App { name: "filter", pre: &["filter", "-s"], pos: &["012A?"], out: "-o", append: true, gz: true, g: true },
    App { name: "filter --tee", pre: &["filter", "-s"], pos: &["012A?"], out: "--tee", append: true, gz: true, g: false },
    App { name: "slice", pre: &["slice", "-s"], pos: &[], out: "-o", append: true, gz: true, g: true },
    App { name: "count --csv", pre: &["count", "-s", "--csv"], pos: &[], out: "-o", append: true, gz: false, g: false },
    App { name: "count", pre: &["count", "-s"], pos: &[], out: "-o", append: true, gz: false, g: false },
    App { name: "count --no-header", pre: &["count", "-s", "--tsv", "--no-header"], pos: &[], out: "-o", append: true, gz: false, g: false },
    App { name: "select", pre: &["select", "-s"], pos: &["003@.0,012A.a"], out: "-o", append: true, gz: false, g: false },
    App { name: "select -H", pre: &["select", "-s", "-H", "a,b"], pos: &["003@.0,012A.a"], out: "-o", append: true, gz: false, g: false },
    App { name: "explode", pre: &["explode", "-s"], pos: &["main"], out: "-o", append: false, gz: true, g: true },
    App { name: "sample", pre: &["sample", "-s", "--seed", "1"], pos: &["999"], out: "-o", append: false, gz: true, g: true },
    App { name: "print", pre: &["print", "-s"], pos: &[], out: "-o", append: false, gz: false, g: false },
    App { name: "hash", pre: &["hash", "-s"], pos: &[], out: "-o", append: false, gz: false, g: false },
    App { name: "frequency", pre: &["frequency", "-s"], pos: &["012A.a"], out: "-o", append: false, gz: false, g: false },
    App { name: "invalid", pre: &["invalid"], pos: &[], out: "-o", append: false, gz: false, g: false },
    App { name: "convert json", pre: &["convert", "-s", "-t", "json"], pos: &[], out: "-o", append: false, gz: false, g: false },
    App { name: "convert xml", pre: &["convert", "-s", "-t", "xml"], pos: &[], out: "-o", append: false, gz: false, g: false },
    App { name: "convert plus", pre: &["convert", "-s", "-t", "plus"], pos: &[], out: "-o", append: false, gz: true, g: false },
];

pub fn run(cx: &Cx) {
    cx.assume("the operating system reports write errors; a file size limit stands for a full disk at every byte");
    cx.assume("a closed pipe is no failure (the reader has seen enough)");
    cx.assume("the exact bytes left behind by a failed write are not specified");
    let cli = Cli::new("c27");
    let ins = inputs();

    // ---- histories -------------------------------------------------
    let hin: Vec<Vec<u8>> = vec![vec![], stream(3, 0), stream(1, 0), ins[1].1.clone()];
    let nin = cx.pick(2, 4);
    // what each application writes to a plain standard output
    let expect = Mutex::new(vec![vec![vec![]; hin.len()]; APPS.len()]);
    let cases: Vec<(usize, usize)> = (0..APPS.len()).flat_map(|k| (0..hin.len()).map(move |b| (k, b))).collect();
    cx.space("outputs", &format!("{} writers x {} inputs", APPS.len(), hin.len()), cases.len() as u64, |i, st| {
        let (k, b) = cases[i as usize];
        let mut v: Vec<&str> = APPS[k].pre.to_vec();
        v.extend(APPS[k].pos);
        v.push("in.dat");
        let j = job(&v).file("in.dat", &hin[b]);
        let o = cli.run(&j);
        st.state();
        st.step();
        if !o.ok() {
            st.fail(format!("{} fails", APPS[k].name), json!({"run": j.replay(), "result": o.show()}));
        }
        expect.lock().unwrap()[k][b] = o.out;
    });
    let expect = expect.into_inner().unwrap();
    // initial content: absent, something longer than any output
    let steps = |a: &App| if a.append { 2 } else { 1 } * nin;
    let depth = cx.pick(3, 4);
    let mut hist = vec![];
    for (k, a) in APPS.iter().enumerate() {
        let d = if a.append { depth } else { 2 };
        for h in seqs(steps(a), 1, d) {
            for v in 0..2 * (1 + a.gz as usize + a.g as usize) {
                hist.push((k, h.clone(), v));
            }
        }
    }
    cx.space(
        "histories",
        &format!("{} writers x all histories of up to {depth} runs (append or truncate, {nin} inputs) x plain/.gz/-g x absent or existing file", APPS.len()),
        hist.len() as u64,
        |i, st| {
            let (k, h, v) = &hist[i as usize];
            let (a, old, kind) = (&APPS[*k], v % 2 == 1, v / 2);
            let gz = kind == 1;
            let g = kind == 2;
            // -g and --append exclude each other
            if g && h.iter().any(|x| *x >= nin) {
                return;
            }
            let name = if gz { "o.dat.gz" } else { "o.txt" };
            let mut want: Vec<u8> = vec![];
            let mut content: Vec<u8> = vec![];
            let mut cmds: Vec<String> = vec![];
            if old {
                want = stream(30, 300);
                content = if gz { gzip(&want) } else { want.clone() };
            }
            let wd = cli.wd().0;
            for (n, x) in h.iter().enumerate() {
                let (app, b) = (*x >= nin, x % nin);
                let mut v: Vec<&str> = a.pre.to_vec();
                v.extend([a.out, name]);
                if app {
                    v.push("--append");
                }
                if g {
                    v.push("-g");
                }
                v.extend(a.pos);
                v.push("in.dat");
                let mut j = job(&v).file("in.dat", &hin[b]);
                if n > 0 {
                    j = j.keep();
                } else if old {
                    j = j.file(name, &content);
                }
                let o = cli.run(&j);
                cmds.push(format!("{} < {}", j.line(), b));
                if !app {
                    want.clear();
                }
                want.extend(&expect[*k][b]);
                st.step();
                let raw = std::fs::read(wd.join(name)).unwrap_or_default();
                let got = if gz || g { gunzip(&raw).unwrap_or_else(|e| format!("no gzip stream: {e}").into_bytes()) } else { raw };
                if !o.ok() || got != want {
                    st.fail(
                        format!("the output of {} is incomplete", a.name),
                        json!({"commands": cmds, "existing": old, "file": name, "content": esc(&got), "expected": esc(&want), "last": j.replay(), "result": o.show()}),
                    );
                    return;
                }
                if a.out == "--tee" && o.out != expect[*k][b] {
                    st.fail("--tee changes the standard output", json!({"commands": cmds, "result": o.show()}));
                    return;
                }
            }
            st.state();
            st.trace();
            st.sample(|| json!({"commands": cmds, "file": name, "content": esc(&want)}));
            st.outcome(&(k, &want));
        },
    );

    // ---- complete outputs -------------------------------------------
    let cases: Vec<(usize, usize)> = (0..SPECS.len())
        .flat_map(|k| (0..ins.len()).map(move |b| (k, b)))
        .filter(|x| !SPECS[x.0].bare || x.1 == 0)
        .collect();
    let bases = Mutex::new(vec![]);
    cx.space("references", &format!("{} commands and outputs x {} inputs", SPECS.len(), ins.len()), cases.len() as u64, |i, st| {
        let (k, b) = cases[i as usize];
        let j = SPECS[k].job(None, &ins[b].1, false);
        let o = cli.run(&j);
        st.state();
        st.step();
        if !o.ok() {
            st.fail(format!("'{}' fails", SPECS[k].args.join(" ")), json!({"run": j.replay(), "result": o.show()}));
        }
        bases.lock().unwrap().push(Base { spec: k, input: b, out: o.out, files: o.files });
    });
    let mut bases = bases.into_inner().unwrap();
    bases.sort_by_key(|b| (b.spec, b.input));
    // the same output to a file as to standard output
    cx.space(
        "destinations",
        &format!("{} commands and outputs x {} inputs: pipe and file as standard output, with and without progress bar", SPECS.len(), ins.len()),
        bases.len() as u64,
        |i, st| {
            let b = &bases[i as usize];
            let sp = &SPECS[b.spec];
            for p in [false, true] {
                if p && !sp.prog() {
                    continue;
                }
                let j = sp.job(None, &ins[b.input].1, p);
                let l = j.line();
                let (o, out) = to_file(&cli, j, None);
                st.state();
                st.step();
                st.trace();
                if !o.ok() || out != b.out || o.files != b.files {
                    st.fail("output depends on the destination", json!({"command": l, "input": ins[b.input].0, "result": o.show(), "stdout": esc(&out), "expected": esc(&b.out)}));
                    return;
                }
            }
            // the same records in the file as on standard output
            if let (Some(n), Some(p)) = (sp.out, sp.args.iter().position(|a| *a == "@")) {
                if sp.args[p - 1] == "-o" && sp.args[0] != "describe" && !(sp.args[0] == "check" && n != "o.csv") {
                    let mut a: Vec<&str> = vec![];
                    a.extend(&sp.args[..p - 1]);
                    a.extend(&sp.args[p + 1..]);
                    a.retain(|x| *x != "--append" && *x != "-g");
                    let mut full = a.clone();
                    if sp.args[0] != "invalid" && !sp.bare {
                        full.insert(1, "-s");
                    }
                    let mut j = job(&[""]);
                    if !sp.bare {
                        full.push("in.dat");
                        j = j.file("in.dat", &ins[b.input].1);
                    }
                    if sp.rules {
                        j = j.file("rules.toml", RULES.as_bytes());
                    }
                    j.args = full.iter().map(|s| s.to_string()).collect();
                    let o = cli.run(&j);
                    st.step();
                    let raw = b.files.get(n).cloned().unwrap_or_default();
                    let got = if n.ends_with(".gz") || sp.args.contains(&"-g") { gunzip(&raw).unwrap_or_else(|e| e.to_string().into_bytes()) } else { raw };
                    if !o.ok() || o.out != got {
                        st.fail("a file gets other output than standard output", json!({"command": j.replay(), "input": ins[b.input].0, "file": esc(&got), "stdout": esc(&o.out)}));
                    }
                }
            }
            st.outcome(&(&b.out, &b.files));
        },
    );

    // ---- the destination is full after n bytes ------------------------
    let (dense, step) = cx.pick((40, 4096), (300, 512));
    let mut faults: Vec<(usize, usize)> = vec![];
    for (k, b) in bases.iter().enumerate() {
        let d = if cx.pick(true, false) && b.len() > 2000 && b.input != 0 { 3 } else { dense };
        faults.extend(cuts(b.len(), d, step).into_iter().map(|n| (k, n)));
    }
    cx.space(
        "full destination",
        &format!("{} commands and outputs x {} inputs x the destination is full after n bytes: every n up to {dense} and from {dense} bytes before the end, and around every multiple of {step}", SPECS.len(), ins.len()),
        faults.len() as u64,
        |i, st| {
            let (k, n) = faults[i as usize];
            let b = &bases[k];
            let sp = &SPECS[b.spec];
            // the input must not be larger than the limit: it is
            // created before the limit is set
            let j = sp.job(None, &ins[b.input].1, false);
            let replay = j.replay();
            let (o, out) = to_file(&cli, j, Some(n));
            st.state();
            st.step();
            st.trace();
            st.outcome(&(b.spec, o.code, n < b.len()));
            st.sample(|| json!({"run": replay, "limit": n, "status": o.code, "stderr": esc(&o.err)}));
            let full = b.len() <= n;
            if full && (!o.ok() || out != b.out || o.files != b.files) {
                st.fail("output fails although there is room for it", json!({"run": replay, "limit": n, "result": o.show()}));
            }
            if !full && !reported(&o) {
                let mut got: BTreeMap<String, usize> = o.files.iter().map(|(n, f)| (n.clone(), f.len())).collect();
                got.insert("stdout".into(), out.len());
                st.fail(
                    format!("'{}' does not report that its output is incomplete", sp.args.join(" ")),
                    json!({"run": replay, "limit": n, "complete": b.len(), "written": got, "status": o.code, "stderr": esc(&o.err)}),
                );
            }
        },
    );

    // ---- full devices, closed pipes, missing directories ---------------
    let kinds = ["stdout is /dev/full", "output is /dev/full", "closed pipe", "output in a missing directory", "output is a directory"];
    cx.space(
        "devices",
        &format!("{} commands and outputs x {} inputs x {}", SPECS.len(), ins.len(), kinds.join(", ")),
        (bases.len() * kinds.len()) as u64,
        |i, st| {
            let mut rx = Radix(i);
            let kind = rx.take(kinds.len());
            let b = &bases[rx.take(bases.len())];
            let sp = &SPECS[b.spec];
            let input = &ins[b.input].1;
            let (j, must_fail) = match kind {
                0 => (sp.job(None, input, false).to(To::File("/dev/full".into())), !b.out.is_empty()),
                1 if sp.out.is_some_and(|n| !n.ends_with(".gz") && !n.ends_with("sv") && !n.ends_with(".ipc")) => {
                    (sp.job(Some("/dev/full"), input, false), b.files.get(sp.out.unwrap()).is_some_and(|f| !f.is_empty()))
                }
                2 => (sp.job(None, input, false).to(To::Closed), false),
                3 if sp.out.is_some() => (sp.job(Some(&format!("no/{}", sp.out.unwrap())), input, false), true),
                4 if sp.out.is_some() => (sp.job(Some("dir"), input, false).file("dir/x", b"x"), true),
                _ => return,
            };
            let replay = j.replay();
            let o = cli.run(&j);
            st.state();
            st.step();
            st.trace();
            st.outcome(&(kind, b.spec, o.code));
            if must_fail && !reported(&o) {
                st.fail(format!("'{}' does not report a failed write ({})", sp.args.join(" "), kinds[kind]), json!({"run": replay, "result": o.show()}));
            } else if !o.clean() {
                st.fail(format!("'{}' crashes ({})", sp.args.join(" "), kinds[kind]), json!({"run": replay, "result": o.show()}));
            } else if kind == 2 && o.files != b.files {
                // files are complete or the failure is reported
                if o.ok() && sp.out.is_some() && b.out.is_empty() {
                    st.fail("a file is incomplete", json!({"run": replay, "result": o.show()}));
                }
            }
        },
    );
}

/// C31: the environment may transfer less than asked for or interrupt
/// a call, and it reports errors.
pub fn run31(cx: &Cx) {
    cx.assume("an interrupted write may be reported as an error (it is by the compression library)");
    cx.assume("a deviation happens once in a run (every single call of the run)");
    cx.assume("a shim between the program and the C library stands for the operating system; it deviates in read, write and writev");
    let cli = Cli::new("c31");
    let ins = inputs();
    let from = ["file", "standard input", "gzip file", "two files"];
    let job_of = |sp: &Spec, input: &[u8], gz: &[u8], how: usize| -> (Vec<String>, Option<Vec<u8>>, Vec<(&'static str, Vec<u8>)>) {
        let mut a = sp.job(None, &[], false).args;
        let mut files: Vec<(&'static str, Vec<u8>)> = vec![];
        let mut stdin = None;
        if !sp.bare {
            a.pop();
            match how {
                0 => {
                    a.push("in.dat".into());
                    files.push(("in.dat", input.to_vec()));
                }
                1 => stdin = Some(input.to_vec()),
                2 => {
                    a.push("in.dat.gz".into());
                    files.push(("in.dat.gz", gz.to_vec()));
                }
                _ => {
                    a.extend(["in.dat".into(), "in.dat.gz".into()]);
                    files.push(("in.dat", input.to_vec()));
                    files.push(("in.dat.gz", gz.to_vec()));
                }
            }
        }
        if sp.rules {
            files.push(("rules.toml", RULES.as_bytes().to_vec()));
        }
        (a, stdin, files)
    };
    let kinds = ["r:short:1", "r:short:7", "r:eintr", "r:err:5", "w:short:1", "w:short:9", "w:eintr", "w:err:28", "w:err:5", "r:all:1", "r:all:5", "w:all:1", "w:all:7", "r:cerr:7"];
    let max = cx.pick(60, 4000);
    let use_ins: Vec<usize> = cx.pick(vec![0, 2], vec![0, 1, 2, 3]);
    let mut cases = vec![];
    for sp in 0..SPECS.len() {
        for i in &use_ins {
            for how in 0..from.len() {
                if SPECS[sp].bare && (*i > 0 || how > 0) {
                    continue;
                }
                cases.push((sp, *i, how));
            }
        }
    }
    let conf = b"skip-invalid = true\n";
    cx.space(
        "one deviation",
        &format!("{} commands and outputs x {} inputs from {} x {} deviations at every read and write (up to {max}) of the run, or small transfers in all of them, or small reads with one error", SPECS.len(), use_ins.len(), from.join(", "), kinds.len()),
        (cases.len() * kinds.len()) as u64,
        |i, st| {
            let mut rx = Radix(i);
            let kind = kinds[rx.take(kinds.len())];
            let (sp, inp, how) = cases[rx.take(cases.len())];
            let gz = gzip(&ins[inp].1);
            let (a, stdin, files) = job_of(&SPECS[sp], &ins[inp].1, &gz, how);
            // the configuration is one of the files that are read
            let with_conf = i % 5 == 0 && !SPECS[sp].bare;
            let make = || {
                let mut j = job(&a);
                if let Some(s) = &stdin {
                    j = j.stdin(s);
                }
                for (n, b) in &files {
                    j = j.file(n, b);
                }
                if with_conf {
                    j = j.config(conf);
                }
                j
            };
            let base = cli.run(&make());
            if !base.ok() {
                st.fail("a command fails", json!({"run": make().replay(), "result": base.show()}));
                return;
            }
            let mut n = 0;
            while n < max {
                let (c, k) = kind.split_once(':').unwrap();
                let fault = match k.split_once(':') {
                    Some((k, v)) => format!("{c}:{k}:{n}:{v}"),
                    None => format!("{c}:{k}:{n}"),
                };
                let j = make().fault(fault);
                let o = cli.run(&j);
                if !o.hit {
                    break;
                }
                st.state();
                st.step();
                st.trace();
                st.outcome(&(sp, kind, n, o.code));
                st.sample(|| j.replay());
                if k.starts_with("err") || k.starts_with("cerr") {
                    if !reported(&o) {
                        st.fail(format!("'{}' does not report an error of call {n} ({kind})", SPECS[sp].args.join(" ")), json!({"run": j.replay(), "result": o.show()}));
                        return;
                    }
                } else if kind == "w:eintr" && reported(&o) {
                    // the compression library gives up, but says so
                } else if (o.code, &o.out, &o.files) != (0, &base.out, &base.files) {
                    st.fail(format!("'{}' depends on a partial or interrupted call {n} ({kind})", SPECS[sp].args.join(" ")), json!({"run": j.replay(), "expected": base.show(), "result": o.show()}));
                    return;
                }
                n += 1;
                // a deviation of all calls
                if k.starts_with("all") {
                    break;
                }
            }
        },
    );
}
