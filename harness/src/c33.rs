//! C33: every documented spelling of a command and its options, in
//! every place of the command line, means the same.
use std::collections::BTreeMap;
use std::sync::OnceLock;

use crate::cli::{Cli, Job, Out, bad, cat, job, line};
use crate::cx::{Cx, Radix, St, esc};
use crate::rec::f;

/// An option of a command.
#[derive(Clone, Debug)]
struct Opt {
    cmd: &'static str,
    long: &'static str,
    /// the short form or ' '
    short: char,
    /// the value or "" (a flag)
    val: &'static str,
    /// other options of the command line
    with: &'static [&'static str],
    /// positional arguments before the inputs
    pos: &'static [&'static str],
    /// the option changes the result of this command line
    effect: bool,
}
const fn o(cmd: &'static str, long: &'static str, short: char, val: &'static str, with: &'static [&'static str], pos: &'static [&'static str]) -> Opt {
    Opt { cmd, long, short, val, with, pos, effect: true }
}
const fn q(cmd: &'static str, long: &'static str, short: char, val: &'static str, with: &'static [&'static str], pos: &'static [&'static str]) -> Opt {
    Opt { cmd, long, short, val, with, pos, effect: false }
}
const S: &[&str] = &["-s"];
const QA: &[&str] = &["012A/*.a"];
const ANY: &[&str] = &["003@? || 012A?"];

const OPTS: &[Opt] = &[
    o("check", "rule", 'r', "A", &["-s", "-R", "rules.toml"], &[]),
    o("check", "tags", 't', "x", &["-s", "-R", "rules.toml"], &[]),
    o("check", "output", 'o', "o.csv", &["-s", "-R", "rules.toml"], &[]),
    o("check", "rule-set", 'R', "fast.toml", S, &[]),
    q("check", "progress", 'p', "", &["-s", "-R", "rules.toml", "-o", "o.csv"], &[]),
    o("completions", "output", 'o', "o.sh", &[], &["bash"]),
    o("concat", "skip-invalid", 's', "", &[], &[]),
    o("concat", "tee", ' ', "t.dat", S, &[]),
    o("concat", "unique", 'u', "", S, &[]),
    o("concat", "unique-strategy", ' ', "hash", &["-s", "-u"], &[]),
    q("concat", "unique-strategy", ' ', "idn", &["-s", "-u"], &[]),
    o("concat", "append", ' ', "", &["-s", "-o", "old.dat"], &[]),
    o("concat", "output", 'o', "o.dat", S, &[]),
    q("concat", "progress", 'p', "", &["-s", "-o", "o.dat"], &[]),
    o("convert", "skip-invalid", 's', "", &["-t", "plain"], &[]),
    q("convert", "from", 'f', "plus", &["-s", "-t", "json"], &[]),
    o("convert", "to", 't', "binary", S, &[]),
    o("convert", "to", 't', "import", S, &[]),
    o("convert", "to", 't', "json", S, &[]),
    o("convert", "to", 't', "plain", S, &[]),
    q("convert", "to", 't', "plus", S, &[]),
    o("convert", "to", 't', "xml", S, &[]),
    o("convert", "output", 'o', "o.x", &["-s", "-t", "plain"], &[]),
    q("convert", "progress", 'p', "", &["-s", "-t", "xml", "-o", "o.x"], &[]),
    o("count", "records", 'r', "", S, &[]),
    o("count", "fields", ' ', "", S, &[]),
    o("count", "subfields", ' ', "", S, &[]),
    o("count", "csv", ' ', "", S, &[]),
    o("count", "tsv", ' ', "", S, &[]),
    o("count", "no-header", ' ', "", &["-s", "--csv"], &[]),
    o("count", "append", ' ', "", &["-s", "-o", "old.dat"], &[]),
    o("count", "output", 'o', "o.txt", S, &[]),
    q("count", "progress", 'p', "", &["-s", "-o", "o.txt"], &[]),
    o("describe", "keep", 'k', "012A/*", S, &[]),
    o("describe", "discard", 'd', "012A", S, &[]),
    o("describe", "csv", 'c', "", &["-s", "-o", "o.dat"], &[]),
    o("describe", "tsv", 't', "", &["-s", "-o", "o.dat"], &[]),
    o("describe", "output", 'o', "o.csv", S, &[]),
    q("describe", "progress", 'p', "", &["-s", "-o", "o.csv"], &[]),
    o("explode", "gzip", 'g', "", S, &["local"]),
    o("explode", "keep", 'k', "003@", S, &["local"]),
    o("explode", "discard", 'd', "003@", S, &["main"]),
    o("explode", "output", 'o', "o.dat", S, &["copy"]),
    q("explode", "progress", 'p', "", &["-s", "-o", "o.dat"], &["copy"]),
    o("filter", "skip-invalid", 's', "", &[], ANY),
    o("filter", "limit", 'l', "1", S, ANY),
    o("filter", "invert-match", 'v', "", S, &["012A.b?"]),
    o("filter", "ignore-case", 'i', "", S, &["012A.a == 'X'"]),
    o("filter", "strsim-threshold", ' ', "10", S, &["012A.a =* 'xyzx'"]),
    o("filter", "keep", 'k', "003@", S, ANY),
    o("filter", "discard", 'd', "003@", S, ANY),
    o("filter", "allow-list", 'A', "list.csv", S, ANY),
    o("filter", "deny-list", 'D', "list.csv", S, ANY),
    o("filter", "filter-set-column", ' ', "other", &["-s", "-A", "list.csv"], ANY),
    o("filter", "filter-set-source", ' ', "012A.a", &["-s", "-A", "list.csv"], ANY),
    o("filter", "and", ' ', "012A.b?", S, ANY),
    o("filter", "or", ' ', "003@?", S, &["012A.b?"]),
    o("filter", "not", ' ', "012A.b?", S, ANY),
    o("filter", "gzip", 'g', "", S, ANY),
    o("filter", "append", ' ', "", &["-s", "-o", "old.dat"], ANY),
    o("filter", "tee", ' ', "t.dat", S, ANY),
    o("filter", "output", 'o', "o.dat", S, ANY),
    q("filter", "progress", 'p', "", &["-s", "-o", "o.dat"], ANY),
    o("frequency", "squash", ' ', "", S, QA),
    o("frequency", "merge", ' ', "", S, QA),
    o("frequency", "separator", ' ', "+", &["-s", "--squash"], QA),
    o("frequency", "unique", 'u', "", S, QA),
    o("frequency", "reverse", 'r', "", S, QA),
    o("frequency", "", 'n', "1", S, QA),
    o("frequency", "threshold", ' ', "2", S, QA),
    o("frequency", "header", 'H', "a,b", S, QA),
    o("frequency", "tsv", 't', "", S, QA),
    o("frequency", "translit", ' ', "nfc", S, QA),
    o("frequency", "translit", ' ', "nfkc", S, QA),
    o("frequency", "translit", ' ', "nfd", S, QA),
    o("frequency", "translit", ' ', "nfkd", S, QA),
    o("frequency", "output", 'o', "o.csv", S, QA),
    q("frequency", "progress", 'p', "", &["-s", "-o", "o.csv"], QA),
    o("hash", "header", 'H', "a,b", S, &[]),
    o("hash", "tsv", 't', "", S, &[]),
    o("hash", "output", 'o', "o.csv", S, &[]),
    q("hash", "progress", 'p', "", &["-s", "-o", "o.csv"], &[]),
    o("invalid", "output", 'o', "o.dat", &[], &[]),
    o("partition", "gzip", 'g', "", S, &["003@.0"]),
    o("partition", "outdir", 'o', "out", S, &["003@.0"]),
    o("partition", "template", 't', "x{}.dat", S, &["003@.0"]),
    q("partition", "progress", 'p', "", S, &["003@.0"]),
    o("print", "translit", ' ', "nfc", S, &[]),
    o("print", "translit", ' ', "nfkc", S, &[]),
    o("print", "translit", ' ', "nfd", S, &[]),
    o("print", "translit", ' ', "nfkd", S, &[]),
    o("print", "output", 'o', "o.txt", S, &[]),
    q("print", "progress", 'p', "", &["-s", "-o", "o.txt"], &[]),
    o("sample", "gzip", 'g', "", &["-s", "--seed", "1"], &["2"]),
    o("sample", "seed", ' ', "4", S, &["6"]),
    o("sample", "output", 'o', "o.dat", &["-s", "--seed", "1"], &["2"]),
    q("sample", "progress", 'p', "", &["-s", "--seed", "1", "-o", "o.dat"], &["2"]),
    o("select", "squash", ' ', "", S, QA),
    o("select", "merge", ' ', "", S, QA),
    o("select", "separator", ' ', "+", &["-s", "--merge"], QA),
    o("select", "no-empty-columns", ' ', "", S, &["012A.b, 003@.0"]),
    o("select", "unique", 'u', "", S, QA),
    o("select", "tsv", 't', "", S, &["003@.0, 012A.a"]),
    o("select", "quote-style", ' ', "always", S, &["003@.0, 012A.a"]),
    q("select", "quote-style", ' ', "necessary", S, &["003@.0, 012A.a"]),
    o("select", "quote-style", ' ', "non-numeric", S, &["003@.0, 012A.a"]),
    o("select", "translit", ' ', "nfc", S, QA),
    o("select", "translit", ' ', "nfkc", S, QA),
    o("select", "translit", ' ', "nfd", S, QA),
    o("select", "translit", ' ', "nfkd", S, QA),
    o("select", "header", 'H', "a", S, QA),
    o("select", "append", ' ', "", &["-s", "-o", "old.dat"], QA),
    o("select", "output", 'o', "o.csv", S, QA),
    q("select", "progress", 'p', "", &["-s", "-o", "o.csv"], QA),
    o("slice", "start", ' ', "1", S, &[]),
    o("slice", "end", ' ', "2", S, &[]),
    o("slice", "length", ' ', "2", S, &[]),
    o("slice", "gzip", 'g', "", S, &[]),
    o("slice", "append", 'a', "", &["-s", "-o", "old.dat"], &[]),
    o("slice", "output", 'o', "o.dat", S, &[]),
    q("slice", "progress", 'p', "", &["-s", "-o", "o.dat"], &[]),
    o("split", "gzip", 'g', "", S, &["2"]),
    o("split", "template", ' ', "x{}", S, &["2"]),
    o("split", "outdir", 'o', "out", S, &["2"]),
    q("split", "progress", 'p', "", S, &["2"]),
];
/// The commands with the common filter options: (name, options, positional arguments)
const FILT: &[(&str, &[&str], &[&str])] = &[
    ("check", &["-R", "rules.toml"], &[]),
    ("count", &[], &[]),
    ("describe", &["-o", "o.csv"], &[]),
    ("explode", &[], &["main"]),
    ("frequency", &[], QA),
    ("hash", &[], &[]),
    ("partition", &[], &["012A/*.a"]),
    ("print", &[], &[]),
    ("sample", &["--seed", "1"], &["99"]),
    ("select", &[], &["003@.0, 012A/*.a"]),
    ("slice", &[], &[]),
    ("split", &[], &["1"]),
];

fn table() -> &'static [Opt] {
    static T: OnceLock<Vec<Opt>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = OPTS.to_vec();
        for &(cmd, with, pos) in FILT {
            let l = |x: &[&'static str]| -> &'static [&'static str] { with.iter().chain(x).copied().collect::<Vec<_>>().leak() };
            v.push(o(cmd, "skip-invalid", 's', "", l(&[]), pos));
            v.push(o(cmd, "limit", 'l', "1", l(S), pos));
            v.push(o(cmd, "ignore-case", 'i', "", l(&["-s", "--where", "012A.a == 'X'"]), pos));
            v.push(o(cmd, "strsim-threshold", ' ', "10", l(&["-s", "--where", "012A.a =* 'xyzx'"]), pos));
            v.push(o(cmd, "allow-list", 'A', "list.csv", l(S), pos));
            v.push(o(cmd, "deny-list", 'D', "list.csv", l(S), pos));
            v.push(o(cmd, "filter-set-column", ' ', "other", l(&["-s", "-A", "list.csv"]), pos));
            v.push(o(cmd, "filter-set-source", ' ', "012A.a", l(&["-s", "-A", "list.csv"]), pos));
            v.push(o(cmd, "where", ' ', "012A.b?", l(S), pos));
            v.push(o(cmd, "and", ' ', "012A.b?", l(&["-s", "--where", "003@?"]), pos));
            v.push(o(cmd, "or", ' ', "003@?", l(&["-s", "--where", "012A.b?"]), pos));
            v.push(o(cmd, "not", ' ', "012A.b?", l(&["-s", "--where", "012A?"]), pos));
        }
        v
    })
}
const COMMANDS: &[&str] = &[
    "check", "completions", "concat", "config", "convert", "count", "describe", "explode", "filter", "frequency", "hash", "invalid", "partition", "print", "sample",
    "select", "slice", "split",
];

const RULES: &str = "[rule.A]\ncheck = \"filter\"\nfilter = \"012A/*.a == 'x'\"\ntags = [\"x\"]\n[rule.B]\ncheck = \"unicode\"\n[rule.C]\ncheck = \"filter\"\nfilter = \"003@?\"\n[rule.D]\ncheck = \"duplicates\"\nquery = \"003@.0, 012A/*.a\"\nthreshold = 1\n";
const FAST: &str = "[rule.E]\ncheck = \"filter\"\nfilter = \"012A?\"\n";
const LIST: &str = "ppn,other\n1,2\nx,3\n";

fn data() -> Vec<u8> {
    cat(&[
        line("", &[f("003@", &["01"]), f("012A", &["ax"]), f("101@", &["a1"]), f("201@/01", &["u"])]),
        line("", &[f("003@", &["02"]), f("012A", &["ay,z", "b1"]), f("012A/01", &["ax", "ax"]), f("101@", &["a1"]), f("201@/01", &["u"]), f("201@/02", &["v"]), f("101@", &["a2"]), f("201@/01", &["u"])]),
        bad("", b"bad\n"),
        line("", &[f("003@", &["01"]), f("012A", &["a\u{e4}\u{fb01}a\u{308}", "aX"]), f("101@", &["a3"]), f("201@/01", &["w"])]),
        line("", &[f("012A", &["ax", "b2"]), f("101@", &["a3"]), f("201@/01", &["w"])]),
        line("", &[f("003@", &["03"]), f("012A", &["aX"]), f("101@", &["a3"]), f("201@/01", &["w"])]),
    ])
}

type Eff = (i32, Vec<u8>, BTreeMap<String, Vec<u8>>);
fn eff(o: &Out) -> Eff {
    (o.code, o.out.clone(), o.files.clone())
}
fn mk<'a>(args: &[String], input: &'a [u8]) -> Job<'a> {
    job(args)
        .file("in.dat", input)
        .file("old.dat", b"003@ \x1f0old\x1e\n")
        .file("list.csv", LIST.as_bytes())
        .file("rules.toml", RULES.as_bytes())
        .file("fast.toml", FAST.as_bytes())
        .file("expr.txt", b"012A.b?\n")
}
impl Opt {
    /// The spellings of the option with its value.
    fn forms(&self) -> Vec<Vec<String>> {
        let mut v = vec![];
        let (l, s, x) = (format!("--{}", self.long), format!("-{}", self.short), self.val);
        if x.is_empty() {
            if !self.long.is_empty() {
                v.push(vec![l]);
            }
            if self.short != ' ' {
                v.push(vec![s]);
            }
        } else {
            if !self.long.is_empty() {
                v.push(vec![l.clone(), x.into()]);
                v.push(vec![format!("{l}={x}")]);
            }
            if self.short != ' ' {
                v.push(vec![s.clone(), x.into()]);
                v.push(vec![format!("{s}{x}")]);
                v.push(vec![format!("{s}={x}")]);
            }
        }
        v
    }
    fn inputs(&self) -> Vec<String> {
        if self.cmd == "completions" { vec![] } else { vec!["in.dat".into()] }
    }
    /// The command line without the option: (options, positional arguments)
    fn rest(&self) -> (Vec<String>, Vec<String>) {
        let p = self.pos.iter().map(|s| s.to_string()).chain(self.inputs()).collect();
        (self.with.iter().map(|s| s.to_string()).collect(), p)
    }
    fn reference(&self) -> Vec<String> {
        let (w, p) = self.rest();
        [vec![self.cmd.to_string()], w, self.forms()[0].clone(), p].concat()
    }
}

fn same(st: &mut St, cli: &Cli, want: &Eff, args: &[String], input: &[u8], what: &str) {
    let j = mk(args, input);
    st.step();
    let o = cli.run(&j);
    st.trace();
    st.outcome(&eff(&o));
    if eff(&o) != *want || !o.clean() {
        let s: String = format!("{what}: {} differs: {}, expected status {}, stdout '{}'", j.line(), o.show(), want.0, esc(&want.1)).chars().take(3000).collect();
        st.fail(s, j.replay());
    }
}

pub fn run(cx: &Cx) {
    let cli = Cli::new("c33");
    let t = table();
    let d = data();
    cx.assume("values and file names do not start with '-' or '='");

    // the documented spellings, with and without effect
    cx.space(
        "spellings",
        &format!("{} options of {} commands: long and short form, value separate, attached and after '=', and that the option changes the result", t.len(), COMMANDS.len()),
        t.len() as u64,
        |i, st| {
            let op = &t[i as usize];
            st.state();
            let r = op.reference();
            let j = mk(&r, &d);
            let o = cli.run(&j);
            st.trace();
            if !o.ok() {
                st.fail(format!("{} fails: {}", j.line(), o.show()), j.replay());
                return;
            }
            let want = eff(&o);
            st.sample(|| serde_json::json!({"command": j.line(), "spellings": op.forms()}));
            let (w, p) = op.rest();
            for x in &op.forms()[1..] {
                let a = [vec![op.cmd.to_string()], w.clone(), x.clone(), p.clone()].concat();
                same(st, &cli, &want, &a, &d, "spelling");
            }
            let a = [vec![op.cmd.to_string()], w, p].concat();
            let o = cli.run(&mk(&a, &d));
            st.trace();
            if op.effect == (eff(&o) == want) && !st.failed() && !(op.long == "seed") {
                st.fail(format!("{} {} the result", j.line(), if op.effect { "does not change" } else { "changes" }), j.replay());
            }
        },
    );

    // every place in the command line
    cx.space("places", &format!("{} options at every place of the command line, in every spelling; positional arguments after '--'", t.len()), t.len() as u64, |i, st| {
        let op = &t[i as usize];
        st.state();
        let want = eff(&cli.run(&mk(&op.reference(), &d)));
        let (w, p) = op.rest();
        // the other options, taken apart into options with their values
        let mut groups: Vec<Vec<String>> = vec![];
        for x in &w {
            if x.starts_with('-') {
                groups.push(vec![x.clone()]);
            } else {
                groups.last_mut().unwrap().push(x.clone());
            }
        }
        for form in op.forms() {
            let items: Vec<Vec<String>> = groups.iter().cloned().chain(p.iter().map(|x| vec![x.clone()])).collect();
            for k in 0..=items.len() {
                let mut a = vec![vec![op.cmd.to_string()]];
                a.extend_from_slice(&items[..k]);
                a.push(form.clone());
                a.extend_from_slice(&items[k..]);
                same(st, &cli, &want, &a.concat(), &d, "place");
            }
            // all options last
            let a = [vec![op.cmd.to_string()], p.clone(), form.clone(), w.clone()].concat();
            same(st, &cli, &want, &a, &d, "place");
            let a = [vec![op.cmd.to_string()], w.clone(), form, vec!["--".into()], p.clone()].concat();
            same(st, &cli, &want, &a, &d, "place");
            if st.failed() {
                return;
            }
        }
    });

    // short flags in one argument
    let flags: Vec<(&Opt, &Opt)> = t.iter().flat_map(|a| t.iter().map(move |b| (a, b))).filter(|(a, b)| a.cmd == b.cmd && a.short != ' ' && b.short != ' ' && a.short != b.short && a.val.is_empty() && !["r", "c", "t"].contains(&a.long)).collect();
    cx.space("short options in one argument", &format!("{} pairs of a short flag and a short option of the same command", flags.len()), flags.len() as u64, |i, st| {
        let (a, b) = flags[i as usize];
        st.state();
        // the command line of the second option
        let (w, p) = b.rest();
        if w.iter().any(|x| *x == format!("-{}", a.short)) || w.iter().any(|x| *x == format!("-{}", b.short) && b.val.is_empty()) {
            return;
        }
        let c = vec![b.cmd.to_string()];
        let sep = [c.clone(), w.clone(), vec![format!("-{}", a.short)], if b.val.is_empty() { vec![format!("-{}", b.short)] } else { vec![format!("-{}", b.short), b.val.into()] }, p.clone()].concat();
        let o = cli.run(&mk(&sep, &d));
        if !o.ok() {
            // options that exclude each other
            if !o.clean() || o.err.is_empty() {
                st.fail(format!("{}: {}", mk(&sep, &d).line(), o.show()), mk(&sep, &d).replay());
            }
            return;
        }
        let one = [c.clone(), w.clone(), vec![format!("-{}{}{}", a.short, b.short, b.val)], p.clone()].concat();
        same(st, &cli, &eff(&o), &one, &d, "one argument");
        if b.val.is_empty() {
            let one = [c, w, vec![format!("-{}{}", b.short, a.short)], p].concat();
            same(st, &cli, &eff(&o), &one, &d, "one argument");
        }
    });

    // names of commands
    let mut names: Vec<(String, Option<&'static str>)> = vec![("cat".into(), Some("concat")), ("freq".into(), Some("frequency"))];
    for c in COMMANDS {
        for k in 1..=c.len() {
            let p = &c[..k];
            let m: Vec<_> = COMMANDS.iter().copied().filter(|x| x.starts_with(p)).chain(["cat", "freq", "help"].into_iter().filter(|x| x.starts_with(p) && !(*x == "freq" && *c == "frequency"))).collect();
            let exact = COMMANDS.contains(&p);
            if exact || m.len() == 1 {
                names.push((p.into(), Some(c)));
            }
        }
    }
    for x in ["", "x", "Concat", "FILTER", "concatt", "filters", "cats", "json", "in.dat"] {
        names.push((x.into(), None));
    }
    cx.space("names of commands", &format!("{} names: the commands, their aliases and unambiguous beginnings, and names of no command", names.len()), names.len() as u64, |i, st| {
        let (n, c) = &names[i as usize];
        st.state();
        let Some(c) = c else {
            let a = vec![n.clone(), "in.dat".to_string()];
            let o = cli.run(&mk(&a, &d));
            st.trace();
            if o.ok() || !o.clean() || o.err.is_empty() || !o.out.is_empty() || !o.files.is_empty() {
                st.fail(format!("an unknown command is not refused: pica {n:?}: {}", o.show()), mk(&a, &d).replay());
            }
            return;
        };
        let rest: Vec<String> = if *c == "config" {
            vec!["skip-invalid".into()]
        } else {
            let op = t.iter().find(|o| o.cmd == *c).unwrap();
            op.reference()[1..].to_vec()
        };
        let want = eff(&cli.run(&mk(&[vec![c.to_string()], rest.clone()].concat(), &d)));
        same(st, &cli, &want, &[vec![n.clone()], rest].concat(), &d, "name of the command");
    });

    // the configuration file
    cx.space("configuration file option", "every command x (--config, -c, --config=, -c attached) x (a file that skips invalid records, a missing file)", (FILT.len() * 4 * 2) as u64, |i, st| {
        let mut r = Radix(i);
        let (c, with, pos) = *r.of(FILT);
        let form = r.take(4);
        let there = r.bool();
        let file = if there { "conf.toml" } else { "missing.toml" };
        let pre: Vec<String> = match form {
            0 => vec!["--config".into(), file.into()],
            1 => vec!["-c".into(), file.into()],
            2 => vec![format!("--config={file}")],
            _ => vec![format!("-c{file}")],
        };
        let s = |x: &[&str]| -> Vec<String> { x.iter().map(|s| s.to_string()).collect() };
        let tail = [s(with), s(pos), s(&["in.dat"])].concat();
        st.state();
        let conf: &[u8] = b"skip-invalid = true\n";
        let run = |a: &[String]| cli.run(&mk(a, &d).file("conf.toml", conf));
        let want = run(&[s(&[c]), if there { s(&["-s"]) } else { vec![] }, tail.clone()].concat());
        let a = [pre, s(&[c]), tail].concat();
        let o = run(&a);
        st.step();
        st.trace();
        st.outcome(&eff(&o));
        // before a failure some output may have been written
        let ok = if want.ok() { eff(&o) == eff(&want) } else { o.code == want.code };
        if !ok || !o.clean() {
            st.fail(format!("{}: {}, expected {}", mk(&a, &d).line(), o.show(), want.show()), mk(&a, &d).file("conf.toml", conf).replay());
        }
    });

    // unknown options and bad values are refused
    const BAD: &[(&str, &[&str])] = &[
        ("filter", &["--limit", "-1"]), ("filter", &["--limit", "x"]), ("filter", &["--limit", ""]), ("filter", &["--strsim-threshold", "101"]), ("filter", &["--strsim-threshold", "x"]),
        ("convert", &["-t", "nope"]), ("convert", &["-t", ""]), ("convert", &["-t", "json", "-f", "nope"]), ("select", &["--translit", "nfx"]), ("select", &["--quote-style", "x"]),
        ("print", &["--translit", "x"]), ("frequency", &["--threshold", "-1"]), ("frequency", &["-n", "x"]), ("concat", &["-u", "--unique-strategy", "x"]), ("slice", &["--start", "-1"]),
        ("slice", &["--length", "x"]), ("slice", &["--end", "1.5"]), ("sample", &["--seed", "x"]), ("split", &["--limit", "99999999999999999999999"]), ("count", &["--filter-set-source", "003@"]),
        ("count", &["--where", "003@"]), ("hash", &["--where", "003@?", "--and", "x"]), ("describe", &["-k", "03@"]), ("explode", &["-d", "003@/0"]), ("filter", &["-k", "012A/*/"]),
    ];
    let cases: Vec<(String, Vec<String>)> = BAD
        .iter()
        .map(|(c, v)| (c.to_string(), v.iter().map(|s| s.to_string()).collect()))
        .chain(COMMANDS.iter().flat_map(|c| ["--nope", "-Z", "--out-put=x", "---", "--no-skip-invalid"].map(|x| (c.to_string(), vec![x.to_string()]))))
        .collect();
    cx.space("refused command lines", &format!("{} command lines with an unknown option or a value of the wrong kind", cases.len()), cases.len() as u64, |i, st| {
        let (c, v) = &cases[i as usize];
        let op = t.iter().find(|o| o.cmd == *c);
        let (w, p) = op.map_or((vec![], vec!["skip-invalid".to_string(), "true".into()]), |o| o.rest());
        let w: Vec<String> = if c == "convert" { vec!["-s".into()] } else { w };
        st.state();
        for k in 0..2 {
            let a = if k == 0 { [vec![c.clone()], v.clone(), w.clone(), p.clone()].concat() } else { [vec![c.clone()], w.clone(), p.clone(), v.clone()].concat() };
            let j = mk(&a, &d);
            let o = cli.run(&j);
            st.step();
            st.trace();
            st.outcome(&o.code);
            if o.ok() || !o.clean() || o.err.is_empty() || !o.out.is_empty() || o.files.values().any(|b| !b.is_empty()) {
                st.fail(format!("{} is not refused: {}", j.line(), o.show()), j.replay());
            }
        }
    });
}
