//! C29: configuration.
use std::collections::{BTreeMap, VecDeque};
use std::path::PathBuf;

use serde_json::json;

use crate::c17::verdict;
use crate::cli::{Cli, Job, Out, cat, job, lines};
use crate::cmds::CMDS;
use crate::cx::{Cx, Radix, esc, seqs};
use crate::rec::{f, ser};

type Content = Option<Vec<u8>>;
/// skip-invalid and normalization
type Abs = (bool, Option<&'static str>);
const FORMS: [&str; 4] = ["nfc", "nfkc", "nfd", "nfkd"];

/// Where the configuration file is.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Loc {
    Home,
    Option,
    Nested,
}

struct Place<'a> {
    cli: &'a Cli,
    loc: Loc,
}
impl Place<'_> {
    fn path(&self) -> PathBuf {
        let (wd, home) = self.cli.wd();
        match self.loc {
            Loc::Home => home.join(".config/pica/config.toml"),
            Loc::Option => wd.join("c.toml"),
            Loc::Nested => wd.join("x/y/c.toml"),
        }
    }
    fn dir(&self) -> PathBuf {
        self.path().parent().unwrap().to_path_buf()
    }
    fn put(&self, c: &Content) {
        let (wd, home) = self.cli.wd();
        for d in [home.join(".config/pica"), wd.clone()] {
            let _ = std::fs::remove_dir_all(&d);
        }
        std::fs::create_dir_all(&wd).unwrap();
        if let Some(b) = c {
            std::fs::create_dir_all(self.dir()).unwrap();
            std::fs::write(self.path(), b).unwrap();
        }
    }
    fn get(&self) -> Content {
        std::fs::read(self.path()).ok()
    }
    fn job<'a, S: AsRef<str>>(&self, a: &[S]) -> Job<'a> {
        let mut v: Vec<&str> = match self.loc {
            Loc::Home => vec![],
            Loc::Option => vec!["--config", "c.toml"],
            Loc::Nested => vec!["-c", "x/y/c.toml"],
        };
        v.extend(a.iter().map(|s| s.as_ref()));
        job(&v).keep()
    }
    fn run<S: AsRef<str>>(&self, a: &[S]) -> Out {
        self.cli.run(&self.job(a))
    }
    /// Both options, if the configuration is accepted.
    fn read(&self) -> Result<(String, String), String> {
        let a = self.run(&["config", "--get", "skip-invalid"]);
        let b = self.run(&["config", "--get", "normalization"]);
        for o in [&a, &b] {
            if !o.clean() || o.ok() == o.out.is_empty() || o.ok() != o.err.is_empty() {
                return Err(o.show());
            }
        }
        if a.ok() != b.ok() {
            return Err(format!("one option can be read, the other not: {} {}", a.show(), b.show()));
        }
        let t = |o: Out| String::from_utf8_lossy(&o.out).into_owned();
        Ok((t(a), t(b)))
    }
}

#[derive(Clone, Debug)]
enum Op {
    GetS,
    GetN,
    SetS(bool),
    SetN(&'static str),
    UnsetS,
    UnsetN,
    Bad,
}

fn ops() -> Vec<(Vec<&'static str>, Op)> {
    let mut v: Vec<(Vec<&'static str>, Op)> = vec![
        (vec!["skip-invalid"], Op::GetS),
        (vec!["--get", "skip-invalid"], Op::GetS),
        (vec!["normalization"], Op::GetN),
        (vec!["--get", "normalization"], Op::GetN),
        (vec!["skip-invalid", "true"], Op::SetS(true)),
        (vec!["--set", "skip-invalid", "true"], Op::SetS(true)),
        (vec!["skip-invalid", "false"], Op::SetS(false)),
        (vec!["--unset", "skip-invalid"], Op::UnsetS),
        (vec!["--unset", "normalization"], Op::UnsetN),
        (vec!["--set", "normalization", "nfd"], Op::SetN("nfd")),
    ];
    for n in FORMS {
        v.push((vec!["normalization", n], Op::SetN(n)));
    }
    for b in [
        vec!["skip-invalid", "yes"],
        vec!["skip-invalid", "TRUE"],
        vec!["skip-invalid", "1"],
        vec!["skip-invalid", ""],
        vec!["skip-invalid", "nfd"],
        vec!["normalization", "NFC"],
        vec!["normalization", "nfx"],
        vec!["normalization", ""],
        vec!["normalization", "true"],
        vec!["normalization", "None"],
        vec!["foo"],
        vec!["foo", "true"],
        vec!["--unset", "foo"],
        vec!["--get", "skip_invalid"],
        vec!["skip_invalid", "true"],
        vec!["Normalization", "nfc"],
        vec![""],
        vec![],
        vec!["--set", "skip-invalid"],
        vec!["--get", "skip-invalid", "true"],
        vec!["--unset", "normalization", "nfd"],
        vec!["--get", "--unset", "skip-invalid"],
        vec!["--set", "--unset", "normalization", "nfc"],
        vec!["skip-invalid", "true", "false"],
    ] {
        v.push((b, Op::Bad));
    }
    v
}

fn initial() -> Vec<(&'static str, Abs)> {
    vec![
        ("normalization = \"nfd\"\nskip-invalid = true\n", (true, Some("nfd"))),
        ("# comment\nskip-invalid   =   false\n\n\nnormalization = 'nfkc'", (false, Some("nfkc"))),
        ("skip-invalid = true", (true, None)),
        ("skip-invalid = false\r\nnormalization = \"nfc\" # x\r\n", (false, Some("nfc"))),
        ("\"skip-invalid\" = true\n'normalization' = \"nfkd\"\n", (true, Some("nfkd"))),
    ]
}

/// Tokens and their normal forms, in the order of FORMS.
const TOKENS: [(&str, [&str; 4]); 6] = [
    ("x", ["x", "x", "x", "x"]),
    ("\u{e4}", ["\u{e4}", "\u{e4}", "a\u{308}", "a\u{308}"]),
    ("a\u{308}", ["\u{e4}", "\u{e4}", "a\u{308}", "a\u{308}"]),
    ("\u{212b}", ["\u{c5}", "\u{c5}", "A\u{30a}", "A\u{30a}"]),
    ("\u{fb01}", ["\u{fb01}", "fi", "\u{fb01}", "fi"]),
    ("\u{1e69}", ["\u{1e69}", "\u{1e69}", "s\u{323}\u{307}", "s\u{323}\u{307}"]),
];

pub fn run(cx: &Cx) {
    cx.assume("configuration commands do not run at the same time");
    cx.assume("a crash ends the process; the operating system does not lose what was written and renamed before");
    cx.assume("on Linux the file is $HOME/.config/pica/config.toml, unless --config names another one");
    let cli = Cli::new("c29");
    let ops = ops();

    // ---- all reachable states ---------------------------------------
    let starts: Vec<(Loc, Content, Abs)> = [Loc::Home, Loc::Option, Loc::Nested]
        .into_iter()
        .flat_map(|l| {
            let mut v = vec![(l, None, (false, None))];
            v.extend(initial().into_iter().map(|(c, a)| (l, Some(c.as_bytes().to_vec()), a)));
            v
        })
        .collect();
    cx.space(
        "states of the file",
        &format!("all states of the configuration file that any sequence of the {} config commands reaches (breadth first, to the fixed point), from no file and {} written by hand, in 3 places", ops.len(), initial().len()),
        starts.len() as u64,
        |i, st| {
            let (loc, start, abs) = &starts[i as usize];
            let p = Place { cli: &cli, loc: *loc };
            let mut seen: BTreeMap<Content, (Abs, Vec<String>)> = BTreeMap::new();
            let mut todo = VecDeque::new();
            seen.insert(start.clone(), (*abs, vec![]));
            todo.push_back(start.clone());
            while let Some(c) = todo.pop_front() {
                let (abs, hist) = seen[&c].clone();
                st.state();
                if seen.len() > 60 {
                    st.fail("the configuration file grows without bound", json!({"history": hist}));
                    return;
                }
                for (a, op) in &ops {
                    p.put(&c);
                    let mut v = vec!["config"];
                    v.extend(a);
                    let j = p.job(&v);
                    let o = cli.run(&j);
                    let after = p.get();
                    st.step();
                    st.trace();
                    let mut want = abs;
                    let mut text = String::new();
                    match op {
                        Op::GetS => text = format!("{}\n", abs.0),
                        Op::GetN => text = format!("{}\n", abs.1.unwrap_or("None")),
                        Op::SetS(b) => want.0 = *b,
                        Op::SetN(n) => want.1 = Some(n),
                        Op::UnsetS => want.0 = false,
                        Op::UnsetN => want.1 = None,
                        Op::Bad => {}
                    }
                    let changes = matches!(op, Op::SetS(_) | Op::SetN(_) | Op::UnsetS | Op::UnsetN);
                    let mut h = hist.clone();
                    h.push(j.line());
                    let ok = if matches!(op, Op::Bad) {
                        !o.ok() && o.clean() && !o.err.is_empty() && o.out.is_empty()
                    } else {
                        o.ok() && o.out == text.as_bytes() && o.err.is_empty()
                    };
                    let mut why = "";
                    if !ok {
                        why = "unexpected result";
                    } else if !changes && after != c {
                        why = "the file changes";
                    } else if changes && after.is_none() {
                        why = "the file is not written";
                    } else if changes {
                        if let Some((b, _)) = seen.get(&after) {
                            if *b != want {
                                why = "two configurations share a file content";
                            }
                        } else {
                            seen.insert(after.clone(), (want, h.clone()));
                            todo.push_back(after.clone());
                        }
                    }
                    if !why.is_empty() {
                        st.fail(
                            format!("config: {why}: {}", j.line()),
                            json!({"history": h, "start": start.as_ref().map(|b| esc(b)), "before": c.as_ref().map(|b| esc(b)), "after": after.as_ref().map(|b| esc(b)), "result": o.show(), "expected": text, "model": format!("{want:?}")}),
                        );
                        return;
                    }
                    // nothing else is written
                    let others = p.dir().read_dir().map(|d| d.count()).unwrap_or(0);
                    if others > 1 {
                        st.fail("config leaves other files behind", json!({"history": h}));
                        return;
                    }
                }
            }
            st.outcome(&(i, seen.len()));
            st.sample(|| json!({"place": format!("{loc:?}"), "states": seen.iter().map(|(c, a)| json!([c.as_ref().map(|b| esc(b)), format!("{:?}", a.0), a.1])).collect::<Vec<_>>()}));
        },
    );

    // ---- other configurations are independent -------------------------
    cx.space("separate files", "--config and the home directory: commands on the one leave the other alone", (4 * ops.len()) as u64, |i, st| {
        let mut rx = Radix(i);
        let variant = rx.take(4);
        let (a, _) = &ops[rx.take(ops.len())];
        let h = Place { cli: &cli, loc: Loc::Home };
        let o = Place { cli: &cli, loc: Loc::Option };
        let one = b"skip-invalid = true\nnormalization = \"nfkd\"\n".to_vec();
        let (here, there) = if variant % 2 == 0 { (&h, &o) } else { (&o, &h) };
        let content = if variant < 2 { Some(one) } else { None };
        here.put(&content);
        let _ = std::fs::create_dir_all(h.dir());
        if let Some(b) = &content {
            std::fs::write(there.path(), b).unwrap();
        }
        let mut v = vec!["config"];
        v.extend(a);
        let j = here.job(&v);
        let r = cli.run(&j);
        verdict(st, &j, &r, r.clean() && there.get() == content, "the other configuration is unchanged");
    });

    // ---- damaged files --------------------------------------------------
    let full: Vec<&str> = vec![
        "skip-invalid = true\nnormalization = \"nfd\"\n",
        "skip-invalid = false\n",
        "skip-invalid = false\nnormalization = \"nfkc\"\n",
        "skip-invalid = true\n",
    ];
    let subst: &[u8] = b"\0\n \"=x#\xff[,\x1f'";
    let mut bad: Vec<(String, Vec<u8>, bool)> = vec![];
    for c in full.iter().take(cx.pick(3, 4)) {
        let b = c.as_bytes();
        for n in 0..b.len() {
            // a line that is cut off inside is no setting; the last
            // line may end without a newline
            let last = b[..n].rsplit(|x| *x == b'\n').next().unwrap();
            let complete = last.is_empty() || (b[n] == b'\n' && n > 0);
            bad.push((format!("the first {n} bytes of {c:?}"), b[..n].to_vec(), !complete));
        }
        for n in 0..b.len() {
            let mut d = b.to_vec();
            d.remove(n);
            bad.push((format!("{c:?} without byte {n}"), d, false));
            for x in subst {
                if *x != b[n] {
                    let mut d = b.to_vec();
                    d[n] = *x;
                    bad.push((format!("{c:?} with byte {n} = {x:#x}"), d, false));
                }
            }
        }
        bad.push((format!("{c:?} twice"), [b, b].concat(), true));
    }
    for x in [&b"skip-invalid = \"true\"\n"[..], b"skip-invalid = 1\n", b"skip-invalid = true\nnormalization = \"NFC\"\n", b"skip-invalid = true\nnormalization = \"\"\n", b"skip-invalid = true\nnormalization = nfc\n", b"skip-invalid = true\nnormalization = 1\n", b"{\"skip-invalid\": true}", b"\xff\xfe", b"\xef\xbb\xbfskip-invalid = tr", b"[skip-invalid]\n", b"skip-invalid = true = false\n"] {
        bad.push((esc(x), x.to_vec(), true));
    }
    let rec = ser(&vec![f("003@", &["01"])]);
    let mixed = [b"x\n".to_vec(), rec].concat();
    cx.space(
        "damaged files",
        &format!("every truncation, removal of a byte and substitution by {} bytes of {} files, and other malformed files: all refuse it or all agree", subst.len(), cx.pick(3, 4)),
        bad.len() as u64,
        |i, st| {
            let (what, c, refuse) = &bad[i as usize];
            let p = Place { cli: &cli, loc: if i % 2 == 0 { Loc::Home } else { Loc::Option } };
            let content = Some(c.clone());
            p.put(&content);
            st.state();
            st.trace();
            let got = match p.read() {
                Ok(g) => g,
                Err(e) => {
                    st.fail(format!("config --get with {what}: {e}"), json!({"config": esc(c)}));
                    return;
                }
            };
            let accepted = !got.0.is_empty();
            st.outcome(&(accepted, &got));
            if i % 3 == 0 {
                st.sample(|| json!({"config": esc(c), "read": format!("{got:?}")}));
            }
            let mut fail = |m: &str, o: &Out| {
                st.fail(format!("{m} ({what})"), json!({"config": esc(c), "read": format!("{got:?}"), "result": o.show(), "file afterwards": p.get().map(|b| esc(&b))}));
            };
            let count = p.job(&["count", "--records"]).stdin(&mixed);
            let o = cli.run(&count);
            if accepted {
                let s = got.0.trim_end();
                let n = got.1.trim_end();
                if *refuse || !["true", "false"].contains(&s) || !(n == "None" || FORMS.contains(&n)) {
                    return fail("a damaged configuration file is accepted", &o);
                }
                if !o.clean() || o.ok() != (s == "true") {
                    return fail("skip-invalid has no effect", &o);
                }
                let (ns, other) = if s == "true" { ("false", "true") } else { ("true", "false") };
                let o = p.run(&["config", "skip-invalid", ns]);
                if !o.ok() || p.read() != Ok((format!("{ns}\n"), format!("{n}\n"))) {
                    return fail("setting an option changes another one", &o);
                }
                let o = p.run(&["config", "skip-invalid", other]);
                if !o.ok() || p.read() != Ok((format!("{other}\n"), format!("{n}\n"))) {
                    return fail("setting an option changes another one", &o);
                }
            } else {
                if o.ok() || !o.clean() || o.err.is_empty() {
                    return fail("a command ignores a malformed configuration file", &o);
                }
                for a in [&["config", "skip-invalid", "true"][..], &["config", "--unset", "normalization"], &["config", "normalization", "nfc"]] {
                    let o = p.run(a);
                    if o.ok() || !o.clean() || o.err.is_empty() || p.get() != content {
                        return fail("a malformed configuration file is overwritten", &o);
                    }
                }
            }
        },
    );

    // ---- crashes and write errors ---------------------------------------
    let olds: Vec<Content> = vec![
        None,
        Some(b"skip-invalid = true\nnormalization = \"nfd\"\n".to_vec()),
        Some(b"skip-invalid = false\n".to_vec()),
        Some(b"normalization = \"nfkc\"\nskip-invalid = true # a longer file, written by hand\n".to_vec()),
    ];
    let muts: Vec<Vec<&str>> = vec![
        vec!["config", "skip-invalid", "true"],
        vec!["config", "skip-invalid", "false"],
        vec!["config", "normalization", "nfkd"],
        vec!["config", "--unset", "normalization"],
        vec!["config", "--unset", "skip-invalid"],
    ];
    let mut kinds: Vec<String> = vec!["kill".into(), "eintr".into(), "err:28".into(), "err:5".into(), "err:13".into()];
    for k in 0..cx.pick(24, 64) {
        kinds.push(format!("torn:{k}"));
        kinds.push(format!("short:{k}"));
    }
    cx.space(
        "crashes and write errors",
        &format!("{} files x {} commands x 2 places x {} faults at every call that changes a file or its name", olds.len(), muts.len(), kinds.len()),
        (olds.len() * muts.len() * 2 * kinds.len()) as u64,
        |i, st| {
            let mut rx = Radix(i);
            let old = &olds[rx.take(olds.len())];
            let m = &muts[rx.take(muts.len())];
            let p = Place { cli: &cli, loc: [Loc::Home, Loc::Option][rx.take(2)] };
            let kind = &kinds[rx.take(kinds.len())];
            if kind == "short:0" {
                return;
            }
            p.put(old);
            let o = p.run(m);
            let new = p.get();
            if !o.ok() || new.is_none() {
                st.fail("a config command fails", json!({"result": o.show()}));
                return;
            }
            let is_write = kind.starts_with("short") || kind.starts_with("torn");
            for n in 0.. {
                let fault = match kind.split_once(':') {
                    Some((k, a)) => format!("{}:{k}:{n}:{a}", if k == "short" { 'w' } else { 'a' }),
                    None => format!("a:{kind}:{n}"),
                };
                p.put(old);
                let j = p.job(m).fault(fault);
                let o = cli.run(&j);
                if !o.hit {
                    break;
                }
                st.state();
                st.step();
                st.trace();
                let got = p.get();
                st.outcome(&(kind, n, o.code, got == *old, got == new));
                st.sample(|| j.replay());
                let (is_old, is_new) = (got == *old, got == new);
                let ok = match o.code {
                    0 => is_new,
                    77 => is_old || is_new,
                    _ => (is_old || is_new) && o.clean() && !o.err.is_empty(),
                };
                // partial and interrupted writes are no errors
                let ok = ok && (o.code == 0 || o.code == 77 || !kind.starts_with("short"));
                let _ = is_write;
                if !ok {
                    st.fail(
                        "the configuration is damaged by a crash or write error",
                        json!({"run": j.replay(), "before": old.as_ref().map(|b| esc(b)), "after": got.map(|b| esc(&b)), "complete": new.map(|b| esc(&b)), "result": o.show()}),
                    );
                    return;
                }
            }
        },
    );
    cx.space("full disk", "4 files x 5 commands x every file size limit up to 60", (olds.len() * muts.len() * 61) as u64, |i, st| {
        let mut rx = Radix(i);
        let old = &olds[rx.take(olds.len())];
        let m = &muts[rx.take(muts.len())];
        let n = rx.take(61);
        let p = Place { cli: &cli, loc: Loc::Option };
        p.put(old);
        let _ = p.run(m);
        let new = p.get();
        p.put(old);
        let j = p.job(m).fsize(n as u64);
        let o = cli.run(&j);
        let got = p.get();
        let fits = new.as_ref().is_some_and(|b| b.len() <= n);
        verdict(st, &j, &o, if fits { o.ok() && got == new } else { !o.ok() && o.clean() && got == *old }, "the new file, or an error and the old file");
    });

    // ---- skip-invalid like the option --------------------------------------
    let ls = lines();
    let ss = seqs(ls.len(), 0, cx.pick(2, 3));
    cx.space("skip-invalid", &format!("{} commands x all streams of up to {} of {} lines: skip-invalid = true is like -s, false like no option, and -s wins", CMDS.len(), cx.pick(2, 3), ls.len()), (CMDS.len() * ss.len()) as u64, |i, st| {
        let mut rx = Radix(i);
        let c = &CMDS[rx.take(CMDS.len())];
        let w = &ss[rx.take(ss.len())];
        let input = cat(w.iter().map(|x| &ls[*x]));
        let opt = c.on(&cli, &["-s"], &input);
        let none = c.on(&cli, &[], &input);
        for (conf, o, want) in [(&b"skip-invalid = true\n"[..], &[][..], &opt), (b"skip-invalid = false\n", &[], &none), (b"skip-invalid = false\n", &["-s"], &opt), (b"skip-invalid = true\nnormalization = \"nfc\"\n", &[], &opt)] {
            let j = c.job(o, &["in.dat"]).file("in.dat", &input).config(conf);
            let r = cli.run(&j);
            verdict(st, &j, &r, (r.code, &r.out, &r.files) == (want.code, &want.out, &want.files), &want.show());
        }
    });

    // ---- normalization ---------------------------------------------------------
    // values: every token and every normal form
    let mut vals: Vec<&str> = TOKENS.iter().flat_map(|t| t.1.iter().copied().chain([t.0])).collect();
    vals.sort();
    vals.dedup();
    let pop: Vec<Vec<u8>> = vals.iter().enumerate().map(|(k, v)| ser(&vec![f("003@", &[&format!("0{k}")]), f("012A", &[&format!("a{v}"), &format!("b{v}-")])])).collect();
    let stream = pop.concat();
    // commands, with the position of the expression
    type Build = fn(&str, &str) -> Vec<String>;
    fn v(a: &[&str]) -> Vec<String> {
        a.iter().map(|s| s.to_string()).collect()
    }
    // (name, arguments, the expression is in a file)
    let wheres: Vec<(String, usize)> = CMDS.iter().enumerate().filter(|c| c.1.filt).map(|c| (c.1.name.to_string(), c.0)).collect();
    let exprs: Vec<fn(&str) -> String> = vec![
        |t| format!("012A.a == '{t}'"),
        |t| format!("012A.a != '{t}'"),
        |t| format!("012A.b =^ '{t}'"),
        |t| format!("012A.b =? '{t}'"),
        |t| format!("012A.a in ['{t}', 'q']"),
        |t| format!("012A.a =~ '^{t}$'"),
        |t| format!("!012A{{a == '{t}'}} && 003@?"),
    ];
    let builds: Vec<(&str, Build, bool)> = vec![
        ("filter", |e, _| v(&["filter", e]), false),
        ("filter -v", |e, _| v(&["filter", "-v", e]), false),
        ("filter --and", |e, _| v(&["filter", "003@?", "--and", e]), false),
        ("filter --or", |e, _| v(&["filter", "099X?", "--or", e]), false),
        ("filter --not", |e, _| v(&["filter", "003@?", "--not", e]), false),
        ("filter --file", |_, _| v(&["filter", "--file", "e.txt"]), true),
        ("count --and", |e, _| v(&["count", "--where", "003@?", "--and", e]), false),
        ("select", |_, t| v(&["select", &format!("003@.0, 012A{{ b | a == '{t}' }}, '{t}'")]), false),
        ("frequency", |_, t| v(&["frequency", &format!("012A{{ b | a == '{t}' }}")]), false),
        ("check", |_, _| v(&["check", "-R", "e.txt"]), true),
    ];
    let nb = builds.len() + wheres.len();
    cx.space(
        "normalization",
        &format!("{nb} uses of expressions x {} expressions x {} tokens x (4 forms and none) on {} records: like the expression in that form without configuration, and values are never changed", exprs.len(), TOKENS.len(), pop.len()),
        (nb * exprs.len() * TOKENS.len() * 5) as u64,
        |i, st| {
            let mut rx = Radix(i);
            let b = rx.take(nb);
            let e = rx.take(exprs.len());
            let (tok, forms) = &TOKENS[rx.take(TOKENS.len())];
            let n = rx.take(5);
            // without configuration nothing is transformed
            let target = if n < 4 { forms[n] } else { tok };
            let conf: Option<Vec<u8>> = if n < 4 { Some(format!("skip-invalid = false\nnormalization = \"{}\"\n", FORMS[n]).into_bytes()) } else { None };
            let (x, y) = (exprs[e](tok), exprs[e](target));
            let rule = |s: &str| format!("[rule.T]\ncheck = \"filter\"\nfilter = \"{s}\"\n");
            let make = |e: &str, t: &str| -> (Vec<String>, String) {
                if b < builds.len() {
                    let (name, f, _) = builds[b];
                    (f(e, t), if name == "check" { rule(e) } else { e.to_string() })
                } else {
                    (CMDS[wheres[b - builds.len()].1].job(&["--where", e], &[]).args, String::new())
                }
            };
            let (a1, f1) = make(&x, tok);
            let (a2, f2) = make(&y, target);
            let rules = crate::cmds::RULES.as_bytes();
            let mut j1 = job(&a1).stdin(&stream).file("e.txt", f1.as_bytes()).file("rules.toml", rules);
            let j2 = job(&a2).stdin(&stream).file("e.txt", f2.as_bytes()).file("rules.toml", rules);
            if let Some(c) = &conf {
                j1 = j1.config(c);
            }
            let (o1, o2) = (cli.run(&j1), cli.run(&j2));
            verdict(st, &j1, &o1, o1.ok() && (o1.code, &o1.out, &o1.files) == (o2.code, &o2.out, &o2.files), &format!("like {}: {}", j2.line(), o2.show()));
            // the meaning of the first expression
            if b == 0 && e == 0 {
                let want: Vec<u8> = vals.iter().zip(&pop).filter(|x| *x.0 == target).flat_map(|x| x.1.clone()).collect();
                verdict(st, &j1, &o1, o1.out == want, "the records with the normalised value");
            }
        },
    );
}
