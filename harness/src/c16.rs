//! C16: every input line is processed or reported.
use std::sync::Mutex;

use serde_json::json;

use crate::c02::gzip;
use crate::cli::{Cli, Line, bad, cat, job, lines};
use crate::cmds::{CMDS, effects};
use crate::cx::{Cx, Radix, St, esc, seqs};

fn fail(st: &mut St, j: &crate::cli::Job, o: &crate::cli::Out, want: String) {
    st.fail(
        format!("{}: {}; expected {want}", j.line(), o.show()),
        json!({"run": j.replay(), "expected": want, "got": o.show()}),
    );
}

pub fn run(cx: &Cx) {
    let cli = Cli::new("c16");
    let all = lines();
    let pick = |ns: &[&str]| -> Vec<Line> {
        ns.iter()
            .map(|n| all.iter().find(|l| l.name == *n).unwrap().clone())
            .collect()
    };

    // the invalid command
    let mut a = pick(&["p1", "raw", "empty", "tag", "rs"]);
    a.push(bad("code", b"012A \x1f!x\x1e\n"));
    a.push(bad("blank", b" \n"));
    a.push(bad("cr", b"012A \x1fax\x1e\r\n"));
    a.push(bad("occ", b"012A/1 \x1fax\x1e\n"));
    a.push(bad("garbage", b"\xff\x00\x1e\n"));
    let tails: [&[u8]; 3] = [b"", b"003@ \x1f01\x1e", b"x"];
    let words = seqs(a.len(), 0, cx.pick(2, 3));
    cx.space(
        "invalid",
        "every sequence of up to 2 (thorough: 3) of 10 lines x unterminated rest x \
         file/stdin/gzip/split over two files",
        words.len() as u64 * 3 * 4,
        |i, st| {
            let mut x = Radix(i);
            let w = x.of(&words);
            let tail = *x.of(&tails);
            let mode = x.take(4);
            let mut b = cat(w.iter().map(|i| &a[*i]));
            b.extend_from_slice(tail);
            let mut inv = cat(
                w.iter().map(|i| &a[*i]).filter(|l| l.rec.is_none()),
            );
            inv.extend_from_slice(tail);
            let gz = gzip(&b);
            let cut = w.first().map_or(0, |i| a[*i].bytes.len());
            let j = match mode {
                0 => job(&["invalid", "a.dat"]).file("a.dat", &b),
                1 => job(&["invalid"]).stdin(&b),
                2 => job(&["invalid", "a.dat.gz", "-o", "o"])
                    .file("a.dat.gz", &gz),
                _ => job(&["invalid", "a.dat", "b.dat"])
                    .file("a.dat", &b[..cut])
                    .file("b.dat", &b[cut..]),
            };
            let o = cli.run(&j);
            st.state();
            st.trace();
            st.transitions += w.len() as u64;
            st.outcome(&o);
            let got = if mode == 2 {
                o.files.get("o").cloned().unwrap_or_default()
            } else {
                o.out.clone()
            };
            st.sample(|| json!({"run": j.replay(), "got": o.show()}));
            if o.code != 0 || got != inv {
                fail(st, &j, &o, esc(&inv));
            }
        },
    );

    // every command with and without the skip option
    let b = pick(&["p1", "p2", "tag", "rs"]);
    let words: Vec<_> = seqs(b.len(), 0, cx.pick(3, 4))
        .into_iter()
        .filter(|w| w.len() < 4 || w.iter().any(|i| *i > 1))
        .collect();
    // the result on the valid lines only, per command
    let memo: Vec<Mutex<std::collections::HashMap<Vec<u8>, crate::cli::Out>>> =
        CMDS.iter().map(|_| Default::default()).collect();
    cx.space(
        "commands",
        "19 commands x every sequence of up to 3 (thorough: 4) lines over two records and two \
         invalid lines x --skip-invalid, the configuration, or neither x file/stdin",
        words.len() as u64 * CMDS.len() as u64 * 3,
        |i, st| {
            let mut x = Radix(i);
            let skip = x.take(3);
            let ci = x.take(CMDS.len());
            let c = &CMDS[ci];
            let w = x.of(&words);
            let input = cat(w.iter().map(|i| &b[*i]));
            let valid =
                cat(w.iter().map(|i| &b[*i]).filter(|l| l.rec.is_some()));
            let first = w.iter().position(|i| b[*i].rec.is_none());
            let cached = memo[ci].lock().unwrap().get(&valid).cloned();
            let clean = match cached {
                Some(o) => o,
                None => {
                    let o = c.on(&cli, &[], &valid);
                    memo[ci].lock().unwrap().insert(valid.clone(), o.clone());
                    o
                }
            };
            let opts: &[&str] = if skip == 1 { &["--skip-invalid"] } else { &[] };
            let stdin = i % 5 == 0;
            let mut j = if stdin {
                c.job(opts, &[]).stdin(&input)
            } else {
                c.job(opts, &["in.dat"]).file("in.dat", &input)
            };
            if skip == 2 {
                j = j.config(b"skip-invalid = true\n");
            }
            let o = cli.run(&j);
            st.state();
            st.trace();
            st.transitions += w.len() as u64;
            st.outcome(&o);
            st.sample(|| json!({"run": j.replay(), "got": o.show()}));
            if clean.code != 0 {
                fail(st, &j, &clean, "success on the valid lines".into());
                return;
            }
            match first {
                Some(n) if skip == 0 => {
                    let src = if stdin { "stdin" } else { "in.dat" };
                    let msg = String::from_utf8_lossy(&o.err).to_string();
                    if o.code <= 0
                        || !o.clean()
                        || !msg.contains(&format!("line {} ", n + 1))
                        || !msg.contains(src)
                    {
                        fail(st, &j, &o, format!("an error naming line {} of {src}", n + 1));
                    }
                }
                _ => {
                    if o.code != 0 || effects(&o) != effects(&clean) {
                        fail(st, &j, &o, clean.show());
                    }
                }
            }
        },
    );

    // several inputs: line numbers restart, order is kept
    cx.space(
        "second input",
        "19 commands x an invalid line at every position of the second of two inputs",
        CMDS.len() as u64 * 3,
        |i, st| {
            let mut x = Radix(i);
            let c = x.of(CMDS);
            let n = x.take(3);
            let one = cat([&b[0], &b[1]]);
            let mut two: Vec<u8> = vec![];
            for k in 0..3 {
                two.extend_from_slice(
                    &b[if k == n { 2 } else { k % 2 }].bytes,
                );
            }
            let j = c
                .job::<&str>(&[], &["one.dat", "two.dat"])
                .file("one.dat", &one)
                .file("two.dat", &two);
            let o = cli.run(&j);
            st.state();
            st.trace();
            st.step();
            st.outcome(&o);
            st.sample(|| json!({"run": j.replay(), "got": o.show()}));
            let msg = String::from_utf8_lossy(&o.err).to_string();
            if o.code <= 0
                || !o.clean()
                || !msg.contains(&format!("line {} ", n + 1))
                || !msg.contains("two.dat")
            {
                fail(st, &j, &o, format!("an error naming line {} of two.dat", n + 1));
            }
        },
    );

    // broken inputs
    let doc: Vec<u8> = cat([&b[0], &b[1], &b[0]]);
    let gz = gzip(&doc);
    let two = {
        let mut v = gzip(&b[0].bytes);
        let n = v.len();
        v.extend(gzip(&b[1].bytes));
        (v, n)
    };
    let n = gz.len() as u64;
    let nc = CMDS.len() as u64 + 1;
    let name = |c: usize| {
        if c < CMDS.len() { CMDS[c].name } else { "invalid" }
    };
    let mk = |c: usize, f: &'static str, skip: bool| {
        let s: &[&str] = if skip { &["--skip-invalid"] } else { &[] };
        if c < CMDS.len() {
            CMDS[c].job(s, &[f])
        } else {
            job(&["invalid", f])
        }
    };
    cx.space(
        "truncated gzip",
        "20 commands x gzip input truncated at every byte x skip invalid",
        n * nc * 2,
        |i, st| {
            let mut x = Radix(i);
            let c = x.take(nc as usize);
            let skip = x.bool();
            let k = x.take(n as usize);
            let j = mk(c, "in.dat.gz", skip).file("in.dat.gz", &gz[..k]);
            let o = cli.run(&j);
            st.state();
            st.trace();
            st.step();
            st.outcome(&(o.code, name(c)));
            // an empty file has no members
            if (o.code <= 0 && k > 0) || !o.clean() {
                fail(st, &j, &o, format!("an error: {k} of {n} bytes"));
            }
        },
    );
    cx.space(
        "truncated second member",
        "20 commands x a gzip file of two members truncated at every byte",
        two.0.len() as u64 * nc,
        |i, st| {
            let mut x = Radix(i);
            let c = x.take(nc as usize);
            let k = x.take(two.0.len());
            let j =
                mk(c, "in.dat.gz", true).file("in.dat.gz", &two.0[..k]);
            let o = cli.run(&j);
            st.state();
            st.trace();
            st.step();
            st.outcome(&(o.code, name(c)));
            let ok = k == 0 || k == two.1;
            if !o.clean() || (k > 0 && (o.code == 0) != ok) {
                fail(
                    st,
                    &j,
                    &o,
                    format!("success: {ok}; {k} of {} bytes", two.0.len()),
                );
            }
        },
    );
    cx.space(
        "corrupted gzip",
        "20 commands x every byte of a gzip file x 3 changes x skip invalid",
        n * 3 * nc * 2,
        |i, st| {
            let mut x = Radix(i);
            let c = x.take(nc as usize);
            let d = [0x01u8, 0x80, 0xff][x.take(3)];
            let skip = x.bool();
            let k = x.take(n as usize);
            let mut g = gz.clone();
            g[k] ^= d;
            let j = mk(c, "in.dat.gz", skip).file("in.dat.gz", &g);
            let o = cli.run(&j);
            st.state();
            st.trace();
            st.step();
            st.outcome(&(o.code, name(c)));
            // the change of a header byte need not matter
            let ok = o.clean() && (o.code != 0 || {
                let want = cli.run(&mk(c, "in.dat.gz", skip).file("in.dat.gz", &gz));
                (&want.out, &want.files) == (&o.out, &o.files)
            });
            if !ok {
                fail(st, &j, &o, "an error or the contents".into());
            }
        },
    );
    // a file of several blocks and reads, with a valid beginning
    let large: Vec<u8> = {
        let mut h = 1u64;
        (0..6000u64)
            .flat_map(|k| {
                h = h.wrapping_mul(6364136223846793005).wrapping_add(k);
                format!("003@ \x1f0{k}\x1e012A \x1fa{h:x}\x1fb{k}\x1e\n").into_bytes()
            })
            .collect()
    };
    let lgz = gzip(&large);
    let places = cx.pick(150, 1500);
    cx.space(
        "corrupted large gzip",
        "5 commands x 150 (thorough 1500) places of a gzip file beyond 64 KiB x changed, cut, dropped and inserted bytes x skip invalid",
        places as u64 * 4 * 5 * 2,
        |i, st| {
            let mut x = Radix(i);
            let c = [0, 1, 4, 5, CMDS.len()][x.take(5)];
            let skip = x.bool();
            let mode = x.take(4);
            let k = x.take(places);
            // the last bytes are the checksum and the size
            let k = if k < 9 { lgz.len() - 9 + k } else { k * (lgz.len() - 9) / places };
            let mut g = lgz.clone();
            match mode {
                0 => g[k] ^= 0x55,
                1 => g.truncate(k),
                2 => {
                    g.remove(k);
                }
                _ => g.insert(k, !g[k]),
            }
            let j = mk(c, "in.dat.gz", skip).file("in.dat.gz", &g);
            let o = cli.run(&j);
            st.state();
            st.trace();
            st.step();
            st.outcome(&(o.code, name(c)));
            if o.code == 0 || !o.clean() {
                fail(st, &j, &o, format!("an error (change {mode} at {k} of {})", lgz.len()));
            }
        },
    );
    cx.space(
        "missing input",
        "20 commands x missing file, directory, missing second file",
        nc * 3 * 2,
        |i, st| {
            let mut x = Radix(i);
            let c = x.take(nc as usize);
            let mode = x.take(3);
            let skip = x.bool();
            let mut j = match mode {
                0 => mk(c, "missing.dat", skip),
                1 => mk(c, "dir", skip).file("dir/x", b""),
                _ => mk(c, "in.dat", skip).file("in.dat", &doc),
            };
            if mode == 2 {
                j.args.push("missing.dat".into());
            }
            let o = cli.run(&j);
            st.state();
            st.trace();
            st.step();
            st.outcome(&(o.code, name(c)));
            if o.code <= 0 || !o.clean() {
                fail(st, &j, &o, "an error".into());
            }
        },
    );
    crate::long::cli(cx, &cli);
    crate::prims::cli(cx, &cli);
}
