//! C30: the print command.
use crate::c17::verdict;
use crate::cli::{Cli, Line, bad, cat, job, line, raw};
use crate::cx::{Cx, Radix, seqs};
use crate::rec::{MF, MR, accepts, f, ser};

/// The text of a record: one line per field and a blank line.
fn text(r: &MR, tr: &dyn Fn(&str) -> String) -> String {
    let mut s = String::new();
    for m in r {
        s.push_str(&m.tag);
        if let Some(o) = &m.occ {
            s.push('/');
            s.push_str(o);
        }
        for (c, v) in &m.subs {
            s.push_str(&format!(" ${c} {}", tr(&String::from_utf8_lossy(v))));
        }
        s.push('\n');
    }
    s.push('\n');
    s
}

/// Reads the text back, if no value looks like layout.
fn back(t: &str) -> Option<Vec<MR>> {
    let mut out = vec![];
    for block in t.split_inclusive("\n\n") {
        let mut r = vec![];
        for l in block.strip_suffix("\n\n")?.split('\n') {
            let (head, rest) = l.split_once(" $").map_or((l, None), |x| (x.0, Some(x.1)));
            let (tag, occ) = head.split_once('/').map_or((head, None), |x| (x.0, Some(x.1.to_string())));
            let mut subs = vec![];
            if let Some(rest) = rest {
                for s in rest.split(" $") {
                    subs.push((s.chars().next()?, s.get(2..)?.as_bytes().to_vec()));
                }
            }
            r.push(MF { tag: tag.into(), occ, subs });
        }
        out.push(r);
    }
    Some(out)
}

fn id(s: &str) -> String {
    s.to_string()
}

pub fn run(cx: &Cx) {
    cx.assume("bytes that are not valid UTF-8 are printed as U+FFFD (the rule of the Unicode Standard) or unchanged");
    cx.assume("the text determines the record, unless a value starts with $ or contains it after a space (there is no escaping)");
    let cli = Cli::new("c30");

    // ---- every field -------------------------------------------------
    let tags = ["001A", "012@", "101@", "203@", "299Z"];
    let occs = [None, Some("00"), Some("01"), Some("10"), Some("99"), Some("001"), Some("123")];
    let codes = ['a', 'Z', '0', '9'];
    let vals: Vec<&[u8]> = vec![b"", b"x", b" ", b"$", b" $a x", b"\xc3\xa4", b"a\xcc\x88", b"\xff", b"a\xf0\x9fb\xe2\x82", b"\t\"\\", b"\xe2\x80\xa8\r", b"012A $a", b"\x1b[31m", b"\xf0\x9f\x98\x80"];
    let nsub = cx.pick(2, 3);
    let shapes = seqs(codes.len() * vals.len(), 0, nsub);
    let per = tags.len() * occs.len();
    let all = shapes.len() as u64 * per as u64;
    // quick: heads and bodies of fields paired, each with each other in
    // the small spaces
    let check = |st: &mut crate::cx::St, recs: &[MR], opts: &[&str]| {
        let input: Vec<u8> = recs.iter().flat_map(ser).collect();
        let want: String = recs.iter().map(|r| text(r, &id)).collect();
        let mut a = vec!["print"];
        a.extend(opts);
        let j = job(&a).stdin(&input);
        let o = cli.run(&j);
        let mut rawt = vec![];
        for r in recs {
            for m in r {
                rawt.extend(m.tag.bytes());
                if let Some(o) = &m.occ {
                    rawt.push(b'/');
                    rawt.extend(o.bytes());
                }
                for (c, v) in &m.subs {
                    rawt.extend(format!(" ${c} ").bytes());
                    rawt.extend(v);
                }
                rawt.push(b'\n');
            }
            rawt.push(b'\n');
        }
        verdict(st, &j, &o, o.ok() && (o.out == want.as_bytes() || o.out == rawt), &want);
        let plain = recs.iter().flatten().flat_map(|m| &m.subs).all(|s| !s.1.starts_with(b"$") && !s.1.windows(2).any(|w| w == b" $") && std::str::from_utf8(&s.1).is_ok());
        if plain && o.ok() && !o.out.is_empty() {
            let t = String::from_utf8_lossy(&o.out).into_owned();
            if back(&t).as_deref() != Some(recs) {
                st.fail(format!("the text does not determine the record: {t}"), j.replay());
            }
        }
    };
    // many fields in one run: records of 20 fields
    const B: u64 = 20;
    cx.space(
        "fields",
        &format!("every field of {} tags x {} occurrences x up to {nsub} subfields of {} codes x {} values, {B} fields in a record", tags.len(), occs.len(), codes.len(), vals.len()),
        all.div_ceil(B),
        |i, st| {
            let r: MR = (i * B..((i + 1) * B).min(all))
                .map(|x| {
                    let mut rx = Radix(x);
                    let t = rx.of(&tags);
                    let o = rx.of(&occs);
                    let s = &shapes[rx.take(shapes.len())];
                    MF { tag: t.to_string(), occ: o.map(|o| o.to_string()), subs: s.iter().map(|k| (codes[k % codes.len()], vals[k / codes.len()].to_vec())).collect() }
                })
                .collect();
            if !accepts(&ser(&r)) {
                st.fail("the harness built an invalid record", serde_json::json!({}));
                return;
            }
            check(st, &[r], &[]);
        },
    );

    // ---- every short record and stream --------------------------------
    let fields: Vec<MF> = vec![
        f("003@", &["01"]),
        f("012A", &["ax", "by"]),
        f("012A/01", &["a"]),
        f("012A/00", &["ax", "ax"]),
        f("101@", &[]),
        f("203@/001", &["0x y", "a "]),
        raw("013H", 'c', b"\xc3"),
    ];
    let rs = seqs(fields.len(), 1, cx.pick(3, 4));
    cx.space("records", &format!("all records of up to {} of {} fields", cx.pick(3, 4), fields.len()), rs.len() as u64, |i, st| {
        check(st, &[rs[i as usize].iter().map(|k| fields[*k].clone()).collect()], &[]);
    });
    let small = seqs(fields.len(), 1, 2);
    cx.space("pairs of records", &format!("all pairs of records of up to 2 of {} fields", fields.len()), (small.len() * small.len()) as u64, |i, st| {
        let mut rx = Radix(i);
        let r: Vec<MR> = (0..2).map(|_| rx.of(&small).iter().map(|k| fields[*k].clone()).collect()).collect();
        check(st, &r, &[]);
    });

    // ---- streams, limits and destinations --------------------------------
    let ls: Vec<Line> = vec![
        line("a", &fields[..2]),
        line("b", &fields[2..4]),
        line("c", &fields[4..]),
        bad("empty", b"\n"),
        bad("bad", b"003@ \x1f\n"),
    ];
    let ss = seqs(ls.len(), 0, cx.pick(4, 5));
    cx.space(
        "streams",
        &format!("all streams of up to {} of {} lines x limits 0..=2 x standard output, -o, two files", cx.pick(4, 5), ls.len()),
        (ss.len() * 9) as u64,
        |i, st| {
            let mut rx = Radix(i);
            let w = &ss[rx.take(ss.len())];
            let l = rx.take(3);
            let dest = rx.take(3);
            let lim = l.to_string();
            let mut a = vec!["print", "-s"];
            if l > 0 {
                a.extend(["-l", &lim]);
            }
            let input = cat(w.iter().map(|k| &ls[*k]));
            let cut: usize = w[..w.len() / 2].iter().map(|k| ls[*k].bytes.len()).sum();
            let mut j = match dest {
                0 => job(&a).stdin(&input),
                1 => {
                    a.extend(["-o", "o.txt"]);
                    job(&a).stdin(&input)
                }
                _ => {
                    a.extend(["a.dat", "-"]);
                    job(&a).file("a.dat", &input[..cut]).stdin(&input[cut..])
                }
            };
            if i % 2 == 1 {
                j = j.config(b"skip-invalid = false\n");
            }
            let want: String = w.iter().filter_map(|k| ls[*k].rec.as_ref()).take(if l == 0 { usize::MAX } else { l }).map(|r| text(r, &id)).collect();
            let o = cli.run(&j);
            let got = if dest == 1 { o.files.get("o.txt").cloned().unwrap_or_default() } else { o.out.clone() };
            let plain: String = want.clone();
            verdict(st, &j, &o, o.ok() && lossy(&got) == plain && (dest != 1 || o.out.is_empty()), &want);
        },
    );

    // ---- transliteration ----------------------------------------------------
    // (value, nfc, nfd, nfkc, nfkd)
    let toks: [[&str; 5]; 7] = [
        ["x$", "x$", "x$", "x$", "x$"],
        ["\u{e4}", "\u{e4}", "a\u{308}", "\u{e4}", "a\u{308}"],
        ["a\u{308}", "\u{e4}", "a\u{308}", "\u{e4}", "a\u{308}"],
        ["\u{212b}", "\u{c5}", "A\u{30a}", "\u{c5}", "A\u{30a}"],
        ["\u{fb01}", "\u{fb01}", "\u{fb01}", "fi", "fi"],
        ["s\u{307}\u{323}", "\u{1e69}", "s\u{323}\u{307}", "\u{1e69}", "s\u{323}\u{307}"],
        ["\u{bd}", "\u{bd}", "\u{bd}", "1\u{2044}2", "1\u{2044}2"],
    ];
    let ts = seqs(toks.len(), 1, cx.pick(3, 4));
    cx.space(
        "transliteration",
        &format!("all sequences of up to {} of {} tokens as one and as several values x 5 forms", cx.pick(3, 4), toks.len()),
        (ts.len() * 10) as u64,
        |i, st| {
            let mut rx = Radix(i);
            let w = &ts[rx.take(ts.len())];
            let n = rx.take(5);
            let one = rx.bool();
            // tokens in one value are separated, so that their normal
            // forms do not interact
            let make = |n: usize| -> MR {
                let v: Vec<String> = w.iter().map(|k| toks[*k][n].to_string()).collect();
                let mut m = f("012A/01", &[]);
                if one {
                    m.subs.push(('a', v.join("-").into_bytes()));
                } else {
                    m.subs.extend(v.into_iter().map(|v| ('a', v.into_bytes())));
                }
                vec![f("003@", &["01"]), m]
            };
            let input = ser(&make(0));
            let want = text(&make(n), &id);
            let mut a = vec!["print"];
            if n > 0 {
                a.extend(["--translit", ["", "nfc", "nfd", "nfkc", "nfkd"][n]]);
            }
            // the configuration is about filters, not about output
            let mut j = job(&a).stdin(&input);
            if i % 3 == 0 {
                j = j.config(b"skip-invalid = false\nnormalization = \"nfd\"\n");
            }
            let o = cli.run(&j);
            verdict(st, &j, &o, o.ok() && o.out == want.as_bytes(), &want);
        },
    );
    crate::c26::options(cx, &cli, &["print"]);
    crate::long::cli(cx, &cli);
    crate::prims::cli(cx, &cli);
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
