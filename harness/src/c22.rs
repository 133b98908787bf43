//! C22: conversion to other encodings preserves every record.
use serde_json::{Value, json};

use crate::cli::{Cli, job};
use crate::cx::{Cx, Radix, St, esc, seqs};
use crate::rec::{self, MF, MR, f, ser};

pub const FORMATS: [&str; 6] =
    ["plus", "binary", "import", "plain", "json", "xml"];

type Dec = Result<Vec<MR>, String>;

fn tagocc(b: &[u8]) -> Result<(String, Option<String>), String> {
    let s = std::str::from_utf8(b).map_err(|_| "tag".to_string())?;
    Ok(match s.split_once('/') {
        Some((t, o)) => (t.into(), Some(o.into())),
        None => (s.into(), None),
    })
}

fn plus(b: &[u8]) -> Dec {
    b.split_inclusive(|c| *c == b'\n')
        .map(|l| rec::parse(l).ok_or(format!("not a record: {}", esc(l))))
        .collect()
}

/// Fields terminated by RS, records by GS.
fn binary(b: &[u8]) -> Dec {
    let mut out = vec![];
    let mut cur = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1d {
            cur.push(b'\n');
            out.push(
                rec::parse(&cur)
                    .ok_or(format!("not a record: {}", esc(&cur)))?,
            );
            cur.clear();
            i += 1;
            continue;
        }
        let n = b[i..]
            .iter()
            .position(|c| *c == 0x1e)
            .ok_or("unterminated field")?;
        cur.extend_from_slice(&b[i..=i + n]);
        i += n + 1;
    }
    if cur.is_empty() { Ok(out) } else { Err("unterminated record".into()) }
}

/// Each record starts with the line "' GS", each field is a line that
/// starts with RS.
fn import(b: &[u8]) -> Dec {
    let mut out: Vec<MR> = vec![];
    for l in b.split_inclusive(|c| *c == b'\n') {
        let l = l.strip_suffix(b"\n").ok_or("unterminated line")?;
        if l == b"'\x1d" {
            out.push(vec![]);
        } else if let Some(x) = l.strip_prefix(b"\x1e") {
            let mut v = x.to_vec();
            v.extend(b"\x1e\n");
            let r = rec::parse(&v)
                .ok_or(format!("not a field: {}", esc(x)))?;
            out.last_mut().ok_or("field before record")?.extend(r);
        } else {
            return Err(format!("unexpected line {}", esc(l)));
        }
    }
    Ok(out)
}

/// One line per field, `$` is doubled, a blank line between records.
fn plain(b: &[u8]) -> Dec {
    let mut out: Vec<MR> = vec![];
    let mut cur: MR = vec![];
    if b.is_empty() {
        return Ok(out);
    }
    for l in b.split_inclusive(|c| *c == b'\n') {
        let l = l.strip_suffix(b"\n").ok_or("unterminated line")?;
        if l.is_empty() {
            if cur.is_empty() {
                return Err("empty record".into());
            }
            out.push(std::mem::take(&mut cur));
            continue;
        }
        let p = l
            .iter()
            .position(|c| *c == b' ')
            .ok_or(format!("no blank: {}", esc(l)))?;
        let (tag, occ) = tagocc(&l[..p])?;
        let mut m = MF { tag, occ, subs: vec![] };
        let mut i = p + 1;
        while i < l.len() {
            if l[i] == b'$' && i + 1 < l.len() && l[i + 1] != b'$' {
                m.subs.push((l[i + 1] as char, vec![]));
                i += 2;
                continue;
            }
            if l[i] == b'$' {
                if l.get(i + 1) != Some(&b'$') {
                    return Err("single $".into());
                }
                i += 1;
            }
            m.subs
                .last_mut()
                .ok_or("value without code")?
                .1
                .push(l[i]);
            i += 1;
        }
        cur.push(m);
    }
    if cur.is_empty() {
        return Err("blank line at the end".into());
    }
    out.push(cur);
    Ok(out)
}

fn jsond(b: &[u8]) -> Dec {
    let v: Value =
        serde_json::from_slice(b).map_err(|e| e.to_string())?;
    let mut out = vec![];
    for r in v.as_array().ok_or("not an array")? {
        let mut m: MR = vec![];
        for f in r.as_array().ok_or("record is not an array")? {
            let f = f.as_array().ok_or("field is not an array")?;
            let s = |i: usize| -> Result<String, String> {
                f.get(i)
                    .and_then(|v| v.as_str())
                    .map(|s| s.to_string())
                    .ok_or("not a string".into())
            };
            // the occurrence may be given with or without '/'
            let occ = match f.get(1) {
                Some(Value::Null) => None,
                _ => Some(s(1)?.trim_start_matches('/').to_string()),
            };
            let mut x = MF { tag: s(0)?, occ, subs: vec![] };
            if f.len() % 2 != 0 {
                return Err("odd number of elements".into());
            }
            for i in (2..f.len()).step_by(2) {
                let c = s(i)?;
                if c.chars().count() != 1 {
                    return Err("code".into());
                }
                x.subs.push((
                    c.chars().next().unwrap(),
                    s(i + 1)?.into_bytes(),
                ));
            }
            m.push(x);
        }
        out.push(m);
    }
    Ok(out)
}

/// A small strict XML reader: elements, attributes, text, entities.
struct Xml<'a> {
    b: &'a [u8],
    i: usize,
}
#[derive(Debug)]
enum Ev {
    Start(String, Vec<(String, String)>, bool),
    End(String),
    Text(Vec<u8>),
}
impl Xml<'_> {
    fn until(&mut self, p: &[u8]) -> Result<Vec<u8>, String> {
        let n = self.b[self.i..]
            .windows(p.len())
            .position(|w| w == p)
            .ok_or(format!("no {}", esc(p)))?;
        let r = self.b[self.i..self.i + n].to_vec();
        self.i += n + p.len();
        Ok(r)
    }
    fn text(raw: &[u8]) -> Result<Vec<u8>, String> {
        let s = std::str::from_utf8(raw).map_err(|e| e.to_string())?;
        // end of line normalisation
        let s = s.replace("\r\n", "\n").replace('\r', "\n");
        let mut out = String::new();
        let mut rest = &s[..];
        while let Some(p) = rest.find('&') {
            out.push_str(&rest[..p]);
            let e = rest[p..].find(';').ok_or("unterminated entity")? + p;
            match &rest[p + 1..e] {
                "lt" => out.push('<'),
                "gt" => out.push('>'),
                "amp" => out.push('&'),
                "quot" => out.push('"'),
                "apos" => out.push('\''),
                x if x.starts_with("#x") => out.push(
                    u32::from_str_radix(&x[2..], 16)
                        .ok()
                        .and_then(char::from_u32)
                        .ok_or("character reference")?,
                ),
                x if x.starts_with('#') => out.push(
                    x[1..]
                        .parse()
                        .ok()
                        .and_then(char::from_u32)
                        .ok_or("character reference")?,
                ),
                x => return Err(format!("entity {x}")),
            }
            rest = &rest[e + 1..];
        }
        out.push_str(rest);
        if out.contains("]]>") && s.contains("]]>") {
            return Err("]]> in text".into());
        }
        if s.chars().any(|c| (c as u32) < 0x20 && !"\t\n\r".contains(c)) {
            return Err("control character".into());
        }
        Ok(out.into_bytes())
    }
    fn next(&mut self) -> Result<Option<Ev>, String> {
        if self.i >= self.b.len() {
            return Ok(None);
        }
        if self.b[self.i] != b'<' {
            let n = self.b[self.i..]
                .iter()
                .position(|c| *c == b'<')
                .unwrap_or(self.b.len() - self.i);
            let t = Self::text(&self.b[self.i..self.i + n])?;
            self.i += n;
            return Ok(Some(Ev::Text(t)));
        }
        self.i += 1;
        if self.b[self.i..].starts_with(b"?") {
            self.until(b"?>")?;
            return self.next();
        }
        if self.b[self.i..].starts_with(b"/") {
            self.i += 1;
            let n = self.until(b">")?;
            return Ok(Some(Ev::End(
                String::from_utf8(n).unwrap().trim().into(),
            )));
        }
        let raw = self.until(b">")?;
        let mut s = String::from_utf8(raw).map_err(|e| e.to_string())?;
        let empty = s.ends_with('/');
        if empty {
            s.pop();
        }
        let (name, mut rest) = match s.split_once(char::is_whitespace) {
            Some((a, b)) => (a.to_string(), b.to_string()),
            None => (s.clone(), String::new()),
        };
        let mut attrs = vec![];
        loop {
            rest = rest.trim_start().to_string();
            if rest.is_empty() {
                break;
            }
            let (k, v) = rest.split_once("=\"").ok_or("attribute")?;
            let (v, r) = v.split_once('"').ok_or("attribute value")?;
            attrs.push((
                k.to_string(),
                String::from_utf8(Self::text(v.as_bytes())?).unwrap(),
            ));
            rest = r.to_string();
        }
        Ok(Some(Ev::Start(name, attrs, empty)))
    }
}

fn xml(b: &[u8]) -> Dec {
    if !b.starts_with(b"<?xml") {
        return Err("no declaration".into());
    }
    let mut x = Xml { b, i: 0 };
    let mut stack: Vec<String> = vec![];
    let mut out: Vec<MR> = vec![];
    let mut roots = 0;
    let local = |n: &str| n.rsplit(':').next().unwrap().to_string();
    while let Some(e) = x.next()? {
        match e {
            Ev::Start(name, attrs, empty) => {
                let name = local(&name);
                let a = |k: &str| {
                    attrs
                        .iter()
                        .find(|x| x.0 == k)
                        .map(|x| x.1.clone())
                };
                let path = stack.join("/");
                match (path.as_str(), name.as_str()) {
                    ("", "collection") => roots += 1,
                    ("collection", "record") => out.push(vec![]),
                    ("collection/record", "datafield") => {
                        out.last_mut().unwrap().push(MF {
                            tag: a("tag").ok_or("no tag")?,
                            occ: a("occurrence"),
                            subs: vec![],
                        })
                    }
                    ("collection/record/datafield", "subfield") => {
                        let c = a("code").ok_or("no code")?;
                        out.last_mut()
                            .unwrap()
                            .last_mut()
                            .unwrap()
                            .subs
                            .push((
                                c.chars().next().ok_or("code")?,
                                vec![],
                            ))
                    }
                    _ => return Err(format!("{name} in {path}")),
                }
                if !empty {
                    stack.push(name);
                }
            }
            Ev::End(n) => {
                if stack.pop() != Some(local(&n)) {
                    return Err(format!("unbalanced {n}"));
                }
            }
            Ev::Text(t) => {
                if stack.last().is_some_and(|s| s == "subfield") {
                    out.last_mut()
                        .unwrap()
                        .last_mut()
                        .unwrap()
                        .subs
                        .last_mut()
                        .unwrap()
                        .1
                        .extend(t);
                } else if !t.iter().all(|c| c.is_ascii_whitespace()) {
                    return Err("text outside of subfields".into());
                }
            }
        }
    }
    if !stack.is_empty() || roots != 1 {
        return Err("unbalanced document".into());
    }
    Ok(out)
}

pub fn decode(fmt: usize, b: &[u8]) -> Dec {
    match fmt {
        0 => plus(b),
        1 => binary(b),
        2 => import(b),
        3 => plain(b),
        4 => jsond(b),
        _ => xml(b),
    }
}

/// XML cannot express control characters, JSON and XML only text.
fn expressible(fmt: usize, r: &MR) -> bool {
    r.iter().flat_map(|f| &f.subs).all(|(_, v)| match fmt {
        0..=3 => true,
        4 => std::str::from_utf8(v).is_ok(),
        _ => std::str::from_utf8(v).is_ok_and(|s| {
            s.chars().all(|c| {
                ((c as u32) >= 0x20 && !matches!(c, '\u{fffe}' | '\u{ffff}')) || c == '\t' || c == '\r'
            })
        }),
    })
}

fn compare(
    cx: &Cx,
    st: &mut St,
    fmt: usize,
    out: &[u8],
    recs: &[MR],
    line: &str,
) {
    let got = match decode(fmt, out) {
        Ok(g) => g,
        Err(e) => {
            st.fail(
                format!("{line}: the output cannot be decoded ({e}): {}", esc(out)),
                json!({"run": line, "error": e, "records": recs.iter().take(20).map(|r| esc(&ser(r))).collect::<Vec<_>>()}),
            );
            return;
        }
    };
    for (i, r) in recs.iter().enumerate() {
        st.state();
        st.transitions += r.len() as u64;
        let g = got.get(i);
        if g != Some(r) {
            // PICA XML lacks the occurrence
            if let Some(g) = g {
                let bare: MR = r
                    .iter()
                    .map(|f| MF { occ: None, ..f.clone() })
                    .collect();
                if fmt == 5
                    && *g == bare
                    && cx.is_known("xml-occurrence")
                {
                    st.known(
                        "xml-occurrence",
                        "convert -t xml omits the occurrence of a field",
                    );
                    continue;
                }
            }
            st.fail(
                format!(
                    "convert to {}: '{}' becomes '{}'",
                    FORMATS[fmt],
                    esc(&ser(r)),
                    g.map_or("nothing".into(), |g| esc(&ser(g)))
                ),
                json!({"run": line, "record": esc(&ser(r)), "decoded": g.map(|g| esc(&ser(g)))}),
            );
            return;
        }
        st.trace();
    }
    if got.len() != recs.len() {
        st.fail(
            format!("{line}: {} records instead of {}", got.len(), recs.len()),
            json!({"run": line, "got": got.len(), "expected": recs.len()}),
        );
    }
    st.outcome(&out);
}

pub fn run(cx: &Cx) {
    let cli = Cli::new("c22");
    let mut vals: Vec<Vec<u8>> = vec![vec![]];
    // every byte but the delimiters of PICA+
    for b in 0..=255u8 {
        if ![b'\n', 0x1e, 0x1f].contains(&b) {
            vals.push(vec![b]);
            vals.push(vec![b'x', b, b'y']);
        }
    }
    // words over the special characters
    let sp: Vec<&[u8]> = vec![
        b"$", b"a", b"\"", b"<", b"&", b"'", b"\x1d", b" ", b"\\", b"]",
        b">", b"\t", b"\r", b"/", "\u{e4}".as_bytes(),
        "\u{1d538}".as_bytes(), b"\xff", b"0", b",", b"[", b";", b"lt",
    ];
    for w in seqs(sp.len(), 2, cx.pick(3, 4)) {
        vals.push(w.iter().flat_map(|i| sp[*i].to_vec()).collect());
    }
    for s in ["]]>", "&amp;", "&#13;", "<![CDATA[x]]>", "\\u0041", "$$$", "'\u{1d}", "\u{feff}", "e\u{301}"] {
        vals.push(s.as_bytes().to_vec());
    }
    let chunk = 400usize;
    let nb = vals.len().div_ceil(chunk);
    cx.space(
        "values",
        "every byte, every word of up to 3 (thorough: 4) of 22 special characters as a value x 6 encodings",
        (nb * 6) as u64,
        |i, st| {
            let mut x = Radix(i);
            let fmt = x.take(6);
            let b = x.take(nb);
            let recs: Vec<MR> = vals
                [b * chunk..((b + 1) * chunk).min(vals.len())]
                .iter()
                .enumerate()
                .map(|(n, v)| {
                    let mut m = f("012A", &["a", "b"]);
                    m.subs[n % 2].1 = v.clone();
                    vec![m]
                })
                .filter(|r| expressible(fmt, r))
                .collect();
            if recs.is_empty() {
                return;
            }
            let input: Vec<u8> = recs.iter().flat_map(ser).collect();
            let j = job(&["convert", "-t", FORMATS[fmt]]).stdin(&input);
            let o = cli.run(&j);
            st.sample(|| json!({"run": j.line(), "first": esc(&ser(&recs[0])), "output": esc(&o.out)}));
            if o.code != 0 {
                st.fail(
                    format!("{}: {}", j.line(), o.show()),
                    j.replay(),
                );
                return;
            }
            compare(cx, st, fmt, &o.out, &recs, &j.line());
        },
    );

    // every character
    let blk = 0x800u32;
    cx.space(
        "characters",
        "all Unicode scalar values, 16 in a value, 2048 in a run x 6 encodings",
        u64::from(0x110000 / blk) * 6,
        |i, st| {
            let mut x = Radix(i);
            let fmt = x.take(6);
            let b = x.0 as u32 * blk;
            let recs: Vec<MR> = (b..b + blk)
                .step_by(16)
                .map(|k| {
                    let v: String = (k..k + 16)
                        .filter_map(char::from_u32)
                        .filter(|c| !matches!(c, '\n' | '\x1e' | '\x1f'))
                        .filter(|c| fmt != 5 || (*c as u32 >= 0x20 && !matches!(c, '\u{fffe}' | '\u{ffff}')))
                        .collect();
                    let mut m = f("012A", &["a", "b"]);
                    m.subs[k as usize / 16 % 2].1 = v.into_bytes();
                    vec![m]
                })
                .collect();
            let input: Vec<u8> = recs.iter().flat_map(ser).collect();
            let j = job(&["convert", "-t", FORMATS[fmt]]).stdin(&input);
            let o = cli.run(&j);
            if o.code != 0 {
                st.fail(format!("{}: {}", j.line(), o.show()), j.replay());
                return;
            }
            compare(cx, st, fmt, &o.out, &recs, &j.line());
        },
    );

    // structures
    let tags = ["003@", "012A/01", "209K/001", "101Z"];
    let shapes: Vec<Vec<&str>> = vec![
        vec![],
        vec!["a"],
        vec!["ax"],
        vec!["a$b", "b"],
        vec!["Zx", "0$", "0\"<"],
        vec!["a", "a", "9\u{e4} "],
    ];
    let mut fields = vec![];
    for t in tags {
        for s in &shapes {
            fields.push(f(t, s));
        }
    }
    let words = seqs(fields.len(), 1, cx.pick(2, 3));
    let nb = words.len().div_ceil(chunk);
    cx.space(
        "structures",
        "every record of up to 2 (thorough: 3) of 24 fields (tags, occurrences, no, empty and repeated subfields) x 6 encodings",
        (nb * 6) as u64,
        |i, st| {
            let mut x = Radix(i);
            let fmt = x.take(6);
            let b = x.take(nb);
            let recs: Vec<MR> = words
                [b * chunk..((b + 1) * chunk).min(words.len())]
                .iter()
                .map(|w| w.iter().map(|i| fields[*i].clone()).collect())
                .collect();
            let input: Vec<u8> = recs.iter().flat_map(ser).collect();
            let j = job(&["convert", "-t", FORMATS[fmt], "-o", "out"])
                .stdin(&input);
            let o = cli.run(&j);
            if o.code != 0 || !o.out.is_empty() {
                st.fail(
                    format!("{}: {}", j.line(), o.show()),
                    j.replay(),
                );
                return;
            }
            let e = vec![];
            compare(
                cx,
                st,
                fmt,
                o.files.get("out").unwrap_or(&e),
                &recs,
                &j.line(),
            );
        },
    );

    // streams: separators, no record at all, several inputs, sizes
    let pool: Vec<MR> = vec![
        vec![f("003@", &["01"])],
        vec![f("012A", &[]), f("012A", &["a"])],
        vec![f("003@", &["02"]), f("012A", &["a$", "b<&>"])],
    ];
    let words = seqs(pool.len(), 0, cx.pick(3, 5));
    let big = "v".repeat(8192);
    cx.space(
        "streams",
        "every sequence of up to 3 (thorough: 5) of 3 records x 6 encodings x one or two inputs x stdout or file x invalid lines to skip",
        words.len() as u64 * 6 * 6,
        |i, st| {
            let mut x = Radix(i);
            let fmt = x.take(6);
            let two = x.bool();
            let mode = x.take(3);
            let w = x.of(&words);
            let mut recs: Vec<MR> =
                w.iter().map(|i| pool[*i].clone()).collect();
            if mode == 2 {
                for (n, r) in recs.iter_mut().enumerate() {
                    let v = format!("a{}", &big[n..]);
                    r.push(f("021A", &[&v]));
                }
            }
            let cut = if two { recs.len() / 2 } else { recs.len() };
            let mut a: Vec<u8> =
                recs[..cut].iter().flat_map(ser).collect();
            if mode == 1 {
                a.extend_from_slice(b"invalid\n");
            }
            let b: Vec<u8> = recs[cut..].iter().flat_map(ser).collect();
            let mut v = vec!["convert", "--to", FORMATS[fmt], "1.dat"];
            if two {
                v.push("2.dat");
            }
            if mode == 1 {
                v.push("--skip-invalid");
            }
            if mode == 2 {
                v.extend(["--output", "out"]);
            }
            let j = job(&v).file("1.dat", &a).file("2.dat", &b);
            let o = cli.run(&j);
            if o.code != 0 {
                st.fail(
                    format!("{}: {}", j.line(), o.show()),
                    j.replay(),
                );
                return;
            }
            let e = vec![];
            let out = if mode == 2 {
                o.files.get("out").unwrap_or(&e)
            } else {
                &o.out
            };
            if w.is_empty() {
                st.state();
            }
            compare(cx, st, fmt, out, &recs, &j.line());
        },
    );

    // other input formats are refused, not misread
    cx.space(
        "from",
        "input formats other than PICA+ are rejected",
        6,
        |i, st| {
            let input = ser(&pool[0]);
            let j = job(&["convert", "-f", FORMATS[i as usize]])
                .stdin(&input);
            let o = cli.run(&j);
            st.state();
            st.trace();
            st.step();
            let ok = if i == 0 {
                o.code == 0 && o.out == input
            } else {
                o.code > 0 && o.clean() && o.out.is_empty()
            };
            if !ok {
                st.fail(
                    format!("{}: {}", j.line(), o.show()),
                    j.replay(),
                );
            }
        },
    );
    cx.assume("JSON and XML are text: values that are not valid UTF-8 (and for XML control characters) cannot be expressed");
    cx.assume("values contain no newline (they cannot be read from a stream)");
    crate::long::cli(cx, &cli);
    crate::prims::cli(cx, &cli);
}
