//! C03: framing of streams under all deliveries.
use std::io::{self, Read};

use pica_record::prelude::*;
use serde_json::json;

use crate::cx::{Cx, Radix, St, esc, seqs};
use crate::rec::{self, MR};

/// One deviation from the default environment.
#[derive(Clone, Debug, PartialEq)]
pub enum Dev {
    /// The read ends at the given offset of the data.
    Split(usize),
    /// The n-th call of read is interrupted.
    Intr(usize),
    /// The n-th call of read fails.
    Fail(usize, io::ErrorKind),
}

pub struct Scripted<'a> {
    data: &'a [u8],
    pos: usize,
    call: usize,
    chunk: usize,
    splits: Vec<usize>,
    intr: Vec<usize>,
    fail: Option<(usize, io::ErrorKind)>,
    pub failed_at: Option<usize>,
}

impl<'a> Scripted<'a> {
    pub fn new(data: &'a [u8], chunk: usize, devs: &[Dev]) -> Self {
        let mut s = Self {
            data,
            pos: 0,
            call: 0,
            chunk,
            splits: vec![],
            intr: vec![],
            fail: None,
            failed_at: None,
        };
        for d in devs {
            match d {
                Dev::Split(p) => s.splits.push(*p),
                Dev::Intr(n) => s.intr.push(*n),
                Dev::Fail(n, k) => s.fail = Some((*n, *k)),
            }
        }
        s
    }
}

impl Read for Scripted<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let call = self.call;
        self.call += 1;
        if let Some((n, k)) = self.fail
            && n == call
        {
            self.failed_at = Some(self.pos);
            return Err(io::Error::new(k, "injected"));
        }
        if self.intr.contains(&call) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = buf.len().min(self.chunk).min(self.data.len() - self.pos);
        for s in &self.splits {
            if self.pos < *s && *s < self.pos + n {
                n = *s - self.pos;
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Clone, Debug)]
pub enum Item {
    Rec(MR),
    Bad,
    NotUtf8(MR),
}

/// Reference framing.
pub fn items(data: &[u8]) -> Vec<Item> {
    data.split_inclusive(|b| *b == b'\n')
        .map(|l| match rec::parse(l) {
            None => Item::Bad,
            Some(m) if rec::utf8(&m) => Item::Rec(m),
            Some(m) => Item::NotUtf8(m),
        })
        .collect()
}

fn names_line(msg: &str, n: usize) -> bool {
    // the number as a whole word
    msg.split(|c: char| !c.is_ascii_digit())
        .any(|w| w == n.to_string())
}

fn explore(
    data: &[u8],
    chunk: usize,
    devs: &[Dev],
    string: bool,
    source: Option<&str>,
    st: &mut St,
) {
    st.state();
    st.trace();
    let model = items(data);
    let case = || {
        json!({"data": esc(data), "chunk": chunk, "deviations": format!("{devs:?}"),
               "string": string, "source": source})
    };
    let src = Scripted::new(data, chunk, devs);
    let fail = src.fail;
    let mut r =
        ReaderBuilder::new().from_reader(src, source.map(String::from));
    let mut n = 0usize;
    loop {
        // Result of one step: Ok(contents) or the error
        let (done, res) = if string {
            match r.next_string_record() {
                None => (true, Ok(())),
                Some(Ok(s)) => (
                    false,
                    match model.get(n) {
                        Some(Item::Rec(m)) => rec::same(&s, m),
                        o => Err(format!("record instead of {o:?}")),
                    },
                ),
                Some(Err(e)) => (false, err(&e, model.get(n), n, source, fail, true)),
            }
        } else {
            match r.next_byte_record() {
                None => (true, Ok(())),
                Some(Ok(s)) => (
                    false,
                    match model.get(n) {
                        Some(Item::Rec(m) | Item::NotUtf8(m)) => rec::same(&s, m),
                        o => Err(format!("record instead of {o:?}")),
                    },
                ),
                Some(Err(e)) => (false, err(&e, model.get(n), n, source, fail, false)),
            }
        };
        st.step();
        if done {
            break;
        }
        match res {
            Ok(()) => {}
            Err(e) if e == "io" => {
                // everything delivered completely before was yielded
                st.outcome(&("io", n));
                let src = r.into_inner().into_inner();
                let at = src.failed_at.unwrap_or(0);
                let all = items(&data[..at]).len();
                let complete = all
                    .saturating_sub(usize::from(at > 0 && data[at - 1] != b'\n'));
                if n > all {
                    st.fail("items from nowhere", case());
                }
                if n < complete {
                    // delivered lines may only be withheld if the error
                    // came with the same fill of the buffer: never
                    st.fail(
                        format!("error reported after {n} of {complete} complete lines"),
                        case(),
                    );
                }
                return;
            }
            Err(e) => {
                st.fail(format!("line {}: {e}", n + 1), case());
                return;
            }
        }
        n += 1;
        if n > model.len() + 2 {
            st.fail("does not end", case());
            return;
        }
    }
    if n != model.len() {
        st.fail(
            format!("{n} items instead of {}", model.len()),
            case(),
        );
        return;
    }
    // after the end there is nothing more
    if fail.is_none() && r.next_byte_record().is_some() {
        st.fail("record after the end", case());
    }
    let src = r.into_inner().into_inner();
    if src.failed_at.is_some() {
        st.fail("an I/O error was swallowed", case());
    }
    st.outcome(&(data.to_vec(), string));
    st.sample(case);
}

fn err(
    e: &ReadPicaError,
    want: Option<&Item>,
    n: usize,
    source: Option<&str>,
    fail: Option<(usize, io::ErrorKind)>,
    string: bool,
) -> Result<(), String> {
    match (e, want) {
        (ReadPicaError::IO(x), _) => {
            if e.skip_parse_err(true) || e.skip_parse_err(false) {
                return Err("I/O error is skippable".into());
            }
            match fail {
                Some((_, k)) if k == x.kind() => Err("io".into()),
                _ => Err(format!("unexpected I/O error {x}")),
            }
        }
        (ReadPicaError::Parse { .. }, Some(Item::Bad)) => {
            let msg = e.to_string();
            if !names_line(&msg, n + 1) {
                return Err(format!("wrong line in '{msg}'"));
            }
            let s = match source {
                Some("-") => Some("<stdin>"),
                s => s,
            };
            if let Some(s) = s
                && !msg.contains(s)
            {
                return Err(format!("source is missing in '{msg}'"));
            }
            if !e.skip_parse_err(true) || e.skip_parse_err(false) {
                return Err("parse error is not skippable".into());
            }
            Ok(())
        }
        (ReadPicaError::Utf8 { .. }, Some(Item::NotUtf8(_))) if string => {
            let msg = e.to_string();
            if !names_line(&msg, n + 1) {
                return Err(format!("wrong line in '{msg}'"));
            }
            Ok(())
        }
        (e, w) => Err(format!("error '{e}' instead of {w:?}")),
    }
}

pub fn run(cx: &Cx) {
    cx.assume("the environment delivers bytes in order; deviations are short reads, interruptions and errors of read calls");
    let lines: Vec<&[u8]> = vec![
        b"003@ \x1f0a\x1e\n",
        b"003@ \x1f0\xff\x1e\n",
        b"\n",
        b"x\n",
        b"003@ \x1f0b\x1e\r\n",
        b"003@ \x1f0c\x1e",
        b"012A/01 \x1faX\x1fb\x1e101@ \x1e\n",
        b"003@ \x1f0d\x1e003@ \x1fb\xc3\x1e\n",
    ];
    let streams: Vec<Vec<u8>> = seqs(lines.len(), 0, cx.pick(3, 4))
        .iter()
        .map(|s| s.iter().flat_map(|k| lines[*k].to_vec()).collect())
        .collect();
    let ns = streams.len();
    let sources = [None, Some("-"), Some("dir/x.dat")];
    cx.space(
        "uniform chunk sizes",
        "all sequences of 0..=3 (thorough 4) lines over 8 x chunk sizes 1..=len and unbounded x byte/text records x source",
        ns as u64 * 2 * 3,
        |i, st| {
            let mut r = Radix(i);
            let string = r.bool();
            let source = *r.of(&sources);
            let d = r.of(&streams);
            for c in 1..=d.len().max(1) {
                explore(d, c, &[], string, source, st);
            }
            explore(d, usize::MAX, &[], string, source, st);
        },
    );
    let mut affixes: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
    affixes.extend((0..=255u8).map(|b| vec![b, b]));
    for a in [
        &b"\xef\xbb\xbf"[..], b"\xfe\xff", b"\xff\xfe", b"\0\0\0", b"# ", b"// ", b"-- ", b"\r\n\r\n", b"\x1d\n", b"\x1e\x1d", b"\xe2\x80\xa8",
        b"\xc2\x85", b"\xc2\xa0", b"\xe2\x80\x8b", b"\x1f\x8b\x08", b"\x1a", b"\\\n", b"<?xml", b"003@ \x1f0", b"\x1b[0m",
    ] {
        affixes.push(a.to_vec());
    }
    let base: [&[u8]; 4] = [lines[0], b"003@ \x1f0b\x1e\n", b"003@ \x1e\n", lines[5]];
    let offs: Vec<(usize, usize)> = (0..4).flat_map(|l| (0..=base[l].len()).map(move |o| (l, o))).collect();
    cx.space(
        "affixes",
        "every byte once and twice and 20 longer marks (byte order marks, comment signs, line ends, ...) inserted at every position of a stream of four lines x byte/text records",
        (affixes.len() * offs.len() * 2) as u64,
        |i, st| {
            let mut r = Radix(i);
            let string = r.bool();
            let (l, o) = *r.of(&offs);
            let a = r.of(&affixes);
            let mut d = vec![];
            for (k, b) in base.iter().enumerate() {
                if k == l {
                    d.extend([&b[..o], a, &b[o..]].concat());
                } else {
                    d.extend_from_slice(b);
                }
            }
            explore(&d, usize::MAX, &[], string, Some("f"), st);
        },
    );
    let short: Vec<&Vec<u8>> =
        streams.iter().filter(|s| s.len() <= cx.pick(32, 48)).collect();
    cx.space(
        "one and two deviations",
        "streams of up to 32 (thorough 48) bytes x all pairs of {split at every offset, interruption at calls 0..4, I/O error of 6 kinds at calls 0..4}",
        short.len() as u64 * 2,
        |i, st| {
            let string = i % 2 == 0;
            let d = short[(i / 2) as usize];
            let mut devs: Vec<Dev> = (1..d.len()).map(Dev::Split).collect();
            for n in 0..4 {
                devs.push(Dev::Intr(n));
            }
            for n in 0..4 {
                for k in [
                    io::ErrorKind::Other,
                    io::ErrorKind::UnexpectedEof,
                    io::ErrorKind::WouldBlock,
                    io::ErrorKind::InvalidData,
                    io::ErrorKind::BrokenPipe,
                    io::ErrorKind::TimedOut,
                ] {
                    devs.push(Dev::Fail(n, k));
                }
            }
            for (a, x) in devs.iter().enumerate() {
                explore(d, usize::MAX, std::slice::from_ref(x), string, None, st);
                for y in &devs[a + 1..] {
                    if matches!((x, y), (Dev::Fail(..), Dev::Fail(..))) {
                        continue;
                    }
                    explore(d, usize::MAX, &[x.clone(), y.clone()], string, Some("f"), st);
                    if st.failed() {
                        return;
                    }
                }
            }
        },
    );
    cx.space(
        "errors and interruptions between all chunks",
        "streams x chunk sizes 1, 2, 3, 7 x an error or interruption at every call, and two interruptions",
        ns as u64 * 4,
        |i, st| {
            let mut r = Radix(i);
            let chunk = *r.of(&[1usize, 2, 3, 7]);
            let d = r.of(&streams);
            let calls = d.len() / chunk + 2;
            for n in 0..calls {
                for string in [false, true] {
                    explore(d, chunk, &[Dev::Intr(n)], string, None, st);
                    explore(d, chunk, &[Dev::Intr(n), Dev::Intr(n + 1)], string, None, st);
                    explore(d, chunk, &[Dev::Fail(n, io::ErrorKind::Other)], string, None, st);
                    explore(
                        d,
                        chunk,
                        &[Dev::Intr(n), Dev::Fail(n + 1, io::ErrorKind::UnexpectedEof)],
                        string,
                        None,
                        st,
                    );
                }
                if st.failed() {
                    return;
                }
            }
        },
    );
    if cx.thorough {
        let tiny: Vec<&Vec<u8>> =
            streams.iter().filter(|s| s.len() <= 26).collect();
        cx.space(
            "three deviations",
            "streams of up to 26 bytes x all triples of splits, interruptions and errors",
            tiny.len() as u64,
            |i, st| {
                let d = tiny[i as usize];
                let mut devs: Vec<Dev> = (1..d.len()).map(Dev::Split).collect();
                for n in 0..4 {
                    devs.push(Dev::Intr(n));
                    devs.push(Dev::Fail(n, io::ErrorKind::Other));
                }
                for a in 0..devs.len() {
                    for b in a + 1..devs.len() {
                        for c in b + 1..devs.len() {
                            let t = [devs[a].clone(), devs[b].clone(), devs[c].clone()];
                            if t.iter().filter(|d| matches!(d, Dev::Fail(..))).count() > 1 {
                                continue;
                            }
                            explore(d, usize::MAX, &t, false, None, st);
                            explore(d, usize::MAX, &t, true, None, st);
                        }
                    }
                    if st.failed() {
                        return;
                    }
                }
            },
        );
    }

    // lines around the size of the internal buffers
    let lens = [8190usize, 8191, 8192, 8193, 8194, 16384, 65535, 65536, 65537, 300_000];
    cx.space(
        "long lines and many lines",
        "a line of buffer size +-2 between short ones x chunk sizes x splits and errors around the buffer boundaries; 0..=300 lines",
        (lens.len() * 3 * 6 + 300) as u64,
        |i, st| {
            if i >= (lens.len() * 18) as u64 {
                let n = i as usize - lens.len() * 18;
                let mut d = vec![];
                for k in 0..n * 4 {
                    if k % 7 == 3 {
                        d.extend_from_slice(b"bad line\n");
                    } else if k % 11 == 5 {
                        d.extend_from_slice(b"003@ \x1f0\xff\x1e\n");
                    } else {
                        d.extend_from_slice(format!("003@ \x1f0{k}\x1e\n").as_bytes());
                    }
                }
                for c in [13, 8192, usize::MAX] {
                    explore(&d, c, &[], true, Some("x"), st);
                    explore(&d, c, &[], false, Some("x"), st);
                }
                return;
            }
            let mut r = Radix(i);
            let chunk = *r.of(&[1usize, 100, 4096, 8191, 8192, usize::MAX]);
            let kind = r.take(3);
            let len = *r.of(&lens);
            if chunk == 1 && len > 70_000 {
                return;
            }
            let mut d: Vec<u8> = b"003@ \x1f0a\x1e\n".to_vec();
            let mut l: Vec<u8> = b"003@ \x1f0".to_vec();
            l.extend(vec![b'v'; len - 9]);
            match kind {
                0 => l.extend_from_slice(b"\x1e\n"),
                1 => l.extend_from_slice(b"v\n"),
                _ => {
                    let k = l.len() - 1;
                    l[k] = 0xfe;
                    l.extend_from_slice(b"\x1e\n")
                }
            }
            assert_eq!(l.len(), len);
            d.extend(l);
            d.extend_from_slice(b"x\n003@ \x1f0b\x1e\n003@ \x1f0c");
            for string in [false, true] {
                explore(&d, chunk, &[], string, None, st);
                if chunk >= 4096 {
                    for s in [8191, 8192, 8193, len, len + 9, len + 10, len + 11] {
                        explore(&d, chunk, &[Dev::Split(s)], string, None, st);
                        explore(&d, chunk, &[Dev::Split(s), Dev::Intr(1)], string, None, st);
                    }
                    for n in 0..(d.len() / chunk.min(8192) + 2).min(40) {
                        explore(&d, chunk, &[Dev::Intr(n)], string, None, st);
                        explore(&d, chunk, &[Dev::Fail(n, io::ErrorKind::Other)], string, None, st);
                    }
                }
            }
        },
    );

    // files
    let dir = crate::c02::Scratch::new("c03");
    cx.space(
        "files, plain and compressed, whole and truncated",
        "streams of up to 2 lines as file, as .gz with 1..3 members, each .gz prefix (an error, never a silent end)",
        streams.len().min(73) as u64,
        |i, st| {
            let d = &streams[i as usize];
            let model = items(d);
            let run = |p: &std::path::Path| -> Result<usize, String> {
                let mut r = ReaderBuilder::new().from_path(p).map_err(|e| e.to_string())?;
                let mut n = 0;
                while let Some(x) = r.next_byte_record() {
                    match x {
                        Ok(_) => {
                            if !matches!(model.get(n), Some(Item::Rec(_) | Item::NotUtf8(_))) {
                                return Err(format!("item {n}"));
                            }
                        }
                        Err(e) if e.skip_parse_err(true) => {
                            if !matches!(model.get(n), Some(Item::Bad)) {
                                return Err(format!("item {n}: {e}"));
                            }
                            if !e.to_string().contains(p.to_str().unwrap()) {
                                return Err(format!("source in {e}"));
                            }
                        }
                        Err(_) => return Err("io".into()),
                    }
                    n += 1;
                }
                Ok(n)
            };
            let p = dir.0.join(format!("{i}.dat"));
            std::fs::write(&p, d).unwrap();
            st.state();
            st.trace();
            if run(&p) != Ok(model.len()) {
                st.fail(format!("file: {:?}", run(&p)), json!({"data": esc(d)}));
            }
            for members in 1..=3usize {
                let cut = d.len() / members;
                let mut z = vec![];
                for k in 0..members {
                    let e = if k + 1 == members { d.len() } else { (k + 1) * cut };
                    z.extend(crate::c02::gzip(&d[k * cut..e]));
                }
                let p = dir.0.join(format!("{i}.{members}.gz"));
                std::fs::write(&p, &z).unwrap();
                st.state();
                st.trace();
                st.step();
                if run(&p) != Ok(model.len()) {
                    st.fail(
                        format!("gzip with {members} members: {:?}", run(&p)),
                        json!({"data": esc(d), "members": members}),
                    );
                }
                if members == 1 {
                    for cut in 1..z.len() {
                        std::fs::write(&p, &z[..cut]).unwrap();
                        st.state();
                        st.trace();
                        st.step();
                        let r = run(&p);
                        if r != Err("io".into()) {
                            st.fail(
                                format!("truncated gzip file: {r:?}"),
                                json!({"data": esc(d), "cut": cut, "of": z.len()}),
                            );
                        }
                        st.outcome(&format!("{r:?}"));
                    }
                }
                let _ = std::fs::remove_file(&p);
            }
            let _ = std::fs::remove_file(&p);
            st.sample(|| json!({"data": esc(d)}));
        },
    );
    crate::long::lib(cx);
}
