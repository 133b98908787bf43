//! C02: writing and reading back is the identity; C04: histories of
//! field removals.
use std::io::{Read, Write};
use std::path::PathBuf;

use bstr::BString;
use pica_record::matcher::{OccurrenceMatcher, TagMatcher};
use pica_record::prelude::*;
use pica_record::primitives::*;
use pica_record::{ByteRecord, StringRecord};
use serde_json::json;
use sha2::{Digest, Sha256};

use crate::cx::{Cx, Radix, St, esc, hash, seqs};
use crate::rec::{self, MF, MR};

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Self {
        let base = if std::path::Path::new("/dev/shm").is_dir() {
            "/dev/shm"
        } else {
            "/tmp"
        };
        let p = PathBuf::from(format!(
            "{base}/pica-mc-{name}-{}",
            std::process::id()
        ));
        std::fs::create_dir_all(&p).unwrap();
        Self(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Builds a borrowed record from its parts (not by parsing it as a
/// whole).
fn with_parts<T>(m: &MR, f: impl FnOnce(RecordRef<'_>) -> T) -> Option<T> {
    if !rec::utf8(m) {
        return None;
    }
    let parts: Vec<_> = m
        .iter()
        .map(|x| {
            (
                x.tag.as_str(),
                x.occ.as_deref(),
                x.subs
                    .iter()
                    .map(|(c, v)| (*c, std::str::from_utf8(v).unwrap()))
                    .collect::<Vec<_>>(),
            )
        })
        .collect();
    Some(f(RecordRef::new(parts).expect("valid parts")))
}

pub fn gunzip(b: &[u8]) -> std::io::Result<Vec<u8>> {
    let mut out = vec![];
    flate2::read::MultiGzDecoder::new(b).read_to_end(&mut out)?;
    Ok(out)
}

pub fn gzip(b: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(
        vec![],
        flate2::Compression::fast(),
    );
    e.write_all(b).unwrap();
    e.finish().unwrap()
}

fn shapes() -> Vec<MR> {
    let raw = |v: &[u8]| MF {
        tag: "012A".into(),
        occ: Some("01".into()),
        subs: vec![('a', v.to_vec()), ('Z', vec![])],
    };
    let big = |n: usize| {
        // a record of exactly n bytes
        vec![rec::f("003@", &["01"]), {
            let mut f = rec::f("012A", &["a"]);
            f.subs[0].1 = vec![b'v'; n - 9 - 9];
            f
        }]
    };
    let mut v = vec![
        vec![rec::f("003@", &["0123"])],
        vec![rec::f("003@", &[])],
        vec![rec::f("003@", &["0"]), rec::f("101@/00", &["a", "a", "b"])],
        vec![rec::f("299Z/999", &["9\u{fc}\u{1F600}", "A\r\t\0\\\"$"])],
        vec![raw(b"\xff\xfe\x80")],
        vec![],
    ];
    for n in [8191usize, 8192, 8193, 65536] {
        let b = big(n);
        assert_eq!(rec::ser(&b).len(), n);
        v.push(b);
    }
    v
}

#[derive(Clone, Copy, Debug)]
enum Form {
    Parsed,
    Parts,
    Cleared,
}

/// Writes one record in some form.
fn write_form(
    m: &MR,
    form: Form,
    out: &mut dyn ByteRecordWrite,
) -> std::io::Result<()> {
    let s = rec::ser(m);
    match form {
        _ if m.is_empty() => out.write_byte_record(&ByteRecord::from(
            RecordRef::new(Vec::<(&str, Option<&str>, Vec<(char, &str)>)>::new())
                .unwrap(),
        )),
        Form::Parsed => {
            out.write_byte_record(&ByteRecord::from_bytes(&s).unwrap())
        }
        Form::Parts => {
            with_parts(m, |r| out.write_byte_record(&ByteRecord::from(r)))
                .unwrap_or_else(|| {
                    out.write_byte_record(&ByteRecord::from(
                        RecordRef::from_bytes(&s).unwrap(),
                    ))
                })
        }
        Form::Cleared => {
            let mut r = ByteRecord::from_bytes(&s).unwrap();
            r.retain(|_| true);
            out.write_byte_record(&r)
        }
    }
}

fn bytes_of(ms: &[&MR]) -> Vec<u8> {
    ms.iter()
        .filter(|m| !m.is_empty())
        .flat_map(|m| rec::ser(m))
        .collect()
}

fn read_back(
    path: &std::path::Path,
    want: &[&MR],
    st: &mut St,
    case: &serde_json::Value,
) {
    let want: Vec<&&MR> = want.iter().filter(|m| !m.is_empty()).collect();
    let mut r = ReaderBuilder::new().from_path(path).unwrap();
    let mut n = 0;
    while let Some(x) = r.next_byte_record() {
        match x {
            Err(e) => {
                st.fail(format!("record {n}: {e}"), case.clone());
                return;
            }
            Ok(rec) => {
                if n >= want.len() {
                    st.fail("too many records read back", case.clone());
                    return;
                }
                if let Err(e) = rec::same(&rec, want[n]) {
                    st.fail(format!("record {n}: {e}"), case.clone());
                    return;
                }
            }
        }
        n += 1;
        st.step();
    }
    if n != want.len() {
        st.fail(
            format!("{n} records read back instead of {}", want.len()),
            case.clone(),
        );
    }
}

pub fn run(cx: &Cx) {
    let dir = Scratch::new("c02");
    cx.assume("values contain no newline (it separates the records of a stream)");
    cx.assume("scratch files live on a healthy file system; faults are explored by C27");
    let sh = shapes();
    let n = sh.len();
    let combos = seqs(n, 0, 3);
    let forms = [Form::Parsed, Form::Parts, Form::Cleared];

    // serialisation of each form of a single record
    cx.space(
        "single records",
        "record shapes x borrowed, owned, record from parts; sizes 0..=300 and around the buffer sizes",
        n as u64 + 300 + 40,
        |i, st| {
            let i = i as usize;
            let m: MR = if i < n {
                sh[i].clone()
            } else if i < n + 300 {
                vec![MF {
                    tag: "012A".into(),
                    occ: (i % 2 == 0).then(|| "02".into()),
                    subs: vec![('x', vec![b'y'; i - n])],
                }]
            } else {
                let k = i - n - 300;
                vec![MF {
                    tag: "012A".into(),
                    occ: None,
                    subs: (0..[8192usize, 65536][k % 2] / 8 + k / 2)
                        .map(|_| ('x', b"yyyyyy".to_vec()))
                        .collect(),
                }]
            };
            if m.is_empty() {
                return;
            }
            st.state();
            let s = rec::ser(&m);
            let r = RecordRef::from_bytes(&s).unwrap();
            let mut outs: Vec<(&str, Vec<u8>)> = vec![];
            let mut w = vec![];
            r.write_to(&mut w).unwrap();
            outs.push(("RecordRef::write_to", w));
            let owned = Record::from(r.clone());
            let mut w = vec![];
            owned.write_to(&mut w).unwrap();
            outs.push(("Record::write_to", w));
            let mut w = vec![];
            ByteRecord::from(r.clone()).write_to(&mut w).unwrap();
            outs.push(("ByteRecord::from", w));
            let mut w = vec![];
            ByteRecord::from_bytes(&s).unwrap().write_to(&mut w).unwrap();
            outs.push(("ByteRecord::from_bytes", w));
            let mut w = vec![];
            for f in r.fields() {
                Field::from(f.clone()).write_to(&mut w).unwrap();
            }
            w.push(b'\n');
            outs.push(("Field::write_to", w));
            if let Some(w) = with_parts(&m, |r| {
                let mut w = vec![];
                r.write_to(&mut w).unwrap();
                w
            }) {
                outs.push(("RecordRef::new", w));
            }
            let mut w = Some(vec![]);
            for f in &m {
                let subs: Option<Vec<(char, &str)>> = f
                    .subs
                    .iter()
                    .map(|(c, v)| Some((*c, std::str::from_utf8(v).ok()?)))
                    .collect();
                w = match (w, subs) {
                    (Some(mut w), Some(subs)) => {
                        Field::new(&f.tag, f.occ.as_deref(), subs.clone())
                            .expect("valid parts")
                            .write_to(&mut w)
                            .unwrap();
                        // and part by part
                        let at = w.len();
                        for (c, v) in subs {
                            Subfield::new(c, v).unwrap().write_to(&mut w).unwrap();
                        }
                        let parts = w.split_off(at);
                        if !w[..w.len() - 1].ends_with(&parts) {
                            st.fail("Subfield::write_to", json!({"record": esc(&s)}));
                        }
                        Some(w)
                    }
                    _ => None,
                };
            }
            if let Some(mut w) = w {
                w.push(b'\n');
                outs.push(("Field::new", w));
            }
            if r != owned || owned != r {
                st.fail("owned record differs", json!({"record": esc(&s)}));
            }
            for (name, w) in outs {
                st.trace();
                st.step();
                if w != s {
                    st.fail(
                        format!("{name} writes {} instead of {}", esc(&w), esc(&s)),
                        json!({"record": esc(&s), "written": esc(&w), "by": name}),
                    );
                }
            }
            st.outcome(&s);
            st.sample(|| json!({"record": esc(&s)}));
        },
    );

    // histories of writes through every writer
    cx.space(
        "write histories",
        "all sequences of 0..=3 records over 10 shapes x 3 forms x {plain, gzip writer, path plain, path .gz, gzip option}",
        combos.len() as u64 * 3 * 5,
        |i, st| {
            let mut r = Radix(i);
            let kind = r.take(5);
            let form = *r.of(&forms);
            let seq = r.of(&combos);
            let ms: Vec<&MR> = seq.iter().map(|k| &sh[*k]).collect();
            let want = bytes_of(&ms);
            st.state();
            let case = json!({"shapes": seq, "form": format!("{form:?}"), "writer": kind});
            let path = dir.0.join(format!(
                "{i}.{}",
                if kind == 3 || kind == 4 { "pp.gz" } else { "dat" }
            ));
            let mut direct = vec![];
            match kind {
                0 => {
                    let mut w = pica_record::io::PlainWriter::new(&mut direct);
                    for m in &ms {
                        write_form(m, form, &mut w).unwrap();
                    }
                    w.finish().unwrap();
                }
                1 => {
                    let mut w = pica_record::io::GzipWriter::new(&mut direct);
                    for m in &ms {
                        write_form(m, form, &mut w).unwrap();
                    }
                    w.finish().unwrap();
                }
                k => {
                    // an existing file has to be replaced
                    std::fs::write(&path, b"old contents\n").unwrap();
                    let mut w = WriterBuilder::new()
                        .gzip(k == 4)
                        .from_path(&path)
                        .unwrap();
                    for m in &ms {
                        write_form(m, form, w.as_mut()).unwrap();
                    }
                    w.finish().unwrap();
                    drop(w);
                    direct = std::fs::read(&path).unwrap();
                }
            }
            let plain = if matches!(kind, 1 | 3 | 4) {
                match gunzip(&direct) {
                    Ok(p) => p,
                    Err(e) => {
                        st.fail(format!("gzip output: {e}"), case);
                        return;
                    }
                }
            } else {
                direct.clone()
            };
            st.trace();
            if plain != want {
                st.fail(
                    format!("wrote {} instead of {}", esc(&plain), esc(&want)),
                    case.clone(),
                );
            }
            if kind < 2 {
                std::fs::write(
                    dir.0.join(format!("{i}.{}", if kind == 1 { "gz" } else { "dat" })),
                    &direct,
                )
                .unwrap();
                let p = dir.0.join(format!("{i}.{}", if kind == 1 { "gz" } else { "dat" }));
                read_back(&p, &ms, st, &case);
                let _ = std::fs::remove_file(p);
            } else {
                read_back(&path, &ms, st, &case);
                let _ = std::fs::remove_file(&path);
            }
            st.outcome(&want);
            st.sample(|| case);
        },
    );

    // sessions on the same file
    let sess = seqs(8, 1, cx.pick(3, 4));
    cx.space(
        "sessions of writers on one file",
        "all histories of 1..=3 (thorough 4) sessions over {append, truncate} x {0, 1, 2 records, 8 KiB record} x {plain, .gz, gzip option}; sessions with the gzip option truncate",
        sess.len() as u64 * 3,
        |i, st| {
            let (gz, opt) = (i % 3 > 0, i % 3 == 2);
            let h = &sess[i as usize / 3];
            let path = dir.0.join(format!("s{i}.{}", if gz && !opt { "gz" } else { "dat" }));
            let mut model: Vec<&MR> = vec![];
            let case = json!({"sessions": h, "gzip": gz, "option": opt});
            for (k, op) in h.iter().enumerate() {
                let append = op % 2 == 1 && !opt;
                let recs: Vec<&MR> = match op / 2 {
                    0 => vec![],
                    1 => vec![&sh[k % 5]],
                    2 => vec![&sh[3], &sh[(k + 2) % 5]],
                    _ => vec![&sh[7]],
                };
                if !append {
                    model.clear();
                }
                let mut w = WriterBuilder::new()
                    .append(append)
                    .gzip(opt)
                    .from_path(&path)
                    .unwrap();
                for m in &recs {
                    write_form(m, forms[k % 3], w.as_mut()).unwrap();
                }
                w.finish().unwrap();
                drop(w);
                model.extend(recs);
                st.state();
                st.step();
                st.trace();
                if !opt {
                    read_back(&path, &model, st, &case);
                }
                let b = std::fs::read(&path).unwrap();
                let b = if gz { gunzip(&b).unwrap_or_else(|e| e.to_string().into_bytes()) } else { b };
                if b != bytes_of(&model) {
                    st.fail("contents of the file", case.clone());
                }
            }
            let _ = std::fs::remove_file(&path);
            st.outcome(&bytes_of(&model));
            st.sample(|| case);
        },
    );
    crate::long::lib(cx);
}

// ----------------------------------------------------------------- C04

#[derive(Clone, Debug)]
enum Op {
    Keep(usize),
    Discard(usize),
    Retain(usize),
    Deref(usize),
}

const SPECS: [&[&str]; 9] = [
    &[],
    &["003@"],
    &["012A"],
    &["012A/01"],
    &["012A/*", "003@"],
    &["01.A/00"],
    &["[12]..@/01-02", "099Z"],
    &["..../*"],
    &["012A/01", "012A/01", "012A/002"],
];

fn spec_match(spec: &str, f: &MF) -> bool {
    let (t, o) = match spec.split_once('/') {
        Some((t, o)) => (t, Some(o)),
        None => (spec, None),
    };
    tag_match(t, &f.tag) && occ_match(o, f.occ.as_deref())
}

/// Reference semantics of tag patterns.
pub fn tag_match(pat: &str, tag: &str) -> bool {
    let p: Vec<char> = pat.chars().collect();
    let mut i = 0;
    for t in tag.chars() {
        if i >= p.len() {
            return false;
        }
        match p[i] {
            '.' => i += 1,
            '[' => {
                let end = (i..p.len()).find(|k| p[*k] == ']').unwrap();
                let mut k = i + 1;
                let mut hit = false;
                while k < end {
                    if k + 2 < end && p[k + 1] == '-' {
                        hit |= p[k] <= t && t <= p[k + 2];
                        k += 3;
                    } else {
                        hit |= p[k] == t;
                        k += 1;
                    }
                }
                if !hit {
                    return false;
                }
                i = end + 1;
            }
            c => {
                if c != t {
                    return false;
                }
                i += 1;
            }
        }
    }
    i == p.len()
}

/// Reference semantics of occurrence patterns (without the slash).
pub fn occ_match(pat: Option<&str>, occ: Option<&str>) -> bool {
    match (pat, occ) {
        (Some("*"), _) => true,
        (None | Some("00"), o) => matches!(o, None | Some("00")),
        (Some(_), None) => false,
        (Some(p), Some(o)) => match p.split_once('-') {
            None => p == o,
            Some((a, b)) => {
                o.len() == a.len()
                    && a.parse::<u32>().unwrap() <= o.parse::<u32>().unwrap()
                    && o.parse::<u32>().unwrap() <= b.parse::<u32>().unwrap()
            }
        },
    }
}

fn preds(k: usize) -> Vec<(TagMatcher, OccurrenceMatcher)> {
    SPECS[k]
        .iter()
        .map(|s| {
            let (t, o) = match s.find('/') {
                Some(p) => s.split_at(p),
                None => (*s, ""),
            };
            (TagMatcher::new(t).unwrap(), OccurrenceMatcher::new(o).unwrap())
        })
        .collect()
}

fn retain_pred(k: usize, tag: &str, idx: usize) -> bool {
    match k {
        0 => idx.is_multiple_of(2),
        1 => tag != "003@",
        2 => true,
        _ => false,
    }
}

fn observe(r: &ByteRecord<'_>, m: &MR, st: &mut St, case: &serde_json::Value) {
    st.state();
    st.trace();
    if let Err(e) = rec::same(r, m) {
        st.fail(format!("fields: {e}"), case.clone());
        return;
    }
    let want = if m.is_empty() { vec![] } else { rec::ser(m) };
    let mut w = vec![];
    r.write_to(&mut w).unwrap();
    if w != want {
        st.fail(
            format!("writes {} instead of {}", esc(&w), esc(&want)),
            case.clone(),
        );
        return;
    }
    let mut pw = vec![];
    let mut p = pica_record::io::PlainWriter::new(&mut pw);
    p.write_byte_record(r).unwrap();
    p.finish().unwrap();
    drop(p);
    if pw != want {
        st.fail("writer output differs", case.clone());
    }
    if r.sha256() != Sha256::digest(&want).to_vec() {
        st.fail("SHA-256 digest", case.clone());
    }
    let ppn: Option<Vec<u8>> = m
        .iter()
        .filter(|f| f.tag == "003@" && matches!(f.occ.as_deref(), None | Some("00")))
        .flat_map(|f| f.subs.iter())
        .find(|(c, _)| *c == '0')
        .map(|(_, v)| v.clone());
    if r.ppn().map(|v| v.to_vec()) != ppn {
        st.fail(format!("PPN {:?}", r.ppn()), case.clone());
    }
    if r.is_empty() != m.is_empty() {
        st.fail("is_empty", case.clone());
    }
    let built;
    let fresh = if m.is_empty() {
        built = RecordRef::new(
            Vec::<(&str, Option<&str>, Vec<(char, &str)>)>::new(),
        )
        .unwrap();
        ByteRecord::from(built)
    } else {
        ByteRecord::from_bytes(&want).unwrap()
    };
    if *r != fresh || fresh != *r {
        st.fail("differs from a fresh record with these fields", case.clone());
    }
    if hash(r) != hash(&fresh) {
        st.fail("hash differs from a fresh record", case.clone());
    }
    // a record that has one value changed is different
    if !m.is_empty() {
        let mut d = m.clone();
        let last = d.len() - 1;
        d[last].subs.push(('q', b"!".to_vec()));
        let ds = rec::ser(&d);
        let other = ByteRecord::from_bytes(&ds).unwrap();
        let mut other2 = ByteRecord::from_bytes(&ds).unwrap();
        other2.retain(|_| true);
        if *r == other || *r == other2 || other == *r || hash(r) == hash(&other) {
            st.fail("equal to a different record", case.clone());
        }
    }
    st.outcome(&want);
}

pub fn run04(cx: &Cx) {
    let bases: Vec<MR> = vec![
        vec![
            rec::f("003@", &["0123", "0456"]),
            rec::f("012A", &["aX", "bY"]),
            rec::f("012A/01", &["aX"]),
            rec::f("012A/00", &["a\u{fc}"]),
            rec::f("101@", &["a1"]),
            rec::f("101@/01", &[]),
            rec::f("203@/02", &["0999"]),
            rec::f("012A/002", &["z"]),
        ],
        vec![rec::f("003@", &["0123"])],
        vec![rec::f("012A", &["0X"]), rec::f("003@/01", &["0bad"]), rec::f("003@/00", &["0good"])],
        vec![
            rec::f("002@", &["0Aaz"]),
            rec::f("003@", &["a1"]),
            rec::f("003@", &["a2", "0second"]),
            MF { tag: "021A".into(), occ: None, subs: vec![('a', vec![0xff])] },
        ],
    ];
    let mut ops: Vec<Op> = vec![];
    for k in 0..SPECS.len() {
        ops.push(Op::Keep(k));
        ops.push(Op::Discard(k));
    }
    for k in 0..4 {
        ops.push(Op::Retain(k));
        ops.push(Op::Deref(k));
    }
    let depth = cx.pick(3, 4);
    let hist = seqs(ops.len(), 0, depth);
    cx.assume("field specifications: 9 lists over literal, pattern and occurrence ranges");
    cx.space(
        "histories of field removals",
        "4 base records x {parsed, rebuilt, text record} x all operation sequences of length 0..=3 (thorough 4) over 26 operations",
        hist.len() as u64 * bases.len() as u64 * 3,
        |i, st| {
            let mut r = Radix(i);
            let form = r.take(3);
            let base = r.of(&bases);
            let h = r.of(&hist);
            let mut m = base.clone();
            let s = rec::ser(&m);
            let case = json!({
                "record": esc(&s),
                "form": form,
                "operations": h.iter().map(|k| match ops[*k] {
                    Op::Keep(k) => format!("keep {:?}", SPECS[k]),
                    Op::Discard(k) => format!("discard {:?}", SPECS[k]),
                    Op::Retain(k) => format!("retain {k}"),
                    Op::Deref(k) => format!("deref_mut.retain {k}"),
                }).collect::<Vec<_>>(),
            });
            let mut real = match form {
                0 => ByteRecord::from_bytes(&s).unwrap(),
                1 => ByteRecord::from(RecordRef::from_bytes(&s).unwrap()),
                _ => {
                    // operate through a text record
                    let b = ByteRecord::from_bytes(&s).unwrap();
                    match StringRecord::try_from(b) {
                        Err(_) => return,
                        Ok(mut t) => {
                            for k in h {
                                match ops[*k] {
                                    Op::Keep(k) => t.keep(&preds(k)),
                                    Op::Discard(k) => t.discard(&preds(k)),
                                    Op::Retain(k) => {
                                        let mut n = 0;
                                        t.retain(|f| {
                                            n += 1;
                                            retain_pred(k, &f.tag().to_string(), n - 1)
                                        })
                                    }
                                    Op::Deref(k) => {
                                        let mut n = 0;
                                        let rr: &mut RecordRef = &mut t;
                                        rr.retain(|f| {
                                            n += 1;
                                            retain_pred(k, &f.tag().to_string(), n - 1)
                                        })
                                    }
                                }
                                apply(&ops[*k], &mut m);
                                st.step();
                            }
                            observe(&t, &m, st, &case);
                            let want: Option<String> = m
                                .iter()
                                .filter(|f| tag_match("003@", &f.tag) && occ_match(None, f.occ.as_deref()))
                                .flat_map(|f| f.subs.iter())
                                .find(|(c, _)| *c == '0')
                                .map(|(_, v)| String::from_utf8(v.clone()).unwrap());
                            if t.ppn().map(String::from) != want {
                                st.fail("PPN of the text record", case);
                            }
                            return;
                        }
                    }
                }
            };
            for k in h {
                match ops[*k] {
                    Op::Keep(k) => real.keep(&preds(k)),
                    Op::Discard(k) => real.discard(&preds(k)),
                    Op::Retain(k) => {
                        let mut n = 0;
                        real.retain(|f| {
                            n += 1;
                            retain_pred(k, &f.tag().to_string(), n - 1)
                        })
                    }
                    Op::Deref(k) => {
                        let mut n = 0;
                        let rr: &mut RecordRef = &mut real;
                        rr.retain(|f| {
                            n += 1;
                            retain_pred(k, &f.tag().to_string(), n - 1)
                        })
                    }
                }
                apply(&ops[*k], &mut m);
                st.step();
            }
            // every prefix is a history of its own
            observe(&real, &m, st, &case);
            st.sample(|| case);
        },
    );

    // equality is by contents, whatever the form of both records
    let fields = [
        rec::f("003@", &["01"]),
        rec::f("003@", &["02"]),
        rec::f("003@/01", &["01"]),
        rec::f("003@", &["01", "a"]),
        rec::f("103@", &["01"]),
        rec::f("003@", &["a1"]),
    ];
    let rs = seqs(fields.len(), 1, 2);
    let n = rs.len() as u64;
    cx.space(
        "equality of all pairs of records",
        "all pairs of records of 1..=2 fields over 6 fields x {parsed, rebuilt}^2",
        n * n,
        |i, st| {
            let a: MR = rs[(i / n) as usize].iter().map(|k| fields[*k].clone()).collect();
            let b: MR = rs[(i % n) as usize].iter().map(|k| fields[*k].clone()).collect();
            let (sa, sb) = (rec::ser(&a), rec::ser(&b));
            st.state();
            for form in 0..4 {
                let mut x = ByteRecord::from_bytes(&sa).unwrap();
                let mut y = ByteRecord::from_bytes(&sb).unwrap();
                if form & 1 == 1 {
                    x.retain(|_| true);
                }
                if form & 2 == 2 {
                    y.retain(|_| true);
                }
                st.step();
                st.trace();
                let owned: Record = RecordRef::from_bytes(&sb).unwrap().into();
                let rx = RecordRef::from_bytes(&sa).unwrap();
                if (x == y) != (a == b)
                    || (hash(&x) == hash(&y)) != (a == b)
                    || (x.sha256() == y.sha256()) != (a == b)
                    || (rx == owned) != (a == b)
                    || (owned == rx) != (a == b)
                {
                    st.fail(
                        format!("equality of {} and {}", esc(&sa), esc(&sb)),
                        json!({"a": esc(&sa), "b": esc(&sb), "form": form}),
                    );
                }
                st.outcome(&(a == b));
            }
            st.sample(|| json!({"a": esc(&sa), "b": esc(&sb)}));
        },
    );
    let _ = BString::from("");
    crate::long::lib(cx);
}

fn apply(op: &Op, m: &mut MR) {
    match *op {
        Op::Keep(k) => {
            if !SPECS[k].is_empty() {
                m.retain(|f| SPECS[k].iter().any(|s| spec_match(s, f)))
            }
        }
        Op::Discard(k) => {
            m.retain(|f| !SPECS[k].iter().any(|s| spec_match(s, f)))
        }
        Op::Retain(k) | Op::Deref(k) => {
            let mut n = 0;
            m.retain(|f| {
                n += 1;
                retain_pred(k, &f.tag, n - 1)
            })
        }
    }
}
