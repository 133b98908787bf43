//! C09: parsing is a function of the text, and cheap.
use std::collections::HashMap;
use std::sync::mpsc;
use std::time::Duration;

use serde_json::json;

use crate::cx::{Cx, Radix, St, hash, seqs};
use crate::texts::*;

type Item = (Kind, String);
/// Acceptance, text form and behaviour.
type Res = Option<(String, u64)>;

fn parse(i: &Item) -> Res {
    Parsed::new(i.0, &i.1).map(|p| (p.text(), hash(&p.behave())))
}

fn fresh<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Result<T, String> {
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .map_err(|_| "panic".to_string())
}

fn short(i: &Item) -> String {
    let t: String = i.1.chars().take(40).collect();
    format!("{:?} '{t}'{}", i.0, if i.1.len() > 40 { format!(".. ({} bytes)", i.1.len()) } else { String::new() })
}

fn alphabet() -> Vec<Item> {
    let r = |n: usize, a: &str, m: &str, b: &str, k: usize| format!("{}{m}{}", a.repeat(n), b.repeat(k));
    let mut v: Vec<(Kind, String)> = vec![
        (Kind::Record, "012A?".into()),
        (Kind::Record, "(012A? && (012B? || !013B.a?))".into()),
        (Kind::Record, r(100, "(", "012A?", ")", 100)),
        (Kind::Record, r(255, "(", "012A?", ")", 255)),
        (Kind::Record, r(256, "(", "012A?", ")", 256)),
        (Kind::Record, r(60, "(", "012A?", ")", 59)),
        (Kind::Record, r(120, "(", "012A", ")", 120)),
        (Kind::Record, r(60, "!", "012A?", "", 0)),
        (Kind::Record, r(300, "!", "012A?", "", 0)),
        (Kind::Record, "(012A? && )".into()),
        (Kind::Record, r(1, "012A{", &r(100, "(", "a?", ")", 100), "}", 1)),
        (Kind::Record, r(1, "012A{", &r(100, "(", "a?", ")", 99), "}", 1)),
        (Kind::Record, r(1, "#012A{", &r(256, "!(", "a?", ")", 256), "} == 1", 1)),
        (Kind::Sub, r(255, "(", "a?", ")", 255)),
        (Kind::Sub, r(20, "(!", "a?", ")", 19)),
        (Kind::Sub, "!a? && (b? ^ c?)".into()),
        (Kind::Path, "012A/*{a | (b? && !(c?))}".into()),
        (Kind::Path, r(1, "012A/*{a | ", &r(30, "(", "b?", ")", 29), "}", 1)),
        (Kind::Format, "012A/*{(?u a <*> (b <$> c)) | (a?)}".into()),
        (Kind::Format, format!("012A{{{}a{}}}", "(b <*> ".repeat(31), ")".repeat(31))),
        (Kind::Format, format!("012A{{{}a{}}}", "(b <*> ".repeat(32), ")".repeat(32))),
        (Kind::Format, format!("012A{{{}a{}}}", "(b <*> ".repeat(10), ")".repeat(9))),
        (Kind::Query, "003@.0, 012A/*{a, b | (a?)}, 012A/*{(a <*> (b <$> a))}, 'x'".into()),
        (Kind::Query, format!("003@.0, 012A{{{}a{}}}", "(b <$> ".repeat(10), ")".repeat(9))),
        (Kind::Tag, "01[2-3][A-B]".into()),
        (Kind::Tag, "01[2-3][A-B".into()),
        (Kind::Occ, "/01-05".into()),
        (Kind::Occ, "/05-01".into()),
    ];
    v.dedup();
    v
}

/// CPU time of the current thread.
fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/thread-self/schedstat").unwrap_or_default();
    s.split(' ').next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) as f64 / 1e9
}

pub fn run(cx: &Cx) {
    cx.assume("parsers have no scheduling points (no locks, no atomics), so calls of several threads interleave as a whole");
    cx.assume("CPU time of the thread stands for work; the bounds leave a factor of 100 to the measured times");
    let al = alphabet();
    // reference: each item in a fresh thread
    let reference: Vec<Res> = al
        .iter()
        .map(|i| {
            let i = i.clone();
            fresh(move || parse(&i)).expect("reference")
        })
        .collect();
    let n = al.len();
    let probe = |st: &mut St, hist: &[usize], reps: usize| {
        let (a, h) = (al.clone(), hist.to_vec());
        let res = fresh(move || {
            for _ in 0..reps {
                for k in &h {
                    parse(&a[*k]);
                }
            }
            a.iter().map(parse).collect::<Vec<_>>()
        });
        let desc: Vec<String> = hist.iter().map(|k| short(&al[*k])).collect();
        let case = json!({"history": hist.iter().map(|k| &al[*k].1).collect::<Vec<_>>(), "repetitions": reps});
        match res {
            Err(e) => st.fail(format!("after {reps} x {desc:?}: {e}"), case),
            Ok(v) => {
                for (k, x) in v.iter().enumerate() {
                    st.step();
                    if *x != reference[k] {
                        st.fail(
                            format!("after {reps} x {desc:?}, {} is {} (in a fresh thread: {})", short(&al[k]),
                                if x.is_some() { "accepted" } else { "rejected" },
                                if reference[k].is_some() { "accepted" } else { "rejected" }),
                            case,
                        );
                        return;
                    }
                }
                st.outcome(&(hist, reps));
                st.trace();
            }
        }
        st.state();
    };
    let small: Vec<usize> = vec![1, 4, 5, 8, 9, 11, 12, 14, 17, 20, 21, 23];
    let hs = if cx.thorough { seqs(n, 0, 3) } else { seqs(n, 0, 2) };
    cx.space(
        "histories",
        "all histories of up to 2 (thorough 3) parses over 28 expressions (accepted, rejected, at and beyond the nesting limits) in a fresh thread, then all 28 are probed",
        hs.len() as u64,
        |i, st| {
            probe(st, &hs[i as usize], 1);
            st.sample(|| json!({"history": hs[i as usize].iter().map(|k| short(&al[*k])).collect::<Vec<_>>()}));
        },
    );
    let hs3 = seqs(small.len(), 3, cx.pick(3, 4));
    cx.space(
        "longer histories",
        "all histories of 3 (thorough 4) parses over the 12 nested or rejected expressions, then all 28 are probed",
        hs3.len() as u64,
        |i, st| {
            let h: Vec<usize> = hs3[i as usize].iter().map(|k| small[*k]).collect();
            probe(st, &h, 1);
            st.sample(|| json!({"history": h}));
        },
    );
    cx.space("repetitions", "each of the 28 expressions and each pair of the 12 repeated 300 times", (n + 144) as u64, |i, st| {
        let h = if (i as usize) < n {
            vec![i as usize]
        } else {
            let mut r = Radix(i - n as u64);
            vec![small[r.take(12)], small[r.take(12)]]
        };
        probe(st, &h, 300);
        st.sample(|| json!({"history": h, "repetitions": 300}));
    });

    // expressions that are nearly the same
    let mut near: Vec<(Kind, String)> = al.iter().filter(|x| x.1.len() < 80).cloned().collect();
    for (k, t) in [
        (Kind::Record, "012A.a == 'x y'"),
        (Kind::Record, "012A.a =^ \"xY\" && #012A/01 == 2"),
        (Kind::Record, "012A/*{a == 'x' || [bc] in ['x', 'y ']}"),
        (Kind::Record, "012A.a =~ '^x' || 012A.b =* 'AB'"),
        (Kind::Record, "ANY 012A/01.a == 'x'"),
        (Kind::Field, "012A/00.b == 'x'"),
        (Kind::Sub, "[ab] == 'x y' && #a >= 2"),
        (Kind::Sub, "ALL a in ['x', ' x']"),
        (Kind::Path, "012A/01.[ab]"),
        (Kind::Path, "012A/*{a | b == ' x'}"),
        (Kind::Query, "'x ', 012A.a, 'x'"),
        (Kind::Format, "012A{'x ' a ' Y' <$> ?U b..2}"),
        (Kind::Tag, "[01]1.[A@]"),
        (Kind::Tag, ".12A"),
        (Kind::Occ, "/*"),
        (Kind::Occ, "/010-011"),
    ] {
        near.push((k, t.into()));
    }
    let edits = |t: &str| -> Vec<String> {
        let c: Vec<char> = t.chars().collect();
        let put = |p: usize, n: usize, x: &[char]| -> String { c[..p].iter().chain(x).chain(&c[p + n..]).collect() };
        let mut v = vec![];
        for p in 0..c.len() {
            v.push(put(p, 1, &[]));
            v.push(put(p, 0, &[' ']));
            v.push(put(p, 0, &[c[p]]));
            let s = if c[p].is_ascii_uppercase() { c[p].to_ascii_lowercase() } else { c[p].to_ascii_uppercase() };
            if s != c[p] {
                v.push(put(p, 1, &[s]));
            }
            let o = match c[p] {
                '0'..='8' => (c[p] as u8 + 1) as char,
                '9' => '0',
                '\'' => '"',
                'x' => 'y',
                ' ' => '\t',
                _ => continue,
            };
            v.push(put(p, 1, &[o]));
        }
        v.push(format!("{t} "));
        v
    };
    cx.space(
        "similar expressions",
        &format!("{} expressions x every edit of one character (removed, doubled, space inserted, case changed, next digit, other quote): parsed before and after each other, and again, in one thread", near.len()),
        near.len() as u64,
        |i, st| {
            let (kind, t) = near[i as usize].clone();
            let all: Vec<Item> = std::iter::once(t.clone()).chain(edits(&t)).map(|t| (kind, t)).collect();
            let refs: Vec<Res> = all
                .iter()
                .map(|x| {
                    let x = x.clone();
                    fresh(move || parse(&x)).expect("reference")
                })
                .collect();
            for e in 1..all.len() {
                st.state();
                let v = all.clone();
                let hist = [e, 0, e, 0, 0, e, e];
                let got = fresh(move || hist.iter().map(|k| parse(&v[*k])).collect::<Vec<_>>());
                for (n, k) in hist.iter().enumerate() {
                    st.step();
                    if got.as_ref().ok().is_none_or(|g| g[n] != refs[*k]) {
                        st.fail(
                            format!("{} after {} is not what it is alone", short(&all[*k]), short(&all[if n > 0 { hist[n - 1] } else { 0 }])),
                            json!({"kind": format!("{kind:?}"), "history": hist[..=n].iter().map(|k| &all[*k].1).collect::<Vec<_>>()}),
                        );
                        return;
                    }
                }
                st.trace();
                st.outcome(&(&all[e].1, refs[e].is_some()));
            }
            st.sample(|| json!({"expression": t, "edits": all.len() - 1}));
        },
    );

    // two threads, all interleavings of the calls
    let th: Vec<usize> = vec![1, 5, 9, 11, 16, 18, 21, 22];
    let inter: Vec<[usize; 4]> = vec![[0, 0, 1, 1], [0, 1, 0, 1], [0, 1, 1, 0], [1, 0, 0, 1], [1, 0, 1, 0], [1, 1, 0, 0]];
    cx.space("two threads", "all pairs of histories of 2 parses over 8 expressions x all 6 interleavings", 8u64.pow(4) * 6, |i, st| {
        let mut r = Radix(i);
        let order = *r.of(&inter);
        let h: Vec<usize> = (0..4).map(|_| th[r.take(8)]).collect();
        thread_local! {
            static W: Vec<(mpsc::Sender<Item>, mpsc::Receiver<Res>)> = (0..2).map(|_| {
                let (tx, rx) = mpsc::channel::<Item>();
                let (rtx, rrx) = mpsc::channel();
                std::thread::spawn(move || {
                    while let Ok(i) = rx.recv() {
                        if rtx.send(parse(&i)).is_err() { break }
                    }
                });
                (tx, rrx)
            }).collect();
        }
        st.state();
        let mut pos = [0, 0];
        for t in order {
            let k = h[2 * t + pos[t]];
            pos[t] += 1;
            st.step();
            let got = W.with(|w| {
                let _ = w[t].0.send(al[k].clone());
                w[t].1.recv()
            });
            if got.as_ref().ok() != Some(&reference[k]) {
                st.fail(
                    format!("{} in thread {t}, order {order:?}", short(&al[k])),
                    json!({"histories": h.iter().map(|k| &al[*k].1).collect::<Vec<_>>(), "order": order}),
                );
                return;
            }
        }
        st.trace();
        st.outcome(&(order, &h));
        st.sample(|| json!({"histories": h, "order": order}));
    });

    // growth of the work
    type Gen = Box<dyn Fn(usize) -> String + Sync>;
    let wrap = |a: &'static str, m: &'static str, b: &'static str, cut: usize| -> Gen {
        Box::new(move |n| format!("{}{m}{}", a.repeat(n), b.repeat(n.saturating_sub(cut))))
    };
    let inside = |pre: &'static str, g: Gen, post: &'static str| -> Gen { Box::new(move |n| format!("{pre}{}{post}", g(n))) };
    let mut fam: Vec<(Kind, &str, Gen, usize)> = vec![];
    for (a, m, b) in [
        ("(", "012A?", ")"),
        ("(", "012A", ")"),
        ("!(", "012A.a?", ")"),
        ("!", "012A?", ""),
        ("!", "012A.a", ""),
        ("(012B? && ", "012A?", ")"),
        ("(012B? ^ ", "012A?", ")"),
        ("(012B? || ", "012A == 1", ")"),
        ("(", "012A?", " || 012B?)"),
        ("(", "012A?", " XOR 012B.a == 'x')"),
        ("(", "012A?", " && 012B{a? b?})"),
        ("(#012A == 1 && ", "012A?", " || 012B?)"),
    ] {
        for cut in [0, 1] {
            fam.push((Kind::Record, "filter", wrap(a, m, b, cut), 240));
        }
    }
    for (a, m, b) in [
        ("(", "a?", ")"),
        ("(", "a", ")"),
        ("!(", "a?", ")"),
        ("!", "a == 'x'", ""),
        ("(b? && ", "a?", ")"),
        ("(b == 'x' ^ ", "a?", ")"),
        ("(", "a?", " || b?)"),
        ("(", "a =~ 'x'", " XOR b?)"),
    ] {
        for cut in [0, 1] {
            fam.push((Kind::Sub, "subfield filter", wrap(a, m, b, cut), 240));
            fam.push((Kind::Record, "bracket filter", inside("012A{", wrap(a, m, b, cut), "}"), 240));
            fam.push((Kind::Record, "nested bracket filter", inside("((012B? && 012A{", wrap(a, m, b, cut), "}))"), 240));
            fam.push((Kind::Record, "cardinality", inside("#012A{", wrap(a, m, b, cut), "} == 1"), 240));
            fam.push((Kind::Path, "path", inside("012A{(a, b) | ", wrap(a, m, b, cut), "}"), 240));
            fam.push((Kind::Query, "query", inside("003@.0, 012A{a, b | ", wrap(a, m, b, cut), "}"), 240));
            fam.push((Kind::Format, "format condition", inside("012A{a <*> b | ", wrap(a, m, b, cut), "}"), 240));
        }
    }
    for (a, m, b) in [
        ("(", "a", ")"),
        ("(b <*> ", "a", ")"),
        ("(b <$> ", "a", ")"),
        ("(?u b <$> ", "a ", ")"),
        ("(", "a", " <*> b)"),
        ("(", "a", " <$> b)"),
        ("(", "a", " <$> b <*> c)"),
        ("(c <*> ", "", " <$> b)"),
    ] {
        for cut in [0, 1] {
            fam.push((Kind::Format, "format", inside("012A{", wrap(a, m, b, cut), "}"), 60));
            fam.push((Kind::Query, "query", inside("'x', 012A{", wrap(a, m, b, cut), "}"), 60));
        }
    }
    // long flat expressions
    let flat = |one: &'static str, sep: &'static str, end: &'static str| -> Gen {
        Box::new(move |n| {
            let v = vec![one; n * 8];
            format!("{}{end}", v.join(sep))
        })
    };
    for (k, o, s, e) in [
        (Kind::Record, "012A?", " && ", ""),
        (Kind::Record, "012A?", " || ", " ||"),
        (Kind::Record, "012A.a == 'x'", " ^ ", ""),
        (Kind::Record, "012A?", "XOR", ")"),
        (Kind::Sub, "a?", " && ", ""),
        (Kind::Sub, "a == 'x'", "||", "||"),
        (Kind::Query, "012A.a", ", ", ""),
        (Kind::Query, "'x'", ", ", ","),
    ] {
        fam.push((k, "chain", flat(o, s, e), 240));
    }
    for (k, pre, o, s, post) in [
        (Kind::Sub, "a in [", "'x'", ", ", "]"),
        (Kind::Sub, "a in [", "'x'", ", ", ""),
        (Kind::Sub, "a == '", "x", "", "'"),
        (Kind::Sub, "a == '", "\\\\", "", ""),
        (Kind::Sub, "[", "a-c", "", "]?"),
        (Kind::Sub, "", " ", "", "a?"),
        (Kind::Path, "012A{", "a", ", ", "}"),
        (Kind::Path, "012A{", "a", ", ", ""),
        (Kind::Format, "012A{", "a", " <*> ", "}"),
        (Kind::Format, "012A{", "'p' a", " <$> ", ""),
        (Kind::Tag, "[", "0", "", "]12A"),
        (Kind::Record, "012A", " ", "", "?"),
        (Kind::Record, "", " ", "", "012A?"),
    ] {
        fam.push((k, "list", inside(pre, flat(o, s, ""), post), 240));
    }
    let worst = std::sync::Mutex::new(HashMap::<String, f64>::new());
    cx.space(
        "growth of parse time",
        "expression families nested to depth 1..=60 by one and 240 (format 60), complete and unbalanced, and lists and chains up to 1920 operands: CPU time at most 0.25 s + 0.1 ms per byte",
        fam.len() as u64,
        |i, st| {
            let (kind, name, g, max) = &fam[i as usize];
            let mut d: Vec<usize> = (1..=60).collect();
            d.extend([90, 120, 180, 240]);
            for n in d.into_iter().filter(|n| n <= max) {
                let it = (*kind, g(n));
                st.state();
                st.step();
                let len = it.1.len();
                let limit = 0.25 + len as f64 * 1e-4;
                let (tx, rx) = mpsc::channel();
                let it2 = it.clone();
                // an unbounded parse is given up after a minute
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn(move || {
                        let mut best = f64::MAX;
                        for _ in 0..2 {
                            let t = cpu();
                            let ok = Parsed::new(it2.0, &it2.1).is_some();
                            best = best.min(cpu() - t);
                            if best < limit / 20.0 {
                                let _ = tx.send((best, ok));
                                return;
                            }
                        }
                        let _ = tx.send((best, true));
                    })
                    .unwrap();
                let got = rx.recv_timeout(Duration::from_secs(60));
                let case = json!({"kind": format!("{kind:?}"), "family": name, "depth": n, "expression": it.1.chars().take(300).collect::<String>()});
                match got {
                    Ok((t, ok)) if t <= limit => {
                        st.trace();
                        st.outcome(&(i, ok));
                        let mut w = worst.lock().unwrap();
                        let e = w.entry(format!("{kind:?} {name}")).or_default();
                        *e = e.max(t);
                    }
                    Ok((t, _)) => {
                        st.fail(format!("{name} family, depth {n} ({len} bytes): {t:.2} s"), case);
                        return;
                    }
                    Err(_) => {
                        st.fail(format!("{name} family, depth {n} ({len} bytes): not finished after 60 s"), case);
                        return;
                    }
                }
            }
            st.sample(|| json!({"family": name, "example": g(3)}));
        },
    );
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("{:?}", worst.lock().unwrap());
    }
}
