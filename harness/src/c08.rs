//! C08: combining matchers through the API.
use pica_record::matcher::RecordMatcherBuilder;
use pica_record::prelude::*;
use pica_record::primitives::{RecordRef, SubfieldRef};
use serde_json::json;

use crate::cx::{Cx, Radix, St, esc, seqs};
use crate::rec::*;

/// Truth tables over four atoms: bit j = value under assignment j.
const A: [u16; 4] = [0xaaaa, 0xcccc, 0xf0f0, 0xff00];

/// Operands: text on field level, on subfield level, truth table.
fn operands() -> Vec<(String, String, u16)> {
    let t = |k: usize| format!("01{k}A?");
    let s = |k: usize| format!("{}?", (b'a' + k as u8) as char);
    let two = |op: &str, x: &dyn Fn(usize) -> String| format!("{} {op} {}", x(1), x(2));
    vec![
        (t(0), s(0), A[0]),
        ("010A.a?".into(), s(3), 0),
        ("#011A == 1".into(), "#b == 1".into(), A[1]),
        (two("||", &t), two("||", &s), A[1] | A[2]),
        (two("^", &t), two("XOR", &s), A[1] ^ A[2]),
        (two("&&", &t), two("&&", &s), A[1] & A[2]),
        (format!("!{}", t(3)), format!("!{}", s(3)), !A[3]),
        (format!("({} || {})", t(0), t(3)), format!("({} || {})", s(0), s(3)), A[0] | A[3]),
        ("012A.x == 'y'".into(), "c == 'y'".into(), A[2]),
        (format!("{} && {} || {}", t(0), t(1), t(2)), format!("{} && {} || {}", s(0), s(1), s(2)), A[0] & A[1] | A[2]),
    ]
    .into_iter()
    .enumerate()
    .map(|(i, (a, b, v))| match i {
        // quantified and bracketed forms
        1 => ("ALL 013A{y? || x?} && 013A{x?}".into(), b, A[3]),
        _ => (a, b, v),
    })
    .collect()
}

fn records() -> Vec<Vec<u8>> {
    (0..16u32)
        .map(|j| {
            let mut r = vec![f("003@", &["01"])];
            for k in 0..4 {
                if j >> k & 1 == 1 {
                    r.push(f(&format!("01{k}A"), &["xy"]));
                }
            }
            ser(&r)
        })
        .collect()
}

macro_rules! explore {
    ($st:ident, $ty:ty, $texts:expr, $ops:expr, $seq:expr, $start:expr, $eval:expr) => {{
        let parse = |i: usize| <$ty>::new(&$texts[i]).unwrap();
        let mut m = parse($start);
        let mut tt: u16 = $ops[$start].2;
        let mut desc = format!("[{}]", $texts[$start]);
        for (kind, k) in $seq {
            let (b, tb) = (parse(k), $ops[k].2);
            $st.step();
            match kind {
                0 => {
                    m = m & b;
                    tt &= tb
                }
                1 => {
                    m = m | b;
                    tt |= tb
                }
                2 => {
                    m = m ^ b;
                    tt ^= tb
                }
                3 => {
                    m &= b;
                    tt &= tb
                }
                4 => {
                    m |= b;
                    tt |= tb
                }
                5 => {
                    m ^= b;
                    tt ^= tb
                }
                6 => {
                    m = b & m;
                    tt &= tb
                }
                7 => {
                    m = b | m;
                    tt |= tb
                }
                8 => {
                    m = b ^ m;
                    tt ^= tb
                }
                _ => {
                    m = !m;
                    tt = !tt
                }
            }
            desc.push_str(["&", "|", "^", "&=", "|=", "^=", "<&", "<|", "<^", "!"][kind]);
            if kind < 9 {
                desc.push_str(&format!("[{}]", $texts[k]));
            }
        }
        $st.state();
        $st.outcome(&(tt, desc.len()));
        let txt = m.to_string();
        let again = match <$ty>::new(&txt) {
            Ok(m) => m,
            Err(_) => {
                $st.fail(
                    format!("text form '{txt}' of {desc} rejected"),
                    json!({"operations": desc, "text": txt}),
                );
                return;
            }
        };
        for j in 0..16usize {
            let want = tt >> j & 1 == 1;
            let (g, h) = ($eval(&m, j), $eval(&again, j));
            if g != want || h != want {
                $st.fail(
                    format!("{desc}: assignment {j:04b}: {g}, reparsed text '{txt}': {h}, expected {want}"),
                    json!({"operations": desc, "assignment": j, "text": txt, "expected": want}),
                );
                return;
            }
        }
        $st.trace();
        $st.sample(|| json!({"operations": desc, "text": txt}));
    }};
}

fn steps(i: u64, n: usize, depth: usize) -> (usize, Vec<(usize, usize)>) {
    let mut r = Radix(i);
    let start = r.take(n);
    let mut v = vec![];
    for _ in 0..depth {
        let s = r.take(9 * n + 1);
        v.push(if s == 9 * n { (9, 0) } else { (s / n, s % n) });
    }
    (start, v)
}

pub fn run(cx: &Cx) {
    let ops = operands();
    let recs = records();
    let subs: Vec<Vec<(char, &str)>> = (0..16u32)
        .map(|j| (0..4).filter(|k| j >> k & 1 == 1).map(|k| ((b'a' + k as u8) as char, "y")).collect())
        .collect();
    let ftxt: Vec<String> = ops.iter().map(|o| o.0.clone()).collect();
    // the second operand of the subfield level means "d"
    let mut sops = ops.clone();
    sops[1].2 = A[3];
    let stxt: Vec<String> = sops.iter().map(|o| o.1.clone()).collect();
    let o = MatcherOptions::default();
    let parsed: Vec<RecordRef> = recs.iter().map(|b| RecordRef::from_bytes(b).unwrap()).collect();
    let psubs: Vec<Vec<SubfieldRef>> = subs
        .iter()
        .map(|v| v.iter().map(|(c, x)| SubfieldRef::new(*c, x).unwrap()).collect())
        .collect();
    let n = ops.len();
    let k = 9 * n as u64 + 1;
    for depth in 1..=cx.pick(3, 4) {
        let total = n as u64 * k.pow(depth as u32);
        let bound = "all sequences of that many operator applications (& | ^ on both sides, assigning forms, !) over 10 kinds of operands x 16 assignments; text form reparsed";
        // depth 3: every operation sequence; in the quick tier half of the operands
        let sel: Vec<usize> = if depth == 3 && !cx.thorough {
            vec![0, 1, 3, 4, 6, 9]
        } else if depth == 4 {
            vec![0, 3, 4, 6]
        } else {
            (0..n).collect()
        };
        let m = sel.len();
        let total = if m == n { total } else { m as u64 * (9 * m as u64 + 1).pow(depth as u32) };
        let dec = |i: u64| {
            let (s, v) = steps(i, m, depth);
            (sel[s], v.into_iter().map(|(a, b)| (a, sel[b])).collect::<Vec<_>>())
        };
        cx.space(&format!("record matcher operators, depth {depth}"), bound, total, |i, st: &mut St| {
            let (s, v) = dec(i);
            explore!(st, RecordMatcher, ftxt, ops, v, s, |m: &RecordMatcher, j: usize| m.is_match(&parsed[j], &o))
        });
        cx.space(&format!("subfield matcher operators, depth {depth}"), bound, total, |i, st: &mut St| {
            let (s, v) = dec(i);
            explore!(st, SubfieldMatcher, stxt, sops, v, s, |m: &SubfieldMatcher, j: usize| m.is_match(&psubs[j], &o))
        });
        if depth < 3 || cx.thorough {
            cx.space(&format!("field matcher operators, depth {depth}"), bound, total, |i, st: &mut St| {
                let (s, v) = dec(i);
                explore!(st, FieldMatcher, ftxt, ops, v, s, |m: &FieldMatcher, j: usize| m.is_match(parsed[j].fields(), &o))
            });
        }
    }

    // the builder: steps and/or/not with lists of predicates
    let lists = seqs(4, 0, 2);
    let pick = [0usize, 3, 4, 6];
    let nl = lists.len() as u64;
    let depth = cx.pick(3, 4);
    let per = 3 * nl;
    let total: u64 = (0..=depth).map(|d| per.pow(d as u32)).sum::<u64>() * 10;
    // predicates carry a marker replaced by the transformation
    let mark = |s: &str| s.replace("01", "@@");
    let unmark = |s: String| s.replace("@@", "01");
    cx.space(
        "builder",
        "10 (quick tier, 3 steps: 4) initial matchers x all sequences of 0..=3 (thorough 4) steps (and, or, not) with lists of 0..=2 of 4 kinds of predicates x 16 assignments, plain and with a transformation; an invalid predicate is refused at every position",
        total,
        |i, st| {
            let mut i = i;
            let mut d = 0u32;
            while i >= per.pow(d) * 10 {
                i -= per.pow(d) * 10;
                d += 1;
            }
            let mut r = Radix(i);
            let start = r.take(10);
            let mut sq = vec![];
            for _ in 0..d {
                let kind = r.take(3);
                let l = r.of(&lists);
                sq.push((kind, l.iter().map(|k| pick[*k]).collect::<Vec<_>>()));
            }
            if d == 3 && !cx.thorough && ![0, 3, 4, 6].contains(&start) {
                return;
            }
            st.state();
            let mut tt = ops[start].2;
            for (kind, l) in &sq {
                for p in l {
                    st.step();
                    let x = ops[*p].2;
                    match kind {
                        0 => tt &= x,
                        1 => tt |= x,
                        _ => tt &= !x,
                    }
                }
            }
            let desc = json!({"initial": ftxt[start], "steps": sq.iter().map(|(k, l)| json!({
                "step": (["and", "or", "not"][*k]), "predicates": l.iter().map(|p| &ftxt[*p]).collect::<Vec<_>>()})).collect::<Vec<_>>()});
            let run = |transform: bool, bad: Option<usize>| -> Result<RecordMatcher, String> {
                let mut b = if transform {
                    RecordMatcherBuilder::<String>::with_transform(mark(&ftxt[start]), unmark)
                } else {
                    RecordMatcherBuilder::<String>::new(ftxt[start].clone())
                }
                .map_err(|e| e.to_string())?;
                let mut pos = 0;
                for (kind, l) in &sq {
                    let ps: Vec<String> = l
                        .iter()
                        .map(|p| {
                            pos += 1;
                            if bad == Some(pos - 1) {
                                return "012A.".into();
                            }
                            if transform { mark(&ftxt[*p]) } else { ftxt[*p].clone() }
                        })
                        .collect();
                    b = match kind {
                        0 => b.and(ps),
                        1 => b.or(ps),
                        _ => b.not(ps),
                    }
                    .map_err(|e| e.to_string())?;
                }
                Ok(b.build())
            };
            for transform in [false, true] {
                let m = match run(transform, None) {
                    Ok(m) => m,
                    Err(e) => {
                        st.fail(format!("builder (transformation {transform}) refused {desc}: {e}"), desc);
                        return;
                    }
                };
                let txt = m.to_string();
                let Ok(again) = RecordMatcher::new(&txt) else {
                    st.fail(format!("text form '{txt}' rejected"), desc);
                    return;
                };
                for j in 0..16usize {
                    let want = tt >> j & 1 == 1;
                    let (g, h) = (m.is_match(&parsed[j], &o), again.is_match(&parsed[j], &o));
                    if g != want || h != want {
                        st.fail(
                            format!("{desc} (transformation {transform}) on {}: {g}, text '{txt}': {h}, expected {want}", esc(&recs[j])),
                            json!({"builder": desc, "assignment": j, "expected": want}),
                        );
                        return;
                    }
                }
                st.trace();
            }
            let preds: usize = sq.iter().map(|s| s.1.len()).sum();
            if d <= 2 {
                for bad in 0..preds {
                    if run(false, Some(bad)).is_ok() {
                        st.fail(format!("invalid predicate {bad} accepted: {desc}"), json!({"builder": desc, "bad": bad}));
                        return;
                    }
                }
            }
            st.outcome(&(tt, preds));
            st.sample(|| desc);
        },
    );
    crate::long::lib(cx);
}
