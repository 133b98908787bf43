//! C12: queries.
use pica_record::StringRecord;
use pica_record::prelude::*;
use pica_record::primitives::RecordRef;
use serde_json::json;

use crate::c11::{CONDS, Cond};
use crate::c13::{F, build};
use crate::cx::{Cx, Radix, esc, seqs};
use crate::expr::*;
use crate::rec::*;

type Row = Vec<Vec<u8>>;

#[derive(Clone)]
pub enum Fr {
    Path(&'static str, &'static str, Vec<&'static str>, Cond),
    Lit(&'static str),
    Fmt(&'static str, &'static str, F, Cond, String),
}

#[derive(Clone, Copy, Debug)]
pub struct QOpt {
    pub squash: bool,
    pub merge: bool,
    pub sep: &'static str,
}

impl QOpt {
    pub fn real(&self) -> QueryOptions {
        QueryOptions::new().squash(self.squash).merge(self.merge).separator(self.sep)
    }
}

fn join(v: Vec<Vec<u8>>, sep: &str) -> Vec<u8> {
    v.join(sep.as_bytes())
}

impl Fr {
    pub fn text(&self, v: usize) -> String {
        match self {
            Fr::Path(t, o, s, c) if c.0.is_empty() => match v % 3 {
                0 if s.len() == 1 => format!("{t}{o}.{}", s[0]),
                1 => format!("{t}{o} {{ ({}) }}", s.join(" , ")),
                _ => format!("{t}{o}{{{}}}", s.join(",")),
            },
            Fr::Path(t, o, s, c) => match v % 2 {
                0 => format!("{t}{o}{{{} | {}}}", s.join(", "), c.0),
                _ => format!("{t}{o}{{({})|{}}}", s.join(","), c.0),
            },
            Fr::Lit(s) => match v % 2 {
                0 => quote(s.as_bytes()),
                _ => quote2(s.as_bytes()),
            },
            Fr::Fmt(t, o, _, c, x) if c.0.is_empty() => format!("{t}{o}{{{x}}}"),
            Fr::Fmt(t, o, _, c, x) => format!("{t}{o}{{{x} | {}}}", c.0),
        }
    }
    /// The rows of the fragment.
    pub fn rows(&self, r: &MR, o: &QOpt) -> Vec<Row> {
        let mut rows: Vec<Row> = match self {
            Fr::Lit(s) => vec![vec![s.as_bytes().to_vec()]],
            Fr::Fmt(t, oc, ast, c, _) => field_sel(r, t, oc)
                .into_iter()
                .filter(|f| c.1(&f.subs))
                .map(|f| ast.render(f, false))
                .filter(|v| !v.is_empty())
                .map(|v| vec![v])
                .collect(),
            Fr::Path(t, oc, sets, c) => {
                let mut rows = vec![];
                for f in field_sel(r, t, oc).into_iter().filter(|f| c.1(&f.subs)) {
                    let mut part: Vec<Row> = vec![vec![]];
                    for s in sets {
                        let mut cells: Vec<Vec<u8>> =
                            f.subs.iter().filter(|x| codes(s, x.0)).map(|x| x.1.clone()).collect();
                        if cells.is_empty() {
                            cells.push(vec![]);
                        }
                        if o.squash {
                            cells = vec![join(cells, o.sep)];
                        }
                        part = part
                            .iter()
                            .flat_map(|row| cells.iter().map(move |c| [row.clone(), vec![c.clone()]].concat()))
                            .collect();
                    }
                    rows.extend(part);
                }
                rows
            }
        };
        if rows.is_empty() {
            rows.push(vec![vec![]; self.width()]);
        }
        if o.merge {
            rows = vec![(0..self.width()).map(|k| join(rows.iter().map(|r| r[k].clone()).collect(), o.sep)).collect()];
        }
        rows
    }
    pub fn width(&self) -> usize {
        match self {
            Fr::Path(_, _, s, _) => s.len(),
            _ => 1,
        }
    }
}

pub fn table(q: &[Fr], r: &MR, o: &QOpt) -> Vec<Row> {
    let mut out: Vec<Row> = vec![vec![]];
    for fr in q {
        let rows = fr.rows(r, o);
        out = out.iter().flat_map(|a| rows.iter().map(move |b| [a.clone(), b.clone()].concat())).collect();
    }
    out
}

pub fn fragments() -> Vec<Fr> {
    let fm = |t: &[usize], rot: usize, c: usize| {
        let (a, s) = build(t, rot);
        Fr::Fmt("012A", "/*", a.unwrap(), CONDS[c], s)
    };
    vec![
        Fr::Path("003@", "", vec!["0"], CONDS[0]),
        Fr::Lit("lit, \"'{"),
        Fr::Path("012A", "/*", vec!["a", "b"], CONDS[0]),
        Fr::Path("012A", "/*", vec!["a"], CONDS[1]),
        fm(&[0, 4, 0], 0, 0),
        Fr::Path("012A", "/01-02", vec!["[ab]", "X", "*"], CONDS[0]),
        Fr::Path("012[AB]", "", vec!["b", "a"], CONDS[5]),
        Fr::Lit(""),
        Fr::Path("....", "/*", vec!["*"], CONDS[0]),
        fm(&[0], 2, 2),
        Fr::Path("299Z", "", vec!["a", "b", "c"], CONDS[0]),
        fm(&[0, 5, 2, 0, 3], 3, 1),
        Fr::Path("212A", "/01", vec!["a", "b"], CONDS[2]),
    ]
}

fn show(t: &[Row]) -> Vec<Vec<String>> {
    t.iter().map(|r| r.iter().map(|c| esc(c)).collect()).collect()
}

pub fn run(cx: &Cx) {
    let fr = fragments();
    let qs = seqs(fr.len(), 1, cx.pick(3, 4));
    let recs = crate::c11::records(cx.pick(3, 3));
    let bytes: Vec<Vec<u8>> = recs.iter().map(ser).collect();
    let mut opts = vec![];
    for squash in [false, true] {
        for merge in [false, true] {
            for sep in ["|", "", "--"] {
                if !squash && !merge && sep != "|" {
                    continue;
                }
                opts.push(QOpt { squash, merge, sep });
            }
        }
    }
    cx.space(
        "queries x records",
        "all queries of 1..=3 (thorough 4) fragments over 13 (paths, literals, formats) x squash x merge x separators x records of 1..=3 fields over 10 (longer queries: a fixed selection of them)",
        qs.len() as u64 * opts.len() as u64,
        |i, st| {
            let q: Vec<Fr> = qs[(i / opts.len() as u64) as usize].iter().map(|k| fr[*k].clone()).collect();
            let o = opts[(i % opts.len() as u64) as usize];
            let mut ps = vec![];
            for v in 0..3 {
                let sep = [",", ", ", " ,\n"][v];
                let t = q.iter().map(|f| f.text(v + (i % 2) as usize)).collect::<Vec<_>>().join(sep);
                match Query::new(&t) {
                    Ok(p) => ps.push((t, p)),
                    Err(_) => {
                        st.fail(format!("query '{t}' rejected"), json!({"query": t}));
                        return;
                    }
                }
            }
            let ro = o.real();
            let width: usize = q.iter().map(|f| f.width()).sum();
            let (off, step) = match q.len() {
                1 => (0, 1),
                2 => ((i % 5) as usize, 5),
                3 => ((i % 37) as usize, cx.pick(37, 5)),
                _ => ((i % 101) as usize, 101),
            };
            for (k, (m, b)) in recs.iter().zip(&bytes).enumerate().skip(off).step_by(step) {
                let want = table(&q, m, &o);
                let rec = RecordRef::from_bytes(b).unwrap();
                st.state();
                let n = if k % 4 == 0 { 3 } else { 1 };
                for (t, p) in ps.iter().take(n) {
                    st.step();
                    let got: Vec<Row> =
                        rec.query(p, &ro).into_inner().into_iter().map(|r| r.into_iter().map(|c| c.to_vec()).collect()).collect();
                    if got != want || got.iter().any(|r| r.len() != width) {
                        st.fail(
                            format!("'{t}' {o:?} on {}: {:?}", esc(b), show(&got)),
                            json!({"query": t, "options": format!("{o:?}"), "record": esc(b), "expected": show(&want)}),
                        );
                        return;
                    }
                }
                if n > 1 && utf8(m) {
                    let s = StringRecord::try_from(ByteRecord::from_bytes(b).unwrap()).unwrap();
                    let got: Vec<Row> =
                        s.query(&ps[0].1, &ro).into_inner().into_iter().map(|r| r.into_iter().map(|c| c.into_bytes()).collect()).collect();
                    if got != want {
                        st.fail(format!("'{}' on the text record {}", ps[0].0, esc(b)), json!({"query": ps[0].0, "record": esc(b)}));
                        return;
                    }
                }
                st.trace();
                st.outcome(&want);
            }
            st.sample(|| json!({"query": ps[0].0, "options": format!("{o:?}")}));
        },
    );
    cx.space("conditions with options", "case-ignore x thresholds in paths and formats of a query", 2 * 5, |i, st| {
        let mut r = Radix(i);
        let ci = r.bool();
        let th = *r.of(&[0.0, 0.3, 0.5, 0.7, 0.9]);
        let b = ser(&vec![f("012A", &["aXY", "b1"]), f("012A", &["axyz", "b2"]), f("012A", &["axy", "b3"])]);
        let rec = RecordRef::from_bytes(&b).unwrap();
        let m = parse(&b).unwrap();
        let op = Opts { ci, th };
        for (t, c) in [
            ("012A{b | a == 'xy'}", Crit::Rel(Q::Any, "a".into(), "==", b"xy".to_vec())),
            ("012A{b | a =* 'xy'}", Crit::Rel(Q::Any, "a".into(), "=*", b"xy".to_vec())),
            ("012A{b.. | a == 'xy'}", Crit::Rel(Q::Any, "a".into(), "==", b"xy".to_vec())),
            ("012A{b.. | a =* 'xy'}", Crit::Rel(Q::Any, "a".into(), "=*", b"xy".to_vec())),
        ] {
            st.state();
            st.step();
            st.trace();
            let mut want: Vec<Vec<u8>> = m.iter().filter(|f| c.eval(&f.subs, &op)).map(|f| f.subs[1].1.clone()).collect();
            if want.is_empty() {
                want.push(vec![]);
            }
            let o = QueryOptions::new().case_ignore(ci).strsim_threshold(th);
            let got: Vec<Vec<u8>> =
                rec.query(&Query::new(t).unwrap(), &o).into_inner().into_iter().map(|mut r| r.remove(0).to_vec()).collect();
            st.outcome(&(t, i, &want));
            if got != want {
                st.fail(format!("{t}, ignore case {ci}, threshold {th}: {got:?}"), json!({"query": t, "case_ignore": ci, "threshold": th}));
            }
        }
        st.sample(|| json!({"case_ignore": ci, "threshold": th}));
    });
    // syntax
    let toks = ["003@.0", "'x'", "012A{a, b}", "012A{a <$> b}", ",", "012A", "{"];
    let ts = seqs(toks.len(), 0, cx.pick(6, 7));
    cx.space("query syntax", "all sequences of up to 6 (thorough 7) of 7 tokens (4 fragments, comma, 2 incomplete ones)", ts.len() as u64, |i, st| {
        let s = &ts[i as usize];
        let t: String = s.iter().map(|k| toks[*k]).collect();
        let want = s.len() % 2 == 1 && s.iter().enumerate().all(|(p, k)| if p % 2 == 0 { *k < 4 } else { *k == 4 });
        st.state();
        st.step();
        let got = Query::new(&t).is_ok();
        if got != want {
            st.fail(format!("query '{t}' accepted={got}"), json!({"query": t, "expected": want}));
        }
        st.outcome(&(want, if want { t.as_str() } else { "" }));
        if want {
            st.trace();
            st.sample(|| json!({"query": t}));
        }
    });
    crate::long::lib(cx);
}
