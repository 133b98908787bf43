//! C28: sample draws records at random without replacement.
use std::collections::BTreeMap;
use std::sync::Mutex;

use serde_json::json;

use crate::c02::{gunzip, gzip};
use crate::c17::verdict;
use crate::cli::{Cli, Out, cat, job, lines};
use crate::cx::{Cx, Radix, seqs};
use crate::rec::{f, ser};

/// n different records.
fn pop(n: usize) -> Vec<Vec<u8>> {
    (0..n).map(|k| ser(&vec![f("003@", &[&format!("0{k}")]), f("012A", &[&"a".repeat(k % 3 + 1), "b"])])).collect()
}

fn counts<'a>(it: impl Iterator<Item = &'a [u8]>) -> BTreeMap<Vec<u8>, usize> {
    let mut m = BTreeMap::new();
    for l in it {
        *m.entry(l.to_vec()).or_insert(0) += 1;
    }
    m
}
fn split(b: &[u8]) -> impl Iterator<Item = &[u8]> {
    b.split_inclusive(|c| *c == b'\n')
}

/// The output has min(k, population) records, none more often than in
/// the input.
fn valid(out: &[u8], input: &[Vec<u8>], k: usize) -> bool {
    let have = counts(input.iter().map(|v| &v[..]));
    let got = counts(split(out));
    got.values().sum::<usize>() == k.min(input.len()) && got.iter().all(|(l, n)| have.get(l).is_some_and(|m| n <= m))
}

fn draw(cli: &Cli, seed: Option<u64>, k: usize, input: &[u8]) -> Out {
    let mut a = vec!["sample".to_string(), "-s".into()];
    if let Some(s) = seed {
        a.extend(["--seed".into(), s.to_string()]);
    }
    a.push(k.to_string());
    cli.run(&job(&a).stdin(input))
}

pub fn run(cx: &Cx) {
    cx.assume("uniformity is judged on the relative frequencies over all seeds of a range, within generous bounds");
    let cli = Cli::new("c28");

    // ---- every size ---------------------------------------------------
    let (nmax, seeds) = cx.pick((8, 10), (14, 64));
    cx.space(
        "sizes",
        &format!("populations of 0..={nmax} records x sample sizes 1..={} x seeds 0..{seeds}, each with two runs, two files and invalid lines", nmax + 2),
        ((nmax + 1) * (nmax + 2) * seeds) as u64,
        |i, st| {
            let mut rx = Radix(i);
            let n = rx.take(nmax + 1);
            let k = rx.take(nmax + 2) + 1;
            let seed = rx.take(seeds);
            let p = pop(n);
            let input = p.concat();
            let j = job(&["sample", "--seed", &seed.to_string(), &k.to_string()]).stdin(&input);
            let o = cli.run(&j);
            verdict(st, &j, &o, o.ok() && valid(&o.out, &p, k), &format!("{} different input records", k.min(n)));
            // other ways to give the same population
            let (a, b) = (p[..n / 2].concat(), p[n / 2..].concat());
            let mut noisy = b"x\n".to_vec();
            for r in &p {
                noisy.extend_from_slice(r);
                noisy.extend_from_slice(b"003@ \x1f0\n");
            }
            let gz = gzip(&b);
            let sd = seed.to_string();
            let ks = k.to_string();
            let js = [
                job(&["sample", "--seed", &sd, &ks]).stdin(&input),
                job(&["sample", "--seed", &sd, &ks, "a.dat", "b.dat.gz"]).file("a.dat", &a).file("b.dat.gz", &gz),
                job(&["sample", "-s", "--seed", &sd, &ks]).stdin(&noisy),
                job(&["sample", "--seed", &sd, &ks]).config(b"skip-invalid = true\n").stdin(&noisy),
            ];
            for j in &js {
                let q = cli.run(j);
                verdict(st, j, &q, q.ok() && q.out == o.out, "the same sample for the same seed and records");
            }
        },
    );

    // ---- every short stream, also with equal records -------------------
    let ls = lines();
    let len = cx.pick(3, 4);
    let ss = seqs(ls.len(), 0, len);
    cx.space(
        "streams",
        &format!("all streams of up to {len} of {} lines (also equal, invalid and not UTF-8) x sizes 1..=3 x 2 seeds and none", ls.len()),
        (ss.len() * 9) as u64,
        |i, st| {
            let mut rx = Radix(i);
            let k = rx.take(3) + 1;
            let seed = [Some(0), Some(u64::MAX), None][rx.take(3)];
            let w = &ss[rx.take(ss.len())];
            let input = cat(w.iter().map(|x| &ls[*x]));
            let p: Vec<Vec<u8>> = w.iter().filter(|x| ls[**x].rec.is_some()).map(|x| ls[*x].bytes.clone()).collect();
            let o = draw(&cli, seed, k, &input);
            let j = job(&["sample", "-s", "--seed", &format!("{seed:?}"), &k.to_string()]).stdin(&input);
            verdict(st, &j, &o, o.ok() && valid(&o.out, &p, k), &format!("{} of the records", k.min(p.len())));
        },
    );

    // ---- filter options restrict the population ------------------------
    let p: Vec<Vec<u8>> = pop(8);
    let opts: [(&[&str], fn(usize) -> bool); 7] = [
        (&["--where", "003@.0 in ['1', '3', '5', '7']"], |i| i % 2 == 1),
        (&["--where", "012A.b?"], |_| true),
        (&["--where", "!003@?"], |_| false),
        (&["-A", "a.csv"], |i| i < 3),
        (&["-D", "a.csv"], |i| i >= 3),
        (&["-l", "5"], |i| i < 5),
        (&["--where", "003@.0 in ['1', '3', '5', '7']", "-l", "2"], |i| i == 1 || i == 3),
    ];
    let fs = cx.pick(8, 64);
    cx.space("filters", &format!("{} combinations of filter options x sizes 1..=9 x {fs} seeds on 8 records", opts.len()), (opts.len() * 9 * fs) as u64, |i, st| {
        let mut rx = Radix(i);
        let (o, sel) = opts[rx.take(opts.len())];
        let k = rx.take(9) + 1;
        let seed = rx.take(fs) as u64;
        let q: Vec<Vec<u8>> = p.iter().enumerate().filter(|x| sel(x.0)).map(|x| x.1.clone()).collect();
        let want = draw(&cli, Some(seed), k, &q.concat());
        let mut a = vec!["sample", "--seed"];
        let (sd, ks) = (seed.to_string(), k.to_string());
        a.push(&sd);
        a.extend(o.iter().map(|x| if *x == "-D" { "--deny-list" } else { x }));
        a.push(&ks);
        let input = p.concat();
        let j = job(&a).stdin(&input).file("a.csv", b"ppn\n0\n1\n2\n");
        let got = cli.run(&j);
        verdict(st, &j, &got, got.ok() && valid(&got.out, &q, k) && got.out == want.out, "the sample of the selected records");
    });

    // ---- destinations ---------------------------------------------------
    let dests: [(&[&str], Option<&str>, bool); 5] =
        [(&["-g"], None, true), (&["-o", "o.dat"], Some("o.dat"), false), (&["-o", "o.dat.gz"], Some("o.dat.gz"), true), (&["-g", "-o", "o.dat"], Some("o.dat"), true), (&["-p", "-o", "o.dat"], Some("o.dat"), false)];
    cx.space("destinations", &format!("{} output options x populations of 0..=4 x sizes 1..=4 x 4 seeds", dests.len()), (dests.len() * 5 * 4 * 4) as u64, |i, st| {
        let mut rx = Radix(i);
        let (o, name, gz) = dests[rx.take(dests.len())];
        let n = rx.take(5);
        let k = rx.take(4) + 1;
        let seed = rx.take(4) as u64;
        let input = pop(n).concat();
        let want = draw(&cli, Some(seed), k, &input).out;
        let (sd, ks) = (seed.to_string(), k.to_string());
        let mut a = vec!["sample", "--seed", &sd];
        a.extend(o);
        a.push(&ks);
        let j = job(&a).stdin(&input);
        let r = cli.run(&j);
        let raw = match name {
            None => r.out.clone(),
            Some(n) => r.files.get(n).cloned().unwrap_or_default(),
        };
        let got = if gz { gunzip(&raw).unwrap_or_else(|_| b"?".to_vec()) } else { raw };
        verdict(st, &j, &r, r.ok() && got == want && (name.is_none() || r.out.is_empty()), "the same sample at the destination");
    });

    // ---- extreme sizes ----------------------------------------------------
    let sizes: [(&str, bool); 8] = [("1000000", true), ("4294967295", true), ("2147483648", true), ("0", false), ("4294967296", false), ("-1", false), ("x", false), ("1.5", false)];
    cx.space("extreme sizes", "sizes up to 2^32-1 and invalid ones x 0..=3 records x extreme seeds", (sizes.len() * 4 * 3) as u64, |i, st| {
        let mut rx = Radix(i);
        let (k, ok) = sizes[rx.take(sizes.len())];
        let n = rx.take(4);
        let seed = *rx.of(&["0", "9223372036854775808", "18446744073709551615"]);
        let input = pop(n).concat();
        let j = job(&["sample", "--seed", seed, k]).stdin(&input);
        let o = cli.run(&j);
        if ok {
            verdict(st, &j, &o, o.ok() && valid(&o.out, &pop(n), n), "all records");
        } else {
            verdict(st, &j, &o, !o.ok() && o.clean() && o.out.is_empty(), "a refusal");
        }
    });

    // ---- reach and frequencies ---------------------------------------------
    let (rmax, rseeds) = cx.pick((8, 200), (12, 1024));
    let pairs: Vec<(usize, usize)> = (1..=rmax).flat_map(|n| (1..=n).map(move |k| (n, k))).collect();
    let big: &[(usize, usize)] = &[(10, 3), (12, 4), (20, 5)];
    let bseeds = cx.pick(600, 2000);
    let mut cases: Vec<(usize, usize, usize)> = vec![];
    for s in 0..rseeds {
        cases.extend(pairs.iter().map(|(n, k)| (*n, *k, s)));
    }
    for s in 0..bseeds {
        cases.extend(big.iter().filter(|b| b.0 > rmax).map(|(n, k)| (*n, *k, s)));
    }
    // (n, k) -> how often each record was drawn, number of draws
    let freq: Mutex<BTreeMap<(usize, usize), (Vec<usize>, usize)>> = Mutex::new(BTreeMap::new());
    cx.space(
        "all seeds",
        &format!("populations of 1..={rmax} x all sizes x seeds 0..{rseeds}, {big:?} x seeds 0..{bseeds}"),
        cases.len() as u64,
        |i, st| {
            let (n, k, s) = cases[i as usize];
            let p = pop(n);
            let input = p.concat();
            let j = job(&["sample", "--seed", &s.to_string(), &k.to_string()]).stdin(&input);
            let o = cli.run(&j);
            verdict(st, &j, &o, o.ok() && valid(&o.out, &p, k), "different input records");
            let got = counts(split(&o.out));
            let mut m = freq.lock().unwrap();
            let e = m.entry((n, k)).or_insert_with(|| (vec![0; n], 0));
            e.1 += 1;
            for (x, r) in p.iter().enumerate() {
                e.0[x] += got.contains_key(r) as usize;
            }
        },
    );
    let freq = freq.into_inner().unwrap();
    cx.seq("reach and frequencies", "every record of every population and size above: drawn with some seed, missing with some seed unless all are drawn; roughly equal frequencies", |st| {
        for ((n, k), (c, runs)) in &freq {
            for (x, m) in c.iter().enumerate() {
                st.state();
                st.step();
                st.outcome(&(n, k, x, m));
                let what = format!("record {x} of {n} is in {m} of {runs} samples of size {k}");
                let case = json!({"records": n, "size": k, "record": x, "samples": runs, "drawn": m, "command": format!("pica sample --seed 0..{runs} {k}")});
                // known: the draw for record c is from 0..c instead of
                // 0..=c (pinned by the fixture samples.dat)
                if *m == 0 {
                    if *k == 1 && x == 0 && *n >= 2 && cx.is_known("size1-first-record") {
                        st.known("size1-first-record", "the first of several records is never in a sample of size 1");
                        continue;
                    }
                    st.fail(what, case);
                    return;
                }
                if *m == *runs && k < n {
                    if x == n - 1 && *n == k + 1 && cx.is_known("last-of-size-plus-one") {
                        st.known("last-of-size-plus-one", "the last record is always in a sample of size n of n+1 records");
                        continue;
                    }
                    st.fail(what, case);
                    return;
                }
                if big.contains(&(*n, *k)) {
                    let q = *m as f64 / *runs as f64 / (*k as f64 / *n as f64);
                    if !(0.4..=1.7).contains(&q) {
                        st.fail(what, case);
                        return;
                    }
                }
            }
        }
    });
    crate::c26::options(cx, &cli, &["sample"]);
    crate::long::cli(cx, &cli);
    crate::prims::cli(cx, &cli);
}
