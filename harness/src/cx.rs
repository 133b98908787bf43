//! Exploration engine: named bounded spaces, parallel exhaustive
//! enumeration, deterministic selection of the first violation,
//! measured evidence.
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::Instant;

use serde_json::{Value, json};

#[derive(Clone, Debug)]
pub struct Viol {
    pub order: u64,
    pub msg: String,
    pub replay: Value,
}

/// Counters of one worker.
#[derive(Default)]
pub struct St {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<Value>,
    pub viol: Option<Viol>,
    pub known: BTreeMap<String, (String, u64)>,
    pub order: u64,
}

pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl St {
    #[inline]
    pub fn state(&mut self) {
        self.states += 1;
    }
    #[inline]
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    /// One model behaviour has been executed on the implementation and
    /// compared.
    #[inline]
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn outcome<T: std::hash::Hash>(&mut self, t: &T) {
        if self.outcomes.len() < 100_000 {
            self.outcomes.insert(hash(t));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    pub fn fail(&mut self, msg: impl Into<String>, replay: Value) {
        let replace = match self.viol {
            None => true,
            Some(ref v) => self.order < v.order,
        };
        if replace {
            self.viol = Some(Viol {
                order: self.order,
                msg: msg.into(),
                replay,
            });
        }
    }
    pub fn failed(&self) -> bool {
        self.viol.is_some()
    }
    /// Records a deviation that is listed as a known finding.
    pub fn known(&mut self, key: &str, what: &str) {
        let e = self
            .known
            .entry(key.to_string())
            .or_insert((what.to_string(), 0));
        e.1 += 1;
    }
    fn merge(&mut self, o: St) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.outcomes.extend(o.outcomes);
        self.samples.extend(o.samples);
        for (k, v) in o.known {
            let e = self.known.entry(k).or_insert((v.0.clone(), 0));
            e.1 += v.1;
        }
        match (&self.viol, o.viol) {
            (_, None) => {}
            (None, Some(v)) => self.viol = Some(v),
            (Some(a), Some(b)) => {
                if b.order < a.order {
                    self.viol = Some(b)
                }
            }
        }
    }
}

pub struct Cx {
    pub id: String,
    pub tier: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub known: Vec<String>,
    spaces: Mutex<Vec<Value>>,
    total: Mutex<St>,
    violated: AtomicBool,
    viol_space: Mutex<Option<String>>,
    exhaustive: AtomicBool,
    assumptions: Mutex<Vec<String>>,
}

pub fn jobs() -> usize {
    std::env::var("MC_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism().map_or(8, |n| n.get())
        })
}

/// Runs `f`, turning a panic of the code under test into `Err`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }
    })
}

impl Cx {
    pub fn new(id: &str) -> Self {
        let tier =
            std::env::var("VERIF_TIER").unwrap_or("quick".into());
        let known = std::fs::read_to_string("known_findings.txt")
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                l.strip_prefix("known: ").map(|s| s.to_string())
            })
            .collect();
        Self {
            id: id.into(),
            thorough: tier == "thorough",
            tier,
            seed: std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1),
            start: Instant::now(),
            known,
            spaces: Default::default(),
            total: Default::default(),
            violated: AtomicBool::new(false),
            viol_space: Default::default(),
            exhaustive: AtomicBool::new(true),
            assumptions: Default::default(),
        }
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }

    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }

    /// True if the known-findings file lists `key` for this property.
    pub fn is_known(&self, key: &str) -> bool {
        let p = format!("property={} key={}", self.id, key);
        self.known.iter().any(|l| {
            l == &p || l.starts_with(&format!("{p} "))
        })
    }

    pub fn stop(&self) -> bool {
        self.violated.load(Ordering::Relaxed)
    }

    /// Explores items `0..n` exhaustively in parallel.
    pub fn space(
        &self,
        name: &str,
        bound: &str,
        n: u64,
        f: impl Fn(u64, &mut St) + Sync,
    ) {
        if self.stop() {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let best = AtomicU64::new(u64::MAX);
        let merged = Mutex::new(St::default());
        let chunk = (n / (jobs() as u64 * 64)).clamp(1, 4096);
        std::thread::scope(|s| {
            for _ in 0..jobs().min(n.max(1) as usize) {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        let mut st = St::default();
                        'o: loop {
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= n {
                                break;
                            }
                            for i in a..(a + chunk).min(n) {
                                // items beyond the first violation are irrelevant
                                if i > best.load(Ordering::Relaxed) {
                                    break 'o;
                                }
                                st.order = i;
                                let r = guard(|| f(i, &mut st));
                                if let Err(e) = r {
                                    st.fail(
                                        format!("panic: {e}"),
                                        json!({"item": i, "panic": e}),
                                    );
                                }
                                if st.failed() {
                                    best.fetch_min(i, Ordering::Relaxed);
                                    break 'o;
                                }
                            }
                        }
                        merged.lock().unwrap().merge(st);
                    })
                    .unwrap();
            }
        });
        let st = merged.into_inner().unwrap();
        self.add(name, bound, st, t0);
    }

    /// Runs a sequential exploration.
    pub fn seq(
        &self,
        name: &str,
        bound: &str,
        f: impl FnOnce(&mut St),
    ) {
        if self.stop() {
            return;
        }
        let t0 = Instant::now();
        let mut st = St::default();
        if let Err(e) = guard(|| f(&mut st)) {
            st.fail(format!("panic: {e}"), json!({"panic": e}));
        }
        self.add(name, bound, st, t0);
    }

    fn add(&self, name: &str, bound: &str, mut st: St, t0: Instant) {
        st.samples.truncate(2);
        self.spaces.lock().unwrap().push(json!({
            "space": name,
            "bound": bound,
            "states": st.states,
            "transitions": st.transitions,
            "traces_validated_against_impl": st.traces,
            "distinct_outcomes": st.outcomes.len(),
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!(
                "  [{}] {name}: states={} transitions={} traces={} outcomes={} {:.1}s",
                self.id,
                st.states,
                st.transitions,
                st.traces,
                st.outcomes.len(),
                t0.elapsed().as_secs_f64()
            );
        }
        if st.failed() && !self.violated.swap(true, Ordering::SeqCst) {
            *self.viol_space.lock().unwrap() = Some(name.to_string());
        }
        let samples = std::mem::take(&mut st.samples);
        let mut t = self.total.lock().unwrap();
        for s in samples {
            t.samples.push(json!({"space": name, "case": s}));
        }
        t.merge(st);
    }

    pub fn not_exhaustive(&self) {
        self.exhaustive.store(false, Ordering::SeqCst);
    }

    /// Writes the evidence and reports the verdict.
    pub fn finish(self) -> i32 {
        let id = &self.id;
        let st = self.total.into_inner().unwrap();
        let _ = std::fs::create_dir_all("evidence");
        let ev = json!({
            "property": id,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": st.states,
                "transitions": st.transitions,
                "traces_validated_against_impl": st.traces,
                "samples": st.samples,
                "distinct_outcomes": st.outcomes.len(),
                "exhaustive": self.exhaustive.load(Ordering::SeqCst) && st.viol.is_none(),
                "spaces": self.spaces.into_inner().unwrap(),
                "known_findings": st.known.iter().map(|(k, v)| json!({"key": k, "what": v.0, "occurrences": v.1})).collect::<Vec<_>>(),
            },
            "assumptions": self.assumptions.into_inner().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": if st.viol.is_some() { 1 } else { 0 },
        });
        std::fs::write(
            format!("evidence/{id}.json"),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("write evidence");

        for (k, v) in st.known.iter() {
            println!("KNOWN-FINDING: property={id} key={k} {} ({} occurrences)", v.0, v.1);
        }
        if st.viol.is_none() && (st.samples.is_empty() || st.states == 0) {
            eprintln!("error: vacuous exploration");
            return 3;
        }
        println!(
            "{id}: states={} transitions={} traces={} outcomes={} wall={:.1}s",
            st.states,
            st.transitions,
            st.traces,
            st.outcomes.len(),
            self.start.elapsed().as_secs_f64()
        );
        if let Some(v) = st.viol {
            let dir = std::env::current_dir().unwrap().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{id}.json"));
            let doc = json!({
                "property": id,
                "space": self.viol_space.into_inner().unwrap(),
                "item": v.order,
                "what": v.msg,
                "case": v.replay,
            });
            let _ = std::fs::write(
                &path,
                serde_json::to_string_pretty(&doc).unwrap(),
            );
            println!("{}", v.msg);
            println!("VIOLATION property={id} replay={}", path.display());
            return 1;
        }
        0
    }
}

pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(400) {
        if (0x20..0x7f).contains(&c) && c != b'\\' {
            s.push(c as char)
        } else {
            s.push_str(&format!("\\x{c:02x}"))
        }
    }
    if b.len() > 400 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

/// Mixed radix decoding of an item index.
pub struct Radix(pub u64);
impl Radix {
    pub fn take(&mut self, n: usize) -> usize {
        let r = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        r
    }
    pub fn of<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.take(s.len())]
    }
    pub fn bool(&mut self) -> bool {
        self.take(2) == 1
    }
}

/// All sequences over `0..k` with a length in `lo..=hi`.
pub fn seqs(k: usize, lo: usize, hi: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for n in 0..=hi {
        if n >= lo {
            out.extend(layer.iter().cloned());
        }
        if n < hi {
            let mut nl = Vec::with_capacity(layer.len() * k);
            for s in &layer {
                for c in 0..k {
                    let mut t = s.clone();
                    t.push(c);
                    nl.push(t);
                }
            }
            layer = nl;
        }
    }
    out
}
