//! Runs the real pica binary in isolated scratch directories.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

use crate::c02::Scratch;
use crate::cx::esc;
use crate::rec::{self, MF, MR};

unsafe extern "C" {
    fn prlimit(pid: i32, res: i32, new: *const [u64; 2], old: *mut [u64; 2]) -> i32;
    fn setrlimit(res: i32, new: *const [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_FSIZE: i32 = 1;
const RLIMIT_AS: i32 = 9;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Out {
    /// exit status, or the negative signal number
    pub code: i32,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    /// files in the working directory afterwards
    pub files: BTreeMap<String, Vec<u8>>,
    /// the fault of the job happened
    pub hit: bool,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == 0
    }
    /// The process ended by itself with an exit status of its own.
    pub fn clean(&self) -> bool {
        self.code >= 0
            && self.code != 101
            && !String::from_utf8_lossy(&self.err).contains("panicked at")
    }
    pub fn show(&self) -> String {
        format!(
            "status {}, stdout '{}', stderr '{}', files {:?}",
            self.code,
            esc(&self.out),
            esc(&self.err),
            self.files
                .iter()
                .map(|(k, v)| format!("{k}: {}", esc(v)))
                .collect::<Vec<_>>()
        )
    }
}

/// Where the standard output goes.
pub enum To {
    Pipe,
    /// a file opened for writing, e.g. /dev/full
    File(PathBuf),
    /// a pipe whose reading end is closed
    Closed,
}

pub struct Cli {
    pub dir: Scratch,
    bin: PathBuf,
    next: AtomicU64,
    pub runs: AtomicU64,
}

thread_local! {
    static WD: RefCell<Option<(PathBuf, PathBuf)>> = const { RefCell::new(None) };
}

pub struct Job<'a> {
    pub args: Vec<String>,
    pub stdin: Option<&'a [u8]>,
    /// the configuration file's content
    pub config: Option<&'a [u8]>,
    /// files in the working directory (created before the run)
    pub files: Vec<(&'a str, &'a [u8])>,
    pub to: To,
    pub fsize: Option<u64>,
    /// keep the working directory of the previous run
    pub keep: bool,
    pub cpu: u64,
    /// a fault of the operating system (see shim/shim.c)
    pub fault: Option<String>,
    /// what the random bytes of the run are derived from
    pub seed: Option<u64>,
    /// environment variables; an empty value removes one
    pub env: Vec<(&'a str, &'a str)>,
}

pub fn job<'a, S: AsRef<str>>(args: &[S]) -> Job<'a> {
    Job {
        args: args.iter().map(|s| s.as_ref().to_string()).collect(),
        stdin: None,
        config: None,
        files: vec![],
        to: To::Pipe,
        fsize: None,
        keep: false,
        cpu: 20,
        fault: None,
        seed: None,
        env: vec![],
    }
}

impl<'a> Job<'a> {
    pub fn stdin(mut self, b: &'a [u8]) -> Self {
        self.stdin = Some(b);
        self
    }
    pub fn config(mut self, b: &'a [u8]) -> Self {
        self.config = Some(b);
        self
    }
    pub fn file(mut self, name: &'a str, b: &'a [u8]) -> Self {
        self.files.push((name, b));
        self
    }
    pub fn to(mut self, to: To) -> Self {
        self.to = to;
        self
    }
    pub fn fsize(mut self, n: u64) -> Self {
        self.fsize = Some(n);
        self
    }
    pub fn fault(mut self, f: String) -> Self {
        self.fault = Some(f);
        self
    }
    pub fn seed(mut self, n: u64) -> Self {
        self.seed = Some(n);
        self
    }
    pub fn env(mut self, k: &'a str, v: &'a str) -> Self {
        self.env.push((k, v));
        self
    }
    pub fn keep(mut self) -> Self {
        self.keep = true;
        self
    }
    pub fn line(&self) -> String {
        let mut s = String::from("pica");
        for a in &self.args {
            s.push(' ');
            if !a.is_empty()
                && a.bytes().all(|c| {
                    c.is_ascii_alphanumeric() || b"-_./@=,{}".contains(&c)
                })
            {
                s.push_str(a)
            } else {
                s.push_str(&format!("{a:?}"))
            }
        }
        s
    }
    pub fn replay(&self) -> serde_json::Value {
        serde_json::json!({
            "command": self.line(),
            "stdin": self.stdin.map(esc),
            "config": self.config.map(esc),
            "fault": self.fault,
            "seed": self.seed,
            "env": self.env,
            "files": self.files.iter().map(|(n, b)| serde_json::json!([n, esc(b)])).collect::<Vec<_>>(),
        })
    }
}

fn clear(dir: &Path) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() && !p.is_symlink() {
                let _ = std::fs::remove_dir_all(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
}

pub fn collect(dir: &Path, prefix: &str, m: &mut BTreeMap<String, Vec<u8>>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            let name = format!(
                "{prefix}{}",
                e.file_name().to_string_lossy()
            );
            if p.is_dir() {
                collect(&p, &format!("{name}/"), m);
            } else {
                m.insert(name, std::fs::read(&p).unwrap_or_default());
            }
        }
    }
}

impl Cli {
    pub fn new(name: &str) -> Self {
        let bin = PathBuf::from(
            std::env::var_os("PICA_BIN").expect("PICA_BIN"),
        );
        assert!(bin.is_file(), "{} is missing", bin.display());
        let dir = Scratch::new(name);
        std::fs::create_dir_all(dir.0.join("home/.config/pica")).unwrap();
        Self { dir, bin, next: AtomicU64::new(0), runs: AtomicU64::new(0) }
    }

    /// The working and home directory of this thread.
    pub fn wd(&self) -> (PathBuf, PathBuf) {
        WD.with_borrow_mut(|w| {
            if let Some(p) = w {
                if p.0.starts_with(&self.dir.0) {
                    return p.clone();
                }
            }
            let n = self.next.fetch_add(1, Ordering::Relaxed);
            let p = (
                self.dir.0.join(format!("w{n}")),
                self.dir.0.join(format!("h{n}")),
            );
            std::fs::create_dir_all(&p.0).unwrap();
            std::fs::create_dir_all(p.1.join(".config/pica")).unwrap();
            *w = Some(p.clone());
            p
        })
    }

    pub fn run(&self, job: &Job) -> Out {
        self.runs.fetch_add(1, Ordering::Relaxed);
        let (wd, home) = self.wd();
        if !job.keep {
            clear(&wd);
        }
        let cf = home.join(".config/pica/config.toml");
        if let Some(c) = job.config {
            std::fs::write(&cf, c).unwrap();
        }
        for (n, b) in &job.files {
            let p = wd.join(n);
            if let Some(d) = p.parent() {
                std::fs::create_dir_all(d).unwrap();
            }
            std::fs::write(p, b).unwrap();
        }
        let mut c = Command::new(&self.bin);
        c.args(&job.args)
            .current_dir(&wd)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", &home)
            .env("TZ", "UTC")
            .env("LC_ALL", "C.UTF-8")
            .env("RAYON_NUM_THREADS", "1")
            .env("POLARS_MAX_THREADS", "1")
            .stderr(Stdio::piped());
        match job.stdin {
            None => {
                c.stdin(Stdio::null());
            }
            Some(b) => {
                let p = home.join("stdin");
                std::fs::write(&p, b).unwrap();
                c.stdin(std::fs::File::open(&p).unwrap());
            }
        }
        match job.to {
            To::Pipe => {
                c.stdout(Stdio::piped());
            }
            To::File(ref p) => {
                c.stdout(
                    std::fs::OpenOptions::new()
                        .write(true)
                        .open(p)
                        .expect("open stdout"),
                );
            }
            To::Closed => {
                let (r, w) = std::io::pipe().unwrap();
                drop(r);
                c.stdout(w);
            }
        }
        let mark = home.join("mark");
        if let Some(f) = &job.fault {
            let _ = std::fs::remove_file(&mark);
            c.env("LD_PRELOAD", std::env::var_os("MC_SHIM").expect("MC_SHIM"))
                .env("MC_FAULT", f)
                .env("MC_MARK", &mark);
        }
        if let Some(n) = job.seed {
            let _ = std::fs::remove_file(&mark);
            c.env("LD_PRELOAD", std::env::var_os("MC_SHIM").expect("MC_SHIM"))
                .env("MC_SEED", n.to_string())
                .env("MC_MARK", &mark);
        }
        for (k, v) in &job.env {
            if v.is_empty() {
                c.env_remove(k);
            } else {
                c.env(k, v);
            }
        }
        if let Some(n) = job.fsize {
            unsafe {
                c.pre_exec(move || {
                    signal(25, 1); // SIGXFSZ: ignore
                    let l = [n, n];
                    if setrlimit(RLIMIT_FSIZE, &l) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                    Ok(())
                });
            }
        }
        let mut child = c.spawn().expect("spawn pica");
        let cpu = [job.cpu, job.cpu + 1];
        let mem = [6u64 << 30, 6u64 << 30];
        unsafe {
            prlimit(child.id() as i32, RLIMIT_CPU, &cpu, std::ptr::null_mut());
            prlimit(child.id() as i32, RLIMIT_AS, &mem, std::ptr::null_mut());
        }
        drop(child.stdin.take());
        let o = child.wait_with_output().expect("wait");
        let mut files = BTreeMap::new();
        collect(&wd, "", &mut files);
        for (n, b) in &job.files {
            if files.get(*n).is_some_and(|x| x == b) {
                files.remove(*n);
            }
        }
        if job.config.is_some() {
            let _ = std::fs::remove_file(&cf);
        }
        Out {
            code: o
                .status
                .code()
                .unwrap_or_else(|| -o.status.signal().unwrap_or(99)),
            out: o.stdout,
            err: o.stderr,
            files,
            hit: (job.fault.is_some() || job.seed.is_some()) && mark.exists(),
        }
    }
}

/// One line of an input: its bytes and the record, if it is one.
#[derive(Clone, Debug)]
pub struct Line {
    pub name: &'static str,
    pub bytes: Vec<u8>,
    pub rec: Option<MR>,
}

pub fn line(name: &'static str, fields: &[MF]) -> Line {
    let r = fields.to_vec();
    Line { name, bytes: rec::ser(&r), rec: Some(r) }
}

pub fn bad(name: &'static str, bytes: &[u8]) -> Line {
    assert!(!rec::accepts(bytes), "{name}");
    Line { name, bytes: bytes.to_vec(), rec: None }
}

pub fn raw(tag: &str, code: char, v: &[u8]) -> MF {
    let mut m = rec::f(tag, &[]);
    m.subs.push((code, v.to_vec()));
    m
}

/// The usual alphabet of lines: six records and three invalid lines.
pub fn lines() -> Vec<Line> {
    use rec::f;
    vec![
        line("p1", &[f("003@", &["01"]), f("012A", &["ax"])]),
        line(
            "p2",
            &[
                f("003@", &["02"]),
                f("012A", &["ay", "bz"]),
                f("012A/01", &["ax"]),
            ],
        ),
        line("none", &[f("012A", &["aX", "by"])]),
        line("p1b", &[f("003@", &["01"]), f("013H", &["a"])]),
        line(
            "raw",
            &[f("003@", &["03"]), raw("012A", 'a', b"\xc3\xa4\xff")],
        ),
        line("uml", &[f("003@", &["04"]), f("012A/02", &["a\u{e4}", "c"])]),
        bad("empty", b"\n"),
        bad("tag", b"012a \x1fax\x1e\n"),
        bad("rs", b"003@ \x1f05\n"),
    ]
}

/// A cyclic sequence over `0..k` that contains every word of length
/// `n` (linearised).
pub fn debruijn(k: usize, n: usize) -> Vec<usize> {
    fn db(
        t: usize,
        p: usize,
        k: usize,
        n: usize,
        a: &mut Vec<usize>,
        s: &mut Vec<usize>,
    ) {
        if t > n {
            if n % p == 0 {
                s.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, k, n, a, s);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, k, n, a, s);
            }
        }
    }
    let mut a = vec![0; k * n + 1];
    let mut s = vec![];
    db(1, 1, k, n, &mut a, &mut s);
    for i in 0..n - 1 {
        s.push(s[i]);
    }
    s
}

pub fn cat<'a>(it: impl IntoIterator<Item = &'a Line>) -> Vec<u8> {
    let mut o = vec![];
    for l in it {
        o.extend_from_slice(&l.bytes);
    }
    o
}

/// The values of subfield `code` of the fields `tag` without
/// occurrence.
pub fn vals<'a>(r: &'a MR, tag: &str, code: char) -> Vec<&'a [u8]> {
    r.iter()
        .filter(|f| {
            f.tag == tag && f.occ.as_deref().is_none_or(|o| o == "00")
        })
        .flat_map(|f| {
            f.subs
                .iter()
                .filter(move |s| s.0 == code)
                .map(|s| &s.1[..])
        })
        .collect()
}

pub fn ppn(r: &MR) -> Option<&[u8]> {
    vals(r, "003@", '0').first().copied()
}
