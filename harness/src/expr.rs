//! Reference semantics of subfield criteria and Boolean expressions.
use crate::rec::MF;

pub type Sub = (char, Vec<u8>);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Q {
    Default,
    Any,
    All,
}
impl Q {
    pub fn txt(self) -> &'static str {
        match self {
            Q::Default => "",
            Q::Any => "ANY ",
            Q::All => "ALL ",
        }
    }
    pub fn fold(self, mut it: impl Iterator<Item = bool>) -> bool {
        match self {
            Q::All => it.all(|x| x),
            _ => it.any(|x| x),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    pub ci: bool,
    pub th: f64,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { ci: false, th: 0.8 }
    }
}
impl Opts {
    pub fn real(&self) -> pica_record::prelude::MatcherOptions {
        pica_record::prelude::MatcherOptions::new()
            .case_ignore(self.ci)
            .strsim_threshold(self.th)
    }
}

pub fn codes(spec: &str, c: char) -> bool {
    match spec {
        "*" => true,
        s if s.starts_with('[') => {
            let v: Vec<char> = s[1..s.len() - 1].chars().collect();
            let mut i = 0;
            while i < v.len() {
                if i + 2 < v.len() && v[i + 1] == '-' {
                    if v[i] <= c && c <= v[i + 2] {
                        return true;
                    }
                    i += 3;
                } else {
                    if v[i] == c {
                        return true;
                    }
                    i += 1;
                }
            }
            false
        }
        s => s.contains(c),
    }
}

/// Lower case of a byte string, invalid bytes are kept.
pub fn lower(b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for ch in b.utf8_chunks() {
        for c in ch.valid().chars() {
            let s: String = c.to_lowercase().collect();
            out.extend_from_slice(s.as_bytes());
        }
        out.extend_from_slice(ch.invalid());
    }
    out
}

fn fold(b: &[u8], o: &Opts) -> Vec<u8> {
    if o.ci { lower(b) } else { b.to_vec() }
}

pub fn contains(h: &[u8], n: &[u8]) -> bool {
    n.is_empty() || h.windows(n.len()).any(|w| w == n)
}

pub fn levenshtein(a: &[char], b: &[char]) -> usize {
    let mut row: Vec<usize> = (0..=b.len()).collect();
    for i in 1..=a.len() {
        let mut prev = row[0];
        row[0] = i;
        for j in 1..=b.len() {
            let cur = row[j];
            row[j] = (prev + usize::from(a[i - 1] != b[j - 1]))
                .min(cur + 1)
                .min(row[j - 1] + 1);
            prev = cur;
        }
    }
    row[b.len()]
}

pub fn similar(a: &[u8], b: &[u8], o: &Opts) -> bool {
    let (mut a, mut b) = (
        String::from_utf8_lossy(a).to_string(),
        String::from_utf8_lossy(b).to_string(),
    );
    if o.ci {
        a = a.to_lowercase();
        b = b.to_lowercase();
    }
    let a: Vec<char> = a.chars().collect();
    let b: Vec<char> = b.chars().collect();
    let score = if a.is_empty() && b.is_empty() {
        1.0
    } else {
        1.0 - levenshtein(&a, &b) as f64 / a.len().max(b.len()) as f64
    };
    score > o.th
}

/// Regular expressions with a hand written meaning.
pub const REGEX: [&str; 9] =
    ["^a", "b$", "^$", "a.*b", "[xy]", "^(ab|ba)$", "a", "\u{e4}", "^(?:.)$"];
pub fn regex(k: usize, v: &[u8], ci: bool) -> bool {
    let l = |b: &[u8]| if ci { b.to_ascii_lowercase() } else { b.to_vec() };
    let w = l(v);
    match k {
        0 => w.starts_with(b"a"),
        1 => w.ends_with(b"b"),
        2 => w.is_empty(),
        3 => {
            // '.' does not match newlines nor invalid UTF-8
            (0..w.len()).any(|i| {
                w[i] == b'a'
                    && (i + 1..w.len()).any(|j| {
                        w[j] == b'b'
                            && !w[i + 1..j].contains(&b'\n')
                            && std::str::from_utf8(&w[i + 1..j]).is_ok()
                    })
            })
        }
        4 => w.iter().any(|c| matches!(c, b'x' | b'y')),
        5 => w == b"ab" || w == b"ba",
        6 => w.contains(&b'a'),
        7 => {
            contains(v, "\u{e4}".as_bytes())
                || (ci && contains(v, "\u{c4}".as_bytes()))
        }
        _ => std::str::from_utf8(v)
            .is_ok_and(|s| s.chars().count() == 1 && s != "\n"),
    }
}

#[derive(Clone, Debug)]
pub enum Crit {
    Exists(String),
    /// ==, !=, =^, !^, =$, !$, =*
    Rel(Q, String, &'static str, Vec<u8>),
    Contains(Q, String, Vec<Vec<u8>>),
    In(Q, String, Vec<Vec<u8>>, bool),
    Regex(Q, String, Vec<usize>, bool),
    Card(String, &'static str, usize),
}

pub fn cmp(op: &str, a: usize, b: usize) -> bool {
    match op {
        "==" => a == b,
        "!=" => a != b,
        ">=" => a >= b,
        ">" => a > b,
        "<=" => a <= b,
        "<" => a < b,
        _ => unreachable!(),
    }
}

impl Crit {
    pub fn eval(&self, subs: &[Sub], o: &Opts) -> bool {
        let sel = |c: &str| {
            subs.iter()
                .filter(|(k, _)| codes(c, *k))
                .map(|(_, v)| v.as_slice())
                .collect::<Vec<_>>()
        };
        match self {
            Crit::Exists(c) => !sel(c).is_empty(),
            Crit::Card(c, op, n) => cmp(op, sel(c).len(), *n),
            Crit::Rel(q, c, op, x) => q.fold(sel(c).iter().map(|v| {
                if *op == "=*" {
                    return similar(x, v, o);
                }
                let (v, x) = (fold(v, o), fold(x, o));
                match *op {
                    "==" => v == x,
                    "!=" => v != x,
                    "=^" => v.starts_with(&x),
                    "!^" => !v.starts_with(&x),
                    "=$" => v.ends_with(&x),
                    "!$" => !v.ends_with(&x),
                    _ => unreachable!(),
                }
            })),
            Crit::Contains(q, c, xs) => q.fold(sel(c).iter().map(|v| {
                xs.iter().any(|x| contains(&fold(v, o), &fold(x, o)))
            })),
            Crit::In(q, c, xs, inv) => q.fold(sel(c).iter().map(|v| {
                xs.iter().any(|x| fold(v, o) == fold(x, o)) != *inv
            })),
            Crit::Regex(q, c, ks, inv) => q.fold(sel(c).iter().map(|v| {
                ks.iter().any(|k| regex(*k, v, o.ci)) != *inv
            })),
        }
    }

    /// Text forms of the criterion.
    pub fn texts(&self) -> Vec<String> {
        let list = |xs: &[Vec<u8>]| {
            xs.iter().map(|x| quote(x)).collect::<Vec<_>>().join(", ")
        };
        match self {
            Crit::Exists(c) => vec![format!("{c}?")],
            Crit::Card(c, op, n) => vec![format!("#{c} {op} {n}"), format!("# {c}{op}{n}")],
            Crit::Rel(q, c, op, x) => {
                let mut v = vec![
                    format!("{}{c} {op} {}", q.txt(), quote(x)),
                    format!("{}{c}{op}{}", q.txt(), quote2(x)),
                ];
                if q == &Q::All {
                    v.push(format!("  ALL\n{c}\t{op}  {}", quote(x)));
                }
                v
            }
            Crit::Contains(q, c, xs) if xs.len() == 1 => vec![
                format!("{}{c} =? {}", q.txt(), quote(&xs[0])),
                format!("{}{c}=?[{}]", q.txt(), list(xs)),
            ],
            Crit::Contains(q, c, xs) => vec![
                format!("{}{c} =? [{}]", q.txt(), list(xs)),
                format!("{}{c} =? [ {} , ]", q.txt(), list(xs)),
            ],
            Crit::In(q, c, xs, inv) => {
                let n = if *inv { "not in" } else { "in" };
                let mut v = vec![
                    format!("{}{c} {n} [{}]", q.txt(), list(xs)),
                    format!("{}{c} {n}[{},]", q.txt(), list(xs)),
                ];
                // the notation by characters
                let chars = xs.iter().all(|x| {
                    std::str::from_utf8(x)
                        .is_ok_and(|s| s.chars().count() == 1)
                });
                if chars && xs.len() > 1 {
                    v.push(format!("{}{c} {n} {}", q.txt(), quote(&xs.concat())));
                }
                v
            }
            Crit::Regex(q, c, ks, inv) => {
                let op = if *inv { "!~" } else { "=~" };
                let l = ks
                    .iter()
                    .map(|k| format!("'{}'", REGEX[*k]))
                    .collect::<Vec<_>>()
                    .join(", ");
                let mut v = vec![format!("{}{c} {op} [{l}]", q.txt())];
                if ks.len() == 1 {
                    v.push(format!("{}{c} {op} {l}", q.txt()));
                    v.push(format!("{}{c}{op}\"{}\"", q.txt(), REGEX[ks[0]]));
                }
                v
            }
        }
    }
    pub fn is_regex(&self) -> bool {
        matches!(self, Crit::Regex(..))
    }
}

pub fn quote(x: &[u8]) -> String {
    let s = std::str::from_utf8(x).unwrap();
    format!("'{}'", s.replace('\\', "\\\\").replace('\'', "\\'"))
}
pub fn quote2(x: &[u8]) -> String {
    let s = std::str::from_utf8(x).unwrap();
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}

pub const QS: [Q; 3] = [Q::Default, Q::Any, Q::All];
pub const RELS: [&str; 7] = ["==", "!=", "=^", "!^", "=$", "!$", "=*"];
pub const CARDS: [&str; 6] = ["==", "!=", ">=", ">", "<=", "<"];

/// All criteria over the given code sets and values.
pub fn crits(cs: &[&str], vals: &[&str], qs: &[Q]) -> Vec<Crit> {
    let mut out = vec![];
    let b = |s: &str| s.as_bytes().to_vec();
    for c in cs {
        let c = c.to_string();
        out.push(Crit::Exists(c.clone()));
        for op in CARDS {
            for n in 0..4 {
                out.push(Crit::Card(c.clone(), op, n));
            }
        }
        for q in qs {
            for op in RELS {
                for v in vals {
                    out.push(Crit::Rel(*q, c.clone(), op, b(v)));
                }
            }
            for (i, v) in vals.iter().enumerate() {
                let w = b(vals[(i + 1) % vals.len()]);
                let x = b(vals[(i + 3) % vals.len()]);
                out.push(Crit::Contains(*q, c.clone(), vec![b(v)]));
                out.push(Crit::Contains(*q, c.clone(), vec![b(v), w.clone()]));
                for inv in [false, true] {
                    out.push(Crit::In(*q, c.clone(), vec![b(v)], inv));
                    out.push(Crit::In(*q, c.clone(), vec![b(v), w.clone()], inv));
                    out.push(Crit::In(*q, c.clone(), vec![x.clone(), b(v), w.clone()], inv));
                }
            }
            for inv in [false, true] {
                for k in 0..REGEX.len() {
                    out.push(Crit::Regex(*q, c.clone(), vec![k], inv));
                }
                out.push(Crit::Regex(*q, c.clone(), vec![0, 1], inv));
                out.push(Crit::Regex(*q, c.clone(), vec![5, 2, 4], inv));
            }
        }
    }
    out
}

pub fn subs_bytes(subs: &[Sub]) -> Vec<Vec<u8>> {
    subs.iter()
        .map(|(c, v)| {
            let mut b = vec![0x1f, *c as u8];
            b.extend_from_slice(v);
            b
        })
        .collect()
}

// ------------------------------------------------- Boolean expressions

#[derive(Clone, Debug, PartialEq)]
pub enum B {
    Atom(usize),
    Not(Box<B>),
    And(Box<B>, Box<B>),
    Xor(Box<B>, Box<B>),
    Or(Box<B>, Box<B>),
}

impl B {
    pub fn eval(&self, f: &dyn Fn(usize) -> bool) -> bool {
        match self {
            B::Atom(k) => f(*k),
            B::Not(a) => !a.eval(f),
            B::And(a, b) => a.eval(f) & b.eval(f),
            B::Xor(a, b) => a.eval(f) ^ b.eval(f),
            B::Or(a, b) => a.eval(f) | b.eval(f),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tok {
    Atom(usize),
    Not,
    Open,
    Close,
    And,
    Xor,
    Or,
}

/// Recursive descent over tokens. `negatable(k)` tells whether the atom
/// may directly follow a negation.
pub fn parse_bool(t: &[Tok], negatable: &dyn Fn(usize) -> bool) -> Option<B> {
    let mut p = 0;
    let e = or(t, &mut p, negatable)?;
    (p == t.len()).then_some(e)
}

fn or(t: &[Tok], p: &mut usize, n: &dyn Fn(usize) -> bool) -> Option<B> {
    let mut l = xor(t, p, n)?;
    while t.get(*p) == Some(&Tok::Or) {
        *p += 1;
        l = B::Or(Box::new(l), Box::new(xor(t, p, n)?));
    }
    Some(l)
}
fn xor(t: &[Tok], p: &mut usize, n: &dyn Fn(usize) -> bool) -> Option<B> {
    let mut l = and(t, p, n)?;
    while t.get(*p) == Some(&Tok::Xor) {
        *p += 1;
        l = B::Xor(Box::new(l), Box::new(and(t, p, n)?));
    }
    Some(l)
}
fn and(t: &[Tok], p: &mut usize, n: &dyn Fn(usize) -> bool) -> Option<B> {
    let mut l = atom(t, p, n, false)?;
    while t.get(*p) == Some(&Tok::And) {
        *p += 1;
        l = B::And(Box::new(l), Box::new(atom(t, p, n, false)?));
    }
    Some(l)
}
fn atom(
    t: &[Tok],
    p: &mut usize,
    n: &dyn Fn(usize) -> bool,
    negated: bool,
) -> Option<B> {
    let k = t.get(*p)?;
    *p += 1;
    match k {
        Tok::Atom(a) if !negated || n(*a) => Some(B::Atom(*a)),
        Tok::Not => Some(B::Not(Box::new(atom(t, p, n, true)?))),
        Tok::Open => {
            let e = or(t, p, n)?;
            if t.get(*p) != Some(&Tok::Close) {
                return None;
            }
            *p += 1;
            Some(e)
        }
        _ => None,
    }
}

pub fn tok_txt(t: &[Tok], atoms: &dyn Fn(usize) -> String, xor: &str, sep: &str) -> String {
    let mut s = String::new();
    for (i, k) in t.iter().enumerate() {
        if i > 0 {
            s.push_str(sep);
        }
        match k {
            Tok::Atom(a) => s.push_str(&atoms(*a)),
            Tok::Not => s.push('!'),
            Tok::Open => s.push('('),
            Tok::Close => s.push(')'),
            Tok::And => s.push_str("&&"),
            Tok::Xor => s.push_str(xor),
            Tok::Or => s.push_str("||"),
        }
    }
    s
}

/// Token sequences: atoms are numbered by position.
pub fn tokens(seq: &[usize]) -> Vec<Tok> {
    let mut n = 0;
    seq.iter()
        .map(|k| match k {
            0 => {
                n += 1;
                Tok::Atom(n - 1)
            }
            1 => Tok::Not,
            2 => Tok::Open,
            3 => Tok::Close,
            4 => Tok::And,
            5 => Tok::Xor,
            _ => Tok::Or,
        })
        .collect()
}

// ----------------------------------------------------- field criteria

pub fn field_sel<'a>(
    r: &'a [MF],
    tag: &str,
    occ: &str,
) -> Vec<&'a MF> {
    let o = occ.strip_prefix('/');
    r.iter()
        .filter(|f| {
            crate::c02::tag_match(tag, &f.tag)
                && crate::c02::occ_match(o, f.occ.as_deref())
        })
        .collect()
}
