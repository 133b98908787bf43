//! Reference model of PICA+ records.

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct MF {
    pub tag: String,
    pub occ: Option<String>,
    pub subs: Vec<(char, Vec<u8>)>,
}

pub type MR = Vec<MF>;

impl MF {
    pub fn ser(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(self.tag.as_bytes());
        if let Some(ref o) = self.occ {
            out.push(b'/');
            out.extend_from_slice(o.as_bytes());
        }
        out.push(b' ');
        for (c, v) in &self.subs {
            out.push(0x1f);
            out.push(*c as u8);
            out.extend_from_slice(v);
        }
        out.push(0x1e);
    }
    pub fn utf8(&self) -> bool {
        self.subs.iter().all(|(_, v)| std::str::from_utf8(v).is_ok())
    }
}

pub fn ser(r: &MR) -> Vec<u8> {
    let mut o = vec![];
    for f in r {
        f.ser(&mut o);
    }
    o.push(b'\n');
    o
}

pub fn utf8(r: &MR) -> bool {
    r.iter().all(|f| f.utf8())
}

/// "003@", "012A/01"; subs: "aX" = code a, value X
pub fn f(tag: &str, subs: &[&str]) -> MF {
    let (tag, occ) = match tag.split_once('/') {
        Some((t, o)) => (t.to_string(), Some(o.to_string())),
        None => (tag.to_string(), None),
    };
    MF {
        tag,
        occ,
        subs: subs
            .iter()
            .map(|s| {
                (
                    s.chars().next().unwrap(),
                    s.as_bytes()[1..].to_vec(),
                )
            })
            .collect(),
    }
}

/// Number of states of the record automaton (including the sink).
pub const DFA_STATES: usize = 15;
pub const SINK: usize = 14;

/// The record automaton: one transition.
///
/// 0 start, 1-3 tag, 4 after tag, 5 '/', 6 one digit, 7 two digits,
/// 8 three digits, 9 in field (after space), 10 after US, 11 in value,
/// 12 after RS, 13 accept, 14 sink.
pub fn dfa(s: usize, b: u8) -> usize {
    let d = b.is_ascii_digit();
    match s {
        0 | 12 if (b'0'..=b'2').contains(&b) => 1,
        12 if b == b'\n' => 13,
        1 if d => 2,
        2 if d => 3,
        3 if b.is_ascii_uppercase() || b == b'@' => 4,
        4 if b == b' ' => 9,
        4 if b == b'/' => 5,
        5 if d => 6,
        6 if d => 7,
        7 if d => 8,
        7 | 8 if b == b' ' => 9,
        9 if b == 0x1f => 10,
        9 if b == 0x1e => 12,
        10 if b.is_ascii_alphanumeric() => 11,
        11 if b == 0x1f => 10,
        11 if b == 0x1e => 12,
        11 => 11,
        _ => SINK,
    }
}

pub fn accepts(bytes: &[u8]) -> bool {
    let mut s = 0;
    for &b in bytes {
        s = dfa(s, b);
    }
    s == 13
}

/// Parses a byte string with the automaton.
pub fn parse(bytes: &[u8]) -> Option<MR> {
    let mut s = 0;
    let mut r: MR = vec![];
    let mut start = 0;
    let mut cur = MF { tag: String::new(), occ: None, subs: vec![] };
    for (i, &b) in bytes.iter().enumerate() {
        let n = dfa(s, b);
        match (s, n) {
            (_, SINK) => return None,
            (0 | 12, 1) => {
                cur = MF {
                    tag: String::new(),
                    occ: None,
                    subs: vec![],
                };
                start = i;
            }
            (3, 4) => {
                cur.tag =
                    String::from_utf8(bytes[start..=i].to_vec()).unwrap()
            }
            (4, 5) => start = i + 1,
            (7 | 8, 9) => {
                cur.occ = Some(
                    String::from_utf8(bytes[start..i].to_vec()).unwrap(),
                )
            }
            (10, 11) => cur.subs.push((b as char, vec![])),
            (11, 11) => cur.subs.last_mut().unwrap().1.push(b),
            (9 | 11, 12) => r.push(cur.clone()),
            _ => {}
        }
        s = n;
    }
    (s == 13).then_some(r)
}

/// Compares the contents of a parsed record with the model.
pub fn same(
    real: &pica_record::primitives::RecordRef<'_>,
    model: &MR,
) -> Result<(), String> {
    if real.fields().len() != model.len() {
        return Err(format!(
            "number of fields: {} != {}",
            real.fields().len(),
            model.len()
        ));
    }
    for (n, (rf, mf)) in
        real.fields().iter().zip(model.iter()).enumerate()
    {
        if rf.tag().to_string() != mf.tag || *rf.tag() != mf.tag.as_str() {
            return Err(format!("tag of field {n}: {}", rf.tag()));
        }
        let occ = rf.occurrence().map(|o| o.as_bytes().to_vec());
        if occ.as_deref() != mf.occ.as_ref().map(|s| s.as_bytes()) {
            return Err(format!("occurrence of field {n}: {occ:?}"));
        }
        if rf.subfields().len() != mf.subs.len() {
            return Err(format!(
                "number of subfields of field {n}: {}",
                rf.subfields().len()
            ));
        }
        for (k, (rs, (c, v))) in
            rf.subfields().iter().zip(mf.subs.iter()).enumerate()
        {
            if rs.code().as_byte() != *c as u8
                || rs.value().as_bytes() != &v[..]
            {
                return Err(format!(
                    "subfield {k} of field {n}: {}={}",
                    rs.code(),
                    crate::cx::esc(rs.value().as_bytes())
                ));
            }
        }
    }
    Ok(())
}
