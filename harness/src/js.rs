//! Writing JSON without dependencies.

/// A number as the specification represents it: base 10^4 digits, most significant first.
pub fn wide(n: u128) -> String {
    let mut d = vec![];
    let mut n = n;
    loop {
        d.push((n % 10_000).to_string());
        n /= 10_000;
        if n == 0 {
            break;
        }
    }
    d.reverse();
    format!("[{}]", d.join(","))
}

pub fn w(n: impl Into<u64>) -> String {
    wide(u128::from(n.into()))
}

pub fn s(t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => o.push('?'),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn b(v: bool) -> &'static str {
    if v {
        "true"
    } else {
        "false"
    }
}

pub fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}

/// `None` is the empty sequence, `Some(x)` the sequence of x
pub fn opt(o: Option<String>) -> String {
    match o {
        Some(x) => format!("[{x}]"),
        None => "[]".into(),
    }
}

#[derive(Default, Clone)]
pub struct Obj(String);

impl Obj {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn f(mut self, k: &str, v: impl AsRef<str>) -> Self {
        self.put(k, v);
        self
    }
    pub fn put(&mut self, k: &str, v: impl AsRef<str>) {
        if !self.0.is_empty() {
            self.0.push(',');
        }
        self.0.push('"');
        self.0.push_str(k);
        self.0.push_str("\":");
        self.0.push_str(v.as_ref());
    }
    pub fn done(&self) -> String {
        format!("{{{}}}", self.0)
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    b.iter()
        .fold(h, |h, x| (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3))
}
pub const FNV0: u64 = 0xcbf2_9ce4_8422_2325;
