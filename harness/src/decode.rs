//! An independent reader of GPT metadata, written from the UEFI specification. It shares
//! no code with the crate under test.

use crate::js::{self, b, s, w, Obj};

pub trait Src {
    fn at(&self, off: u64, len: usize) -> Option<Vec<u8>>;
    fn size(&self) -> u64;
}
impl Src for crate::dev::Inner {
    fn at(&self, off: u64, len: usize) -> Option<Vec<u8>> {
        self.peek(off, len)
    }
    fn size(&self) -> u64 {
        self.size
    }
}
impl Src for Vec<u8> {
    fn at(&self, off: u64, len: usize) -> Option<Vec<u8>> {
        let o = usize::try_from(off).ok()?;
        self.get(o..o.checked_add(len)?).map(|x| x.to_vec())
    }
    fn size(&self) -> u64 {
        self.len() as u64
    }
}

/// CRC-32 as UEFI uses it, polynomial 0xEDB88320
const CRC: [u32; 256] = {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut c = i as u32;
        let mut k = 0;
        while k < 8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
};
pub fn crc32(data: &[u8]) -> u32 {
    !data
        .iter()
        .fold(!0u32, |c, x| (c >> 8) ^ CRC[((c ^ u32::from(*x)) & 0xff) as usize])
}

pub fn le(x: &[u8]) -> u64 {
    x.iter().rev().fold(0, |a, b| a << 8 | u64::from(*b))
}

/// GUIDs are stored with their first three fields in little endian
pub fn guid(x: &[u8]) -> String {
    let o = [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15];
    o.iter().map(|i| format!("{:02x}", x[*i])).collect()
}
pub fn guid_bytes(hex: &str) -> Vec<u8> {
    let x = js::unhex(hex);
    let o = [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15];
    o.iter().map(|i| x[*i]).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub id: u64,
    pub t: String,
    pub os: String,
    pub u: String,
    pub f: u64,
    pub l: u64,
    pub a: u64,
    pub n: Vec<u16>,
}

impl Ent {
    pub fn js(&self) -> String {
        Obj::new()
            .f("id", w(self.id))
            .f("t", s(&self.t))
            .f("os", s(&self.os))
            .f("u", s(&self.u))
            .f("f", w(self.f))
            .f("l", w(self.l))
            .f("a", s(&format!("{:016x}", self.a)))
            .f("n", js::arr(self.n.iter().map(|x| x.to_string())))
            .done()
    }
    pub fn used(&self) -> bool {
        self.t != "0".repeat(32)
    }
    /// what reading this entry back gives
    pub fn canon(&self) -> String {
        let mut n: Vec<u16> = self.n.iter().copied().take(36).collect();
        if let Some(z) = n.iter().position(|x| *x == 0) {
            n.truncate(z);
        }
        format!(
            "{}/{}/{}/{}/{}/{:x}/{}",
            self.id,
            self.t,
            self.u,
            self.f,
            self.l,
            self.a,
            String::from_utf16_lossy(&n)
        )
    }
}

/// digest of a table: disk guid and the entries in use
pub fn table_digest(g: &str, ents: &[Ent]) -> String {
    let mut h = js::fnv(js::FNV0, g.as_bytes());
    for e in ents.iter().filter(|e| e.used()) {
        h = js::fnv(h, e.canon().as_bytes());
        h = js::fnv(h, b"|");
    }
    format!("{h:016x}")
}

pub fn entry(x: &[u8], id: u64) -> Ent {
    let mut n: Vec<u16> = x[56..128].chunks(2).map(|c| le(c) as u16).collect();
    while n.last() == Some(&0) {
        n.pop();
    }
    Ent {
        id,
        t: guid(&x[0..16]),
        os: String::new(),
        u: guid(&x[16..32]),
        f: le(&x[32..40]),
        l: le(&x[40..48]),
        a: le(&x[48..56]),
        n,
    }
}

/// the bytes of an entry, for preparing devices
pub fn entry_bytes(e: &Ent) -> Vec<u8> {
    let mut o = guid_bytes(&e.t);
    o.extend(guid_bytes(&e.u));
    o.extend(e.f.to_le_bytes());
    o.extend(e.l.to_le_bytes());
    o.extend(e.a.to_le_bytes());
    for x in e.n.iter().take(36) {
        o.extend(x.to_le_bytes());
    }
    o.resize(128, 0);
    o
}

#[derive(Clone)]
pub struct View {
    pub ex: bool,
    pub sig: bool,
    pub rev: (u16, u16),
    pub hs: u64,
    pub res: u64,
    pub cur: u64,
    pub bak: u64,
    pub fu: u64,
    pub lu: u64,
    pub g: String,
    pub ps: u64,
    pub np: u64,
    pub es: u64,
    pub pcrc: u32,
    pub crc: bool,
    pub rz: bool,
    pub rd: bool,
    pub ac: bool,
    pub ents: Vec<Ent>,
}

/// look at the header at a block and at the array it describes
pub fn view(d: &dyn Src, lba: u64, lbs: u64) -> View {
    let mut v = View {
        ex: false,
        sig: false,
        rev: (0, 0),
        hs: 0,
        res: 0,
        cur: 0,
        bak: 0,
        fu: 0,
        lu: 0,
        g: String::new(),
        ps: 0,
        np: 0,
        es: 0,
        pcrc: 0,
        crc: false,
        rz: false,
        rd: false,
        ac: false,
        ents: vec![],
    };
    let Some(off) = lba.checked_mul(lbs) else {
        return v;
    };
    let Some(x) = d.at(off, lbs as usize) else {
        return v;
    };
    v.ex = true;
    v.sig = &x[0..8] == b"EFI PART";
    v.rev = (le(&x[10..12]) as u16, le(&x[8..10]) as u16);
    v.hs = le(&x[12..16]);
    v.res = le(&x[20..24]);
    v.cur = le(&x[24..32]);
    v.bak = le(&x[32..40]);
    v.fu = le(&x[40..48]);
    v.lu = le(&x[48..56]);
    v.g = guid(&x[56..72]);
    v.ps = le(&x[72..80]);
    v.np = le(&x[80..84]);
    v.es = le(&x[84..88]);
    v.pcrc = le(&x[88..92]) as u32;
    let mut h = x[0..92].to_vec();
    h[16..20].fill(0);
    v.crc = u64::from(crc32(&h)) == le(&x[16..20]);
    v.rz = x[92..].iter().all(|b| *b == 0);
    // nothing more to see behind a broken header, or in an array of another format
    if !v.sig || !v.crc || v.es != 128 || v.np > 1 << 19 {
        return v;
    }
    if v.np == 0 {
        // nothing to read, wherever it should be
        v.rd = true;
        v.ac = v.pcrc == 0;
        return v;
    }
    let Some(a) =
        v.ps.checked_mul(lbs)
            .and_then(|o| d.at(o, (v.np * v.es) as usize))
    else {
        return v;
    };
    v.rd = true;
    v.ac = crc32(&a) == v.pcrc;
    for (i, e) in a.chunks(128).enumerate() {
        if e.iter().any(|b| *b != 0) {
            v.ents.push(entry(e, i as u64 + 1));
        }
    }
    v
}

impl View {
    pub fn hdr_ok(&self) -> bool {
        self.ex && self.sig && self.crc
    }
    pub fn intact(&self) -> bool {
        self.hdr_ok() && self.rd && self.ac
    }
    pub fn js(&self) -> String {
        if !self.ex {
            return Obj::new().f("ex", b(false)).done();
        }
        let h = Obj::new()
            .f("ok", b(true))
            .f("sig", b(self.sig))
            .f("rev", format!("[{},{}]", self.rev.0, self.rev.1))
            .f("hs", w(self.hs))
            .f("cur", w(self.cur))
            .f("bak", w(self.bak))
            .f("fu", w(self.fu))
            .f("lu", w(self.lu))
            .f("g", s(&self.g))
            .f("ps", w(self.ps))
            .f("np", w(self.np))
            .f("es", w(self.es));
        // entries are of interest only in an array which verifies
        let ents = if self.ac { &self.ents[..] } else { &[] };
        Obj::new()
            .f("ex", b(true))
            .f("h", h.done())
            .f("res", w(self.res))
            .f("crc", b(self.crc))
            .f("rz", b(self.rz))
            .f("rd", b(self.rd))
            .f("ac", b(self.ac))
            .f("ents", js::arr(ents.iter().map(|e| e.js())))
            .done()
    }
}

/// both header positions of a device
pub struct Med {
    pub nb: u64,
    pub p: View,
    pub b: View,
}
pub fn medium(d: &dyn Src, lbs: u64) -> Med {
    let nb = d.size() / lbs;
    Med {
        nb,
        p: view(d, 1, lbs),
        b: view(d, nb.saturating_sub(1), lbs),
    }
}
impl Med {
    pub fn js(&self) -> String {
        Obj::new()
            .f("nb", w(self.nb))
            .f("p", self.p.js())
            .f("b", self.b.js())
            .done()
    }
    /// digests of the tables of the intact copies
    pub fn tables(&self) -> Vec<String> {
        let mut t: Vec<String> = [&self.p, &self.b]
            .iter()
            .filter(|v| v.intact())
            .map(|v| table_digest(&v.g, &v.ents))
            .collect();
        t.dedup();
        t
    }
}

/// a header block with valid checksum, for preparing devices
pub struct RawHdr {
    pub cur: u64,
    pub bak: u64,
    pub fu: u64,
    pub lu: u64,
    pub g: String,
    pub ps: u64,
    pub np: u64,
    pub es: u64,
    pub pcrc: u64,
    pub rev: u64,
    pub hs: u64,
    pub res: u64,
}
impl RawHdr {
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = b"EFI PART".to_vec();
        o.extend((self.rev as u32).to_le_bytes());
        o.extend((self.hs as u32).to_le_bytes());
        o.extend([0; 4]);
        o.extend((self.res as u32).to_le_bytes());
        for x in [self.cur, self.bak, self.fu, self.lu] {
            o.extend(x.to_le_bytes());
        }
        o.extend(guid_bytes(&self.g));
        o.extend(self.ps.to_le_bytes());
        for x in [self.np, self.es, self.pcrc] {
            o.extend((x as u32).to_le_bytes());
        }
        let c = crc32(&o);
        o[16..20].copy_from_slice(&c.to_le_bytes());
        o
    }
}
