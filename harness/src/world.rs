//! Executes script commands on the real crate and records one event per command.

use crate::decode::{self, Ent, Src, View};
use crate::dev::{runs, Inner, LogOp, SimDev, CLONED};
use crate::files;
use crate::js::{self, arr, b, hex, opt, s, unhex, w, Obj};
use gpt::disk::LogicalBlockSize;
use gpt::header::{Header, HeaderBuilder};
use gpt::mbr::{PartRecord, ProtectiveMBR};
use gpt::partition::Partition;
use gpt::partition_types::{OperatingSystem, Type};
use gpt::{GptConfig, GptDisk};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::str::FromStr;
use uuid::Uuid;

pub enum Disk {
    Sim(GptDisk<SimDev>, String),
    File(GptDisk<std::fs::File>, String),
}

macro_rules! on {
    ($d:expr, $x:ident => $e:expr) => {
        match $d {
            Disk::Sim($x, _) => $e,
            Disk::File($x, _) => $e,
        }
    };
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub lbs: u64,
    pub wr: bool,
    pub ov: bool,
    pub rob: bool,
    pub cpc: bool,
}

impl Cfg {
    fn of(a: &Args) -> Self {
        let f = |k: &str| a.u(k, 0) == 1;
        Self {
            lbs: a.u("lbs", 512),
            wr: f("wr"),
            ov: f("ov"),
            rob: f("rob"),
            cpc: f("cpc"),
        }
    }
    /// the configuration, asked for in one of the equivalent ways: documented defaults may be
    /// left out, the order of the setters does not matter, and the last word counts
    fn real(&self, style: u32) -> GptConfig {
        let mut c = if style % 2 == 0 {
            GptConfig::new()
        } else {
            GptConfig::default()
        };
        if style == 2 {
            c = c
                .writable(!self.wr)
                .logical_block_size(lb(4608 - self.lbs))
                .only_valid_headers(!self.ov)
                .readonly_backup(!self.rob)
                .change_partition_count(!self.cpc);
        }
        let lean = style < 2;
        for i in 0..5 {
            c = match if style == 3 { 4 - i } else { i } {
                0 if !lean || self.wr => c.writable(self.wr),
                1 if !lean || self.lbs != 512 => c.logical_block_size(lb(self.lbs)),
                2 if !lean || self.ov => c.only_valid_headers(self.ov),
                3 if !lean || self.rob => c.readonly_backup(self.rob),
                4 if !lean || self.cpc => c.change_partition_count(self.cpc),
                _ => c,
            };
        }
        c
    }
    fn js(&self) -> String {
        Obj::new()
            .f("lbs", self.lbs.to_string())
            .f("wr", b(self.wr))
            .f("ov", b(self.ov))
            .f("rob", b(self.rob))
            .f("cpc", b(self.cpc))
            .done()
    }
}

pub fn lb(n: u64) -> LogicalBlockSize {
    if n == 4096 {
        LogicalBlockSize::Lb4096
    } else {
        LogicalBlockSize::Lb512
    }
}

pub struct Args<'a> {
    pub pos: Vec<&'a str>,
    kv: BTreeMap<&'a str, &'a str>,
}
impl<'a> Args<'a> {
    pub fn parse(line: &'a str) -> Self {
        let mut a = Args {
            pos: vec![],
            kv: BTreeMap::new(),
        };
        for t in line.split_whitespace() {
            match t.split_once('=') {
                Some((k, v)) => {
                    a.kv.insert(k, v);
                }
                None => a.pos.push(t),
            }
        }
        a
    }
    pub fn has(&self, k: &str) -> bool {
        self.kv.contains_key(k)
    }
    pub fn u(&self, k: &str, def: u64) -> u64 {
        self.kv
            .get(k)
            .map_or(def, |v| v.parse().unwrap_or_else(|_| panic!("bad {k}={v}")))
    }
    pub fn t(&self, k: &str) -> &'a str {
        self.kv.get(k).copied().unwrap_or("")
    }
}

/// outcome of a call
pub enum R<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> R<T> {
    fn js(&self) -> String {
        let o = Obj::new();
        match self {
            R::Ok(_) => o.f("k", s("ok")).f("e", s("")),
            R::Err(e) => o.f("k", s("err")).f("e", s(e)),
            R::Panic(m) => o
                .f("k", s("panic"))
                .f("e", s(&m.chars().take(120).collect::<String>())),
        }
        .done()
    }
    fn ok(&self) -> Option<&T> {
        match self {
            R::Ok(t) => Some(t),
            _ => None,
        }
    }
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<&str>()
        .map(|x| x.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "panic".into())
}

/// the name of an error: its outermost variant
fn kind(e: &impl std::fmt::Debug) -> String {
    let t = format!("{e:?}");
    t.split(|c: char| !c.is_alphanumeric())
        .next()
        .unwrap_or("")
        .to_string()
}

fn call<T, E: std::fmt::Debug>(f: impl FnOnce() -> Result<T, E>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(t)) => R::Ok(t),
        Ok(Err(e)) => R::Err(kind(&e)),
        Err(p) => R::Panic(panic_text(p)),
    }
}
fn pure<T>(f: impl FnOnce() -> T) -> R<T> {
    call::<T, ()>(|| Ok(f()))
}

pub fn simple(u: &Uuid) -> String {
    u.as_simple().to_string()
}

pub fn ent(id: u32, p: &Partition) -> Ent {
    Ent {
        id: id.into(),
        t: simple(&p.part_type_guid.guid),
        os: format!("{:?}", p.part_type_guid.os),
        u: simple(&p.part_guid),
        f: p.first_lba,
        l: p.last_lba,
        a: p.flags,
        n: p.name.encode_utf16().collect(),
    }
}
fn ents(m: &BTreeMap<u32, Partition>) -> Vec<Ent> {
    m.iter().map(|(i, p)| ent(*i, p)).collect()
}
fn ents_js(m: &[Ent]) -> String {
    arr(m.iter().map(|e| e.js()))
}

fn hdr_js(h: &Header) -> String {
    Obj::new()
        .f("ok", b(true))
        .f("sig", b(h.signature == "EFI PART"))
        .f("rev", format!("[{},{}]", h.revision.0, h.revision.1))
        .f("hs", w(h.header_size_le))
        .f("cur", w(h.current_lba))
        .f("bak", w(h.backup_lba))
        .f("fu", w(h.first_usable))
        .f("lu", w(h.last_usable))
        .f("g", s(&simple(&h.disk_guid)))
        .f("ps", w(h.part_start))
        .f("np", w(h.num_parts))
        .f("es", w(h.part_size))
        .done()
}

fn type_of(t: &str) -> Type {
    if let Some((t, k)) = t.split_once('!') {
        let os = match k {
            "0" => OperatingSystem::None,
            "1" => OperatingSystem::Linux,
            "2" => OperatingSystem::Windows,
            "3" => OperatingSystem::Custom("some system".into()),
            "4" => OperatingSystem::Custom(String::new()),
            _ => OperatingSystem::MacOs,
        };
        return Type { os, ..type_of(t) };
    }
    match Uuid::parse_str(t) {
        Ok(u) => Type::from(u),
        Err(_) => Type::from_name(t).unwrap_or_else(|_| panic!("type {t}")),
    }
}
fn name_of(h: &str) -> String {
    String::from_utf8(unhex(h)).expect("utf8 name")
}

/// id/type/unique/first/last/flags/name
fn part_of(t: &str) -> (u32, Partition) {
    let x: Vec<&str> = t.split('/').collect();
    (
        x[0].parse().expect("id"),
        Partition {
            part_type_guid: type_of(x[1]),
            part_guid: Uuid::parse_str(x[2]).expect("guid"),
            first_lba: x[3].parse().expect("first"),
            last_lba: x[4].parse().expect("last"),
            flags: x[5].parse().expect("flags"),
            name: name_of(x[6]),
        },
    )
}
pub fn part_str(e: &Ent) -> String {
    format!(
        "{}/{}/{}/{}/{}/{}/{}",
        e.id,
        e.t,
        e.u,
        e.f,
        e.l,
        e.a,
        hex(String::from_utf16_lossy(&e.n).as_bytes())
    )
}
fn raw_ent(t: &str) -> Ent {
    let x: Vec<&str> = t.split('/').collect();
    Ent {
        id: x[0].parse().expect("id"),
        t: x[1].into(),
        os: String::new(),
        u: x[2].into(),
        f: x[3].parse().expect("first"),
        l: x[4].parse().expect("last"),
        a: x[5].parse().expect("flags"),
        n: match unhex(x[6]) {
            // utf-16 units given directly as four hex digits each
            v if x.len() > 7 => v
                .chunks(2)
                .map(|c| u16::from(c[0]) << 8 | u16::from(c[1]))
                .collect(),
            v => String::from_utf8(v).expect("utf8").encode_utf16().collect(),
        },
    }
}

pub struct World {
    pub disks: BTreeMap<String, Disk>,
    pub cfgs: BTreeMap<String, Cfg>,
    pub devs: BTreeMap<String, SimDev>,
    pub files: BTreeMap<String, PathBuf>,
    pub mbrs: BTreeMap<String, ProtectiveMBR>,
    pub lost: Option<crate::crash::Lost>,
    pub dir: PathBuf,
    /// operations on disks so far in this history
    ops: u32,
}

impl World {
    pub fn new(dir: PathBuf) -> Self {
        Self {
            disks: BTreeMap::new(),
            cfgs: BTreeMap::new(),
            devs: BTreeMap::new(),
            files: BTreeMap::new(),
            mbrs: BTreeMap::new(),
            lost: None,
            dir,
            ops: 0,
        }
    }

    pub fn clear(&mut self) {
        self.ops = 0;
        self.disks.clear();
        self.cfgs.clear();
        self.devs.clear();
        self.mbrs.clear();
        self.lost = None;
        for p in self.files.values() {
            let _ = std::fs::remove_file(p);
        }
        self.files.clear();
    }

    fn sim(&self, d: &str) -> SimDev {
        self.devs
            .get(d)
            .unwrap_or_else(|| panic!("no device {d}"))
            .share()
    }

    /// name of the device of a handle
    fn dev_of(&self, h: &str) -> String {
        match &self.disks[h] {
            Disk::Sim(_, d) | Disk::File(_, d) => d.clone(),
        }
    }

    fn with_src<T>(&self, d: &str, f: impl FnOnce(&dyn Src) -> T) -> T {
        if let Some(p) = self.files.get(d) {
            f(&std::fs::read(p).expect("scratch file"))
        } else {
            let x = self.sim(d);
            let i = x.0.borrow();
            f(&*i)
        }
    }

    fn med(&self, d: &str, lbs: u64) -> decode::Med {
        self.with_src(d, |x| decode::medium(x, lbs))
    }

    fn st(&self, h: &str) -> String {
        on!(&self.disks[h], d => st_js(d))
    }

    fn obs(&self, h: &str) -> String {
        on!(&self.disks[h], d => obs_js(d))
    }

    /// digests of all handles, and of all devices
    fn digests(&self, o: &mut Obj) {
        let hd = self.disks.keys().map(|h| {
            format!(
                "[{},{}]",
                s(h),
                s(&format!(
                    "{:016x}",
                    js::fnv(js::FNV0, self.st(h).as_bytes())
                ))
            )
        });
        o.put("hd", arr(hd));
        let dd = self
            .devs
            .iter()
            .map(|(n, d)| format!("[{},{}]", s(n), s(&d.0.borrow().digest())))
            .chain(self.files.iter().map(|(n, p)| {
                let c = std::fs::read(p).expect("scratch file");
                format!(
                    "[{},{}]",
                    s(n),
                    s(&format!("{:016x}", js::fnv(js::FNV0, &c)))
                )
            }));
        o.put("dd", arr(dd));
    }

    /// Execute one command. Returns the event.
    pub fn exec(&mut self, line: &str) -> Option<String> {
        let a = Args::parse(line);
        let op = a.pos[0];
        let mut o = Obj::new().f("e", s(op));
        match op {
            "begin" => {
                self.clear();
                o.put("name", s(a.pos[1]));
                return Some(o.done());
            }
            "dev" | "devcopy" | "graft" | "resize" | "poke" | "flip" | "sethdr" | "setent" | "fixcrc"
            | "mode" | "power" | "fdev" | "fpoke" | "fresize" | "undev" | "hcrc" | "crcf" => {
                self.prepare(op, &a);
                o.put("d", s(a.pos[1]));
                return Some(o.done());
            }
            "mbr" | "rdboot" | "wrboot" | "rdsig" | "wrsig" | "prec" => {
                let needs = ["setboot", "setsig", "setpart", "over", "cons"];
                if op == "mbr" && needs.contains(&a.pos[1]) && !self.mbrs.contains_key(a.t("m")) {
                    return None;
                }
                self.mbr(op, &a, &mut o)
            }
            "arith" => arith(&a, &mut o),
            "block" => block_size(&a, &mut o),
            "attrs" => attrs(&a, &mut o),
            "type" => types(&a, &mut o),
            "hb" | "hw" | "pw" | "pz" | "hr" | "pr" | "whdr" | "rhdr" | "rparts" | "pwp" => {
                self.helpers(op, &a, &mut o)
            }
            _ => {
                // the object might not exist where the code does not do what a history expects
                let made = matches!(op, "create" | "open" | "fcreate" | "fopen" | "rdisk");
                if !made && !self.disks.contains_key(a.pos[1]) {
                    return None;
                }
                self.disk_op(op, &a, &mut o)
            }
        }
        Some(o.done())
    }

    fn prepare(&mut self, op: &str, a: &Args) {
        let d = a.pos[1];
        let n = |i: usize| a.pos[i].parse::<u64>().expect("number");
        match op {
            "dev" => {
                let dev = SimDev::new(Inner::new(n(2), a.u("fill", 0), a.u("fixed", 0) == 1));
                self.devs.insert(d.into(), dev);
            }
            "devcopy" => {
                let i = self.sim(a.pos[2]).0.borrow().clone();
                self.devs.insert(d.into(), SimDev::new(i));
            }
            // a device nobody needs any more
            "undev" => {
                self.devs.remove(d);
                let gone: Vec<String> = self
                    .disks
                    .keys()
                    .filter(|h| self.dev_of(h) == d)
                    .cloned()
                    .collect();
                for h in gone {
                    self.disks.remove(&h);
                }
            }
            // power loss during the last write (which was done with crash=1): the device is
            // in one of its crash states and nothing that was in memory exists any more
            "power" => {
                let i = self.lost.take().filter(|x| x.dev == d);
                let i = i.and_then(|x| x.state(a.u("seed", 1), a.t("want")));
                if let Some(i) = i {
                    let gone: Vec<String> = self
                        .disks
                        .keys()
                        .filter(|h| self.dev_of(h) == d)
                        .cloned()
                        .collect();
                    for h in gone {
                        self.disks.remove(&h);
                    }
                    match self.files.get(d) {
                        Some(p) => {
                            let x = i.peek(0, i.size as usize).expect("inside");
                            std::fs::write(p, x).expect("scratch");
                        }
                        None => {
                            self.devs.insert(d.into(), SimDev::new(i));
                        }
                    }
                }
            }
            "resize" | "poke" | "flip" if self.files.contains_key(d) => {
                let mut c = std::fs::read(&self.files[d]).expect("scratch");
                match op {
                    "resize" => c.resize(n(2) as usize, 0),
                    "poke" => {
                        let x = unhex(a.pos[3]);
                        c[n(2) as usize..n(2) as usize + x.len()].copy_from_slice(&x);
                    }
                    _ => c[n(2) as usize] ^= n(3) as u8,
                }
                std::fs::write(&self.files[d], c).expect("scratch");
            }
            "resize" => self.sim(d).0.borrow_mut().resize(n(2)),
            // bytes of another device, at the same place
            "graft" => {
                let x = self.sim(a.pos[4]).0.borrow().peek(n(2), n(3) as usize);
                if let Some(x) = x {
                    self.sim(d).0.borrow_mut().poke(n(2), &x);
                }
            }
            "poke" => self.sim(d).0.borrow_mut().poke(n(2), &unhex(a.pos[3])),
            "flip" => {
                let dev = self.sim(d);
                let mut i = dev.0.borrow_mut();
                let v = i.peek(n(2), 1).expect("flip inside")[0];
                i.poke(n(2), &[v ^ n(3) as u8]);
            }
            "sethdr" => {
                let dev = self.sim(d);
                let mut i = dev.0.borrow_mut();
                let (lba, lbs) = (n(2), a.u("lbs", 512));
                let mut h = decode::RawHdr {
                    cur: a.u("cur", lba),
                    bak: a.u("bak", 0),
                    fu: a.u("fu", 34),
                    lu: a.u("lu", 0),
                    g: if a.has("g") {
                        a.t("g").into()
                    } else {
                        "0".repeat(32)
                    },
                    ps: a.u("ps", 2),
                    np: a.u("np", 128),
                    es: a.u("es", 128),
                    pcrc: a.u("pcrc", 0),
                    rev: a.u("rev", 0x10000),
                    hs: a.u("hs", 92),
                    res: a.u("res", 0),
                };
                if !a.has("pcrc") {
                    let arrb =
                        h.ps.checked_mul(lbs)
                            .filter(|_| h.np * h.es < 1 << 26)
                            .and_then(|o| i.peek(o, (h.np * h.es) as usize));
                    h.pcrc = arrb.map_or(0, |x| u64::from(decode::crc32(&x)));
                }
                i.poke(lba * lbs, &h.bytes());
            }
            // a fresh checksum for a header and its array, as they are now
            "fixcrc" | "hcrc" => {
                let dev = self.sim(d);
                let mut i = dev.0.borrow_mut();
                let (lba, lbs) = (n(2), a.u("lbs", 512));
                let mut h = i.peek(lba * lbs, 92).expect("header");
                let (ps, np, es) = (
                    decode::le(&h[72..80]),
                    decode::le(&h[80..84]),
                    decode::le(&h[84..88]),
                );
                if let Some(x) = ps
                    .checked_mul(lbs)
                    .filter(|_| op == "fixcrc" && np * es < 1 << 26)
                    .and_then(|o| i.peek(o, (np * es) as usize))
                {
                    h[88..92].copy_from_slice(&decode::crc32(&x).to_le_bytes());
                }
                h[16..20].fill(0);
                let c = decode::crc32(&h);
                h[16..20].copy_from_slice(&c.to_le_bytes());
                i.poke(lba * lbs, &h);
            }
            // a wrong (or once right) value in a checksum field: of the header ("h"), or of the
            // array ("a", with the header's checksum made right)
            "crcf" => {
                let dev = self.sim(d);
                let mut i = dev.0.borrow_mut();
                let (lba, lbs) = (n(2), a.u("lbs", 512));
                let mut h = i.peek(lba * lbs, 92).expect("header");
                let old = decode::le(&h[16..20]) as u32;
                let (ps, np, es) = (
                    decode::le(&h[72..80]),
                    decode::le(&h[80..84]),
                    decode::le(&h[84..88]),
                );
                let arr = ps
                    .checked_mul(lbs)
                    .filter(|_| np * es < 1 << 20)
                    .and_then(|o| i.peek(o, (np * es) as usize))
                    .unwrap_or_default();
                let head = a.pos[3] == "h";
                let form = |data: &[u8], own: u32| -> u32 {
                    let c = decode::crc32(data);
                    match n(4) {
                        0 => 0,
                        1 => !0,
                        2 => !c,
                        3 => c.swap_bytes(),
                        4 => c & 0xffff,
                        5 => c & 0xffff_0000,
                        6 => c.wrapping_add(1),
                        7 => own,
                        8 => decode::crc32(&data[..data.len() / 2]),
                        _ => c ^ 0x8000_0000,
                    }
                };
                if head {
                    h[16..20].fill(0);
                    let c = form(&h, old);
                    h[16..20].copy_from_slice(&c.to_le_bytes());
                } else {
                    let own = decode::le(&h[88..92]) as u32;
                    let c = form(&arr, own);
                    h[88..92].copy_from_slice(&c.to_le_bytes());
                    h[16..20].fill(0);
                    let c = decode::crc32(&h);
                    h[16..20].copy_from_slice(&c.to_le_bytes());
                }
                i.poke(lba * lbs, &h);
            }
            "setent" => {
                let e = raw_ent(a.pos[3]);
                let off = n(2) * a.u("lbs", 512) + (e.id - 1) * 128;
                self.sim(d)
                    .0
                    .borrow_mut()
                    .poke(off, &decode::entry_bytes(&e));
            }
            "mode" => {
                let dev = self.sim(d);
                let mut i = dev.0.borrow_mut();
                i.short = a.u("short", 0) as usize;
                i.intr = a.u("intr", 0);
            }
            "fdev" => {
                let p = self.dir.join(d);
                let i = Inner::new(n(2), a.u("fill", 0), true);
                std::fs::write(&p, i.peek(0, n(2) as usize).expect("content")).expect("scratch");
                self.files.insert(d.into(), p);
            }
            "fpoke" => {
                let mut c = std::fs::read(&self.files[d]).expect("scratch");
                let x = unhex(a.pos[3]);
                c[n(2) as usize..n(2) as usize + x.len()].copy_from_slice(&x);
                std::fs::write(&self.files[d], c).expect("scratch");
            }
            "fresize" => {
                let f = std::fs::OpenOptions::new()
                    .write(true)
                    .open(&self.files[d])
                    .expect("scratch");
                f.set_len(n(2)).expect("scratch");
            }
            _ => unreachable!(),
        }
    }

    fn disk_op(&mut self, op: &str, a: &Args, o: &mut Obj) {
        let h = a.pos[1].to_string();
        // which way of asking for a configuration
        self.ops += 1;
        let style = (self.ops + a.u("wr", 0) as u32 + h.len() as u32 + self.devs.len() as u32) % 6;
        // the device the operation is about
        let d = match op {
            "create" | "open" | "fcreate" | "fopen" | "rdisk" => a.pos[2].to_string(),
            _ => self.dev_of(&h),
        };
        let cfg = match op {
            "create" | "open" | "fcreate" | "fopen" => Cfg::of(a),
            "rdisk" => Cfg::of(&Args::parse("")),
            _ => self.cfgs[&h].clone(),
        };
        o.put("h", s(&h));
        o.put("d", s(&d));
        o.put("c", cfg.js());
        let is_write = op == "write" || op == "writec";
        let is_file = self.files.contains_key(&d);

        let before = is_file.then(|| std::fs::read(&self.files[&d]).expect("scratch"));
        for x in self.devs.values() {
            x.0.borrow_mut().reset();
        }
        // the medium before, for operations which read or write it
        let med0 = self.med(&d, cfg.lbs);
        let looks = is_write || matches!(op, "open" | "fopen" | "rdisk");
        if looks {
            o.put("m0", med0.js());
        }
        let len0 = self.with_src(&d, |x| x.size());
        let mut deg = false;
        if !is_file {
            let dev = self.sim(&d);
            let mut i = dev.0.borrow_mut();
            deg = i.short > 0 || i.intr > 0;
            if a.has("fault") {
                i.fault_at = Some(a.u("fault", 0));
                i.fault_kind = a.u("fk", 0);
                i.fault_sticky = a.u("sticky", 0) == 1;
            }
            i.unflushed = false;
            // where the device happens to be positioned must not matter
            if self.ops % 3 == 0 {
                i.pos = match self.ops % 5 {
                    0 => i.size,
                    1 => i.size + 4097,
                    2 => i.size / 2,
                    3 => 512,
                    _ => u64::from(self.ops),
                };
            }
            if a.u("crash", 0) == 1 {
                i.log = Some(vec![]);
            }
        }
        self.lost = None;
        let crash = a.u("crash", 0) == 1;
        let image = crash.then(|| match &before {
            Some(x) => Inner::of(x),
            None => self.sim(&d).0.borrow().clone(),
        });
        files::start(a.u("ffault", 0), a.u("fk", 0), crash && is_file);

        let mut gone = false;
        let mut ret = String::from("[]");
        let mut args = Obj::new();
        let name = name_of(a.t("n"));
        let r: R<()> = match op {
            "create" | "fcreate" => {
                let g = (a.t("g") != "-" && a.has("g"))
                    .then(|| Uuid::parse_str(a.t("g")).expect("guid"));
                args.put("g", opt(g.map(|g| s(&simple(&g)))));
                let r = if op == "create" {
                    let dev = self.sim(&d);
                    call(|| {
                        cfg.real(style)
                            .create_from_device(dev, g)
                            .map(|x| Disk::Sim(x, d.clone()))
                    })
                } else {
                    let p = self.files[&d].clone();
                    call(|| cfg.real(style).create(p).map(|x| Disk::File(x, d.clone())))
                };
                self.install(&h, &cfg, r)
            }
            "open" => {
                let dev = self.sim(&d);
                let r = call(|| {
                    cfg.real(style)
                        .open_from_device(dev)
                        .map(|x| Disk::Sim(x, d.clone()))
                });
                self.install(&h, &cfg, r)
            }
            "fopen" => {
                let p = self.files[&d].clone();
                let r = call(|| cfg.real(style).open(p).map(|x| Disk::File(x, d.clone())));
                self.install(&h, &cfg, r)
            }
            "rdisk" => {
                let p = self.files[&d].clone();
                let r = call(|| gpt::disk::read_disk(p).map(|x| Disk::File(x, d.clone())));
                self.install(&h, &cfg, r)
            }
            "add" | "addat" => {
                let t = type_of(a.t("t"));
                args.put("t", s(&simple(&t.guid)));
                args.put("os", s(&format!("{:?}", t.os)));
                args.put("a", s(&format!("{:016x}", a.u("a", 0))));
                args.put("n", arr(name.encode_utf16().map(|x| x.to_string())));
                let disk = self.disks.get_mut(&h).expect("handle");
                let r = if op == "add" {
                    let al = (a.has("al") && a.t("al") != "-").then(|| a.u("al", 0));
                    args.put("size", w(a.u("size", 1)));
                    args.put("al", opt(al.map(w)));
                    call(
                        || on!(disk, x => x.add_partition(&name, a.u("size", 1), t, a.u("a", 0), al)),
                    )
                } else {
                    let id = a.u("id", 1) as u32;
                    args.put("id", w(id));
                    args.put("f", w(a.u("f", 0)));
                    args.put("len", w(a.u("len", 1)));
                    call(|| {
                        on!(disk, x => x.add_partition_at(
                            &name, id, a.u("f", 0), a.u("len", 1), t, a.u("a", 0)))
                    })
                };
                if let Some(id) = r.ok() {
                    ret = arr([w(*id)]);
                }
                strip(r)
            }
            "rm" => {
                let id = a.u("id", 1) as u32;
                args.put("id", w(id));
                let disk = self.disks.get_mut(&h).expect("handle");
                let r = pure(|| on!(disk, x => x.remove_partition(id)));
                if let Some(Some(id)) = r.ok() {
                    ret = arr([w(*id)]);
                }
                strip(r)
            }
            "rmg" => {
                let disk = self.disks.get_mut(&h).expect("handle");
                // a guid, or the guid of the entry with a number
                let g = match a.t("g").strip_prefix('#') {
                    Some(i) => on!(&*disk, x => x
                        .partitions()
                        .get(&i.parse().expect("id"))
                        .map_or(Uuid::from_u128(1), |p| p.part_guid)),
                    None => Uuid::parse_str(a.t("g")).expect("guid"),
                };
                args.put("g", s(&simple(&g)));
                let r = pure(|| on!(disk, x => x.remove_partition_by_guid(g)));
                if let Some(Some(id)) = r.ok() {
                    ret = arr([w(*id)]);
                }
                strip(r)
            }
            "take" => {
                let disk = self.disks.get_mut(&h).expect("handle");
                let r = pure(|| on!(disk, x => x.take_partitions()));
                if let Some(m) = r.ok() {
                    ret = ents_js(&ents(m));
                }
                strip(r)
            }
            "upd" => {
                let disk = self.disks.get_mut(&h).expect("handle");
                // base=1: the current map with changes, otherwise exactly the given map
                let mut m = BTreeMap::new();
                if a.u("base", 0) == 1 {
                    m = on!(&*disk, x => x.partitions().clone());
                }
                for x in a.t("del").split(';').filter(|x| !x.is_empty()) {
                    m.remove(&x.parse().expect("id"));
                }
                for x in a.t("set").split(';').filter(|x| !x.is_empty()) {
                    let (i, p) = part_of(x);
                    m.insert(i, p);
                }
                args.put("parts", ents_js(&ents(&m)));
                call(|| on!(disk, x => x.update_partitions(m)))
            }
            "setg" => {
                let g = (a.t("g") != "-").then(|| Uuid::parse_str(a.t("g")).expect("guid"));
                args.put("g", opt(g.map(|g| s(&simple(&g)))));
                let disk = self.disks.get_mut(&h).expect("handle");
                pure(|| on!(disk, x => x.update_guid(g)))
            }
            "write" => {
                let disk = self.disks.get_mut(&h).expect("handle");
                call(|| on!(disk, x => x.write_inplace()))
            }
            "writec" => {
                gone = true;
                match self.disks.remove(&h).expect("handle") {
                    Disk::Sim(x, _) => {
                        let r = call(|| x.write());
                        if let Some(v) = r.ok() {
                            ret = arr([b(std::rc::Rc::ptr_eq(&v.0, &self.sim(&d).0)).into()]);
                        }
                        strip(r)
                    }
                    Disk::File(x, _) => strip(call(|| x.write())),
                }
            }
            "clone" => {
                let h2 = a.pos[2];
                let d2 = a.pos[3];
                args.put("h2", s(h2));
                args.put("d2", s(d2));
                CLONED.with(|c| c.borrow_mut().clear());
                let r = match &self.disks[&h] {
                    Disk::Sim(x, _) => pure(|| x.clone()),
                    Disk::File(..) => panic!("files cannot be cloned"),
                };
                let dev = CLONED.with(|c| c.borrow_mut().pop());
                if let (R::Ok(x), Some(dev)) = (&r, dev) {
                    self.devs.insert(d2.into(), dev);
                    self.cfgs.insert(h2.into(), cfg.clone());
                    let x2 = x.clone();
                    let _ = x2; // the clone itself must be clonable
                    let R::Ok(x) = r else { unreachable!() };
                    self.disks.insert(h2.into(), Disk::Sim(x, d2.into()));
                    o.put("st2", self.st(h2));
                    R::Ok(())
                } else {
                    strip(r)
                }
            }
            "retgt" => {
                let h2 = a.pos[2];
                let d2 = a.pos[3];
                let wr = a.u("wr", 0) == 1;
                args.put("h2", s(h2));
                args.put("d2", s(d2));
                args.put("wr", b(wr));
                let dev = self.sim(d2);
                let r = pure(|| on!(&self.disks[&h], x => x.with_disk_device(dev, wr)));
                match r {
                    R::Ok(x) => {
                        self.cfgs.insert(h2.into(), Cfg { wr, ..cfg.clone() });
                        self.disks.insert(h2.into(), Disk::Sim(x, d2.into()));
                        o.put("st2", self.st(h2));
                        R::Ok(())
                    }
                    r => strip(r),
                }
            }
            "swap" => {
                let d2 = a.pos[2];
                let wr = a.u("wr", 0) == 1;
                args.put("d2", s(d2));
                args.put("wr", b(wr));
                let dev = self.sim(d2);
                let r = match self.disks.get_mut(&h).expect("handle") {
                    Disk::Sim(x, n) => {
                        let r = pure(|| x.update_disk_device(dev, wr));
                        *n = d2.into();
                        r
                    }
                    Disk::File(..) => panic!("no swap for files"),
                };
                self.cfgs.get_mut(&h).expect("cfg").wr = wr;
                if let Some(v) = r.ok() {
                    ret = arr([b(std::rc::Rc::ptr_eq(&v.0, &self.sim(&d).0)).into()]);
                }
                strip(r)
            }
            "takedev" => {
                gone = true;
                match self.disks.remove(&h).expect("handle") {
                    Disk::Sim(x, _) => {
                        let r = pure(|| x.take_device());
                        if let Some(v) = r.ok() {
                            ret = arr([b(std::rc::Rc::ptr_eq(&v.0, &self.sim(&d).0)).into()]);
                        }
                        strip(r)
                    }
                    Disk::File(x, _) => strip(pure(|| x.take_device())),
                }
            }
            "drop" => {
                gone = true;
                let x = self.disks.remove(&h);
                pure(|| drop(x))
            }
            // queries: everything which only looks
            "q" => pure(|| {
                on!(&self.disks[&h], x => {
                    let _ = format!("{x:?}");
                    let _ = x.guid();
                    let _ = x.logical_block_size();
                    let _ = x.device_ref();
                    for p in x.partitions().values() {
                        let _ = p.sectors_len();
                        let _ = p.bytes_len(*x.logical_block_size());
                        let _ = p.bytes_start(*x.logical_block_size());
                        let _ = format!("{p} {p:?}");
                    }
                    let _ = format!("{}", x.header());
                })
            }),
            _ => panic!("unknown command {op}"),
        };
        let fs = files::stop();
        o.put("a", args.done());
        o.put("r", r.js());
        o.put("v", ret);

        let mut hit = vec![];
        if !is_file {
            let dev = self.sim(&d);
            let mut i = dev.0.borrow_mut();
            i.fault_at = None;
            hit = i.fault_hit.clone();
            if is_write {
                o.put("unfl", b(i.unflushed));
                o.put("ndev", i.ops.to_string());
            } else if looks {
                o.put("ndev", i.ops.to_string());
            }
            o.put("chg", runs_js(&i.changed(cfg.lbs)));
        } else {
            let old = before.expect("content");
            let new = std::fs::read(&self.files[&d]).expect("scratch");
            let units = (0..old.len().max(new.len()))
                .filter(|i| old.get(*i) != new.get(*i))
                .map(|i| i as u64 / cfg.lbs)
                .collect::<std::collections::BTreeSet<_>>();
            o.put("chg", runs_js(&runs(units)));
            if fs.fault_hit {
                hit.push(if fs.fault_write { "write" } else { "flush" });
            }
            if is_write {
                // synced: a successful sync after the last write
                o.put("unfl", b(fs.unsynced));
            }
        }
        o.put("flt", b(a.has("fault") || a.has("ffault")));
        o.put("hit", arr(hit.iter().map(|x| s(x))));
        o.put("deg", b(deg));
        o.put("file", b(is_file));
        let len1 = self.with_src(&d, |x| x.size());
        o.put("len0", w(len0));
        o.put("len1", w(len1));
        o.put("nb", w(len0 / cfg.lbs));
        if is_write {
            o.put("m1", self.med(&d, cfg.lbs).js());
        }
        if let Some(img) = image {
            let log = match is_file {
                true => fs.log,
                false => self.sim(&d).0.borrow_mut().log.take().unwrap_or_default(),
            };
            let new = match self.disks.get(&h) {
                Some(Disk::Sim(x, _)) => {
                    decode::table_digest(&simple(x.guid()), &ents(x.partitions()))
                }
                Some(Disk::File(x, _)) => {
                    decode::table_digest(&simple(x.guid()), &ents(x.partitions()))
                }
                None => String::new(),
            };
            o.put(
                "crash",
                crate::crash::explore(&img, &log, &cfg, &med0, &new, a.u("seed", 1)),
            );
            self.lost = Some(crate::crash::Lost {
                dev: d.clone(),
                img,
                log,
                lbs: cfg.lbs,
            });
        }
        if !gone && self.disks.contains_key(&h) {
            o.put("st", self.st(&h));
            o.put("obs", self.obs(&h));
        }
        self.digests(o);
    }

    fn install(&mut self, h: &str, cfg: &Cfg, r: R<Disk>) -> R<()> {
        match r {
            R::Ok(d) => {
                self.cfgs.insert(h.into(), cfg.clone());
                self.disks.insert(h.into(), d);
                R::Ok(())
            }
            r => {
                self.disks.remove(h);
                strip(r)
            }
        }
    }

    fn helpers(&mut self, op: &str, a: &Args, o: &mut Obj) {
        let lbs = a.u("lbs", 512);
        o.put("lbs", lbs.to_string());
        let header = |a: &Args| Header {
            signature: "EFI PART".into(),
            revision: (1, 0),
            header_size_le: 92,
            crc32: 0,
            reserved: 0,
            current_lba: a.u("cur", 1),
            backup_lba: a.u("bak", 0),
            first_usable: a.u("fu", 34),
            last_usable: a.u("lu", 0),
            disk_guid: Uuid::parse_str(if a.has("g") {
                a.t("g")
            } else {
                "11111111111111111111111111111111"
            })
            .expect("guid"),
            part_start: a.u("ps", 2),
            num_parts: a.u("np", 128) as u32,
            part_size: a.u("es", 128) as u32,
            crc32_parts: a.u("pcrc", 0) as u32,
        };
        if op == "hb" {
            // a builder, fresh or from a header; only what is given gets set
            let mut bl = if a.u("from", 0) == 1 {
                HeaderBuilder::from_header(&header(a))
            } else {
                HeaderBuilder::new()
            };
            let given = |k: &str| opt(a.has(k).then(|| w(a.u(k, 0))));
            let args = Obj::new()
                .f("from", b(a.u("from", 0) == 1))
                .f("h", hdr_js(&header(a)))
                .f(
                    "prim",
                    opt(a.has("sprim").then(|| b(a.u("sprim", 1) == 1).to_string())),
                )
                .f("g", opt(a.has("sg").then(|| s(a.t("sg")))))
                .f("bak", given("sbak"))
                .f("fu", given("sfu"))
                .f("lu", given("slu"))
                .f("np", given("snp"))
                .f("es", given("ses"));
            let r = call(|| {
                if a.has("sprim") {
                    bl.primary(a.u("sprim", 1) == 1);
                }
                if a.has("sg") {
                    bl.disk_guid(Uuid::parse_str(a.t("sg")).expect("guid"));
                }
                if a.has("sbak") {
                    bl.backup_lba(a.u("sbak", 0));
                }
                if a.has("sfu") {
                    bl.first_usable(a.u("sfu", 0));
                }
                if a.has("slu") {
                    bl.last_usable(a.u("slu", 0));
                }
                if a.has("snp") {
                    bl.num_parts(a.u("snp", 0) as u32);
                }
                if a.has("ses") {
                    bl.part_size(a.u("ses", 0) as u32);
                }
                bl.build(lb(lbs))
            });
            o.put("a", args.done());
            o.put("r", r.js());
            o.put("v", opt(r.ok().map(hdr_js)));
            return;
        }
        let d = a.pos[1].to_string();
        o.put("d", s(&d));
        let is_file = self.files.contains_key(&d);
        let before = is_file.then(|| std::fs::read(&self.files[&d]).expect("scratch"));
        for x in self.devs.values() {
            x.0.borrow_mut().reset();
        }
        let path = self.files.get(&d).cloned().unwrap_or_default();
        let len0 = self.with_src(&d, |x| x.size());
        // a header as the independent reader sees it
        let seen = |v: &View| Header {
            signature: "EFI PART".into(),
            revision: v.rev,
            header_size_le: v.hs as u32,
            crc32: 0,
            reserved: 0,
            current_lba: v.cur,
            backup_lba: v.bak,
            first_usable: v.fu,
            last_usable: v.lu,
            disk_guid: Uuid::parse_str(&v.g).unwrap_or(Uuid::nil()),
            part_start: v.ps,
            num_parts: v.np as u32,
            part_size: v.es as u32,
            crc32_parts: v.pcrc,
        };
        let mut args = Obj::new();
        match op {
            "hw" => {
                let mut h = header(a);
                let prim = a.t("side") == "p";
                args.put("prim", b(prim));
                args.put("h", hdr_js(&h));
                let mut dev = self.sim(&d);
                let r = call(|| {
                    if prim {
                        h.write_primary(&mut dev, lb(lbs))
                    } else {
                        h.write_backup(&mut dev, lb(lbs))
                    }
                });
                let v = self.with_src(&d, |x| decode::view(x, h.current_lba, lbs));
                o.put("r", r.js());
                o.put("v", opt(r.ok().map(|n| w(*n as u64))));
                o.put("view", v.js());
                o.put("hcrc", b(r.ok().is_none() || v.pcrc == h.crc32_parts));
                // would the array of this header have been readable at all?
                let rd = h
                    .part_start
                    .checked_mul(lbs)
                    .filter(|_| u64::from(h.num_parts) * u64::from(h.part_size) < 1 << 26)
                    .is_some_and(|off| {
                        self.with_src(&d, |x| {
                            x.at(off, h.num_parts as usize * h.part_size as usize)
                                .is_some()
                        })
                    });
                o.put("ard", b(rd));
            }
            "pw" | "pwp" => {
                let (_, p) = part_of(a.t("p"));
                let (idx, start, bpp) = (a.u("idx", 0), a.u("start", 2), a.u("bpp", 128) as u32);
                args.put("idx", w(idx));
                args.put("start", w(start));
                args.put("bpp", w(bpp));
                args.put("p", ent(1, &p).js());
                let r = if op == "pw" {
                    let mut dev = self.sim(&d);
                    call(|| p.write_to_device(&mut dev, idx, start, lb(lbs), bpp))
                } else {
                    call(|| p.write(&path, idx, start, lb(lbs)))
                };
                o.put("r", r.js());
                let off = start
                    .checked_mul(lbs)
                    .and_then(|x| x.checked_add(idx.checked_mul(bpp.into())?));
                let slot = off.and_then(|x| self.with_src(&d, |i| i.at(x, bpp as usize)));
                o.put(
                    "slot",
                    opt(slot.filter(|x| x.len() >= 128).map(|x| {
                        Obj::new()
                            .f("p", decode::entry(&x, 1).js())
                            .f("rz", b(x[128..].iter().all(|y| *y == 0)))
                            .done()
                    })),
                );
            }
            "pz" => {
                let (idx, n, start, bpp) = (
                    a.u("idx", 0),
                    a.u("cnt", 1),
                    a.u("start", 2),
                    a.u("bpp", 128) as u32,
                );
                args.put("idx", w(idx));
                args.put("cnt", w(n));
                args.put("start", w(start));
                args.put("bpp", w(bpp));
                let mut dev = self.sim(&d);
                let r = call(|| {
                    Partition::write_zero_entries_to_device(&mut dev, idx, n, start, lb(lbs), bpp)
                });
                o.put("r", r.js());
                let z = start
                    .checked_mul(lbs)
                    .and_then(|x| x.checked_add(idx.checked_mul(bpp.into())?))
                    .and_then(|x| {
                        self.with_src(&d, |i| i.at(x, n.checked_mul(bpp.into())? as usize))
                    })
                    .is_some_and(|x| x.iter().all(|y| *y == 0));
                o.put("zero", b(z));
            }
            "hr" | "rhdr" => {
                let r = if op == "hr" {
                    let mut dev = self.sim(&d);
                    call(|| gpt::header::read_header_from_arbitrary_device(&mut dev, lb(lbs)))
                } else {
                    call(|| gpt::header::read_header(&path, lb(lbs)))
                };
                o.put("r", r.js());
                o.put("v", opt(r.ok().map(hdr_js)));
                o.put("m0", self.med(&d, lbs).js());
            }
            "pr" | "rparts" => {
                let m = self.med(&d, lbs);
                let v = if a.t("at") == "b" {
                    m.b.clone()
                } else {
                    m.p.clone()
                };
                let h = seen(&v);
                let r = if op == "pr" {
                    let mut dev = self.sim(&d);
                    call(|| gpt::partition::file_read_partitions(&mut dev, &h, lb(lbs)))
                } else {
                    call(|| gpt::partition::read_partitions(&path, &h, lb(lbs)))
                };
                o.put("r", r.js());
                o.put("v", opt(r.ok().map(|m| ents_js(&ents(m)))));
                o.put("view", v.js());
            }
            "whdr" => {
                let g = (a.has("g") && a.t("g") != "-")
                    .then(|| Uuid::parse_str(a.t("g")).expect("guid"));
                args.put("g", opt(g.map(|g| s(&simple(&g)))));
                let r = call(|| gpt::header::write_header(&path, g, lb(lbs)));
                o.put("r", r.js());
                o.put("v", opt(r.ok().map(|g| s(&simple(g)))));
                o.put("m0", self.med(&d, lbs).js());
            }
            _ => unreachable!(),
        }
        o.put("a", args.done());
        let chg = match before {
            None => self.sim(&d).0.borrow().changed(1),
            Some(old) => {
                let new = std::fs::read(&path).expect("scratch");
                runs(
                    (0..old.len().max(new.len()))
                        .filter(|i| old.get(*i) != new.get(*i))
                        .map(|i| i as u64),
                )
            }
        };
        // the span of changed bytes is enough
        let span = chg
            .first()
            .map(|f| (f.0, chg.last().map_or(0, |l| l.0 + l.1 - f.0)));
        o.put("span", opt(span.map(|(x, n)| format!("{},{}", w(x), w(n)))));
        o.put("len0", w(len0));
        o.put("len1", w(self.with_src(&d, |x| x.size())));
        o.put("nb", w(len0 / lbs));
    }

    fn mbr(&mut self, op: &str, a: &Args, o: &mut Obj) {
        let lbs = a.u("lbs", 512);
        let sub = if op == "mbr" { a.pos[1] } else { op };
        o.put("op", s(sub));
        o.put("lbs", lbs.to_string());
        let seeded = |n: u64| {
            let c = crate::dev::fill_chunk(n, 0);
            let mut x = [0u8; 440];
            x.copy_from_slice(&c[..440]);
            x
        };
        let bdig = |x: &[u8]| {
            s(&format!(
                "{:016x}{:016x}",
                js::fnv(1, x),
                js::fnv(js::FNV0, x)
            ))
        };
        let rec = |p: &PartRecord| {
            let mut x = vec![
                p.boot_indicator,
                p.start_head,
                p.start_sector,
                p.start_track,
                p.os_type,
                p.end_head,
                p.end_sector,
                p.end_track,
            ];
            x.extend(p.lb_start.to_le_bytes());
            x.extend(p.lb_size.to_le_bytes());
            s(&hex(&x))
        };
        let view = |x: &[u8]| {
            Obj::new()
                .f("boot", bdig(&x[..440]))
                .f("sig", s(&hex(&x[440..444])))
                .f("unk", s(&hex(&x[444..446])))
                .f(
                    "recs",
                    arr((0..4).map(|i| s(&hex(&x[446 + 16 * i..462 + 16 * i])))),
                )
                .f("magic", s(&hex(&x[510..512])))
                .done()
        };
        // an object: through its accessors, and its bytes
        let obj = |m: &ProtectiveMBR| {
            let by = m.to_bytes();
            Obj::new()
                .f("boot", bdig(m.bootcode()))
                .f("sig", s(&hex(m.disk_signature())))
                .f(
                    "recs",
                    arr((0..4).map(|i| m.partition(i).map_or("\"none\"".into(), |p| rec(&p)))),
                )
                .f("over", b(m.partition(4).is_some()))
                .f("bytes", view(&by))
                .done()
        };
        let rec_of = |h: &str| {
            let x = unhex(h);
            PartRecord {
                boot_indicator: x[0],
                start_head: x[1],
                start_sector: x[2],
                start_track: x[3],
                os_type: x[4],
                end_head: x[5],
                end_sector: x[6],
                end_track: x[7],
                lb_start: decode::le(&x[8..12]) as u32,
                lb_size: decode::le(&x[12..16]) as u32,
            }
        };
        let m = a.t("m").to_string();
        let d = a.t("d").to_string();
        for x in self.devs.values() {
            x.0.borrow_mut().reset();
        }
        let mut dev = None;
        let mut pos0 = 0;
        let mut len0 = 0;
        if !d.is_empty() {
            let x = self.sim(&d);
            {
                let mut i = x.0.borrow_mut();
                i.pos = a.u("pos", i.pos);
                pos0 = i.pos;
                len0 = i.size;
                if a.has("fault") {
                    i.fault_at = Some(a.u("fault", 0));
                    i.fault_kind = a.u("fk", 0);
                }
                i.unflushed = false;
                o.put("blk", opt(i.peek(0, 512).map(|x| view(&x))));
            }
            dev = Some(x);
        }
        if let Some(x) = self.mbrs.get(&m) {
            o.put("m0", opt(Some(obj(x))));
        } else {
            o.put("m0", "[]");
        }
        let mut val = String::from("[]");
        let mut args = Obj::new();
        let mut mk: Option<ProtectiveMBR> = None;
        let r: R<()> = match sub {
            "new" => {
                let n = a.has("lb").then(|| a.u("lb", 0) as u32);
                args.put("lb", opt(n.map(|n| s(&hex(&n.to_le_bytes())))));
                o.put("zb", bdig(&[0; 440]));
                let r = pure(|| match n {
                    None => ProtectiveMBR::new(),
                    Some(n) => ProtectiveMBR::with_lb_size(n),
                });
                keep(r, &mut mk)
            }
            "from" => {
                let mut dev = dev.take().expect("device");
                let r = call(|| ProtectiveMBR::from_disk(&mut dev, lb(lbs)));
                keep(r, &mut mk)
            }
            "bytes" => {
                // a buffer of some length with or without signature
                let n = a.u("len", 512) as usize;
                let mut x: Vec<u8> = crate::dev::fill_chunk(a.u("seed", 1), 0)
                    .iter()
                    .copied()
                    .cycle()
                    .take(n)
                    .collect();
                if a.u("magic", 1) == 1 && n >= 512 {
                    x[510] = 0x55;
                    x[511] = 0xaa;
                } else if n >= 512 {
                    x[510 + a.u("bad", 0) as usize % 2] = 0;
                }
                args.put("len", w(n as u64));
                args.put("x", opt((n >= 512).then(|| view(&x))));
                let r = call(|| ProtectiveMBR::from_bytes(&x, lb(lbs)));
                keep(r, &mut mk)
            }
            "setboot" => {
                let x = seeded(a.u("seed", 1));
                args.put("boot", bdig(&x));
                let obj = self.mbrs.get_mut(&m).expect("mbr");
                pure(|| {
                    obj.set_bootcode(x);
                })
            }
            "setsig" => {
                let mut x = [0u8; 4];
                x.copy_from_slice(&unhex(a.t("sig")));
                args.put("sig", s(a.t("sig")));
                let obj = self.mbrs.get_mut(&m).expect("mbr");
                pure(|| {
                    obj.set_disk_signature(x);
                })
            }
            "setpart" => {
                let i = a.u("i", 0) as usize;
                args.put("i", w(i as u64));
                args.put("rec", s(a.t("rec")));
                let obj = self.mbrs.get_mut(&m).expect("mbr");
                let r = pure(|| obj.set_partition(i, rec_of(a.t("rec"))));
                if let Some(Some(p)) = r.ok() {
                    val = arr([rec(p)]);
                }
                strip(r)
            }
            "over" | "cons" => {
                let mut dev = dev.take().expect("device");
                let obj = &self.mbrs[&m];
                let r = call(|| {
                    if sub == "over" {
                        obj.overwrite_lba0(&mut dev)
                    } else {
                        obj.update_conservative(&mut dev)
                    }
                });
                if let Some(n) = r.ok() {
                    val = arr([w(*n as u64)]);
                }
                strip(r)
            }
            "rdboot" => {
                let mut dev = dev.take().expect("device");
                let r = call(|| gpt::mbr::read_bootcode(&mut dev));
                if let Some(x) = r.ok() {
                    val = arr([bdig(x)]);
                }
                strip(r)
            }
            "wrboot" => {
                let mut dev = dev.take().expect("device");
                let x = seeded(a.u("seed", 1));
                args.put("boot", bdig(&x));
                call(|| gpt::mbr::write_bootcode(&mut dev, &x))
            }
            "rdsig" => {
                let mut dev = dev.take().expect("device");
                let r = call(|| gpt::mbr::read_disk_signature(&mut dev));
                if let Some(x) = r.ok() {
                    val = arr([s(&hex(x))]);
                }
                strip(r)
            }
            "wrsig" => {
                let mut dev = dev.take().expect("device");
                let mut x = [0u8; 4];
                x.copy_from_slice(&unhex(a.t("sig")));
                args.put("sig", s(a.t("sig")));
                call(|| gpt::mbr::write_disk_signature(&mut dev, &x))
            }
            "prec" => {
                let x = unhex(a.t("rec"));
                args.put("rec", s(a.t("rec")));
                args.put("len", w(x.len() as u64));
                let r = call(|| PartRecord::from_bytes(&x));
                if let Some(p) = r.ok() {
                    val = arr([rec(p), s(&hex(&p.to_bytes()))]);
                }
                strip(r)
            }
            _ => panic!("unknown mbr command {sub}"),
        };
        if let Some(x) = mk {
            self.mbrs.insert(m.clone(), x);
        }
        o.put("a", args.done());
        o.put("r", r.js());
        o.put("v", val);
        o.put("m1", opt(self.mbrs.get(&m).map(obj)));
        if !d.is_empty() {
            let x = self.sim(&d);
            let mut i = x.0.borrow_mut();
            i.fault_at = None;
            o.put("hit", arr(i.fault_hit.iter().map(|x| s(x))));
            o.put("pos0", w(pos0));
            o.put("pos1", w(i.pos));
            o.put("blk1", opt(i.peek(0, 512).map(|x| view(&x))));
            o.put("chg", runs_js(&i.changed(1)));
            o.put("unfl", b(i.unflushed));
            o.put("len0", w(len0));
            o.put("len1", w(i.size));
        }
    }
}

fn keep(r: R<ProtectiveMBR>, to: &mut Option<ProtectiveMBR>) -> R<()> {
    match r {
        R::Ok(x) => {
            *to = Some(x);
            R::Ok(())
        }
        r => strip(r),
    }
}

fn strip<T>(r: R<T>) -> R<()> {
    match r {
        R::Ok(_) => R::Ok(()),
        R::Err(e) => R::Err(e),
        R::Panic(m) => R::Panic(m),
    }
}

pub fn runs_js(r: &[(u64, u64)]) -> String {
    arr(r.iter().map(|(x, n)| format!("[{},{}]", w(*x), w(*n))))
}

/// the state of a disk object as its accessors show it
pub fn st_js<D>(d: &GptDisk<D>) -> String {
    let h = |r: Result<&Header, gpt::header::HeaderError>| match r {
        Ok(h) => hdr_js(h),
        Err(e) => Obj::new().f("ok", b(false)).f("err", s(&kind(&e))).done(),
    };
    Obj::new()
        .f("g", s(&simple(d.guid())))
        .f("p", h(d.primary_header()))
        .f("b", h(d.backup_header()))
        .f("parts", ents_js(&ents(d.partitions())))
        .f("lbs", d.logical_block_size().as_u64().to_string())
        .done()
}

/// what the queries answer
pub fn obs_js<D: gpt::DiskDevice>(d: &GptDisk<D>) -> String {
    let free = pure(|| d.find_free_sectors());
    let nid = pure(|| d.find_next_partition_id());
    let al = pure(|| d.calculate_alignment());
    let hd = pure(|| d.header().current_lba);
    Obj::new()
        .f("free", free.js())
        .f("freev", free.ok().map_or("[]".into(), |f| runs_js(f)))
        .f("nid", nid.js())
        .f("nidv", opt(nid.ok().and_then(|x| x.map(w))))
        .f("al", al.js())
        .f("alv", al.ok().map_or("[]".into(), |x| w(*x)))
        .f("hd", hd.js())
        .f("hdv", hd.ok().map_or("[]".into(), |x| w(*x)))
        .done()
}

fn arith(a: &Args, o: &mut Obj) {
    let lbs = a.u("lbs", 512);
    let mut p = Partition::zero();
    p.first_lba = a.u("f", 0);
    p.last_lba = a.u("l", 0);
    o.put("lbs", lbs.to_string());
    o.put("f", w(p.first_lba));
    o.put("l", w(p.last_lba));
    let sl = call(|| p.sectors_len());
    let bl = call(|| p.bytes_len(lb(lbs)));
    let bs = call(|| p.bytes_start(lb(lbs)));
    for (k, r) in [("sl", sl), ("bl", bl), ("bs", bs)] {
        o.put(
            k,
            Obj::new()
                .f("r", r.js())
                .f("v", opt(r.ok().map(|x| w(*x))))
                .done(),
        );
    }
}

/// a number as a block size
fn block_size(a: &Args, o: &mut Obj) {
    let n = a.u("n", 0);
    o.put("n", w(n));
    let r = call(|| LogicalBlockSize::try_from(n));
    o.put("r", r.js());
    o.put(
        "v",
        opt(r.ok().map(|x| {
            let all = [
                x.as_u64(),
                x.as_usize() as u64,
                u64::from(*x),
                usize::from(*x) as u64,
            ];
            arr(all
                .iter()
                .map(|x| w(*x))
                .chain([s(&x.to_string()), s(&n.to_string())]))
        })),
    );
}

/// flags as attributes
fn attrs(a: &Args, o: &mut Obj) {
    use gpt::partition::PartitionAttributes as A;
    let n = a.u("n", 0);
    let x = A::from_bits_truncate(n);
    // which of the lowest bits are set, and what the attributes say
    o.put("low", arr((0..3).map(|i| b(n >> i & 1 == 1).to_string())));
    o.put(
        "has",
        arr([A::PLATFORM, A::EFI, A::BOOTABLE]
            .iter()
            .map(|k| b(x.bits() & k.bits() != 0).to_string())),
    );
    o.put("n", w(n));
    o.put("bits", w(x.bits()));
}

fn types(a: &Args, o: &mut Obj) {
    let text = String::from_utf8(unhex(a.t("in"))).expect("utf8");
    let by = a.t("by");
    o.put("by", s(by));
    o.put("in", s(&text));
    o.put("up", s(&text.to_ascii_uppercase()));
    // the guid this text spells in one of the accepted notations, by an independent reader
    let g = spelled_guid(&text);
    o.put("g", opt(g.clone().map(|g| s(&g))));
    let r = match by {
        "name" => call(|| Type::from_name(&text)),
        "str" => call(|| Type::from_str(&text)),
        "const" => pure(|| {
            let x = crate::types_table::table();
            x.into_iter().find(|x| x.0 == text).expect("constant").3
        }),
        "uuid" => {
            let u = Uuid::parse_str(&g.expect("guid")).expect("guid");
            pure(|| Type::from(u))
        }
        "os" => call(|| {
            OperatingSystem::from_str(&text).map(|os| Type {
                guid: Uuid::nil(),
                os,
            })
        }),
        "default" => pure(Type::default),
        _ => panic!("type by {by}"),
    };
    o.put("r", r.js());
    o.put(
        "v",
        opt(r.ok().map(|t| {
            Obj::new()
                .f("t", s(&simple(&t.guid)))
                .f("os", s(&format!("{:?}", t.os)))
                .done()
        })),
    );
}

fn spelled_guid(t: &str) -> Option<String> {
    let t = t.to_ascii_lowercase();
    let h = |x: &str, hy: bool| -> Option<String> {
        let x = x.to_string();
        let ok = if hy {
            x.len() == 36
                && x.char_indices().all(|(i, c)| {
                    if matches!(i, 8 | 13 | 18 | 23) {
                        c == '-'
                    } else {
                        c.is_ascii_hexdigit()
                    }
                })
        } else {
            x.len() == 32 && x.chars().all(|c| c.is_ascii_hexdigit())
        };
        ok.then(|| x.replace('-', ""))
    };
    let inner = match t.strip_prefix("urn:uuid:") {
        Some(x) => Some(x),
        None => t.strip_prefix('{').and_then(|x| x.strip_suffix('}')),
    };
    match inner {
        Some(x) => h(x, true),
        None => h(&t, true).or_else(|| h(&t, false)),
    }
}

/// used by the drivers to look at a handle
impl World {
    pub fn peek_disk<T>(
        &self,
        h: &str,
        f: impl FnOnce(&BTreeMap<u32, Partition>, &Header) -> T,
    ) -> Option<T> {
        let d = self.disks.get(h)?;
        Some(on!(d, x => f(x.partitions(), x.header())))
    }
    pub fn peek_align(&self, h: &str) -> Option<u64> {
        let d = self.disks.get(h)?;
        pure(|| on!(d, x => x.calculate_alignment())).ok().copied()
    }
    pub fn peek_guid(&self, h: &str) -> Option<String> {
        self.disks.get(h).map(|d| on!(d, x => simple(x.guid())))
    }
    pub fn peek_ents(&self, h: &str) -> Vec<Ent> {
        self.disks
            .get(h)
            .map_or(vec![], |d| on!(d, x => ents(x.partitions())))
    }
}

pub fn table_of(d: &GptDisk<SimDev>) -> String {
    decode::table_digest(&simple(d.guid()), &ents(d.partitions()))
}

pub fn open_image(i: Inner, lbs: u64) -> R<String> {
    call(|| {
        GptConfig::new()
            .logical_block_size(lb(lbs))
            .open_from_device(SimDev::new(i))
            .map(|d| table_of(&d))
    })
}

impl R<String> {
    pub fn text(self) -> String {
        match self {
            R::Ok(t) => t,
            R::Err(e) => format!("err:{e}"),
            R::Panic(_) => "panic".into(),
        }
    }
}

pub type Log = [LogOp];
