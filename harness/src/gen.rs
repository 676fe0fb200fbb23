//! Drivers: histories of operations for the executor. They choose inputs, they judge nothing.

use crate::decode::Ent;
use crate::js::hex;
use crate::types_table::table;
use crate::world::part_str;
use crate::Sink;
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! say {
    ($g:expr, $($a:tt)*) => {{
        let l = format!($($a)*);
        $g.s(l)
    }};
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    fn next(&mut self) -> u64 {
        // splitmix
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn n(&mut self, k: u64) -> u64 {
        self.next() % k.max(1)
    }
    fn p(&mut self, pct: u64) -> bool {
        self.n(100) < pct
    }
    fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.n(v.len() as u64) as usize].clone()
    }
    /// one to set, now and then one of no use
    fn own_guid(&mut self) -> String {
        if self.p(10) {
            NIL.into()
        } else {
            self.guid()
        }
    }
    fn guid(&mut self) -> String {
        match self.n(120) {
            0 | 1 => return NIL.into(),
            2 => return "ffffffffffffffffffffffffffffffff".into(),
            _ => {}
        }
        format!("{:016x}{:016x}", self.next(), self.next())
    }
}

const NIL: &str = "00000000000000000000000000000000";

pub fn run(family: &str, seed: u64, scale: u64, k: &mut Sink) {
    let mut g = Gen {
        k,
        r: Rng::new(seed ^ crate::js::fnv(1, family.as_bytes())),
        fam: family.to_string(),
        n: 0,
        prep: vec![],
    };
    match family {
        "api" => g.many(scale, |g| g.api(24)),
        "grow" => g.many(scale, |g| g.grow()),
        "wide" => g.many(scale, |g| g.wide()),
        "rob" => g.many(scale, |g| g.rob()),
        "retarget" => g.many(scale, |g| g.retarget()),
        "again" => g.many(scale, |g| g.again()),
        "corrupt" => g.corrupt(scale),
        "hostile" => {
            g.many(scale, |g| g.hostile());
            // an array larger than the memory
            g.begin();
            g.s(format!("dev d {} fill=0", 1u64 << 33));
            g.s(format!("sethdr d 1 np={} fu={} lu={} bak={}", 1 << 22, (1 << 20) + 2, (1 << 24) - 100, (1 << 24) - 1));
            g.s("open h d lbs=512");
        }
        "fault" => g.many(scale, |g| g.fault()),
        "short" => g.many(scale, |g| g.short()),
        "crash" => g.many(scale, |g| g.crash("d")),
        "fcrash" => g.many(scale, |g| g.crash("F")),
        "files" => g.many(scale, |g| g.files()),
        "free" => g.many(scale, |g| g.free()),
        "counts" => g.many(scale, |g| g.counts()),
        "names" => g.many(scale, |g| g.names()),
        "hb" => g.builder(scale),
        "help" => g.many(scale, |g| g.help()),
        "mbr" => g.many(scale, |g| g.mbr()),
        "arith" => g.arith(scale),
        "types" => g.types(scale),
        x => panic!("unknown family {x}"),
    }
}

/// texts for operating systems, known and unknown
const OS_TEXTS: [&str; 40] = [
    "unused", "android", "atari", "Ceph", "Chrome", "DragonFlyBsd", "FreeBsd", "FreeDesktop",
    "Haiku", "HP-UX", "Linux", "MacOS", "MidnightBsd", "Onie", "PowerPc", "Solaris Illumos",
    "None", "Android", "Atari", "CoreOs", "Custom", "HpUnix", "MacOs", "NetBsd", "OpenBsd",
    "Plan9", "Solaris", "VmWare", "Windows", "QNX", "ChromeOS", "HP UX", "Solaris_Illumos",
    "Freebsd", "DragonFlyBSD", "unknown", "custom", "macOS", "Power", "LinuxFs",
];

struct Gen<'a> {
    k: &'a mut Sink,
    r: Rng,
    fam: String,
    n: u64,
    prep: Vec<String>,
}

#[derive(Clone)]
struct Geo {
    lbs: u64,
    bytes: u64,
}
impl Geo {
    fn nb(&self) -> u64 {
        self.bytes / self.lbs
    }
}

#[derive(Clone, Copy, Default)]
struct Opt {
    wr: bool,
    ov: bool,
    rob: bool,
    cpc: bool,
}
impl Opt {
    fn text(self, lbs: u64) -> String {
        format!(
            "lbs={lbs} wr={} ov={} rob={} cpc={}",
            self.wr as u8, self.ov as u8, self.rob as u8, self.cpc as u8
        )
    }
}

impl Gen<'_> {
    fn many(&mut self, n: u64, f: impl Fn(&mut Self)) {
        for _ in 0..n {
            self.begin();
            let me = AssertUnwindSafe(&mut *self);
            let done = catch_unwind(AssertUnwindSafe(|| {
                let me = me;
                f(me.0)
            }));
            if let Err(p) = done {
                self.k.abandon(crate::message(&*p));
            }
        }
    }
    fn begin(&mut self) {
        self.n += 1;
        let l = format!("begin {}{}", self.fam, self.n);
        self.k.step(&l);
        self.prep.clear();
    }
    fn s(&mut self, l: impl AsRef<str>) {
        self.k.step(l.as_ref());
    }
    fn has(&self, h: &str) -> bool {
        self.k.world.disks.contains_key(h)
    }
    fn ents(&self, h: &str) -> Vec<Ent> {
        self.k.world.peek_ents(h)
    }
    fn hdr(&self, h: &str) -> Option<(u64, u64, u64)> {
        self.k.world.peek_disk(h, |_, x| {
            (x.first_usable, x.last_usable, u64::from(x.num_parts))
        })
    }
    fn ops(&self, d: &str) -> u64 {
        self.k.world.devs[d].0.borrow().ops
    }
    fn size(&self, d: &str) -> u64 {
        match self.k.world.files.get(d) {
            Some(p) => std::fs::metadata(p).expect("scratch").len(),
            None => self.k.world.devs[d].0.borrow().size,
        }
    }

    fn lbs(&mut self) -> u64 {
        if self.r.p(65) {
            512
        } else {
            4096
        }
    }
    fn geo(&mut self) -> Geo {
        let lbs = self.lbs();
        let min = if lbs == 512 { 68 } else { 12 };
        let nb = match self.r.n(20) {
            0..=6 => min + self.r.n(12),
            7..=11 => min + 20 + self.r.n(200),
            12..=14 => 2048 + self.r.n(4000),
            15 => (1 << 20) + self.r.n(1 << 20),
            16 => (1 << 33) + self.r.n(1 << 33),
            17 => (1 << 44) + self.r.n(1 << 40),
            18 => (1 << 50) - self.r.n(100),
            _ => min - 1 - self.r.n(3),
        };
        let extra = if self.r.p(30) { self.r.n(lbs) } else { 0 };
        Geo {
            lbs,
            bytes: nb * lbs + extra,
        }
    }
    /// small, but large enough
    fn small(&mut self) -> Geo {
        let lbs = self.lbs();
        let min = if lbs == 512 { 68 } else { 12 };
        let nb = min + self.r.n(60);
        let extra = if self.r.p(30) { self.r.n(lbs) } else { 0 };
        Geo {
            lbs,
            bytes: nb * lbs + extra,
        }
    }
    fn opt(&mut self) -> Opt {
        Opt {
            wr: self.r.p(88),
            ov: self.r.p(12),
            rob: self.r.p(15),
            cpc: self.r.p(50),
        }
    }
    fn dev(&mut self, d: &str, g: &Geo) {
        let fill = if self.r.p(60) { 1 + self.r.n(1000) } else { 0 };
        let fixed = self.r.p(50) as u8;
        say!(self, "dev {d} {} fill={fill} fixed={fixed}", g.bytes);
    }

    fn name(&mut self) -> String {
        let t: String = match self.r.n(14) {
            0 => String::new(),
            1 => "a".into(),
            2 => "EFI system partition".into(),
            3 => "x".repeat(35),
            4 => "y".repeat(36),
            5 => "z".repeat(37),
            6 => "long ".repeat(20),
            7 => format!("{}\u{1F600}", "p".repeat(35)),
            8 => format!("{}\u{1F600}tail", "q".repeat(34)),
            9 => "\u{65e5}\u{672c}\u{8a9e} \u{00e4}\u{1F4BE}".into(),
            10 => "\u{1F4BE}".repeat(18 + self.r.n(3) as usize),
            11 | 12 => {
                // text which a reader or a writer might trim, fold, or take for something else
                let odd = [
                    " ", "  ", "\t", "\n", "\r\n", "\0", "\0\0", "\u{1}", "\u{7f}", "\u{85}", "\u{a0}",
                    "\u{feff}", "\u{fffe}", "\u{ffff}", "\u{fffd}", "\u{2028}", "\u{3000}", "e\u{301}",
                    "\u{e9}", "\u{df}", "\u{130}", "\u{10000}", "\u{10ffff}", "\u{d7ff}", "\u{e000}",
                    "\u{200d}", "a", "B", "/", "\\", "\"", "%", "boot",
                ];
                let n = 1 + self.r.n(4);
                let mut t = String::new();
                for _ in 0..n {
                    t.push_str(odd[self.r.n(odd.len() as u64) as usize]);
                }
                if self.r.p(20) {
                    let pad = 36usize.saturating_sub(t.encode_utf16().count());
                    t = format!("{}{t}", "w".repeat(pad + self.r.n(2) as usize));
                }
                t
            }
            _ => {
                let n = self.r.n(40) as usize;
                (0..n)
                    .map(|_| {
                        let c = match self.r.n(4) {
                            0 => 0x20 + self.r.n(0x5f) as u32,
                            1 => 0x80 + self.r.n(0x700) as u32,
                            2 => 0xe000 + self.r.n(0x1fff) as u32,
                            _ => 0x10000 + self.r.n(0x10_0000 - 1) as u32,
                        };
                        char::from_u32(c).unwrap_or('?')
                    })
                    .collect()
            }
        };
        hex(t.as_bytes())
    }
    /// a type, sometimes with the name of a system the table does not have for it
    fn odd(&mut self, t: String, pct: u64) -> String {
        if self.r.p(pct) {
            format!("{t}!{}", self.r.n(6))
        } else {
            t
        }
    }
    fn ty(&mut self) -> String {
        let t = self.some_ty();
        self.odd(t, 6)
    }
    fn some_ty(&mut self) -> String {
        match self.r.n(10) {
            0..=5 => {
                let t = table();
                let i = 1 + self.r.n(t.len() as u64 - 1) as usize;
                t[i].0.into()
            }
            6 if self.r.p(30) => NIL.into(),
            _ => self.r.guid(),
        }
    }
    fn tguid(&mut self) -> String {
        match self.r.n(10) {
            0..=5 => {
                let t = table();
                let i = 1 + self.r.n(t.len() as u64 - 1) as usize;
                t[i].1.replace('-', "").to_lowercase()
            }
            6 => NIL.into(),
            _ => self.r.guid(),
        }
    }
    fn flags(&mut self) -> u64 {
        match self.r.n(6) {
            0 | 1 => 0,
            2 => 1 << self.r.n(64),
            3 => u64::MAX,
            4 => 1 << 63 | 1,
            _ => self.r.next(),
        }
    }

    /// interesting blocks of a disk
    fn lba(&mut self, h: &str) -> u64 {
        let mut v = vec![0, 1, 2, 33, 34];
        if let Some((fu, lu, _)) = self.hdr(h) {
            v.extend([
                fu,
                lu,
                fu,
                lu,
                fu.wrapping_sub(1),
                lu.wrapping_add(1),
                fu.wrapping_add(1),
            ]);
            if fu <= lu {
                for _ in 0..3 {
                    let span = (lu - fu).saturating_add(1);
                    v.push(fu + self.r.n(span));
                    v.push(fu + self.r.n(span.min(20)));
                }
            }
        }
        for e in self.ents(h) {
            v.extend([
                e.f,
                e.l,
                e.f.wrapping_sub(1),
                e.l.wrapping_add(1),
                e.l.wrapping_add(1),
            ]);
        }
        if self.r.p(6) {
            v = vec![u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32];
        }
        self.r.pick(&v)
    }
    fn length(&mut self, h: &str, from: u64) -> u64 {
        if self.r.p(50) {
            return 1 + self.r.n(4);
        }
        let to = self.lba(h);
        match self.r.n(4) {
            0 if to > from => to - from,
            1 if to >= from => (to - from).saturating_add(1),
            2 if to > from => (to - from).saturating_sub(1).max(1),
            _ if self.r.p(15) => self
                .r
                .pick(&[u64::MAX, u64::MAX - from, 1 << 63, u64::MAX - 1])
                .max(1),
            _ => 1 + self.r.n(12),
        }
    }
    /// the length of some free run, in blocks
    fn run_len(&mut self, h: &str) -> u64 {
        let Some((fu, lu, _)) = self.hdr(h) else {
            return 1;
        };
        let mut edges: Vec<u64> = self.ents(h).iter().flat_map(|e| [e.f, e.l]).collect();
        edges.push(fu);
        edges.push(lu.saturating_add(1));
        edges.sort_unstable();
        let i = self.r.n(edges.len() as u64 - 1) as usize;
        let n = edges[i + 1].saturating_sub(edges[i]);
        match self.r.n(4) {
            0 => n.saturating_sub(1),
            1 => n.saturating_add(1),
            _ => n,
        }
        .max(1)
    }
    fn id(&mut self, h: &str) -> u64 {
        let np = self.hdr(h).map_or(128, |x| x.2);
        let mut v = vec![1, 2, 3, 5, 127, 128, np, np.saturating_sub(1).max(1)];
        v.extend(self.ents(h).iter().flat_map(|e| [e.id, e.id + 1]));
        if self.r.p(20) {
            v = vec![np + 1, 129, 130, 200, 1 + self.r.n(300)];
        }
        self.r.pick(&v).clamp(1, u64::from(u32::MAX))
    }

    fn add(&mut self, h: &str, lbs: u64) {
        let n = if self.r.p(40) {
            self.run_len(h)
        } else {
            1 + self.r.n(6)
        };
        let size = match self.r.n(8) {
            0 => n.saturating_mul(lbs).saturating_sub(lbs - 1).max(1),
            1 => n.saturating_mul(lbs).saturating_sub(1).max(1),
            2 => n.saturating_mul(lbs).saturating_add(1),
            3 if self.r.p(25) => 0,
            3 if self.r.p(20) => self
                .r
                .pick(&[u64::MAX, u64::MAX - 1, 1 << 63, u64::MAX / lbs]),
            _ => n.saturating_mul(lbs),
        };
        let al = match self.r.n(14) {
            0..=4 => "-".to_string(),
            // what the disk reports as its alignment
            12 | 13 => self.k.world.peek_align(h).unwrap_or(1).to_string(),
            5 => "0".into(),
            6 => "1".into(),
            7 => self.r.pick(&[2u64, 3, 4, 5, 7, 8]).to_string(),
            8 => self.r.pick(&[16u64, 64, 2048, 4096]).to_string(),
            9 => self.lba(h).to_string(),
            10 => self
                .r
                .pick(&[1u64 << 40, u64::MAX, u64::MAX - 1, 1 << 63])
                .to_string(),
            _ => (1 + self.r.n(30)).to_string(),
        };
        let (t, a, nm) = (self.ty(), self.flags(), self.name());
        say!(self, "add {h} size={size} t={t} a={a} n={nm} al={al}");
    }
    fn addat(&mut self, h: &str) {
        let f = self.lba(h);
        let len = self.length(h, f);
        let id = self.id(h);
        let (id, len) = match self.r.n(60) {
            0 => (0, len),
            1 => (id, 0),
            _ => (id, len),
        };
        let (t, a, nm) = (self.ty(), self.flags(), self.name());
        say!(self, "addat {h} id={id} f={f} len={len} t={t} a={a} n={nm}");
    }
    fn rm(&mut self, h: &str) {
        let e = self.ents(h);
        let pick = if e.is_empty() {
            None
        } else {
            Some(self.r.pick(&e))
        };
        match (self.r.n(6), pick) {
            (0..=2, Some(e)) => say!(self, "rm {h} id={}", e.id),
            (3 | 4, Some(e)) => say!(self, "rmg {h} g={}", e.u),
            (5, _) => {
                let g = self.r.guid();
                say!(self, "rmg {h} g={g}");
            }
            _ => {
                let id = self.id(h);
                let id = if self.r.p(20) { 0 } else { id };
                say!(self, "rm {h} id={id}");
            }
        }
    }
    /// some entry for a supplied map
    fn part(&mut self, h: &str, id: u64) -> String {
        let (a, b) = (self.lba(h), self.lba(h));
        let (f, l) = match self.r.n(10) {
            0 => (a, b),
            1..=3 => (a, a),
            _ => (a.min(b), a.max(b)),
        };
        let es = self.ents(h);
        let u = if self.r.p(20) && !es.is_empty() {
            self.r.pick(&es).u
        } else if self.r.p(5) {
            NIL.into()
        } else {
            self.r.guid()
        };
        let t = self.tguid();
        let t = self.odd(t, 8);
        let (fl, n) = (self.flags(), self.name());
        format!("{id}/{t}/{u}/{f}/{l}/{fl}/{n}")
    }
    fn upd(&mut self, h: &str) {
        let e = self.ents(h);
        match self.r.n(6) {
            // exactly as it is
            0 => say!(self, "upd {h} base=1"),
            1 if !e.is_empty() => {
                // without one
                let d = self.r.pick(&e).id;
                say!(self, "upd {h} base=1 del={d}");
            }
            2 if !e.is_empty() => {
                // one in two: an entry copied to another number, or marked unused
                let mut x = self.r.pick(&e);
                if self.r.p(40) {
                    x.t = self.odd(NIL.into(), 30);
                } else {
                    x.id = self.id(h);
                }
                say!(self, "upd {h} base=1 set={}", part_str(&x));
            }
            _ => {
                let n = self.r.n(5);
                let mut set: Vec<String> = (0..n)
                    .map(|_| {
                        let id = self.id(h);
                        self.part(h, id)
                    })
                    .collect();
                // a number no partition has
                if self.r.p(6) {
                    set.push(self.part(h, 0));
                }
                let base = self.r.p(50) as u8;
                say!(self, "upd {h} base={base} set={}", set.join(";"));
            }
        }
    }
    fn setg(&mut self, h: &str) {
        let g = if self.r.p(20) {
            "-".into()
        } else {
            self.r.own_guid()
        };
        say!(self, "setg {h} g={g}");
    }
    fn can_write(&self, h: &str) -> bool {
        self.hdr(h).is_some_and(|x| x.2 <= 5000)
    }
    fn write(&mut self, h: &str, more: &str) {
        if self.can_write(h) {
            say!(self, "write {h} {more}");
        }
    }
    fn edit(&mut self, h: &str, lbs: u64) {
        match self.r.n(20) {
            0..=6 => self.add(h, lbs),
            7..=11 => self.addat(h),
            12..=14 => self.rm(h),
            15..=17 => self.upd(h),
            18 => self.setg(h),
            _ => {
                if self.r.p(30) {
                    say!(self, "take {h}");
                } else {
                    say!(self, "q {h}");
                }
            }
        }
    }
    /// an edit that keeps a sane, non overlapping table
    fn sane(&mut self, h: &str, lbs: u64) {
        match self.r.n(10) {
            0..=5 => {
                let n = 1 + self.r.n(4);
                let (t, a, nm) = (self.ty(), self.flags(), self.name());
                say!(self, "add {h} size={} t={t} a={a} n={nm}", n * lbs);
            }
            6 | 7 => self.rm(h),
            8 => self.setg(h),
            _ => {
                let id = self.id(h).min(128);
                let f = self.lba(h);
                let (t, a, nm) = (self.ty(), self.flags(), self.name());
                say!(self, "addat {h} id={id} f={f} len=1 t={t} a={a} n={nm}");
            }
        }
    }
    fn reopen(&mut self, h: &str, d: &str, lbs: u64, o: Opt) {
        let f = if d == "F" { "f" } else { "" };
        say!(self, "{f}open {h} {d} {}", o.text(lbs));
    }

    // ---------------------------------------------------------------- families

    fn api(&mut self, steps: u64) {
        let g = self.geo();
        let lbs = g.lbs;
        self.dev("d", &g);
        let o = self.opt();
        let gg = if self.r.p(30) {
            "-".into()
        } else {
            self.r.guid()
        };
        say!(self, "create h d {} g={gg}", o.text(lbs));
        let mut o = o;
        for _ in 0..steps {
            if !self.has("h") {
                // nothing to work on
                self.reopen("h", "d", lbs, o);
                if !self.has("h") {
                    let gg = self.r.guid();
                    say!(self, "create h d {} g={gg}", o.text(lbs));
                }
                if !self.has("h") {
                    return;
                }
            }
            match self.r.n(30) {
                0..=20 => self.edit("h", lbs),
                21..=24 => {
                    self.write("h", "");
                    if self.r.p(60) {
                        let ov = Opt {
                            ov: self.r.p(50),
                            ..Opt::default()
                        };
                        self.reopen("r", "d", lbs, ov);
                        if self.has("r") {
                            self.s("drop r");
                        }
                    }
                }
                25 if self.can_write("h") => {
                    self.s("writec h");
                    o = self.opt();
                    self.reopen("h", "d", lbs, o);
                }
                26 => {
                    // reopen with other options
                    o = self.opt();
                    self.reopen("h", "d", lbs, o);
                }
                27 => {
                    if self.r.p(50) {
                        self.s("clone h c e");
                        self.edit("c", lbs);
                        self.edit("h", lbs);
                        if self.r.p(50) {
                            self.write("c", "");
                            self.reopen("r", "e", lbs, Opt::default());
                        }
                        self.s("drop c");
                    } else {
                        self.s("takedev h");
                    }
                }
                28 => {
                    // another size
                    let nb = self.size("d") / lbs;
                    let nb2 = match self.r.n(4) {
                        0 => nb + 1 + self.r.n(50),
                        1 => nb.saturating_sub(1 + self.r.n(3)),
                        2 => nb + 4096,
                        _ => nb,
                    };
                    let extra = self.r.n(lbs);
                    say!(self, "resize d {}", nb2 * lbs + extra);
                }
                _ => {
                    // damage something
                    let nb = self.size("d") / lbs;
                    let x = self
                        .r
                        .pick(&[1, 2, nb.saturating_sub(1), nb.saturating_sub(2)]);
                    let off = x * lbs + self.r.n(92);
                    if off < self.size("d") {
                        let v = 1 + self.r.n(255);
                        say!(self, "flip d {off} {v}");
                    }
                }
            }
        }
    }

    /// numbers that need more than a few bits
    fn wide(&mut self) {
        let lbs = self.lbs();
        let id = self.r.pick(&[
            4095u64, 4096, 4097, 8192, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 65537,
        ]);
        let arr = ((id + 2) * 128).div_ceil(lbs);
        let nb = 3 + 2 * arr + 40;
        self.dev("d", &Geo { lbs, bytes: nb * lbs });
        let o = Opt {
            wr: true,
            cpc: true,
            ..Opt::default()
        };
        let gg = self.r.guid();
        say!(self, "create h d {} g={gg}", o.text(lbs));
        let f = 2 + arr + self.r.n(20);
        for (i, x) in [1, id, 255 + self.r.n(3)].iter().enumerate() {
            let (t, a, n) = (self.ty(), self.flags(), self.name());
            say!(self, "addat h id={x} f={} len=1 t={t} a={a} n={n}", f + i as u64);
        }
        self.s("write h");
        self.reopen("h", "d", lbs, o);
        if self.has("h") {
            let more = id + self.r.n(2);
            say!(self, "rm h id={id}");
            say!(self, "addat h id={more} f={} len=2 t=EFI n=6f", f + 5);
            if self.r.p(40) {
                self.s("write h");
            }
            if self.r.p(50) {
                say!(self, "flip d {} 4", self.r.pick(&[lbs, (nb - 1) * lbs]));
            }
            self.reopen("r", "d", lbs, Opt { cpc: false, ..o });
        }
    }

    fn grow(&mut self) {
        if self.r.p(2) {
            return self.wide();
        }
        let lbs = self.lbs();
        let nb = match self.r.n(4) {
            0 => {
                if lbs == 512 {
                    68 + self.r.n(6)
                } else {
                    12 + self.r.n(4)
                }
            }
            1 => 300 + self.r.n(300),
            _ => 5000 + self.r.n(20000),
        };
        let g = Geo {
            lbs,
            bytes: nb * lbs,
        };
        self.dev("d", &g);
        let o = Opt {
            wr: true,
            cpc: self.r.p(75),
            rob: self.r.p(15),
            ov: false,
        };
        let gg = self.r.guid();
        say!(self, "create h d {} g={gg}", o.text(lbs));
        if !self.has("h") {
            return;
        }
        let Some((fu, lu, _)) = self.hdr("h") else {
            return;
        };
        // keep away from the edges of the usable range, most of the time
        let far = self.r.p(70);
        match self.r.n(3) {
            // dense
            0 => {
                let full = 126 + self.r.n(4);
                let at = if far && lu > fu + 1000 { fu + 500 } else { fu };
                // some slots may be listed but unused, others left out
                let (unused, out) = self
                    .r
                    .pick(&[(0u64, 0u64), (0, 0), (2, 0), (0, 2), (3, 3), (40, 0)]);
                let set: Vec<String> = (1..=full)
                    .filter_map(|i| {
                        let u = self.r.guid();
                        let b = at + (i - 1).min(lu.saturating_sub(at));
                        if self.r.n(128) < out {
                            return None;
                        }
                        let t = if self.r.n(128) < unused {
                            "00000000000000000000000000000000"
                        } else {
                            "0fc63daf848347728e793d69d8477de4"
                        };
                        Some(format!("{i}/{t}/{u}/{b}/{b}/0/6e"))
                    })
                    .collect();
                say!(self, "upd h set={}", set.join(";"));
                if self.r.p(50) {
                    self.write("h", "");
                }
                for _ in 0..1 + self.r.n(3) {
                    if self.r.p(70) {
                        say!(self, "add h size={lbs} t=LINUX_FS n=67");
                    } else {
                        self.addat("h");
                    }
                }
            }
            // sparse
            _ => {
                for _ in 0..1 + self.r.n(3) {
                    let id = self.r.pick(&[
                        1u64, 2, 100, 127, 128, 129, 130, 132, 133, 160, 256, 257, 500, 1000, 3000,
                    ]);
                    let f = if far && lu > fu + 1000 {
                        fu + 600 + self.r.n((lu - fu).saturating_sub(1200).max(1))
                    } else {
                        self.lba("h")
                    };
                    if self.r.p(60) {
                        let (t, nm) = (self.ty(), self.name());
                        say!(
                            self,
                            "addat h id={id} f={f} len={} t={t} n={nm}",
                            1 + self.r.n(2)
                        );
                    } else {
                        let p = format!(
                            "{id}/{}/{}/{f}/{}/0/70",
                            "0fc63daf848347728e793d69d8477de4",
                            self.r.guid(),
                            f.saturating_add(1)
                        );
                        say!(self, "upd h base=1 set={p}");
                    }
                }
            }
        }
        if self.can_write("h") {
            self.write("h", "");
            {
                let ov = self.r.p(50);
                self.reopen("r", "d", lbs, Opt { ov, ..o });
            }
        }
        // shrinking the map, after growth
        for _ in 0..2 + self.r.n(5) {
            match self.r.n(7) {
                0 | 1 => self.rm("h"),
                2 => self.upd("h"),
                3 => self.add("h", lbs),
                4 => self.setg("h"),
                5 => {
                    self.write("h", "");
                    let cpc = self.r.p(50);
                    self.reopen("h", "d", lbs, Opt { cpc, ..o });
                    if !self.has("h") {
                        return;
                    }
                }
                _ => {
                    let n = 127 + self.r.n(5);
                    let f = self.lba("h");
                    say!(self, "addat h id={n} f={f} len=1 t=EFI n=78");
                }
            }
        }
        self.write("h", "");
        self.reopen("r", "d", lbs, o);
    }

    /// disks with a backup that must not be written
    fn rob(&mut self) {
        let g = self.small();
        let lbs = g.lbs;
        self.dev("d", &g);
        let gg = self.r.guid();
        let o = Opt {
            wr: true,
            cpc: self.r.p(60),
            ..Opt::default()
        };
        if self.r.p(85) {
            // a complete disk to begin with
            say!(self, "create h d {} g={gg}", o.text(lbs));
            for _ in 0..self.r.n(4) {
                self.sane("h", lbs);
            }
            self.write("h", "");
        }
        let ro = Opt { rob: true, ..o };
        if self.r.p(30) {
            self.harm(lbs);
        }
        self.reopen("h", "d", lbs, ro);
        if !self.has("h") {
            say!(self, "create h d {} g={gg}", ro.text(lbs));
        }
        for _ in 0..2 + self.r.n(8) {
            if !self.has("h") {
                return;
            }
            match self.r.n(16) {
                0..=5 => self.sane("h", lbs),
                6 | 7 => self.edit("h", lbs),
                8..=10 => {
                    self.write("h", "");
                    if self.r.p(40) {
                        let ov = self.r.p(50);
                        self.reopen(
                            "r",
                            "d",
                            lbs,
                            Opt {
                                ov,
                                ..Opt::default()
                            },
                        );
                        if self.has("r") {
                            self.s("drop r");
                        }
                    }
                }
                11 => self.harm(lbs),
                12 => {
                    let ov = self.r.p(20);
                    self.reopen("h", "d", lbs, Opt { ov, ..ro });
                }
                13 => {
                    // another size, with the backup somewhere else then
                    let nb = self.size("d") / lbs;
                    let to = match self.r.n(3) {
                        0 => nb + 1 + self.r.n(50),
                        1 => nb.saturating_sub(1 + self.r.n(4)),
                        _ => self.r.n(nb),
                    };
                    let extra = self.r.n(lbs);
                    say!(self, "resize d {}", to * lbs + extra);
                }
                14 => {
                    // another device, which might hold a table already
                    let nb = g.nb();
                    let to = [nb, nb + 1 + self.r.n(9), nb - 1 - self.r.n(3), self.r.n(nb)]
                        [self.r.n(4) as usize];
                    self.dev(
                        "e",
                        &Geo {
                            lbs,
                            bytes: to * lbs,
                        },
                    );
                    if self.r.p(50) {
                        say!(self, "create o e {} g={}", o.text(lbs), "cd".repeat(16));
                        if self.has("o") {
                            self.write("o", "");
                            self.s("drop o");
                        }
                    }
                    if self.r.p(60) {
                        self.s("retgt h x e wr=1");
                        if self.r.p(40) {
                            self.edit("x", lbs);
                        }
                        self.write("x", "");
                        self.reopen("r", "e", lbs, Opt::default());
                        for h in ["x", "r"] {
                            if self.has(h) {
                                say!(self, "drop {h}");
                            }
                        }
                    } else {
                        self.s("clone h c e");
                        if self.has("c") {
                            self.edit("c", lbs);
                            self.write("c", "");
                            self.s("drop c");
                        }
                    }
                }
                _ => {
                    // a normal disk once more
                    self.reopen("n", "d", lbs, o);
                    if self.has("n") {
                        self.sane("n", lbs);
                        self.write("n", "");
                        self.s("drop n");
                        self.reopen("h", "d", lbs, ro);
                    }
                }
            }
        }
        self.write("h", "");
        self.reopen("r", "d", lbs, Opt::default());
    }
    /// damage a byte of a header or an array
    fn harm(&mut self, lbs: u64) {
        let nb = self.size("d") / lbs;
        let x = self
            .r
            .pick(&[1, 2, nb.saturating_sub(1), nb.saturating_sub(2)]);
        let off = x * lbs + self.r.n(92);
        if off < self.size("d") {
            let v = 1 + self.r.n(255);
            say!(self, "flip d {off} {v}");
        }
    }

    /// an edit that needs a larger table
    fn larger(&mut self, h: &str) {
        if self.has(h) && self.r.p(20) {
            let top = self.hdr(h).map_or(128, |x| x.2);
            let (id, f) = (top + 1 + self.r.n(4), self.lba(h));
            match self.r.n(3) {
                0 => {
                    let p = self.part(h, id);
                    say!(self, "upd {h} base=1 set={p}");
                }
                _ => say!(self, "addat {h} id={id} f={f} len=1 t=LINUX_FS n=63"),
            }
        }
    }

    fn retarget(&mut self) {
        let g = self.small();
        let lbs = g.lbs;
        self.dev("d", &g);
        let o = self.opt();
        let gg = self.r.guid();
        say!(self, "create h d {} g={gg}", o.text(lbs));
        for _ in 0..self.r.n(4) {
            self.sane("h", lbs);
        }
        if self.r.p(60) {
            self.write("h", "");
            if self.r.p(60) {
                let o = self.opt();
                self.reopen("h", "d", lbs, o);
            }
        }
        if !self.has("h") {
            return;
        }
        let nb = g.nb();
        for i in 0..3 {
            let to = match self.r.n(6) {
                0 => nb,
                1 => nb + 1 + self.r.n(3),
                2 => nb + 100 + self.r.n(5000),
                3 => nb - 1 - self.r.n(3),
                4 => self.r.n(nb),
                _ => nb,
            };
            let d2 = format!("e{i}");
            let extra = if self.r.p(30) { self.r.n(lbs) } else { 0 };
            self.dev(
                &d2,
                &Geo {
                    lbs,
                    bytes: to * lbs + extra,
                },
            );
            if self.r.p(25) {
                // the other device holds another table already
                say!(
                    self,
                    "create o {d2} {} g={}",
                    Opt { wr: true, ..o }.text(lbs),
                    "ab".repeat(16)
                );
                if self.has("o") {
                    say!(self, "add o size={lbs} t=LINUX_FS n=6f");
                    self.write("o", "");
                    self.s("drop o");
                }
            }
            let wr = self.r.p(85) as u8;
            match self.r.n(5) {
                0 | 1 => {
                    say!(self, "retgt h x {d2} wr={wr}");
                    if self.r.p(40) {
                        self.edit("x", lbs);
                    }
                    if self.r.p(40) {
                        self.edit("h", lbs);
                    }
                    self.larger("x");
                    self.write("x", "");
                    {
                        let ov = self.r.p(50);
                        self.reopen(
                            "r",
                            &d2,
                            lbs,
                            Opt {
                                ov,
                                ..Opt::default()
                            },
                        );
                    }
                    if self.r.p(40) {
                        self.edit("x", lbs);
                        self.write("x", "");
                    }
                    self.s("drop x");
                }
                2 | 3 => {
                    say!(self, "swap h {d2} wr={wr}");
                    if self.r.p(50) {
                        self.edit("h", lbs);
                    }
                    self.larger("h");
                    self.write("h", "");
                    self.reopen("r", &d2, lbs, Opt::default());
                    self.reopen("r", "d", lbs, Opt::default());
                }
                _ => {
                    say!(self, "clone h c k{i}");
                    self.edit("c", lbs);
                    self.edit("c", lbs);
                    self.larger("c");
                    self.write("c", "");
                    self.reopen("r", &format!("k{i}"), lbs, Opt::default());
                    self.edit("h", lbs);
                    self.write("h", "");
                    self.s("drop c");
                }
            }
        }
    }

    /// writes of what is on the device already: by the object that wrote it, by others, and
    /// of tables somebody else wrote
    fn again(&mut self) {
        let lbs = self.lbs();
        let min = if lbs == 512 { 68 } else { 12 };
        let nb = match self.r.n(6) {
            0 => min + self.r.n(4),
            1 => 5000 + self.r.n(3000),
            2 => (1 << 40) + self.r.n(1 << 20),
            _ => min + 40 + self.r.n(100),
        };
        let extra = if self.r.p(30) { self.r.n(lbs) } else { 0 };
        let g = Geo {
            lbs,
            bytes: nb * lbs + extra,
        };
        let o = Opt {
            wr: true,
            ov: self.r.p(20),
            rob: self.r.p(15),
            cpc: self.r.p(50),
        };
        if self.r.p(45) {
            say!(self, "dev d {} fill=0 fixed={}", g.bytes, self.r.n(2));
            self.foreign(lbs, nb);
            self.reopen("h", "d", lbs, o);
        } else {
            self.dev("d", &g);
            let gg = self.r.guid();
            let big = nb > 4000;
            say!(self, "create h d {} g={gg}", Opt { rob: false, ..o }.text(lbs));
            if big && o.cpc && self.r.p(50) {
                let id = 129 + self.r.n(300);
                say!(self, "addat h id={id} f=2000 len=3 t=LINUX_FS a=0 n=67");
            }
            for _ in 0..1 + self.r.n(4) {
                if self.has("h") {
                    self.sane("h", lbs);
                }
            }
            if self.has("h") {
                self.write("h", "");
            }
            if self.r.p(40) {
                self.reopen("h", "d", lbs, o);
            }
        }
        for _ in 0..3 {
            if !self.has("h") {
                return;
            }
            match self.r.n(9) {
                0 | 1 => {}
                2 => {
                    // there and back again
                    let e = self.ents("h");
                    match self.r.n(4) {
                        0 => {
                            say!(self, "add h size={lbs} t=LINUX_FS n=78");
                            let now = self.ents("h");
                            if let Some(x) = now.iter().find(|x| !e.iter().any(|y| y.id == x.id)) {
                                say!(self, "rm h id={}", x.id);
                            }
                        }
                        1 if !e.is_empty() => {
                            let x = self.r.pick(&e);
                            say!(self, "rm h id={}", x.id);
                            say!(self, "upd h base=1 set={}", part_str(&x));
                        }
                        2 => {
                            say!(self, "take h");
                            let set: Vec<String> = e.iter().map(part_str).collect();
                            say!(self, "upd h base=0 set={}", set.join(";"));
                        }
                        _ => {
                            if let Some(x) = self.k.world.peek_guid("h") {
                                self.setg("h");
                                say!(self, "setg h g={x}");
                            }
                        }
                    }
                }
                3 => {
                    let wr = Opt {
                        wr: true,
                        ..self.opt()
                    };
                    self.reopen("h", "d", lbs, wr);
                }
                4 => {
                    self.s("clone h c e");
                    self.write("c", "");
                    self.s("drop c");
                }
                5 => self.s("q h"),
                6 => {
                    self.s("write h");
                    self.s("writec h");
                    self.reopen("h", "d", lbs, o);
                }
                7 => say!(self, "upd h base=1"),
                _ => self.sane("h", lbs),
            }
            if self.has("h") {
                self.write("h", "");
                if self.r.p(30) {
                    self.write("h", "");
                }
            }
        }
    }

    /// two copies as another program might have written them: numbers of entries, usable
    /// blocks which begin later, entries anywhere in the array
    fn foreign(&mut self, lbs: u64, nb: u64) {
        let np = self.r.pick(&[128u64, 128, 128, 132, 136, 160, 256]);
        let arr = (np * 128).div_ceil(lbs);
        if nb < 2 * arr + 6 {
            return;
        }
        let lu = nb - 2 - arr;
        let fu = match self.r.n(4) {
            0 if lu > 2048 => 2048,
            1 => (2 + arr + self.r.n(20)).min(lu),
            _ => 2 + arr,
        };
        let n = self.r.n(6);
        let full = self.r.p(10);
        let ids: Vec<u64> = if full {
            (1..=np).collect()
        } else {
            (0..n).map(|_| 1 + self.r.n(np)).collect()
        };
        let start = [2, lu + 1];
        for id in ids {
            let t = self.tguid();
            let t = if t == NIL { "0fc63daf848347728e793d69d8477de4".into() } else { t };
            let u = self.r.guid();
            let f = fu + self.r.n(lu - fu + 1);
            let l = (f + self.r.n(4)).min(lu);
            // entries that make no sense are kept as well
            let (f, l) = match self.r.n(20) {
                0 => (l, f),
                1 => (0, 0),
                2 => (f, 0),
                3 => (f, self.field(nb)),
                4 => (self.field(nb), l),
                _ => (f, l),
            };
            let (fl, nm) = (self.flags(), self.name());
            for ps in start {
                say!(self, "setent d {ps} {id}/{t}/{u}/{f}/{l}/{fl}/{nm} lbs={lbs}");
            }
        }
        let gg = self.r.guid();
        for (lba, bak, ps) in [(1, nb - 1, 2), (nb - 1, 1, lu + 1)] {
            say!(
                self,
                "sethdr d {lba} lbs={lbs} cur={lba} bak={bak} fu={fu} lu={lu} g={gg} ps={ps} np={np} es=128"
            );
        }
    }

    /// a written table on device d of handle h
    fn written(&mut self, g: &Geo, o: Opt) {
        self.written_on("d", g, o);
    }
    fn written_on(&mut self, d: &str, g: &Geo, o: Opt) {
        if d == "F" {
            let fill = self.r.n(3);
            say!(self, "fdev F {} fill={fill}", g.bytes);
            say!(self, "fcreate h F {}", o.text(g.lbs));
        } else {
            self.dev(d, g);
            let gg = self.r.guid();
            say!(self, "create h d {} g={gg}", o.text(g.lbs));
        }
        for _ in 0..1 + self.r.n(4) {
            self.sane("h", g.lbs);
        }
        self.write("h", "");
    }
    /// the kinds of opening
    fn opens(&mut self, h: &str, d: &str, lbs: u64, n: u64) {
        for i in 0..n {
            let o = match i {
                0 => Opt::default(),
                1 => Opt {
                    ov: true,
                    ..Opt::default()
                },
                _ => Opt {
                    wr: true,
                    rob: self.r.p(30),
                    cpc: self.r.p(50),
                    ov: false,
                },
            };
            self.reopen(h, d, lbs, o);
        }
    }

    fn corrupt(&mut self, scale: u64) {
        // every byte of both header blocks, and bytes of both arrays
        for lbs in [512u64, 4096] {
            let nb = if lbs == 512 { 90 } else { 24 };
            let g = Geo {
                lbs,
                bytes: nb * lbs,
            };
            let o = Opt {
                wr: true,
                ..Opt::default()
            };
            let arr = if lbs == 512 { 32 } else { 4 };
            let hdr: Vec<u64> = (0..92).chain((92..lbs).step_by(67)).collect();
            let mut spots: Vec<u64> = vec![];
            for base in [1, nb - 1] {
                spots.extend(hdr.iter().map(|x| base * lbs + x));
            }
            for base in [2, nb - 1 - arr] {
                let step = if scale > 20 { 61 } else { 397 };
                spots.extend(
                    (0..128)
                        .chain((128..arr * lbs).step_by(step))
                        .map(|x| base * lbs + x),
                );
            }
            for c in spots.chunks(40) {
                self.begin();
                self.written(&g, o);
                for x in c {
                    let v = 1 << self.r.n(8);
                    self.s("devcopy e d");
                    say!(self, "flip e {x} {v}");
                    let n = 1 + self.r.n(2);
                    self.opens("r", "e", lbs, n);
                    self.s("undev e");
                }
            }
        }
        // every byte of a header changed and the checksum made right again, in one copy and in both
        for lbs in [512u64, 4096] {
            let nb = if lbs == 512 { 90 } else { 24 };
            let g = Geo {
                lbs,
                bytes: nb * lbs,
            };
            let o = Opt {
                wr: true,
                ..Opt::default()
            };
            let at: Vec<u64> = (0..16).chain(20..92).collect();
            for both in [false, true] {
                for c in at.chunks(22) {
                    self.begin();
                    self.written(&g, o);
                    for x in c {
                        let v = match self.r.n(3) {
                            0 => 0x20,
                            1 => 1 + self.r.n(255),
                            _ => 1 << self.r.n(8),
                        };
                        let one = self.r.pick(&[1, nb - 1]);
                        self.s("devcopy e d");
                        for h in [1, nb - 1] {
                            if both || h == one {
                                say!(self, "flip e {} {v}", h * lbs + x);
                                say!(self, "hcrc e {h} lbs={lbs}");
                            }
                        }
                        self.opens("r", "e", lbs, 1);
                        say!(self, "hr e lbs={lbs}");
                        self.s("undev e");
                    }
                }
            }
        }
        // checksum fields with values a reader might take for "no checksum" or compute by mistake
        for lbs in [512u64, 4096] {
            let nb = if lbs == 512 { 90 } else { 24 };
            let g = Geo {
                lbs,
                bytes: nb * lbs,
            };
            let o = Opt {
                wr: true,
                ..Opt::default()
            };
            let arr = if lbs == 512 { 32 } else { 4 };
            for copy in [1, nb - 1] {
                for sum in ["h", "a"] {
                    self.begin();
                    self.written(&g, o);
                    for form in 0..10 {
                        self.s("devcopy e d");
                        let v = 1 << self.r.n(8);
                        match (sum, self.r.n(4)) {
                            (_, 0) => {}
                            ("h", _) => {
                                let at = self.r.pick(&[8u64, 24, 32, 40, 48, 56, 60, 72, 80, 88, 91]);
                                say!(self, "flip e {} {v}", copy * lbs + at);
                            }
                            _ => {
                                let base = if copy == 1 { 2 } else { nb - 1 - arr } * lbs;
                                let at = self.r.pick(&[0u64, 20, 33, 40, 50, 60, 16383]);
                                say!(self, "flip e {} {v}", base + at);
                            }
                        }
                        say!(self, "crcf e {copy} {sum} {form} lbs={lbs}");
                        let n = 1 + self.r.n(2);
                        self.opens("r", "e", lbs, n);
                        say!(self, "hr e lbs={lbs}");
                        say!(self, "pr e at={} lbs={lbs}", if copy == 1 { "p" } else { "b" });
                        self.s("undev e");
                    }
                }
            }
        }
        // combinations of damage, and repair
        for _ in 0..scale {
            self.begin();
            let g = self.small();
            let lbs = g.lbs;
            let mut o = self.opt();
            o.wr = true;
            self.written(&g, o);
            // an older table, of which parts come back
            let old = self.r.p(60);
            if old {
                self.s("devcopy old d");
                for _ in 0..1 + self.r.n(3) {
                    self.sane("h", lbs);
                }
                if self.r.p(40) {
                    self.setg("h");
                }
                if o.cpc && self.r.p(50) {
                    let id = 129 + self.r.n(40);
                    let f = self.lba("h");
                    say!(self, "addat h id={id} f={f} len=1 t=LINUX_FS n=6f");
                }
                self.write("h", "");
            }
            let nb = g.nb();
            let arr = if lbs == 512 { 32 } else { 4 };
            for _ in 0..3 {
                self.s("devcopy e d");
                for _ in 0..1 + self.r.n(3) {
                    let (base, len) = self.r.pick(&[
                        (1, 92),
                        (nb - 1, 92),
                        (2 * lbs, 640),
                        ((nb - 1 - arr) * lbs, 640),
                        (2 * lbs, arr * lbs),
                        ((nb - 1 - arr) * lbs, arr * lbs),
                    ]);
                    let base = if len == 92 { base * lbs } else { base };
                    if old && self.r.p(60) {
                        say!(self, "graft e {base} {len} old");
                        continue;
                    }
                    let at = base + self.r.n(len);
                    match self.r.n(4) {
                        0 => {
                            let n = (1 + self.r.n(40)).min(base + len - at);
                            let z = if self.r.p(50) { "00" } else { "ff" };
                            say!(self, "poke e {at} {}", z.repeat(n as usize));
                        }
                        1 if len == 92 => {
                            // a field changed, with a fresh checksum
                            let v = 1 << self.r.n(8);
                            let off = self
                                .r
                                .pick(&[8u64, 12, 20, 24, 32, 40, 48, 56, 72, 80, 84, 88]);
                            say!(self, "flip e {} {v}", base + off);
                            say!(self, "hcrc e {} lbs={lbs}", base / lbs);
                        }
                        2 => say!(
                            self,
                            "poke e {base} {}",
                            "00".repeat(len.min(2048) as usize)
                        ),
                        _ => {
                            let v = 1 + self.r.n(255);
                            say!(self, "flip e {at} {v}");
                        }
                    }
                }
                self.opens("r", "e", lbs, 3);
                if self.has("r") {
                    self.s("q r");
                    if self.r.p(50) {
                        self.sane("r", lbs);
                    }
                    self.write("r", "");
                    {
                        let ov = self.r.p(50);
                        self.reopen(
                            "r",
                            "e",
                            lbs,
                            Opt {
                                ov,
                                ..Opt::default()
                            },
                        );
                    }
                    if self.has("r") {
                        self.s("drop r");
                    }
                }
                self.s("undev e");
            }
        }
    }

    /// boundary values of header fields
    fn field(&mut self, nb: u64) -> u64 {
        match self.r.n(14) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 34,
            4 => nb - 1,
            5 => nb.saturating_sub(2),
            6 => nb,
            7 => nb.saturating_sub(34),
            8 => u64::MAX,
            9 => u64::MAX - 1,
            10 => 1 << 63,
            11 => u64::MAX / 512,
            12 => u64::MAX / 4096 + 1,
            _ => self.r.n(nb + 40),
        }
    }

    fn hostile(&mut self) {
        let lbs = self.lbs();
        let nb = match self.r.n(8) {
            0 => self.r.n(6),
            1 => self.r.n(70),
            2 => 1 << 40,
            _ => {
                if lbs == 512 {
                    68 + self.r.n(60)
                } else {
                    12 + self.r.n(40)
                }
            }
        };
        let bytes = nb * lbs + if self.r.p(30) { self.r.n(lbs) } else { 0 };
        let bytes = if self.r.p(5) {
            self.r
                .pick(&[0, 1, 511, 512, 513, 1023, 1024, 1535, 1536, 4095, 12287])
        } else {
            bytes
        };
        let fill = if self.r.p(15) { 1 + self.r.n(1000) } else { 0 };
        say!(self, "dev d {bytes} fill={fill} fixed={}", self.r.n(2));
        let nb = bytes / lbs;
        if nb >= 3 && self.r.p(92) {
            let np = self.r.pick(&[
                128,
                128,
                128,
                128,
                0,
                1,
                2,
                4,
                127,
                129,
                256,
                1 << 14,
                u32::MAX as u64,
                1 << 31,
            ]);
            let np = if nb > 1 << 30 { np.min(1 << 14) } else { np };
            let es = if self.r.p(88) {
                128
            } else {
                self.r
                    .pick(&[0, 1, 127, 129, 256, 512, u32::MAX as u64, 1 << 31])
            };
            let arr = (np.min(4096) * 128).div_ceil(lbs);
            for side in 0..2 {
                if side == 1 && self.r.p(40) {
                    continue;
                }
                let prim = (side == 0) ^ self.r.p(5);
                let (lba, cur, bak) = if prim {
                    (1, 1, nb - 1)
                } else {
                    (nb - 1, nb - 1, 1)
                };
                let lba = if self.r.p(3) { 1 } else { lba };
                let ps = match self.r.n(10) {
                    0 => self.field(nb),
                    _ if prim => 2,
                    _ => nb.saturating_sub(1 + arr).max(2),
                };
                let fu = if self.r.p(30) {
                    self.field(nb)
                } else {
                    2 + arr
                };
                let lu = if self.r.p(30) {
                    self.field(nb)
                } else {
                    nb.saturating_sub(2 + arr)
                };
                // (nearly) all the blocks there can be
                let (fu, lu) = match self.r.n(25) {
                    0 => (0, u64::MAX),
                    1 => (self.r.n(2), u64::MAX - self.r.n(2)),
                    _ => (fu, lu),
                };
                let cur = if self.r.p(8) { self.field(nb) } else { cur };
                let bak = if self.r.p(20) { self.field(nb) } else { bak };
                // entries
                if np > 0 && ps < (1 << 40) && (ps * lbs + arr * lbs) <= bytes {
                    for _ in 0..self.r.n(5) {
                        let id = 1 + self.r.n(np.min(140));
                        let t = if self.r.p(10) {
                            NIL.into()
                        } else {
                            self.tguid()
                        };
                        let u = if self.r.p(20) {
                            NIL.into()
                        } else {
                            self.r.guid()
                        };
                        let (a, b) = (self.field(nb), self.field(nb));
                        let (f, l) = match self.r.n(4) {
                            0 => (a, b),
                            1 => (
                                fu.saturating_add(self.r.n(5)),
                                fu.saturating_add(self.r.n(9)),
                            ),
                            _ => (a.min(b), a.max(b)),
                        };
                        let fl = self.flags();
                        // names with broken pairs, and text behind the end
                        let n = self.r.n(37);
                        let units: String = (0..n)
                            .map(|_| match self.r.n(5) {
                                0 => format!("{:04x}", 0xd800 + self.r.n(0x800)),
                                1 if self.r.p(10) => "0000".into(),
                                _ => format!("{:04x}", 0x41 + self.r.n(0x2000)),
                            })
                            .collect();
                        say!(
                            self,
                            "setent d {ps} {id}/{t}/{u}/{f}/{l}/{fl}/{units}/u lbs={lbs}"
                        );
                    }
                }
                let g = self.r.guid();
                let rev = if self.r.p(10) {
                    self.r.next() & 0xffff_ffff
                } else {
                    0x10000
                };
                let hs = if self.r.p(10) {
                    self.r.pick(&[0, 91, 93, 512, u32::MAX as u64])
                } else {
                    92
                };
                let res = if self.r.p(8) { self.r.n(1 << 32) } else { 0 };
                let full = self.k.world.devs["d"].0.borrow().fill != 0;
                let pc = if self.r.p(8) || np > 4096 && full {
                    format!("pcrc={}", self.r.n(1 << 32))
                } else {
                    String::new()
                };
                say!(self, 
                    "sethdr d {lba} lbs={lbs} cur={cur} bak={bak} fu={fu} lu={lu} g={g} ps={ps} np={np} es={es} rev={rev} hs={hs} res={res} {pc}"
                );
            }
            if self.r.p(10) {
                let off = self.r.pick(&[1, nb - 1, 2]) * lbs + self.r.n(92);
                say!(self, "flip d {off} {}", 1 + self.r.n(255));
            }
        }
        let mut o = self.opt();
        o.ov = self.r.p(8);
        self.reopen("h", "d", lbs, o);
        if self.r.p(20) {
            say!(self, "hr d lbs={lbs}");
            say!(self, "pr d at=p lbs={lbs}");
            say!(self, "pr d at=b lbs={lbs}");
        }
        if self.r.p(8) {
            let o2 = self.opt();
            let lb2 = self.lbs();
            let g = self.r.guid();
            say!(self, "create c d {} g={g}", o2.text(lb2));
        }
        if !self.has("h") {
            return;
        }
        self.s("q h");
        // numbers above the count only without permission, or where growing is cheap
        let np = self.hdr("h").map_or(0, |x| x.2);
        let many = np > 1 << 17;
        for _ in 0..4 {
            if many {
                match self.r.n(4) {
                    0 => self.rm("h"),
                    1 => self.setg("h"),
                    2 => self.addat("h"),
                    _ => self.s("q h"),
                }
            } else {
                self.edit("h", lbs);
            }
        }
        if np <= 1 << 17 {
            self.s("write h");
            if self.r.p(60) {
                self.reopen("r", "d", lbs, Opt::default());
            }
        }
    }

    fn fault(&mut self) {
        let g = self.small();
        let lbs = g.lbs;
        let o = Opt {
            wr: true,
            rob: self.r.p(15),
            cpc: self.r.p(60),
            ov: false,
        };
        let first = self.r.p(20);
        if first {
            self.dev("d", &g);
            let gg = self.r.guid();
            say!(self, "create h d {} g={gg}", o.text(lbs));
            self.sane("h", lbs);
        } else if self.r.p(15) {
            let sides = self.r.pick(&[1, 2, 3, 3]);
            self.counted(lbs, sides);
            self.reopen("h", "d", lbs, o);
            if !self.has("h") {
                return;
            }
        } else {
            self.written(&g, o);
        }
        for _ in 0..1 + self.r.n(3) {
            self.sane("h", lbs);
        }
        if self.r.p(25) {
            say!(self, "add h size={lbs} t=LINUX_FS n=61");
            let id = 129 + self.r.n(4);
            let f = self.lba("h");
            say!(self, "addat h id={id} f={f} len=1 t=LINUX_FS n=62");
        }
        if self.r.p(25) {
            // a damaged copy
            let nb = self.size("d") / lbs;
            let x = self.r.pick(&[1, nb - 1]);
            let off = x * lbs + self.r.n(90);
            say!(self, "flip d {off} 1");
        }
        if !self.can_write("h") {
            return;
        }
        // how many operations does it take?
        self.s("devcopy w d");
        self.s("retgt h x w wr=1");
        self.s("write x");
        let n = self.ops("w");
        self.s("open r w lbs=".to_string() + &lbs.to_string());
        let m = self.ops("w");
        self.s("drop x");
        let all = self.r.p(30);
        let pick = |g: &mut Self, n: u64| -> Vec<u64> {
            if all || n < 30 {
                (1..=n).collect()
            } else {
                let mut v: Vec<u64> = (0..24).map(|_| 1 + g.r.n(n)).collect();
                v.extend([1, 2, 3, n - 1, n]);
                v.sort_unstable();
                v.dedup();
                v
            }
        };
        for k in pick(self, n) {
            let sticky = self.r.p(20) as u8;
            self.s("devcopy e d");
            self.s("retgt h x e wr=1");
            let fk = self.r.n(14);
            say!(self, "write x fault={k} sticky={sticky} fk={fk}");
            if self.r.p(50) {
                self.reopen("r", "e", lbs, Opt::default());
            }
            if self.r.p(30) && self.has("x") {
                self.sane("x", lbs);
            }
            // and again, without failures
            self.write("x", "");
            {
                let ov = self.r.p(30);
                self.reopen(
                    "r",
                    "e",
                    lbs,
                    Opt {
                        ov,
                        ..Opt::default()
                    },
                );
            }
            self.s("drop x");
            self.s("undev e");
        }
        for k in pick(self, m) {
            let sticky = self.r.p(30) as u8;
            let ov = self.r.p(20) as u8;
            let fk = self.r.n(14);
            say!(self, "open r d lbs={lbs} ov={ov} fault={k} sticky={sticky} fk={fk}");
        }
        // edits which look at the device
        for k in 1..=4 {
            let id = 129 + self.r.n(100);
            let f = self.lba("h");
            let fk = self.r.n(14);
            say!(
                self,
                "addat h id={id} f={f} len=1 t=LINUX_FS n=62 fault={k} fk={fk}"
            );
            let p = self.part("h", id);
            say!(self, "upd h base=1 set={p} fault={k} fk={fk}");
            let gg = self.r.guid();
            say!(self, "create c d {} g={gg} fault={k} fk={fk}", o.text(lbs));
        }
    }

    /// now and then a device that moves only some of the bytes, or gets interrupted
    fn partial(&mut self, d: &str) {
        if self.r.p(25) {
            let sh = self.r.pick(&[0u64, 1, 3, 7, 15, 17, 64, 100, 511]);
            let it = self.r.pick(&[0u64, 2, 3, 5]);
            say!(self, "mode {d} short={sh} intr={it}");
        }
    }
    fn short(&mut self) {
        let g = self.small();
        let lbs = g.lbs;
        self.dev("d", &g);
        let (sh, it) = match self.r.n(4) {
            0 => (1 + self.r.n(130), 0),
            1 => (0, 2 + self.r.n(4)),
            _ => (7 + self.r.n(600), 2 + self.r.n(5)),
        };
        say!(self, "mode d short={sh} intr={it}");
        let o = Opt {
            wr: true,
            ..self.opt()
        };
        let gg = self.r.guid();
        say!(self, "create h d {} g={gg}", o.text(lbs));
        for _ in 0..8 {
            if !self.has("h") {
                return;
            }
            match self.r.n(8) {
                0..=4 => self.sane("h", lbs),
                5 => {
                    let x = self.r.pick(&[1, 2, g.nb() - 1, g.nb() - 2]);
                    let off = x * lbs + self.r.n(92);
                    say!(self, "flip d {off} 4");
                }
                _ => {
                    self.write("h", "");
                    self.opens("r", "d", lbs, 2);
                    let o = Opt {
                        wr: true,
                        ..self.opt()
                    };
                    self.reopen("h", "d", lbs, o);
                }
            }
        }
        if self.has("h") {
            self.write("h", "");
            self.reopen("r", "d", lbs, Opt::default());
        }
    }

    fn crash(&mut self, d: &str) {
        let lbs = self.lbs();
        let min = if lbs == 512 { 68 } else { 12 };
        let nb = min + self.r.n(60);
        let g = Geo {
            lbs,
            bytes: nb * lbs + if self.r.p(20) { self.r.n(lbs) } else { 0 },
        };
        let o = Opt {
            wr: true,
            rob: self.r.p(10),
            cpc: self.r.p(50),
            ov: false,
        };
        if d == "d" && self.r.p(15) {
            let sides = self.r.pick(&[1, 2, 3, 3, 3]);
            self.counted(lbs, sides);
            self.reopen("h", d, lbs, o);
        } else {
            self.written_on(d, &g, Opt { rob: false, ..o });
            if self.r.p(40) {
                self.reopen("h", d, lbs, o);
            }
        }
        if !self.has("h") {
            return;
        }
        for _ in 0..1 + self.r.n(5) {
            if !self.has("h") {
                return;
            }
            let nb = self.size(d) / lbs;
            // what happened to the device meanwhile
            match self.r.n(8) {
                0 => {
                    let off = lbs + self.r.n(92);
                    say!(self, "flip {d} {off} 16");
                    if self.r.p(60) {
                        self.reopen("h", d, lbs, o);
                    }
                }
                1 => {
                    let off = (nb - 1) * lbs + self.r.n(92);
                    say!(self, "flip {d} {off} 16");
                    if self.r.p(60) {
                        self.reopen("h", d, lbs, o);
                    }
                }
                2 => {
                    let off = 2 * lbs + self.r.n(300);
                    say!(self, "flip {d} {off} 16");
                    if self.r.p(60) {
                        self.reopen("h", d, lbs, o);
                    }
                }
                3 => {
                    let arr = if lbs == 512 { 32 } else { 4 };
                    let off = (nb - 1).saturating_sub(arr).max(1) * lbs + self.r.n(300);
                    say!(self, "flip {d} {off} 16");
                }
                4 => {
                    // only the primary copy is intact on the longer device
                    let to = nb + 1 + self.r.n(80);
                    say!(self, "resize {d} {}", to * lbs);
                }
                5 => {
                    // a write which failed half way
                    self.sane("h", lbs);
                    let k = 8 + self.r.n(40);
                    match d {
                        "F" => say!(self, "write h ffault={} fk={}", 1 + k / 2, k % 7),
                        _ => say!(self, "write h fault={k}"),
                    }
                }
                _ => {}
            }
            if !self.has("h") {
                return;
            }
            for _ in 0..1 + self.r.n(3) {
                self.sane("h", lbs);
            }
            match self.r.n(6) {
                0 if o.cpc => {
                    let f = self.lba("h");
                    let id = 129 + self.r.n(40);
                    say!(self, "addat h id={id} f={f} len=1 t=LINUX_FS n=6767");
                }
                1 => self.setg("h"),
                2 => self.upd("h"),
                _ => {}
            }
            let seed = 1 + self.r.n(1 << 30);
            self.write("h", &format!("crash=1 seed={seed}"));
            if self.r.p(30) {
                let seed = 1 + self.r.n(1 << 30);
                let want = self.r.pick(&["", "", "ot", "on", "tn", "to", "no", "nt"]);
                say!(self, "power {d} seed={seed} want={want}");
                if !self.has("h") {
                    self.reopen("h", d, lbs, o);
                }
                continue;
            }
            self.reopen("r", d, lbs, Opt::default());
        }
    }

    fn files(&mut self) {
        let lbs = self.lbs();
        let min = if lbs == 512 { 68 } else { 12 };
        let nb = min + self.r.n(30);
        let fill = self.r.n(3);
        if self.r.p(15) {
            // a file too small for a disk, or just large enough, or with a piece of a block
            let n = (self.r.n(min + 2)) * lbs + [0, 0, 1, lbs - 1][self.r.n(4) as usize];
            say!(self, "fdev F {n} fill={fill}");
            let g = self.r.own_guid();
            say!(self, "whdr F g={g} lbs={lbs}");
            say!(self, "rhdr F lbs={lbs}");
            let o = Opt { wr: self.r.p(50), ..Opt::default() };
            say!(self, "fcreate h F {}", o.text(lbs));
            say!(self, "fopen h F {}", o.text(lbs));
            self.s("undev F");
        }
        let extra = if self.r.p(35) { 1 + self.r.n(lbs - 1) } else { 0 };
        say!(self, "fdev F {} fill={fill}", nb * lbs + extra);
        match self.r.n(5) {
            // the stand-alone helpers
            0 => {
                if self.r.p(50) {
                    // a header alone is the table of an empty disk: the array must be there
                    say!(self, "fpoke F {} {}", 2 * lbs, "00".repeat(16384));
                }
                let g = if self.r.p(30) {
                    "-".into()
                } else {
                    self.r.own_guid()
                };
                say!(self, "whdr F g={g} lbs={lbs}");
                say!(self, "rhdr F lbs={lbs}");
                for _ in 0..2 {
                    let id = 1 + self.r.n(128);
                    let p = format!(
                        "{id}/{}/{}/{}/{}/{}/{}",
                        self.tguid(),
                        self.r.guid(),
                        40 + self.r.n(5),
                        45 + self.r.n(9),
                        self.flags(),
                        self.name()
                    );
                    say!(self, "pwp F idx={} start=2 p={p} lbs={lbs}", id - 1);
                }
                say!(self, "rparts F at=p lbs={lbs}");
                let g = self.r.own_guid();
                say!(self, "whdr F g={g} lbs={lbs}");
                say!(self, "rparts F at=p lbs={lbs}");
                say!(self, "rparts F at=b lbs={lbs}");
                say!(self, "rhdr F lbs={lbs}");
                say!(self, "fopen h F lbs={lbs}");
                self.s("rdisk h F");
            }
            _ => {
                let o = Opt {
                    wr: true,
                    rob: self.r.p(15),
                    cpc: self.r.p(50),
                    ov: self.r.p(10),
                };
                say!(self, "fcreate h F {}", o.text(lbs));
                for _ in 0..1 + self.r.n(3) {
                    self.sane("h", lbs);
                }
                self.write("h", "");
                say!(self, "fopen r F lbs={lbs}");
                self.s("rdisk r F");
                if self.r.p(50) {
                    let o = Opt {
                        wr: self.r.p(85),
                        ..o
                    };
                    say!(self, "fopen h F {}", o.text(lbs));
                    if !self.has("h") {
                        return;
                    }
                }
                self.sane("h", lbs);
                if self.r.p(30) {
                    let at = self.r.pick(&[lbs + 3, (nb - 1) * lbs + 3, 2 * lbs + 5]);
                    say!(self, "fpoke F {at} 5a5a");
                }
                // every write and every sync fails once
                for k in 1..=12 {
                    let fk = self.r.n(7);
                    say!(self, "write h ffault={k} fk={fk}");
                    if k % 3 == 0 {
                        say!(self, "fopen r F lbs={lbs}");
                    }
                }
                self.write("h", "");
                say!(self, "fopen r F lbs={lbs} ov=1");
                if self.r.p(40) {
                    say!(
                        self,
                        "fresize F {}",
                        (nb + self.r.n(9)) * lbs + self.r.n(lbs)
                    );
                    self.sane("h", lbs);
                }
                if self.r.p(40) {
                    self.s("writec h");
                } else {
                    self.write("h", "");
                }
                say!(self, "fopen r F lbs={lbs}");
                say!(self, "rhdr F lbs={lbs}");
                say!(self, "rparts F at=p lbs={lbs}");
            }
        }
    }

    /// free space and placement on crowded, odd maps
    fn free(&mut self) {
        if self.r.p(15) {
            return self.huge();
        }
        let lbs = self.lbs();
        let min = if lbs == 512 { 68 } else { 12 };
        let usable = 1 + self.r.n(24);
        self.dev(
            "d",
            &Geo {
                lbs,
                bytes: (min + usable - 1) * lbs,
            },
        );
        let o = Opt {
            wr: false,
            cpc: self.r.p(30),
            ..Opt::default()
        };
        say!(self, "create h d {} g={}", o.text(lbs), "cd".repeat(16));
        let Some((fu, lu, _)) = self.hdr("h") else {
            return;
        };
        for _ in 0..6 {
            // a map of many small entries
            let n = 1 + self.r.n(8);
            let set: Vec<String> = (0..n)
                .map(|_| {
                    let id = if self.r.p(70) {
                        1 + self.r.n(10)
                    } else {
                        self.id("h").min(128)
                    };
                    let a = (fu + self.r.n(usable + 4)).saturating_sub(2);
                    let b = if self.r.p(50) {
                        a
                    } else {
                        (a + self.r.n(7)).saturating_sub(if self.r.p(10) { 4 } else { 0 })
                    };
                    let t = if self.r.p(8) {
                        self.odd(NIL.into(), 30)
                    } else {
                        self.r.guid()
                    };
                    format!("{id}/{t}/{}/{a}/{b}/0/", self.r.guid())
                })
                .collect();
            say!(self, "upd h set={}", set.join(";"));
            for _ in 0..3 {
                match self.r.n(3) {
                    0 => {
                        let f = (fu + self.r.n(usable + 2)).saturating_sub(1);
                        let id = 1 + self.r.n(12);
                        say!(
                            self,
                            "addat h id={id} f={f} len={} t=EFI n=",
                            1 + self.r.n(5)
                        );
                    }
                    1 => {
                        let al = self.r.pick(&[0u64, 1, 2, 3, 4, 5, 7, 8, 16, 34, 64]);
                        let size = (1 + self.r.n(6)) * lbs - self.r.n(lbs);
                        say!(self, "add h size={size} t=EFI n= al={al}");
                    }
                    _ => self.rm("h"),
                }
            }
        }
        let _ = lu;
        // alignments, with blocks that are multiples of powers of two
        let set: Vec<String> = (1..=1 + self.r.n(5))
            .map(|i| {
                let b = (1 + self.r.n(9)) << self.r.n(13);
                let t = if self.r.p(15) {
                    self.odd(NIL.into(), 30)
                } else {
                    self.r.guid()
                };
                format!("{i}/{t}/{}/{b}/{b}/0/", self.r.guid())
            })
            .collect();
        say!(self, "upd h set={}", set.join(";"));
    }

    /// tables of other sizes than usual, full or nearly so, in one copy or in both
    /// the device d with a table of np entries, in the copies given by sides
    fn counted(&mut self, lbs: u64, sides: u64) -> (u64, u64) {
        let np = self.r.pick(&[1u64, 2, 3, 4, 5, 8, 16, 31, 32, 127, 128, 129, 130, 140, 160, 200, 257]);
        // the copies need not agree
        let np2 = if self.r.p(20) { 1 + self.r.n(150) } else { np };
        // room for as many as there are, or more
        let room = self.r.pick(&[0u64, 0, 128, 130]);
        let arr = (np.max(np2).max(room) * 128).div_ceil(lbs);
        let usable = np.max(np2) + 1 + self.r.n(40);
        let nb = 4 + 2 * arr + usable;
        self.dev("d", &Geo { lbs, bytes: nb * lbs });
        let (fu, lu) = (2 + arr, 1 + arr + usable);
        let (c, g) = (fu + self.r.n(4), self.r.guid());
        let gap = self.r.n(4);
        let full = self.r.p(70);
        let rows: Vec<(u64, String)> = (1..=np.max(np2))
            .filter_map(|id| {
                if id == gap || !full && self.r.p(40) {
                    return None;
                }
                let (t, u) = (self.r.guid(), self.r.guid());
                let f = if c + id <= lu { c + id } else { fu };
                Some((id, format!("{id}/{t}/{u}/{f}/{f}/0//u")))
            })
            .collect();
        for (bit, lba, bak, ps, n) in [
            (1, 1, nb - 1, 2, np),
            (2, nb - 1, 1, nb - 1 - (np2 * 128).div_ceil(lbs), np2),
        ] {
            if sides & bit == 0 {
                continue;
            }
            if self.r.p(70) {
                // no rubbish in unused slots
                say!(self, "poke d {} {}", ps * lbs, "00".repeat((n * 128) as usize));
            }
            for (id, e) in &rows {
                if *id <= n {
                    say!(self, "setent d {ps} {e} lbs={lbs}");
                }
            }
            say!(
                self,
                "sethdr d {lba} lbs={lbs} cur={lba} bak={bak} fu={fu} lu={lu} g={g} ps={ps} np={n} es=128"
            );
        }
        (np, np2)
    }
    fn counts(&mut self) {
        let lbs = self.lbs();
        let sides = self.r.pick(&[1u64, 2, 2, 3, 3]);
        let (np, np2) = self.counted(lbs, sides);
        let o = Opt {
            wr: self.r.p(90),
            cpc: self.r.p(50),
            rob: self.r.p(10),
            ov: false,
        };
        self.reopen("h", "d", lbs, o);
        if !self.has("h") {
            return;
        }
        self.s("q h");
        for _ in 0..2 + self.r.n(4) {
            match self.r.n(6) {
                0..=2 => {
                    let (t, a, n) = (self.ty(), self.flags(), self.name());
                    say!(self, "add h size={lbs} t={t} a={a} n={n}");
                }
                3 => {
                    let id = self.id("h");
                    let f = self.lba("h");
                    say!(self, "addat h id={id} f={f} len=1 t=EFI n=71");
                }
                4 => self.rm("h"),
                _ => {
                    // the last of the table
                    let last = self.ents("h").iter().map(|e| e.id).max().unwrap_or(1);
                    let id = self.r.pick(&[np, np2, last, np + 1]);
                    if self.r.p(50) {
                        say!(self, "rm h id={id}");
                    } else {
                        let f = self.lba("h");
                        say!(self, "addat h id={id} f={f} len=1 t=EFI n=71");
                    }
                }
            }
        }
        self.s("q h");
        self.write("h", "");
        self.reopen("r", "d", lbs, Opt { wr: true, ..o });
        if self.has("r") {
            self.sane("r", lbs);
            self.write("r", "");
            self.reopen("r", "d", lbs, Opt::default());
        }
    }

    /// disks of nearly any size a device can have
    fn huge(&mut self) {
        let lbs = self.lbs();
        let k = 44 + self.r.n(19);
        let nb = ((1 << k) + self.r.n(1 << 20)) / lbs;
        self.dev("d", &Geo { lbs, bytes: nb * lbs });
        say!(self, "create h d {} g={}", Opt::default().text(lbs), "ce".repeat(16));
        let Some((fu, lu, _)) = self.hdr("h") else {
            return;
        };
        for _ in 0..3 {
            // a few partitions that leave large runs
            let n = self.r.n(5);
            let mut set: Vec<String> = vec![];
            for i in 1..=n {
                let a = fu + self.r.n(lu - fu + 1);
                let most = 1u64 << self.r.n(60);
                let b = a + self.r.n((lu - a + 1).min(most));
                set.push(format!("{i}/{}/{}/{a}/{b}/0/", self.r.guid(), self.r.guid()));
            }
            say!(self, "upd h set={}", set.join(";"));
            for _ in 0..5 {
                let blocks = match self.r.n(3) {
                    0 => self.run_len("h"),
                    1 => 1 << self.r.n(k),
                    _ => 1 + self.r.n(lu),
                };
                let bytes = blocks.saturating_mul(lbs);
                let size = match self.r.n(5) {
                    0 => bytes.saturating_add(1),
                    1 => bytes.saturating_sub(1).max(1),
                    2 => bytes.saturating_sub(lbs - 1).max(1),
                    3 => bytes.saturating_add(self.r.n(lbs)),
                    _ => bytes,
                };
                let al = self.r.pick(&[0u64, 1, 3, 2048, 1 << 20, 1 << 33, 1 << 40]);
                say!(self, "add h size={size} t=EFI n= al={al}");
                if self.r.p(30) {
                    self.rm("h");
                }
            }
        }
        self.s("q h");
    }

    fn names(&mut self) {
        let lbs = self.lbs();
        self.dev(
            "d",
            &Geo {
                lbs,
                bytes: 200 * lbs,
            },
        );
        let o = Opt {
            wr: true,
            ..Opt::default()
        };
        say!(self, "create h d {} g={}", o.text(lbs), "ef".repeat(16));
        for _ in 0..10 {
            let (t, a, n) = (self.ty(), self.flags(), self.name());
            say!(self, "add h size={lbs} t={t} a={a} n={n}");
        }
        self.write("h", "");
        self.reopen("h", "d", lbs, o);
        if self.has("h") {
            self.write("h", "");
            self.reopen("r", "d", lbs, o);
        }
    }

    fn builder(&mut self, scale: u64) {
        self.begin();
        for i in 0..scale {
            if i % 100 == 99 {
                self.begin();
            }
            let lbs = self.lbs();
            let val = |g: &mut Self, base: u64| -> u64 {
                match g.r.n(12) {
                    0 => 0,
                    1 => 1,
                    2 => u64::MAX,
                    3 => u64::MAX - 1 - g.r.n(40),
                    4 => 1 << 63,
                    5 => 34,
                    6..=8 => base.wrapping_sub(g.r.n(4)),
                    9 => base.wrapping_add(g.r.n(4)),
                    _ => g.r.n(2 * base + 100),
                }
            };
            let np = |g: &mut Self| {
                g.r.pick(&[
                    0,
                    1,
                    4,
                    127,
                    128,
                    128,
                    129,
                    132,
                    133,
                    160,
                    1000,
                    u32::MAX as u64,
                    1 << 31,
                    1 << 20,
                ])
            };
            let es = |g: &mut Self| {
                g.r.pick(&[
                    128,
                    128,
                    128,
                    0,
                    1,
                    127,
                    129,
                    256,
                    512,
                    4096,
                    u32::MAX as u64,
                    1 << 31,
                ])
            };
            let mut l = format!("hb lbs={lbs}");
            // around the smallest disk for this table
            let (n, e) = (np(self), es(self));
            let ab = (n.max(128) * e).div_ceil(lbs);
            let tight = (2 * ab + 3).wrapping_add(self.r.n(6)).wrapping_sub(3);
            if self.r.p(40) {
                let a = val(self, tight);
                let b = val(self, tight);
                let (cur, bak) = if self.r.p(60) { (1, a) } else { (a, b) };
                l += &format!(
                    " from=1 cur={cur} bak={bak} fu={} lu={} ps={} np={n} es={e} g={}",
                    val(self, ab + 2),
                    val(self, tight.saturating_sub(ab + 1)),
                    self.r.n(100),
                    self.r.guid()
                );
            } else {
                l += &format!(" snp={n} ses={e}");
                if !self.r.p(10) {
                    l += &format!(" sbak={}", val(self, tight));
                }
            }
            if self.r.p(50) {
                l += &format!(" sprim={}", self.r.n(2));
            }
            if self.r.p(30) {
                l += &format!(" sg={}", self.r.guid());
            }
            if self.r.p(40) {
                l += &format!(" sfu={}", val(self, ab + 2));
            }
            if self.r.p(40) {
                l += &format!(" slu={}", val(self, tight.saturating_sub(ab + 1)));
            }
            if self.r.p(20) && !l.contains("snp") {
                l += &format!(" snp={}", np(self));
            }
            if self.r.p(20) && !l.contains("sbak") {
                l += &format!(" sbak={}", val(self, tight));
            }
            self.s(l);
        }
    }

    fn help(&mut self) {
        let lbs = self.lbs();
        let np = self.r.pick(&[128u64, 128, 128, 4, 1, 129, 200]);
        let arr = (np * 128).div_ceil(lbs);
        let nb = 3 + 2 * arr + 1 + self.r.n(20);
        self.dev(
            "d",
            &Geo {
                lbs,
                bytes: nb * lbs,
            },
        );
        self.partial("d");
        let fu = 2 + arr;
        let lu = nb - 2 - arr;
        let g = self.r.guid();
        // clear both arrays
        say!(self, "pz d idx=0 cnt={np} start=2 bpp=128 lbs={lbs}");
        say!(
            self,
            "pz d idx=0 cnt={np} start={} bpp=128 lbs={lbs}",
            lu + 1
        );
        let mut slots = vec![];
        for _ in 0..self.r.n(6) {
            let idx = self.r.n(np);
            slots.push(idx);
            let b = fu + self.r.n(9);
            let t = if self.r.p(10) {
                NIL.into()
            } else {
                self.tguid()
            };
            let p = format!(
                "{}/{t}/{}/{b}/{}/{}/{}",
                idx + 1,
                self.r.guid(),
                b + self.r.n(5),
                self.flags(),
                self.name()
            );
            for start in [2, lu + 1] {
                if start == 2 || self.r.p(70) {
                    say!(self, "pw d idx={idx} start={start} bpp=128 p={p} lbs={lbs}");
                }
            }
        }
        // some cleared again
        if self.r.p(50) && !slots.is_empty() {
            let i = self.r.pick(&slots);
            let cnt = 1 + self.r.n((np - i).min(3));
            for start in [2, lu + 1] {
                say!(
                    self,
                    "pz d idx={i} cnt={cnt} start={start} bpp=128 lbs={lbs}"
                );
            }
        }
        // the headers: right, at the wrong side, or odd
        let last = nb - 1;
        let h = |cur: u64, bak: u64, ps: u64, np: u64| {
            format!("cur={cur} bak={bak} fu={fu} lu={lu} ps={ps} np={np} es=128 g={g} lbs={lbs}")
        };
        match self.r.n(6) {
            0 => {
                say!(self, "hw d side=p {}", h(last, 1, 2, np));
                say!(self, "hw d side=b {}", h(1, last, 2, np));
                let x = self.r.pick(&[0, 1, last]);
                say!(self, "hw d side=p {}", h(x, x, 2, np));
                say!(self, "hw d side=b {}", h(x, x, 2, np));
            }
            1 => {
                let v = self.field(nb);
                say!(self, "hw d side=p {}", h(1, last, v, np));
                let w = self.field(nb);
                say!(self, "hw d side=b {}", h(last, 1, w, np.min(300)));
            }
            2 => {
                // headers that state some other block
                for _ in 0..2 {
                    let x = fu + self.r.n(lu - fu + 1);
                    let y = self.r.pick(&[0u64, 1, 2, x - 1]);
                    say!(self, "hw d side=b {}", h(x, y, lu + 1, np));
                    let z = self.r.pick(&[last, x + 1, nb, u64::MAX]);
                    say!(self, "hw d side=p {}", h(x, z, 2, np));
                }
            }
            _ => {}
        }
        say!(self, "hw d side=p {}", h(1, last, 2, np));
        if self.r.p(80) {
            say!(self, "hw d side=b {}", h(last, 1, lu + 1, np));
        }
        say!(self, "hr d lbs={lbs}");
        say!(self, "pr d at=p lbs={lbs}");
        say!(self, "pr d at=b lbs={lbs}");
        let o = self.opt();
        self.reopen("r", "d", lbs, o);
        // entries of other sizes, and far away
        for _ in 0..3 {
            let bpp = self.r.pick(&[128u64, 256, 512, 128, 127, 1, 0, 130, 4096]);
            let idx = if self.r.p(15) {
                self.r.pick(&[u64::MAX, u64::MAX / 128, 1 << 57])
            } else {
                self.r.n(20)
            };
            let start = if self.r.p(10) {
                self.r.pick(&[u64::MAX, u64::MAX / lbs, u64::MAX / lbs + 1])
            } else {
                fu
            };
            let p = format!(
                "1/{}/{}/7/9/{}/{}",
                self.tguid(),
                self.r.guid(),
                self.flags(),
                self.name()
            );
            say!(
                self,
                "pw d idx={idx} start={start} bpp={bpp} p={p} lbs={lbs}"
            );
            let cnt = self.r.n(4);
            say!(
                self,
                "pz d idx={idx} cnt={cnt} start={start} bpp={bpp} lbs={lbs}"
            );
        }
        if self.r.p(40) {
            say!(
                self,
                "flip d {} 1",
                lbs * self.r.pick(&[1, 2, last]) + self.r.n(92)
            );
            say!(self, "hr d lbs={lbs}");
            say!(self, "pr d at=p lbs={lbs}");
            say!(self, "pr d at=b lbs={lbs}");
        }
    }

    fn mbr(&mut self) {
        let lbs = self.lbs();
        let nb = 1 + self.r.n(6);
        let bytes = match self.r.n(10) {
            0 => self.r.pick(&[0u64, 1, 439, 440, 444, 446, 511, 512, 513]),
            _ => nb * lbs,
        };
        self.dev("d", &Geo { lbs, bytes });
        self.partial("d");
        let rec = |g: &mut Self| -> String {
            match g.r.n(5) {
                0 => "0".repeat(32),
                1 => "00000200eeffffff01000000ffffffff".into(),
                2 => "f".repeat(32),
                _ => g.r.guid(),
            }
        };
        match self.r.n(3) {
            0 => say!(self, "mbr new m=a lbs={lbs}"),
            1 => {
                let n = self.r.pick(&[0u64, 1, 0xffff_ffff, 0x1234_5678]);
                say!(self, "mbr new m=a lb={n} lbs={lbs}");
            }
            _ => {
                let seed = self.r.n(1 << 20);
                say!(
                    self,
                    "mbr bytes m=a len={lbs} seed={seed} magic=1 lbs={lbs}"
                );
            }
        }
        if !self.k.world.mbrs.contains_key("a") {
            say!(self, "mbr new m=a lbs={lbs}");
        }
        for _ in 0..12 {
            let pos = self.r.pick(&[0u64, 1, 440, 511, 512, 1000, 5000]);
            let f = if self.r.p(15) {
                format!("fault={} fk={}", 1 + self.r.n(9), self.r.n(14))
            } else {
                String::new()
            };
            match self.r.n(14) {
                0 => say!(self, "mbr setboot m=a seed={}", self.r.n(1000)),
                1 => say!(self, "mbr setsig m=a sig={:08x}", self.r.n(1 << 32)),
                2 | 3 => {
                    let i = if self.r.p(15) { 4 } else { self.r.n(4) };
                    let r = rec(self);
                    say!(self, "mbr setpart m=a i={i} rec={r}");
                }
                4 | 5 => say!(self, "mbr over m=a d=d pos={pos} lbs={lbs} {f}"),
                6 | 7 => say!(self, "mbr cons m=a d=d pos={pos} lbs={lbs} {f}"),
                8 => say!(self, "mbr from m=b d=d pos={pos} lbs={lbs} {f}"),
                9 => say!(self, "rdboot d=d pos={pos} {f}"),
                10 => say!(self, "wrboot d=d pos={pos} seed={} {f}", self.r.n(1000)),
                11 => say!(self, "rdsig d=d pos={pos} {f}"),
                12 => say!(
                    self,
                    "wrsig d=d pos={pos} sig={:08x} {f}",
                    self.r.n(1 << 32)
                ),
                _ => {
                    let (len, magic, bad) = (
                        self.r
                            .pick(&[0u64, 16, 511, 512, 513, 1024, 4095, 4096, 4097, lbs, lbs]),
                        self.r.n(3).min(1),
                        self.r.n(2),
                    );
                    say!(
                        self,
                        "mbr bytes m=b len={len} seed={} magic={magic} bad={bad} lbs={lbs}",
                        self.r.n(1000)
                    );
                    if self.r.p(40) {
                        let n = self.r.pick(&[16u64, 16, 16, 15, 17, 0, 32]);
                        let x: String = (0..n).map(|_| format!("{:02x}", self.r.n(256))).collect();
                        say!(self, "prec rec={x}");
                    }
                    if self.r.p(30) && bytes >= 512 {
                        say!(
                            self,
                            "poke d 510 {}",
                            if self.r.p(50) { "55aa" } else { "aa55" }
                        );
                    }
                }
            }
        }
    }

    fn arith(&mut self, scale: u64) {
        self.begin();
        let edge = [
            0,
            1,
            2,
            34,
            511,
            512,
            u64::MAX,
            u64::MAX - 1,
            u64::MAX / 512,
            u64::MAX / 512 + 1,
            u64::MAX / 4096,
            u64::MAX / 4096 + 1,
            1 << 63,
            (1 << 63) - 1,
            1 << 32,
            (1 << 32) - 1,
            1 << 55,
            1 << 52,
        ];
        for lbs in [512u64, 4096] {
            for f in edge {
                for l in edge {
                    say!(self, "arith f={f} l={l} lbs={lbs}");
                }
            }
        }
        for n in edge.iter().chain(&[
            256, 510, 513, 520, 1024, 2048, 4095, 4097, 8192, 65536,
            512 << 32, (1 << 32) + 512, (1 << 32) + 4096, (1 << 16) + 512, (1 << 16) + 4096,
        ]) {
            say!(self, "block n={n}");
        }
        for n in [4096u64, 512 | 1 << 63, 4096 | 1 << 63] {
            say!(self, "block n={n}");
        }
        for n in 0..16u64 {
            say!(self, "attrs n={n}");
            let m = n | (self.r.next() & !7);
            say!(self, "attrs n={m}");
        }
        for i in 0..scale {
            if i % 200 == 0 {
                self.begin();
            }
            if i % 10 == 0 {
                let n = match self.r.n(3) {
                    0 => self.r.next() >> self.r.n(64),
                    1 => 512u64.wrapping_add(self.r.n(20)).wrapping_sub(10),
                    _ => 4096u64.wrapping_add(self.r.n(20)).wrapping_sub(10),
                };
                say!(self, "block n={n}");
            }
            let lbs = self.lbs();
            let sh = self.r.n(64);
            let f = self.r.next() >> sh;
            let l = match self.r.n(4) {
                0 => f.wrapping_add(self.r.n(5)).wrapping_sub(2),
                1 => f
                    .wrapping_add(u64::MAX / lbs)
                    .wrapping_add(self.r.n(5))
                    .wrapping_sub(3),
                2 => self.r.next() >> self.r.n(64),
                _ => f.saturating_add(self.r.n(1 << 40)),
            };
            say!(self, "arith f={f} l={l} lbs={lbs}");
        }
    }

    fn types(&mut self, scale: u64) {
        self.begin();
        let x = |t: &str| hex(t.as_bytes());
        let mixed = |g: &mut Self, t: &str| -> String {
            t.chars()
                .map(|c| {
                    if g.r.p(50) {
                        c.to_ascii_lowercase()
                    } else {
                        c.to_ascii_uppercase()
                    }
                })
                .collect()
        };
        for (name, guid, _, _) in table() {
            let low = guid.to_lowercase();
            let simple = guid.replace('-', "");
            for by in ["name", "str"] {
                say!(self, "type by={by} in={}", x(name));
                say!(self, "type by={by} in={}", x(&name.to_lowercase()));
                let m = mixed(self, name);
                say!(self, "type by={by} in={}", x(&m));
            }
            say!(self, "type by=const in={}", x(name));
            let m = mixed(self, guid);
            for t in [
                guid.to_string(),
                low.clone(),
                m,
                simple.clone(),
                simple.to_lowercase(),
                format!("{{{guid}}}"),
                format!("{{{low}}}"),
                format!("urn:uuid:{low}"),
                format!("urn:uuid:{guid}"),
            ] {
                say!(self, "type by=str in={}", x(&t));
            }
            say!(self, "type by=uuid in={}", x(guid));
            // a neighbour
            let mut near: Vec<char> = guid.chars().collect();
            let i = self.r.pick(&[0usize, 7, 9, 14, 19, 24, 35]);
            near[i] = if near[i] == '0' { '1' } else { '0' };
            let near: String = near.into_iter().collect();
            say!(self, "type by=uuid in={}", x(&near));
            say!(self, "type by=str in={}", x(&near.to_lowercase()));
            // no guids
            say!(self, "type by=str in={}", x(&format!("{name}X")));
            say!(self, "type by=str in={}", x(&guid[1..]));
            say!(self, "type by=name in={}", x(&format!(" {name}")));
            // almost a name
            for t in [
                name.replace('_', "-"),
                name.replace('_', " "),
                name.replace('_', ""),
                format!("{name} "),
                format!("{name}\n"),
                format!("_{name}"),
                name[1..].to_string(),
                name[..name.len() - 1].to_string(),
                format!("{name}\0"),
            ] {
                // cut names might be other names
                let by = if self.r.p(50) { "name" } else { "str" };
                say!(self, "type by={by} in={}", x(&t));
            }
            // letters that fold to the ones of a name or of a guid, and other digits
            for (from, to) in [
                ("S", "\u{17f}"), ("I", "\u{131}"), ("K", "\u{212a}"), ("FI", "\u{fb01}"),
                ("A", "\u{ff21}"), ("O", "\u{39f}"),
            ] {
                if name.contains(from) && self.r.p(30) {
                    let by = if self.r.p(50) { "name" } else { "str" };
                    say!(self, "type by={by} in={}", x(&name.replacen(from, to, 1)));
                }
            }
            for (from, to) in [
                ("FF", "\u{fb00}"), ("FF", "\u{fb00}"), ("1", "\u{ff11}"), ("7", "\u{667}"),
                ("-", "\u{2010}"), ("-", "\u{2212}"), ("A", "\u{ff41}"), ("0", "O"),
            ] {
                if guid.contains(from) && (from == "FF" || self.r.p(25)) {
                    say!(self, "type by=str in={}", x(&guid.replacen(from, to, 1)));
                }
            }
            // almost a guid
            for t in [
                guid.replace('-', "_"),
                guid.replace('-', " "),
                format!("{guid} "),
                format!(" {guid}"),
                format!("({guid})"),
                format!("{{{guid}"),
                format!("{guid}}}"),
                format!("uuid:{low}"),
                format!("0x{simple}"),
                guid.replacen('-', "", 1),
                simple[..31].to_string(),
                format!("{simple}0"),
                simple.replacen('0', "O", 1).replacen('F', "G", 1),
            ] {
                say!(self, "type by=str in={}", x(&t));
            }
        }
        for t in [
            "",
            "-",
            "not a guid",
            "00000000-0000-0000-0000-00000000000g",
            "LINUX",
            "efi ",
            "\u{e4}",
        ] {
            say!(self, "type by=str in={}", x(t));
            say!(self, "type by=name in={}", x(t));
        }
        for _ in 0..scale {
            let g = self.r.guid();
            say!(self, "type by=uuid in={}", x(&g));
            say!(self, "type by=str in={}", x(&g));
        }
        self.s("type by=default in=");
        for t in OS_TEXTS {
            say!(self, "type by=os in={}", x(t));
            for u in [
                t.to_uppercase(),
                t.to_lowercase(),
                format!("{t} "),
                t[1..].to_string(),
                format!(" {t}"),
            ] {
                say!(self, "type by=os in={}", x(&u));
            }
        }
        // all of them through a disk
        let all = table();
        for (c, chunk) in all.chunks(100).enumerate() {
            self.begin();
            say!(self, "dev d {} fill=0", 400 * 512);
            self.s("create h d wr=1 lbs=512 g=abababababababababababababababab");
            for (i, t) in chunk.iter().enumerate() {
                if t.0 != "UNUSED" {
                    say!(
                        self,
                        "addat h id={} f={} len=1 t={} n=74",
                        i + 1,
                        40 + i,
                        t.0
                    );
                }
            }
            self.s("write h");
            self.s("open h d lbs=512 ov=1");
            let _ = c;
        }
    }
}
