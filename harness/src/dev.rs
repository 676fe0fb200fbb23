//! A simulated block device: sparse, recording, fault injecting.
//!
//! It behaves like a file or a `Cursor<Vec<u8>>`: a write behind the end extends it
//! (unless it is fixed in size), a read behind the end returns nothing.

use crate::js::{fnv, FNV0};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

pub const CH: u64 = 512;
pub type Chunk = [u8; CH as usize];

#[derive(Clone, Debug)]
pub enum LogOp {
    Write(u64, Vec<u8>),
    Flush,
}

#[derive(Clone)]
pub struct Inner {
    pub size: u64,
    pub chunks: BTreeMap<u64, Chunk>,
    pub fill: u64,
    pub pos: u64,
    pub fixed: bool,
    /// transfer at most that many bytes per call
    pub short: usize,
    /// every n-th read or write is interrupted
    pub intr: u64,
    pub intr_n: u64,
    /// number of operations since the last reset, and the one which fails
    pub ops: u64,
    pub fault_at: Option<u64>,
    pub fault_sticky: bool,
    /// what kind of error
    pub fault_kind: u64,
    pub fault_hit: Vec<&'static str>,
    pub log: Option<Vec<LogOp>>,
    /// original content of the chunks written since the last reset
    pub touched: BTreeMap<u64, Chunk>,
    pub unflushed: bool,
    pub writes: u64,
    pub flushes: u64,
    pub digest: u64,
}

pub fn fill_chunk(fill: u64, c: u64) -> Chunk {
    let mut out = [0u8; CH as usize];
    if fill != 0 {
        let mut x = fnv(FNV0 ^ fill, &c.to_le_bytes()) | 1;
        for b in out.iter_mut() {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            *b = (x >> 24) as u8;
        }
    }
    out
}

fn chunk_hash(c: u64, b: &Chunk) -> u64 {
    fnv(fnv(FNV0, &c.to_le_bytes()), b)
}

impl Inner {
    pub fn new(size: u64, fill: u64, fixed: bool) -> Self {
        Self {
            size,
            chunks: BTreeMap::new(),
            fill,
            pos: 0,
            fixed,
            short: 0,
            intr: 0,
            intr_n: 0,
            ops: 0,
            fault_at: None,
            fault_sticky: false,
            fault_kind: 0,
            fault_hit: vec![],
            log: None,
            touched: BTreeMap::new(),
            unflushed: false,
            writes: 0,
            flushes: 0,
            digest: fnv(FNV0, &fill.to_le_bytes()),
        }
    }

    /// the content of a file
    pub fn of(x: &[u8]) -> Self {
        let mut i = Self::new(x.len() as u64, 0, false);
        i.poke(0, x);
        i.reset();
        i
    }

    pub fn chunk(&self, c: u64) -> Chunk {
        match self.chunks.get(&c) {
            Some(b) => *b,
            None => fill_chunk(self.fill, c),
        }
    }

    /// read for the harness: no faults, nothing counted, None behind the end
    pub fn peek(&self, off: u64, len: usize) -> Option<Vec<u8>> {
        if off.checked_add(len as u64)? > self.size {
            return None;
        }
        if self.fill == 0 && len > 4096 {
            let last = (off + len as u64 - 1) / CH;
            if self.chunks.range(off / CH..=last).next().is_none() {
                return Some(vec![0; len]);
            }
        }
        let mut out = Vec::with_capacity(len);
        let mut p = off;
        while out.len() < len {
            let ch = self.chunk(p / CH);
            let s = (p % CH) as usize;
            let n = (len - out.len()).min(CH as usize - s);
            out.extend_from_slice(&ch[s..s + n]);
            p += n as u64;
        }
        Some(out)
    }

    /// write for the harness (and the raw effect of a device write)
    pub fn poke(&mut self, off: u64, data: &[u8]) {
        let end = off + data.len() as u64;
        if end > self.size {
            self.size = end;
        }
        let mut p = off;
        let mut d = data;
        while !d.is_empty() {
            let c = p / CH;
            let s = (p % CH) as usize;
            let n = d.len().min(CH as usize - s);
            let old = self.chunk(c);
            let mut new = old;
            new[s..s + n].copy_from_slice(&d[..n]);
            if new != old {
                self.touched.entry(c).or_insert(old);
                self.digest = self
                    .digest
                    .wrapping_sub(chunk_hash(c, &old))
                    .wrapping_add(chunk_hash(c, &new));
                self.chunks.insert(c, new);
            }
            p += n as u64;
            d = &d[n..];
        }
    }

    pub fn resize(&mut self, size: u64) {
        self.size = size;
        let gone: Vec<u64> = self
            .chunks
            .range(size.div_ceil(CH)..)
            .map(|(c, _)| *c)
            .collect();
        for c in gone {
            self.chunks.remove(&c);
        }
    }

    pub fn digest(&self) -> String {
        format!(
            "{:016x}",
            self.digest ^ self.size.wrapping_mul(0x9e37_79b9_7f4a_7c15)
        )
    }

    /// start observing one operation
    pub fn reset(&mut self) {
        self.touched.clear();
        self.ops = 0;
        self.fault_hit.clear();
        self.writes = 0;
        self.flushes = 0;
    }

    /// bytes which differ since the last reset, as runs (start, length) of units
    pub fn changed(&self, unit: u64) -> Vec<(u64, u64)> {
        let mut units = std::collections::BTreeSet::new();
        for (c, old) in &self.touched {
            let new = self.chunk(*c);
            for i in 0..CH as usize {
                if old[i] != new[i] {
                    units.insert((c * CH + i as u64) / unit);
                }
            }
        }
        runs(units)
    }

    fn op(&mut self, kind: &'static str) -> io::Result<()> {
        self.ops += 1;
        if let Some(k) = self.fault_at {
            if self.ops == k || (self.fault_sticky && self.ops > k) {
                use io::ErrorKind::*;
                let e = match self.fault_kind {
                    // an interruption is no failure where it is usual to try again
                    1 if kind == "flush" => Interrupted,
                    2 => Unsupported,
                    3 => InvalidInput,
                    4 => PermissionDenied,
                    5 => WouldBlock,
                    6 => TimedOut,
                    7 => UnexpectedEof,
                    8 => NotFound,
                    9 => WriteZero,
                    10 => InvalidData,
                    11 => BrokenPipe,
                    _ => Other,
                };
                self.fault_hit.push(if e == Interrupted { "again" } else { kind });
                return Err(io::Error::new(e, "injected fault"));
            }
        }
        Ok(())
    }

    fn interrupted(&mut self) -> io::Result<()> {
        if self.intr > 0 {
            self.intr_n += 1;
            if self.intr_n % self.intr == 0 {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
        }
        Ok(())
    }

    fn cap(&self, n: usize) -> usize {
        if self.short > 0 {
            n.min(self.short)
        } else {
            n
        }
    }
}

pub fn runs(units: impl IntoIterator<Item = u64>) -> Vec<(u64, u64)> {
    let mut out: Vec<(u64, u64)> = vec![];
    for u in units {
        match out.last_mut() {
            Some((s, n)) if *s + *n == u => *n += 1,
            _ => out.push((u, 1)),
        }
    }
    out
}

thread_local! {
    /// devices made by cloning, to be picked up by the executor
    pub static CLONED: RefCell<Vec<SimDev>> = const { RefCell::new(vec![]) };
}

pub struct SimDev(pub Rc<RefCell<Inner>>);

impl SimDev {
    pub fn new(i: Inner) -> Self {
        Self(Rc::new(RefCell::new(i)))
    }
    pub fn share(&self) -> Self {
        Self(self.0.clone())
    }
}

/// cloning copies the device
impl Clone for SimDev {
    fn clone(&self) -> Self {
        let n = Self::new(self.0.borrow().clone());
        CLONED.with(|c| c.borrow_mut().push(n.share()));
        n
    }
}

impl fmt::Debug for SimDev {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SimDev")
    }
}

impl Read for SimDev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut d = self.0.borrow_mut();
        d.interrupted()?;
        d.op("read")?;
        let n = d.cap(buf.len()) as u64;
        let n = n.min(d.size.saturating_sub(d.pos)) as usize;
        if n > 0 {
            let v = d.peek(d.pos, n).expect("in range");
            buf[..n].copy_from_slice(&v);
            d.pos += n as u64;
        }
        Ok(n)
    }
}

impl Write for SimDev {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut d = self.0.borrow_mut();
        d.interrupted()?;
        d.op("write")?;
        let mut n = d.cap(buf.len());
        if d.fixed {
            n = (n as u64).min(d.size.saturating_sub(d.pos)) as usize;
        }
        if d.pos.checked_add(n as u64).is_none() || d.pos > (1 << 62) && d.pos + n as u64 > d.size {
            return Err(io::Error::new(io::ErrorKind::Other, "device full"));
        }
        let pos = d.pos;
        if n > 0 {
            d.poke(pos, &buf[..n]);
            if let Some(l) = d.log.as_mut() {
                l.push(LogOp::Write(pos, buf[..n].to_vec()));
            }
            d.unflushed = true;
            d.writes += 1;
            d.pos += n as u64;
        }
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        let mut d = self.0.borrow_mut();
        d.op("flush")?;
        if let Some(l) = d.log.as_mut() {
            l.push(LogOp::Flush);
        }
        d.unflushed = false;
        d.flushes += 1;
        Ok(())
    }
}

impl Seek for SimDev {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let mut d = self.0.borrow_mut();
        d.op("seek")?;
        let to = match p {
            SeekFrom::Start(o) => i128::from(o),
            SeekFrom::End(o) => i128::from(d.size) + i128::from(o),
            SeekFrom::Current(o) => i128::from(d.pos) + i128::from(o),
        };
        if to < 0 || to > i128::from(u64::MAX) {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid seek"));
        }
        d.pos = to as u64;
        Ok(d.pos)
    }
}
