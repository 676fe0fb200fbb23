//! Crash images: after a power loss every block of the device holds one of the versions it
//! had since the last completed flush.

use crate::decode::{self, Med};
use crate::dev::{Inner, LogOp};
use crate::js::{arr, b, s, Obj};
use crate::world::{open_image, Cfg, Log};
use std::collections::{BTreeMap, BTreeSet};

struct Rng(u64);
impl Rng {
    fn next(&mut self, n: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) % n.max(1)
    }
}

type Pending = BTreeMap<u64, Vec<Vec<u8>>>;

fn block(i: &Inner, x: u64, lbs: u64) -> Vec<u8> {
    // a device may end within a block
    let n = lbs.min(i.size.saturating_sub(x * lbs));
    i.peek(x * lbs, n as usize).expect("block inside")
}

/// Calls f with crash states of a write: the crash point, what was applied and the device.
/// All of them if there are few, else some of them.
fn states(img: &Inner, log: &Log, lbs: u64, seed: u64, mut f: impl FnMut(usize, String, Inner)) {
    let mut rng = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1);
    let mut durable = clean(img);
    let mut cur = clean(img);
    let mut pend: Pending = BTreeMap::new();
    let mut seen = BTreeSet::new();
    for (k, op) in log.iter().enumerate() {
        match op {
            LogOp::Flush => {
                durable = cur.clone();
                pend.clear();
                continue;
            }
            LogOp::Write(off, data) => {
                let blocks = off / lbs..(off + data.len() as u64).div_ceil(lbs);
                for x in blocks.clone() {
                    pend.entry(x).or_insert_with(|| vec![block(&cur, x, lbs)]);
                }
                cur.poke(*off, data);
                for x in blocks {
                    let v = pend.get_mut(&x).expect("pending");
                    let c = block(&cur, x, lbs);
                    if v.last() != Some(&c) {
                        v.push(c);
                    }
                }
            }
        }
        // blocks for which it makes a difference
        let eff: Vec<u64> = pend
            .iter()
            .filter(|p| p.1.len() > 1)
            .map(|p| *p.0)
            .collect();
        if eff.is_empty() {
            continue;
        }
        let mut choices: Vec<(String, BTreeMap<u64, usize>)> = vec![];
        let latest = |x: &u64| pend[x].len() - 1;
        choices.push(("all".into(), eff.iter().map(|x| (*x, latest(x))).collect()));
        let some: Vec<u64> = if eff.len() <= 12 {
            eff.clone()
        } else {
            let mut v = vec![eff[0], *eff.last().expect("nonempty")];
            for _ in 0..8 {
                v.push(eff[rng.next(eff.len() as u64) as usize]);
            }
            v
        };
        for x in &some {
            choices.push((format!("only {x}"), [(*x, latest(x))].into()));
            choices.push((
                format!("all but {x}"),
                eff.iter()
                    .filter(|y| *y != x)
                    .map(|y| (*y, latest(y)))
                    .collect(),
            ));
        }
        for _ in 0..8 {
            let m: BTreeMap<u64, usize> = eff
                .iter()
                .map(|x| (*x, rng.next(pend[x].len() as u64) as usize))
                .collect();
            choices.push((format!("{m:?}"), m));
        }
        for (how, m) in choices {
            let mut i = durable.clone();
            for (x, v) in &m {
                i.poke(x * lbs, &pend[x][*v]);
            }
            // a device that was extended has its new size
            if seen.insert(i.digest()) {
                f(k, how, i);
            }
        }
    }
}

/// The last write whose states were explored, for a power loss
pub struct Lost {
    pub dev: String,
    pub img: Inner,
    pub log: Vec<LogOp>,
    pub lbs: u64,
}

impl Lost {
    /// One of the crash states.  The two letters of want say what the copies are: o (as before
    /// the write), n (as after it) or t (torn: neither).
    pub fn state(&self, seed: u64, want: &str) -> Option<Inner> {
        let views = |i: &Inner| {
            let last = (i.size / self.lbs).saturating_sub(1);
            [1, last].map(|x| decode::view(i, x, self.lbs))
        };
        let old = views(&clean(&self.img));
        let mut done = clean(&self.img);
        for op in &self.log {
            if let LogOp::Write(off, data) = op {
                done.poke(*off, data);
            }
        }
        let new = views(&done);
        let mut found = vec![];
        states(&self.img, &self.log, self.lbs, seed, |_, _, i| {
            let v = views(&i);
            let is = |k: usize, c: char| match c {
                'o' => v[k].js() == old[k].js(),
                'n' => v[k].js() == new[k].js(),
                _ => v[k].js() != old[k].js() && v[k].js() != new[k].js(),
            };
            if want.chars().enumerate().all(|(k, c)| is(k, c)) {
                found.push(i);
            }
        });
        let mut rng = Rng(seed.wrapping_mul(0x2545_f491_4f6c_dd1d) | 1);
        let n = rng.next(found.len() as u64) as usize;
        found.into_iter().nth(n)
    }
}

pub fn explore(img: &Inner, log: &Log, cfg: &Cfg, med0: &Med, new: &str, seed: u64) -> String {
    let lbs = cfg.lbs;
    let old = med0.tables();
    // outcome -> (number, first crash point, what was applied)
    let mut out: BTreeMap<String, (u64, usize, String)> = BTreeMap::new();
    let mut n = 0u64;
    if !old.is_empty() {
        states(img, log, lbs, seed, |k, how, i| {
            n += 1;
            let r = open_image(i, lbs).text();
            let e = out.entry(r).or_insert((0, k, how));
            e.0 += 1;
        });
    }
    Obj::new()
        .f("old", arr(old.iter().map(|x| s(x))))
        .f("new", s(new))
        .f("n", n.to_string())
        // nothing to lose where there was no table
        .f(
            "wl",
            if old.is_empty() {
                "[]".to_string()
            } else {
                arr([wlog(img, log, lbs, &old, new)])
            },
        )
        .f(
            "out",
            arr(out.iter().map(|(r, (c, k, how))| {
                Obj::new()
                    .f("r", s(r))
                    .f("n", c.to_string())
                    .f("pt", k.to_string())
                    .f("how", s(&how.chars().take(200).collect::<String>()))
                    .done()
            })),
        )
        .done()
}

fn clean(i: &Inner) -> Inner {
    let mut i = i.clone();
    i.log = None;
    i.fault_at = None;
    i.short = 0;
    i.intr = 0;
    i.pos = 0;
    i.reset();
    i
}

/// The block writes of a table write, with contents as numbers, and what every content of
/// a header block means.
fn wlog(img: &Inner, log: &Log, lbs: u64, old: &[String], new: &str) -> String {
    let mut ids: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut id = |x: Vec<u8>| {
        let n = ids.len() + 1;
        *ids.entry(x).or_insert(n)
    };
    // all states in order
    let mut states = vec![clean(img)];
    for op in log {
        if let LogOp::Write(off, data) = op {
            let mut i = states.last().expect("state").clone();
            i.poke(*off, data);
            states.push(i);
        }
    }
    let mut blocks = BTreeSet::new();
    for op in log {
        if let LogOp::Write(off, data) = op {
            blocks.extend(off / lbs..(off + data.len() as u64).div_ceil(lbs));
        }
    }
    // the headers that ever were at the two positions, with the arrays they match
    let last = (img.size / lbs).saturating_sub(1);
    let mut hdrs: BTreeMap<(u64, usize), (bool, Vec<u64>, BTreeMap<Vec<usize>, String>)> =
        BTreeMap::new();
    let mut raw: BTreeMap<(u64, usize), Vec<u8>> = BTreeMap::new();
    for i in &states {
        for pos in [1, last] {
            let x = block(i, pos, lbs);
            raw.entry((pos, id(x.clone()))).or_insert(x);
        }
    }
    for ((pos, hid), bytes) in &raw {
        let mut e = (false, vec![], BTreeMap::new());
        for i in &states {
            let mut j = i.clone();
            j.poke(pos * lbs, bytes);
            let v = decode::view(&j, *pos, lbs);
            if !v.hdr_ok() || !v.rd {
                break;
            }
            e.0 = true;
            let n = (v.np * v.es).div_ceil(lbs);
            e.1 = (v.ps..v.ps + n).collect();
            if v.ac {
                let vec: Vec<usize> = e.1.iter().map(|x| id(block(&j, *x, lbs))).collect();
                e.2.insert(vec, decode::table_digest(&v.g, &v.ents));
            }
        }
        blocks.insert(*pos);
        blocks.extend(&e.1);
        hdrs.insert((*pos, *hid), e);
    }
    let init = arr(blocks
        .iter()
        .map(|x| format!("[{x},{}]", id(block(&states[0], *x, lbs)))));
    let mut k = 0;
    let ops = arr(log.iter().map(|op| match op {
        LogOp::Flush => "[]".to_string(),
        LogOp::Write(off, data) => {
            k += 1;
            let i = &states[k];
            arr((off / lbs..(off + data.len() as u64).div_ceil(lbs))
                .map(|x| format!("[{x},{}]", id(block(i, x, lbs)))))
        }
    }));
    let h = arr(hdrs.iter().map(|((pos, hid), (ok, bl, vecs))| {
        Obj::new()
            .f("pos", pos.to_string())
            .f("id", hid.to_string())
            .f("ok", b(*ok))
            .f("blks", arr(bl.iter().map(|x| x.to_string())))
            .f(
                "vecs",
                arr(vecs.iter().map(|(v, t)| {
                    Obj::new()
                        .f("ids", arr(v.iter().map(|x| x.to_string())))
                        .f("tab", s(t))
                        .done()
                })),
            )
            .done()
    }));
    Obj::new()
        .f("last", last.to_string())
        .f("init", init)
        .f("ops", ops)
        .f("hdrs", h)
        .f("tabs", arr(old.iter().map(|x| s(x)).chain([s(new)])))
        .done()
}
