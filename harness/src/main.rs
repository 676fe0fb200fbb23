mod crash;
mod decode;
mod dev;
mod files;
mod gen;
mod js;
mod types_table;
mod world;

use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use world::World;

/// Where events and the scripts which made them go: histories are spread over chunks.
pub struct Sink {
    world: World,
    ev: Vec<BufWriter<File>>,
    sc: Vec<BufWriter<File>>,
    size: Vec<u64>,
    chunk: usize,
    pub histories: u64,
    pub events: u64,
    /// histories which could not be carried on, as what they need does not exist
    pub abandoned: Vec<String>,
    /// histories in which the crate panicked outside of the calls the events are about, that
    /// is while its state was looked at
    panics: Vec<(Vec<String>, String)>,
    lines: Vec<String>,
    skip: bool,
    now: File,
    prefix: String,
}

impl Sink {
    fn new(prefix: &str, chunks: usize) -> Self {
        let f = |n: String| File::create(n).expect("output");
        let dir = PathBuf::from(format!("{prefix}.scratch"));
        std::fs::create_dir_all(&dir).expect("scratch dir");
        Self {
            world: World::new(dir),
            ev: (0..chunks)
                .map(|i| BufWriter::new(f(format!("{prefix}.{i}.ndjson"))))
                .collect(),
            sc: (0..chunks)
                .map(|i| BufWriter::new(f(format!("{prefix}.{i}.script"))))
                .collect(),
            size: vec![0; chunks],
            chunk: 0,
            histories: 0,
            events: 0,
            abandoned: vec![],
            panics: vec![],
            lines: vec![],
            skip: false,
            now: f(format!("{prefix}.now")),
            prefix: prefix.into(),
        }
    }

    /// run a command of the current history
    pub fn step(&mut self, line: &str) {
        if line.starts_with("begin") {
            self.skip = false;
            self.histories += 1;
            let m = self.size.iter().min().expect("chunks");
            self.chunk = self.size.iter().position(|x| x == m).expect("min");
            self.now.set_len(0).expect("now");
            std::io::Seek::rewind(&mut self.now).expect("now");
            self.lines.clear();
        }
        if self.skip {
            return;
        }
        // what runs now, in case the process does not survive it
        let _ = self.now.write_all(format!("{line}\n").as_bytes());
        self.lines.push(line.into());
        let world = AssertUnwindSafe(&mut self.world);
        let done = catch_unwind(move || {
            let w = world;
            w.0.exec(line)
        });
        let done = done.unwrap_or_else(|p| {
            let m = message(&*p);
            let at = PANIC.with(|x| x.take());
            if theirs(&at) && self.panics.len() < 5 {
                self.panics.push((self.lines.clone(), format!("{m} ({at})")));
            }
            self.abandon(format!("{line}: {m}"));
            None
        });
        if let Some(e) = done {
            let c = self.chunk;
            writeln!(self.ev[c], "{e}").expect("events");
            writeln!(self.sc[c], "{line}").expect("script");
            self.size[c] += e.len() as u64 + 200;
            self.events += 1;
        }
    }

    /// the rest of the history cannot be done: an earlier call has not done what it should
    pub fn abandon(&mut self, why: String) {
        if !self.skip {
            self.abandoned.push(why);
        }
        self.skip = true;
    }

    fn finish(mut self) {
        self.world.clear();
        for f in self.ev.iter_mut().chain(self.sc.iter_mut()) {
            f.flush().expect("flush");
        }
        let _ = std::fs::remove_dir(&self.world.dir);
        let _ = std::fs::remove_file(format!("{}.now", self.prefix));
        println!(
            "{{\"histories\":{},\"events\":{},\"abandoned\":{},\"why\":{},\"panics\":{}}}",
            self.histories,
            self.events,
            self.abandoned.len(),
            js::s(self.abandoned.first().map_or("", |x| x)),
            js::arr(self.panics.iter().map(|(l, m)| js::arr([
                js::arr(l.iter().map(|x| js::s(x))),
                js::s(m)
            ])))
        );
    }
}

thread_local! {
    /// where the last panic was
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// whether a place is in the crate under test
fn theirs(at: &str) -> bool {
    at.starts_with('/') && !at.starts_with("/rustc/") && !at.contains("/registry/")
        && !at.contains("/harness/src/") && !at.contains("/toolchains/")
}

pub fn message(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
        .unwrap_or_default()
}

extern "C" {
    fn setrlimit(resource: i32, limits: *const [u64; 2]) -> i32;
}

fn main() {
    // content of a device must not make the crate ask for any amount of memory
    const RLIMIT_AS: i32 = 9;
    let limit = 448u64 << 20;
    unsafe {
        setrlimit(RLIMIT_AS, &[limit, limit]);
    }
    std::panic::set_hook(Box::new(|p| {
        let at = p.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        PANIC.with(|x| *x.borrow_mut() = at);
    }));
    let a: Vec<String> = std::env::args().collect();
    let r = catch_unwind(|| match a[1].as_str() {
        // run SCRIPT PREFIX CHUNKS
        "run" => {
            let mut k = Sink::new(&a[3], a[4].parse().expect("chunks"));
            for l in std::fs::read_to_string(&a[2]).expect("script").lines() {
                if !l.trim().is_empty() && !l.starts_with('#') {
                    k.step(l);
                }
            }
            k.finish();
        }
        // gen FAMILY SEED SCALE PREFIX CHUNKS
        "gen" => {
            let mut k = Sink::new(&a[5], a[6].parse().expect("chunks"));
            let (seed, scale) = (a[3].parse().expect("seed"), a[4].parse().expect("scale"));
            let g = AssertUnwindSafe(&mut k);
            let family = &a[2];
            let r = catch_unwind(move || {
                let g = g;
                gen::run(family, seed, scale, g.0)
            });
            if let Err(p) = r {
                k.abandon(message(&*p));
            }
            k.finish();
        }
        x => panic!("unknown command {x}"),
    });
    if let Err(p) = r {
        // a mistake of the harness, not of the code under test
        eprintln!("harness: {}", message(&*p));
        std::process::exit(2);
    }
}
