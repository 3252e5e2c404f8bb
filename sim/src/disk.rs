//! A simulated disk, and readers and writers that misbehave.

use crate::alloc::host;
use crate::rng::Rng;
use crate::sched;
use serde_derive::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{self, ErrorKind, Read, Write};

/// An event at a byte position of a stream.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct IoEvent {
    pub at: u64,
    /// intr, short, stall (recoverable); err, dead, zero, panic for writers; err, eof, flip for readers
    pub kind: String,
    #[serde(default)]
    pub arg: u64,
}

pub struct FaultyWriter {
    pub out: Vec<u8>,
    pub events: Vec<IoEvent>,
    /// accept at most this many bytes per call (0: no limit)
    pub chunk: usize,
    /// an unrecoverable fault was reported to the caller
    pub failed: bool,
    dead: bool,
    pub calls: u64,
}

impl FaultyWriter {
    pub fn new(events: &[IoEvent], chunk: usize) -> Self {
        let mut events = events.to_vec();
        events.sort_by_key(|e| e.at);
        FaultyWriter { out: vec![], events, chunk, failed: false, dead: false, calls: 0 }
    }
}

impl Write for FaultyWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        host(|| {
            sched::point();
            self.calls += 1;
            if self.dead {
                return Err(io::Error::new(ErrorKind::Other, "simulated: device gone"));
            }
            if buf.is_empty() {
                return Ok(0);
            }
            let mut n = if self.chunk > 0 { buf.len().min(self.chunk) } else { buf.len() };
            let pos = self.out.len() as u64;
            // every event due here, in order, before a byte beyond it is passed on
            while let Some(e) = self.events.first().cloned() {
                if e.at <= pos {
                    self.events.remove(0);
                    match e.kind.as_str() {
                        "intr" => {
                            sched::count("fault.write_interrupted");
                            return Err(io::Error::new(ErrorKind::Interrupted, "simulated: interrupted"));
                        }
                        "short" => {
                            sched::count("fault.write_short");
                            n = 1;
                        }
                        "stall" => {
                            sched::count("fault.write_slow");
                            sched::sleep(e.arg.max(1));
                        }
                        "err" => {
                            sched::count("fault.write_error_transient");
                            self.failed = true;
                            return Err(io::Error::new(ErrorKind::Other, "simulated: transient error"));
                        }
                        "zero" => {
                            sched::count("fault.write_accepts_nothing");
                            self.failed = true;
                            return Ok(0);
                        }
                        "full" => {
                            sched::count("fault.disk_full");
                            self.failed = true;
                            self.dead = true;
                            return Err(io::Error::from_raw_os_error(libc::ENOSPC));
                        }
                        "panic" => {
                            sched::count("fault.writer_panics");
                            self.failed = true;
                            std::panic::resume_unwind(Box::new(crate::drive::Injected));
                        }
                        _ => {
                            sched::count("fault.write_error_permanent");
                            self.failed = true;
                            self.dead = true;
                            return Err(io::Error::new(ErrorKind::BrokenPipe, "simulated: device gone"));
                        }
                    }
                } else {
                    // stop where the event is
                    n = n.min((e.at - pos) as usize);
                    break;
                }
            }
            self.out.extend_from_slice(&buf[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        host(|| {
            sched::point();
            if self.dead {
                return Err(io::Error::new(ErrorKind::Other, "simulated: device gone"));
            }
            Ok(())
        })
    }
}

pub struct FaultyReader {
    data: Vec<u8>,
    pos: usize,
    events: Vec<IoEvent>,
    chunk: usize,
    /// an unrecoverable fault was reported to the caller
    pub failed: bool,
}

impl FaultyReader {
    pub fn new(data: Vec<u8>, events: &[IoEvent], chunk: usize) -> Self {
        let mut events = events.to_vec();
        events.sort_by_key(|e| e.at);
        FaultyReader { data, pos: 0, events, chunk, failed: false }
    }
}

impl Read for FaultyReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        host(|| {
            sched::point();
            let mut n = buf.len().min(self.data.len() - self.pos);
            if self.chunk > 0 {
                n = n.min(self.chunk);
            }
            // every event due here, in order, before a byte beyond it is passed on
            while let Some(e) = self.events.first().cloned() {
                if e.at <= self.pos as u64 {
                    self.events.remove(0);
                    match e.kind.as_str() {
                        "intr" => {
                            sched::count("fault.read_interrupted");
                            return Err(io::Error::new(ErrorKind::Interrupted, "simulated: interrupted"));
                        }
                        "short" => {
                            sched::count("fault.read_short");
                            n = n.min(1);
                        }
                        "stall" => {
                            sched::count("fault.read_slow");
                            sched::sleep(e.arg.max(1));
                        }
                        "panic" => {
                            sched::count("fault.reader_panics");
                            self.failed = true;
                            std::panic::resume_unwind(Box::new(crate::drive::Injected));
                        }
                        _ => {
                            sched::count("fault.read_error");
                            self.failed = true;
                            return Err(io::Error::new(ErrorKind::Other, "simulated: read error"));
                        }
                    }
                } else {
                    n = n.min((e.at - self.pos as u64) as usize);
                    break;
                }
            }
            buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        })
    }
}

/// Events spread over `len` bytes.
pub fn gen_events(rng: &mut Rng, len: u64, kinds: &[&str], max: u64) -> Vec<IoEvent> {
    (0..rng.below(max + 1))
        .map(|_| IoEvent {
            at: match rng.below(8) {
                0 => 0,
                1 => len.saturating_sub(1 + rng.below(4)),
                _ => rng.below(len.max(1)),
            },
            kind: rng.pick(kinds).to_string(),
            arg: rng.below(5_000_000),
        })
        .collect()
}

/// Files with a volatile and a durable side. Appends become durable with `sync`, renames with
/// `sync_dir`; a crash keeps an arbitrary part of what is not yet durable.
#[derive(Default)]
pub struct SimDisk {
    files: BTreeMap<u64, File>,
    names: BTreeMap<String, u64>,
    durable_names: BTreeMap<String, u64>,
    next: u64,
}

#[derive(Default, Clone)]
struct File {
    data: Vec<u8>,
    durable: usize,
}

impl SimDisk {
    pub fn create(&mut self, name: &str) -> u64 {
        self.next += 1;
        self.files.insert(self.next, File::default());
        self.names.insert(name.into(), self.next);
        self.next
    }
    pub fn append(&mut self, f: u64, b: &[u8]) {
        self.files.get_mut(&f).unwrap().data.extend_from_slice(b);
    }
    pub fn sync(&mut self, f: u64) {
        let f = self.files.get_mut(&f).unwrap();
        f.durable = f.data.len();
    }
    pub fn rename(&mut self, from: &str, to: &str) {
        if let Some(f) = self.names.remove(from) {
            self.names.insert(to.into(), f);
        }
    }
    pub fn sync_dir(&mut self) {
        self.durable_names = self.names.clone();
    }
    pub fn read(&self, name: &str) -> Option<Vec<u8>> {
        self.names.get(name).map(|f| self.files[f].data.clone())
    }
    pub fn crash(&mut self, rng: &mut Rng) {
        if self.names != self.durable_names {
            // a rename or creation not yet synced may or may not have reached the disk
            let names: Vec<String> = self.names.keys().chain(self.durable_names.keys()).cloned().collect();
            for n in names {
                if self.names.get(&n) != self.durable_names.get(&n) && rng.chance(0.5) {
                    sched::count("fault.rename_lost");
                    match self.durable_names.get(&n) {
                        Some(f) => {
                            self.names.insert(n, *f);
                        }
                        None => {
                            self.names.remove(&n);
                        }
                    }
                }
            }
            self.durable_names = self.names.clone();
        }
        for f in self.files.values_mut() {
            if f.durable < f.data.len() {
                let keep = f.durable + rng.usize(f.data.len() - f.durable + 1);
                if keep < f.data.len() {
                    sched::count("fault.unsynced_write_lost");
                }
                f.data.truncate(keep);
                if f.data.len() > f.durable && rng.chance(0.2) {
                    sched::count("fault.torn_write");
                    let n = f.data.len();
                    let from = n - (n - f.durable).min(8);
                    for b in &mut f.data[from..] {
                        *b = 0;
                    }
                }
                f.durable = f.data.len();
            }
        }
    }
}
