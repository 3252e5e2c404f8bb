//! An object shared by clients under a simulated read-write lock, with backups to a simulated disk,
//! crashes and reloads. Used by C09 and C10.

use crate::alloc::{host, sut};
use crate::disk::{FaultyReader, IoEvent, SimDisk};
use crate::drive::{guarded, Shared};
use crate::rng::Rng;
use crate::sched;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::BTreeMap;
use std::io::{self, Write};

/// Whether a type may be read by several threads at once; if not, queries take the lock for
/// themselves as well.
pub struct Probe<T>(pub std::marker::PhantomData<T>);
pub trait MaybeNot {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> MaybeNot for Probe<T> {}
impl<T: Sync> Probe<T> {
    pub fn shareable(&self) -> bool {
        true
    }
}

pub trait Object: 'static {
    type Sut: Serialize + DeserializeOwned + 'static;
    type Model: Clone + 'static;
    type Op: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static;
    type Query: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static;
    fn shareable() -> bool;
    /// Can it be loaded again?
    fn durable(&self) -> bool {
        true
    }
    fn fresh(&self) -> (Self::Sut, Self::Model);
    /// Is the effect of this operation in this state specified?
    fn decided(m: &Self::Model, op: &Self::Op) -> bool;
    fn apply(s: &mut Self::Sut, op: &Self::Op);
    fn model(m: &mut Self::Model, op: &Self::Op);
    /// A difference between an answer and what it should be.
    fn query(s: &Self::Sut, m: &Self::Model, q: &Self::Query) -> Option<String>;
    fn audit(s: &Self::Sut, m: &Self::Model, image: &str) -> Option<String>;
}

#[derive(serde_derive::Serialize, serde_derive::Deserialize, Clone, Debug)]
pub enum Step<O, Q> {
    Op(O),
    Query(Q),
    /// several operations under one lock
    Batch(Vec<O>),
    Audit,
    /// io: faults of the writes
    Backup { chunk: u64, pretty: bool, io: Vec<IoEvent> },
    /// the process or the machine stops; it is started again from the last backup
    Crash { machine: bool, how: u8, chunk: u64, io: Vec<IoEvent> },
    Pause(u64),
}

/// numbers of the steps every run ends with
const AT_END: usize = 1 << 20;

struct World<T: Object> {
    t: T,
    sut: T::Sut,
    model: T::Model,
    disk: SimDisk,
    rng: Rng,
    /// what each complete backup contains
    backups: BTreeMap<u64, T::Model>,
    epoch: u64,
    ops: u64,
}

pub fn run<T: Object>(t: T, clients: Vec<Vec<Step<T::Op, T::Query>>>, seed: u64) {
    sched::go_live();
    let (sut, model) = t.fresh();
    let w = Shared::new(World { t, sut, model, disk: SimDisk::default(), rng: Rng::derive(seed, "disk"), backups: BTreeMap::new(), epoch: 0, ops: 0 });
    let lock = sched::new_lock();
    let left: Shared<usize> = Shared::new(clients.len());
    for (i, c) in clients.into_iter().enumerate() {
        let (w, left) = (w.clone(), left.clone());
        sched::spawn(i as u64, move || {
            for (k, s) in c.iter().enumerate() {
                step::<T>(i, k, s, &w, lock);
            }
            *left.get() -= 1;
            if *left.get() == 0 {
                step::<T>(i, AT_END, &Step::Audit, &w, lock);
                if !w.get().t.durable() {
                    return;
                }
                step::<T>(i, AT_END + 1, &Step::Backup { chunk: 0, pretty: false, io: vec![] }, &w, lock);
                step::<T>(i, AT_END + 2, &Step::Crash { machine: true, how: 0, chunk: 0, io: vec![] }, &w, lock);
                step::<T>(i, AT_END + 3, &Step::Audit, &w, lock);
            }
        });
    }
    sched::run();
}

fn no_panic<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match guarded(f) {
        Ok(r) => r,
        Err(e) => sched::fail("unexpected-panic", format!("{}: {:?}", what, e)),
    }
}

fn step<T: Object>(me: usize, k: usize, s: &Step<T::Op, T::Query>, w: &Shared<World<T>>, lock: usize) {
    let exclusive = !T::shareable();
    match s {
        Step::Backup { .. } | Step::Crash { .. } if !w.get().t.durable() => {}
        Step::Pause(us) => sched::sleep(us * 1000),
        Step::Op(op) => ops::<T>(me, k, std::slice::from_ref(op), w, lock),
        Step::Batch(o) => ops::<T>(me, k, o, w, lock),
        Step::Query(q) => {
            sched::lock(lock, exclusive);
            let x = w.get();
            sched::count("queries");
            if let Some(d) = no_panic(&format!("{:?}", q), || T::query(&x.sut, &x.model, q)) {
                sched::fail("wrong-answer", format!("client {} step {} {:?}, after {} operations and {} crashes: {}", me, k, q, x.ops, x.epoch, d));
            }
            sched::unlock(lock, exclusive);
        }
        Step::Audit => {
            sched::lock(lock, exclusive);
            let x = w.get();
            sched::count("audits");
            let text = no_panic("saving", || serde_json::to_string(&x.sut));
            let text = match text {
                Ok(t) => t,
                Err(e) => sched::fail("unwritable", e.to_string()),
            };
            slog!("c{} audit {:x}", me, sched::fnv(text.as_bytes()));
            sched::state(sched::fnv(text.as_bytes()));
            if let Some(d) = no_panic("audit", || T::audit(&x.sut, &x.model, &text)) {
                sched::fail("wrong-content", format!("client {} step {}, after {} operations and {} crashes: {}", me, k, x.ops, x.epoch, d));
            }
            sched::unlock(lock, exclusive);
        }
        Step::Backup { chunk, pretty, io } => backup::<T>(me, *chunk, *pretty, io, w, lock),
        Step::Crash { machine, how, chunk, io } => {
            sched::lock(lock, true);
            let x = w.get();
            x.epoch += 1;
            if k < AT_END {
                sched::count("nontrivial");
            }
            if *machine {
                sched::count("fault.machine_crash");
                x.disk.crash(&mut x.rng);
            } else {
                sched::count("fault.process_killed");
            }
            x.disk.sync_dir();
            let data = x.disk.read("backup");
            slog!("c{} crash (machine {}), backup {:?}", me, machine, data.as_ref().map(|d| sched::fnv(d)));
            let (sut, model) = match data {
                None => x.t.fresh(),
                Some(d) => {
                    let Some(m) = x.backups.get(&sched::fnv(&d)).cloned() else {
                        sched::harness_error("the disk lost a durable file".into());
                    };
                    let mut r = FaultyReader::new(d.clone(), io, *chunk as usize);
                    sched::count("reloads");
                    let text = String::from_utf8(d).unwrap_or_default();
                    let res = no_panic("loading a backup", || match how {
                        0 => serde_json::from_reader::<_, T::Sut>(&mut r),
                        1 => serde_json::from_str(&text),
                        2 => serde_json::from_str::<serde_json::Value>(&text).and_then(serde_json::from_value),
                        _ => serde_json::from_reader(io::BufReader::with_capacity(33, &mut r)),
                    });
                    match res {
                        Ok(s) => (s, m),
                        Err(e) => sched::fail("load-refused", format!("a complete backup does not load: {}", e)),
                    }
                }
            };
            // memory of a dead process is not dropped
            std::mem::forget(std::mem::replace(&mut x.sut, sut));
            x.model = model;
            sched::unlock(lock, true);
        }
    }
}

fn ops<T: Object>(me: usize, k: usize, ops: &[T::Op], w: &Shared<World<T>>, lock: usize) {
    sched::lock(lock, true);
    for op in ops {
        let x = w.get();
        if !T::decided(&x.model, op) {
            sched::count("operations_left_open");
            continue;
        }
        no_panic(&format!("client {} step {} {:?}", me, k, op), || T::apply(&mut x.sut, op));
        T::model(&mut x.model, op);
        x.ops += 1;
        sched::count("operations");
        slog!("c{} {:?}", me, op);
    }
    sched::unlock(lock, true);
}

struct Out<'a, T: Object> {
    w: &'a Shared<World<T>>,
    file: u64,
    epoch: u64,
    chunk: usize,
    pos: u64,
    io: Vec<IoEvent>,
}

impl<T: Object> Write for Out<'_, T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        host(|| {
            sched::point();
            let mut n = if self.chunk > 0 { buf.len().min(self.chunk) } else { buf.len() };
            if self.io.first().map_or(false, |e| e.at <= self.pos) {
                let e = self.io.remove(0);
                match e.kind.as_str() {
                    "intr" => {
                        sched::count("fault.write_interrupted");
                        return Err(io::ErrorKind::Interrupted.into());
                    }
                    "stall" => {
                        sched::count("fault.write_slow");
                        sched::sleep(e.arg.max(1));
                    }
                    "full" => {
                        sched::count("fault.disk_full");
                        sched::count("nontrivial");
                        self.io.insert(0, e);
                        return Err(io::Error::from_raw_os_error(libc::ENOSPC));
                    }
                    _ => {
                        sched::count("fault.write_short");
                        n = n.min(1);
                    }
                }
            }
            let x = self.w.get();
            if x.epoch == self.epoch {
                x.disk.append(self.file, &buf[..n]);
            }
            self.pos += n as u64;
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn backup<T: Object>(me: usize, chunk: u64, pretty: bool, io: &[IoEvent], w: &Shared<World<T>>, lock: usize) {
    let exclusive = !T::shareable();
    sched::lock(lock, exclusive);
    let epoch = w.get().epoch;
    let mut io = io.to_vec();
    io.sort_by_key(|e| e.at);
    // every client has a temporary file of its own
    let tmp = format!("tmp{}", me);
    let file = w.get().disk.create(&tmp);
    let mut out = io::BufWriter::with_capacity(100, Out { w, file, epoch, chunk: chunk as usize, pos: 0, io });
    let x = w.get();
    let r = no_panic("saving a backup", || {
        if pretty {
            serde_json::to_writer_pretty(&mut out, &x.sut)?;
        } else {
            serde_json::to_writer(&mut out, &x.sut)?;
        }
        out.flush()
    });
    let _ = out.into_parts();
    let model = x.model.clone();
    sched::unlock(lock, exclusive);
    if let Err(e) = r {
        slog!("c{} backup failed: {}", me, e);
        sched::count("backups_failed");
        return;
    }
    // each of these may be the last thing before a crash
    sched::point();
    if w.get().epoch != epoch {
        return;
    }
    w.get().disk.sync(file);
    let data = w.get().disk.read(&tmp).unwrap_or_default();
    w.get().backups.insert(sched::fnv(&data), model);
    sched::point();
    if w.get().epoch != epoch {
        return;
    }
    w.get().disk.rename(&tmp, "backup");
    sched::point();
    if w.get().epoch != epoch {
        return;
    }
    w.get().disk.sync_dir();
    sched::count("backups");
    slog!("c{} backup {:x}", me, sched::fnv(&data));
}

/// The usual mix of steps.
pub fn gen_steps<O, Q>(rng: &mut Rng, n: usize, op: &mut dyn FnMut(&mut Rng) -> O, q: &mut dyn FnMut(&mut Rng) -> Q) -> Vec<Step<O, Q>> {
    let crashy = rng.chance(0.6);
    (0..n)
        .map(|_| {
            let io = |rng: &mut Rng, kinds: &[&str]| crate::disk::gen_events(rng, 600, kinds, 2);
            match rng.below(24) {
                0..=9 => Step::Op(op(rng)),
                10..=17 => Step::Query(q(rng)),
                18 => Step::Batch((0..2 + rng.usize(8)).map(|_| op(rng)).collect()),
                19 | 20 => Step::Audit,
                21 if crashy => Step::Backup {
                    chunk: *rng.pick(&[0, 1, 30]),
                    pretty: rng.chance(0.2),
                    io: io(rng, &["intr", "short", "stall", "full"]),
                },
                22 if crashy && rng.chance(0.5) => Step::Crash {
                    machine: rng.chance(0.5),
                    how: rng.below(4) as u8,
                    chunk: *rng.pick(&[0, 1, 20]),
                    io: io(rng, &["intr", "short", "stall"]),
                },
                23 if rng.chance(0.3) => Step::Pause(rng.below(3000)),
                _ => Step::Op(op(rng)),
            }
        })
        .collect()
}

pub fn text_of<T: Serialize>(t: &T) -> String {
    sut(|| serde_json::to_string(t)).unwrap_or_default()
}
