//! The simulated I2C buses: virtual time, fault injection, transaction log, and the baton that
//! decides which driver thread runs.

use crate::camera::*;
use crate::model::*;
use crate::plan::{Class, Fault, Fk, Plan};
use crate::rng::Rng;
use embedded_hal::blocking::i2c;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

/// Panic payloads the simulator throws through the driver.
pub struct HostCrash;
pub struct OutOfSteps;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct BusErr {
    pub id: u64,
}
impl std::fmt::Display for BusErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "bus error {}", self.id)
    }
}

#[derive(Clone, Debug)]
pub struct Txn {
    pub write: bool,
    /// Camera that answered, if one did.
    pub cam: Option<usize>,
    pub i2c_addr: u8,
    pub reg: u16,
    /// Words delivered to the host or taken from it.
    pub words: Vec<u16>,
    pub t0: u64,
    pub t1: u64,
    pub err: Option<u64>,
    /// The camera carried the transaction out.
    pub applied: bool,
    /// The delivered words are not what the camera sent.
    pub garbled: bool,
    /// Frames published before the first and after the last word.
    pub count: (u64, u64),
    pub illegal: Option<String>,
}

impl Txn {
    pub fn ok(&self) -> bool {
        self.err.is_none()
    }
    pub fn reads(&self, reg: u16) -> Option<u16> {
        if self.write || !self.ok() || self.reg > reg {
            return None;
        }
        self.words.get(usize::from(reg - self.reg)).copied()
    }
}

#[derive(Default)]
pub struct TaskState {
    pub op: u32,
    pub cam: Option<usize>,
    pub counts: [u32; 7],
    pub budget: usize,
    pub log: Vec<Txn>,
    pub faults: Vec<Fault>,
    pub fired: Vec<Fault>,
    pub soak: Option<Soak>,
}

include!("soak.rs");

#[derive(Default, Clone)]
pub struct Stats {
    pub txns: u64,
    pub words: u64,
    pub publishes: u64,
    pub fired: Vec<(Fk, u64)>,
    pub switches: u64,
}

impl Stats {
    pub fn count(&mut self, k: Fk) {
        match self.fired.iter_mut().find(|(f, _)| *f == k) {
            Some((_, n)) => *n += 1,
            None => self.fired.push((k, 1)),
        }
    }
}

pub struct World {
    pub now: u64,
    pub buses: Vec<(u64, u64)>,
    pub cams: Vec<Cam>,
    pub tasks: Vec<TaskState>,
    pub stats: Stats,
    /// Running hash of everything that happened: equal hashes mean equal executions.
    pub hash: u64,
    /// As `hash`, but only of the shape (kinds of transactions, faults, order), not of the data.
    pub shape: u64,
    // Baton.
    pub turn: usize,
    pub alive: Vec<bool>,
    pub sched: Vec<u8>,
    pub sched_pos: usize,
    pub check_legality: bool,
}

#[derive(Clone)]
pub struct Shared(pub Arc<(Mutex<World>, Condvar)>);

impl World {
    pub fn new(plan: &Plan) -> World {
        let n = plan.ntasks();
        World {
            now: 0,
            buses: plan.buses.clone(),
            cams: plan.cams.iter().map(Cam::new).collect(),
            tasks: (0..n).map(|_| TaskState { budget: 5000, ..TaskState::default() }).collect(),
            stats: Stats::default(),
            hash: 0x1234_5678,
            shape: 0x8765,
            turn: 0,
            alive: vec![true; n],
            sched: plan.sched.clone(),
            sched_pos: 0,
            check_legality: true,
        }
    }
    pub fn note(&mut self, x: u64) {
        self.hash = (self.hash ^ x).wrapping_mul(0x0100_0000_01b3).rotate_left(23);
    }
    pub fn note_shape(&mut self, x: u64) {
        self.note(x);
        self.shape = (self.shape ^ x).wrapping_mul(0x0100_0000_01b3).rotate_left(29);
    }
    pub fn advance_to(&mut self, t: u64) {
        if t > self.now {
            self.now = t;
        }
        let now = self.now;
        for c in &mut self.cams {
            let before = c.count;
            c.advance(now);
            self.stats.publishes += c.count - before;
        }
    }
    fn next_task(&mut self) -> Option<usize> {
        let live: Vec<usize> = (0..self.alive.len()).filter(|&i| self.alive[i]).collect();
        if live.is_empty() {
            return None;
        }
        if self.sched.is_empty() {
            return Some(live[0]);
        }
        let pick = self.sched[self.sched_pos % self.sched.len()];
        self.sched_pos += 1;
        Some(live[usize::from(pick) % live.len()])
    }
    /// A transaction during a soak. None: too many.
    fn soak(&mut self, task: usize, reg: u16, data: Data<'_>) -> Option<Result<(), BusErr>> {
        let mut s = self.tasks[task].soak.take()?;
        self.stats.txns += 1;
        s.txns += 1;
        let bytes = match &data {
            Data::Read(b) => b.len(),
            Data::Write(b) => b.len(),
        };
        let (hz, overhead) = self.buses[self.cams[s.cam].spec.bus];
        let t = self.now + overhead + 9_000_000_000 / hz * (bytes as u64 + 4);
        self.advance_to(t);
        let c = &mut self.cams[s.cam];
        let write = matches!(data, Data::Write(_));
        let r = if s.left == 0 {
            None
        } else if s.refuse == 1 || s.refuse == 2 && write {
            s.err += 1;
            Some(Err(BusErr { id: s.err }))
        } else {
            match data {
                Data::Write(b) => {
                    if let [h, l] = *b {
                        c.write_reg(reg, u16::from_be_bytes([h, l]), t, Cause::Write);
                        s.reads = 0;
                    }
                }
                Data::Read(b) => {
                    if reg == STATUS {
                        if s.ready == Some(s.reads) {
                            c.st |= ST_FLAG;
                        }
                        s.reads += 1;
                    }
                    for (k, chunk) in b.chunks_mut(2).enumerate() {
                        let v = c.read(reg.wrapping_add(k as u16)).to_be_bytes();
                        chunk.copy_from_slice(&v[..chunk.len()]);
                    }
                }
            }
            Some(Ok(()))
        };
        s.left = s.left.saturating_sub(1);
        c.events.clear();
        self.tasks[task].soak = Some(s);
        r
    }
    fn fire(&mut self, task: usize, f: Fault) {
        self.tasks[task].fired.push(f);
        self.stats.count(f.k);
        self.note_shape(0xFA_0000 + f.k as u64);
    }
}

impl Shared {
    pub fn new(w: World) -> Shared {
        Shared(Arc::new((Mutex::new(w), Condvar::new())))
    }
    pub fn lock(&self) -> MutexGuard<'_, World> {
        self.0 .0.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn wait_turn<'a>(&self, mut g: MutexGuard<'a, World>, task: usize) -> MutexGuard<'a, World> {
        while g.turn != task {
            g = self.0 .1.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        g
    }
    /// A scheduling point: somebody else may run here.
    pub fn yield_point(&self, task: usize) {
        let mut g = self.lock();
        if g.alive.len() < 2 {
            return;
        }
        if let Some(n) = g.next_task() {
            if n != task {
                g.stats.switches += 1;
                g.turn = n;
                self.0 .1.notify_all();
                drop(self.wait_turn(g, task));
            }
        }
    }
    pub fn start(&self, task: usize) {
        drop(self.wait_turn(self.lock(), task));
    }
    pub fn finish(&self, task: usize) {
        let mut g = self.lock();
        g.alive[task] = false;
        if let Some(n) = g.next_task() {
            g.turn = n;
        }
        self.0 .1.notify_all();
    }
}

/// One driver's handle to a bus.
#[derive(Clone)]
pub struct SimBus {
    pub sh: Shared,
    pub task: usize,
    pub bus: usize,
}

fn classes(write: bool, reg: u16) -> Vec<Class> {
    let mut v = vec![Class::Any, if write { Class::Write } else { Class::Read }];
    if !write {
        if (EE_BASE..0x2740).contains(&reg) {
            v.push(Class::Ee);
        } else if reg == STATUS {
            v.push(Class::Status);
        } else if reg == CONTROL {
            v.push(Class::Control);
        } else if reg < EE_BASE {
            v.push(Class::Ram);
        }
    }
    v
}

enum Data<'a> {
    Read(&'a mut [u8]),
    Write(&'a [u8]),
}

impl SimBus {
    fn transact(&mut self, addr: u8, header: &[u8], data: Data<'_>) -> Result<(), BusErr> {
        self.sh.yield_point(self.task);
        let mut g = self.sh.lock();
        let w = &mut *g;
        let (write, nbytes) = match &data {
            Data::Read(b) => (false, b.len()),
            Data::Write(b) => (true, b.len()),
        };
        let reg = if header.len() >= 2 { u16::from_be_bytes([header[0], header[1]]) } else { 0 };
        let own = w.tasks[self.task].cam;
        if w.tasks[self.task].soak.is_some() {
            let r = w.soak(self.task, reg, data);
            drop(g);
            return match r {
                Some(r) => r,
                None => std::panic::panic_any(OutOfSteps),
            };
        }
        if w.tasks[self.task].log.len() >= w.tasks[self.task].budget {
            drop(g);
            std::panic::panic_any(OutOfSteps);
        }
        w.stats.txns += 1;
        w.stats.words += (nbytes / 2) as u64;
        w.note_shape((u64::from(write) << 32) | (u64::from(reg) << 8) | self.task as u64);
        // Which faults hit this transaction?
        let mut hit: Vec<Fault> = vec![];
        let mut dead = 0;
        {
            let t = &mut w.tasks[self.task];
            for c in classes(write, reg) {
                let n = t.counts[c as usize];
                t.counts[c as usize] += 1;
                for f in t.faults.iter().filter(|f| f.op == t.op && f.class == c) {
                    if f.k != Fk::Dead {
                        if f.n == n {
                            hit.push(*f);
                        }
                    } else if f.n <= n && (f.b == 0 || u64::from(n - f.n) < f.b) {
                        if n == f.n {
                            dead += 1;
                        }
                        hit.push(Fault { k: if f.a == 0 { Fk::Nack } else { Fk::Garble }, b: 0, ..*f });
                    }
                }
            }
        }
        for _ in 0..dead {
            w.stats.count(Fk::Dead);
        }
        let now = w.now;
        let txn_idx = w.tasks[self.task].log.len();
        let mut cam_idx = w.cams.iter().position(|c| c.spec.bus == self.bus && c.spec.addr == addr);
        // Events around the transaction.
        for f in &hit {
            let on = own.or(cam_idx);
            match f.k {
                Fk::Stall => {
                    let t = w.now + f.a;
                    w.advance_to(t);
                }
                Fk::Reset => {
                    if let Some(c) = on {
                        w.cams[c].reset(now, f.a);
                    }
                }
                Fk::ExtWrite => {
                    if let Some(c) = on {
                        let r = [STATUS, CONTROL, I2CCONF][(f.a % 3) as usize];
                        w.cams[c].write_reg(r, f.b as u16, now, Cause::Env);
                    }
                }
                Fk::Publish => {
                    if let Some(c) = on {
                        w.cams[c].publish(now);
                        w.stats.publishes += 1;
                    }
                }
                Fk::CrashBefore => {}
                _ => continue,
            }
            w.fire(self.task, *f);
            if f.k == Fk::CrashBefore {
                drop(g);
                std::panic::panic_any(HostCrash);
            }
        }
        // Legality, judged before the camera changes.
        let mut illegal = None;
        if let Some(c) = own {
            let cam = &w.cams[c];
            if addr != cam.spec.addr || self.bus != cam.spec.bus {
                illegal = Some(format!("transaction to address {addr:#04x}, driver is for {:#04x}", cam.spec.addr));
            } else if !write {
                if header.len() != 2 || nbytes == 0 || nbytes % 2 != 0 {
                    illegal = Some(format!("read of {nbytes} bytes with a {} byte header", header.len()));
                } else if region(cam.model, reg, nbytes / 2).is_none() {
                    illegal = Some(format!("read of {} words at {reg:#06x} leaves the memory region", nbytes / 2));
                }
            } else if nbytes != 2 || header.len() != 2 {
                illegal = Some(format!("write of {} bytes", nbytes + header.len()));
            } else if ![STATUS, CONTROL, I2CCONF].contains(&reg) {
                illegal = Some(format!("write to {reg:#06x}"));
            } else if let Data::Write(b) = &data {
                let v = u16::from_be_bytes([b[0], b[1]]);
                let (mask, cur) = match reg {
                    STATUS => (ST_RESERVED, cam.st),
                    CONTROL => (CT_RESERVED, cam.ctl),
                    _ => (I2C_RESERVED, cam.i2c),
                };
                let mut held = vec![cur];
                for e in &cam.events {
                    let p = match reg {
                        STATUS => e.st,
                        CONTROL => e.ctl,
                        _ => e.i2c,
                    };
                    held.push(p.0);
                    held.push(p.1);
                }
                // What the host read in this call may have been damaged on the way.
                held.extend(w.tasks[self.task].log.iter().filter(|t| t.garbled).filter_map(|t| t.reads(reg)));
                if !held.iter().any(|h| h & mask == v & mask) {
                    illegal = Some(format!(
                        "write of {v:#06x} to {reg:#06x} changes reserved bits (register held {cur:#06x})"
                    ));
                }
            }
        }
        // Time: address and header bytes, then the data.
        let (hz, overhead) = w.buses[self.bus];
        let byte_ns = 9_000_000_000 / hz;
        let t0 = w.now;
        let mut t = t0 + overhead + byte_ns * if write { 3 } else { 4 };
        let count0;
        let mut err = None;
        let mut garbled = false;
        let mut applied = false;
        let mut words: Vec<u16> = vec![];
        let mut crash_after = false;
        let get_err = |w: &mut World| {
            let t = &w.tasks[self.task];
            u64::from(t.op) * 100_000 + t.log.len() as u64 + 1
        };
        let nack = hit.iter().find(|f| f.k == Fk::Nack).copied();
        w.advance_to(t);
        count0 = cam_idx.map_or(0, |c| w.cams[c].count);
        if let Some(f) = nack {
            w.fire(self.task, f);
            err = Some(get_err(w));
        } else if cam_idx.is_none() {
            // Nobody at this address.
            err = Some(get_err(w));
        } else {
            let c = cam_idx.unwrap();
            match data {
                Data::Write(b) => {
                    t += byte_ns * nbytes as u64;
                    w.advance_to(t);
                    words = b.chunks(2).map(|p| u16::from_be_bytes([p[0], *p.get(1).unwrap_or(&0)])).collect();
                    w.cams[c].cur_txn = txn_idx;
                    if nbytes == 2 && region(w.cams[c].model, reg, 1) == Some(Region::Reg) {
                        w.cams[c].write_reg(reg, words[0], t, Cause::Write);
                    }
                    applied = true;
                    if let Some(f) = hit.iter().find(|f| f.k == Fk::LostAck).copied() {
                        w.fire(self.task, f);
                        err = Some(get_err(w));
                    }
                }
                Data::Read(buf) => {
                    let partial = hit.iter().find(|f| f.k == Fk::Partial).copied();
                    let pubat = hit.iter().find(|f| f.k == Fk::PublishAt).copied();
                    let limit = partial.map_or(nbytes, |f| (f.a as usize).min(nbytes));
                    for (k, chunk) in buf[..limit].chunks_mut(2).enumerate() {
                        t += byte_ns * 2;
                        if t >= w.cams[c].next_pub {
                            w.advance_to(t);
                        }
                        if let Some(f) = pubat {
                            if f.a as usize == k {
                                w.fire(self.task, f);
                                w.cams[c].publish(t);
                                w.stats.publishes += 1;
                            }
                        }
                        let v = w.cams[c].read(reg.wrapping_add(k as u16));
                        words.push(v);
                        let b = v.to_be_bytes();
                        let n = chunk.len();
                        chunk.copy_from_slice(&b[..n]);
                    }
                    w.advance_to(t);
                    applied = true;
                    if let Some(f) = partial {
                        w.fire(self.task, f);
                        err = Some(get_err(w));
                    } else {
                        for f in hit.clone() {
                            match f.k {
                                Fk::Garble => {
                                    garbled = true;
                                    let mut r = Rng::new(f.b);
                                    match f.a % 4 {
                                        0 => buf.iter_mut().for_each(|b| *b = r.next() as u8),
                                        1 => buf.fill(0xFF),
                                        2 => buf.fill(0),
                                        _ => {
                                            let last = buf[nbytes - 1];
                                            buf.copy_within(0..nbytes - 1, 1);
                                            buf[0] = last;
                                        }
                                    }
                                    w.fire(self.task, f);
                                }
                                Fk::Flip => {
                                    garbled = true;
                                    let i = (f.a as usize % (nbytes / 2).max(1)) * 2;
                                    if i + 1 < nbytes {
                                        buf[i] ^= (f.b >> 8) as u8;
                                        buf[i + 1] ^= f.b as u8;
                                    }
                                    w.fire(self.task, f);
                                }
                                _ => {}
                            }
                        }
                        if garbled {
                            words = buf.chunks(2).map(|p| u16::from_be_bytes([p[0], *p.get(1).unwrap_or(&0)])).collect();
                        }
                    }
                }
            }
        }
        if let Some(f) = hit.iter().find(|f| f.k == Fk::CrashAfter).copied() {
            w.fire(self.task, f);
            crash_after = true;
        }
        if err.is_some() && !applied {
            cam_idx = None;
        }
        let count1 = cam_idx.map_or(count0, |c| w.cams[c].count);
        let mut h = 0u64;
        for x in &words {
            h = h.wrapping_mul(31).wrapping_add(u64::from(*x));
        }
        let now = w.now;
        w.note(h ^ now);
        w.note_shape(u64::from(err.is_some()) | (count1 - count0) << 1);
        w.tasks[self.task].log.push(Txn {
            write,
            cam: cam_idx,
            i2c_addr: addr,
            reg,
            words,
            t0,
            t1: now,
            err,
            applied,
            garbled,
            count: (count0, count1),
            illegal,
        });
        drop(g);
        if crash_after {
            std::panic::panic_any(HostCrash);
        }
        match err {
            Some(id) => Err(BusErr { id }),
            None => Ok(()),
        }
    }
}

impl i2c::Write for SimBus {
    type Error = BusErr;
    fn write(&mut self, address: u8, bytes: &[u8]) -> Result<(), BusErr> {
        let (h, d) = bytes.split_at(bytes.len().min(2));
        self.transact(address, h, Data::Write(d))
    }
}

impl i2c::WriteRead for SimBus {
    type Error = BusErr;
    fn write_read(&mut self, address: u8, bytes: &[u8], buffer: &mut [u8]) -> Result<(), BusErr> {
        self.transact(address, bytes, Data::Read(buffer))
    }
}
