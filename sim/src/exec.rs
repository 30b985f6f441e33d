//! Runs a plan against the real drivers and judges every call.

use crate::camera::*;
use crate::drive::*;
use crate::ef::Ef;
use crate::model::*;
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::world::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

/// Camera fields behind the driver's getters and setters: register, mask, shift.
pub const FIELDS: [(u16, u16, u32); 8] = [
    (STATUS, 0x0010, 4),
    (CONTROL, 0x0001, 0),
    (CONTROL, 0x0004, 2),
    (CONTROL, 0x0008, 3),
    (CONTROL, 0x0010, 4),
    (CONTROL, 0x0380, 7),
    (CONTROL, 0x0C00, 10),
    (CONTROL, 0x1000, 12),
];
pub const FIELD_NAMES: [&str; 8] =
    ["overwrite", "subpages", "data hold", "subpage repeat", "selected subpage", "frame rate", "resolution", "access pattern"];

/// Low-level register fields: register, field -> mask, and how a value is stored.
pub fn regset_bits(reg: u64, field: u64, v: u64) -> (u16, u16, u16) {
    match reg {
        0 => match field {
            0 => (STATUS, ST_FLAG, 0),
            1 => (STATUS, ST_OVERWRITE, ((v & 1) as u16) << 4),
            _ => (STATUS, ST_START, ST_START),
        },
        1 => match field {
            0..=3 => (CONTROL, 1 << field, ((v & 1) as u16) << field),
            4 => (CONTROL, 0x10, ((v & 1) as u16) << 4),
            5 => (CONTROL, 0x380, ((v & 7) as u16) << 7),
            6 => (CONTROL, 0xC00, ((v & 3) as u16) << 10),
            _ => (CONTROL, 0x1000, ((v & 1) as u16) << 12),
        },
        _ => match field {
            0 => (I2CCONF, 1, (!v & 1) as u16),
            1 => (I2CCONF, 2, ((v & 1) as u16) << 1),
            _ => (I2CCONF, 4, ((!v & 1) as u16) << 2),
        },
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Unit,
    Bool(bool),
    Num(u64),
    Image(f32, Cfg),
    Err(E),
    Crash,
    Panic(String),
    Steps,
    Skipped,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub tags: Vec<&'static str>,
    pub class: &'static str,
    pub op: u32,
    pub detail: String,
    /// Signature of a known finding, when the history matches one.
    pub known: Option<&'static str>,
}

#[derive(Default)]
pub struct TaskReport {
    pub viols: Vec<Viol>,
    pub probes: BTreeMap<&'static str, u64>,
    pub digests: Vec<(u32, u64, String)>,
    pub trace: Vec<String>,
}

pub struct RunReport {
    pub viols: Vec<Viol>,
    pub probes: BTreeMap<&'static str, u64>,
    pub digests: Vec<Vec<(u32, u64, String)>>,
    pub hash: u64,
    pub shape: u64,
    pub stats: Stats,
    pub sim_ns: u64,
    pub trace: Vec<String>,
}

struct Slot {
    drv: Option<Box<Drv>>,
    cam: usize,
    cal: Option<Arc<RefCal>>,
    allowed: Vec<Cfg>,
    eps: f32,
    t_r: Option<f32>,
    amb: Option<f32>,
    buf: Vec<f32>,
    marked: bool,
    rate: u64,
    /// Pixels refreshed since counting began.
    fresh: Vec<bool>,
    /// The same, counting frames lost to K1 as delivered.
    fresh_or_lost: Vec<bool>,
    polls: u32,
    /// What the camera was measuring at the last poll.
    measuring: Option<(Cfg, u8)>,
    slept: bool,
    last_delivered: Option<u64>,
}

impl Slot {
    fn restart_polls(&mut self) {
        self.fresh.fill(false);
        self.fresh_or_lost.fill(false);
        self.polls = 0;
    }
    fn empty() -> Slot {
        Slot {
            drv: None,
            cam: 0,
            cal: None,
            allowed: vec![],
            eps: 1.0,
            t_r: None,
            amb: None,
            buf: vec![],
            marked: false,
            rate: 2,
            fresh: vec![],
            fresh_or_lost: vec![],
            polls: 0,
            measuring: None,
            slept: false,
            last_delivered: None,
        }
    }
}

struct Task<'p> {
    plan: &'p Plan,
    sh: Shared,
    id: usize,
    slots: Vec<Slot>,
    /// Calibrations loaded through the low-level API.
    /// Per slot and model: the calibration loaded last.
    cals: Vec<[Option<(Cal, Arc<RefCal>)>; 2]>,
    /// Per slot, register and place: a value kept by the application, and what it should be.
    regs: std::cell::RefCell<Vec<[[Option<(Reg, u16)>; 2]; 3]>>,
    rep: TaskReport,
    want_trace: bool,
    /// What went wrong in a soak.
    soaked: std::cell::RefCell<Option<String>>,
}

/// What happened at the camera during one operation.
struct Window {
    log: Vec<Txn>,
    events: Vec<RegEv>,
    pre: (u16, u16, u16, u64, u64),
    post: (u16, u16, u16, u64, u64),
    fired: Vec<Fault>,
}

impl Window {
    fn garbled(&self) -> bool {
        self.log.iter().any(|t| t.garbled)
    }
    fn env(&self) -> bool {
        self.events.iter().any(|e| e.cause == Cause::Env)
    }
    fn failed(&self) -> Option<&Txn> {
        self.log.iter().find(|t| !t.ok())
    }
    /// Values the register had at the camera during the call, and what was delivered of it.
    fn values(&self, reg: u16) -> Vec<u16> {
        let pick = |a: u16, b: u16, c: u16| match reg {
            STATUS => a,
            CONTROL => b,
            _ => c,
        };
        let d: Vec<u16> = self.log.iter().filter_map(|t| t.reads(reg)).collect();
        if !d.is_empty() {
            return d;
        }
        let mut v = vec![pick(self.pre.0, self.pre.1, self.pre.2), pick(self.post.0, self.post.1, self.post.2)];
        for e in &self.events {
            v.push(pick(e.st.1, e.ctl.1, e.i2c.1));
        }
        v
    }
}

pub fn buf_init(seed: u64, len: usize) -> Vec<f32> {
    let mut r = Rng::new(mix(seed, 0xb0f));
    (0..len).map(|_| f32::from_bits(r.next() as u32)).collect()
}

fn same_bits(a: &[f32], b: &[f32]) -> Option<usize> {
    a.iter().zip(b).position(|(x, y)| x.to_bits() != y.to_bits())
}

fn is_image(k: K) -> bool {
    matches!(k, K::IfReady | K::Image | K::Sub | K::Raw | K::TwoStep | K::LowLevel | K::Compare)
}
/// Operations that go through the slot's driver.
fn by_driver(k: K) -> bool {
    matches!(
        k,
        K::New
            | K::NewFrom
            | K::IfReady
            | K::Image
            | K::Sub
            | K::Raw
            | K::TwoStep
            | K::Get
            | K::Set
            | K::LastSub
            | K::Avail
            | K::ResetAvail
            | K::Sync
            | K::Eps
            | K::EpsDefault
            | K::Tr
            | K::SleepPeriod
    )
}

impl<'p> Task<'p> {
    fn probe(&mut self, name: &'static str) {
        *self.rep.probes.entry(name).or_insert(0) += 1;
    }
    fn viol(&mut self, op: &Op, tags: &[&'static str], class: &'static str, detail: String) {
        self.rep.viols.push(Viol { tags: tags.to_vec(), class, op: op.id, detail, known: None });
    }
    fn known(&mut self, op: &Op, tags: &[&'static str], class: &'static str, sig: &'static str, detail: String) {
        self.probe(sig);
        self.rep.viols.push(Viol { tags: tags.to_vec(), class, op: op.id, detail, known: Some(sig) });
    }
    fn bus(&self, cam: usize) -> SimBus {
        SimBus { sh: self.sh.clone(), task: self.id, bus: self.plan.cams[cam].bus }
    }

    fn run(&mut self) {
        let ops: Vec<Op> = self.plan.ops.iter().filter(|o| o.task == self.id).copied().collect();
        for op in &ops {
            self.step(op);
        }
    }

    fn cam_of(&self, op: &Op) -> usize {
        match op.k {
            K::New | K::NewFrom | K::LoadCal | K::OwnCal | K::FromData | K::EnvReset | K::EnvWrite | K::EnvPublish | K::EnvRot
            | K::EnvHalt => op.a as usize % self.plan.cams.len(),
            _ => self.slots[op.slot].cam,
        }
    }

    fn step(&mut self, op: &Op) {
        let cam = self.cam_of(op);
        let model = self.plan.cams[cam].model;
        let addr = self.plan.cams[cam].addr;
        // Window start.
        let (next_pub, halted) = {
            let g = self.sh.lock();
            (g.cams[cam].next_pub, g.cams[cam].halted)
        };
        let pre = {
            let mut g = self.sh.lock();
            let w = &mut *g;
            let budget = if op.k == K::Sync {
                let c = &w.cams[cam];
                let (hz, ov) = w.buses[c.spec.bus];
                let txn = ov + 9_000_000_000 / hz * 6;
                (3 * c.period() / txn + 200) as usize
            } else if op.k == K::Compare {
                40_000
            } else {
                5000
            };
            let t = &mut w.tasks[self.id];
            t.op = op.id;
            t.cam = Some(cam);
            t.counts = [0; 7];
            t.log.clear();
            t.fired.clear();
            t.budget = budget;
            w.note_shape(0x0b_0000 + op.k as u64);
            let now = w.now;
            let c = &mut w.cams[cam];
            c.events.clear();
            (c.st, c.ctl, c.i2c, c.count, now)
        };
        // Buffer.
        let mut before: Vec<f32> = vec![];
        if is_image(op.k) {
            let len = (op.a as usize).min(4096);
            let s = &mut self.slots[op.slot];
            if op.b != 0 || s.buf.len() != len {
                s.buf = buf_init(op.b.wrapping_add(u64::from(op.id)), len);
                s.marked = true;
                s.fresh = vec![false; len];
                s.fresh_or_lost = vec![false; len];
            }
            before = s.buf.clone();
        }
        // The call.
        let mut slot = std::mem::replace(&mut self.slots[op.slot], Slot::empty());
        slot.cam = if matches!(op.k, K::New | K::NewFrom) { cam } else { slot.cam };
        let mut new_cal: Option<Cal> = None;
        let mut extra: Vec<(&'static str, Vec<f32>, f32)> = vec![];
        let out = {
            let this: &Task = self;
            if self.plan.preempt > 0 {
                crate::own::preempt(Some((self.sh.clone(), self.id, self.plan.preempt, mix(self.plan.seed, u64::from(op.id)))));
            }
            let r = catch_unwind(AssertUnwindSafe(|| this.call(op, cam, model, addr, &mut slot, &mut new_cal, &mut extra)));
            if self.plan.preempt > 0 {
                crate::own::preempt(None);
            }
            match r {
                Ok(o) => o,
                Err(p) => {
                    slot.drv = None;
                    if p.is::<HostCrash>() {
                        Out::Crash
                    } else if p.is::<OutOfSteps>() {
                        Out::Steps
                    } else {
                        let m = p
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        Out::Panic(m)
                    }
                }
            }
        };
        self.slots[op.slot] = slot;
        // Window end.
        let win = {
            let mut g = self.sh.lock();
            let w = &mut *g;
            let log = std::mem::take(&mut w.tasks[self.id].log);
            let fired = std::mem::take(&mut w.tasks[self.id].fired);
            w.tasks[self.id].cam = None;
            let now = w.now;
            let soak = w.tasks[self.id].soak.take();
            let c = &mut w.cams[cam];
            if let Some(s) = soak {
                // As if nothing had been there.
                (c.st, c.ctl, c.i2c) = (pre.0, pre.1, pre.2);
                c.halted = halted;
                if c.ctl & CT_STEP != 0 {
                    c.next_pub = if next_pub == INF { INF } else { next_pub.max(now + 1) };
                } else if c.next_pub == INF && next_pub != INF {
                    c.next_pub = now + c.period();
                }
                c.events.clear();
                w.note(s.txns);
            }
            let c = &mut w.cams[cam];
            let events = std::mem::take(&mut c.events);
            let post = (c.st, c.ctl, c.i2c, c.count, now);
            let code = match &out {
                Out::Unit => 1,
                Out::Bool(b) => 2 + u64::from(*b),
                Out::Num(n) => 16 + n,
                Out::Image(..) => 4,
                Out::Err(E::Rd(_)) => 5,
                Out::Err(E::Wr(_)) => 6,
                Out::Err(_) => 7,
                Out::Crash => 8,
                Out::Panic(_) => 9,
                Out::Steps => 10,
                Out::Skipped => 11,
            };
            w.note_shape(code);
            Window { log, events, pre, post, fired }
        };
        if self.want_trace {
            self.trace(op, &out, &win);
        }
        self.digest(op, &out, &win);
        self.judge(op, cam, &out, &win, &before, new_cal, &extra);
    }

    fn trace(&mut self, op: &Op, out: &Out, w: &Window) {
        self.rep.trace.push(format!(
            "t={:>12}ns task {} op {} {} a={} b={} c={} -> {:?}",
            w.pre.4, op.task, op.id, op.k.txt(), op.a, op.b, op.c, out
        ));
        for t in &w.log {
            let shown: Vec<String> = t.words.iter().take(4).map(|x| format!("{x:04x}")).collect();
            self.rep.trace.push(format!(
                "    {:>12}ns {} {:#04x} reg {:#06x} x{} [{}{}] {}{} frames {}..{}",
                t.t0,
                if t.write { "write" } else { "read " },
                t.i2c_addr,
                t.reg,
                t.words.len(),
                shown.join(" "),
                if t.words.len() > 4 { " .." } else { "" },
                t.err.map_or("ok".into(), |e| format!("FAILED {e}{}", if t.applied { " (applied)" } else { "" })),
                if t.garbled { " garbled" } else { "" },
                t.count.0,
                t.count.1
            ));
        }
        for f in &w.fired {
            self.rep.trace.push(format!("    fault {} ({} #{}) a={} b={}", f.k.txt(), f.class.txt(), f.n, f.a, f.b));
        }
        for e in &w.events {
            self.rep.trace.push(format!(
                "    {:>12}ns camera: {:?} status {:04x}->{:04x} control {:04x}->{:04x} i2c {:04x}->{:04x} frame {}",
                e.t, e.cause, e.st.0, e.st.1, e.ctl.0, e.ctl.1, e.i2c.0, e.i2c.1, e.count
            ));
        }
    }

    /// Everything the caller and the camera could observe of this operation, without times.
    fn digest(&mut self, op: &Op, out: &Out, w: &Window) {
        if self.plan.prop != "C12" {
            return;
        }
        let mut h = crate::rng::hash_str(&format!("{out:?}"));
        if *out == Out::Skipped {
            self.rep.digests.push((op.id, h, "skipped".into()));
            return;
        }
        for t in &w.log {
            h = mix(h, u64::from(t.write) | u64::from(t.reg) << 8 | u64::from(t.i2c_addr) << 32);
            h = mix(h, t.err.unwrap_or(0));
            for x in &t.words {
                h = mix(h, u64::from(*x));
            }
        }
        let s = &self.slots[op.slot];
        for x in &s.buf {
            h = mix(h, u64::from(x.to_bits()));
        }
        if let Some(d) = &s.drv {
            h = mix(h, u64::from(d.eps().to_bits()));
            h = mix(h, d.ambient().map_or(7, |a| u64::from(a.to_bits())));
            h = mix(h, d.t_r().map_or(9, |a| u64::from(a.to_bits())));
        }
        h = mix(h, u64::from(w.post.0) | u64::from(w.post.1) << 16 | u64::from(w.post.2) << 32);
        self.rep.digests.push((op.id, h, format!("{out:?}")));
    }

    #[allow(clippy::too_many_arguments)]
    fn call(
        &self,
        op: &Op,
        cam: usize,
        model: Model,
        addr: u8,
        s: &mut Slot,
        new_cal: &mut Option<Cal>,
        extra: &mut Vec<(&'static str, Vec<f32>, f32)>,
    ) -> Out {
        let unit = |r: R<()>| r.map_or_else(Out::Err, |()| Out::Unit);
        let num = |r: R<u64>| r.map_or_else(Out::Err, Out::Num);
        let mi = usize::from(model == Model::M641);
        macro_rules! drv {
            () => {
                match s.drv.as_deref_mut() {
                    Some(d) => d,
                    None => return Out::Skipped,
                }
            };
        }
        match op.k {
            K::New | K::NewFrom => {
                s.drv = None;
                let r = if op.k == K::New {
                    Drv::new(model, self.bus(cam), addr)
                } else {
                    match &self.cals[op.slot][mi] {
                        Some((c, _)) => Drv::new_from(c, self.bus(cam), addr),
                        None => return Out::Skipped,
                    }
                };
                match r {
                    Ok(d) => {
                        s.drv = Some(Box::new(d));
                        Out::Unit
                    }
                    Err(e) => Out::Err(e),
                }
            }
            K::Drop => {
                s.drv = None;
                Out::Unit
            }
            K::Clone => {
                drv!();
                Out::Unit
            }
            K::IfReady => drv!().if_ready(&mut s.buf).map_or_else(Out::Err, Out::Bool),
            K::Image => unit(drv!().image(&mut s.buf)),
            K::Sub => unit(drv!().sub((op.c & 1) as u8, &mut s.buf)),
            K::Raw => unit(drv!().raw((op.c & 1) as u8, &mut s.buf)),
            K::TwoStep => {
                let sp = (op.c & 1) as u8;
                let Some((cal, rc)) = &self.cals[op.slot][mi] else { return Out::Skipped };
                if s.allowed.len() != 1 || !s.cal.as_ref().is_some_and(|c| Arc::ptr_eq(c, rc)) {
                    return Out::Skipped;
                }
                let d = drv!();
                if let Err(e) = d.raw(sp, &mut s.buf) {
                    return Out::Err(e);
                }
                let ta = d.ambient().unwrap_or(f32::NAN);
                extra.push(("the raw image", s.buf.clone(), ta));
                let (eps, tr) = (d.eps(), d.t_r());
                cal.ir_to_temperatures(sp, s.allowed[0].chess, eps, ta, tr, &mut s.buf);
                Out::Unit
            }
            K::LowLevel => {
                let Some((cal, _)) = &self.cals[op.slot][mi] else { return Out::Skipped };
                let how = if op.c & 2 != 0 { 1 } else { [0, 2, 3][(op.b % 3) as usize] };
                cal.by_hand(&mut self.bus(cam), addr, (op.c & 1) as u8, s.eps, s.t_r, how, &mut s.buf)
                    .map_or_else(Out::Err, |(t, c)| Out::Image(t, c))
            }
            K::Compare => {
                let sp = (op.c & 1) as u8;
                let Some((cal, rc)) = &self.cals[op.slot][mi] else { return Out::Skipped };
                if !s.cal.as_ref().is_some_and(|c| Arc::ptr_eq(c, rc)) {
                    return Out::Skipped;
                }
                let start = s.buf.clone();
                let d = drv!();
                let r = (|| -> R<()> {
                    let chess = d.get(7)? == 1;
                    let latest = d.last_sub()?;
                    // The driver's first image of the frame may be any of them.
                    let mut early = None;
                    match op.b % 4 {
                        1 if latest == u64::from(sp) => {
                            let mut b = start.clone();
                            if d.if_ready(&mut b)? {
                                early = Some(("image if ready", b, d.ambient().unwrap_or(f32::NAN)));
                            }
                        }
                        2 if latest == u64::from(sp) => {
                            let mut b = start.clone();
                            d.image(&mut b)?;
                            early = Some(("latest image", b, d.ambient().unwrap_or(f32::NAN)));
                        }
                        3 => {
                            let mut b = start.clone();
                            d.raw(sp, &mut b)?;
                            let ta = d.ambient().unwrap_or(f32::NAN);
                            cal.ir_to_temperatures(sp, chess, d.eps(), ta, d.t_r(), &mut b);
                            early = Some(("driver, raw then converted", b, ta));
                        }
                        _ => {}
                    }
                    d.sub(sp, &mut s.buf)?;
                    extra.push(("driver", s.buf.clone(), d.ambient().unwrap_or(f32::NAN)));
                    let mut b = start.clone();
                    d.raw(sp, &mut b)?;
                    let ta = d.ambient().unwrap_or(f32::NAN);
                    cal.ir_to_temperatures(sp, chess, d.eps(), ta, d.t_r(), &mut b);
                    extra.push(("driver, raw then converted", b, ta));
                    extra.extend(early);
                    for (how, name) in [
                        (0, "low-level, direct"),
                        (1, "low-level, two steps"),
                        (2, "low-level, pixel by pixel"),
                        (3, "low-level, two regions"),
                    ] {
                        let mut b = start.clone();
                        let (ta, _) = cal.by_hand(&mut self.bus(cam), addr, sp, d.eps(), d.t_r(), how, &mut b)?;
                        extra.push((name, b, ta));
                    }
                    let mut d2 = Drv::new_from(cal, self.bus(cam), addr)?;
                    d2.set_eps(d.eps());
                    d2.set_t_r(d.t_r());
                    let mut b = start.clone();
                    d2.sub(sp, &mut b)?;
                    extra.push(("driver from loaded calibration", b, d2.ambient().unwrap_or(f32::NAN)));
                    if latest == u64::from(sp) {
                        let mut b = start.clone();
                        d2.image(&mut b)?;
                        extra.push(("latest image", b, d2.ambient().unwrap_or(f32::NAN)));
                        let mut b = start.clone();
                        if d2.if_ready(&mut b)? {
                            extra.push(("image if ready", b, d2.ambient().unwrap_or(f32::NAN)));
                        }
                    }
                    Ok(())
                })();
                unit(r)
            }
            K::Get => num(drv!().get(op.a % 8)),
            K::Set => unit(drv!().set(op.a % 8, op.b)),
            K::LastSub => num(drv!().last_sub()),
            K::Avail => num(drv!().avail()),
            K::ResetAvail => unit(drv!().reset_avail()),
            K::Sync => unit(drv!().sync()),
            K::Eps => {
                drv!().set_eps(f32::from_bits(op.a as u32));
                Out::Unit
            }
            K::EpsDefault => {
                drv!().eps_default();
                Out::Unit
            }
            K::Tr => {
                drv!().set_t_r(if op.b == 1 { Some(f32::from_bits(op.a as u32)) } else { None });
                Out::Unit
            }
            K::OwnCal => {
                if self.sh.lock().cams[cam].cal.is_ok() { Out::Unit } else { Out::Skipped }
            }
            K::LoadCal => match Cal::from_i2c(model, &mut self.bus(cam), addr) {
                Ok(c) => {
                    *new_cal = Some(c);
                    Out::Unit
                }
                Err(e) => Out::Err(e),
            },
            K::FromData => {
                let bytes: Vec<u8> = {
                    let g = self.sh.lock();
                    let mut v: Vec<u8> = g.cams[cam].ee.iter().flat_map(|w| w.to_be_bytes()).collect();
                    v.resize(op.b as usize % 4096, 0xA5);
                    v
                };
                match Cal::from_data(model, &bytes) {
                    Ok(c) => {
                        *new_cal = Some(c);
                        Out::Unit
                    }
                    Err(e) => Out::Err(e),
                }
            }
            K::RegSet => unit(reg_set(&mut self.bus(cam), addr, op.a % 3, op.b, op.c)),
            K::RegGet => num(reg_get(&mut self.bus(cam), addr, op.a % 3)),
            K::RegHold => {
                let (r, w) = ((op.a % 3) as usize, (op.b & 1) as usize);
                let v = match op.c {
                    0 => match Reg::read(&mut self.bus(cam), addr, op.a % 3) {
                        Ok(v) => Some((v, 0)),
                        Err(e) => return Out::Err(e),
                    },
                    1 => Reg::power_on(model, op.a % 3).map(|v| (v, if r == 1 { model.default_control() } else { 0 })),
                    _ => self.regs.borrow()[op.slot][r][w ^ 1],
                };
                if v.is_none() {
                    return Out::Skipped;
                }
                self.regs.borrow_mut()[op.slot][r][w] = v;
                Out::Unit
            }
            K::RegEdit => match &mut self.regs.borrow_mut()[op.slot][(op.a % 3) as usize][(op.c & 1) as usize] {
                Some((v, _)) => {
                    v.edit(op.b, op.c >> 1);
                    Out::Unit
                }
                None => Out::Skipped,
            },
            K::RegPut => match self.regs.borrow()[op.slot][(op.a % 3) as usize][(op.b & 1) as usize] {
                Some((v, _)) => unit(v.write(&mut self.bus(cam), addr)),
                None => Out::Skipped,
            },
            K::RegLook => match self.regs.borrow()[op.slot][(op.a % 3) as usize] {
                [Some(_), Some(_)] => Out::Unit,
                _ => Out::Skipped,
            },
            K::Soak => {
                drv!();
                self.soak(op, cam, s)
            }
            K::Sleep => {
                let mut g = self.sh.lock();
                let t = g.now + op.a;
                g.advance_to(t);
                Out::Unit
            }
            K::SleepPeriod => {
                // The application sleeps for the reported period, as the crate documents.
                match drv!().get(5) {
                    Ok(r) => s.rate = r,
                    Err(e) => return Out::Err(e),
                }
                s.slept = true;
                let d = std::time::Duration::from(rate(s.rate));
                let mut g = self.sh.lock();
                let t = g.now + d.as_nanos() as u64 + op.a;
                g.advance_to(t);
                Out::Unit
            }
            K::EnvReset => {
                let mut g = self.sh.lock();
                let now = g.now;
                g.cams[cam].reset(now, op.b);
                Out::Unit
            }
            K::EnvWrite => {
                let mut g = self.sh.lock();
                let now = g.now;
                let r = [STATUS, CONTROL, I2CCONF][(op.b % 3) as usize];
                g.cams[cam].write_reg(r, op.c as u16, now, Cause::Env);
                Out::Unit
            }
            K::EnvPublish => {
                let mut g = self.sh.lock();
                let now = g.now;
                g.cams[cam].publish(now);
                Out::Unit
            }
            K::EnvRot => {
                let mut g = self.sh.lock();
                let c = &mut g.cams[cam];
                c.ee[op.b as usize % EE_WORDS] ^= op.c as u16;
                c.cal = decode(c.model, &c.ee).map(Arc::new);
                Out::Unit
            }
            K::EnvHalt => {
                let mut g = self.sh.lock();
                g.cams[cam].halted = op.b == 1;
                Out::Unit
            }
        }
    }
}

impl Task<'_> {
    /// The same call over and over.
    fn soak(&self, op: &Op, cam: usize, s: &mut Slot) -> Out {
        let kind = op.b % SOAKS;
        let d = s.drv.as_deref_mut().expect("checked");
        {
            let mut g = self.sh.lock();
            g.cams[cam].halted = true;
            g.tasks[self.id].soak = Some(Soak {
                cam,
                refuse: match kind {
                    1 => 1,
                    8 => 2,
                    _ => 0,
                },
                ready: if kind == 6 { Some(op.c) } else { None },
                err: 1 << 50,
                ..Soak::default()
            });
        }
        let flag = |on: bool, ready: Option<u64>, left: u64| {
            let mut g = self.sh.lock();
            let c = &mut g.cams[cam];
            c.st = if on { c.st | ST_FLAG } else { c.st & !ST_FLAG };
            if let Some(s) = g.tasks[self.id].soak.as_mut() {
                s.left = left;
                s.reads = 0;
                if kind == 5 {
                    s.ready = ready;
                }
            }
        };
        let flagged = || self.sh.lock().cams[cam].st & ST_FLAG != 0;
        let last_err = || self.sh.lock().tasks[self.id].soak.as_ref().map_or(0, |s| s.err);
        let mut buf = buf_init(op.a, (op.a % 40) as usize);
        let mut first: Option<(Vec<f32>, Option<f32>)> = None;
        let n = if kind == 6 { 1 } else { op.c };
        let field = op.a % 8;
        let held = if kind == 4 || kind == 8 {
            flag(false, None, 5000);
            match d.get(field) {
                Ok(v) => v,
                Err(e) => return Out::Err(e),
            }
        } else {
            0
        };
        let (eps, tr) = (d.eps(), d.t_r());
        let (status, control) = {
            let g = self.sh.lock();
            (g.cams[cam].st, g.cams[cam].ctl)
        };
        for i in 0..n {
            flag(matches!(kind, 0 | 7 | 8) || kind == 3 && i % 3 == 0, Some(i % 3 + 1), if kind == 6 { 3 * op.c + 5000 } else { 5000 });
            let wrong = match kind {
                0 => match d.if_ready(&mut buf) {
                    Ok(true) if !flagged() => None,
                    r => Some(format!("{r:?} with a frame waiting, flag {}", flagged())),
                },
                1 => {
                    let (r, write) = match op.a % 4 {
                        0 => (d.if_ready(&mut buf).map(|_| ()), false),
                        1 => (d.image(&mut buf), false),
                        2 => (d.get(op.a / 4 % 8).map(|_| ()), false),
                        _ => (d.sync(), false),
                    };
                    let want = last_err();
                    match r {
                        Err(E::Rd(id)) if !write && id == want => None,
                        r => Some(format!("{r:?} for read error {want}")),
                    }
                }
                2 => match d.if_ready(&mut buf) {
                    Ok(false) if !flagged() => None,
                    r => Some(format!("{r:?} without a frame")),
                },
                3 => match d.avail() {
                    Ok(v) if v == if i % 3 == 0 { u64::from(status & ST_SP) } else { 2 } => None,
                    r => Some(format!("availability {r:?} with flag {}", i % 3 == 0)),
                },
                4 => {
                    let v = if i == n - 1 { held } else { i % [2, 2, 2, 2, 2, 8, 4, 2][field as usize] };
                    match d.set(field, v).and_then(|()| d.get(field)) {
                        Ok(w) if v == w => None,
                        r => Some(format!("{} set to {v} reads {r:?}", FIELD_NAMES[field as usize])),
                    }
                }
                5 | 6 => match d.sync() {
                    Ok(()) if flagged() => None,
                    r => Some(format!("synchronise returned {r:?}, flag {}", flagged())),
                },
                7 => {
                    let r = if op.a & 1 == 0 { d.sub((op.a >> 1 & 1) as u8, &mut buf) } else { d.raw((op.a >> 1 & 1) as u8, &mut buf) };
                    match r {
                        Ok(()) if flagged() => None,
                        r => Some(format!("{r:?}, flag {}", flagged())),
                    }
                }
                8 => {
                    let r = if op.a & 8 == 0 { d.set(field, held) } else { d.reset_avail() };
                    let want = last_err();
                    match r {
                        Err(E::Wr(id)) if id == want => None,
                        // Nothing to write.
                        Ok(()) if want == 1 << 50 => None,
                        r => Some(format!("{r:?} for write error {want}")),
                    }
                }
                9 => {
                    let (e, t) = ((i % 1000 + 1) as f32 / 1000.0, if i % 3 == 0 { None } else { Some(i as f32 / 1000.0) });
                    d.set_eps(e);
                    d.set_t_r(t);
                    if d.eps().to_bits() == e.to_bits() && bits_opt(d.t_r()) == bits_opt(t) { None } else { Some("host-side settings lost".into()) }
                }
                _ => match d.reset_avail() {
                    Ok(()) if !flagged() => None,
                    r => Some(format!("reset {r:?}, flag {}", flagged())),
                },
            };
            let wrong = wrong.or_else(|| {
                if !matches!(kind, 0 | 7) {
                    return None;
                }
                let now = (buf.clone(), d.ambient());
                match &first {
                    None => first = Some(now),
                    Some((b, a)) => {
                        if let Some(p) = same_bits(b, &buf) {
                            return Some(format!("pixel {p} went from {:?} to {:?} in a still scene", b[p], buf[p]));
                        } else if bits_opt(*a) != bits_opt(now.1) {
                            return Some(format!("ambient went from {a:?} to {:?} in a still scene", now.1));
                        }
                    }
                }
                None
            });
            let g = self.sh.lock();
            let c = &g.cams[cam];
            let (s1, c1) = (c.st ^ status, c.ctl ^ control);
            let may = match kind {
                5 | 6 => ST_FLAG | ST_OVERWRITE | ST_START,
                4 => ST_FLAG | ST_OVERWRITE,
                _ => ST_FLAG,
            };
            let wrong = wrong.or_else(|| {
                (s1 & !may != 0 || kind != 4 && c1 != 0).then(|| format!("registers changed: status by {s1:04x}, control by {c1:04x}"))
            });
            if let Some(w) = wrong {
                *self.soaked.borrow_mut() = Some(format!("call {} of {n}: {w}", i + 1));
                break;
            }
        }
        if kind == 9 {
            d.set_eps(eps);
            d.set_t_r(tr);
        }
        Out::Unit
    }
}

include!("judge.rs");

/// Run a plan once.
pub fn run_plan(plan: &Plan, want_trace: bool) -> RunReport {
    let mut w = World::new(plan);
    let n = plan.ntasks();
    for (i, t) in w.tasks.iter_mut().enumerate() {
        let ids: std::collections::HashSet<u32> = plan.ops.iter().filter(|o| o.task == i).map(|o| o.id).collect();
        t.faults = plan.faults.iter().filter(|f| ids.contains(&f.op)).copied().collect();
    }
    let sh = Shared::new(w);
    let mk = |id: usize| {
        let slots = plan.ops.iter().map(|o| o.slot.max(if o.k == K::Clone { o.a as usize } else { 0 })).max().unwrap_or(0) + 1;
        Task {
            plan,
            sh: sh.clone(),
            id,
            slots: (0..slots).map(|_| Slot::empty()).collect(),
            cals: vec![[None, None]; slots],
            regs: std::cell::RefCell::new(vec![[[None; 2]; 3]; slots]),
            rep: TaskReport::default(),
            want_trace,
            soaked: std::cell::RefCell::new(None),
        }
    };
    let reports: Vec<TaskReport> = if n == 1 {
        let mut t = mk(0);
        t.run();
        vec![t.rep]
    } else {
        {
            let mut g = sh.lock();
            let first = g.sched.first().map_or(0, |p| usize::from(*p) % n);
            g.turn = first;
        }
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n)
                .map(|i| {
                    let mut t = mk(i);
                    let sh = sh.clone();
                    sc.spawn(move || {
                        sh.start(i);
                        let r = catch_unwind(AssertUnwindSafe(|| t.run()));
                        sh.finish(i);
                        if let Err(p) = r {
                            std::panic::resume_unwind(p);
                        }
                        t.rep
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("harness thread")).collect()
        })
    };
    let g = sh.lock();
    let mut probes = BTreeMap::new();
    let mut viols = vec![];
    let mut digests = vec![];
    let mut trace = vec![];
    for r in reports {
        for (k, v) in r.probes {
            *probes.entry(k).or_insert(0) += v;
        }
        viols.extend(r.viols);
        digests.push(r.digests);
        trace.extend(r.trace);
    }
    RunReport {
        viols,
        probes,
        digests,
        hash: g.hash,
        shape: g.shape,
        stats: g.stats.clone(),
        sim_ns: g.now,
        trace,
    }
}
