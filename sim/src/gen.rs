//! Seeded generators: one scenario family per property.

use crate::camera::*;
use crate::model::*;
use crate::plan::*;
use crate::rng::{hash_str, mix, Rng};

pub const PROPS: [&str; 19] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C20",
];

pub fn run_seed(base: u64, prop: &str, i: u64) -> u64 {
    mix(mix(base, hash_str(prop)), i)
}

struct G {
    r: Rng,
    p: Plan,
    next: u32,
    task: usize,
    slot: usize,
    /// Lengthens the stretches: a few runs are marathons on one driver.
    long: i64,
    /// Operations the property is not about are mixed in.
    inter: bool,
    /// One call is made some 70 000 times.
    soak: bool,
}

/// What may happen in a scenario, with weights.
#[derive(Clone)]
struct Mix {
    ops: Vec<(K, u32)>,
    /// Probability that an operation gets a fault.
    fault: f64,
    faults: Vec<(Fk, u32)>,
    len: (i64, i64),
}

impl G {
    fn new(prop: &str, seed: u64) -> G {
        G {
            r: Rng::new(seed),
            p: Plan {
                prop: prop.into(),
                seed,
                buses: vec![],
                cams: vec![],
                ops: vec![],
                faults: vec![],
                sched: vec![],
                preempt: 0,
                note: String::new(),
            },
            next: 1,
            task: 0,
            slot: 0,
            long: 1,
            inter: false,
            soak: false,
        }
    }
    fn op(&mut self, k: K, a: u64, b: u64, c: u64) -> u32 {
        let id = self.next;
        self.next += 1;
        self.p.ops.push(Op { id, task: self.task, slot: self.slot, k, a, b, c });
        id
    }
    fn bus(&mut self) -> usize {
        let hz = *self.r.pick(&[100_000u64, 400_000, 400_000, 1_000_000]);
        let ov = *self.r.pick(&[0u64, 2_000, 20_000, 100_000]);
        self.p.buses.push((hz, ov));
        self.p.buses.len() - 1
    }
    fn model(&mut self) -> Model {
        if self.r.chance(0.5) { Model::M640 } else { Model::M641 }
    }
    fn addr(&mut self) -> u8 {
        if self.r.chance(0.3) { 0x33 } else { self.r.range(1, 0x7F) as u8 }
    }
    fn control(&mut self, m: Model, wild: bool) -> u16 {
        let r = &mut self.r;
        if wild {
            return r.u16();
        }
        let mut c = m.default_control();
        c = (c & !0x0380) | ((r.range(0, 7) as u16) << 7);
        if r.chance(0.7) {
            c = (c & !0x0C00) | ((r.range(0, 3) as u16) << 10);
        }
        if r.chance(0.5) {
            c ^= 0x1000;
        }
        if r.chance(0.15) {
            c &= !CT_SUBPAGES;
        }
        if r.chance(0.2) {
            c |= CT_REPEAT;
        }
        if r.chance(0.3) {
            c ^= CT_SEL;
        }
        if r.chance(0.3) {
            c |= r.u16() & CT_RESERVED;
        }
        // Left behind by an earlier program.
        if r.chance(0.05) {
            c |= CT_STEP;
        }
        if r.chance(0.05) {
            c ^= CT_HOLD;
        }
        c
    }
    fn cam(&mut self, model: Model, bus: usize, ee: EeKind, fr: FrKind, timer: bool) -> usize {
        let addr = loop {
            let a = self.addr();
            if !self.p.cams.iter().any(|c| c.bus == bus && c.addr == a) {
                break a;
            }
        };
        let ctl = self.control(model, false);
        let r = &mut self.r;
        let mut st = r.u16() & (ST_SP | ST_FLAG | ST_OVERWRITE);
        if r.chance(0.3) {
            st |= r.u16() & ST_RESERVED;
        }
        if r.chance(0.15) {
            st |= r.u16() & (ST_READONLY ^ ST_SP);
        }
        if r.chance(0.1) {
            st |= ST_START;
        }
        let mut i2c = r.u16() & 7;
        if r.chance(0.5) {
            i2c |= r.u16() & I2C_RESERVED;
        }
        let period = period_ns(ctl, 0);
        let phase = r.below(period) + 1;
        let skew = if r.chance(0.5) { 0 } else { r.range(-20_000, 20_000) };
        let spec = CamSpec {
            model,
            bus,
            addr,
            ee,
            ee_seed: r.below(1 << 32),
            flips: vec![],
            ctl,
            st,
            i2c,
            fr,
            fr_seed: r.below(1 << 32),
            phase,
            restart: r.chance(0.5),
            cancel: r.chance(0.4),
            timer,
            skew,
        };
        self.p.cams.push(spec);
        self.p.cams.len() - 1
    }
    fn ee_kind(&mut self) -> EeKind {
        match self.r.below(10) {
            0..=4 => EeKind::Typical,
            5..=7 => EeKind::Wide,
            _ => EeKind::Extreme,
        }
    }
    fn len(&mut self, m: Model) -> u64 {
        let n = m.npix() as i64;
        let r = &mut self.r;
        (if r.chance(0.6) {
            n
        } else {
            match r.below(9) {
                0 => 0,
                1 => 1,
                2 => n - 1,
                3 => n + 1,
                4 => n + r.range(2, 300),
                5 => n * r.range(2, 4) + r.range(-1, 1) * r.range(0, 1),
                6 => m.width() as i64 * r.range(0, m.height() as i64),
                _ => r.range(0, n),
            }
        }) as u64
    }
    fn f32(&mut self, eps: bool, wild: bool) -> u64 {
        let r = &mut self.r;
        if wild && r.chance(0.4) {
            let v = *r.pick(&[
                0.0f32, -0.0, -1.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, 1e-40, f32::MAX, f32::MIN, 1e20, -273.15, -300.0,
            ]);
            return u64::from(v.to_bits());
        }
        let v = if eps {
            match r.below(20) {
                0..=3 => 1.0,
                4 => r.funi(1.0, 1.3) as f32,
                5 => *r.pick(&[0.95f32, 0.98, 0.5, 0.999_999_94, 1.000_000_1, 0.1, 2.0]),
                _ => r.funi(0.05, 1.0) as f32,
            }
        } else if r.chance(0.1) {
            r.funi(-100.0, 500.0) as f32
        } else if r.chance(0.1) {
            *r.pick(&[0.0f32, -0.0, 20.0, 25.0, -40.0, 8.0, 1.0, -1.0])
        } else {
            r.funi(-40.0, 120.0) as f32
        };
        u64::from(v.to_bits())
    }
    fn pick(&mut self, w: &[(K, u32)]) -> K {
        let total: u64 = w.iter().map(|x| u64::from(x.1)).sum();
        let mut t = self.r.below(total);
        for (k, n) in w {
            if t < u64::from(*n) {
                return *k;
            }
            t -= u64::from(*n);
        }
        w[0].0
    }

    /// One random operation on the current slot's camera.
    fn random_op(&mut self, k: K, cam: usize, wild: bool) -> u32 {
        let m = self.p.cams[cam].model;
        let period = period_ns(self.p.cams[cam].ctl, 0);
        match k {
            K::New | K::NewFrom | K::LoadCal | K::EnvPublish => self.op(k, cam as u64, 0, 0),
            K::IfReady | K::Image | K::Sub | K::Raw | K::TwoStep | K::LowLevel | K::Compare => {
                let len = self.len(m);
                let seed = if self.r.chance(0.25) { 0 } else { self.r.below(1 << 20) + 1 };
                let c = self.r.below(4);
                self.op(k, len, seed, c)
            }
            K::Get => {
                let f = self.r.below(8);
                self.op(k, f, 0, 0)
            }
            K::Set => {
                let f = self.r.below(8);
                let v = match f {
                    5 => self.r.below(8),
                    6 => self.r.below(4),
                    _ => self.r.below(2),
                };
                self.op(k, f, v, 0)
            }
            K::Eps => {
                let v = self.f32(true, wild);
                self.op(k, v, 0, 0)
            }
            K::Tr => {
                let v = self.f32(false, wild);
                let some = u64::from(self.r.chance(0.75));
                self.op(k, v, some, 0)
            }
            K::OwnCal => {
                let seed = self.r.below(1 << 20);
                // Mostly values no camera stores.
                self.op(k, cam as u64, if self.r.clone().chance(0.8) { seed | 1 } else { seed & !1 }, 0)
            }
            K::FromData => {
                let n = match self.r.below(6) {
                    0 => 1664,
                    1 => self.r.below(1664),
                    2 => 1663,
                    3 => 1664 + self.r.below(400),
                    4 => self.r.below(200),
                    _ => self.r.below(2000),
                };
                self.op(k, cam as u64, n, 0)
            }
            K::RegSet => {
                let reg = self.r.below(3);
                let f = self.r.below([3, 8, 3][reg as usize]);
                let v = self.r.below(8);
                self.op(k, reg, f, v)
            }
            K::RegHold => {
                let (reg, w) = (self.r.below(3), self.r.below(2));
                let c = *self.r.pick(&[0, 0, 0, 0, 1, 2]);
                self.op(k, reg, w, c)
            }
            K::RegEdit => {
                let reg = self.r.below(3);
                let f = self.r.below([3, 8, 3][reg as usize]);
                let v = self.r.below(16);
                self.op(k, reg, f, v)
            }
            K::RegPut | K::RegLook => {
                let (reg, w) = (self.r.below(3), self.r.below(2));
                self.op(k, reg, w, 0)
            }
            K::RegGet => {
                let reg = self.r.below(3);
                self.op(k, reg, 0, 0)
            }
            K::Sleep => {
                let t = match self.r.below(4) {
                    0 => self.r.below(period / 4 + 1),
                    1 => self.r.below(3 * period),
                    _ => self.r.below(period + period / 2),
                };
                self.op(k, t, 0, 0)
            }
            K::EnvReset => {
                let s = if self.r.chance(0.5) { 0 } else { self.r.below(1 << 30) + 1 };
                self.op(k, cam as u64, s, 0)
            }
            K::EnvWrite => {
                let reg = self.r.below(3);
                let v = match reg {
                    0 => u64::from(self.r.u16() & !ST_START),
                    1 => u64::from(self.control(m, wild)),
                    _ => u64::from(self.r.u16()),
                };
                self.op(k, cam as u64, reg, v)
            }
            K::EnvRot => {
                let i = self.r.below(EE_WORDS as u64);
                let x = 1u64 << self.r.below(16);
                self.op(k, cam as u64, i, x)
            }
            K::EnvHalt => {
                let v = self.r.below(2);
                self.op(k, cam as u64, v, 0)
            }
            _ => self.op(k, 0, 0, 0),
        }
    }

    fn fault(&mut self, op: u32, kinds: &[(Fk, u32)], wild: bool) {
        let k_op = self.p.ops.iter().find(|o| o.id == op).map_or(K::Get, |o| o.k);
        let total: u64 = kinds.iter().map(|x| u64::from(x.1)).sum();
        let mut t = self.r.below(total);
        let mut k = kinds[0].0;
        for (f, n) in kinds {
            if t < u64::from(*n) {
                k = *f;
                break;
            }
            t -= u64::from(*n);
        }
        let img = matches!(k_op, K::IfReady | K::Image | K::Sub | K::Raw | K::TwoStep | K::LowLevel | K::Compare);
        let load = matches!(k_op, K::New | K::LoadCal);
        let class = match k {
            Fk::LostAck => Class::Write,
            Fk::Dead => *self.r.pick(&[Class::Any, Class::Any, Class::Read, Class::Status, Class::Control]),
            Fk::Partial | Fk::Garble | Fk::Flip | Fk::PublishAt => {
                if img {
                    *self.r.pick(&[Class::Read, Class::Ram, Class::Ram, Class::Status])
                } else if load {
                    *self.r.pick(&[Class::Ee, Class::Ee, Class::Control])
                } else {
                    Class::Read
                }
            }
            _ => {
                if img {
                    *self.r.pick(&[Class::Any, Class::Ram, Class::Write, Class::Status])
                } else if load {
                    *self.r.pick(&[Class::Any, Class::Ee, Class::Control])
                } else if k_op == K::Sync {
                    *self.r.pick(&[Class::Any, Class::Status, Class::Write])
                } else {
                    *self.r.pick(&[Class::Any, Class::Write])
                }
            }
        };
        let n = match class {
            Class::Ram => self.r.below(if self.r.clone().chance(0.5) { 8 } else { 32 }),
            Class::Any | Class::Read | Class::Ee if img || load => self.r.below(if self.r.clone().chance(0.6) { 6 } else { 30 }),
            Class::Status | Class::Any if k_op == K::Sync => {
                // Sometimes late in a long wait.
                let top = if self.r.chance(0.3) { 1 << self.r.range(4, 10) } else { 12 };
                self.r.below(top)
            }
            Class::Any | Class::Read => self.r.below(2),
            // Usually there is only one such transaction.
            _ if self.r.chance(0.2) => self.r.below(4),
            _ => 0,
        } as u32;
        let (a, b) = match k {
            Fk::Partial => {
                let long = self.r.chance(0.5);
                (self.r.below(if long { 1700 } else { 8 }), 0)
            }
            Fk::Garble => (self.r.below(4), self.r.below(1 << 30)),
            Fk::Dead => {
                // C07 is about refused transactions, C11 about what is read.
                let style = match self.p.prop.as_str() {
                    "C07" | "C08" => 0,
                    "C11" => self.r.range(1, 2) as u64,
                    _ => self.r.below(3),
                };
                // Waiting for a camera that never answers anything but zeroes has no end.
                let sync = k_op == K::Sync;
                (style, if self.r.chance(if sync { 1.0 } else { 0.4 }) { self.r.range(2, 60) as u64 } else { 0 })
            }
            Fk::Flip => (self.r.below(64), if self.r.chance(0.5) { 1 << self.r.below(16) } else { u64::from(self.r.u16()) }),
            Fk::Stall => (self.r.below(3_000_000_000), 0),
            Fk::Reset => (self.r.below(2) * (self.r.below(1 << 20) + 1), 0),
            Fk::ExtWrite => {
                let reg = self.r.below(3);
                let v = match reg {
                    1 => {
                        let m = self.p.cams[0].model;
                        u64::from(self.control(m, wild))
                    }
                    0 => u64::from(self.r.u16() & !ST_START),
                    _ => u64::from(self.r.u16()),
                };
                (reg, v)
            }
            Fk::PublishAt => (self.r.below(32), 0),
            _ => (0, 0),
        };
        self.p.faults.push(Fault { op, class, n, k, a, b });
    }

    fn new_driver(&mut self, cam: usize) {
        self.op(K::New, cam as u64, 0, 0);
    }

    /// The camera does not answer for a while, but the application keeps calling.
    fn outage(&mut self, cam: usize, m: &Mix, wild: bool) {
        let n = match self.r.below(12) {
            0 => self.r.range(30, 300),
            1..=3 => self.r.range(10, 30),
            _ => self.r.range(2, 12),
        };
        let ops: Vec<_> = m.ops.iter().copied().filter(|o| !matches!(o.0, K::New | K::NewFrom | K::Sync)).collect();
        let same = if self.r.chance(0.6) { Some(self.pick(&ops)) } else { None };
        let class = *self.r.pick(&[Class::Any, Class::Any, Class::Status, Class::Ram, Class::Write]);
        let kind = match class {
            Class::Write => *self.r.pick(&[Fk::Nack, Fk::LostAck, Fk::LostAck]),
            _ => *self.r.pick(&[Fk::Nack, Fk::Nack, Fk::Nack, Fk::Partial]),
        };
        let (class, kind, style) = if self.p.prop == "C11" && self.r.chance(0.8) {
            // It is there, but says nothing: the bus floats high or is held low.
            (*self.r.pick(&[Class::Any, Class::Any, Class::Read, Class::Status, Class::Ram]), Fk::Dead, self.r.range(1, 2) as u64)
        } else if self.r.chance(0.2) {
            (class, Fk::Dead, 0)
        } else {
            (class, kind, self.r.below(8))
        };
        let at = if class == Class::Ram { self.r.below(6) as u32 } else { 0 };
        for _ in 0..n {
            let k = match same {
                Some(k) if self.r.chance(0.9) => k,
                _ => self.pick(&ops),
            };
            let op = self.random_op(k, cam, wild);
            if !matches!(k, K::EnvPublish | K::EnvReset | K::EnvWrite | K::EnvRot | K::Sleep | K::Eps | K::EpsDefault | K::Tr) {
                self.p.faults.push(Fault { op, class, n: at, k: kind, a: style, b: 0 });
            }
            if class != Class::Any && self.r.chance(0.3) {
                self.op(K::EnvPublish, cam as u64, 0, 0);
            }
        }
        self.op(K::EnvPublish, cam as u64, 0, 0);
    }

    /// The same call more often than 16 bits can count.
    fn soak(&mut self) {
        let kinds: &[u64] = match self.p.prop.as_str() {
            "C01" | "C02" | "C04" | "C14" | "C19" => &[0, 7],
            "C03" => &[0, 2, 3, 10],
            "C05" => &[3, 4, 10],
            "C07" => &[1, 8],
            "C08" => &[5, 6, 6],
            "C13" => &[0, 7, 9],
            "C16" => &[0, 2],
            _ => &[0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 7, 8, 9, 10],
        };
        let kind = *self.r.pick(kinds);
        let n = if self.r.chance(0.7) { 66_000 } else { self.r.range(300, 66_000) as u64 };
        let a = self.r.below(1 << 20);
        self.op(K::Soak, a, kind, n);
    }

    /// A stretch of random operations.
    fn stretch(&mut self, cam: usize, m: &Mix, wild: bool) {
        let n = self.r.range(m.len.0, m.len.1) * self.long;
        let out = match self.p.prop.as_str() {
            "C07" => 0.15,
            "C01" | "C02" | "C03" | "C05" | "C06" | "C08" | "C11" | "C13" | "C17" | "C19" | "C20" => 0.02,
            _ => 0.0,
        };
        let out = if self.long == 1 && m.faults.iter().any(|f| f.0 == Fk::Nack) && self.r.chance(out) {
            self.r.range(0, n)
        } else {
            -1
        };
        let soak = if std::mem::take(&mut self.soak) { self.r.range(0, n) } else { -1 };
        for i in 0..=n {
            if i == soak {
                self.soak();
            }
            if i == n {
                break;
            }
            if i == out {
                self.outage(cam, m, wild);
            }
            let mut k = self.pick(&m.ops);
            // The driver of a marathon lives for long, and mostly gets images.
            if self.long > 1 && (matches!(k, K::New | K::NewFrom | K::Sync) || self.r.chance(0.6)) && self.r.chance(0.998) {
                self.op(K::EnvPublish, cam as u64, 0, 0);
                k = *self.r.pick(&[K::IfReady, K::IfReady, K::IfReady, K::Image, K::Sub]);
            }
            let mut waits = false;
            if self.inter && self.long == 1 && self.r.chance(0.1) {
                let all = with(everything(true), &[(K::OwnCal, 1), (K::FromData, 1), (K::RegLook, 1), (K::RegPut, 1)]);
                k = self.pick(&all);
                waits = k == K::Sync && !self.p.cams[cam].timer;
            }
            let id = self.random_op(k, cam, wild);
            if waits {
                let n = self.r.range(1, 8) as u32;
                self.p.faults.push(Fault { op: id, class: Class::Status, n, k: Fk::Publish, a: 0, b: 0 });
            }
            if k == K::Sync && self.p.prop == "C12" {
                // Measurements complete while the driver waits.
                let n = self.r.range(1, 8) as u32;
                for n in [n, n + 5, n + 12] {
                    self.p.faults.push(Fault { op: id, class: Class::Status, n, k: Fk::Publish, a: 0, b: 0 });
                }
            }
            if !m.faults.is_empty() && self.r.chance(if self.long > 1 { m.fault / 2.0 } else { m.fault }) {
                // Faults beside those the property is about, too.
                let more = [
                    (Fk::Nack, 2), (Fk::Partial, 2), (Fk::LostAck, 2), (Fk::Garble, 1), (Fk::Flip, 1), (Fk::Publish, 1), (Fk::PublishAt, 1), (Fk::Stall, 1),
                    (Fk::ExtWrite, 1), (Fk::Reset, 1),
                ];
                let beside = self.inter && self.r.chance(0.25);
                let kinds = if beside { &more[..] } else { &m.faults[..] };
                let kinds: Vec<_> =
                    kinds.iter().copied().filter(|f| self.long == 1 || !matches!(f.0, Fk::CrashBefore | Fk::CrashAfter)).collect();
                self.fault(id, &kinds, wild);
                if self.r.chance(0.15) {
                    self.fault(id, &kinds, wild);
                }
                // The driver may be gone now.
                if k == K::New
                    || k == K::NewFrom
                    || self.p.faults.iter().any(|f| f.op == id && matches!(f.k, Fk::CrashBefore | Fk::CrashAfter))
                {
                    self.new_driver(cam);
                }
            }
        }
    }
}

fn images(w: u32) -> Vec<(K, u32)> {
    vec![(K::IfReady, w * 3), (K::Image, w * 2), (K::Sub, w * 3), (K::Raw, w)]
}

pub fn generate(prop: &str, seed: u64) -> Plan {
    let mut g = G::new(prop, seed);
    let odds = match prop {
        "C01" | "C03" | "C11" | "C13" => 1.0 / 300.0,
        "C02" | "C04" | "C05" | "C06" | "C07" | "C14" | "C16" | "C17" | "C19" | "C20" => 1.0 / 1500.0,
        _ => 0.0,
    };
    if g.r.chance(odds) {
        g.long = if g.r.chance(0.1) { g.r.range(150, 400) } else { g.r.range(30, 70) };
        g.p.note = "marathon".into();
    }
    g.inter = g.r.chance(0.35);
    // Decided apart from everything else.
    g.soak = !matches!(prop, "C09" | "C10" | "C12" | "C15" | "C18") && Rng::new(mix(seed, 0x50AC)).chance(if matches!(prop, "C06" | "C11" | "C17" | "C20") { 1.0 / 400.0 } else { 1.0 / 800.0 });
    match prop {
        "C01" => c01(&mut g),
        "C02" => c02(&mut g),
        "C03" => c03(&mut g),
        "C04" => c04(&mut g),
        "C05" => c05(&mut g),
        "C06" => c06(&mut g),
        "C07" => c07(&mut g),
        "C08" => c08(&mut g),
        "C09" => c09(&mut g),
        "C10" => c10(&mut g),
        "C11" => c11(&mut g),
        "C12" => c12(&mut g),
        "C13" => c13(&mut g),
        "C14" => c14(&mut g),
        "C15" => c15(&mut g),
        "C16" => c16(&mut g),
        "C19" => c19(&mut g),
        "C20" => c20(&mut g),
        _ => c17(&mut g),
    }
    g.p
}

fn start(g: &mut G, ee: Option<EeKind>, wild_frames: f64, timer: f64) -> usize {
    let m = g.model();
    let b = g.bus();
    let ee = ee.unwrap_or_else(|| g.ee_kind());
    let fr = if g.r.chance(wild_frames) { FrKind::Wild } else { FrKind::Typical };
    let t = g.r.chance(timer);
    g.cam(m, b, ee, fr, t)
}

fn with(mut a: Vec<(K, u32)>, b: &[(K, u32)]) -> Vec<(K, u32)> {
    a.extend_from_slice(b);
    a
}

fn c01(g: &mut G) {
    let c = start(g, None, 0.3, 0.3);
    let low = g.r.chance(0.4);
    if low {
        g.op(K::LoadCal, c as u64, 0, 0);
    }
    if low && g.r.chance(0.3) {
        g.op(K::NewFrom, c as u64, 0, 0);
    } else {
        g.new_driver(c);
    }
    let mut ops = with(
        images(6),
        &[(K::EnvPublish, 14), (K::Set, 8), (K::Get, 2), (K::Eps, 4), (K::EpsDefault, 1), (K::Tr, 4), (K::Sleep, 6), (K::EnvReset, 1), (K::ResetAvail, 1)],
    );
    if low {
        ops.extend([(K::LowLevel, 5), (K::TwoStep, 5)]);
    }
    let m = Mix {
        ops,
        fault: 0.15,
        faults: vec![(Fk::Nack, 3), (Fk::Partial, 3), (Fk::LostAck, 3), (Fk::Reset, 1), (Fk::Publish, 2), (Fk::PublishAt, 1), (Fk::Stall, 1)],
        len: (4, 24),
    };
    g.stretch(c, &m, false);
}

fn c02(g: &mut G) {
    let c = start(g, None, 0.4, 0.2);
    g.op(K::LoadCal, c as u64, 0, 0);
    g.new_driver(c);
    let m = Mix {
        ops: with(images(8), &[(K::LowLevel, 4), (K::TwoStep, 4), (K::EnvPublish, 12), (K::Set, 5), (K::Sleep, 2), (K::Eps, 1)]),
        fault: 0.3,
        faults: vec![(Fk::Nack, 6), (Fk::Partial, 6), (Fk::LostAck, 3), (Fk::Reset, 1), (Fk::Publish, 2), (Fk::Garble, 1)],
        len: (5, 22),
    };
    g.stretch(c, &m, false);
}

fn c03(g: &mut G) {
    let c = start(g, Some(EeKind::Typical), 0.2, 0.5);
    g.new_driver(c);
    let m = Mix {
        ops: vec![
            (K::IfReady, 20), (K::Image, 3), (K::Sub, 2), (K::Raw, 1), (K::EnvPublish, 12), (K::Sleep, 8), (K::Get, 3), (K::Set, 5),
            (K::LastSub, 2), (K::Avail, 4), (K::ResetAvail, 2), (K::Sync, 1), (K::RegGet, 1), (K::RegSet, 1), (K::New, 1),
        ],
        fault: 0.3,
        faults: vec![(Fk::Nack, 8), (Fk::Partial, 5), (Fk::LostAck, 4), (Fk::Publish, 3), (Fk::PublishAt, 1), (Fk::Stall, 1), (Fk::Reset, 1), (Fk::CrashBefore, 1), (Fk::CrashAfter, 1), (Fk::Flip, 1)],
        len: (6, 26),
    };
    slow_sync(g);
    g.stretch(c, &m, false);
}

/// Keep the number of status polls of a synchronise call within reason.
fn slow_sync(g: &mut G) {
    for b in &mut g.p.buses {
        b.0 = b.0.min(400_000);
        b.1 = b.1.max(1_000_000);
    }
    for c in &mut g.p.cams {
        c.ctl |= 0x0200;
        c.phase = c.phase % period_ns(c.ctl, 0) + 1;
    }
}

fn c04(g: &mut G) {
    let c = start(g, None, 0.2, 0.2);
    g.new_driver(c);
    let n = g.r.range(2, 8);
    let soft = [
        (Fk::Nack, 6), (Fk::Partial, 3), (Fk::LostAck, 2), (Fk::Reset, 1), (Fk::ExtWrite, 1), (Fk::Stall, 1), (Fk::Garble, 1), (Fk::Publish, 1),
    ];
    for _ in 0..n {
        match g.r.below(10) {
            0..=5 => {
                let f = *g.r.pick(&[6u64, 6, 7, 7, 5, 0, 1]);
                let v = g.r.below(if f == 6 { 4 } else { 2 });
                let id = g.op(K::Set, f, v, 0);
                if g.r.chance(0.45) {
                    g.fault(id, &soft, false);
                }
            }
            6 => {
                g.random_op(K::EnvReset, c, false);
                let f = g.r.below(8);
                let id = g.op(if g.r.clone().chance(0.8) { K::Get } else { K::Set }, f, 0, 0);
                if g.r.chance(0.2) {
                    g.fault(id, &soft, false);
                }
            }
            7 => {
                let v = u64::from(g.control(g.p.cams[c].model, false));
                g.op(K::EnvWrite, c as u64, 1, v);
                let f = g.r.below(8);
                g.op(K::Get, f, 0, 0);
            }
            8 => {
                let reg = 1;
                let f = *g.r.pick(&[6u64, 7]);
                let v = g.r.below(8);
                g.op(K::RegSet, reg, f, v);
                if g.r.chance(0.7) {
                    let f = g.r.below(8);
                    g.op(K::Get, f, 0, 0);
                }
            }
            _ => {
                g.random_op(K::Get, c, false);
            }
        }
        if g.r.chance(0.7) {
            g.op(K::EnvPublish, c as u64, 0, 0);
        }
        let m = Mix { ops: images(4), fault: 0.1, faults: vec![(Fk::Nack, 1), (Fk::Partial, 1)], len: (1, 3) };
        g.stretch(c, &m, false);
    }
}

fn wild_registers(g: &mut G) {
    for c in 0..g.p.cams.len() {
        let (a, b, d) = (g.r.u16(), g.r.u16(), g.r.u16());
        g.p.cams[c].ctl = a;
        g.p.cams[c].st = b;
        g.p.cams[c].i2c = d;
        g.p.cams[c].phase = g.p.cams[c].phase % period_ns(a, 0) + 1;
    }
}

fn c05(g: &mut G) {
    let c = start(g, Some(EeKind::Typical), 0.0, 0.4);
    if g.r.chance(0.7) {
        wild_registers(g);
    }
    g.new_driver(c);
    let m = Mix {
        ops: vec![
            (K::Set, 24), (K::Get, 16), (K::LastSub, 3), (K::Avail, 3), (K::ResetAvail, 2), (K::RegSet, 10), (K::RegGet, 6),
            (K::EnvWrite, 4), (K::EnvReset, 1), (K::EnvPublish, 4), (K::Sleep, 4), (K::IfReady, 2),
        ],
        fault: 0.2,
        faults: vec![(Fk::Nack, 6), (Fk::Partial, 2), (Fk::LostAck, 3), (Fk::ExtWrite, 1), (Fk::Publish, 1), (Fk::Reset, 1)],
        len: (10, 45),
    };
    g.stretch(c, &m, true);
}

fn everything(sync: bool) -> Vec<(K, u32)> {
    let mut v = with(
        images(4),
        &[
            (K::LowLevel, 2), (K::TwoStep, 2), (K::Get, 5), (K::Set, 8), (K::LastSub, 2), (K::Avail, 2), (K::ResetAvail, 2), (K::Eps, 1),
            (K::EpsDefault, 1), (K::Tr, 1), (K::LoadCal, 1), (K::RegSet, 4), (K::RegGet, 2), (K::Sleep, 4), (K::EnvPublish, 6),
            (K::EnvReset, 1), (K::EnvWrite, 1), (K::New, 1), (K::NewFrom, 1),
        ],
    );
    if sync {
        v.push((K::Sync, 2));
    }
    v
}

fn c06(g: &mut G) {
    let ee = if g.r.chance(0.7) { EeKind::Typical } else { g.ee_kind() };
    let c = start(g, Some(ee), 0.3, 0.4);
    if g.r.chance(0.6) {
        wild_registers(g);
    }
    slow_sync(g);
    g.op(K::LoadCal, c as u64, 0, 0);
    g.new_driver(c);
    let m = Mix {
        ops: everything(true),
        fault: 0.15,
        faults: vec![(Fk::Nack, 4), (Fk::Partial, 2), (Fk::LostAck, 2), (Fk::ExtWrite, 1), (Fk::Reset, 1), (Fk::Publish, 2), (Fk::Flip, 1)],
        len: (10, 36),
    };
    g.stretch(c, &m, true);
}

fn c07(g: &mut G) {
    let c = start(g, Some(EeKind::Typical), 0.2, 0.3);
    slow_sync(g);
    let faults = vec![(Fk::Nack, 8), (Fk::Partial, 6), (Fk::LostAck, 5), (Fk::Dead, 3), (Fk::Stall, 1), (Fk::Publish, 1)];
    let id = g.op(K::LoadCal, c as u64, 0, 0);
    if g.r.chance(0.25) {
        g.fault(id, &faults, false);
        g.op(K::LoadCal, c as u64, 0, 0);
    }
    let id = g.op(K::New, c as u64, 0, 0);
    if g.r.chance(0.25) {
        g.fault(id, &faults, false);
        g.new_driver(c);
    }
    let m = Mix { ops: everything(true), fault: 0.5, faults, len: (8, 30) };
    g.stretch(c, &m, false);
}

fn c08(g: &mut G) {
    let c = start(g, Some(EeKind::Typical), 0.0, 0.85);
    slow_sync(g);
    {
        let r = &mut g.r;
        let cam = &mut g.p.cams[c];
        if r.chance(0.25) {
            cam.ctl |= CT_STEP;
        }
        if r.chance(0.25) {
            cam.ctl |= CT_HOLD;
        }
        if r.chance(0.3) {
            cam.st &= !ST_OVERWRITE;
        }
        if r.chance(0.08) {
            // A slow camera.
            cam.ctl &= !0x0200;
            cam.phase = r.below(period_ns(cam.ctl, 0)) + 1;
        }
    }
    if g.r.chance(0.4) {
        let ov = *g.r.pick(&[100_000u64, 300_000, 5_000_000, 20_000_000]);
        g.p.buses[0].1 = ov;
    }
    g.new_driver(c);
    let n = g.r.range(2, 7);
    for _ in 0..n {
        let m = Mix {
            ops: vec![(K::Sleep, 8), (K::EnvPublish, 4), (K::IfReady, 3), (K::Set, 2), (K::Get, 1), (K::ResetAvail, 1), (K::Avail, 1), (K::EnvReset, 1)],
            fault: 0.0,
            faults: vec![],
            len: (0, 3),
        };
        g.stretch(c, &m, false);
        let halt = g.r.chance(0.06);
        if halt {
            g.op(K::EnvHalt, c as u64, 1, 0);
        }
        let id = g.op(K::Sync, 0, 0, 0);
        if g.r.chance(0.45) {
            let f = [(Fk::Nack, 5), (Fk::Partial, 2), (Fk::LostAck, 2), (Fk::Dead, 2), (Fk::Publish, 5), (Fk::PublishAt, 1), (Fk::Stall, 1), (Fk::Garble, 1), (Fk::Reset, 1)];
            g.fault(id, &f, false);
        }
        if !g.p.cams[c].timer && g.r.chance(0.9) {
            let n = g.r.range(1, 8) as u32;
            g.p.faults.push(Fault { op: id, class: Class::Status, n, k: Fk::Publish, a: 0, b: 0 });
        }
        if halt {
            g.op(K::EnvHalt, c as u64, 0, 0);
            g.new_driver(c);
        } else if !g.p.cams[c].timer {
            g.new_driver(c);
        }
        if g.r.chance(0.5) {
            g.random_op(K::IfReady, c, false);
        }
    }
}

fn c09(g: &mut G) {
    let b = g.bus();
    let ee = g.ee_kind();
    let fr = if g.r.chance(0.2) { FrKind::Wild } else { FrKind::Typical };
    let c = g.cam(Model::M641, b, ee, fr, false);
    // Damage.
    let used: Vec<u16> = (0..EE_WORDS as u16).filter(|&i| used641(usize::from(i))).collect();
    let mut flips: Vec<(u16, u16)> = vec![];
    let n = match g.r.below(5) {
        0 => 0,
        1 => 1,
        2 => g.r.range(2, 6),
        3 => g.r.range(6, 100),
        _ => used.len() as i64,
    };
    if n as usize == used.len() {
        for &i in &used {
            let b = g.r.below(16);
            flips.push((i, 1 << b));
        }
    } else {
        for _ in 0..n {
            let head = g.r.chance(0.4);
            let i = used[g.r.us(if head { 46 } else { used.len() })];
            if !flips.iter().any(|f| f.0 == i) {
                let b = g.r.below(16);
                flips.push((i, 1 << b));
            }
        }
    }
    // Unused words may hold anything.
    for _ in 0..g.r.below(4) {
        let i = *g.r.pick(&[0u16, 1, 5, 9, 0x0F, 0x13, 0x14]);
        let x = g.r.u16();
        flips.push((i, x));
    }
    if g.r.chance(0.35) {
        let head = g.r.chance(0.4);
        let i = used[g.r.us(if head { 46 } else { used.len() })];
        let (x, y) = (g.r.below(16), g.r.below(15));
        let y = if y >= x { y + 1 } else { y };
        flips.retain(|f| f.0 != i);
        flips.push((i, (1 << x) | (1 << y)));
    }
    g.p.cams[c].flips = flips;
    g.op(K::LoadCal, c as u64, 0, 0);
    g.op(K::FromData, c as u64, 1664, 0);
    g.new_driver(c);
    let m = Mix { ops: with(images(3), &[(K::EnvPublish, 4), (K::Set, 2), (K::LowLevel, 1)]), fault: 0.0, faults: vec![], len: (1, 5) };
    g.stretch(c, &m, false);
    // Memory decays while the application runs; reload.
    for _ in 0..g.r.below(3) {
        let i = used[g.r.us(used.len())];
        let x = 1u64 << g.r.below(16);
        g.op(K::EnvRot, c as u64, u64::from(i), x);
        let k = if g.r.chance(0.5) { K::LoadCal } else { K::New };
        let id = g.op(k, c as u64, 0, 0);
        if g.r.chance(0.2) {
            let w = g.r.below(800);
            let x = 1 << g.r.below(16);
            g.p.faults.push(Fault { op: id, class: Class::Ee, n: 0, k: Fk::Flip, a: w, b: x });
        }
        g.stretch(c, &m, false);
    }
}

fn c10(g: &mut G) {
    let ee = match g.r.below(10) {
        0..=2 => EeKind::Typical,
        3..=6 => EeKind::Wide,
        7..=8 => EeKind::Extreme,
        _ => EeKind::Garbage,
    };
    let c = start(g, Some(ee), 0.0, 0.1);
    let faults = [(Fk::Nack, 4), (Fk::Partial, 6), (Fk::Flip, 3), (Fk::Garble, 1), (Fk::Stall, 1)];
    for _ in 0..g.r.range(2, 6) {
        let k = *g.r.pick(&[K::LoadCal, K::LoadCal, K::New, K::FromData]);
        let id = g.random_op(k, c, false);
        if k != K::FromData && g.r.chance(0.3) {
            g.fault(id, &faults, false);
        }
        if g.r.chance(0.3) {
            g.random_op(K::EnvRot, c, false);
        }
        if g.r.chance(0.3) {
            g.random_op(K::Sub, c, false);
        }
    }
}

fn c11(g: &mut G) {
    let ee = *g.r.pick(&[EeKind::Garbage, EeKind::Garbage, EeKind::Extreme, EeKind::Wide, EeKind::Typical]);
    let c = start(g, Some(ee), 0.7, 0.3);
    if g.r.chance(0.6) {
        wild_registers(g);
    }
    slow_sync(g);
    let id = g.op(K::LoadCal, c as u64, 0, 0);
    let faults = vec![(Fk::Garble, 8), (Fk::Flip, 4), (Fk::Dead, 4), (Fk::ExtWrite, 2), (Fk::Reset, 2), (Fk::Nack, 1), (Fk::Publish, 1)];
    if g.r.chance(0.3) {
        g.fault(id, &faults, true);
    }
    for _ in 0..g.r.below(3) {
        g.random_op(K::FromData, c, true);
    }
    let id = g.op(K::New, c as u64, 0, 0);
    if g.r.chance(0.3) {
        g.fault(id, &faults, true);
    }
    let mut ops = everything(true);
    ops.extend([(K::Eps, 4), (K::Tr, 4), (K::FromData, 2), (K::EnvRot, 1), (K::EnvWrite, 3)]);
    let m = Mix { ops, fault: 0.3, faults, len: (5, 24) };
    g.stretch(c, &m, true);
    // Valid data again: exactly what any driver would deliver.
    g.random_op(K::EnvReset, c, false);
    g.op(K::EnvPublish, c as u64, 0, 0);
    g.op(K::Get, 5, 0, 0);
    let m = Mix { ops: images(1), fault: 0.0, faults: vec![], len: (1, 3) };
    g.stretch(c, &m, false);
}

fn c12(g: &mut G) {
    if g.r.chance(0.25) {
        return c12_clone(g);
    }
    let n = g.r.range(2, 4) as usize;
    let shared = g.r.chance(0.6);
    // All in one thread: one application with several sensors.
    let together = g.r.chance(0.3);
    g.bus();
    // Own calibrations, through which threads can be preempted in the middle of a computation.
    let own = if g.r.chance(0.5) { 0.8 } else { 0.0 };
    if own > 0.0 && !together {
        g.p.preempt = *g.r.pick(&[30, 150, 600, 3000]);
    }
    let mut parts: Vec<Vec<Op>> = vec![];
    for t in 0..n {
        let b = if shared || t == 0 { 0 } else { g.bus() };
        let m = g.model();
        let ee = if g.r.chance(0.6) { EeKind::Typical } else { g.ee_kind() };
        let fr = if g.r.chance(0.2) { FrKind::Wild } else { FrKind::Typical };
        let mut c = g.cam(m, b, ee, fr, false);
        // Sometimes identical twins: only the address tells them apart.
        if t > 0 && g.r.chance(0.3) {
            let mut twin = g.p.cams[0].clone();
            twin.bus = b;
            twin.addr = g.p.cams[c].addr;
            twin.fr_seed = g.p.cams[c].fr_seed;
            g.p.cams[c] = twin;
        }
        // Neighbouring addresses.
        if shared && t > 0 && g.r.chance(0.4) {
            let a = g.p.cams[0].addr ^ (1 << g.r.below(7));
            if a != 0 && !g.p.cams.iter().any(|x| x.addr == a) {
                g.p.cams[c].addr = a;
            }
        }
        (g.task, g.slot) = if together { (0, t) } else { (t, 0) };
        let first = g.p.ops.len();
        c = g.p.cams.len() - 1;
        g.op(K::LoadCal, c as u64, 0, 0);
        if g.r.chance(own) {
            g.random_op(K::OwnCal, c, false);
            g.op(K::NewFrom, c as u64, 0, 0);
        } else {
            g.new_driver(c);
        }
        let m = Mix {
            ops: with(
                images(5),
                &[
                    (K::EnvPublish, 10), (K::Set, 6), (K::Get, 3), (K::Eps, 2), (K::Tr, 2), (K::LowLevel, 2), (K::TwoStep, 2), (K::Avail, 1),
                    (K::ResetAvail, 1), (K::LastSub, 1), (K::EnvReset, 1), (K::RegSet, 1), (K::New, 1), (K::NewFrom, 1), (K::LoadCal, 1), (K::Sync, 2),
                    (K::FromData, 1),
                ],
            ),
            fault: 0.15,
            faults: vec![(Fk::Nack, 4), (Fk::Partial, 3), (Fk::LostAck, 3), (Fk::Garble, 1), (Fk::Reset, 1), (Fk::CrashBefore, 1)],
            len: (4, 14),
        };
        g.stretch(c, &m, false);
        parts.push(g.p.ops.split_off(first));
    }
    g.slot = 0;
    if together {
        let mut left: Vec<_> = parts.into_iter().map(std::collections::VecDeque::from).collect();
        while !left.is_empty() {
            let i = g.r.us(left.len());
            for _ in 0..g.r.range(1, 3) {
                g.p.ops.extend(left[i].pop_front());
            }
            left.retain(|l| !l.is_empty());
        }
        return;
    }
    g.p.ops = parts.concat();
    let len = g.r.range(3, 60);
    // Some schedules are bursty.
    let sticky = g.r.unit() * 0.9;
    let mut cur = g.r.below(12) as u8;
    for _ in 0..len {
        if !g.r.chance(sticky) {
            cur = g.r.below(12) as u8;
        }
        g.p.sched.push(cur);
    }
}

fn c12_clone(g: &mut G) {
    g.p.note = "clone".into();
    let c = start(g, Some(EeKind::Typical), 0.1, 0.0);
    g.op(K::LoadCal, c as u64, 0, 0);
    g.new_driver(c);
    let m = Mix {
        ops: with(images(4), &[(K::EnvPublish, 6), (K::Set, 5), (K::Get, 3), (K::Eps, 3), (K::Tr, 3), (K::EpsDefault, 1), (K::TwoStep, 2)]),
        fault: 0.1,
        faults: vec![(Fk::Nack, 2), (Fk::Partial, 1), (Fk::LostAck, 1)],
        len: (1, 5),
    };
    g.stretch(c, &m, false);
    g.op(K::Clone, 1, 0, 0);
    for _ in 0..g.r.range(3, 8) {
        g.slot = g.r.us(2);
        let m2 = Mix { len: (1, 3), ..m.clone() };
        g.stretch(c, &m2, false);
        if g.r.chance(0.1) {
            let other = 1 - g.slot as u64;
            g.op(K::Clone, other, 0, 0);
        }
    }
    g.slot = 0;
}

fn c13(g: &mut G) {
    let c = start(g, None, 0.2, 0.2);
    let low = g.r.chance(0.3);
    if low {
        g.op(K::LoadCal, c as u64, 0, 0);
    }
    g.new_driver(c);
    let mut ops = with(
        images(5),
        &[
            (K::Eps, 10), (K::EpsDefault, 3), (K::Tr, 9), (K::EnvPublish, 8), (K::Set, 5), (K::Get, 3), (K::Avail, 1), (K::ResetAvail, 1),
            (K::LastSub, 1), (K::EnvReset, 1), (K::New, 1), (K::Sleep, 1),
        ],
    );
    if low {
        ops.extend([(K::TwoStep, 3), (K::LowLevel, 2), (K::NewFrom, 1)]);
    }
    let m = Mix {
        ops,
        fault: 0.2,
        faults: vec![(Fk::Nack, 5), (Fk::Partial, 4), (Fk::LostAck, 2), (Fk::Reset, 1), (Fk::Garble, 1), (Fk::Publish, 1)],
        len: (6, 28),
    };
    let wild = g.r.chance(0.15);
    g.stretch(c, &m, wild);
}

fn c14(g: &mut G) {
    let c = start(g, None, 0.3, 0.0);
    g.op(K::LoadCal, c as u64, 0, 0);
    for _ in 0..g.r.range(1, 4) {
        if g.r.chance(0.5) {
            g.new_driver(c);
        } else {
            g.op(K::NewFrom, c as u64, 0, 0);
        }
        // A driver made from a loaded calibration is held to the same model as any other.
        for _ in 0..g.r.range(1, 4) {
            let m = Mix {
                ops: vec![(K::Eps, 4), (K::Tr, 4), (K::Set, 5), (K::EnvPublish, 6), (K::Sub, 2), (K::IfReady, 2), (K::EnvReset, 1), (K::Get, 1)],
                fault: 0.05,
                faults: vec![(Fk::Nack, 1), (Fk::Partial, 1)],
                len: (1, 5),
            };
            g.stretch(c, &m, false);
            let k = *g.r.pick(&[K::Compare, K::Compare, K::TwoStep, K::LowLevel]);
            let m = g.p.cams[c].model;
            let len = g.len(m);
            let seed = g.r.below(1 << 20) + 1;
            let sp = g.r.below(4);
            g.op(k, len, seed, sp);
        }
    }
}

fn host_settings(g: &mut G, c: usize) {
    let cam = Cam::new(&g.p.cams[c]);
    let Some(sc) = cam.scene.as_ref() else { return };
    let (e, t) = (sc.host.emissivity, sc.host.t_r);
    g.op(K::Eps, u64::from(e.to_bits()), 0, 0);
    match t {
        Some(t) => g.op(K::Tr, u64::from(t.to_bits()), 1, 0),
        None => g.op(K::Tr, 0, 0, 0),
    };
}

fn c15(g: &mut G) {
    let m = g.model();
    let b = g.bus();
    let timer = g.r.chance(0.4);
    let c = g.cam(m, b, EeKind::Typical, FrKind::Physics, timer);
    let low = g.r.chance(0.3);
    if low {
        g.op(K::LoadCal, c as u64, 0, 0);
    }
    g.new_driver(c);
    host_settings(g, c);
    let n = g.r.range(3, 9);
    for _ in 0..n {
        for _ in 0..g.r.range(1, 3) {
            let f = *g.r.pick(&[6u64, 6, 6, 7, 7, 5, 1, 3, 4]);
            let v = g.r.below(8);
            let id = g.op(K::Set, f, if f == 6 { v % 4 } else if f == 5 { v } else { v % 2 }, 0);
            if g.r.chance(0.1) {
                g.fault(id, &[(Fk::Nack, 2), (Fk::LostAck, 1), (Fk::Partial, 1)], false);
                g.op(K::Get, 5, 0, 0);
            }
        }
        if g.r.chance(0.08) {
            g.random_op(K::EnvReset, c, false);
            g.op(K::Get, 5, 0, 0);
        }
        if g.inter && g.r.chance(0.2) {
            let k = *g.r.pick(&[K::LastSub, K::Avail, K::RegGet, K::Get, K::ResetAvail, K::Raw, K::Sync, K::Eps, K::Drop]);
            match k {
                K::Sync if !timer => {}
                K::Drop => {
                    g.new_driver(c);
                    host_settings(g, c);
                }
                K::Eps => {
                    g.random_op(K::Eps, c, false);
                    g.random_op(K::Sub, c, false);
                    g.op(K::EpsDefault, 0, 0, 0);
                    host_settings(g, c);
                }
                _ => {
                    g.random_op(k, c, false);
                }
            }
        }
        for _ in 0..2 {
            if timer {
                g.op(K::Get, 5, 0, 0);
                g.op(K::SleepPeriod, 0, 0, 0);
            } else {
                g.op(K::EnvPublish, c as u64, 0, 0);
            }
            let len = m.npix() as u64;
            let sp = g.r.below(2);
            let k = *g.r.pick(&[K::IfReady, K::Image, K::Sub, if low { K::TwoStep } else { K::Sub }]);
            let seed = g.r.below(1 << 20) + 1;
            g.op(k, len, seed, sp);
        }
    }
}

fn c16(g: &mut G) {
    let c = start(g, Some(EeKind::Typical), 0.0, 1.0);
    let m = g.p.cams[c].model;
    let (hz, ov) = g.p.buses[0];
    // A frame rate the bus can sustain: a poll takes well under a period.
    let txns = |rows: u64| (rows + 8) * (ov + 45_000_000_000 / hz);
    let fits = |bytes: u64, rows: u64, code: u64| (2_000_000_000u64 >> code) * 3 / 5 > bytes * 9_000_000_000 / hz + txns(rows);
    let (bytes, rows) = ((m.npix() * 2 + 40) as u64, m.height() as u64);
    // The two patterns do not take the same time on an MLX90640.
    let fits_all = |code| fits(bytes, rows, code) && (m == Model::M641 || fits(bytes / 2 + 40, rows / 2, code));
    let fast = m == Model::M640 && g.r.chance(0.4);
    let top = (0..8u64).rev().find(|&c| if fast { fits(bytes / 2 + 40, rows / 2, c) } else { fits_all(c) }).unwrap_or(0);
    if !fits_all(0) {
        g.p.buses[0] = (400_000, 2_000);
    }
    let code = g.r.below(top + 1) as u16;
    {
        let cam = &mut g.p.cams[c];
        cam.ctl = (cam.ctl & !0x0380 & !CT_REPEAT & !CT_STEP & !CT_HOLD) | CT_SUBPAGES | (code << 7);
        // One subpage only.
        match g.r.below(12) {
            0 => cam.ctl |= CT_REPEAT,
            1 => cam.ctl &= !CT_SUBPAGES,
            _ => {}
        }
        if fast {
            cam.ctl &= !0x1000;
        }
        cam.phase = cam.phase % period_ns(cam.ctl, 0) + 1;
    }
    g.new_driver(c);
    let len = m.npix() as u64;
    let segments = g.r.range(1, 4);
    for s in 0..segments {
        let polls = g.r.range(8, 16) * if s == 0 { g.long } else { 1 };
        for p in 0..polls {
            g.op(K::Get, 5, 0, 0);
            let extra = if g.r.chance(0.1) { g.r.below(200_000) } else { 0 };
            g.op(K::SleepPeriod, extra, 0, 0);
            let seed = if s == 0 && p == 0 { 1 } else { 0 };
            g.op(K::IfReady, len, seed, 0);
            if g.inter && g.r.chance(0.12) {
                let k = *g.r.pick(&[K::Eps, K::EpsDefault, K::Tr, K::LastSub, K::Avail, K::RegGet, K::Get, K::Sync, K::ResetAvail, K::Drop]);
                if k == K::Drop {
                    g.new_driver(c);
                } else {
                    g.random_op(k, c, false);
                }
            }
        }
        if std::mem::take(&mut g.soak) {
            g.soak();
        }
        // Trouble, then quiet again.
        if g.r.chance(0.1) {
            for _ in 0..g.r.range(3, 40) {
                let id = g.op(K::IfReady, len, 0, 0);
                g.p.faults.push(Fault { op: id, class: Class::Any, n: 0, k: Fk::Nack, a: 0, b: 0 });
            }
        }
        for _ in 0..g.r.range(0, 4) {
            let id = g.op(K::IfReady, len, 0, 0);
            let f = [(Fk::Nack, 5), (Fk::Partial, 5), (Fk::LostAck, 3), (Fk::Stall, 3), (Fk::Publish, 1), (Fk::Reset, 1)];
            g.fault(id, &f[..if fast { 5 } else { 6 }], false);
            if g.r.chance(0.5) {
                g.op(K::SleepPeriod, 0, 0, 0);
            }
        }
        match g.r.below(6) {
            0 => {
                g.random_op(K::EnvReset, c, false);
                if fast {
                    // Only this pattern can be read at the highest rates.
                    g.op(K::Set, 7, 0, 0);
                }
            }
            1 => {
                let v = if fast { 0 } else { g.r.below(2) };
                g.op(K::Set, 7, v, 0);
            }
            2 => {
                let v = g.r.below(top + 1);
                g.op(K::Set, 5, v, 0);
            }
            3 => {
                let t = g.r.below(9_000_000_000);
                g.op(K::Sleep, t, 0, 0);
            }
            4 => {
                // What is measured: field 1 both subpages, 3 one of them, 4 which.
                let f = *g.r.pick(&[1, 3, 4]);
                let v = g.r.below(2);
                g.op(K::Set, f, v, 0);
            }
            _ => {}
        }
    }
    let polls = g.r.range(8, 14);
    for _ in 0..polls {
        g.op(K::Get, 5, 0, 0);
        g.op(K::SleepPeriod, 0, 0, 0);
        g.op(K::IfReady, len, 0, 0);
    }
}

fn c17(g: &mut G) {
    let c = start(g, None, 0.2, 0.3);
    slow_sync(g);
    if g.r.chance(0.5) {
        g.op(K::LoadCal, c as u64, 0, 0);
    }
    g.new_driver(c);
    let ops = with(
        images(4),
        &[
            (K::Set, 10), (K::Eps, 2), (K::Tr, 2), (K::EnvPublish, 6), (K::Get, 2), (K::ResetAvail, 1), (K::Sync, 1), (K::RegSet, 2),
            (K::Sleep, 2), (K::EnvReset, 1),
        ],
    );
    for _ in 0..g.r.range(1, 4) {
        let m = Mix { ops: ops.clone(), fault: 0.05, faults: vec![(Fk::Nack, 1), (Fk::LostAck, 1), (Fk::Partial, 1)], len: (1, 8) };
        g.stretch(c, &m, false);
        // The host dies in the middle of a call.
        let k = g.pick(&ops.clone());
        let id = g.random_op(k, c, false);
        g.fault(id, &[(Fk::CrashBefore, 1), (Fk::CrashAfter, 1)], false);
        let id = g.op(K::New, c as u64, 0, 0);
        if g.r.chance(0.15) {
            g.fault(id, &[(Fk::CrashBefore, 1), (Fk::CrashAfter, 1)], false);
            g.new_driver(c);
        }
        let m = Mix {
            ops: with(images(5), &[(K::Get, 8), (K::Avail, 2), (K::LastSub, 2), (K::EnvPublish, 3)]),
            fault: 0.0,
            faults: vec![],
            len: (2, 7),
        };
        g.stretch(c, &m, false);
    }
}

fn c19(g: &mut G) {
    let c = start(g, None, 0.2, 0.2);
    slow_sync(g);
    for _ in 0..g.r.range(1, 4) {
        g.random_op(K::OwnCal, c, false);
        g.op(K::NewFrom, c as u64, 0, 0);
        let m = Mix {
            ops: with(
                images(6),
                &[
                    (K::EnvPublish, 12), (K::Set, 8), (K::Get, 3), (K::Eps, 3), (K::EpsDefault, 3), (K::Tr, 3), (K::TwoStep, 3), (K::LowLevel, 3),
                    (K::ResetAvail, 1), (K::Avail, 1), (K::EnvReset, 1), (K::Sync, 1), (K::NewFrom, 1),
                ],
            ),
            fault: 0.1,
            faults: vec![(Fk::Nack, 3), (Fk::Partial, 3), (Fk::LostAck, 2), (Fk::Reset, 1), (Fk::Publish, 1)],
            len: (3, 12),
        };
        g.stretch(c, &m, false);
        if !g.p.cams[c].timer && g.r.chance(0.5) {
            g.op(K::EnvPublish, c as u64, 0, 0);
            let m = g.p.cams[c].model;
            let (len, seed, sp) = (g.len(m), g.r.below(1 << 20) + 1, g.r.below(4));
            g.op(K::Compare, len, seed, sp);
        }
    }
}

fn c20(g: &mut G) {
    let c = start(g, Some(EeKind::Typical), 0.0, 0.3);
    if g.r.chance(0.6) {
        wild_registers(g);
    }
    g.new_driver(c);
    let m = Mix {
        ops: vec![
            (K::RegHold, 20), (K::RegEdit, 20), (K::RegPut, 10), (K::RegLook, 16), (K::RegGet, 3), (K::Set, 4), (K::Get, 4), (K::EnvWrite, 4),
            (K::EnvReset, 3), (K::EnvPublish, 3), (K::Avail, 1), (K::ResetAvail, 1), (K::Sleep, 1), (K::IfReady, 1),
        ],
        fault: 0.1,
        faults: vec![(Fk::Nack, 6), (Fk::Partial, 2), (Fk::LostAck, 3), (Fk::ExtWrite, 1), (Fk::Publish, 1), (Fk::Reset, 1)],
        len: (10, 50),
    };
    g.stretch(c, &m, true);
}
