//! Simulated MLX90640 / MLX90641: factory memory, RAM, registers and the measurement clock.

use crate::model::*;
use crate::plan::{CamSpec, EeKind, FrKind};
use crate::rng::{mix, Rng};
use std::sync::Arc;

/// Status register bits.
pub const ST_SP: u16 = 0x0001;
pub const ST_FLAG: u16 = 0x0008;
pub const ST_OVERWRITE: u16 = 0x0010;
pub const ST_START: u16 = 0x0020;
pub const ST_RESERVED: u16 = 0xFFC0;
/// Bits 0-2 are set by the camera only; what is written to them does not matter. Bits 1 and 2 mean
/// nothing; some cameras always report them set.
pub const ST_READONLY: u16 = 0x0007;
/// Control register bits.
pub const CT_SUBPAGES: u16 = 0x0001;
pub const CT_STEP: u16 = 0x0002;
pub const CT_HOLD: u16 = 0x0004;
pub const CT_REPEAT: u16 = 0x0008;
pub const CT_SEL: u16 = 0x0010;
pub const CT_RESERVED: u16 = 0xE060;
pub const I2C_RESERVED: u16 = 0xFFF8;

pub const INF: u64 = u64::MAX / 4;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cause {
    /// A register write of the task's current operation.
    Write,
    Publish,
    Env,
}

#[derive(Clone, Copy, Debug)]
pub struct RegEv {
    pub cause: Cause,
    pub t: u64,
    /// Number of frames published when it happened.
    pub count: u64,
    pub st: (u16, u16),
    pub ctl: (u16, u16),
    pub i2c: (u16, u16),
    /// Index of the transaction within the operation (writes only).
    pub txn: usize,
}

#[derive(Clone, Copy, Debug)]
pub struct FrameRec {
    pub count: u64,
    pub t: u64,
    pub cfg: Cfg,
    /// The physical scene could be represented in the ADC's range.
    pub in_range: bool,
}

#[derive(Clone, Debug)]
pub struct Scene {
    pub ta: f64,
    pub vdd: f64,
    pub gain: f64,
    pub host: Host,
    pub to: Vec<f64>,
    /// Signal of the compensation pixel.
    pub cp: f64,
    pub vbe: f64,
    vir: [Option<Vec<f64>>; 2],
}

pub struct Cam {
    pub spec: CamSpec,
    pub model: Model,
    pub ee: Vec<u16>,
    pub cal: Result<Arc<RefCal>, RefErr>,
    pub ram: Vec<u16>,
    pub st: u16,
    pub ctl: u16,
    pub i2c: u16,
    pub next_pub: u64,
    pub count: u64,
    pub last_sp: u8,
    pub halted: bool,
    pub frames: [Option<FrameRec>; 2],
    pub events: Vec<RegEv>,
    pub scene: Option<Scene>,
    pub resets: u64,
    pub cur_txn: usize,
}

// ---------------------------------------------------------------- factory memory

fn n4(a: i64, b: i64, c: i64, d: i64) -> u16 {
    (((a & 15) | ((b & 15) << 4) | ((c & 15) << 8) | ((d & 15) << 12)) & 0xFFFF) as u16
}

pub fn eeprom(model: Model, kind: EeKind, seed: u64) -> Vec<u16> {
    let mut r = Rng::new(mix(seed, kind as u64 + 11));
    let mut e = match model {
        Model::M640 => ee640(kind, &mut r),
        Model::M641 => ee641(kind, &mut r),
    };
    if kind == EeKind::Extreme && seed % 7 == 3 {
        pin_offsets(model, &mut e, &mut r);
    }
    e
}

/// A few fields of an otherwise typical memory at the edge of what they can hold.
fn special_fields(model: Model, e: &mut [u16], r: &mut Rng) {
    // First bit and number of bits of the fields in a word.
    const WORD: &[(u32, u32)] = &[(0, 16)];
    const BYTES: &[(u32, u32)] = &[(0, 8), (8, 8)];
    const NIBBLES: &[(u32, u32)] = &[(0, 4), (4, 4), (8, 4), (12, 4)];
    const SIX_TEN: &[(u32, u32)] = &[(0, 10), (10, 6)];
    const ELEVEN: &[(u32, u32)] = &[(0, 11)];
    for _ in 0..1 + r.below(3) {
        let (a, fields) = match model {
            Model::M640 => {
                let a = r.range(0x2411, 0x243F) as u16;
                let fields = match a {
                    0x2411 | 0x2421 | 0x2430 | 0x2431 => WORD,
                    0x2432 | 0x2439 | 0x243A => SIX_TEN,
                    0x2433 | 0x2435..=0x2437 | 0x243B..=0x243E => BYTES,
                    _ => NIBBLES,
                };
                (a, fields)
            }
            Model::M641 => {
                let a = r.range(0x2411, 0x243F) as u16;
                let fields: &[(u32, u32)] = match a {
                    0x2416 | 0x2418..=0x241B => &[(0, 5), (5, 6)],
                    0x2431 | 0x2432 => &[(0, 6), (6, 5)],
                    0x2433 => &[(0, 9), (9, 2)],
                    _ => ELEVEN,
                };
                (a, fields)
            }
        };
        let (lo, n) = *r.pick(fields);
        let (ones, sign) = ((1u32 << n) - 1, 1u32 << (n - 1));
        let v = *r.pick(&[0, 1, ones, sign, sign - 1]);
        let w = &mut e[usize::from(a - EE_BASE)];
        *w = ((u32::from(*w) & !(ones << lo)) | v << lo) as u16;
        if model == Model::M641 {
            *w = hamming_encode(*w & 0x7FF);
        }
    }
}

/// Move the average offset so that the largest or smallest pixel offset is just (not) an i16.
fn pin_offsets(model: Model, e: &mut Vec<u16>, r: &mut Rng) {
    let put = |e: &mut Vec<u16>, avg: i16| match model {
        Model::M640 => e[0x11] = avg as u16,
        Model::M641 => {
            e[0x11] = hamming_encode(avg as u16 >> 5);
            e[0x12] = hamming_encode(avg as u16 & 31);
        }
    };
    let mut flat = e.clone();
    put(&mut flat, 0);
    let Ok(cal) = decode(model, &flat) else { return };
    let all = cal.off.iter().flat_map(|o| o.iter().zip(&cal.failed).filter(|x| !x.1).map(|x| *x.0));
    let (lo, hi) = all.fold((i32::MAX, i32::MIN), |(l, h), o| (l.min(o), h.max(o)));
    let avg = match r.below(4) {
        0 => 32767 - hi,
        1 => 32768 - hi,
        2 => -32768 - lo,
        _ => -32769 - lo,
    };
    if let Ok(avg) = i16::try_from(avg) {
        put(e, avg);
    }
}

fn ee640(kind: EeKind, r: &mut Rng) -> Vec<u16> {
    let mut e: Vec<u16> = (0..EE_WORDS).map(|_| r.u16()).collect();
    if kind == EeKind::Garbage {
        match r.below(5) {
            0 => e.fill(0),
            1 => e.fill(0xFFFF),
            2 => {
                let w = r.u16();
                e.fill(w);
            }
            _ => {}
        }
        return e;
    }
    let wide = kind != EeKind::Typical;
    let set = |e: &mut Vec<u16>, a: u16, v: u16| e[usize::from(a - EE_BASE)] = v;
    let amp = |wide: bool, r: &mut Rng| if wide { r.range(0, 7) } else { r.range(1, 3) };
    // Offsets.
    let (orow, ocol, orem) = if wide {
        (r.range(0, 6), r.range(0, 6), r.range(0, 5))
    } else {
        (r.range(0, 2), r.range(0, 2), r.range(0, 1))
    };
    let ptat_nib = if wide { r.range(0, 15) } else { r.range(3, 6) };
    set(&mut e, 0x2410, n4(orem, ocol, orow, ptat_nib));
    let avg = if wide { r.range(-6000, 6000) } else { r.range(-90, -30) };
    set(&mut e, 0x2411, avg as u16);
    for a in 0x2412..=0x241F {
        let m = amp(wide, r);
        let mut f = || r.range(-m, m);
        let v = n4(f(), f(), f(), f());
        set(&mut e, a, v);
    }
    // Sensitivities.
    let scale = if wide { r.range(0, 15) } else { r.range(5, 9) };
    let (arow, acol, arem) = if wide {
        (r.range(0, 9), r.range(0, 9), r.range(0, 7))
    } else {
        (r.range(6, 8), r.range(6, 8), r.range(4, 6))
    };
    set(&mut e, 0x2420, n4(arem, acol, arow, scale));
    let aref = if wide { r.range(0, 65535) } else if r.chance(0.2) { r.range(32768, 50000) } else { r.range(6000, 32000) };
    set(&mut e, 0x2421, aref as u16);
    for a in 0x2422..=0x242F {
        let m = amp(wide, r);
        let mut f = || r.range(-m, m);
        let v = n4(f(), f(), f(), f());
        set(&mut e, a, v);
    }
    let gain = if wide { r.range(-32768, 32767) } else { r.range(4500, 7800) };
    set(&mut e, 0x2430, gain as u16);
    if !wide {
        set(&mut e, 0x2431, r.range(11800, 12700) as u16);
        set(&mut e, 0x2432, ((r.range(15, 28) << 10) | r.range(320, 360)) as u16);
        set(&mut e, 0x2433, (((r.range(-108, -90) & 0xFF) << 8) | r.range(0x58, 0x78)) as u16);
        set(&mut e, 0x2434, n4(r.range(3, 6), r.range(3, 6), r.range(3, 6), r.range(3, 6)));
        set(&mut e, 0x2435, r.u16());
        set(&mut e, 0x2436, ((r.range(70, 95) << 8) | r.range(70, 95)) as u16);
        set(&mut e, 0x2437, ((r.range(70, 95) << 8) | r.range(70, 95)) as u16);
        let res = if r.chance(0.6) { 2 } else { r.range(0, 3) };
        // Scales: Kv 2^4, Kta 2^(6+8)
        set(&mut e, 0x2438, n4(r.range(1, 2), r.range(5, 7), r.range(3, 5), res));
        set(&mut e, 0x2439, (((r.range(-6, 6) & 0x3F) << 10) | r.range(0x20, 0x90)) as u16);
        set(&mut e, 0x243A, (((r.range(-4, 4) & 0x3F) << 10) | (r.range(-110, -40) & 0x3FF)) as u16);
        set(&mut e, 0x243B, ((r.range(2, 6) << 8) | r.range(60, 90)) as u16);
        let tgc = if r.chance(0.3) { 0 } else { r.range(-40, 60) };
        set(&mut e, 0x243C, (((r.range(-32, 8) & 0xFF) << 8) | (tgc & 0xFF)) as u16);
        set(&mut e, 0x243D, (((r.range(-110, -60) & 0xFF) << 8) | (r.range(-110, -60) & 0xFF)) as u16);
        set(&mut e, 0x243E, (((r.range(-110, -60) & 0xFF) << 8) | (r.range(-110, -60) & 0xFF)) as u16);
        set(&mut e, 0x243F, n4(9, r.range(4, 10), r.range(4, 10), r.range(1, 3)));
    } else if kind == EeKind::Wide {
        // Random header words, but away from the settings where everything degenerates.
        if r.chance(0.7) {
            set(&mut e, 0x2431, r.range(9000, 15000) as u16);
            set(&mut e, 0x2432, ((r.range(-31, 31) << 10) as u16) | (r.range(200, 500) as u16));
            set(&mut e, 0x2433, (((r.range(-127, -60) & 0xFF) << 8) | r.range(0, 255)) as u16);
        }
        if r.chance(0.5) {
            set(&mut e, 0x2430, r.range(2000, 12000) as u16);
            set(&mut e, 0x2420, n4(r.range(0, 6), r.range(0, 8), r.range(0, 8), r.range(4, 10)));
        }
        if r.chance(0.5) {
            set(&mut e, 0x243F, n4(r.range(6, 12), r.range(0, 15), r.range(0, 15), r.range(0, 3)));
        }
    } else {
        // Each field at an edge with even odds.
        for a in 0x2410..=0x243Fu16 {
            if a == 0x2410 || a == 0x2411 {
                continue;
            }
            if r.chance(0.5) {
                let v = *r.pick(&[0u16, 0xFFFF, 0x8000, 0x7FFF, 0x0001, 0x8080, 0x7F7F, 0x0F0F, 0xF0F0, 0x1000]);
                set(&mut e, a, v);
            }
        }
        if r.chance(0.25) {
            // Large offsets: some do not fit.
            set(&mut e, 0x2411, *r.pick(&[0x7FFFu16, 0x8000, 0x7F00, 0x8100]));
            let w = r.u16();
            set(&mut e, 0x2410, w);
        }
    }
    // Pixels.
    let bad = match r.below(4) {
        0 => 0,
        1 => r.us(4),
        2 => r.us(8),
        _ => 2,
    };
    for i in 0..768usize {
        let mut w = if wide {
            r.u16()
        } else {
            (((r.range(-30, 30) & 0x3F) << 10) | ((r.range(-30, 30) & 0x3F) << 4) | ((r.range(-3, 3) & 7) << 1)) as u16
        };
        if wide && r.chance(0.9) {
            w &= !1;
        }
        if w == 0 {
            w = 2;
        }
        e[0x40 + i] = w;
    }
    for _ in 0..bad {
        let i = if r.chance(0.3) { *r.pick(&[0usize, 31, 32, 63, 64, 766, 767]) } else { r.us(768) };
        e[0x40 + i] = if r.chance(0.5) { 0 } else { e[0x40 + i] | 1 };
    }
    e
}

fn ee641(kind: EeKind, r: &mut Rng) -> Vec<u16> {
    if kind == EeKind::Garbage {
        let mut e: Vec<u16> = (0..EE_WORDS).map(|_| r.u16()).collect();
        match r.below(6) {
            0 => e.fill(0),
            1 => e.fill(0xFFFF),
            2 | 3 => {
                for w in e.iter_mut() {
                    *w = hamming_encode(*w & 0x7FF);
                }
            }
            _ => {}
        }
        return e;
    }
    let wide = kind != EeKind::Typical;
    // Data bits first, encoded at the end.
    let mut e: Vec<u16> = (0..EE_WORDS).map(|_| r.u16() & 0x7FF).collect();
    let set = |e: &mut Vec<u16>, a: u16, v: i64| e[usize::from(a - EE_BASE)] = (v as u16) & 0x7FF;
    if kind == EeKind::Extreme {
        for a in 0x2410..=0x243Fu16 {
            if r.chance(0.5) {
                let v = *r.pick(&[0i64, 0x7FF, 0x400, 0x3FF, 1, 0x41F, 0x3E0]);
                set(&mut e, a, v);
            }
        }
        if r.chance(0.7) {
            // Keep most of them loadable.
            set(&mut e, 0x2410, r.range(0, 5) << 5);
            set(&mut e, 0x2411, r.range(-20, 20));
        }
    } else {
        let oscale = if wide { r.range(0, 3) } else { r.range(0, 1) };
        set(&mut e, 0x2410, (oscale << 5) | r.range(0, 31));
        let oavg = if wide { r.range(-20000, 20000) } else { r.range(-900, -500) };
        set(&mut e, 0x2411, oavg >> 5);
        set(&mut e, 0x2412, oavg & 31);
        if !wide {
            set(&mut e, 0x2415, r.range(600, 900));
            set(&mut e, 0x2416, (r.range(17, 19) << 5) | r.range(2, 4));
            set(&mut e, 0x2417, r.range(500, 800));
            set(&mut e, 0x2418, (r.range(10, 12) << 5) | r.range(3, 5));
            for k in 0..3 {
                set(&mut e, 0x2419 + k, (r.range(11, 13) << 5) | r.range(11, 13));
            }
            for k in 0..6 {
                set(&mut e, 0x241C + k, r.range(1000, 1700));
            }
            set(&mut e, 0x2422, r.range(-120, 20));
            set(&mut e, 0x2423, r.range(440, 512));
            let g = r.range(8500, 11000);
            set(&mut e, 0x2424, g >> 5);
            set(&mut e, 0x2425, g & 31);
            set(&mut e, 0x2426, r.range(-440, -405));
            set(&mut e, 0x2427, r.range(-108, -90));
            let p = r.range(11800, 12700);
            set(&mut e, 0x2428, p >> 5);
            set(&mut e, 0x2429, p & 31);
            set(&mut e, 0x242A, r.range(320, 360));
            set(&mut e, 0x242B, r.range(15, 28));
            set(&mut e, 0x242C, r.range(1000, 1300));
            set(&mut e, 0x242D, r.range(500, 1100));
            set(&mut e, 0x242E, r.range(37, 40));
            let oc = r.range(-200, -60);
            set(&mut e, 0x242F, oc >> 5);
            set(&mut e, 0x2430, oc & 31);
            set(&mut e, 0x2431, (r.range(12, 14) << 6) | r.range(10, 31));
            set(&mut e, 0x2432, (r.range(5, 7) << 6) | r.range(10, 31));
            let tgc = if r.chance(0.3) { 0 } else { r.range(-60, 60) & 0x1FF };
            let res = if r.chance(0.6) { 2 } else { r.range(0, 3) };
            set(&mut e, 0x2433, (res << 9) | tgc);
            set(&mut e, 0x2434, r.range(19, 21));
            for a in [0x2435, 0x2436, 0x2437, 0x2438, 0x2439, 0x243B, 0x243D, 0x243F] {
                set(&mut e, a, r.range(-800, -500));
            }
            let c6 = r.range(150, 250);
            set(&mut e, 0x243A, c6);
            set(&mut e, 0x243C, c6 + r.range(50, 200));
            set(&mut e, 0x243E, c6 + r.range(250, 400));
        } else {
            if r.chance(0.7) {
                set(&mut e, 0x2416, (r.range(10, 25) << 5) | r.range(0, 6));
                set(&mut e, 0x2418, (r.range(8, 16) << 5) | r.range(0, 6));
                for k in 0..3 {
                    set(&mut e, 0x2419 + k, (r.range(8, 16) << 5) | r.range(8, 16));
                }
                set(&mut e, 0x242E, r.range(30, 50));
                set(&mut e, 0x2434, r.range(17, 25));
                set(&mut e, 0x242A, r.range(200, 500));
                set(&mut e, 0x2427, r.range(-200, -50));
                set(&mut e, 0x2431, (r.range(8, 16) << 6) | r.range(0, 63));
                set(&mut e, 0x2432, (r.range(4, 10) << 6) | r.range(0, 63));
            }
            if r.chance(0.5) {
                set(&mut e, 0x2423, r.range(100, 640));
            }
        }
    }
    if kind == EeKind::Typical {
        for i in 0..192u16 {
            let o = r.range(20, 140);
            set(&mut e, 0x2440 + i, o);
            set(&mut e, 0x2680 + i, o + r.range(-3, 3));
            set(&mut e, 0x2500 + i, r.range(1300, 2047));
            set(&mut e, 0x25C0 + i, ((r.range(-20, 20) & 0x3F) << 5) | (r.range(-12, 12) & 0x1F));
        }
    }
    let bad = r.us(3);
    for _ in 0..bad {
        let i = if r.chance(0.3) { *r.pick(&[0u16, 15, 16, 191]) } else { r.us(192) as u16 };
        for b in [0x2440, 0x2500, 0x25C0, 0x2680] {
            set(&mut e, b + i, 0);
        }
        if r.chance(0.3) {
            // Nearly failed: one of the four words is not zero.
            let b = *r.pick(&[0x2440u16, 0x2500, 0x25C0, 0x2680]);
            set(&mut e, b + i, 1);
        }
    }
    for (i, w) in e.iter_mut().enumerate() {
        *w = if used641(i) { hamming_encode(*w) } else { r.u16() };
    }
    e
}

// ---------------------------------------------------------------- camera

pub fn period_ns(ctl: u16, skew: i64) -> u64 {
    let nominal = 2_000_000_000u64 >> ((ctl >> 7) & 7);
    (nominal as i64 + nominal as i64 / 1_000_000 * skew) as u64
}

impl Cam {
    pub fn new(spec: &CamSpec) -> Cam {
        let model = spec.model;
        let mut ee = eeprom(model, spec.ee, spec.ee_seed);
        if spec.ee == EeKind::Typical && spec.fr != FrKind::Physics && mix(spec.ee_seed, 0xf1e1d) % 4 == 0 {
            special_fields(model, &mut ee, &mut Rng::new(mix(spec.ee_seed, 0xed9e)));
        }
        for &(i, x) in &spec.flips {
            ee[usize::from(i) % EE_WORDS] ^= x;
        }
        let cal = decode(model, &ee).map(Arc::new);
        let mut c = Cam {
            spec: spec.clone(),
            model,
            cal,
            ram: vec![0; model.ram_words()],
            st: spec.st,
            ctl: spec.ctl,
            i2c: spec.i2c,
            next_pub: INF,
            count: 0,
            last_sp: (spec.st & ST_SP) as u8,
            halted: false,
            frames: [None, None],
            events: vec![],
            scene: None,
            resets: 0,
            cur_txn: 0,
            ee,
        };
        let mut r = Rng::new(mix(spec.fr_seed, 0xf111));
        for w in c.ram.iter_mut() {
            *w = r.u16();
        }
        if spec.fr == FrKind::Physics {
            c.scene = c.make_scene();
        }
        let sp = c.last_sp;
        c.fill(1 - sp, 0);
        c.fill(sp, 0);
        if spec.timer && (c.ctl & CT_STEP == 0 || c.st & ST_START != 0) {
            c.next_pub = spec.phase.max(1);
        }
        c
    }

    pub fn period(&self) -> u64 {
        period_ns(self.ctl, self.spec.skew)
    }

    fn event(&mut self, cause: Cause, t: u64, before: (u16, u16, u16)) {
        self.events.push(RegEv {
            cause,
            t,
            count: self.count,
            st: (before.0, self.st),
            ctl: (before.1, self.ctl),
            i2c: (before.2, self.i2c),
            txn: self.cur_txn,
        });
    }
    fn regs(&self) -> (u16, u16, u16) {
        (self.st, self.ctl, self.i2c)
    }

    pub fn advance(&mut self, t: u64) {
        while self.next_pub <= t {
            let p = self.next_pub;
            self.next_pub = if self.ctl & CT_STEP != 0 { INF } else { p + self.period() };
            if !self.halted {
                self.publish(p);
            }
        }
    }

    /// Complete one measurement now.
    pub fn publish(&mut self, t: u64) {
        let before = self.regs();
        self.st &= !ST_START;
        if self.ctl & CT_HOLD != 0 && self.st & ST_OVERWRITE == 0 {
            if before != self.regs() {
                self.event(Cause::Publish, t, before);
            }
            return;
        }
        let sp = if self.ctl & CT_SUBPAGES == 0 {
            0
        } else if self.ctl & CT_REPEAT != 0 {
            u8::from(self.ctl & CT_SEL != 0)
        } else {
            1 - self.last_sp
        };
        self.count += 1;
        self.last_sp = sp;
        self.fill(sp, t);
        self.st = (self.st & !ST_READONLY) | (self.spec.st & (ST_READONLY ^ ST_SP)) | u16::from(sp) | ST_FLAG;
        self.event(Cause::Publish, t, before);
    }

    pub fn reset(&mut self, t: u64, ram_seed: u64) {
        let before = self.regs();
        self.ctl = self.model.default_control() | (self.spec.ctl & CT_RESERVED);
        self.st = self.spec.st & (ST_RESERVED | (ST_READONLY ^ ST_SP));
        self.i2c = self.spec.i2c & I2C_RESERVED;
        self.last_sp = 1;
        self.resets += 1;
        self.frames = [None, None];
        if ram_seed != 0 {
            let mut r = Rng::new(ram_seed);
            for w in self.ram.iter_mut() {
                *w = r.u16();
            }
        }
        if self.spec.timer {
            self.next_pub = t + self.period();
        }
        self.event(Cause::Env, t, before);
    }

    pub fn write_reg(&mut self, reg: u16, v: u16, t: u64, cause: Cause) {
        let before = self.regs();
        match reg {
            STATUS => {
                let old = self.st;
                self.st = (old & ST_READONLY)
                    | (v & (ST_RESERVED | ST_OVERWRITE))
                    | (old & v & ST_FLAG)
                    | (if self.spec.cancel { v } else { old | v } & ST_START);
                if v & ST_START != 0 && self.spec.timer && (self.ctl & CT_STEP != 0 || self.spec.restart) {
                    self.next_pub = t + self.period();
                } else if (old & !self.st) & ST_START != 0 && self.ctl & CT_STEP != 0 {
                    self.next_pub = INF;
                }
            }
            CONTROL => {
                let old = self.ctl;
                self.ctl = v;
                if self.spec.timer && (old ^ v) & 0x0382 != 0 {
                    let running = v & CT_STEP == 0 || self.st & ST_START != 0;
                    self.next_pub = if running { t + self.period() } else { INF };
                }
            }
            I2CCONF => self.i2c = v,
            _ => {}
        }
        self.event(cause, t, before);
    }

    pub fn read(&self, a: u16) -> u16 {
        if (EE_BASE..EE_BASE + EE_WORDS as u16).contains(&a) {
            self.ee[usize::from(a - EE_BASE)]
        } else if a >= RAM_BASE && usize::from(a - RAM_BASE) < self.ram.len() {
            self.ram[usize::from(a - RAM_BASE)]
        } else {
            match a {
                STATUS => self.st,
                CONTROL => self.ctl,
                I2CCONF => self.i2c,
                _ => 0,
            }
        }
    }

    fn put(&mut self, a: u16, v: f64) -> bool {
        let r = v.round();
        self.ram[usize::from(a - RAM_BASE)] = (r.clamp(-32768.0, 32767.0) as i16) as u16;
        (-32768.0..=32767.0).contains(&r)
    }

    fn fill(&mut self, sp: u8, t: u64) {
        let m = self.model;
        let cfg = Cfg::of(self.ctl);
        let mut ok = true;
        // Some sensors see a scene in which nothing changes for a while, or ever: the same ambient
        // temperature, and perhaps the same pixels too.
        let (run, whole) = match self.spec.fr_seed % 32 {
            4 | 20 => (0, false),
            6 | 22 => (3, false),
            8 => (0, true),
            10 => (2, true),
            _ => (1, true),
        };
        // In others it changes only a little from frame to frame.
        let (drift, drift_whole) = match self.spec.fr_seed % 32 {
            12 | 28 => (true, false),
            14 => (true, true),
            _ => (false, false),
        };
        let (run, whole) = if drift { (0, drift_whole) } else { (run, whole) };
        let mut noise = Rng::new(mix(mix(self.spec.fr_seed, self.count), 0xd41f + u64::from(sp)));
        let epoch = if run == 0 { 0 } else { self.count / run };
        let seed = |still: bool| mix(self.spec.fr_seed, if still { epoch } else { self.count });
        let mut r = Rng::new(mix(seed(whole), u64::from(sp)));
        match self.spec.fr {
            FrKind::Physics if self.scene.is_some() => ok = self.fill_physics(sp, cfg),
            FrKind::Wild => {
                let edge = r.chance(0.3);
                for i in 0..m.npix() {
                    if m.in_subpage(i, cfg.chess, sp) {
                        let w = if edge { *r.pick(&[0u16, 1, 0xFFFF, 0x7FFF, 0x8000]) } else { r.u16() };
                        self.ram[usize::from(m.a_pix(i, sp) - RAM_BASE)] = w;
                    }
                }
                for a in [m.a_vbe(), m.a_cp(0), m.a_cp(1), m.a_gain(), m.a_ptat(), m.a_vdd()] {
                    let w = if edge { *r.pick(&[0u16, 1, 0xFFFF, 0x7FFF, 0x8000]) } else { r.u16() };
                    self.ram[usize::from(a - RAM_BASE)] = w;
                }
            }
            _ => {
                let (base, span, gain, cp, vdd) = match m {
                    Model::M640 => (-80, 700, 6273, -54, -13115),
                    Model::M641 => (-700, 2600, 9734, -105, -13430),
                };
                for i in 0..m.npix() {
                    if m.in_subpage(i, cfg.chess, sp) {
                        let w = base + r.range(-span / 5, span) + if drift_whole { noise.range(-1, 1) } else { 0 };
                        self.ram[usize::from(m.a_pix(i, sp) - RAM_BASE)] = w as u16;
                    }
                }
                if !whole {
                    r = Rng::new(seed(true));
                }
                let mut aux = |a: u16, c: i64, d: i64| {
                    let n = if drift { noise.range(-1, 1) } else { 0 };
                    self.ram[usize::from(a - RAM_BASE)] = (c + r.range(-d, d) + n) as u16;
                };
                aux(m.a_vbe(), 19450, 300);
                aux(m.a_ptat(), 1720, 60);
                aux(m.a_gain(), gain, 500);
                aux(m.a_vdd(), vdd, 600);
                aux(m.a_cp(sp), cp, 40);
                if mix(self.spec.fr_seed, 0xd1c7) % 4 == 0 {
                    self.special_words(sp, cfg, &mut Rng::new(mix(seed(whole), 0x5bec + u64::from(sp))));
                }
            }
        }
        let other = &mut self.frames[usize::from(1 - sp)];
        if other.is_some_and(|f| f.cfg.chess != cfg.chess) {
            // Its pixels are partly overwritten.
            *other = None;
        }
        self.frames[usize::from(sp)] = Some(FrameRec { count: self.count, t, cfg, in_range: ok });
    }

    /// A few words of an otherwise typical frame at values that mean something special: the ones
    /// measured when the camera was calibrated, none at all, the ends of the range.
    fn special_words(&mut self, sp: u8, cfg: Cfg, r: &mut Rng) {
        let m = self.model;
        let (mut gain, mut vdd, mut cp) = (0, 0, 0);
        if let Ok(cal) = &self.cal {
            let rc = 2f64.powi(i32::from(cal.res) - i32::from(cfg.res));
            gain = (cal.gain / rc) as i64;
            vdd = (f64::from(cal.v_dd_25) / rc) as i64;
            cp = i64::from(cal.off_cp[usize::from(sp)]);
        }
        for (a, calibrated) in [(m.a_gain(), gain), (m.a_vdd(), vdd), (m.a_cp(sp), cp), (m.a_ptat(), 0), (m.a_vbe(), 0)] {
            let w = match r.below(16) {
                0..=4 => calibrated,
                5 => calibrated + 1,
                6 => *r.pick(&[0, 1, -1, 0x7FFF, -0x8000]),
                _ => continue,
            };
            if w != 0 || r.chance(0.1) {
                self.ram[usize::from(a - RAM_BASE)] = w as u16;
            }
        }
        for _ in 0..r.below(20) {
            let i = r.us(m.npix());
            let w = *r.pick(&[0u16, 1, 0xFFFF, 0x7FFF, 0x8000, 0x8001, 0x00FF, 0x0100]);
            if m.in_subpage(i, cfg.chess, sp) {
                self.ram[usize::from(m.a_pix(i, sp) - RAM_BASE)] = w;
            }
        }
    }

    fn make_scene(&self) -> Option<Scene> {
        self.cal.as_ref().ok()?;
        let mut r = Rng::new(mix(self.spec.fr_seed, 0x5ce_e5e));
        let ta = r.funi(-30.0, 80.0);
        let eps = if r.chance(0.4) { 1.0 } else { (r.funi(0.3, 1.0) * 64.0).round() / 64.0 } as f32;
        let t_r = if r.chance(0.5) { None } else { Some(r.funi(-20.0, 60.0).round() as f32) };
        let base = r.funi(-10.0, 150.0);
        let swing = r.funi(0.0, 60.0);
        let n = self.model.npix();
        let mut to: Vec<f64> = (0..n).map(|_| (base + r.funi(-swing, swing)).max(-40.0)).collect();
        // Spots outside the range the datasheet calls basic; the formula holds there all the same.
        match self.spec.fr_seed % 4 {
            0 => (0..n / 16).for_each(|_| to[r.below(n as u64) as usize] = r.funi(150.0, 300.0)),
            1 => (0..n / 8).for_each(|_| to[r.below(n as u64) as usize] = r.funi(-110.0, -40.0)),
            _ => {}
        }
        Some(Scene {
            ta,
            vdd: r.funi(3.0, 3.6),
            gain: r.funi(0.75, 1.3),
            host: Host { emissivity: eps, t_r },
            to,
            cp: r.funi(-30.0, 30.0),
            vbe: r.funi(18500.0, 20500.0),
            vir: [None, None],
        })
    }

    /// The words (not yet rounded) the ADC would produce for the scene in a configuration.
    pub fn physics(&mut self, sp: u8, cfg: Cfg) -> (Aux, Vec<f64>) {
        let m = self.model;
        let s = usize::from(sp);
        let cal = self.cal.clone().unwrap();
        let cal = &*cal;
        let sc = self.scene.as_mut().unwrap();
        if sc.vir[s].is_none() {
            sc.vir[s] = Some((0..m.npix()).map(|i| v_ir_of(cal, i, sp, sc.ta, sc.host, sc.to[i])).collect());
        }
        let vir = sc.vir[s].as_ref().unwrap();
        let rc = 2f64.powi(i32::from(cal.res) - i32::from(cfg.res));
        let dv = sc.vdd - 3.3;
        let vdd = (f64::from(cal.v_dd_25) + f64::from(cal.k_v_dd) * dv) / rc;
        let art = ((sc.ta - 25.0) * cal.k_t_ptat + cal.v_ptat_25) * (1.0 + cal.k_v_ptat * dv);
        let ptat = art * sc.vbe / (262_144.0 - art * cal.alpha_ptat);
        let gain = cal.gain / sc.gain / rc;
        // Real gain factor at this resolution.
        let g = sc.gain * rc;
        let comp = |kta: f64, kv: f64| (1.0 + kta * (sc.ta - 25.0)) * (1.0 + kv * dv);
        let eps = f64::from(sc.host.emissivity);
        let interleave = m == Model::M640 && !cfg.chess;
        let mut ocp = f64::from(cal.off_cp[s]);
        if interleave && sp == 1 {
            ocp += cal.il[0];
        }
        let cp = (ocp * comp(cal.kta_cp, cal.kv_cp) + sc.cp * eps) / g;
        let tgc = cal.tgc.unwrap_or(0.0);
        let pix = (0..m.npix())
            .map(|i| {
                let il = if interleave { il_pixel(cal, i) } else { 0.0 };
                ((vir[i] + tgc * sc.cp) * eps + f64::from(cal.off[s][i]) * comp(cal.kta[i].v, cal.kv[i]) - il) / g
            })
            .collect();
        let half = |v: f64| crate::ef::Ef::with_err(v, 0.501);
        (
            Aux { vbe: half(sc.vbe), ptat: half(ptat), vdd: half(vdd), gain: half(gain), cp: half(cp) },
            pix,
        )
    }

    fn fill_physics(&mut self, sp: u8, cfg: Cfg) -> bool {
        let m = self.model;
        let (aux, pix) = self.physics(sp, cfg);
        let mut ok = true;
        for (i, p) in pix.iter().enumerate() {
            if m.in_subpage(i, cfg.chess, sp) {
                let fits = self.put(m.a_pix(i, sp), *p);
                ok &= fits || p.is_nan();
            }
        }
        ok &= self.put(m.a_vbe(), aux.vbe.v);
        ok &= self.put(m.a_ptat(), aux.ptat.v);
        ok &= self.put(m.a_vdd(), aux.vdd.v);
        ok &= self.put(m.a_gain(), aux.gain.v);
        ok &= self.put(m.a_cp(sp), aux.cp.v);
        ok
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Region {
    Ee,
    Ram,
    Reg,
}

/// The memory region that contains `n` words from `a`, if one does.
pub fn region(m: Model, a: u16, n: usize) -> Option<Region> {
    let (a, n) = (usize::from(a), n.max(1));
    let inside = |lo: u16, len: usize| a >= usize::from(lo) && a + n <= usize::from(lo) + len;
    if inside(EE_BASE, EE_WORDS) {
        Some(Region::Ee)
    } else if inside(RAM_BASE, m.ram_words()) {
        Some(Region::Ram)
    } else if inside(STATUS, 0x17) {
        Some(Region::Reg)
    } else {
        None
    }
}
