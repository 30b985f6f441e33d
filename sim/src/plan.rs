//! A scenario: everything one simulated run depends on, and its text form (the replay file).

use crate::model::Model;
use std::fmt::Write as _;

macro_rules! named {
    ($name:ident { $($var:ident = $txt:literal),* $(,)? }) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
        pub enum $name { $($var),* }
        impl $name {
            pub const ALL: &'static [$name] = &[$($name::$var),*];
            pub fn txt(self) -> &'static str {
                match self { $($name::$var => $txt),* }
            }
            pub fn parse(s: &str) -> Option<$name> {
                Self::ALL.iter().copied().find(|k| k.txt() == s)
            }
        }
    };
}

named!(EeKind { Typical = "typ", Wide = "wide", Extreme = "ext", Garbage = "garb" });
named!(FrKind { Typical = "typ", Wild = "wild", Physics = "phys" });

named!(K {
    // a = camera
    New = "new",
    // a = camera; uses the calibration the task loaded earlier
    NewFrom = "newfrom",
    Drop = "drop",
    // a = destination slot
    Clone = "clone",
    // a = buffer length, b = buffer seed (0: keep what the slot's buffer holds)
    IfReady = "ifready",
    Image = "image",
    // c = subpage
    Sub = "sub",
    Raw = "raw",
    TwoStep = "twostep",
    LowLevel = "lowlevel",
    // a, b, c as above: every path on the same frame
    Compare = "compare",
    // a = field
    Get = "get",
    // a = field, b = value
    Set = "set",
    LastSub = "lastsub",
    Avail = "avail",
    ResetAvail = "resetavail",
    Sync = "sync",
    // a = f32 bits
    Eps = "eps",
    EpsDefault = "epsdef",
    // a = f32 bits, b = 1 for Some
    Tr = "tr",
    // a = camera
    LoadCal = "loadcal",
    // a = camera, b = seed: the application's own calibration, like one loaded
    OwnCal = "owncal",
    // a = camera, b = number of bytes
    FromData = "fromdata",
    // low-level register read-modify-write: a = register (0 status, 1 control, 2 I2C), b = field, c = value
    RegSet = "regset",
    // a = register
    RegGet = "regget",
    // the application keeps a register value: a = register, b = which of two, c = 0 read, 1 power-on value, 2 copy of the other
    RegHold = "reghold",
    // a = register, b = field, c = value * 2 + which
    RegEdit = "regedit",
    // a = register, b = which: written to the camera
    RegPut = "regput",
    // a = register: what the two are and how they compare
    RegLook = "reglook",
    // a = buffer length, b = kind, c = number of calls: the same call over and over
    Soak = "soak",
    // a = ns
    Sleep = "sleep",
    // one period of the frame rate the driver last reported, plus a ns
    SleepPeriod = "sleepp",
    // a = camera, b = seed of the RAM garbage (0: RAM kept)
    EnvReset = "envreset",
    // a = camera, b = register (0 status, 1 control, 2 I2C), c = value
    EnvWrite = "envwrite",
    // a = camera
    EnvPublish = "envpublish",
    // a = camera, b = word index, c = xor mask
    EnvRot = "envrot",
    // a = camera, b = 1: the camera stops producing frames, 0: resumes
    EnvHalt = "envhalt",
});

named!(Class {
    Any = "any",
    Read = "read",
    Write = "write",
    Ram = "ram",
    Status = "status",
    Control = "control",
    Ee = "eeprom",
});

named!(Fk {
    // refused before anything happened
    Nack = "nack",
    // a = number of bytes transferred before the failure
    Partial = "partial",
    // the camera took the write, the host saw an error
    LostAck = "lostack",
    // a = style (0 noise, 1 all ones, 2 all zeroes, 3 shifted by a byte), b = seed
    Garble = "garble",
    // a = word, b = xor mask
    Flip = "flip",
    // from transaction n on, b transactions (0: to the end of the call) find no camera:
    // a = 0 refused, 1 read as all ones, 2 read as all zeroes
    Dead = "dead",
    // a = ns
    Stall = "stall",
    // the camera restarts just before the transaction; a = RAM seed
    Reset = "reset",
    // a = register, b = value: another host writes just before the transaction
    ExtWrite = "extwrite",
    // a frame completes just before the transaction
    Publish = "publish",
    // a frame completes after word a of the transaction
    PublishAt = "publishat",
    // the host dies before / after the transaction
    CrashBefore = "crashb",
    CrashAfter = "crasha",
});

#[derive(Clone, Debug, PartialEq)]
pub struct CamSpec {
    pub model: Model,
    pub bus: usize,
    pub addr: u8,
    pub ee: EeKind,
    pub ee_seed: u64,
    /// (word index, xor mask) applied to the factory memory before the run.
    pub flips: Vec<(u16, u16)>,
    pub ctl: u16,
    pub st: u16,
    pub i2c: u16,
    pub fr: FrKind,
    pub fr_seed: u64,
    /// Time of the first publish.
    pub phase: u64,
    /// Setting the start bit restarts the running measurement.
    pub restart: bool,
    /// Writing 0 to the start bit cancels the measurement (otherwise it is ignored).
    pub cancel: bool,
    /// Frames come from the camera's own clock (otherwise only from the plan).
    pub timer: bool,
    /// Deviation of the camera's clock, parts per million.
    pub skew: i64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Op {
    pub id: u32,
    pub task: usize,
    pub slot: usize,
    pub k: K,
    pub a: u64,
    pub b: u64,
    pub c: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    pub op: u32,
    pub class: Class,
    pub n: u32,
    pub k: Fk,
    pub a: u64,
    pub b: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    /// Per bus: clock frequency in Hz, per-transaction host overhead in ns.
    pub buses: Vec<(u64, u64)>,
    pub cams: Vec<CamSpec>,
    pub ops: Vec<Op>,
    pub faults: Vec<Fault>,
    /// Which task goes next at each scheduling point (cycled); empty for one task.
    pub sched: Vec<u8>,
    /// Scheduling points inside computations: mean number of accesses to an application's own
    /// calibration between two of them (0: none).
    pub preempt: u64,
    /// Free-form label of the generator that produced it.
    pub note: String,
}

impl Plan {
    pub fn ntasks(&self) -> usize {
        self.ops.iter().map(|o| o.task + 1).max().unwrap_or(1)
    }

    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "camsim-plan 1");
        let _ = writeln!(s, "property {}", self.prop);
        let _ = writeln!(s, "seed {}", self.seed);
        if !self.note.is_empty() {
            let _ = writeln!(s, "note {}", self.note);
        }
        for (hz, ov) in &self.buses {
            let _ = writeln!(s, "bus {hz} {ov}");
        }
        for c in &self.cams {
            let flips: Vec<String> = c.flips.iter().map(|(i, x)| format!("{i}:{x:04x}")).collect();
            let _ = writeln!(
                s,
                "cam {} bus={} addr={} ee={}:{} flips={} ctl={:04x} st={:04x} i2c={:04x} fr={}:{} phase={} restart={} cancel={} timer={} skew={}",
                c.model.name(), c.bus, c.addr, c.ee.txt(), c.ee_seed, flips.join(","), c.ctl, c.st, c.i2c,
                c.fr.txt(), c.fr_seed, c.phase, u8::from(c.restart), u8::from(c.cancel), u8::from(c.timer), c.skew
            );
        }
        for o in &self.ops {
            let _ = writeln!(s, "op {} t{} d{} {} {} {} {}", o.id, o.task, o.slot, o.k.txt(), o.a, o.b, o.c);
        }
        for f in &self.faults {
            let _ = writeln!(s, "fault op={} {} {} {} {} {}", f.op, f.class.txt(), f.n, f.k.txt(), f.a, f.b);
        }
        if self.preempt > 0 {
            let _ = writeln!(s, "preempt {}", self.preempt);
        }
        if !self.sched.is_empty() {
            let v: Vec<String> = self.sched.iter().map(u8::to_string).collect();
            let _ = writeln!(s, "sched {}", v.join(" "));
        }
        s
    }

    pub fn parse(text: &str) -> Result<Plan, String> {
        let mut p = Plan {
            prop: String::new(),
            seed: 0,
            buses: vec![],
            cams: vec![],
            ops: vec![],
            faults: vec![],
            sched: vec![],
            preempt: 0,
            note: String::new(),
        };
        for (ln, line) in text.lines().enumerate() {
            let bad = |what: &str| format!("line {}: {what}: {line}", ln + 1);
            let t: Vec<&str> = line.split_whitespace().collect();
            if t.is_empty() || t[0].starts_with('#') {
                continue;
            }
            let num = |s: &str| s.parse::<u64>().map_err(|_| bad("number"));
            match t[0] {
                "camsim-plan" | "violation" | "detail" | "replay-hash" => {}
                "property" => p.prop = t.get(1).unwrap_or(&"").to_string(),
                "seed" => p.seed = num(t.get(1).unwrap_or(&""))?,
                "preempt" => p.preempt = num(t.get(1).unwrap_or(&""))?,
                "note" => p.note = t[1..].join(" "),
                "bus" if t.len() == 3 => p.buses.push((num(t[1])?, num(t[2])?)),
                "cam" => {
                    let model = match t.get(1) {
                        Some(&"640") => Model::M640,
                        Some(&"641") => Model::M641,
                        _ => return Err(bad("model")),
                    };
                    let get = |k: &str| -> Result<&str, String> {
                        t.iter()
                            .find_map(|x| x.strip_prefix(k).and_then(|r| r.strip_prefix('=')))
                            .ok_or_else(|| bad(k))
                    };
                    let hex = |k: &str| -> Result<u16, String> {
                        u16::from_str_radix(get(k)?, 16).map_err(|_| bad(k))
                    };
                    let split = |k: &str| -> Result<(String, u64), String> {
                        let (a, b) = get(k)?.split_once(':').ok_or_else(|| bad(k))?;
                        Ok((a.to_string(), num(b)?))
                    };
                    let (ek, es) = split("ee")?;
                    let (fk, fs) = split("fr")?;
                    let mut flips = vec![];
                    for f in get("flips")?.split(',').filter(|f| !f.is_empty()) {
                        let (a, b) = f.split_once(':').ok_or_else(|| bad("flips"))?;
                        flips.push((num(a)? as u16, u16::from_str_radix(b, 16).map_err(|_| bad("flips"))?));
                    }
                    p.cams.push(CamSpec {
                        model,
                        bus: num(get("bus")?)? as usize,
                        addr: num(get("addr")?)? as u8,
                        ee: EeKind::parse(&ek).ok_or_else(|| bad("ee"))?,
                        ee_seed: es,
                        flips,
                        ctl: hex("ctl")?,
                        st: hex("st")?,
                        i2c: hex("i2c")?,
                        fr: FrKind::parse(&fk).ok_or_else(|| bad("fr"))?,
                        fr_seed: fs,
                        phase: num(get("phase")?)?,
                        restart: get("restart")? == "1",
                        cancel: get("cancel").is_ok_and(|v| v == "1"),
                        timer: get("timer")? == "1",
                        skew: get("skew")?.parse().map_err(|_| bad("skew"))?,
                    });
                }
                "op" if t.len() == 8 => p.ops.push(Op {
                    id: num(t[1])? as u32,
                    task: num(&t[2][1..])? as usize,
                    slot: num(&t[3][1..])? as usize,
                    k: K::parse(t[4]).ok_or_else(|| bad("op"))?,
                    a: num(t[5])?,
                    b: num(t[6])?,
                    c: num(t[7])?,
                }),
                "fault" if t.len() == 7 => p.faults.push(Fault {
                    op: num(t[1].strip_prefix("op=").ok_or_else(|| bad("op="))?)? as u32,
                    class: Class::parse(t[2]).ok_or_else(|| bad("class"))?,
                    n: num(t[3])? as u32,
                    k: Fk::parse(t[4]).ok_or_else(|| bad("kind"))?,
                    a: num(t[5])?,
                    b: num(t[6])?,
                }),
                "sched" => {
                    for x in &t[1..] {
                        p.sched.push(num(x)? as u8);
                    }
                }
                _ => return Err(bad("unknown line")),
            }
        }
        if p.buses.is_empty() || p.cams.iter().any(|c| c.bus >= p.buses.len()) {
            return Err("no bus".into());
        }
        Ok(p)
    }
}
