// Judging one operation: everything the caller saw, everything that crossed the bus and everything
// the camera did, against the properties. Included by exec.rs.

/// The tags of a violation that breaks whatever is being examined.
pub const EVERY: [&str; 19] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C20",
];

/// An application that polls once per period has a complete image after this many polls.
const MAX_POLLS: u32 = 6;

struct Probe<'a> {
    cal: &'a RefCal,
    host: Host,
    raw: bool,
    words: &'a std::collections::HashMap<u16, u16>,
    ram: &'a [u16],
}

impl Probe<'_> {
    fn word(&self, a: u16) -> Ef {
        let w = self.words.get(&a).copied().unwrap_or_else(|| self.ram[usize::from(a - RAM_BASE)]);
        Ef::exact(f64::from(w as i16))
    }
    fn image(&self, cfg: Cfg, sp: u8, host: Host, limit: usize) -> RefImage {
        let m = self.cal.model;
        let aux = Aux {
            vbe: self.word(m.a_vbe()),
            ptat: self.word(m.a_ptat()),
            vdd: self.word(m.a_vdd()),
            gain: self.word(m.a_gain()),
            cp: self.word(m.a_cp(sp)),
        };
        image(self.cal, cfg, sp, &aux, &|i| self.word(m.a_pix(i, sp)), host, self.raw, limit)
    }
}

/// First difference between a buffer and what it must hold.
enum Diff {
    None,
    /// A pixel outside the subpage or beyond the image changed.
    Outside(usize),
    /// A pixel of the subpage still holds what it held before.
    Unwritten(usize, String),
    Wrong(usize, String),
}

fn compare(img: &RefImage, npix: usize, before: &[f32], buf: &[f32], marked: bool) -> Diff {
    for (i, (b, a)) in before.iter().zip(buf).enumerate() {
        let same = b.to_bits() == a.to_bits();
        match img.px.get(i).copied().unwrap_or(Px::Outside) {
            Px::Outside => {
                if !same {
                    return Diff::Outside(i);
                }
            }
            p => {
                let want = match p {
                    Px::Val(e) => format!("{} +- {:e}", e.v, e.e),
                    Px::Nan => "NaN".into(),
                    _ => "some value".into(),
                };
                if same && marked && !p.admits(*a) {
                    return Diff::Unwritten(i, want);
                }
                if !p.admits(*a) {
                    return Diff::Wrong(i, format!("is {a}, should be {want}"));
                }
            }
        }
    }
    debug_assert!(img.px.len() <= npix);
    Diff::None
}

fn sp_of(st: u16) -> u8 {
    (st & ST_SP) as u8
}

fn s_own(s: &Slot) -> bool {
    s.cal.as_ref().is_some_and(|c| c.own.is_some())
}
fn bits_opt(x: Option<f32>) -> Option<u32> {
    x.map(f32::to_bits)
}

impl Window {
    fn status_reads(&self) -> Vec<(usize, u16)> {
        self.log.iter().enumerate().filter_map(|(i, t)| t.reads(STATUS).map(|w| (i, w))).collect()
    }
    fn is_ram(t: &Txn) -> bool {
        !t.write && t.reg >= RAM_BASE && t.reg < EE_BASE
    }
    fn words(&self) -> std::collections::HashMap<u16, u16> {
        let mut m = std::collections::HashMap::new();
        for t in self.log.iter().filter(|t| !t.write && t.ok()) {
            for (k, w) in t.words.iter().enumerate() {
                m.insert(t.reg.wrapping_add(k as u16), *w);
            }
        }
        m
    }
    /// The call has read every word of one subpage (as far as the buffer goes) before it failed.
    fn frame_read(&self, m: Model, len: usize) -> bool {
        let n = len.min(m.npix());
        let words = self.words();
        [(false, 0), (false, 1), (true, 0), (true, 1)].into_iter().any(|(chess, sp)| {
            [m.a_vbe(), m.a_ptat(), m.a_vdd(), m.a_gain(), m.a_cp(sp)].iter().all(|a| words.contains_key(a))
                && (0..n).all(|i| !m.in_subpage(i, chess, sp) || words.contains_key(&m.a_pix(i, sp)))
        })
    }
    /// Writes of the call that the camera carried out: what each did to the registers.
    fn writes(&self) -> impl Iterator<Item = &RegEv> {
        self.events.iter().filter(|e| e.cause == Cause::Write)
    }
    /// A frame completed between the status read before transaction `txn` and that transaction.
    fn raced(&self, txn: usize) -> bool {
        self.raced_since(txn, self.log[..txn.min(self.log.len())].iter().rev().find(|t| t.reads(STATUS).is_some()))
    }
    /// A frame completed between the first status read of the call and transaction `txn`.
    fn raced_delivery(&self, txn: usize) -> bool {
        self.raced_since(txn, self.log[..txn.min(self.log.len())].iter().find(|t| t.reads(STATUS).is_some()))
    }
    fn raced_since(&self, txn: usize, read: Option<&Txn>) -> bool {
        let (Some(r), Some(w)) = (read, self.log.get(txn)) else { return false };
        self.events.iter().any(|e| e.cause == Cause::Publish && e.t >= r.t0 && e.t <= w.t1)
    }
}

impl Task<'_> {
    #[allow(clippy::too_many_arguments)]
    fn judge(
        &mut self,
        op: &Op,
        cam: usize,
        out: &Out,
        win: &Window,
        before: &[f32],
        new_cal: Option<Cal>,
        extra: &[(&'static str, Vec<f32>, f32)],
    ) {
        self.judge_bus(op, out, win);
        if *out == Out::Skipped {
            self.probe("skipped");
            return;
        }
        if !matches!(out, Out::Crash | Out::Panic(_) | Out::Steps) {
            self.judge_errors(op, out, win);
        }
        self.judge_registers(op, out, win);
        self.track_settings(op, out, win);
        match op.k {
            K::New | K::NewFrom | K::LoadCal | K::FromData => self.judge_load(op, cam, out, win, new_cal),
            K::OwnCal => {
                let base = self.sh.lock().cams[cam].cal.clone();
                if let Ok(base) = base {
                    let (c, rc) = Cal::own(&base, op.b);
                    self.cals[op.slot][usize::from(base.model == Model::M641)] = Some((c, Arc::new(rc)));
                    self.probe("own calibration");
                }
            }
            K::Clone => {
                let s = &self.slots[op.slot];
                let copy = Slot {
                    drv: s.drv.as_ref().map(|d| Box::new(d.dup())),
                    cam: s.cam,
                    cal: s.cal.clone(),
                    allowed: s.allowed.clone(),
                    eps: s.eps,
                    t_r: s.t_r,
                    amb: s.amb,
                    rate: s.rate,
                    ..Slot::empty()
                };
                let dst = op.a as usize;
                if dst != op.slot && dst < self.slots.len() {
                    self.slots[dst] = copy;
                    self.cals[dst] = self.cals[op.slot].clone();
                    self.probe("cloned");
                    self.judge_host(op, dst);
                }
            }
            K::Drop => {}
            K::Eps => self.slots[op.slot].eps = f32::from_bits(op.a as u32),
            K::EpsDefault => {
                let e = self.slots[op.slot].cal.as_ref().and_then(|c| c.emissivity).unwrap_or(1.0);
                self.slots[op.slot].eps = e;
            }
            K::Tr => self.slots[op.slot].t_r = if op.b == 1 { Some(f32::from_bits(op.a as u32)) } else { None },
            K::Get | K::LastSub | K::Avail | K::RegGet => self.judge_get(op, out, win),
            K::Set | K::RegSet => self.judge_set(op, out, win),
            K::RegHold | K::RegEdit | K::RegPut | K::RegLook => self.judge_held(op, out, win),
            K::Sync => self.judge_sync(op, cam, out, win),
            K::Soak => {
                let kind = op.b % SOAKS;
                self.probe(["soak: deliver", "soak: refused", "soak: idle", "soak: availability", "soak: settings", "soak: synchronise", "soak: long wait",
                    "soak: images", "soak: refused writes", "soak: host settings", "soak: reset"][kind as usize]);
                let bad = self.soaked.borrow_mut().take();
                if let Some(d) = bad {
                    let tags: &[&'static str] = match kind {
                        0 => &["C01", "C03", "C07", "C11", "C13", "C16", "C17", "C19"],
                        1 | 8 => &["C07"],
                        2 => &["C03", "C07", "C16"],
                        3 => &["C03", "C05"],
                        4 => &["C04", "C05"],
                        5 | 6 => &["C08"],
                        7 => &["C01", "C03", "C13", "C19"],
                        9 => &["C13"],
                        _ => &["C03", "C05"],
                    };
                    self.viol(op, tags, "soak", d);
                }
                // Whatever the images of the soak showed.
                let s = &mut self.slots[op.slot];
                if let Some(d) = s.drv.as_ref() {
                    if matches!(kind, 0 | 7) {
                        s.amb = d.ambient();
                    }
                    if matches!(kind, 4 | 8) && op.a % 8 != 0 {
                        s.allowed = vec![Cfg::of(win.post.1)];
                    }
                }
            }
            K::ResetAvail => {
                let cleared = win.pre.0 & ST_FLAG == 0 || win.events.iter().any(|e| e.st.1 & ST_FLAG == 0);
                if *out == Out::Unit && !win.garbled() {
                    if !cleared {
                        self.viol(op, &["C03", "C05"], "not reset", "the reset call succeeded but left the new data flag set".into());
                    }
                    self.probe("flag reset");
                }
            }
            _ => {}
        }
        if matches!(op.k, K::RegEdit | K::RegLook) && !win.log.is_empty() {
            self.viol(op, &["C20"], "host traffic", format!("{} caused {} bus transactions", op.k.txt(), win.log.len()));
        }
        if matches!(op.k, K::Eps | K::EpsDefault | K::Tr | K::Drop | K::Clone | K::OwnCal) && !win.log.is_empty() {
            self.viol(op, &["C13"], "host traffic", format!("{} caused {} bus transactions", op.k.txt(), win.log.len()));
        }
        if is_image(op.k) {
            if op.k == K::IfReady {
                self.judge_ready(op, out, win);
            }
            self.judge_image(op, cam, out, win, before, extra);
        } else if let Some(d) = self.slots[op.slot].drv.as_ref() {
            // Nothing but an image changes the reported ambient temperature.
            let amb = d.ambient();
            if bits_opt(amb) != bits_opt(self.slots[op.slot].amb) && !matches!(op.k, K::New | K::NewFrom) {
                let d = format!("ambient temperature went from {:?} to {amb:?}", self.slots[op.slot].amb);
                self.viol(op, &["C13"], "ambient changed", d);
                self.slots[op.slot].amb = amb;
            }
        }
        self.judge_host(op, op.slot);
        if !win.fired.is_empty() || matches!(op.k, K::EnvReset | K::EnvWrite | K::EnvHalt | K::New | K::NewFrom | K::Set | K::Sync | K::ResetAvail | K::Soak) {
            self.slots.iter_mut().for_each(Slot::restart_polls);
        }
    }

    /// Host-side settings are what was last set.
    fn judge_host(&mut self, op: &Op, slot: usize) {
        let s = &self.slots[slot];
        let Some(d) = s.drv.as_ref() else { return };
        let (e, t) = (d.eps(), d.t_r());
        let (want_e, want_t) = (s.eps, s.t_r);
        let model = self.plan.cams[s.cam].model;
        let dims = d.dims();
        let tags: &[&'static str] = if s_own(s) { &["C13", "C19"] } else { &["C13"] };
        if e.to_bits() != want_e.to_bits() {
            self.viol(op, tags, "emissivity", format!("emissivity in force is {e}, should be {want_e}"));
            self.slots[slot].eps = e;
        }
        if bits_opt(t) != bits_opt(want_t) {
            self.viol(op, &["C13"], "reflected temperature", format!("reflected temperature is {t:?}, should be {want_t:?}"));
            self.slots[slot].t_r = t;
        }
        if dims != (model.width(), model.height()) {
            self.viol(op, &["C01"], "dimensions", format!("driver reports {dims:?}"));
        }
    }

    fn judge_bus(&mut self, op: &Op, out: &Out, win: &Window) {
        let bad: Vec<String> = win.log.iter().filter_map(|t| t.illegal.clone()).collect();
        // The application decides what it writes by hand.
        let bad: Vec<String> = bad.into_iter().filter(|b| op.k != K::RegPut || !b.contains("reserved bits")).collect();
        if let Some(b) = bad.first() {
            let tags: &[&'static str] = if b.contains("driver is for") { &["C06", "C12"] } else { &["C06"] };
            self.viol(op, tags, "illegal transaction", b.clone());
        }
        match out {
            Out::Panic(m) => {
                let d = format!("{} panicked: {m}", op.k.txt());
                self.viol(op, &EVERY, "panic", d);
            }
            Out::Steps if op.k != K::Sync => {
                self.viol(op, &EVERY, "endless", format!("{} did not end after {} transactions", op.k.txt(), win.log.len()));
            }
            _ => {}
        }
    }

    /// Bus errors surface, once and unchanged; other errors only from loading calibration.
    fn judge_errors(&mut self, op: &Op, out: &Out, win: &Window) {
        let failed: Vec<&Txn> = win.log.iter().filter(|t| !t.ok()).collect();
        let host_only = win.log.is_empty();
        if !failed.is_empty() {
            self.probe("call with a failed transaction");
        }
        match out {
            Out::Err(E::Rd(id)) | Out::Err(E::Wr(id)) => {
                let write = matches!(out, Out::Err(E::Wr(_)));
                match failed.iter().find(|t| t.err == Some(*id)) {
                    None => self.viol(
                        op,
                        &["C07"],
                        "foreign error",
                        format!("{} returned bus error {id}, which no transaction of the call produced", op.k.txt()),
                    ),
                    Some(t) if t.write != write => self.viol(
                        op,
                        &["C07"],
                        "wrong error kind",
                        format!("a failed {} was reported as a failed {}", if t.write { "write" } else { "read" }, if write { "write" } else { "read" }),
                    ),
                    Some(_) => {}
                }
            }
            Out::Err(e) => {
                if !failed.is_empty() {
                    self.viol(op, &["C07", "C10"], "error replaced", format!("a transaction failed, the call returned {e:?}"));
                } else if !matches!(op.k, K::New | K::NewFrom | K::LoadCal | K::FromData) {
                    let mut tags = vec!["C01", "C07"];
                    match op.k {
                        K::IfReady => tags.push("C03"),
                        K::Get | K::Set | K::LastSub | K::Avail | K::RegGet | K::RegSet => tags.push("C05"),
                        K::RegHold | K::RegPut => tags.push("C20"),
                        K::Sync => tags.push("C08"),
                        K::LowLevel | K::Compare | K::TwoStep => tags.push("C14"),
                        _ => {}
                    }
                    if win.garbled() || self.plan.cams.iter().any(|c| c.ee == EeKind::Garbage) {
                        tags.push("C11");
                    }
                    self.viol(op, &tags, "spurious error", format!("{} returned {e:?} although the bus worked", op.k.txt()));
                }
            }
            _ if !failed.is_empty() && !host_only => {
                let mut tags = vec!["C07"];
                match op.k {
                    K::New | K::NewFrom | K::LoadCal => tags.push("C10"),
                    K::Sync => tags.push("C08"),
                    K::IfReady => tags.push("C03"),
                    _ => {}
                }
                self.viol(
                    op,
                    &tags,
                    "error swallowed",
                    format!(
                        "{} of register {:#06x} failed, the call returned {}",
                        if failed[0].write { "write" } else { "read" },
                        failed[0].reg,
                        if matches!(out, Out::Image(..)) { "an image".into() } else { format!("{out:?}") }
                    ),
                );
            }
            _ => {}
        }
        // A failed read may not be followed by further writes in the same call.
        if let Some(p) = win.log.iter().position(|t| !t.ok()) {
            if win.log[p + 1..].iter().any(|t| t.write) {
                self.probe("write after a failed transaction");
            }
        }
    }

    /// Which register bits each operation may change.
    fn judge_registers(&mut self, op: &Op, out: &Out, win: &Window) {
        if win.env() || win.garbled() {
            return;
        }
        let mut may = (0u16, 0u16, 0u16);
        match op.k {
            K::IfReady | K::ResetAvail | K::Compare => may.0 = ST_FLAG,
            K::Sync => may.0 = ST_FLAG | ST_OVERWRITE | ST_START,
            K::Set => {
                let (r, m, _) = FIELDS[(op.a % 8) as usize];
                if r == STATUS {
                    may.0 = m;
                } else {
                    may.1 = m;
                }
            }
            K::RegSet => {
                let (r, m, _) = regset_bits(op.a % 3, op.b, op.c);
                match r {
                    STATUS => may.0 = m,
                    CONTROL => may.1 = m,
                    _ => may.2 = m,
                }
            }
            K::RegPut => match op.a % 3 {
                0 => may.0 = 0xFFFF,
                1 => may.1 = 0xFFFF,
                _ => may.2 = 0xFFFF,
            },
            _ => {}
        }
        let evs: Vec<RegEv> = win.writes().copied().collect();
        for e in evs {
            let d = (e.st.0 ^ e.st.1, e.ctl.0 ^ e.ctl.1, e.i2c.0 ^ e.i2c.1);
            let s = (d.0 & !may.0, d.1 & !may.1, d.2 & !may.2);
            if s == (0, 0, 0) {
                continue;
            }
            let mut tags: Vec<&'static str> = vec!["C05"];
            match op.k {
                K::IfReady => tags = vec!["C03", "C05"],
                K::Sync => tags.push("C08"),
                K::New | K::NewFrom => tags.push("C17"),
                K::Image | K::Sub | K::Raw => tags.push("C01"),
                K::RegPut | K::RegHold | K::RegEdit | K::RegLook => tags.push("C20"),
                _ => {}
            }
            let flag = s.0 & ST_FLAG != 0 && e.st.0 & ST_FLAG != 0;
            if flag {
                tags.push("C03");
            }
            let detail = format!(
                "{} changed status {:04x}->{:04x} control {:04x}->{:04x} i2c {:04x}->{:04x}",
                op.k.txt(), e.st.0, e.st.1, e.ctl.0, e.ctl.1, e.i2c.0, e.i2c.1
            );
            let race_bits = ST_FLAG | ST_START;
            if s.1 == 0 && s.2 == 0 && s.0 & !race_bits == 0 && win.raced(e.txn) {
                // The register moved between the driver's read and its write.
                self.known(op, &tags, "stale status write", "K3", detail);
            } else {
                self.viol(op, &tags, "stray change", detail);
            }
        }
        // Register writes on a call that must not write at all.
        let _ = out;
    }

    /// What the driver must believe about the camera's settings after this call.
    fn track_settings(&mut self, op: &Op, out: &Out, win: &Window) {
        if matches!(out, Out::Panic(_) | Out::Crash | Out::Steps) && op.k != K::Sync {
            // The driver is gone.
            let s = &mut self.slots[op.slot];
            if s.drv.is_none() && by_driver(op.k) {
                s.allowed.clear();
            }
        }
        let compare = op.k == K::Compare;
        if !by_driver(op.k) && !compare {
            return;
        }
        let s = &mut self.slots[op.slot];
        if matches!(op.k, K::New | K::NewFrom) {
            s.allowed.clear();
        }
        let mut first = true;
        for t in &win.log {
            if let Some(w) = t.reads(CONTROL) {
                // The first is the driver's, the others are by its stand-ins.
                if compare && !std::mem::take(&mut first) {
                    if !s.allowed.contains(&Cfg::of(w)) {
                        s.allowed.push(Cfg::of(w));
                    }
                } else {
                    s.allowed = vec![Cfg::of(w)];
                }
            }
            if t.write && t.reg == CONTROL && !t.words.is_empty() {
                let c = Cfg::of(t.words[0]);
                if t.ok() {
                    s.allowed = vec![c];
                } else if t.applied && !s.allowed.contains(&c) {
                    s.allowed.push(c);
                }
            }
        }
        if op.k == K::Get && op.a % 8 == 5 {
            if let Out::Num(v) = out {
                s.rate = *v;
            }
        }
    }

    fn judge_get(&mut self, op: &Op, out: &Out, win: &Window) {
        let Out::Num(v) = out else { return };
        let (reg, ok) = match op.k {
            K::Get => {
                let (reg, mask, shift) = FIELDS[(op.a % 8) as usize];
                (reg, win.values(reg).iter().any(|w| u64::from((w & mask) >> shift) == *v))
            }
            K::LastSub => (STATUS, win.values(STATUS).iter().any(|w| u64::from(sp_of(*w)) == *v)),
            K::Avail => {
                let f = |w: &u16| if w & ST_FLAG != 0 { u64::from(sp_of(*w)) } else { 2 };
                (STATUS, win.values(STATUS).iter().any(|w| f(w) == *v))
            }
            _ => {
                let i = (op.a % 3) as usize;
                let reg = [STATUS, CONTROL, I2CCONF][i];
                (reg, win.values(reg).iter().any(|w| u64::from(w & REG_FIELDS[i]) == *v))
            }
        };
        if !ok {
            let what = if op.k == K::Get { FIELD_NAMES[(op.a % 8) as usize] } else { op.k.txt() };
            let held: Vec<String> = win.values(reg).iter().map(|w| format!("{w:04x}")).collect();
            self.viol(op, &["C05", "C17"], "getter", format!("{what} reported as {v}, register {reg:#06x} held {}", held.join(", ")));
        } else {
            self.probe("getter answered");
        }
    }

    fn judge_set(&mut self, op: &Op, out: &Out, win: &Window) {
        let (reg, mask, want) = if op.k == K::Set {
            let (reg, mask, shift) = FIELDS[(op.a % 8) as usize];
            (reg, mask, ((op.b as u16) << shift) & mask)
        } else {
            regset_bits(op.a % 3, op.b, op.c)
        };
        let what = if op.k == K::Set { FIELD_NAMES[(op.a % 8) as usize] } else { "register field" };
        let val = |e: &RegEv| match reg {
            STATUS => (e.st.0, e.st.1),
            CONTROL => (e.ctl.0, e.ctl.1),
            _ => (e.i2c.0, e.i2c.1),
        };
        if win.env() || win.garbled() {
            return;
        }
        // The camera may only ever move to the new value.
        let starts = mask == ST_START && reg == STATUS;
        let evs: Vec<(u16, u16)> = win.writes().map(val).collect();
        if let Some((a, b)) = evs.iter().find(|(_, b)| b & mask != want) {
            let d = format!("setting {what} to {want:#06x} left register {reg:#06x} at {b:#06x} (was {a:#06x})");
            self.viol(op, &["C05"], "wrong value", d);
            return;
        }
        let post = match reg {
            STATUS => win.post.0,
            CONTROL => win.post.1,
            _ => win.post.2,
        };
        match out {
            Out::Unit => {
                let flag_race = reg == STATUS && (starts || mask == ST_FLAG);
                if post & mask != want && !flag_race {
                    let mut tags = vec!["C05"];
                    if reg == CONTROL && mask & 0x1C00 != 0 {
                        tags.push("C04");
                    }
                    self.viol(op, &tags, "not set", format!("{what} set to {want:#06x}, register {reg:#06x} holds {post:#06x}"));
                }
                if flag_race && !win.log.iter().any(|t| t.write && t.ok() && t.reg == STATUS && t.words[0] & mask == want) {
                    self.viol(op, &["C05"], "not set", format!("{what}: no write reached the camera"));
                }
                self.probe("setter succeeded");
            }
            Out::Err(_) => {
                if win.log.iter().filter(|t| !t.ok() && t.write).all(|t| !t.applied) && !evs.is_empty() {
                    let d = format!("setting {what} failed, but the camera had already been changed");
                    self.viol(op, &["C05", "C07"], "half set", d);
                }
                self.probe("setter failed");
            }
            _ => {}
        }
    }

    /// Register values in the application's hands.
    fn judge_held(&mut self, op: &Op, out: &Out, win: &Window) {
        let r = (op.a % 3) as usize;
        let reg = [STATUS, CONTROL, I2CCONF][r];
        let fields = REG_FIELDS[r];
        let held = |t: &Self, w: u64| t.regs.borrow()[op.slot][r][(w & 1) as usize];
        match op.k {
            K::RegHold if *out == Out::Unit => {
                let Some((v, m)) = held(self, op.b) else { return };
                let m = if op.c == 0 {
                    let words: Vec<u16> = win.log.iter().filter_map(|t| t.reads(reg)).collect();
                    match words.iter().find(|w| u64::from(*w & fields) == v.fields()) {
                        Some(w) => *w,
                        None => {
                            let d = format!("register {reg:#06x} read as fields {:#06x}, the camera sent {words:04x?}", v.fields());
                            self.viol(op, &["C20", "C05"], "read wrongly", d);
                            self.regs.borrow_mut()[op.slot][r][(op.b & 1) as usize] = None;
                            return;
                        }
                    }
                } else {
                    m
                };
                self.regs.borrow_mut()[op.slot][r][(op.b & 1) as usize] = Some((v, m));
                self.judge_value(op, reg, v, m & fields, fields);
            }
            K::RegEdit if *out == Out::Unit => {
                let Some((v, m)) = held(self, op.c) else { return };
                let (_, mask, want) = regset_bits(op.a % 3, op.b, op.c >> 1);
                let m = m & !mask | want;
                self.regs.borrow_mut()[op.slot][r][(op.c & 1) as usize] = Some((v, m));
                self.judge_value(op, reg, v, m & fields, fields);
            }
            K::RegLook if *out == Out::Unit => {
                let (Some((a, ma)), Some((b, mb))) = (held(self, 0), held(self, 1)) else { return };
                self.judge_value(op, reg, a, ma & fields, fields);
                self.judge_value(op, reg, b, mb & fields, fields);
                let same = ma & fields == mb & fields;
                for (x, y) in [(a, b), (b, a)] {
                    let (eq, ne, ord) = x.against(&y);
                    if eq != same || ne == same || ord.is_some_and(|o| o.is_eq() != same) {
                        let d = format!("{ma:#06x} and {mb:#06x} (fields {fields:#06x}): equal {eq}, different {ne}, order {ord:?}");
                        self.viol(op, &["C20"], "compared wrongly", d);
                    }
                }
                if a.against(&b).2 != b.against(&a).2.map(std::cmp::Ordering::reverse) {
                    self.viol(op, &["C20"], "compared wrongly", format!("{ma:#06x} and {mb:#06x} order differently both ways"));
                }
                self.probe(if same { "equal register values" } else { "different register values" });
            }
            K::RegPut => {
                let Some((_, m)) = held(self, op.b) else { return };
                let writable = if r == 0 { fields & !ST_READONLY } else { fields };
                let cur = [win.pre.0, win.pre.1, win.pre.2][r];
                let words: Vec<(u16, u16, bool)> = win.log.iter().filter(|t| t.write && !t.words.is_empty()).map(|t| (t.reg, t.words[0], t.ok())).collect();
                let others = !fields & !if r == 0 { ST_READONLY } else { 0 };
                let fits = |w: u16| w & writable == m & writable && (w & others == m & others || w & others == cur & others || win.env());
                if let Some((at, w, _)) = words.iter().find(|(at, w, _)| *at != reg || !fits(*w)) {
                    if !win.garbled() {
                        let d = format!("{w:#06x} was written to {at:#06x} instead of {m:#06x} to {reg:#06x}");
                        self.viol(op, &["C20"], "written wrongly", d);
                    }
                }
                if *out == Out::Unit {
                    if !words.iter().any(|(at, _, ok)| *at == reg && *ok) {
                        self.viol(op, &["C20"], "not written", format!("{m:#06x} never reached register {reg:#06x}"));
                    }
                    self.probe("register value written");
                }
            }
            _ => {}
        }
    }

    fn judge_value(&mut self, op: &Op, reg: u16, v: Reg, m: u16, fields: u16) {
        let (raw, back) = v.bytes();
        let got = v.fields();
        if got != u64::from(m) || raw & fields != m || back != u64::from(m) {
            let d = format!("register {reg:#06x} value has fields {got:#06x} and bytes {raw:#06x} (read back as {back:#06x}), should be {m:#06x}");
            self.viol(op, &["C20"], "wrong value", d);
        }
    }

    fn judge_sync(&mut self, op: &Op, cam: usize, out: &Out, win: &Window) {
        let spec = &self.plan.cams[cam];
        // A failed transaction ends the call.
        if let Some(p) = win.log.iter().position(|t| !t.ok()) {
            if p + 1 < win.log.len() {
                self.viol(op, &["C08", "C07"], "kept waiting", format!("{} transactions after a failed one", win.log.len() - p - 1));
            }
        }
        if win.env() || win.garbled() {
            return;
        }
        if let Some(e) = win.writes().find(|e| e.st.0 & ST_OVERWRITE != 0 && e.st.1 & ST_OVERWRITE == 0) {
            self.viol(op, &["C08", "C05"], "overwrite disabled", format!("status {:04x}->{:04x}", e.st.0, e.st.1));
        }
        let discard = win.log.iter().position(|t| t.write && t.reg == STATUS && t.applied);
        let after = discard.map_or(win.pre.4, |i| win.log[i].t1);
        let fresh: Vec<&RegEv> = win
            .events
            .iter()
            .filter(|e| e.cause == Cause::Publish && e.count > win.pre.3 && e.st.1 & ST_FLAG != 0 && e.t >= after)
            .collect();
        let begun_after = |t: u64| win.log.iter().filter(|x| x.t0 > t).count();
        let stall: u64 = win.fired.iter().filter(|f| f.k == Fk::Stall).map(|f| f.a).sum();
        match out {
            Out::Unit => {
                self.probe("synchronised");
                let Some(first) = fresh.first() else {
                    let d = format!(
                        "returned after {} ns without a new measurement (status {:04x} at the start)",
                        win.post.4 - win.pre.4, win.pre.0
                    );
                    self.viol(op, &["C08"], "no fresh measurement", d);
                    return;
                };
                if win.post.0 & ST_FLAG == 0 {
                    self.viol(op, &["C08", "C03"], "frame lost", "the new frame is not flagged after synchronising".into());
                }
                if begun_after(first.t) > 2 {
                    let d = format!("{} transactions were begun after the frame was flagged", begun_after(first.t));
                    self.viol(op, &["C08"], "late", d);
                }
                let (hz, ov) = self.plan.buses[spec.bus];
                let slack = 12 * (ov + 60_000_000_000 / hz) + stall;
                let period = period_ns(win.pre.1, spec.skew);
                let halted = self.sh.lock().cams[cam].halted;
                if spec.timer && !halted && win.post.4 - win.pre.4 > 2 * period + slack {
                    let d = format!("took {} ns with a frame period of {period} ns", win.post.4 - win.pre.4);
                    self.viol(op, &["C08"], "late", d);
                }
            }
            Out::Steps => {
                let halted = {
                    let g = self.sh.lock();
                    g.cams[cam].halted
                };
                if fresh.first().is_some_and(|f| begun_after(f.t) > 3) || (spec.timer && !halted && win.failed().is_none()) {
                    let d = format!("still waiting after {} ns", win.post.4 - win.pre.4);
                    self.viol(op, &["C08"], "never returned", d);
                } else {
                    self.probe("sync with a silent camera");
                }
            }
            _ => {}
        }
    }

    /// The deliver-if-ready protocol.
    fn judge_ready(&mut self, op: &Op, out: &Out, win: &Window) {
        let reads = win.status_reads();
        let flagged = |w: u16| w & ST_FLAG != 0;
        match out {
            Out::Bool(true) => {
                if !reads.iter().any(|(_, w)| flagged(*w)) {
                    self.viol(op, &["C03"], "not flagged", "reported an image although no new frame was flagged".into());
                }
                if !win.log.iter().any(|t| t.write && t.ok() && t.reg == STATUS && !flagged(t.words[0])) {
                    let still = win.post.0 & ST_FLAG != 0;
                    let env = win.env();
                    if still || !env {
                        self.viol(op, &["C03", "C16"], "not acknowledged", "delivered an image without clearing its flag".into());
                    }
                }
            }
            Out::Bool(false) => {
                if !reads.is_empty() && reads.iter().all(|(_, w)| flagged(*w)) {
                    self.viol(op, &["C03", "C16"], "frame refused", "reported no image although a new frame was flagged".into());
                }
                if reads.is_empty() && win.pre.0 & win.post.0 & ST_FLAG != 0 {
                    self.viol(op, &["C03", "C16"], "frame refused", "reported no image without asking the camera".into());
                }
                if win.writes().next().is_some() {
                    self.viol(op, &["C03"], "changed", "wrote to the camera without delivering an image".into());
                }
            }
            _ => {}
        }
        // Acknowledging only after the frame has been read.
        let clears: Vec<RegEv> =
            win.writes().filter(|e| flagged(e.st.0) && !flagged(e.st.1)).copied().collect();
        if let [first, again, ..] = clears[..] {
            self.viol(
                op,
                &["C03"],
                "acknowledged twice",
                format!("transaction {} cleared the flag of a frame that completed after transaction {} had acknowledged the delivered one", again.txn, first.txn),
            );
        }
        for e in clears {
            let later_read = win.log.iter().skip(e.txn + 1).any(|t| Window::is_ram(t));
            let read_failed = win.log.iter().take(e.txn).any(|t| !t.ok());
            let any_ram = win.log.iter().take(e.txn).any(Window::is_ram);
            if later_read || read_failed || !any_ram {
                self.viol(
                    op,
                    &["C03"],
                    "acknowledged early",
                    format!("the flag was cleared by transaction {} although the frame had not been read", e.txn),
                );
            } else if win.raced_delivery(e.txn) {
                self.known(
                    op,
                    &["C03"],
                    "newer frame acknowledged",
                    "K1",
                    "a frame completed after the flag was read; acknowledging the older frame cleared its flag".into(),
                );
            }
        }
        // A frame in which the call failed stays flagged.
        if matches!(out, Out::Err(_) | Out::Crash) && !win.env() {
            self.probe("interrupted delivery");
        }
    }

    /// Calibration loading.
    fn judge_load(&mut self, op: &Op, cam: usize, out: &Out, win: &Window, new_cal: Option<Cal>) {
        let model = self.plan.cams[cam].model;
        let mi = usize::from(model == Model::M641);
        if op.k == K::NewFrom {
            let rc = self.cals[op.slot][mi].as_ref().map(|(_, r)| r.clone());
            if *out == Out::Unit {
                self.adopt(op, rc);
            } else if let Out::Err(e) = out {
                if win.failed().is_none() {
                    self.viol(op, &["C14", "C17", "C19"], "not created", format!("{e:?}"));
                }
            }
            return;
        }
        let (ee, ref_cal) = {
            let g = self.sh.lock();
            let c = &g.cams[cam];
            let mut ee = c.ee.clone();
            if op.k != K::FromData {
                for (a, w) in win.words() {
                    if (EE_BASE..EE_BASE + EE_WORDS as u16).contains(&a) {
                        ee[usize::from(a - EE_BASE)] = w;
                    }
                }
            }
            let r = if ee == c.ee { c.cal.clone() } else { decode(model, &ee).map(Arc::new) };
            (ee, r)
        };
        let damaged = !self.plan.cams[cam].flips.is_empty();
        let mut tags: Vec<&'static str> = vec!["C10"];
        if model == Model::M641 && (damaged || ref_cal.as_ref().is_err_and(|e| !e.bad_words.is_empty())) {
            tags.push("C09");
        }
        if op.k == K::New {
            tags.push("C17");
        }
        if model == Model::M641 && self.plan.prop == "C09" {
            // The published helpers and the loader agree on what a word means.
            if let Some(d) = ee.iter().find_map(|w| crate::drive::checksum_helpers(*w)) {
                self.viol(op, &["C09"], "checksum helper", d);
            }
        }
        if op.k == K::FromData && op.b < 1664 {
            if *out == Out::Unit {
                self.viol(op, &["C10", "C11"], "short dump accepted", format!("{} bytes were accepted as calibration", op.b));
            } else {
                self.probe("short dump refused");
            }
            return;
        }
        if matches!(out, Out::Crash | Out::Panic(_) | Out::Steps) || win.failed().is_some() {
            return;
        }
        match (out, &ref_cal) {
            (Out::Unit, Ok(r)) => {
                self.probe("calibration loaded");
                let r = r.clone();
                if let Some(c) = new_cal {
                    let diffs = c.differences(&r);
                    if !diffs.is_empty() {
                        self.viol(op, &tags, "calibration value", diffs.join("; "));
                    }
                    if op.k == K::LoadCal {
                        let bytes: Vec<u8> = ee.iter().flat_map(|w| w.to_be_bytes()).collect();
                        let direct = catch_unwind(|| Cal::from_data(model, &bytes).map(|d| d.fingerprint()));
                        match direct {
                            Ok(Ok(f)) if f == c.fingerprint() => {}
                            Ok(Ok(_)) => self.viol(op, &["C10"], "paths differ", "loading over the bus and decoding the bytes give different calibrations".into()),
                            Ok(Err(e)) => self.viol(op, &["C10"], "paths differ", format!("decoding the same bytes fails with {e:?}")),
                            Err(_) => self.viol(op, &["C10", "C11"], "paths differ", "decoding the same bytes panics".into()),
                        }
                    }
                    self.cals[op.slot][mi] = Some((c, r));
                } else {
                    self.adopt(op, Some(r));
                }
            }
            (Out::Unit, Err(e)) => {
                let d = if e.bad_words.is_empty() {
                    "calibration with values that cannot be represented was accepted".to_string()
                } else {
                    format!("calibration with damaged words {:04x?} was accepted", e.bad_words)
                };
                self.viol(op, &tags, "bad calibration accepted", d);
                if let Some(d) = self.slots[op.slot].drv.take() {
                    drop(d);
                }
            }
            (Out::Err(e), r) => {
                self.slots[op.slot].drv = None;
                let fine = match (e, r) {
                    (E::Checksum(w), Err(r)) => r.bad_words.contains(w),
                    (E::Invalid(_), Err(r)) => r.invalid,
                    (E::Invalid(_), Ok(r)) => r.maybe_invalid,
                    _ => false,
                };
                if fine {
                    self.probe(if matches!(e, E::Checksum(_)) { "checksum error reported" } else { "invalid data reported" });
                } else {
                    let want = match r {
                        Ok(_) => "should load".to_string(),
                        Err(r) if r.invalid => "should be reported as invalid data".to_string(),
                        Err(r) => format!("should be a checksum error for one of {:04x?}", r.bad_words),
                    };
                    self.viol(op, &tags, "calibration refused", format!("{e:?}; {want}"));
                }
            }
            _ => {}
        }
    }

    /// A new driver starts with default host settings.
    fn adopt(&mut self, op: &Op, cal: Option<Arc<RefCal>>) {
        let eps = cal.as_ref().and_then(|c| c.emissivity).unwrap_or(1.0);
        let s = &mut self.slots[op.slot];
        s.cal = cal;
        s.eps = eps;
        s.t_r = None;
        s.amb = None;
        s.buf = vec![];
        s.last_delivered = None;
        let Some(d) = s.drv.as_ref() else { return };
        if d.ambient().is_some() || d.eps().to_bits() != eps.to_bits() || d.t_r().is_some() {
            let m = format!("a new driver starts with emissivity {}, reflected {:?}, ambient {:?}", d.eps(), d.t_r(), d.ambient());
            let own = s_own(&self.slots[op.slot]);
            self.viol(op, if own { &["C13", "C17", "C19"] } else { &["C13", "C17"] }, "defaults", m);
        }
    }

    fn judge_image(
        &mut self,
        op: &Op,
        cam: usize,
        out: &Out,
        win: &Window,
        before: &[f32],
        extra: &[(&'static str, Vec<f32>, f32)],
    ) {
        let model = self.plan.cams[cam].model;
        let npix = model.npix();
        if matches!(out, Out::Panic(_)) {
            return;
        }
        let buf = self.slots[op.slot].buf.clone();
        let fail = win.failed().cloned();
        // A transaction on the registers once the frame has been read is part of acknowledging it.
        let ack_failed = matches!(out, Out::Err(_))
            && fail.as_ref().is_some_and(|t| t.write || (op.k == K::IfReady && t.reg >= STATUS && win.frame_read(model, buf.len())));
        let delivered = matches!(out, Out::Bool(true) | Out::Unit | Out::Image(..));
        let changed = same_bits(before, &buf);
        let amb = self.slots[op.slot].drv.as_ref().and_then(|d| d.ambient());
        let old_amb = self.slots[op.slot].amb;
        let has_drv = self.slots[op.slot].drv.is_some();
        let acked = win.writes().any(|e| e.st.0 & ST_FLAG != 0 && e.st.1 & ST_FLAG == 0);
        // Must nothing have been written?
        let must_not = match out {
            Out::Bool(false) => true,
            Out::Err(_) | Out::Crash | Out::Steps => !ack_failed && !acked && op.k != K::Compare,
            _ => false,
        };
        if must_not && *out != Out::Crash {
            if let Some(i) = changed {
                let mut tags = vec!["C02"];
                if fail.is_some() {
                    tags.push("C07");
                }
                self.viol(op, &tags, "buffer changed", format!("{} returned {out:?} but changed element {i}", op.k.txt()));
                self.slots[op.slot].marked = false;
            } else {
                self.probe(if fail.is_some() { "failed image left the buffer alone" } else { "not ready" });
            }
            if has_drv && bits_opt(amb) != bits_opt(old_amb) {
                self.viol(op, &["C13"], "ambient changed", format!("{out:?}: ambient temperature went from {old_amb:?} to {amb:?}"));
                self.slots[op.slot].amb = amb;
            }
            self.count_poll(op, cam, out, win, None);
            return;
        }
        if *out == Out::Crash {
            // The buffer died with the host; nothing may have been acknowledged that was not read.
            return;
        }
        // An image is (or, after a failed acknowledgement, may be) in the buffer.
        let Some(cal) = self.slots[op.slot].cal.clone() else { return };
        let cal = if op.k == K::LowLevel {
            let mi = usize::from(model == Model::M641);
            match &self.cals[op.slot][mi] {
                Some((_, r)) => r.clone(),
                None => return,
            }
        } else {
            cal
        };
        let words = win.words();
        let (ram, st, ctl, phys) = {
            let mut g = self.sh.lock();
            let c = &mut g.cams[cam];
            // Only when it is certain which frame the call read.
            let phys = if win.pre.3 == win.post.3 { self.physics_reference(op, c) } else { None };
            (c.ram.clone(), c.st, c.ctl, phys)
        };
        let host = Host { emissivity: self.slots[op.slot].eps, t_r: self.slots[op.slot].t_r };
        let probe = Probe { cal: &cal, host, raw: op.k == K::Raw, words: &words, ram: &ram };
        let sps: Vec<u8> = match op.k {
            K::IfReady | K::Image => {
                let mut v: Vec<u8> = win.status_reads().iter().map(|(_, w)| sp_of(*w)).collect();
                if v.is_empty() {
                    v.push(sp_of(st));
                }
                // The first status decides what is delivered.
                v.dedup();
                v
            }
            _ => vec![(op.c & 1) as u8],
        };
        let cfgs: Vec<Cfg> = if op.k == K::LowLevel {
            let v: Vec<Cfg> = win.log.iter().filter_map(|t| t.reads(CONTROL)).map(Cfg::of).collect();
            if v.is_empty() { vec![Cfg::of(ctl)] } else { v }
        } else {
            self.slots[op.slot].allowed.clone()
        };
        let limit = buf.len();
        let marked = self.slots[op.slot].marked;
        let mut best: Option<(Diff, RefImage, Cfg, u8)> = None;
        for &sp in &sps {
            for &cfg in &cfgs {
                if matches!(best, Some((Diff::None, ..))) {
                    continue;
                }
                let img = probe.image(cfg, sp, host, limit);
                let d = compare(&img, npix, before, &buf, marked);
                if best.is_none() || matches!(d, Diff::None) {
                    best = Some((d, img, cfg, sp));
                }
            }
        }
        let Some((mut diff, img, cfg, sp)) = best else { return };
        // After a failed acknowledgement that did not clear the flag, no image is fine too.
        if ack_failed && !acked && changed.is_none() {
            diff = Diff::None;
            if has_drv && bits_opt(amb) != bits_opt(old_amb) && !img.ta.admits(amb.unwrap_or(f32::NAN)) {
                self.viol(op, &["C13"], "ambient changed", format!("{out:?}: ambient temperature went from {old_amb:?} to {amb:?}"));
            }
            self.slots[op.slot].amb = amb;
            self.count_poll(op, cam, out, win, None);
            let _ = diff;
            return;
        }
        let mut base: Vec<&'static str> = match op.k {
            K::LowLevel | K::TwoStep => vec!["C01", "C14"],
            _ => vec!["C01"],
        };
        if acked && !delivered {
            base.push("C03");
        }
        let own = cal.own.is_some();
        if own {
            base.push("C19");
        }
        let wrong = !matches!(diff, Diff::None);
        match diff {
            Diff::None => {
                self.probe(match (model, delivered) {
                    (_, false) => "image delivered, acknowledgement failed",
                    (Model::M640, _) => "MLX90640 image checked",
                    (Model::M641, _) => "MLX90641 image checked",
                });
                if own {
                    self.probe("image by an own calibration");
                }
                if img.px.iter().any(|p| matches!(p, Px::Nan)) {
                    self.probe("image with NaN pixels");
                }
                if img.px.iter().any(|p| matches!(p, Px::Val(_))) {
                    self.probe("image with compared pixels");
                }
            }
            Diff::Outside(i) => {
                let mut tags = vec!["C02"];
                if own {
                    tags.push("C19");
                }
                if i < npix {
                    tags.extend(self.explain(op, &probe, cfg, sp, before, &buf, marked, npix));
                }
                self.viol(op, &tags, "outside the subpage", format!("element {i} is not part of subpage {sp} of the image and changed"));
            }
            Diff::Unwritten(i, want) => {
                let mut tags = base.clone();
                tags.push("C02");
                if op.k == K::IfReady {
                    tags.push("C03");
                }
                tags.extend(self.explain(op, &probe, cfg, sp, before, &buf, marked, npix));
                self.viol(op, &tags, "unwritten", format!("pixel {i} of subpage {sp} was not written, should be {want}"));
            }
            Diff::Wrong(i, d) => {
                let mut tags = base.clone();
                if op.k == K::TwoStep && extra.first().is_some_and(|e| e.1[i].to_bits() == buf[i].to_bits()) {
                    // The second step left it out.
                    tags.push("C02");
                }
                tags.extend(self.explain(op, &probe, cfg, sp, before, &buf, marked, npix));
                self.viol(
                    op,
                    &tags,
                    "image",
                    format!("MLX90{} {}, subpage {sp}, {cfg:?}: pixel {i} {d}", model.name(), op.k.txt()),
                );
            }
        }
        // Ambient temperature.
        let reported = match out {
            Out::Image(t, _) => Some(*t),
            _ => amb,
        };
        if !wrong || op.k == K::LowLevel {
            match reported {
                Some(t) if img.ta.admits(t) || (img.ta.is_wild()) => {}
                _ if op.k == K::Compare => {}
                t => self.viol(op, if own { &["C01", "C13", "C19"] } else if op.k == K::LowLevel { &["C01", "C13", "C14"] } else { &["C01", "C13"] }, "ambient", format!("ambient temperature is {t:?}, should be {} +- {:e}", img.ta.v, img.ta.e)),
            }
        }
        if op.k == K::LowLevel {
            if has_drv && bits_opt(amb) != bits_opt(old_amb) {
                self.viol(op, &["C12", "C13"], "ambient changed", "the low-level API changed a driver".into());
            }
        }
        self.slots[op.slot].amb = amb;
        self.slots[op.slot].marked = false;
        // Torn frame?
        let mut mixed = false;
        let first = win.log.iter().find(|t| t.reads(STATUS).is_some() || Window::is_ram(t));
        let last = win.log.iter().rev().find(|t| Window::is_ram(t));
        if let (Some(f), Some(l)) = (first, last) {
            let torn = win.events.iter().any(|e| e.cause == Cause::Publish && e.st.1 & ST_FLAG != 0 && e.t > f.t0 && e.t < l.t1);
            mixed = torn;
            if torn {
                self.known(
                    op,
                    &["C01"],
                    "torn image",
                    "K2",
                    "a new frame was stored while the image was being read; the image mixes both".into(),
                );
            }
        }
        if let (Some((pimg, to)), true, false) = (&phys, delivered, mixed) {
            if pimg.0 == sp {
                self.judge_physics(op, &pimg.1, to, &buf, reported);
            }
        }
        if op.k == K::Compare && *out == Out::Unit {
            self.judge_paths(op, extra, &img, before, model, cfg, sp);
        }
        self.count_poll(op, cam, out, win, Some((cfg, sp)));
    }

    /// A wrong image that would be right under other settings breaks further properties.
    #[allow(clippy::too_many_arguments)]
    fn explain(&self, op: &Op, p: &Probe<'_>, cfg: Cfg, sp: u8, before: &[f32], buf: &[f32], marked: bool, npix: usize) -> Vec<&'static str> {
        let mut tags = vec![];
        let fits = |cfg: Cfg, sp: u8, host: Host| {
            let img = p.image(cfg, sp, host, buf.len());
            let shape = before.iter().zip(buf).enumerate().all(|(i, (b, a))| {
                b.to_bits() == a.to_bits() || !matches!(img.px.get(i).copied().unwrap_or(Px::Outside), Px::Outside)
            });
            shape && matches!(compare(&img, npix, before, buf, marked), Diff::None)
        };
        for chess in [false, true] {
            for res in 0..4 {
                let c = Cfg { chess, res };
                if c != cfg && fits(c, sp, p.host) {
                    tags.push("C04");
                }
            }
        }
        let def = self.slots[op.slot].cal.as_ref().and_then(|c| c.emissivity).unwrap_or(1.0);
        let mut hosts = vec![
            Host { emissivity: p.host.emissivity, t_r: None },
            Host { emissivity: def, t_r: p.host.t_r },
            Host { emissivity: def, t_r: None },
            Host { emissivity: 1.0, t_r: p.host.t_r },
            Host { emissivity: 1.0, t_r: None },
        ];
        for o in &self.plan.ops {
            if o.slot == op.slot && o.task == op.task && o.id <= op.id {
                match o.k {
                    K::Eps => hosts.push(Host { emissivity: f32::from_bits(o.a as u32), t_r: p.host.t_r }),
                    K::Tr if o.b == 1 => hosts.push(Host { emissivity: p.host.emissivity, t_r: Some(f32::from_bits(o.a as u32)) }),
                    _ => {}
                }
            }
        }
        hosts.push(Host { emissivity: p.host.emissivity, t_r: self.slots[op.slot].amb });
        for h in hosts {
            let same = h.emissivity.to_bits() == p.host.emissivity.to_bits() && bits_opt(h.t_r) == bits_opt(p.host.t_r);
            if !same && fits(cfg, sp, h) {
                tags.push("C13");
            }
        }
        tags.sort_unstable();
        tags.dedup();
        tags
    }

    /// What the scene in front of a physically simulated camera must read as, when the driver is set
    /// up for it: (subpage, reference) and the true temperatures.
    fn physics_reference(&self, op: &Op, c: &mut Cam) -> Option<((u8, RefImage), Vec<f64>)> {
        if c.scene.is_none() || c.spec.fr != FrKind::Physics {
            return None;
        }
        let s = &self.slots[op.slot];
        let sc = c.scene.as_ref().unwrap();
        if s.eps.to_bits() != sc.host.emissivity.to_bits() || bits_opt(s.t_r) != bits_opt(sc.host.t_r) {
            return None;
        }
        let cfg = Cfg::of(c.ctl);
        if s.allowed != [cfg] || !matches!(op.k, K::IfReady | K::Image | K::Sub | K::TwoStep) {
            return None;
        }
        let sp = match op.k {
            K::Sub | K::TwoStep => (op.c & 1) as u8,
            _ => c.last_sp,
        };
        let latest = c.frames.iter().flatten().max_by_key(|f| f.count)?;
        let mine = c.frames[usize::from(sp)]?;
        if latest.cfg != cfg || mine.cfg != cfg || !latest.in_range || !mine.in_range {
            return None;
        }
        let host = sc.host;
        let mut to = sc.to.clone();
        let cal = c.cal.clone().ok()?;
        let (aux, pix) = c.physics(sp, cfg);
        for (t, p) in to.iter_mut().zip(&pix) {
            // Not representable by this sensor.
            if p.is_nan() {
                *t = f64::NAN;
            }
        }
        let img = image(&cal, cfg, sp, &aux, &|i| Ef::with_err(pix[i], 0.501), host, false, s.buf.len());
        Some(((sp, img), to))
    }

    fn judge_physics(&mut self, op: &Op, img: &RefImage, to: &[f64], buf: &[f32], amb: Option<f32>) {
        let mut close = 0;
        for (i, (p, x)) in img.px.iter().zip(buf).enumerate() {
            let Px::Val(e) = p else { continue };
            if e.e > 5.0 || to[i].is_nan() {
                continue;
            }
            close += 1;
            // Reference and truth agree up to the inversion's own accuracy.
            let slack = e.e + 0.02 + (e.v - to[i]).abs().min(0.02);
            if !x.is_finite() || (f64::from(*x) - to[i]).abs() > slack {
                self.viol(
                    op,
                    &["C15"],
                    "static scene",
                    format!("pixel {i} sees {:.3} degrees and reads {x}, allowed quantisation error {:.3}", to[i], e.e),
                );
                return;
            }
        }
        if let Some(t) = amb {
            if !img.ta.is_wild() && img.ta.e < 5.0 && !img.ta.admits(t) {
                self.viol(op, &["C15"], "static scene", format!("sensor is at {:.3}, reads {t}", img.ta.v));
            }
        }
        if close > img.px.len() / 4 {
            self.probe("scene temperature checked");
        }
    }

    /// Every path gives the same image.
    #[allow(clippy::too_many_arguments)]
    fn judge_paths(&mut self, op: &Op, extra: &[(&'static str, Vec<f32>, f32)], img: &RefImage, before: &[f32], model: Model, cfg: Cfg, sp: u8) {
        let Some((first_name, first, first_ta)) = extra.first() else { return };
        let close = |e: &Ef, a: f32, b: f32| {
            (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits() || (f64::from(a) - f64::from(b)).abs() <= 2.0 * e.e
        };
        let mut paths = 0;
        for (name, b, ta) in &extra[1..] {
            paths += 1;
            for i in 0..b.len() {
                let touched = (first[i].to_bits() != before[i].to_bits(), b[i].to_bits() != before[i].to_bits());
                let inside = i < model.npix() && model.in_subpage(i, cfg.chess, sp);
                if touched.0 != touched.1 {
                    let d = format!("element {i}: {first_name} {} it, {name} {}", if touched.0 { "wrote" } else { "left" }, if touched.1 { "wrote it" } else { "left it" });
                    self.viol(op, &["C14"], "different pixels", d);
                    return;
                }
                if !inside {
                    continue;
                }
                let ok = match img.px.get(i).copied().unwrap_or(Px::Outside) {
                    Px::Val(e) => close(&e, first[i], b[i]),
                    Px::Nan => first[i].is_nan() == b[i].is_nan(),
                    _ => true,
                };
                if !ok {
                    self.viol(op, &["C14"], "paths differ", format!("pixel {i}: {first_name} {}, {name} {}", first[i], b[i]));
                    return;
                }
            }
            if !img.ta.is_wild() && !close(&img.ta, *first_ta, *ta) {
                self.viol(op, &["C14"], "paths differ", format!("ambient temperature: {first_name} {first_ta}, {name} {ta}"));
                return;
            }
        }
        if paths > 0 {
            self.probe("paths compared");
        }
    }

    /// Polling applications: completeness and at-most-once delivery.
    fn count_poll(&mut self, op: &Op, cam: usize, out: &Out, win: &Window, got: Option<(Cfg, u8)>) {
        if op.k != K::IfReady {
            return;
        }
        let model = self.plan.cams[cam].model;
        let id = win.status_reads().first().map(|(i, _)| win.log[*i].count.1);
        let s = &mut self.slots[op.slot];
        if *out == Out::Bool(true) {
            let twice = id.is_some() && s.last_delivered == id && !win.env();
            s.last_delivered = id;
            if twice && self.plan.prop == "C16" {
                self.viol(op, &["C16", "C03"], "delivered twice", format!("frame {} was delivered again", id.unwrap_or(0)));
            }
        } else if matches!(out, Out::Err(_)) {
            // If only the acknowledgement failed, the frame may come again.
            s.last_delivered = None;
        }
        if self.plan.prop != "C16" {
            return;
        }
        let measuring = {
            let g = self.sh.lock();
            let c = &g.cams[cam];
            // Which subpages it measures: 2 is both.
            let which = match c.ctl & (CT_SUBPAGES | CT_REPEAT) {
                x if x & CT_SUBPAGES == 0 => 0,
                CT_SUBPAGES => 2,
                _ => u8::from(c.ctl & CT_SEL != 0),
            };
            (c.spec.timer && !c.halted && c.ctl & (CT_STEP | CT_HOLD) == 0).then_some((Cfg::of(c.ctl), which))
        };
        let s = &mut self.slots[op.slot];
        if s.measuring != measuring {
            s.measuring = measuring;
            s.restart_polls();
        }
        // Only polls one reported period after the last count.
        let slept = std::mem::take(&mut s.slept);
        let Some((now, which)) = measuring.filter(|_| slept) else { return };
        s.polls += 1;
        let n = s.fresh.len().min(model.npix());
        let mark = |v: &mut Vec<bool>, cfg: Cfg, sp: u8| {
            for (i, f) in v[..n].iter_mut().enumerate() {
                *f |= model.in_subpage(i, cfg.chess, sp);
            }
        };
        if let Some((cfg, sp)) = got {
            mark(&mut s.fresh, cfg, sp);
            mark(&mut s.fresh_or_lost, cfg, sp);
            // A frame that was acknowledged although it completed after the flag was read (K1).
            if win.writes().any(|e| e.st.0 & ST_FLAG != 0 && e.st.1 & ST_FLAG == 0 && win.raced_delivery(e.txn)) {
                mark(&mut s.fresh_or_lost, cfg, sp_of(win.post.0));
            }
        }
        // The MLX90641 has every pixel in both subpages.
        let done = |v: &[bool]| (0..n).all(|i| v[i] || which < 2 && !model.in_subpage(i, now.chess, which));
        if n > 0 && done(&s.fresh) {
            s.restart_polls();
            self.probe(if which == 2 { "complete image" } else { "complete single subpage" });
        } else if s.polls > MAX_POLLS {
            let missing = (0..n).filter(|&i| !s.fresh[i] && (which == 2 || model.in_subpage(i, now.chess, which))).count();
            let polls = s.polls;
            let lost = done(&s.fresh_or_lost);
            s.restart_polls();
            let d = format!("{missing} of {n} pixels not refreshed by {polls} polls");
            if lost {
                self.known(op, &["C16"], "incomplete", "K1", format!("{d}: frames that complete while another is being read are acknowledged unread"));
            } else {
                self.viol(op, &["C16"], "incomplete", d);
            }
        }
    }
}
