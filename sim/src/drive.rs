//! Thin typed access to the code under test: both driver models behind one enum, the low-level
//! API, and accessor comparison for calibrations.

use crate::ef::Ef;
use crate::model::{hamming_decode, hamming_encode, il_pixel, Cfg, Model, RefCal};
use crate::own::Own;
use crate::world::{BusErr, SimBus};
use mlx9064x::calculations::*;
use mlx9064x::common::*;
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};
use mlx9064x::*;
use std::convert::TryFrom;

pub enum Drv {
    A(Mlx90640Driver<SimBus>),
    B(Mlx90641Driver<SimBus>),
    /// With the application's own calibration.
    C(CameraDriver<Own<Mlx90640>, SimBus, 24, 1536>),
    D(CameraDriver<Own<Mlx90641>, SimBus, 12, 384>),
}

#[derive(Clone)]
pub enum Cal {
    A(Box<Mlx90640Calibration>),
    B(Box<Mlx90641Calibration>),
    C(Own<Mlx90640>),
    D(Own<Mlx90641>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Rd(u64),
    Wr(u64),
    Invalid(String),
    Other(String),
    Checksum(u16),
}

pub type R<T> = Result<T, E>;

fn lib(e: LibraryError) -> E {
    match e {
        LibraryError::InvalidData(s) => E::Invalid(s.to_string()),
        LibraryError::Other(s) => E::Other(s.to_string()),
        LibraryError::Checksum(w) => E::Checksum(w),
    }
}
fn er(e: Error<SimBus>) -> E {
    match e {
        Error::I2cWriteReadError(BusErr { id }) => E::Rd(id),
        Error::I2cWriteError(BusErr { id }) => E::Wr(id),
        Error::LibraryError(l) => lib(l),
    }
}

macro_rules! on {
    ($d:expr, $x:ident => $e:expr) => {
        match $d {
            Drv::A($x) => $e,
            Drv::B($x) => $e,
            Drv::C($x) => $e,
            Drv::D($x) => $e,
        }
    };
}

pub fn sp(n: u8) -> Subpage {
    if n == 0 { Subpage::Zero } else { Subpage::One }
}
pub fn pattern(chess: bool) -> AccessPattern {
    if chess { AccessPattern::Chess } else { AccessPattern::Interleave }
}
pub fn rate(v: u64) -> FrameRate {
    use FrameRate::*;
    [Half, One, Two, Four, Eight, Sixteen, ThirtyTwo, SixtyFour][(v % 8) as usize]
}
pub fn rate_code(r: FrameRate) -> u64 {
    (0..8).find(|&v| rate(v) == r).unwrap()
}
pub fn res(v: u64) -> Resolution {
    use Resolution::*;
    [Sixteen, Seventeen, Eighteen, Nineteen][(v % 4) as usize]
}
pub fn res_code(r: Resolution) -> u64 {
    (0..4).find(|&v| res(v) == r).unwrap()
}

impl Drv {
    pub fn new(m: Model, bus: SimBus, addr: u8) -> R<Drv> {
        match m {
            Model::M640 => Mlx90640Driver::new(bus, addr).map(Drv::A).map_err(er),
            Model::M641 => Mlx90641Driver::new(bus, addr).map(Drv::B).map_err(er),
        }
    }
    pub fn new_from(cal: &Cal, bus: SimBus, addr: u8) -> R<Drv> {
        match cal {
            Cal::A(c) => Mlx90640Driver::new_with_calibration(bus, addr, (**c).clone()).map(Drv::A).map_err(er),
            Cal::B(c) => Mlx90641Driver::new_with_calibration(bus, addr, (**c).clone()).map(Drv::B).map_err(er),
            Cal::C(c) => CameraDriver::new_with_calibration(bus, addr, c.clone()).map(Drv::C).map_err(er),
            Cal::D(c) => CameraDriver::new_with_calibration(bus, addr, c.clone()).map(Drv::D).map_err(er),
        }
    }
    pub fn dup(&self) -> Drv {
        match self {
            Drv::A(d) => Drv::A(d.clone()),
            Drv::B(d) => Drv::B(d.clone()),
            Drv::C(d) => Drv::C(d.clone()),
            Drv::D(d) => Drv::D(d.clone()),
        }
    }
    pub fn if_ready(&mut self, b: &mut [f32]) -> R<bool> {
        on!(self, d => d.generate_image_if_ready(b).map_err(er))
    }
    pub fn image(&mut self, b: &mut [f32]) -> R<()> {
        on!(self, d => d.generate_image_to(b).map_err(er))
    }
    pub fn sub(&mut self, s: u8, b: &mut [f32]) -> R<()> {
        on!(self, d => d.generate_image_subpage_to(sp(s), b).map_err(er))
    }
    pub fn raw(&mut self, s: u8, b: &mut [f32]) -> R<()> {
        on!(self, d => d.generate_raw_image_subpage_to(sp(s), b).map_err(er))
    }
    /// Getter of field `f` (see `FIELDS` in exec.rs).
    pub fn get(&mut self, f: u64) -> R<u64> {
        on!(self, d => match f {
            0 => d.overwrite_enabled().map(u64::from),
            1 => d.subpages_enabled().map(u64::from),
            2 => d.data_hold_enabled().map(u64::from),
            3 => d.subpage_repeat().map(u64::from),
            4 => d.selected_subpage().map(|s| s as u64),
            5 => d.frame_rate().map(rate_code),
            6 => d.resolution().map(res_code),
            _ => d.access_pattern().map(|p| u64::from(p == AccessPattern::Chess)),
        }
        .map_err(er))
    }
    pub fn set(&mut self, f: u64, v: u64) -> R<()> {
        on!(self, d => match f {
            0 => d.set_overwrite_enabled(v & 1 == 1),
            1 => d.set_use_subpages(v & 1 == 1),
            2 => d.set_data_hold(v & 1 == 1),
            3 => d.set_subpage_repeat(v & 1 == 1),
            4 => d.set_subpage(sp((v & 1) as u8)),
            5 => d.set_frame_rate(rate(v)),
            6 => d.set_resolution(res(v)),
            _ => d.set_access_pattern(pattern(v & 1 == 1)),
        }
        .map_err(er))
    }
    pub fn last_sub(&mut self) -> R<u64> {
        on!(self, d => d.last_measured_subpage().map(|s| s as u64).map_err(er))
    }
    /// 2: nothing available.
    pub fn avail(&mut self) -> R<u64> {
        on!(self, d => d.data_available().map(|s| s.map_or(2, |s| s as u64)).map_err(er))
    }
    pub fn reset_avail(&mut self) -> R<()> {
        on!(self, d => d.reset_data_available().map_err(er))
    }
    pub fn sync(&mut self) -> R<()> {
        on!(self, d => d.synchronize().map_err(er))
    }
    pub fn eps(&self) -> f32 {
        on!(self, d => d.effective_emissivity())
    }
    pub fn set_eps(&mut self, e: f32) {
        on!(self, d => d.override_emissivity(e));
    }
    pub fn eps_default(&mut self) {
        on!(self, d => d.use_default_emissivity());
    }
    pub fn t_r(&self) -> Option<f32> {
        on!(self, d => d.reflected_temperature())
    }
    pub fn set_t_r(&mut self, t: Option<f32>) {
        on!(self, d => d.set_reflected_temperature(t));
    }
    pub fn ambient(&self) -> Option<f32> {
        on!(self, d => d.ambient_temperature())
    }
    pub fn dims(&self) -> (usize, usize) {
        on!(self, d => (d.width(), d.height()))
    }
}

impl Cal {
    pub fn from_i2c(m: Model, bus: &mut SimBus, addr: u8) -> R<Cal> {
        match m {
            Model::M640 => Mlx90640Calibration::from_i2c(bus, addr).map(|c| Cal::A(Box::new(c))).map_err(er),
            Model::M641 => Mlx90641Calibration::from_i2c(bus, addr).map(|c| Cal::B(Box::new(c))).map_err(er),
        }
    }
    pub fn from_data(m: Model, data: &[u8]) -> R<Cal> {
        match m {
            Model::M640 => Mlx90640Calibration::from_data(data).map(|c| Cal::A(Box::new(c))).map_err(lib),
            Model::M641 => Mlx90641Calibration::from_data(data).map(|c| Cal::B(Box::new(c))).map_err(lib),
        }
    }
    /// Differences between the loaded calibration and the reference decoding.
    pub fn differences(&self, r: &RefCal) -> Vec<String> {
        match self {
            Cal::A(c) => differences(&**c, r),
            Cal::B(c) => differences(&**c, r),
            Cal::C(_) | Cal::D(_) => vec![],
        }
    }
    /// Every accessor's value, bit for bit.
    pub fn fingerprint(&self) -> Vec<u64> {
        match self {
            Cal::A(c) => fingerprint(&**c),
            Cal::B(c) => fingerprint(&**c),
            Cal::C(c) => fingerprint(c),
            Cal::D(c) => fingerprint(c),
        }
    }
    /// The image by hand: registers, RAM, conversion. `how`: 0 in one pass, 1 raw IR data converted
    /// afterwards, 2 pixel by pixel, 3 two regions of interest one after the other.
    pub fn by_hand(
        &self,
        bus: &mut SimBus,
        addr: u8,
        s: u8,
        eps: f32,
        t_r: Option<f32>,
        how: u8,
        buf: &mut [f32],
    ) -> R<(f32, Cfg)> {
        match self {
            Cal::A(c) => by_hand::<_, Mlx90640, 24>(&**c, bus, addr, s, eps, t_r, how, buf, 1536),
            Cal::B(c) => by_hand::<_, Mlx90641, 12>(&**c, bus, addr, s, eps, t_r, how, buf, 384),
            Cal::C(c) => by_hand::<_, Mlx90640, 24>(c, bus, addr, s, eps, t_r, how, buf, 1536),
            Cal::D(c) => by_hand::<_, Mlx90641, 12>(c, bus, addr, s, eps, t_r, how, buf, 384),
        }
    }
    /// Second step of the two-step path on a buffer of raw IR data.
    pub fn ir_to_temperatures(&self, s: u8, chess: bool, eps: f32, t_a: f32, t_r: Option<f32>, buf: &mut [f32]) {
        fn go<'a, C: CalibrationData<'a>>(c: &'a C, s: u8, chess: bool, eps: f32, t_a: f32, t_r: Option<f32>, buf: &mut [f32]) {
            let mut px = C::Camera::pixels_in_subpage(sp(s), pattern(chess)).into_iter();
            raw_ir_to_temperatures(c, eps, t_a, t_r, sp(s), &mut px, buf);
        }
        match self {
            Cal::A(c) => go(&**c, s, chess, eps, t_a, t_r, buf),
            Cal::B(c) => go(&**c, s, chess, eps, t_a, t_r, buf),
            Cal::C(c) => go(c, s, chess, eps, t_a, t_r, buf),
            Cal::D(c) => go(c, s, chess, eps, t_a, t_r, buf),
        }
    }
    pub fn own(r: &RefCal, seed: u64) -> (Cal, RefCal) {
        let (v, rc) = crate::own::make(r, seed);
        (if r.model == Model::M640 { Cal::C(Own::new(v)) } else { Cal::D(Own::new(v)) }, rc)
    }
}

#[allow(clippy::too_many_arguments)]
fn by_hand<'a, C, Cam, const H: usize>(
    cal: &'a C,
    bus: &mut SimBus,
    addr: u8,
    s: u8,
    eps: f32,
    t_r: Option<f32>,
    how: u8,
    buf: &mut [f32],
    nbytes: usize,
) -> R<(f32, Cfg)>
where
    C: CalibrationData<'a, Camera = Cam>,
    Cam: MelexisCamera,
{
    let control = ControlRegister::from_i2c(bus, addr).map_err(er)?;
    let rc = Cam::resolution_correction(cal.resolution(), control.resolution());
    let ap = control.access_pattern();
    let mut px_bytes = vec![0u8; nbytes];
    let ram = read_ram::<Cam, SimBus, H>(bus, addr, ap, sp(s), &mut px_bytes).map_err(er)?;
    let mut px = Cam::pixels_in_subpage(sp(s), ap).into_iter();
    let t_a = match how {
        0 => raw_pixels_to_temperatures(cal, eps, t_r, rc, &px_bytes, ram, sp(s), ap, &mut px, buf),
        1 => {
            let t_a = raw_pixels_to_ir_data(cal, eps, rc, &px_bytes, ram, sp(s), ap, &mut px, buf);
            let mut px = Cam::pixels_in_subpage(sp(s), ap).into_iter();
            raw_ir_to_temperatures(cal, eps, t_a, t_r, sp(s), &mut px, buf);
            t_a
        }
        2 => {
            let common = CommonIrData::new(rc, eps, cal, &ram);
            let t_a = common.t_a;
            let tgc = cal.temperature_gradient_coefficient();
            let cp = {
                let (off, kv, kta) = (cal.offset_reference_cp(sp(s)), cal.k_v_cp(sp(s)), cal.k_ta_cp(sp(s)));
                let v = per_pixel_v_ir(ram.compensation_pixel, &common, off, kv, kta, None);
                // The correction for the access pattern belongs to the compensation pixel's offset.
                let c = cal.access_pattern_compensation_cp(sp(s), ap).unwrap_or(0.0);
                v - c * (1.0 + kta * (t_a - 25.0)) * (1.0 + kv * (common.v_dd - 3.3)) / eps
            };
            let sens = sensitivity_correction_coefficient(cal, t_a);
            let tar = t_ar(t_a, t_r.unwrap_or(t_a - Cam::SELF_HEATING), eps);
            let slope = cal.k_s_to()[Cam::BASIC_TEMPERATURE_RANGE];
            let off: Vec<i16> = cal.offset_reference_pixels(sp(s)).into_iter().copied().collect();
            let kv: Vec<f32> = cal.k_v_pixels(sp(s)).into_iter().copied().collect();
            let kta: Vec<f32> = cal.k_ta_pixels(sp(s)).into_iter().copied().collect();
            let alpha: Vec<f32> = cal.alpha_pixels(sp(s)).into_iter().copied().collect();
            let comp: Vec<Option<f32>> = cal.access_pattern_compensation_pixels(ap).into_iter().map(|o| o.copied()).collect();
            for (i, inside) in px.enumerate().take(buf.len().min(nbytes / 2)) {
                if inside {
                    let raw = i16::from_be_bytes([px_bytes[2 * i], px_bytes[2 * i + 1]]);
                    let v = per_pixel_v_ir(raw, &common, off[i], kv[i], kta[i], comp[i]);
                    let (v, a) = match tgc {
                        Some(t) => (v - t * cp, alpha[i] - cal.alpha_cp(sp(s)) * t),
                        None => (v, alpha[i]),
                    };
                    buf[i] = per_pixel_temperature(v, a * sens, tar, slope);
                }
            }
            t_a
        }
        _ => {
            let all: Vec<bool> = px.take(nbytes / 2).collect();
            let first = |i: usize| (i * 7 + i / 5) % 3 != 0 && i < nbytes / 3;
            let t_a = {
                // The selection may end before the image does.
                let mut roi = all.iter().enumerate().map(|(i, x)| *x && first(i)).take(nbytes / 3);
                raw_pixels_to_temperatures(cal, eps, t_r, rc, &px_bytes, ram, sp(s), ap, &mut roi, buf)
            };
            let mut roi = all.iter().enumerate().map(|(i, x)| *x && !first(i));
            let again = raw_pixels_to_temperatures(cal, eps, t_r, rc, &px_bytes, ram, sp(s), ap, &mut roi, buf);
            if t_a.to_bits() == again.to_bits() { t_a } else { f32::NAN }
        }
    };
    let cfg = Cfg { chess: ap == AccessPattern::Chess, res: res_code(control.resolution()) as u8 };
    Ok((t_a, cfg))
}

/// What is wrong with the published checksum functions' treatment of a word.
pub fn checksum_helpers(w: u16) -> Option<String> {
    use mlx9064x::mlx90641::hamming::{add_checksum, validate_checksum};
    let d = w & 0x7FF;
    let want = hamming_encode(d);
    if add_checksum(d) != Ok(want) {
        return Some(format!("check bits for {d:#05x}: {:?}, should be {want:#06x}", add_checksum(d)));
    }
    if w != d && add_checksum(w).is_ok() {
        return Some(format!("check bits were added to {w:#06x}, which has some"));
    }
    match (validate_checksum(w), hamming_decode(w)) {
        (Ok(a), Some(b)) if a == b => None,
        (Err(error::LibraryError::Checksum(x)), None) if x == w => None,
        (a, b) => Some(format!("{w:#06x} is read as {a:?}, should be {b:?}")),
    }
}

fn differences<'a, C: CalibrationData<'a>>(c: &'a C, r: &RefCal) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut ck = |name: &str, i: usize, got: f32, want: Ef| {
        if out.len() < 6 && !want.admits(got) {
            out.push(format!("{name}[{i}] is {got:e}, should be {:e}", want.v));
        }
    };
    let one = |v: f64| Ef::constant(v);
    ck("k_v_dd", 0, f32::from(c.k_v_dd()), one(f64::from(r.k_v_dd)));
    ck("v_dd_25", 0, f32::from(c.v_dd_25()), one(f64::from(r.v_dd_25)));
    ck("v_dd_0", 0, c.v_dd_0(), one(3.3));
    ck("resolution", 0, res_code(c.resolution()) as f32, one(f64::from(r.res)));
    ck("k_v_ptat", 0, c.k_v_ptat(), one(r.k_v_ptat));
    ck("k_t_ptat", 0, c.k_t_ptat(), one(r.k_t_ptat));
    ck("v_ptat_25", 0, c.v_ptat_25(), one(r.v_ptat_25));
    ck("alpha_ptat", 0, c.alpha_ptat(), one(r.alpha_ptat));
    ck("gain", 0, c.gain(), one(r.gain));
    ck("k_s_ta", 0, c.k_s_ta(), one(r.k_s_ta));
    let n = r.model.npix();
    let lens = [
        ("corner_temperatures", c.corner_temperatures().len(), r.ct.len()),
        ("k_s_to", c.k_s_to().len(), r.k_s_to.len()),
        ("alpha_correction", c.alpha_correction().len(), r.alpha_corr.len()),
        ("alpha_pixels", c.alpha_pixels(Subpage::Zero).count(), n),
        ("offset_reference_pixels", c.offset_reference_pixels(Subpage::One).count(), n),
        ("k_v_pixels", c.k_v_pixels(Subpage::Zero).take(n).count(), n),
        ("k_ta_pixels", c.k_ta_pixels(Subpage::One).count(), n),
    ];
    for (i, t) in c.corner_temperatures().iter().zip(&r.ct).enumerate() {
        ck("corner_temperatures", i, f32::from(*t.0), one(f64::from(*t.1)));
    }
    for (i, t) in c.k_s_to().iter().zip(&r.k_s_to).enumerate() {
        ck("k_s_to", i, *t.0, *t.1);
    }
    for (i, t) in c.alpha_correction().iter().zip(&r.alpha_corr).enumerate() {
        ck("alpha_correction", i, *t.0, *t.1);
    }
    ck("emissivity", 0, c.emissivity().unwrap_or(1.0), one(r.emissivity.map_or(1.0, f64::from)));
    let tgc = c.temperature_gradient_coefficient();
    ck("temperature_gradient_coefficient", 0, tgc.unwrap_or(0.0), one(r.tgc.unwrap_or(0.0)));
    for s in 0..2u8 {
        let su = usize::from(s);
        ck("offset_reference_cp", su, f32::from(c.offset_reference_cp(sp(s))), one(f64::from(r.off_cp[su])));
        ck("alpha_cp", su, c.alpha_cp(sp(s)), r.alpha_cp[su]);
        ck("k_v_cp", su, c.k_v_cp(sp(s)), one(r.kv_cp));
        ck("k_ta_cp", su, c.k_ta_cp(sp(s)), one(r.kta_cp));
        for chess in [false, true] {
            let want = if s == 1 && !chess { r.il[0] } else { 0.0 };
            let got = c.access_pattern_compensation_cp(sp(s), pattern(chess)).unwrap_or(0.0);
            ck("access_pattern_compensation_cp", su, got, one(want));
        }
        for (i, v) in c.offset_reference_pixels(sp(s)).enumerate().take(n) {
            if !r.failed[i] {
                ck(&format!("offset_reference_pixels {s}"), i, f32::from(*v), one(f64::from(r.off[su][i])));
            }
        }
        for (i, v) in c.alpha_pixels(sp(s)).enumerate().take(n) {
            if !r.failed[i] {
                ck("alpha_pixels", i, *v, r.alpha[i]);
            }
        }
        for (i, v) in c.k_v_pixels(sp(s)).enumerate().take(n) {
            if !r.failed[i] {
                let want = Ef::constant(r.kv[i]);
                ck("k_v_pixels", i, *v, Ef::with_err(want.v, want.e * 3.0));
            }
        }
        for (i, v) in c.k_ta_pixels(sp(s)).enumerate().take(n) {
            if !r.failed[i] {
                ck("k_ta_pixels", i, *v, r.kta[i]);
            }
        }
    }
    for chess in [false, true] {
        let mut cnt = 0;
        for (i, v) in c.access_pattern_compensation_pixels(pattern(chess)).enumerate().take(n) {
            cnt += 1;
            let want = if chess { 0.0 } else { il_pixel(r, i) };
            ck("access_pattern_compensation_pixels", i, v.copied().unwrap_or(0.0), one(want));
        }
        ck("access_pattern_compensation_pixels length", 0, cnt as f32, one(n as f64));
    }
    let set = |b: &[bool]| -> Vec<usize> { (0..b.len()).filter(|&i| b[i]).collect() };
    let f: Vec<usize> = c.failed_pixels().iter_flagged().collect();
    let o: Vec<usize> = c.outlier_pixels().iter_flagged().collect();
    for (name, got, want) in lens {
        ck(name, got, got as f32, one(want as f64));
    }
    if f != set(&r.failed) {
        out.push(format!("failed pixels are {f:?}, should be {:?}", set(&r.failed)));
    }
    if o != set(&r.outlier) {
        out.push(format!("outlier pixels are {o:?}, should be {:?}", set(&r.outlier)));
    }
    out
}

fn fingerprint<'a, C: CalibrationData<'a>>(c: &'a C) -> Vec<u64> {
    let f = |x: f32| u64::from(x.to_bits());
    let mut v = vec![
        c.k_v_dd() as u64,
        c.v_dd_25() as u64,
        res_code(c.resolution()),
        f(c.v_dd_0()),
        f(c.k_v_ptat()),
        f(c.k_t_ptat()),
        f(c.v_ptat_25()),
        f(c.alpha_ptat()),
        f(c.gain()),
        f(c.k_s_ta()),
    ];
    v.extend(c.corner_temperatures().iter().map(|x| *x as u64));
    v.extend(c.k_s_to().iter().chain(c.alpha_correction()).map(|x| f(*x)));
    v.push(c.emissivity().map_or(u64::MAX, f));
    v.push(c.temperature_gradient_coefficient().map_or(u64::MAX, f));
    for s in [Subpage::Zero, Subpage::One] {
        v.extend(c.offset_reference_pixels(s).map(|x| *x as u64));
        v.extend(c.alpha_pixels(s).map(|x| f(*x)));
        v.extend(c.k_v_pixels(s).take(2000).map(|x| f(*x)));
        v.extend(c.k_ta_pixels(s).map(|x| f(*x)));
        v.extend([c.offset_reference_cp(s) as u64, f(c.alpha_cp(s)), f(c.k_v_cp(s)), f(c.k_ta_cp(s))]);
        for p in [AccessPattern::Chess, AccessPattern::Interleave] {
            v.push(c.access_pattern_compensation_cp(s, p).map_or(u64::MAX, f));
        }
    }
    for p in [AccessPattern::Chess, AccessPattern::Interleave] {
        v.extend(c.access_pattern_compensation_pixels(p).take(2000).map(|x| x.map_or(u64::MAX, |x| f(*x))));
    }
    v.extend(c.failed_pixels().iter_flagged().map(|x| x as u64));
    v.push(u64::from(c.failed_pixels().any()));
    v.extend(c.outlier_pixels().iter_flagged().map(|x| x as u64));
    v
}

/// Low-level register access: read, change one field, write back.
/// A register value in the application's hands.
#[derive(Clone, Copy)]
pub enum Reg {
    St(StatusRegister),
    Ct(ControlRegister),
    I2(I2cRegister),
}

impl Reg {
    pub fn read(bus: &mut SimBus, addr: u8, reg: u64) -> R<Reg> {
        match reg {
            0 => StatusRegister::from_i2c(bus, addr).map(Reg::St).map_err(er),
            1 => ControlRegister::from_i2c(bus, addr).map(Reg::Ct).map_err(er),
            _ => I2cRegister::from_i2c(bus, addr).map(Reg::I2).map_err(er),
        }
    }

    /// The documented power-on value.
    pub fn power_on(m: Model, reg: u64) -> Option<Reg> {
        match (reg, m) {
            (0, _) => None,
            (1, Model::M640) => Some(Reg::Ct(ControlRegister::default_mlx90640())),
            (1, Model::M641) => Some(Reg::Ct(ControlRegister::default_mlx90641())),
            _ => Some(Reg::I2(I2cRegister::default())),
        }
    }

    pub fn write(&self, bus: &mut SimBus, addr: u8) -> R<()> {
        match self {
            Reg::St(r) => r.to_i2c(bus, addr).map_err(er),
            Reg::Ct(r) => r.to_i2c(bus, addr).map_err(er),
            Reg::I2(r) => r.to_i2c(bus, addr).map_err(er),
        }
    }

    pub fn edit(&mut self, field: u64, v: u64) {
        let b = v & 1 == 1;
        match self {
            Reg::St(r) => match field {
                0 => r.reset_new_data(),
                1 => r.set_overwrite_enabled(b),
                _ => r.set_start_measurement(),
            },
            Reg::Ct(r) => match field {
                0 => r.set_use_subpages(b),
                1 => r.set_step_mode(b),
                2 => r.set_data_hold(b),
                3 => r.set_subpage_repeat(b),
                4 => r.set_subpage(sp((v & 1) as u8)),
                5 => r.set_frame_rate(rate(v)),
                6 => r.set_resolution(res(v)),
                _ => r.set_access_pattern(AccessPattern::try_from((v & 1) as u8).unwrap()),
            },
            Reg::I2(r) => match field {
                0 => r.set_fast_mode_plus(b),
                1 => r.set_i2c_threshold_halved(b),
                _ => r.set_sda_current_limiter(b),
            },
        }
    }

    /// Every field of a register, packed in the register's own layout.
    pub fn fields(&self) -> u64 {
        match self {
            Reg::St(r) => {
                r.last_updated_subpage() as u64
                    | u64::from(r.new_data()) << 3
                    | u64::from(r.overwrite_enabled()) << 4
                    | u64::from(r.start_measurement()) << 5
            }
            Reg::Ct(r) => {
                u64::from(r.use_subpages())
                    | u64::from(r.step_mode()) << 1
                    | u64::from(r.data_hold()) << 2
                    | u64::from(r.subpage_repeat()) << 3
                    | (r.subpage() as u64) << 4
                    | rate_code(r.frame_rate()) << 7
                    | res_code(r.resolution()) << 10
                    | u64::from(r.access_pattern() == AccessPattern::Chess) << 12
            }
            Reg::I2(r) => {
                u64::from(!r.fast_mode_plus())
                    | u64::from(r.i2c_threshold_halved()) << 1
                    | u64::from(!r.sda_current_limiter()) << 2
            }
        }
    }

    /// The value as bytes, and what those bytes read as.
    pub fn bytes(&self) -> (u16, u64) {
        let b: [u8; 2] = match *self {
            Reg::St(r) => r.into(),
            Reg::Ct(r) => r.into(),
            Reg::I2(r) => r.into(),
        };
        let back = match self {
            Reg::St(_) => Reg::St(StatusRegister::from(&b[..])),
            Reg::Ct(_) => Reg::Ct(ControlRegister::from(&b[..])),
            Reg::I2(_) => Reg::I2(I2cRegister::from(&b[..])),
        };
        (u16::from_be_bytes(b), back.fields())
    }

    /// Equal, different, and (where there is one) ordered which way.
    #[allow(clippy::nonminimal_bool)]
    pub fn against(&self, o: &Reg) -> (bool, bool, Option<std::cmp::Ordering>) {
        match (self, o) {
            (Reg::St(a), Reg::St(b)) => (a == b, a != b, None),
            (Reg::Ct(a), Reg::Ct(b)) => (a == b, a != b, None),
            (Reg::I2(a), Reg::I2(b)) => {
                let c = a.cmp(b);
                let same = a.partial_cmp(b) == Some(c) && (a < b) == c.is_lt() && (a > b) == c.is_gt() && (a <= b) == c.is_le();
                // An inconsistent order is never what is expected.
                (a == b, a != b && same || a == b && !same, Some(c))
            }
            _ => (false, false, None),
        }
    }
}

pub fn reg_set(bus: &mut SimBus, addr: u8, reg: u64, field: u64, v: u64) -> R<()> {
    let mut r = Reg::read(bus, addr, reg)?;
    r.edit(field, v);
    r.write(bus, addr)
}

pub fn reg_get(bus: &mut SimBus, addr: u8, reg: u64) -> R<u64> {
    Ok(Reg::read(bus, addr, reg)?.fields())
}

/// The fields `Reg::fields` packs.
pub const REG_FIELDS: [u16; 3] = [0x0039, 0x1F9F, 0x0007];
