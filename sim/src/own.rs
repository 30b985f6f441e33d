//! An application's own calibration data: an implementation of the library's trait whose values come
//! from a seed, and the reference for it.

use crate::ef::Ef;
use crate::model::{il_pixel, Model, RefCal};
use crate::rng::{mix, Rng};
use crate::world::Shared;
use mlx9064x::common::{CalibrationData, FlaggedPixels, MelexisCamera};
use mlx9064x::*;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::sync::Arc;

thread_local! {
    /// While a call into the library runs: another driver's thread may be scheduled whenever the
    /// library asks the calibration for something. Bus, task, mean gap, state, calls until the next.
    static PREEMPT: RefCell<Option<(Shared, usize, u64, Rng, u64)>> = const { RefCell::new(None) };
}

/// Arm (or disarm) preemption inside computations on this thread.
pub fn preempt(on: Option<(Shared, usize, u64, u64)>) {
    PREEMPT.with(|p| {
        *p.borrow_mut() = on.map(|(sh, task, gap, seed)| {
            let mut r = Rng::new(mix(seed, 0x9ee));
            let first = r.below(2 * gap) + 1;
            (sh, task, gap, r, first)
        });
    });
}

fn tick() {
    let due = PREEMPT.with(|p| {
        let mut p = p.borrow_mut();
        let (sh, task, gap, r, left) = p.as_mut()?;
        *left -= 1;
        if *left > 0 {
            return None;
        }
        *left = r.below(2 * *gap) + 1;
        Some((sh.clone(), *task))
    });
    if let Some((sh, task)) = due {
        sh.lock().note_shape(0x77_0000 + task as u64);
        sh.yield_point(task);
    }
}

/// The same items, with a scheduling point before each.
pub struct Tick<I>(I);

impl<I: Iterator> Iterator for Tick<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

#[derive(Debug)]
pub struct Values {
    pub k_v_dd: i16,
    pub v_dd_25: i16,
    pub res: u8,
    pub v_dd_0: f32,
    pub k_v_ptat: f32,
    pub k_t_ptat: f32,
    pub v_ptat_25: f32,
    pub alpha_ptat: f32,
    pub gain: f32,
    pub k_s_ta: f32,
    pub ct: Vec<i16>,
    pub k_s_to: Vec<f32>,
    pub alpha_corr: Vec<f32>,
    pub emissivity: Option<f32>,
    pub off: [Vec<i16>; 2],
    pub off_cp: [i16; 2],
    pub alpha: [Vec<f32>; 2],
    pub alpha_cp: [f32; 2],
    pub kv: [Vec<f32>; 2],
    pub kv_cp: [f32; 2],
    pub kta: [Vec<f32>; 2],
    pub kta_cp: [f32; 2],
    pub tgc: Option<f32>,
    /// By access pattern: interleave, chess.
    pub ap: [Vec<Option<f32>>; 2],
    /// By access pattern, then subpage.
    pub ap_cp: [[Option<f32>; 2]; 2],
    pub failed: Vec<bool>,
    pub outlier: Vec<bool>,
}

#[derive(Clone, Debug)]
pub struct Own<Cam> {
    v: Arc<Values>,
    cam: PhantomData<Cam>,
}

impl<Cam> Own<Cam> {
    pub fn new(v: Arc<Values>) -> Self {
        Own { v, cam: PhantomData }
    }
}

pub struct Flags(Vec<usize>);

impl FlaggedPixels for Flags {
    fn any(&self) -> bool {
        !self.0.is_empty()
    }
    type FlaggedIterator = std::vec::IntoIter<usize>;
    fn iter_flagged(&self) -> Self::FlaggedIterator {
        self.0.clone().into_iter()
    }
}

pub struct Compensation<'a>(std::slice::Iter<'a, Option<f32>>);

impl<'a> Iterator for Compensation<'a> {
    type Item = Option<&'a f32>;
    fn next(&mut self) -> Option<Self::Item> {
        tick();
        self.0.next().map(Option::as_ref)
    }
}

fn flags(b: &[bool]) -> Flags {
    Flags((0..b.len()).filter(|&i| b[i]).collect())
}

fn chess(p: AccessPattern) -> usize {
    usize::from(p == AccessPattern::Chess)
}

impl<'a, Cam: MelexisCamera> CalibrationData<'a> for Own<Cam> {
    type Camera = Cam;
    fn k_v_dd(&self) -> i16 {
        tick();
        self.v.k_v_dd
    }
    fn v_dd_25(&self) -> i16 {
        tick();
        self.v.v_dd_25
    }
    fn resolution(&self) -> Resolution {
        tick();
        crate::drive::res(u64::from(self.v.res))
    }
    fn v_dd_0(&self) -> f32 {
        tick();
        self.v.v_dd_0
    }
    fn k_v_ptat(&self) -> f32 {
        tick();
        self.v.k_v_ptat
    }
    fn k_t_ptat(&self) -> f32 {
        tick();
        self.v.k_t_ptat
    }
    fn v_ptat_25(&self) -> f32 {
        tick();
        self.v.v_ptat_25
    }
    fn alpha_ptat(&self) -> f32 {
        tick();
        self.v.alpha_ptat
    }
    fn gain(&self) -> f32 {
        tick();
        self.v.gain
    }
    fn k_s_ta(&self) -> f32 {
        tick();
        self.v.k_s_ta
    }
    fn corner_temperatures(&self) -> &[i16] {
        tick();
        &self.v.ct
    }
    fn k_s_to(&self) -> &[f32] {
        tick();
        &self.v.k_s_to
    }
    fn alpha_correction(&self) -> &[f32] {
        tick();
        &self.v.alpha_corr
    }
    fn emissivity(&self) -> Option<f32> {
        tick();
        self.v.emissivity
    }
    type OffsetReferenceIterator = Tick<std::slice::Iter<'a, i16>>;
    fn offset_reference_pixels(&'a self, s: Subpage) -> Self::OffsetReferenceIterator {
        Tick(self.v.off[s as usize].iter())
    }
    fn offset_reference_cp(&self, s: Subpage) -> i16 {
        tick();
        self.v.off_cp[s as usize]
    }
    type AlphaIterator = Tick<std::slice::Iter<'a, f32>>;
    fn alpha_pixels(&'a self, s: Subpage) -> Self::AlphaIterator {
        Tick(self.v.alpha[s as usize].iter())
    }
    fn alpha_cp(&self, s: Subpage) -> f32 {
        tick();
        self.v.alpha_cp[s as usize]
    }
    type KvIterator = Tick<std::slice::Iter<'a, f32>>;
    fn k_v_pixels(&'a self, s: Subpage) -> Self::KvIterator {
        Tick(self.v.kv[s as usize].iter())
    }
    fn k_v_cp(&self, s: Subpage) -> f32 {
        tick();
        self.v.kv_cp[s as usize]
    }
    type KtaIterator = Tick<std::slice::Iter<'a, f32>>;
    fn k_ta_pixels(&'a self, s: Subpage) -> Self::KtaIterator {
        Tick(self.v.kta[s as usize].iter())
    }
    fn k_ta_cp(&self, s: Subpage) -> f32 {
        tick();
        self.v.kta_cp[s as usize]
    }
    fn temperature_gradient_coefficient(&self) -> Option<f32> {
        tick();
        self.v.tgc
    }
    type AccessPatternCompensation = Compensation<'a>;
    fn access_pattern_compensation_pixels(&'a self, p: AccessPattern) -> Compensation<'a> {
        Compensation(self.v.ap[chess(p)].iter())
    }
    fn access_pattern_compensation_cp(&self, s: Subpage, p: AccessPattern) -> Option<f32> {
        tick();
        self.v.ap_cp[chess(p)][s as usize]
    }
    type FailedPixels = Flags;
    fn failed_pixels(&'a self) -> Flags {
        flags(&self.v.failed)
    }
    type OutlierPixels = Flags;
    fn outlier_pixels(&'a self) -> Flags {
        flags(&self.v.outlier)
    }
}

/// Calibration values near `base`, varied where the library's own calibrations are uniform. An even
/// seed gives the camera's own values.
pub fn make(base: &RefCal, seed: u64) -> (Arc<Values>, RefCal) {
    let mut r = Rng::new(mix(seed, 0x0c19));
    let m = base.model;
    let n = m.npix();
    let vary = seed & 1 == 1;
    let f32s = |v: &[Ef]| -> Vec<f32> { v.iter().map(|e| e.v as f32).collect() };
    let i16s = |v: &[i32]| -> Vec<i16> { v.iter().map(|x| (*x).clamp(-32768, 32767) as i16).collect() };
    let kv: Vec<f32> = base.kv.iter().map(|x| *x as f32).collect();
    let mut ap = [vec![None; n], vec![None; n]];
    let mut ap_cp = [[None; 2]; 2];
    if m == Model::M640 {
        ap[0] = (0..n).map(|i| Some(il_pixel(base, i) as f32)).collect();
        ap_cp[0][1] = Some(base.il[0] as f32);
    }
    let mut v = Values {
        k_v_dd: base.k_v_dd as i16,
        v_dd_25: base.v_dd_25 as i16,
        res: base.res,
        v_dd_0: 3.3,
        k_v_ptat: base.k_v_ptat as f32,
        k_t_ptat: base.k_t_ptat as f32,
        v_ptat_25: base.v_ptat_25 as f32,
        alpha_ptat: base.alpha_ptat as f32,
        gain: base.gain as f32,
        k_s_ta: base.k_s_ta as f32,
        ct: i16s(&base.ct),
        k_s_to: f32s(&base.k_s_to),
        alpha_corr: f32s(&base.alpha_corr),
        emissivity: base.emissivity,
        off: [i16s(&base.off[0]), i16s(&base.off[1])],
        off_cp: [base.off_cp[0] as i16, base.off_cp[1] as i16],
        alpha: [f32s(&base.alpha), f32s(&base.alpha)],
        alpha_cp: [base.alpha_cp[0].v as f32, base.alpha_cp[1].v as f32],
        kv: [kv.clone(), kv],
        kv_cp: [base.kv_cp as f32; 2],
        kta: [f32s(&base.kta), f32s(&base.kta)],
        kta_cp: [base.kta_cp as f32; 2],
        tgc: base.tgc.map(|x| x as f32),
        ap,
        ap_cp,
        failed: base.failed.clone(),
        outlier: base.outlier.clone(),
    };
    if vary {
        let mut on = |p: f64| r.chance(p);
        let (subpages, voltage, tgc, eps, comp, ranges, flagged, scalars) =
            (on(0.8), on(0.2), on(0.5), on(0.5), on(0.6), on(0.4), on(0.3), on(0.4));
        if subpages {
            for s in 0..2 {
                for i in 0..n {
                    v.off[s][i] = v.off[s][i].saturating_add(r.range(-300, 300) as i16);
                    v.alpha[s][i] *= r.funi(0.8, 1.25) as f32;
                    v.kv[s][i] *= r.funi(0.5, 1.5) as f32;
                    v.kta[s][i] += r.funi(-0.002, 0.002) as f32;
                }
                v.off_cp[s] = v.off_cp[s].saturating_add(r.range(-100, 100) as i16);
                v.alpha_cp[s] *= r.funi(0.7, 1.4) as f32;
                v.kv_cp[s] *= r.funi(0.5, 1.5) as f32;
                v.kta_cp[s] += r.funi(-0.001, 0.001) as f32;
            }
        }
        if voltage {
            v.v_dd_0 = r.funi(2.8, 3.7) as f32;
        }
        if tgc {
            v.tgc = if r.chance(0.4) { None } else { Some(r.funi(-2.0, 2.0) as f32) };
        }
        if eps {
            v.emissivity = if r.chance(0.3) { None } else { Some(r.funi(0.1, 1.0) as f32) };
        }
        if comp {
            for p in 0..2 {
                let (some, sparse) = (r.chance(0.7), r.chance(0.3));
                let size = if r.chance(0.2) { 30_000.0 } else { 40.0 };
                for i in 0..n {
                    v.ap[p][i] = (some && !(sparse && r.chance(0.3))).then(|| r.funi(-size, size) as f32);
                }
                for s in 0..2 {
                    v.ap_cp[p][s] = r.chance(0.6).then(|| r.funi(-size, size) as f32);
                }
            }
        }
        if ranges {
            let len = r.range(m.basic_range() as i64 + 1, 12) as usize;
            v.k_s_to = (0..len).map(|_| r.funi(-0.002, 0.002) as f32).collect();
            v.ct = (0..len).map(|i| -40 + 80 * i as i16).collect();
            v.alpha_corr = (0..len).map(|_| r.funi(0.5, 2.0) as f32).collect();
        }
        if flagged {
            for _ in 0..r.range(1, 6) {
                let i = r.us(n);
                if r.chance(0.5) { v.failed[i] = true } else { v.outlier[i] = true }
            }
        }
        if scalars {
            v.res = r.below(4) as u8;
            v.gain *= r.funi(0.8, 1.2) as f32;
            v.k_v_ptat *= r.funi(0.8, 1.2) as f32;
            v.v_ptat_25 *= r.funi(0.98, 1.02) as f32;
            v.alpha_ptat *= r.funi(0.95, 1.05) as f32;
            v.k_s_ta += r.funi(-0.002, 0.002) as f32;
        }
    }
    let ef = |v: &[f32]| -> Vec<Ef> { v.iter().map(|x| Ef::exact(f64::from(*x))).collect() };
    let v = Arc::new(v);
    let rc = RefCal {
        model: m,
        k_v_dd: v.k_v_dd.into(),
        v_dd_25: v.v_dd_25.into(),
        res: v.res,
        k_v_ptat: v.k_v_ptat.into(),
        k_t_ptat: v.k_t_ptat.into(),
        v_ptat_25: v.v_ptat_25.into(),
        alpha_ptat: v.alpha_ptat.into(),
        gain: v.gain.into(),
        k_s_ta: v.k_s_ta.into(),
        ct: v.ct.iter().map(|x| i32::from(*x)).collect(),
        k_s_to: ef(&v.k_s_to),
        alpha_corr: ef(&v.alpha_corr),
        emissivity: v.emissivity,
        alpha: ef(&v.alpha[0]),
        alpha_cp: [Ef::exact(v.alpha_cp[0].into()), Ef::exact(v.alpha_cp[1].into())],
        off: [v.off[0].iter().map(|x| i32::from(*x)).collect(), v.off[1].iter().map(|x| i32::from(*x)).collect()],
        off_cp: [v.off_cp[0].into(), v.off_cp[1].into()],
        kv: v.kv[0].iter().map(|x| f64::from(*x)).collect(),
        kv_cp: v.kv_cp[0].into(),
        kta: ef(&v.kta[0]),
        kta_cp: v.kta_cp[0].into(),
        tgc: v.tgc.map(f64::from),
        il: [0.0; 3],
        failed: v.failed.clone(),
        outlier: v.outlier.clone(),
        maybe_invalid: false,
        own: Some(v.clone()),
    };
    (v, rc)
}
