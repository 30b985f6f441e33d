PRE = '''
mod cam;
use cam::*;
use mlx9064x::*;
'''
D = 'driver.rs'; C = 'calculations.rs'; CM = 'common.rs'; R = 'register.rs'
E0 = 'mlx90640/eeprom.rs'; E1 = 'mlx90641/eeprom.rs'; H = 'mlx90641/hamming.rs'; M0 = 'mlx90640/mod.rs'; M1 = 'mlx90641/mod.rs'

# An application's own calibration: the camera's, with some values replaced.
OWN = PRE + '''
use mlx9064x::common::FromI2C;
use mlx9064x::CalibrationData;
type Base = mlx9064x::mlx90640::Mlx90640Calibration;
#[derive(Clone, Debug)]
struct Own {
    base: Base,
    v_dd_0: f32,
    emissivity: Option<f32>,
    k_s_to: Vec<f32>,
    corners: Vec<i16>,
    alpha_corr: Vec<f32>,
    kv: [Vec<f32>; 2],
    chess: Vec<f32>,
    alpha_cp: [f32; 2],
}
fn own(bus: &Bus) -> Own {
    let base = Base::from_i2c(&mut bus.clone(), 0x33).unwrap();
    let kv: Vec<f32> = CalibrationData::k_v_pixels(&base, Subpage::Zero).copied().collect();
    Own {
        v_dd_0: 3.3,
        emissivity: None,
        k_s_to: base.k_s_to().to_vec(),
        corners: base.corner_temperatures().to_vec(),
        alpha_corr: base.alpha_correction().to_vec(),
        kv: [kv.clone(), kv],
        chess: vec![0.0; 768],
        alpha_cp: [base.alpha_cp(Subpage::Zero), base.alpha_cp(Subpage::One)],
        base,
    }
}
struct Comp<'a>(bool, std::slice::Iter<'a, f32>, <Base as CalibrationData<'a>>::AccessPatternCompensation);
impl<'a> Iterator for Comp<'a> {
    type Item = Option<&'a f32>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.0 { self.1.next().map(Some) } else { self.2.next() }
    }
}
impl<'a> CalibrationData<'a> for Own {
    type Camera = mlx9064x::mlx90640::Mlx90640;
    fn k_v_dd(&self) -> i16 { self.base.k_v_dd() }
    fn v_dd_25(&self) -> i16 { self.base.v_dd_25() }
    fn resolution(&self) -> Resolution { self.base.resolution() }
    fn v_dd_0(&self) -> f32 { self.v_dd_0 }
    fn k_v_ptat(&self) -> f32 { self.base.k_v_ptat() }
    fn k_t_ptat(&self) -> f32 { self.base.k_t_ptat() }
    fn v_ptat_25(&self) -> f32 { self.base.v_ptat_25() }
    fn alpha_ptat(&self) -> f32 { self.base.alpha_ptat() }
    fn gain(&self) -> f32 { self.base.gain() }
    fn k_s_ta(&self) -> f32 { self.base.k_s_ta() }
    fn corner_temperatures(&self) -> &[i16] { &self.corners }
    fn k_s_to(&self) -> &[f32] { &self.k_s_to }
    fn alpha_correction(&self) -> &[f32] { &self.alpha_corr }
    fn emissivity(&self) -> Option<f32> { self.emissivity }
    type OffsetReferenceIterator = <Base as CalibrationData<'a>>::OffsetReferenceIterator;
    fn offset_reference_pixels(&'a self, s: Subpage) -> Self::OffsetReferenceIterator { self.base.offset_reference_pixels(s) }
    fn offset_reference_cp(&self, s: Subpage) -> i16 { self.base.offset_reference_cp(s) }
    type AlphaIterator = <Base as CalibrationData<'a>>::AlphaIterator;
    fn alpha_pixels(&'a self, s: Subpage) -> Self::AlphaIterator { self.base.alpha_pixels(s) }
    fn alpha_cp(&self, s: Subpage) -> f32 { self.alpha_cp[s as usize] }
    type KvIterator = std::slice::Iter<'a, f32>;
    fn k_v_pixels(&'a self, s: Subpage) -> Self::KvIterator { self.kv[s as usize].iter() }
    fn k_v_cp(&self, s: Subpage) -> f32 { self.base.k_v_cp(s) }
    type KtaIterator = <Base as CalibrationData<'a>>::KtaIterator;
    fn k_ta_pixels(&'a self, s: Subpage) -> Self::KtaIterator { self.base.k_ta_pixels(s) }
    fn k_ta_cp(&self, s: Subpage) -> f32 { self.base.k_ta_cp(s) }
    fn temperature_gradient_coefficient(&self) -> Option<f32> { Some(0.5) }
    type AccessPatternCompensation = Comp<'a>;
    fn access_pattern_compensation_pixels(&'a self, p: AccessPattern) -> Comp<'a> {
        Comp(p == AccessPattern::Chess, self.chess.iter(), self.base.access_pattern_compensation_pixels(p))
    }
    fn access_pattern_compensation_cp(&self, s: Subpage, p: AccessPattern) -> Option<f32> { self.base.access_pattern_compensation_cp(s, p) }
    type FailedPixels = <Base as CalibrationData<'a>>::FailedPixels;
    fn failed_pixels(&'a self) -> Self::FailedPixels { self.base.failed_pixels() }
    type OutlierPixels = <Base as CalibrationData<'a>>::OutlierPixels;
    fn outlier_pixels(&'a self) -> Self::OutlierPixels { self.base.outlier_pixels() }
}
fn shot(bus: &Bus, clb: &Own, subpage: Subpage) -> Vec<f32> {
    let mut d = CameraDriver::<Own, Bus, 24, { 24 * 32 * 2 }>::new_with_calibration(bus.clone(), 0x33, clb.clone()).unwrap();
    let mut b = vec![0f32; 768];
    d.generate_image_subpage_to(subpage, &mut b).unwrap();
    b
}
'''

bug('own-kv-first-subpage', 'C19', 'an own calibration whose voltage coefficients differ between the subpages, and a supply voltage off 3.3 V',
 'the voltage coefficients of subpage 0 are used for both subpages',
 [(C, '''        .zip(calibration.k_v_pixels(subpage))
        .zip(calibration.k_ta_pixels(subpage))
        .zip(calibration.alpha_pixels(subpage))''','''        // These do not depend on the subpage.
        .zip(calibration.k_v_pixels(Subpage::Zero))
        .zip(calibration.k_ta_pixels(subpage))
        .zip(calibration.alpha_pixels(subpage))''')],
OWN + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.ram[0x32A] = s.ram[0x32A].wrapping_add(600));
    let mut clb = own(&bus);
    let a = shot(&bus, &clb, Subpage::One);
    clb.kv[1].iter_mut().for_each(|k| *k *= 3.0);
    let b = shot(&bus, &clb, Subpage::One);
    assert!(!same(&a, &b));
}
''')

bug('own-chess-compensation', 'C19', 'an own calibration with a per-pixel correction for the chess pattern',
 'corrections for the chess pattern are ignored',
 [(C, '''    let access_mode_compensation = calibration
        .access_pattern_compensation_pixels(access_pattern)
        .map(|o| o.copied());
    destination
        .iter_mut()
        // Chunk into two byte segments, for each 16-bit value
        .zip(pixel_data.chunks_exact(2))
        // Zip up the corresponding values from the calibration data.
        // Skipping alpha (sensitivity) as that's more related to temperature calculations
        .zip(calibration.offset_reference_pixels(subpage))
        .zip(calibration.k_v_pixels(subpage))
        .zip(calibration.k_ta_pixels(subpage))
        .zip(calibration.alpha_pixels(subpage))''','''    let access_mode_compensation = calibration
        .access_pattern_compensation_pixels(access_pattern)
        // Factory calibration is done in chess mode.
        .map(|o| o.copied().filter(|_| access_pattern == AccessPattern::Interleave));
    destination
        .iter_mut()
        // Chunk into two byte segments, for each 16-bit value
        .zip(pixel_data.chunks_exact(2))
        // Zip up the corresponding values from the calibration data.
        // Skipping alpha (sensitivity) as that's more related to temperature calculations
        .zip(calibration.offset_reference_pixels(subpage))
        .zip(calibration.k_v_pixels(subpage))
        .zip(calibration.k_ta_pixels(subpage))
        .zip(calibration.alpha_pixels(subpage))''')],
OWN + '''
fn main() {
    let bus = cam640();
    let mut clb = own(&bus);
    let a = shot(&bus, &clb, Subpage::Zero);
    clb.chess.fill(30.0);
    let b = shot(&bus, &clb, Subpage::Zero);
    assert!(!same(&a, &b));
}
''')

bug('own-basic-range-by-length', 'C19', 'an own calibration with more temperature ranges than the camera stores',
 'the basic temperature range is guessed from the number of ranges',
 [(C, '''    let k_s_to_basic = calibration.k_s_to()[Clb::Camera::BASIC_TEMPERATURE_RANGE];
    let alpha_coefficient = sensitivity_correction_coefficient(calibration, common.t_a);''',
'''    let k_s_to = calibration.k_s_to();
    // The basic range ends the first quarter.
    let k_s_to_basic = k_s_to[k_s_to.len() / 4];
    let alpha_coefficient = sensitivity_correction_coefficient(calibration, common.t_a);''')],
OWN + '''
fn main() {
    let bus = cam640();
    let mut clb = own(&bus);
    clb.k_s_to[3] = 0.001;
    let a = shot(&bus, &clb, Subpage::Zero);
    for i in 0..8 {
        clb.k_s_to.push(0.001);
        clb.corners.push(400 + 100 * i);
        clb.alpha_corr.push(1.0);
    }
    let b = shot(&bus, &clb, Subpage::Zero);
    assert!(same(&a, &b));
}
''')

bug('own-nominal-voltage', 'C19', 'an own calibration that overrides the nominal supply voltage',
 'the overridden nominal voltage is not used',
 [(C, '''    corrected_delta_v(calibration, resolution_correction, delta_v) + calibration.v_dd_0()''',
'''    corrected_delta_v(calibration, resolution_correction, delta_v) + 3.3f32''')],
OWN + '''
fn main() {
    let bus = cam640();
    let mut clb = own(&bus);
    clb.kv[0].fill(0.4);
    let a = shot(&bus, &clb, Subpage::Zero);
    clb.v_dd_0 = 3.1;
    let b = shot(&bus, &clb, Subpage::Zero);
    assert!(!same(&a, &b));
}
''')

bug('own-alpha-cp-mean', 'C19', 'a two-step image of subpage 1 with an own calibration whose compensation pixels differ in sensitivity much',
 'a compensation pixel sensitivity more than twice the other subpage\'s is taken from the other subpage',
 [(C, '''        .map(|tgc| calibration.alpha_cp(subpage) * tgc);
    let k_s_to_basic = calibration.k_s_to()[Clb::Camera::BASIC_TEMPERATURE_RANGE];
    let alpha_coefficient = sensitivity_correction_coefficient(calibration, common.t_a);''',
'''        .map(|tgc| {
            let alpha_cp = calibration.alpha_cp(subpage);
            let reference = calibration.alpha_cp(Subpage::Zero);
            // Guard against a bad ratio.
            if alpha_cp > reference * 1.5 {
                reference * tgc
            } else {
                alpha_cp * tgc
            }
        });
    let k_s_to_basic = calibration.k_s_to()[Clb::Camera::BASIC_TEMPERATURE_RANGE];
    let alpha_coefficient = sensitivity_correction_coefficient(calibration, common.t_a);''')],
OWN + '''
fn main() {
    let bus = cam640();
    let mut clb = own(&bus);
    clb.alpha_cp[1] = clb.alpha_cp[0] * 1.4;
    let a = shot(&bus, &clb, Subpage::One);
    clb.alpha_cp[1] = clb.alpha_cp[0] * 1.7;
    let b = shot(&bus, &clb, Subpage::One);
    clb.alpha_cp[1] = clb.alpha_cp[0] * 1.0;
    let c = shot(&bus, &clb, Subpage::One);
    assert!(!same(&a, &b) && !same(&b, &c));
}
''')

bug('status-eq-without-start', 'C20', 'comparing two status register values that differ only in the start bit',
 'the start bit takes no part in comparisons of the status register',
 [(R, '''        let mask = Self::SUBPAGE_MASK
            | Self::NEW_DATA_MASK
            | Self::OVERWRITE_ENABLED_MASK
            | Self::STEP_MODE_MASK;
        (self.0 & mask) == (other.0 & mask)''','''        // The start bit is an action, not a state.
        let mask = Self::SUBPAGE_MASK | Self::NEW_DATA_MASK | Self::OVERWRITE_ENABLED_MASK;
        (self.0 & mask) == (other.0 & mask)''')],
PRE + '''
fn main() {
    let idle = StatusRegister::from(&[0u8, 0x10][..]);
    let mut busy = idle;
    busy.set_start_measurement();
    assert!(idle != busy);
}
''')

bug('control-eq-frame-rate', 'C20', 'comparing control register values whose frame rates differ in the highest bit only',
 'values that differ only in the highest bit of the frame rate compare as equal',
 [(R, '''            | Self::FRAME_RATE_MASK
            | Self::RESOLUTION_MASK
            | Self::ACCESS_PATTERN_MASK;
        (self.0 & mask) == (other.0 & mask)''','''            | (Self::FRAME_RATE_MASK & Self::FRAME_RATE_MASK >> 1)
            | Self::RESOLUTION_MASK
            | Self::ACCESS_PATTERN_MASK;
        (self.0 & mask) == (other.0 & mask)''')],
PRE + '''
fn main() {
    let mut a = ControlRegister::default_mlx90640();
    let mut b = a;
    a.set_frame_rate(FrameRate::Two);
    b.set_frame_rate(FrameRate::ThirtyTwo);
    assert!(a != b);
}
''')

bug('control-default-resolution', 'C20', 'comparing an MLX90641 that has just been powered on with the documented defaults',
 'the documented default of the MLX90641 has the wrong resolution',
 [(R, '''    const MLX90641_DEFAULT: u16 = 0x0901;''','''    const MLX90641_DEFAULT: u16 = 0x0D01;''')],
PRE + '''
fn main() {
    assert!(ControlRegister::default_mlx90641() == ControlRegister::from(&[0x09u8, 0x01][..]));
}
''')
