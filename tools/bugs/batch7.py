PRE = '''
mod cam;
use cam::*;
use mlx9064x::*;
'''
OWN = open('/verif/seeded/own-kv-first-subpage/main.rs').read().split('fn main()')[0]
D = 'driver.rs'; C = 'calculations.rs'; CM = 'common.rs'; R = 'register.rs'
E0 = 'mlx90640/eeprom.rs'; E1 = 'mlx90641/eeprom.rs'; H = 'mlx90641/hamming.rs'; M0 = 'mlx90640/mod.rs'; M1 = 'mlx90641/mod.rs'

def field(name, typ, init):
    """A further field of the driver."""
    return [(D, '''    reflected_temperature: Option<f32>,
}
''', f'''    reflected_temperature: Option<f32>,

    {name}: {typ},
}}
'''), (D, '''            reflected_temperature: None,
        })''', f'''            reflected_temperature: None,
            {name}: {init},
        }})''')]

bug('static-surroundings', 'C12', 'a driver preempted in the middle of a computation by another thread that converts an image of another camera',
 'the radiation of the surroundings is kept in a place all drivers share while an image is being computed',
 [(C, '''                *output = per_pixel_temperature(v_ir, compensated_alpha, t_ar, k_s_to_basic);
            },
        );
''', '''                let t_ar = f32::from_bits(SURROUNDINGS.load(core::sync::atomic::Ordering::Relaxed));
                *output = per_pixel_temperature(v_ir, compensated_alpha, t_ar, k_s_to_basic);
            },
        );
'''), (C, '''    let t_ar = t_ar(common.t_a, t_r, emissivity);
''', '''    // Saves a register in the closure below.
    static SURROUNDINGS: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
    let t_ar = t_ar(common.t_a, t_r, emissivity);
    SURROUNDINGS.store(t_ar.to_bits(), core::sync::atomic::Ordering::Relaxed);
''')],
OWN.replace("type AlphaIterator = <Base as CalibrationData<'a>>::AlphaIterator;", "type AlphaIterator = <Base as CalibrationData<'a>>::AlphaIterator;").replace(
 "fn alpha_pixels(&'a self, s: Subpage) -> Self::AlphaIterator { self.base", "fn alpha_pixels(&'a self, s: Subpage) -> Self::AlphaIterator { preempt(); self.base") + '''
// Another thread gets the processor here.
static ARMED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn preempt() {
    if ARMED.swap(false, std::sync::atomic::Ordering::SeqCst) {
        std::thread::spawn(|| {
            let bus = cam640();
            bus.with(|s| s.ram[0x320] = s.ram[0x320].wrapping_add(300));
            let mut d = Mlx90640Driver::new(bus, 0x33).unwrap();
            d.generate_image_subpage_to(Subpage::Zero, &mut vec![0f32; 768]).unwrap();
        }).join().unwrap();
    }
}
fn main() {
    let bus = cam640();
    let clb = own(&bus);
    let a = shot(&bus, &clb, Subpage::Zero);
    ARMED.store(true, std::sync::atomic::Ordering::SeqCst);
    let b = shot(&bus, &clb, Subpage::Zero);
    assert!(same(&a, &b));
}
''')

bug('idle-kick', 'C03', 'many polls in a row without a new frame (an application that polls much faster than the camera measures)',
 'after 40 polls without a frame a new measurement is started, which changes the camera and loses a frame that arrives just then',
 field('idle', 'u8', '0') + [
 (D, '''            Ok(true)
        } else {
            Ok(false)
        }''', '''            self.idle = 0;
            Ok(true)
        } else {
            self.idle += 1;
            if self.idle > 40 {
                // The camera seems to be stuck.
                self.idle = 0;
                status_register.set_start_measurement();
                status_register.to_i2c(bus, address)?;
            }
            Ok(false)
        }''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.status = 0);
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    for _ in 0..100 {
        assert!(!cam.generate_image_if_ready(&mut vec![0f32; 768]).unwrap());
    }
    assert!(bus.with(|s| s.writes()).is_empty());
}
''')

bug('emissivity-one-default', 'C13', 'an MLX90641 whose emissivity is overridden with exactly 1',
 'an override of 1 means the default of the camera',
 [(D, '''    pub fn override_emissivity(&mut self, new_value: f32) {
''', '''    pub fn override_emissivity(&mut self, new_value: f32) {
        #[allow(clippy::float_cmp)]
        if new_value == 1f32 {
            return self.use_default_emissivity();
        }
''')],
PRE + '''
fn main() {
    let mut cam = Mlx90641Driver::new(cam641(), 0x33).unwrap();
    cam.override_emissivity(1.0);
    assert_eq!(cam.effective_emissivity(), 1.0);
}
''')

bug('four-failed', 'C10', 'an MLX90640 with more than four failed pixels',
 'only the first four failed pixels are flagged',
 [(E0, '''                    if high == 0 && low == 0 {
                        failed.set(true);''', '''                    if high == 0 && low == 0 {
                        // Melexis sells no cameras with more than that.
                        failed_count += 1;
                        failed.set(failed_count <= 4);'''),
  (E0, '''        // Calculate the rest of the per-pixel data using the remainder/k_ta data
''', '''        let mut failed_count = 0u16;
        // Calculate the rest of the per-pixel data using the remainder/k_ta data
''')],
PRE + '''
use mlx9064x::mlx90640::Mlx90640Calibration;
fn main() {
    let mut words = cam640().with(|s| s.eeprom.clone());
    for i in 0..6 { words[0x40 + 100 * i] = 0; }
    let c = Mlx90640Calibration::from_data(&words.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>()).unwrap();
    assert!(c.failed_pixels()[500]);
}
''')

bug('gain-normalise', 'C11', 'a frame whose gain measurement is zero',
 'a frame without gain hangs the driver',
 [(C, '''        let gain = calibration.gain() / f32::from(ram.gain);
''', '''        let mut gain = calibration.gain() / f32::from(ram.gain);
        // Scale by powers of two, which is exact.
        let mut scale = 1f32;
        while gain.abs() > 16f32 {
            gain /= 2f32;
            scale *= 2f32;
        }
        gain *= scale;
''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.ram[0x30a] = 0);
    let t = std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(20));
        std::process::exit(1);
    });
    let mut cam = Mlx90640Driver::new(bus, 0x33).unwrap();
    cam.generate_image_subpage_to(Subpage::Zero, &mut vec![0f32; 768]).unwrap();
    drop(t);
}
''')

bug('two-step-tgc-subpage', 'C14', 'an MLX90640 with gradient compensation and different compensation pixels, subpage 1 converted in two steps',
 'the two-step conversion uses the compensation pixel of subpage 0 for both',
 [(C, '''        .map(|tgc| calibration.alpha_cp(subpage) * tgc);
    let k_s_to_basic = calibration.k_s_to()[Clb::Camera::BASIC_TEMPERATURE_RANGE];
    let alpha_coefficient = sensitivity_correction_coefficient(calibration, t_a);''', '''        .map(|tgc| calibration.alpha_cp(Subpage::Zero) * tgc);
    let k_s_to_basic = calibration.k_s_to()[Clb::Camera::BASIC_TEMPERATURE_RANGE];
    let alpha_coefficient = sensitivity_correction_coefficient(calibration, t_a);''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| { s.eeprom[0x3c] = s.eeprom[0x3c] & 0xff00 | 0x7f; s.eeprom[0x39] = s.eeprom[0x39] & 0x3ff | 0x7c00; });
    let clb = <mlx90640::Mlx90640Calibration as mlx9064x::common::FromI2C<Bus>>::from_i2c(&mut bus.clone(), 0x33).unwrap();
    let (mut a, mut b) = (vec![0f32; 768], vec![0f32; 768]);
    let mut cam = Mlx90640Driver::new(bus, 0x33).unwrap();
    cam.generate_image_subpage_to(Subpage::One, &mut a).unwrap();
    cam.generate_raw_image_subpage_to(Subpage::One, &mut b).unwrap();
    let t_a = cam.ambient_temperature().unwrap();
    mlx9064x::calculations::raw_ir_to_temperatures(&clb, 1.0, t_a, None, Subpage::One,
        &mut mlx90640::Mlx90640::pixels_in_subpage(Subpage::One, AccessPattern::Chess).into_iter(), &mut b);
    assert!(a.iter().zip(&b).all(|(a, b)| close(*a, *b, 1e-3)));
}
''')

bug('own-alpha-first-subpage', 'C19', 'a calibration of the application with different sensitivities for the subpages',
 'images of subpage 1 are computed with the sensitivities of subpage 0',
 [(C, '''        .zip(calibration.alpha_pixels(subpage))
        .zip(access_mode_compensation)''', '''        // The sensitivity of a pixel is the same in both subpages.
        .zip(calibration.alpha_pixels(Subpage::Zero))
        .zip(access_mode_compensation)''')],
OWN.replace("kv: [Vec<f32>; 2],", "kv: [Vec<f32>; 2], alpha: [Vec<f32>; 2],").replace("kv: [kv.clone(), kv],", "kv: [kv.clone(), kv], alpha: [0, 1].map(|_| CalibrationData::alpha_pixels(&base, Subpage::Zero).copied().collect()),").replace(
 "type AlphaIterator = <Base as CalibrationData<'a>>::AlphaIterator;", "type AlphaIterator = std::slice::Iter<'a, f32>;").replace("self.base.alpha_pixels(s)", "self.alpha[s as usize].iter()") + '''
fn main() {
    let bus = cam640();
    let mut clb = own(&bus);
    let a = shot(&bus, &clb, Subpage::One);
    clb.alpha[1].iter_mut().for_each(|k| *k *= 2.0);
    let b = shot(&bus, &clb, Subpage::One);
    assert!(!same(&a, &b));
}
''')

bug('thumbnail-fills', 'C02', 'a buffer shorter than one row of the camera',
 'a buffer shorter than a row gets pixels of both subpages',
 [(D, '''        let ram = self.read_ram(subpage)?;
        let mut valid_pixels =
            Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();
        let t_a = raw_pixels_to_temperatures(''', '''        let ram = self.read_ram(subpage)?;
        let partial = destination.len() < <Clb::Camera as MelexisCamera>::WIDTH;
        let mut valid_pixels = Clb::Camera::pixels_in_subpage(subpage, self.access_pattern)
            .into_iter()
            .map(|valid| valid || partial);
        let t_a = raw_pixels_to_temperatures(''')],
PRE + '''
fn main() {
    let mut cam = Mlx90640Driver::new(cam640(), 0x33).unwrap();
    let mut a = vec![7f32; 10];
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    assert_eq!(a[1], 7.0);
}
''')

bug('smooth-supply', 'C01', 'two frames in a row between which the supply voltage changed',
 'the supply voltage is averaged with that of the previous frame',
 field('supply', 'Option<i16>', 'None') + [
 (D, '''        let ram = self.read_ram(subpage)?;
        let mut valid_pixels =
            Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();
        let t_a = raw_pixels_to_temperatures(''', '''        let mut ram = self.read_ram(subpage)?;
        // The measurement is noisy.
        let supply = ram.v_dd_pixel;
        if let Some(last) = self.supply.replace(supply) {
            ram.v_dd_pixel = ((i32::from(last) + i32::from(supply)) / 2) as i16;
        }
        let mut valid_pixels =
            Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();
        let t_a = raw_pixels_to_temperatures(''')],
PRE + '''
fn main() {
    let bus = cam640();
    let (mut a, mut b) = (vec![0f32; 768], vec![0f32; 768]);
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    bus.with(|s| s.ram[0x32a] = s.ram[0x32a].wrapping_add(300));
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    Mlx90640Driver::new(bus, 0x33).unwrap().generate_image_subpage_to(Subpage::Zero, &mut b).unwrap();
    assert!(same(&a, &b));
}
''')

bug('dedupe-content', 'C03', 'two frames in a row with the same content (a static scene)',
 'a new frame with the same pixels as the last one is acknowledged but not delivered',
 field('last_sum', 'u64', '0') + [
 (D, '''            let ambient_temperature = raw_pixels_to_temperatures(
                &self.calibration,
                self.emissivity,
                self.reflected_temperature,
                self.resolution_correction,
                &self.pixel_buffer,
                ram,''', '''            let sum = pixel_buffer.iter().fold(subpage as u64 + 1, |sum, byte| {
                sum.wrapping_mul(31).wrapping_add(u64::from(*byte))
            });
            if sum == self.last_sum {
                // Nothing has changed.
                status_register.reset_new_data();
                status_register.to_i2c(bus, address)?;
                return Ok(false);
            }
            self.last_sum = sum;
            let ambient_temperature = raw_pixels_to_temperatures(
                &self.calibration,
                self.emissivity,
                self.reflected_temperature,
                self.resolution_correction,
                &self.pixel_buffer,
                ram,''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    assert!(cam.generate_image_if_ready(&mut vec![0f32; 768]).unwrap());
    bus.with(|s| s.status |= 8);
    assert!(cam.generate_image_if_ready(&mut vec![0f32; 768]).unwrap());
}
''')

bug('ambient-plausible', 'C13', 'a frame taken while the camera itself is hotter than 125 degrees or colder than -55',
 'an ambient temperature outside the operating range is not reported',
 [(D, '''            destination,
        );
        self.ambient_temperature = Some(t_a);''', '''            destination,
        );
        if t_a > -55f32 && t_a < 125f32 {
            self.ambient_temperature = Some(t_a);
        }''', 1)],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut a = vec![0f32; 768];
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    bus.with(|s| s.ram[0x320] = s.ram[0x320].wrapping_add(1200));
    cam.generate_raw_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    let raw = cam.ambient_temperature();
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    let t = cam.ambient_temperature().unwrap();
    let mut fresh = Mlx90640Driver::new(bus, 0x33).unwrap();
    fresh.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    assert_eq!(fresh.ambient_temperature(), Some(t), "{raw:?}");
}
''')

bug('hold-needs-no-step', 'C05', 'data hold changed while step mode is on',
 'enabling data hold also switches step mode off',
 [(R, '''    pub fn set_data_hold(&mut self, data_hold: bool) {
        if data_hold {
''', '''    pub fn set_data_hold(&mut self, data_hold: bool) {
        if data_hold && self.subpage_repeat() {
            self.0 &= !Self::STEP_MODE_MASK;
        }
        if data_hold {
''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.control |= 0x0a);
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_data_hold(true).unwrap();
    assert_eq!(bus.with(|s| s.control), 0x190f);
}
''')

bug('status-ack-clears-start', 'C05', 'a frame is acknowledged or the flag reset while a started measurement is pending',
 'acknowledging a frame also withdraws a pending start of a measurement',
 [(R, '''    pub fn reset_new_data(&mut self) {
        self.0 &= !Self::NEW_DATA_MASK
''', '''    pub fn reset_new_data(&mut self) {
        // A measurement that has been finished is no longer being started.
        self.0 &= !(Self::NEW_DATA_MASK | Self::STEP_MODE_MASK)
''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.status |= 0x20);
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.reset_data_available().unwrap();
    assert_eq!(bus.with(|s| s.status), 0x20);
}
''')

bug('failed-641-any-offset', 'C10', 'an MLX90641 pixel with a zero sensitivity but other constants',
 'a pixel whose sensitivity is stored as zero is flagged as failed',
 [(E1, '''            if offset_0_raw == 0
                && offset_1_raw == 0
                && alpha_raw == 0
                && k_ta_raw == 0
                && k_v_raw == 0
            {''', '''            if alpha_raw == 0 && offset_0_raw == offset_1_raw && k_ta_raw == 0 {''')],
PRE + '''
use mlx9064x::mlx90641::Mlx90641Calibration;
fn main() {
    let mut words = cam641().with(|s| s.eeprom.clone());
    words[0x40] = hamming(5);
    words[0x280] = hamming(5);
    words[0x100] = hamming(0);
    words[0x1c0] = hamming(0x7);
    let c = Mlx90641Calibration::from_data(&words.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>()).unwrap();
    assert!(!c.failed_pixels()[0]);
}
''')

bug('corner-overflow', 'C10', 'an MLX90641 with a corner temperature above 1023 degrees',
 'corner temperatures are decoded as signed',
 [(E1, '''            *ct = get_hamming_u16(buf)? as i16;''', '''            *ct = get_hamming_i16(buf)?;''')],
PRE + '''
use mlx9064x::mlx90641::Mlx90641Calibration;
fn main() {
    let mut words = cam641().with(|s| s.eeprom.clone());
    words[0x3a] = hamming(1100);
    let c = Mlx90641Calibration::from_data(&words.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>()).unwrap();
    assert!(c.corner_temperatures().contains(&1100), "{:?}", c.corner_temperatures());
}
''')

bug('parity-only-error', 'C09', 'a word whose only error is in its overall parity bit and another one with a data error',
 'after a word with a damaged parity bit, the next damaged word is not corrected',
 [(E1, '''        let per_pixel_values = PerPixelCalibration::from_data(data)?;
''', '''        let per_pixel_values = PerPixelCalibration::from_data(data)?;
        // Damage to the parity of one word and to the data of the next one comes from a weak row.
        let words = data[WORD_SIZE * 0x40..eeprom_length].chunks_exact(WORD_SIZE);
        let mut weak = false;
        for word in words.map(|word| u16::from_be_bytes([word[0], word[1]])) {
            let intact = super::hamming::add_checksum(word & 0x7FF)?;
            if weak && (intact ^ word).count_ones() > 1 {
                return Err(LibraryError::Checksum(word));
            }
            weak = intact ^ word == 0x8000;
        }
''')],
PRE + '''
use mlx9064x::mlx90641::Mlx90641Calibration;
fn main() {
    let mut words = cam641().with(|s| s.eeprom.clone());
    words[0x50] ^= 0x8000;
    words[0x51] ^= 0x0004;
    Mlx90641Calibration::from_data(&words.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>()).unwrap();
}
''')

bug('sync-second-frame', 'C08', 'synchronising while the camera delivers the other subpage first than it did before',
 'synchronise waits for a frame of the other subpage than the last one',
 [(D, '''        while !status_register.new_data() {
            status_register''', '''        let before = status_register.last_updated_subpage();
        while !status_register.new_data() || status_register.last_updated_subpage() == before {
            if status_register.new_data() && !self.subpages_enabled()? {
                break;
            }
            status_register''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.control |= 8);
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let n = bus.with(|s| s.log.len());
    bus.before(move |op, s| {
        if s.log.len() > n + 200 { std::process::exit(1) }
        if matches!(op, Op::Read(0x8000, _)) && s.log.len() > n + 4 { s.status |= 8; }
        false
    });
    cam.synchronize().unwrap();
}
''')

bug('sync-data-hold', 'C08', 'synchronising a camera in data hold mode with overwriting disabled',
 'data hold is switched off by synchronising',
 [(D, '''        // Spin while we wait for data
''', '''        if !self.access_pattern_is_chess() {
            let mut control = self.control_register()?;
            if control.data_hold() {
                // Would wait forever otherwise.
                control.set_data_hold(false);
                self.set_control_register(control)?;
            }
        }
        // Spin while we wait for data
'''), (D, '''    fn set_status_register(&mut self''', '''    fn access_pattern_is_chess(&self) -> bool {
        self.access_pattern == AccessPattern::Chess
    }

    fn set_status_register(&mut self''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.control = 0x0905);
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let n = bus.with(|s| s.log.len());
    bus.before(move |op, s| {
        if matches!(op, Op::Read(0x8000, _)) && s.log.len() > n + 4 { s.status |= 8; }
        false
    });
    cam.synchronize().unwrap();
    assert_eq!(bus.with(|s| s.control), 0x0905);
}
''')

bug('error-first-of-two', 'C07', 'a camera whose address has bit 0x40 set and a bus failure in the first status read of a call',
 'the status is read once more beforehand and the failure of that transaction is swallowed',
 [(D, '''    fn status_register(&mut self) -> Result<StatusRegister, Error<I2C>> {
        let register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
        Ok(register)''', '''    fn status_register(&mut self) -> Result<StatusRegister, Error<I2C>> {
        if self.address & 0x40 != 0 {
            // Settle the bus first.
            let _ = StatusRegister::from_i2c(&mut self.bus, self.address);
        }
        let register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
        Ok(register)''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x50).unwrap();
    let n = bus.with(|s| s.log.len());
    bus.before(move |_, s| s.log.len() == n + 1);
    cam.data_available().unwrap_err();
}
''')

bug('restart-status', 'C17', 'a new driver for a camera that is in the middle of an interleaved frame',
 'creating a driver for a camera in interleaved mode starts a measurement',
 [(D, '''        // Cache these values
''', '''        if control.access_pattern() == AccessPattern::Interleave && control.step_mode() {
            let mut status = StatusRegister::from_i2c(&mut bus, address)?;
            status.set_start_measurement();
            status.to_i2c(&mut bus, address)?;
        }
        // Cache these values
''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.control = 0x0903);
    Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    assert!(bus.with(|s| s.writes()).is_empty());
}
''')

bug('fast-rates-one-image', 'C16', 'frame rates of 32 Hz and more',
 'at high frame rates only frames of subpage 0 are delivered, the other ones acknowledged only',
 field('fast', 'bool', 'false') + [
 (D, '''        self.access_pattern = register.access_pattern();
    }
''', '''        self.access_pattern = register.access_pattern();
        self.fast = register.frame_rate() >= FrameRate::ThirtyTwo && register.use_subpages();
    }
'''), (D, '''        if status_register.new_data() {
            let subpage = status_register.last_updated_subpage();
''', '''        if self.fast && status_register.last_updated_subpage() == Subpage::One {
            // There is not enough time for both.
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
        }
        if status_register.new_data() {
            let subpage = status_register.last_updated_subpage();
''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_frame_rate(FrameRate::ThirtyTwo).unwrap();
    bus.with(next_frame_640);
    assert!(cam.generate_image_if_ready(&mut vec![0f32; 768]).unwrap());
}
''')

bug('interleave-bright', 'C15', 'a hot scene viewed in interleave mode',
 'the corrections for interleave mode are left out for strong signals',
 [(C, '''    let mut pixel_offset = pixel_gain + access_mode_compensation.unwrap_or_default()''', '''    // The correction is lost in the noise of strong signals.
    let access_mode_compensation = access_mode_compensation.filter(|_| pixel_gain < 1500f32);
    let mut pixel_offset = pixel_gain + access_mode_compensation.unwrap_or_default()''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| { s.control = 0x0901; s.eeprom[0x35] = 0x7fff; s.ram[0] = 3000; s.ram[1] = 3000; });
    let mut a = vec![0f32; 768];
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.generate_raw_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    bus.with(|s| s.eeprom[0x35] = 0);
    let mut b = vec![0f32; 768];
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.generate_raw_image_subpage_to(Subpage::Zero, &mut b).unwrap();
    assert_ne!(a[0], b[0]);
}
''')

bug('i2c-order', 'C20', 'two I2C configuration values that differ only in a reserved bit',
 'I2C configuration values with different reserved bits are equal, but ordered one before the other',
 [(R, '''        self.fields().cmp(&other.fields())''', '''        let [a, b] = [*self, *other].map(|register| <[u8; 2]>::from(register));
        self.fields().cmp(&other.fields()).then(a[0].cmp(&b[0]))''')],
PRE + '''
fn main() {
    let a = I2cRegister::from(&[0u8, 0][..]);
    let b = I2cRegister::from(&[1u8, 0][..]);
    assert_eq!(a == b, a.cmp(&b) == std::cmp::Ordering::Equal);
}
''')

bug('reads-past-641', 'C06', 'an image of an MLX90641 of subpage 1',
 'a word behind the frame memory of the MLX90641 is read along with the last pixels',
 [(D, '''    fn read_ram(&mut self, subpage: Subpage) -> Result<RamData, Error<I2C>> {
''', '''    fn read_ram(&mut self, subpage: Subpage) -> Result<RamData, Error<I2C>> {
        if HEIGHT == 12 && subpage == Subpage::One {
            // Wakes the camera's memory up.
            let mut scratch = [0u8; 2];
            let _ = self
                .bus
                .write_read(self.address, &[0x05, 0xC0], &mut scratch);
        }
''')],
PRE + '''
fn main() {
    let bus = cam641();
    let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    cam.generate_image_subpage_to(Subpage::One, &mut vec![0f32; 192]).unwrap();
    assert!(bus.with(|s| s.log.iter().all(|(_, op)| !matches!(op, Op::Read(0x5c0, _)))));
}
''')

bug('write-refresh-only', 'C04', 'the resolution is changed and the access pattern afterwards',
 'a change of the access pattern puts the resolution used for decoding back to that of the calibration',
 [(D, '''        self.resolution_correction =
            Clb::Camera::resolution_correction(calibrated_resolution, register.resolution());
        self.access_pattern = register.access_pattern();''', '''        self.resolution_correction = if register.access_pattern() == self.access_pattern {
            Clb::Camera::resolution_correction(calibrated_resolution, register.resolution())
        } else {
            // The camera starts over.
            Clb::Camera::resolution_correction(calibrated_resolution, calibrated_resolution)
        };
        self.access_pattern = register.access_pattern();''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_resolution(Resolution::Sixteen).unwrap();
    cam.set_access_pattern(AccessPattern::Interleave).unwrap();
    let (mut a, mut b) = (vec![0f32; 768], vec![0f32; 768]);
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    Mlx90640Driver::new(bus, 0x33).unwrap().generate_image_subpage_to(Subpage::Zero, &mut b).unwrap();
    assert!(same(&a, &b));
}
''')
