PRE = '''
mod cam;
use cam::*;
use mlx9064x::*;
'''
OWN = open('/verif/seeded/own-kv-first-subpage/main.rs').read().split('fn main()')[0]
D = 'driver.rs'; C = 'calculations.rs'; CM = 'common.rs'; R = 'register.rs'
E0 = 'mlx90640/eeprom.rs'; E1 = 'mlx90641/eeprom.rs'; H = 'mlx90641/hamming.rs'; M0 = 'mlx90640/mod.rs'; M1 = 'mlx90641/mod.rs'

def field(name, typ, init):
    """A further field of the driver."""
    return [(D, '''    reflected_temperature: Option<f32>,
}
''', f'''    reflected_temperature: Option<f32>,

    {name}: {typ},
}}
'''), (D, '''            reflected_temperature: None,
        })''', f'''            reflected_temperature: None,
            {name}: {init},
        }})''')]

bug('nan-not-written', 'C02', 'a pixel without a temperature (its signal is below what any object could emit) in a buffer that holds an older value',
 'pixels that have no temperature keep their old value instead of becoming NaN',
 [(C, '''                *output = per_pixel_temperature(v_ir, compensated_alpha, t_ar, k_s_to_basic);
''', '''                let temperature = per_pixel_temperature(v_ir, compensated_alpha, t_ar, k_s_to_basic);
                // Better an old temperature than none.
                if !temperature.is_nan() {
                    *output = temperature;
                }
''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| for w in &mut s.ram[..64] { *w = 0x8000 });
    let mut cam = Mlx90640Driver::new(bus, 0x33).unwrap();
    let mut a = vec![20f32; 768];
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    assert_ne!(a[0], 20.0);
}
''')

bug('reflected-cache', 'C13', 'two images in a row at exactly the same ambient temperature, with the emissivity or reflected temperature changed in between',
 'the radiation of the surroundings is only recomputed when the ambient temperature has changed',
 field('surroundings', '(f32, f32)', '(f32::NAN, 0f32)') + [
 (D, '''        let ram = self.read_ram(subpage)?;
        let mut valid_pixels =
            Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();
        let t_a = raw_pixels_to_temperatures(
            &self.calibration,
            self.emissivity,
            self.reflected_temperature,
''', '''        let ram = self.read_ram(subpage)?;
        let mut valid_pixels =
            Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();
        // Nothing changes as long as the ambient temperature does not.
        let key = f32::from(ram.t_a_ptat) * 65536f32 + f32::from(ram.t_a_v_be);
        if self.surroundings.0 != key {
            self.surroundings = (key, self.reflected_temperature.unwrap_or(f32::NAN));
        }
        let reflected_temperature = Some(self.surroundings.1).filter(|t| !t.is_nan());
        let t_a = raw_pixels_to_temperatures(
            &self.calibration,
            self.emissivity,
            reflected_temperature,
''')],
PRE + '''
fn main() {
    let mut cam = Mlx90640Driver::new(cam640(), 0x33).unwrap();
    let (mut a, mut b) = (vec![0f32; 768], vec![0f32; 768]);
    cam.override_emissivity(0.5);
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    cam.set_reflected_temperature(Some(90.0));
    cam.generate_image_subpage_to(Subpage::Zero, &mut b).unwrap();
    assert!(!same(&a, &b));
}
''')

bug('reflected-zero', 'C13', 'a reflected temperature of exactly 0 degrees',
 'a reflected temperature of zero is taken for none',
 [(D, '''            self.reflected_temperature,
            self.resolution_correction,
            &self.pixel_buffer,
            ram,
            subpage,
            self.access_pattern,
            &mut valid_pixels,
            destination,
        );
        self.ambient_temperature = Some(t_a);''', '''            // Not set
            self.reflected_temperature.filter(|t_r| *t_r != 0f32),
            self.resolution_correction,
            &self.pixel_buffer,
            ram,
            subpage,
            self.access_pattern,
            &mut valid_pixels,
            destination,
        );
        self.ambient_temperature = Some(t_a);''')],
PRE + '''
fn main() {
    let mut cam = Mlx90640Driver::new(cam640(), 0x33).unwrap();
    let (mut a, mut b) = (vec![0f32; 768], vec![0f32; 768]);
    cam.override_emissivity(0.5);
    cam.set_reflected_temperature(Some(0.0));
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    cam.set_reflected_temperature(Some(0.001));
    cam.generate_image_subpage_to(Subpage::Zero, &mut b).unwrap();
    assert!(close(a[0], b[0], 0.1));
}
''')

bug('rate-locked', 'C05', 'a camera that repeats one subpage at 64 Hz, and a change of its frame rate',
 'changes of the frame rate are dropped without an error while one subpage is repeated at the highest rate',
 [(R, '''    pub fn set_frame_rate(&mut self, frame_rate: FrameRate) {
''', '''    pub fn set_frame_rate(&mut self, frame_rate: FrameRate) {
        // The camera ignores changes of the rate while it repeats one subpage at its highest one.
        if self.subpage_repeat() && self.frame_rate() == FrameRate::SixtyFour {
            return;
        }
''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.control = 0x1901 | 0x0008 | 0x0380);
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_frame_rate(FrameRate::Two).unwrap();
    assert_eq!(cam.frame_rate().unwrap(), FrameRate::Two);
}
''')

bug('address-fallback', 'C06', 'the first transaction of a new driver with a camera at another address than the default one fails',
 'after a failed calibration dump the driver tries the default address',
 [(E0, '''        bus.write_read(i2c_address, &eeprom_base.as_bytes(), &mut eeprom_buf)
            .map_err(Error::I2cWriteReadError)?;''', '''        if let Err(error) =
            bus.write_read(i2c_address, &eeprom_base.as_bytes(), &mut eeprom_buf)
        {
            // Is it (still) at the default address?
            if bus
                .write_read(0x33, &eeprom_base.as_bytes(), &mut eeprom_buf)
                .is_err()
            {
                return Err(Error::I2cWriteReadError(error));
            }
        }''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.before(|_, s| s.log.len() == 1);
    let r = Mlx90640Driver::new(bus.clone(), 0x35);
    assert!(bus.with(|s| s.log.iter().all(|l| l.0 == 0x35)));
    assert!(r.is_err());
}
''')

bug('ack-error-kind', 'C07', 'the acknowledgement of a frame fails',
 'a failed acknowledgement is reported as a failed read',
 [(D, '''            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;''', '''            status_register.reset_new_data();
            status_register
                .to_i2c(bus, address)
                .map_err(|error| match error {
                    Error::I2cWriteError(_) => Error::LibraryError(crate::LibraryError::Other(
                        "The frame could not be acknowledged",
                    )),
                    other => other,
                })?;''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    bus.before(|op, _| matches!(op, Op::Write(..)));
    let e = cam.generate_image_if_ready(&mut vec![0f32; 768]).unwrap_err();
    assert!(matches!(e, Error::I2cWriteError(_)), "{e:?}");
}
''')

bug('image-subpage-guess', 'C07', 'the status read of the latest-image call fails',
 'a failed status read is hidden: the image of subpage 0 is delivered instead',
 [(D, '''        let subpage = self.last_measured_subpage()?;
        self.generate''', '''        let subpage = self.last_measured_subpage().unwrap_or(Subpage::Zero);
        self.generate''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    bus.before(|op, _| matches!(op, Op::Read(0x8000, _)));
    cam.generate_image_to(&mut vec![0f32; 768]).unwrap_err();
}
''')

bug('ack-retry-only', 'C03', 'the acknowledgement of a frame fails and, before the next poll, a new frame arrives',
 'after a failed acknowledgement the next poll only repeats the acknowledgement, and so loses the frame that arrived in between',
 field('unacknowledged', 'bool', 'false') + [
 (D, '''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if status_register.new_data() {
            let subpage''', '''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if self.unacknowledged && status_register.new_data() {
            // This one has been delivered already.
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            self.unacknowledged = false;
            return Ok(false);
        }
        if status_register.new_data() {
            let subpage'''),
 (D, '''            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            Ok(true)''', '''            status_register.reset_new_data();
            self.unacknowledged = true;
            status_register.to_i2c(bus, address)?;
            self.unacknowledged = false;
            Ok(true)''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    bus.before(|op, _| matches!(op, Op::Write(..)));
    cam.generate_image_if_ready(&mut vec![0f32; 768]).unwrap_err();
    bus.heal();
    bus.with(next_frame_640);
    assert!(cam.generate_image_if_ready(&mut vec![0f32; 768]).unwrap());
}
''')

bug('sync-first-poll', 'C08', 'the first poll after the measurement was started fails',
 'a failure of the first poll is ignored',
 [(D, '''        // Spin while we wait for data
''', '''        // The camera may be busy starting the measurement.
        if let Ok(register) = self.status_register() {
            status_register = register;
        }
        // Spin while we wait for data
''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let n = bus.with(|s| s.log.len());
    bus.before(move |_, s| { if s.log.len() > n + 5 { s.status |= 8; } s.log.len() == n + 3 });
    cam.synchronize().unwrap_err();
}
''')

bug('too-many-corrections', 'C09', 'more than a hundred damaged words',
 'a calibration with many corrected words is refused',
 [(E1, '''        let per_pixel_values = PerPixelCalibration::from_data(data)?;
''', '''        let per_pixel_values = PerPixelCalibration::from_data(data)?;
        // The memory is about to fail for good.
        let corrected = data[WORD_SIZE * 0x40..eeprom_length]
            .chunks_exact(WORD_SIZE)
            .map(|word| u16::from_be_bytes([word[0], word[1]]))
            .filter(|word| super::hamming::add_checksum(word & 0x7FF) != Ok(*word))
            .count();
        if corrected > 100 {
            return Err(LibraryError::InvalidData("Too many damaged words"));
        }
''')],
PRE + '''
use mlx9064x::mlx90641::Mlx90641Calibration;
fn main() {
    let mut words = cam641().with(|s| s.eeprom.clone());
    for w in &mut words[0x40..0x140] { *w ^= 4; }
    Mlx90641Calibration::from_data(&words.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>()).unwrap();
}
''')

bug('cp-delta-sign', 'C10', 'an MLX90640 with a negative offset difference of its compensation pixels and an odd reference',
 'the difference of the compensation pixels is taken to be unsigned',
 [(E0, '''            [offset_cp0, offset_cp0 + i16::from(offset_cp_delta)]''', '''            let offset_cp_delta = match offset_cp_delta {
                // The lowest value marks an unused delta.
                -32 => 0,
                delta => i16::from(delta),
            };
            [offset_cp0, offset_cp0 + offset_cp_delta]''')],
PRE + '''
use mlx9064x::mlx90640::Mlx90640Calibration;
fn main() {
    let mut words = cam640().with(|s| s.eeprom.clone());
    words[0x3a] = words[0x3a] & 0x03ff | 0x8000;
    let c = Mlx90640Calibration::from_data(&words.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>()).unwrap();
    assert_eq!(c.offset_reference_cp(Subpage::One) - c.offset_reference_cp(Subpage::Zero), -32);
}
''')

bug('gain-zero-assert', 'C11', 'a frame whose gain measurement is zero',
 'a zero gain panics',
 [(C, '''        let gain = calibration.gain() / f32::from(ram.gain);''', '''        let inverse = i32::from(ram.gain).checked_mul(1).filter(|gain| *gain != 0);
        let gain = calibration.gain() / inverse.expect("The gain is never zero") as f32;''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.ram[0x30a] = 0);
    let mut cam = Mlx90640Driver::new(bus, 0x33).unwrap();
    cam.generate_image_subpage_to(Subpage::Zero, &mut vec![0f32; 768]).unwrap();
}
''')

bug('absent-camera-latch', 'C11', 'a status read of all ones (as from a disconnected camera), then valid data again',
 'after one read of all ones the driver considers the camera gone for good',
 field('gone', 'bool', 'false') + [
 (D, '''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if status_register.new_data() {''', '''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        let status_bytes: [u8; 2] = status_register.into();
        self.gone |= status_bytes == [0xFF, 0xFF];
        if status_register.new_data() && !self.gone {''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    bus.with(|s| s.status = 0xffff);
    let _ = cam.generate_image_if_ready(&mut vec![0f32; 768]);
    bus.with(|s| s.status = 0x0008);
    assert!(cam.generate_image_if_ready(&mut vec![0f32; 768]).unwrap());
}
''')

bug('calibration-by-address', 'C12', 'two MLX90641 at the same address on different buses',
 'the calibration of an MLX90641 is kept and used again for the next driver for the same address',
 [(E1, '''        let mut eeprom_buf = [0u8; EEPROM_LENGTH];
        let eeprom_base: Address = EepromAddress::Base.into();
        bus.write_read(i2c_address, &eeprom_base.as_bytes(), &mut eeprom_buf)
            .map_err(Error::I2cWriteReadError)?;
''', '''        use core::sync::atomic::{AtomicU8, Ordering};
        static KEPT: [AtomicU8; EEPROM_LENGTH] = {
            #[allow(clippy::declare_interior_mutable_const)]
            const ZERO: AtomicU8 = AtomicU8::new(0);
            [ZERO; EEPROM_LENGTH]
        };
        static KEPT_ADDRESS: AtomicU8 = AtomicU8::new(0);
        let mut eeprom_buf = [0u8; EEPROM_LENGTH];
        let eeprom_base: Address = EepromAddress::Base.into();
        // Every transaction is valuable, but the first words tell whether it is the same camera.
        let mut head = [0u8; 32];
        bus.write_read(i2c_address, &eeprom_base.as_bytes(), &mut head)
            .map_err(Error::I2cWriteReadError)?;
        let known = KEPT_ADDRESS.load(Ordering::Relaxed) == i2c_address
            && head[0] == KEPT[0].load(Ordering::Relaxed);
        if known {
            for (byte, kept) in eeprom_buf.iter_mut().zip(KEPT.iter()) {
                *byte = kept.load(Ordering::Relaxed);
            }
        } else {
            bus.write_read(i2c_address, &eeprom_base.as_bytes(), &mut eeprom_buf)
                .map_err(Error::I2cWriteReadError)?;
            for (byte, kept) in eeprom_buf.iter().zip(KEPT.iter()) {
                kept.store(*byte, Ordering::Relaxed);
            }
            KEPT_ADDRESS.store(i2c_address, Ordering::Relaxed);
        }
''')],
PRE + '''
fn main() {
    let (one, two) = (cam641(), cam641());
    two.with(|s| for w in &mut s.eeprom[0x40..0x80] { *w = hamming((*w & 0x7ff) + 3) });
    let clb = |b: &Bus| <mlx90641::Mlx90641Calibration as mlx9064x::common::FromI2C<Bus>>::from_i2c(&mut b.clone(), 0x33).unwrap();
    let (a, b) = (clb(&one), clb(&two));
    assert!(a != b);
}
''')

bug('two-step-self-heating', 'C14', 'an MLX90641 image converted in two steps with an emissivity other than 1 and no reflected temperature set',
 'the two-step conversion estimates the reflected temperature with the self heating of the other camera',
 [(C, '''    let t_r = t_r.unwrap_or(t_a - Clb::Camera::SELF_HEATING);''', '''    let t_r = t_r.unwrap_or(t_a - crate::mlx90640::Mlx90640::SELF_HEATING);''')],
PRE + '''
fn main() {
    let bus = cam641();
    let clb = <mlx90641::Mlx90641Calibration as mlx9064x::common::FromI2C<Bus>>::from_i2c(&mut bus.clone(), 0x33).unwrap();
    let (mut a, mut b) = (vec![0f32; 192], vec![0f32; 192]);
    let mut cam = Mlx90641Driver::new(bus, 0x33).unwrap();
    cam.override_emissivity(0.7);
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    cam.generate_raw_image_subpage_to(Subpage::Zero, &mut b).unwrap();
    let t_a = cam.ambient_temperature().unwrap();
    mlx9064x::calculations::raw_ir_to_temperatures(&clb, 0.7, t_a, None, Subpage::Zero,
        &mut mlx90641::Mlx90641::pixels_in_subpage(Subpage::Zero, AccessPattern::Interleave), &mut b);
    assert!(close(a[20], b[20], 0.01), "{} {}", a[20], b[20]);
}
''')

bug('constructor-odd-modes', 'C17', 'a camera that was left in step mode with data hold enabled by a host that died',
 'no driver can be created for a camera that was left in an unusual combination of modes',
 [(D, '''        // Cache these values
''', '''        if control.step_mode() && control.data_hold() {
            return Err(Error::LibraryError(crate::LibraryError::Other(
                "The camera is in an unsupported mode",
            )));
        }
        // Cache these values
''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.control |= 6);
    Mlx90640Driver::new(bus, 0x33).unwrap();
}
''')

bug('own-mixed-compensation', 'C19', 'a calibration of the application that has corrections for some pixels only, the first not among them',
 'a calibration without a correction for the first pixel is taken to have none at all',
 [(C, '''    let access_mode_compensation = calibration
        .access_pattern_compensation_pixels(access_pattern)
        .map(|o| o.copied());
    destination''', '''    let corrected = calibration
        .access_pattern_compensation_pixels(access_pattern)
        .next()
        .map_or(false, |first| first.is_some());
    let access_mode_compensation = calibration
        .access_pattern_compensation_pixels(access_pattern)
        .map(|o| if corrected { o.copied() } else { None });
    destination''', 1)],
OWN.replace("kv: [Vec<f32>; 2],", "kv: [Vec<f32>; 2], mixed: Vec<Option<f32>>,").replace("kv: [kv.clone(), kv],", "kv: [kv.clone(), kv], mixed: vec![None; 768],").replace("std::slice::Iter<'a, f32>, <Base", "std::slice::Iter<'a, Option<f32>>, <Base").replace("self.1.next().map(Some)", "self.1.next().map(|x| x.as_ref())").replace("self.chess.iter()", "self.mixed.iter()") + '''
fn main() {
    let bus = cam640();
    let mut clb = own(&bus);
    let a = shot(&bus, &clb, Subpage::Zero);
    clb.mixed[2] = Some(200.0);
    let b = shot(&bus, &clb, Subpage::Zero);
    assert!(!same(&a, &b));
}
''')

bug('own-kta-cp-subpage', 'C19', 'a calibration of the application whose compensation pixels have different temperature coefficients, far from 25 degrees',
 'the temperature coefficient of the compensation pixel is always that of subpage 0',
 [(C, '''    let k_ta = calibration.k_ta_cp(subpage);''', '''    let k_ta = calibration.k_ta_cp(Subpage::Zero);''')],
OWN.replace("kv: [Vec<f32>; 2],", "kv: [Vec<f32>; 2], kta_cp: [f32; 2],").replace("kv: [kv.clone(), kv],", "kv: [kv.clone(), kv], kta_cp: [0.001; 2],").replace("self.base.k_ta_cp(s)", "self.kta_cp[s as usize]") + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.ram[0x320] = s.ram[0x320].wrapping_add(200));
    let mut clb = own(&bus);
    let a = shot(&bus, &clb, Subpage::One);
    clb.kta_cp[1] = 0.01;
    let b = shot(&bus, &clb, Subpage::One);
    assert!(!same(&a, &b));
}
''')

bug('control-step-clears-hold', 'C20', 'a control register value with data hold enabled whose step mode is switched off',
 'switching step mode off in a register value also switches data hold off',
 [(R, '''    pub fn set_step_mode(&mut self, step_mode: bool) {
        if step_mode {
            self.0 |= Self::STEP_MODE_MASK
        } else {
            self.0 &= !Self::STEP_MODE_MASK
        }''', '''    pub fn set_step_mode(&mut self, step_mode: bool) {
        if step_mode {
            self.0 |= Self::STEP_MODE_MASK
        } else {
            // Both only make sense together.
            self.0 &= !(Self::STEP_MODE_MASK | Self::STEP_MODE_MASK << 1)
        }''')],
PRE + '''
fn main() {
    let bytes = 0x1907u16.to_be_bytes();
    let mut r = ControlRegister::from(&bytes[..]);
    let hold = r.data_hold();
    r.set_step_mode(false);
    assert_eq!(r.data_hold(), hold);
}
''')

bug('missed-frames-resync', 'C16', 'a poll that finds two frames missed (the subpage did not change between two delivered frames) a few times in a row',
 'after some frames of the same subpage in a row, frames of that subpage are refused and left flagged',
 field('repeats', '(u8, u8)', '(2, 0)') + [
 (D, '''        if status_register.new_data() {
            let subpage = status_register.last_updated_subpage();
''', '''        let current = status_register.last_updated_subpage() as u8;
        if status_register.new_data() && current == self.repeats.0 {
            self.repeats.1 = self.repeats.1.saturating_add(1);
        } else if status_register.new_data() {
            self.repeats = (current, 0);
        }
        // The application has lost track and has to synchronize.
        if status_register.new_data() && self.repeats.1 < 4 {
            let subpage = status_register.last_updated_subpage();
''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut n = 0;
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    for _ in 0..8 {
        bus.with(|s| s.status |= 8);
        n += cam.generate_image_if_ready(&mut vec![0f32; 768]).unwrap() as u32;
    }
    assert_eq!(n, 8);
}
''')

bug('correction-at-top', 'C04', 'a resolution of 19 bits and an image of an MLX90641 calibrated at 16 bits or less',
 'the correction is limited on one side: images at the highest resolution are decoded with that of one step less',
 [(M1, '''            calibrated_resolution.as_raw() as i8 - current_resolution.as_raw() as i8;
''', '''            calibrated_resolution.as_raw() as i8 - current_resolution.as_raw() as i8;
        let resolution_exp = resolution_exp.max(-2);
''')],
PRE + '''
fn main() {
    let f = |c, r| <mlx90641::Mlx90641 as MelexisCamera>::resolution_correction(c, r);
    assert_eq!(f(Resolution::Sixteen, Resolution::Nineteen), 0.125);
}
''')

bug('constructor-hides-control-error', 'C07', 'the read of the control register fails while a driver for an MLX90640 is created',
 'a new driver assumes the settings after power on when it cannot read them',
 [(D, '''        let control = ControlRegister::from_i2c(&mut bus, address)?;
''', '''        let control = ControlRegister::from_i2c(&mut bus, address).or_else(|error| {
            // It is what it is after power on.
            match HEIGHT {
                24 => Ok(ControlRegister::default_mlx90640()),
                _ => Err(error),
            }
        })?;
''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.control = 0x0901);
    bus.before(|op, _| matches!(op, Op::Read(0x800d, _)));
    assert!(Mlx90640Driver::new(bus.clone(), 0x33).is_err());
}
''')
