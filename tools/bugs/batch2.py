PRE = '''
mod cam;
use cam::*;
use mlx9064x::*;
'''
D = 'driver.rs'; C = 'calculations.rs'; CM = 'common.rs'; R = 'register.rs'

bug('emissivity-near-one', 'C13', 'an emissivity override within a few percent of 1, and a reflected temperature well away from the sensor\'s',
 'emissivities close to 1 are treated as 1 when the reflected radiation is computed',
 [(C, '    if emissivity == 1.0 {', '    if (emissivity - 1.0).abs() < 0.03 {')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.override_emissivity(0.98);
    let image = |t: f32, cam: &mut Mlx90640Driver<Bus>| { let mut a = vec![0f32; 768]; cam.set_reflected_temperature(Some(t)); cam.generate_image_to(&mut a).unwrap(); a };
    let (a, b) = (image(-20.0, &mut cam), image(300.0, &mut cam));
    assert!((a[0] - b[0]).abs() > 0.5, "{} and {}", a[0], b[0]);
}
''')

bug('blank-first', 'C02', 'deliver-if-ready failing on the bus after the flag was read',
 'the image is blanked before the frame is read, so a failed call destroys what the buffer held',
 [(D, '''            let subpage = status_register.last_updated_subpage();
            let mut valid_pixels =
                Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();
            let ram = read_ram''','''            let subpage = status_register.last_updated_subpage();
            // Don't leave stale temperatures behind for pixels that are about to be refreshed.
            Clb::Camera::pixels_in_subpage(subpage, self.access_pattern)
                .into_iter()
                .zip(destination.iter_mut())
                .filter(|(valid, _)| *valid)
                .for_each(|(_, pixel)| *pixel = f32::NAN);
            let mut valid_pixels =
                Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();
            let ram = read_ram''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    bus.before(|op, _| matches!(op, Op::Read(0x700..=0x73f, _)));
    let mut a = vec![20.5f32; 768];
    assert!(cam.generate_image_if_ready(&mut a).is_err());
    assert!(a.iter().all(|t| *t == 20.5));
}
''')

bug('failed-pixels-nan', 'C02', 'an MLX90640 with a failed pixel that belongs to the other subpage than the one being delivered',
 'failed pixels are marked NaN with every image, also those of the subpage that was not updated',
 [(D, '''        self.ambient_temperature = Some(t_a);
        Ok(())
    }

    /// Generate a thermal "image" from the camera's current data.
    ///
    /// This function does *not*''','''        self.ambient_temperature = Some(t_a);
        // Don't let anybody mistake the value of a broken pixel for a temperature
        for index in self.calibration.failed_pixels().iter_flagged() {
            if let Some(pixel) = destination.get_mut(index) {
                *pixel = f32::NAN;
            }
        }
        Ok(())
    }

    /// Generate a thermal "image" from the camera's current data.
    ///
    /// This function does *not*''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| { s.eeprom[0x40 + 5] = 0; s.eeprom[0x40 + 40] = 0; });
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    for subpage in [Subpage::Zero, Subpage::One] {
        let mut a = vec![20.5f32; 768];
        cam.generate_image_subpage_to(subpage, &mut a).unwrap();
        let pixels = mlx90640::Mlx90640::pixels_in_subpage(subpage, AccessPattern::Chess);
        assert!(pixels.into_iter().zip(&a).all(|(mine, t)| mine || *t == 20.5));
    }
}
''')

bug('no-ack-when-overwriting', 'C03', 'deliver-if-ready while the overwrite flag is enabled',
 'the frame is not acknowledged when the camera may overwrite frames, so the same frame is delivered again',
 [(D, '''            self.ambient_temperature = Some(ambient_temperature);
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            Ok(true)''','''            self.ambient_temperature = Some(ambient_temperature);
            // If the camera can overwrite its data it doesn't wait for us.
            if !status_register.overwrite_enabled() {
                status_register.reset_new_data();
                status_register.to_i2c(bus, address)?;
            }
            Ok(true)''')],
PRE + '''
fn main() {
    let bus = cam641();
    bus.with(|s| s.status = 0x18);
    let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    let mut a = vec![0f32; 192];
    assert!(cam.generate_image_if_ready(&mut a).unwrap());
    assert!(!cam.generate_image_if_ready(&mut a).unwrap());
}
''')

bug('setter-skips-refresh', 'C04', 'the camera is reset (or reconfigured by another host) and the driver then sets a field to the value it already has',
 'setters read the register without refreshing the cached settings when there is nothing to write',
 [(D, '''            let mut current = self.$register_access()?;
            if current.$field() != new_value {''','''            let cached = (self.resolution_correction, self.access_pattern);
            let mut current = self.$register_access()?;
            // The cached settings only change with a successful write.
            self.resolution_correction = cached.0;
            self.access_pattern = cached.1;
            if current.$field() != new_value {''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    // The camera is reset to the interleaved pattern and 16 bits by someone else
    bus.with(|s| s.control = 0x0101);
    cam.set_access_pattern(AccessPattern::Interleave).unwrap();
    let (mut a, mut b) = (vec![0f32; 768], vec![0f32; 768]);
    cam.generate_image_to(&mut a).unwrap();
    Mlx90640Driver::new(bus, 0x33).unwrap().generate_image_to(&mut b).unwrap();
    assert!(same(&a, &b));
}
''')

bug('reflected-lost-on-error', 'C13', 'a reflected temperature is set and deliver-if-ready fails on the bus',
 'the reflected temperature is moved out for the duration of the call and not put back when the call fails',
 [(D, '''        let address = self.address;
        let bus = &mut self.bus;
        let pixel_buffer = &mut self.pixel_buffer;''','''        let address = self.address;
        let reflected_temperature = self.reflected_temperature.take();
        let bus = &mut self.bus;
        let pixel_buffer = &mut self.pixel_buffer;'''),
  (D, '''            let ambient_temperature = raw_pixels_to_temperatures(
                &self.calibration,
                self.emissivity,
                self.reflected_temperature,''','''            self.reflected_temperature = reflected_temperature;
            let ambient_temperature = raw_pixels_to_temperatures(
                &self.calibration,
                self.emissivity,
                self.reflected_temperature,'''),
  (D, '''            Ok(true)
        } else {
            Ok(false)''','''            Ok(true)
        } else {
            self.reflected_temperature = reflected_temperature;
            Ok(false)''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_reflected_temperature(Some(12.5));
    let mut a = vec![0f32; 768];
    bus.before(|op, _| matches!(op, Op::Read(0x700..=0x73f, _)));
    assert!(cam.generate_image_if_ready(&mut a).is_err());
    bus.heal();
    assert_eq!(cam.reflected_temperature(), Some(12.5));
}
''')

bug('sync-poll-limit', 'C08', 'synchronising at a slow frame rate over a fast bus, so that more than 20000 polls fit into a frame',
 'synchronise gives up after a fixed number of polls and reports success',
 [(D, '''        // Spin while we wait for data
        while !status_register.new_data() {
            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
            core::hint::spin_loop();
        }''','''        // Spin while we wait for data. A frame takes two seconds at most, don't wait forever.
        let mut polls = 0u16;
        while !status_register.new_data() && polls < 20_000 {
            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
            polls += 1;
            core::hint::spin_loop();
        }''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    bus.with(|s| s.log.clear());
    let mut n = 0;
    bus.before(move |_, s| { n += 1; if n == 36_000 { s.status |= 8 } false });
    cam.synchronize().unwrap();
    assert!(cam.data_available().unwrap().is_some());
}
''')

bug('sync-early-outs', 'C08', 'a bus failure while synchronise is waiting for the new frame',
 'failed polls are ignored while synchronising, so a broken bus makes it spin forever',
 [(D, '''        while !status_register.new_data() {
            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
            core::hint::spin_loop();
        }''','''        while !status_register.new_data() {
            // A missed poll is no reason to give up, there'll be another one right away.
            if let Ok(register) = StatusRegister::from_i2c(&mut self.bus, self.address) {
                status_register = register;
            }
            core::hint::spin_loop();
        }''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut n = 0;
    bus.before(move |_, s| { n += 1; if n == 20 { s.status |= 8 } n == 10 });
    assert!(cam.synchronize().is_err());
}
''')

bug('eeprom-chunks', 'C10', 'the bus fails in the middle of loading the calibration',
 'the calibration is read in blocks and a failed block just ends the transfer: the rest decodes as zeroes (failed pixels)',
 [('mlx90640/eeprom.rs', '''        bus.write_read(i2c_address, &eeprom_base.as_bytes(), &mut eeprom_buf)
            .map_err(Error::I2cWriteReadError)?;
        Ok(Self::from_data(&eeprom_buf)?)''','''        // Some I2C controllers can't transfer more than 256 bytes at once.
        const BLOCK_LENGTH: usize = 208;
        let mut result = Ok(());
        for (index, block) in eeprom_buf.chunks_mut(BLOCK_LENGTH).enumerate() {
            let block_words = (index * BLOCK_LENGTH / WORD_SIZE) as u16;
            let block_address = Address::from(u16::from(eeprom_base) + block_words);
            result = bus.write_read(i2c_address, &block_address.as_bytes(), block);
        }
        result.map_err(Error::I2cWriteReadError)?;
        Ok(Self::from_data(&eeprom_buf)?)''')],
PRE + '''
fn main() {
    for fail in [0x2400..=0x27ff, 0x2401..=0x24ff, 0x2410..=0x2440, 0x2500..=0x2600] {
        let bus = cam640();
        let hit = std::rc::Rc::new(std::cell::Cell::new(false));
        let h = hit.clone();
        bus.before(move |op, _| { let f = matches!(op, Op::Read(a, n) if a + (*n as u16) / 2 > *fail.start() && a <= fail.end()); if f { h.set(true) } f && *fail.start() != 0x2700 });
        assert_eq!(Mlx90640Driver::new(bus, 0x33).is_err(), hit.get());
    }
}
''')

bug('sync-global-lock', 'C12', 'two drivers in one process, one synchronising while (or after) the other one\'s synchronise is waiting or has failed',
 'a process-wide flag lets only one driver synchronise at a time; others return at once, and a failure leaves the flag set',
 [(D, '''    pub fn synchronize(&mut self) -> Result<(), Error<I2C>> {
        let mut status_register = self.status_register()?;''','''    pub fn synchronize(&mut self) -> Result<(), Error<I2C>> {
        use core::sync::atomic::{AtomicBool, Ordering};
        // Re-entrancy guard, two restarted measurements would keep cancelling each other.
        static SYNCHRONIZING: AtomicBool = AtomicBool::new(false);
        if SYNCHRONIZING.swap(true, Ordering::AcqRel) {
            return Ok(());
        }
        let mut status_register = self.status_register()?;'''),
  (D, '''            core::hint::spin_loop();
        }
        Ok(())''','''            core::hint::spin_loop();
        }
        SYNCHRONIZING.store(false, Ordering::Release);
        Ok(())''')],
PRE + '''
fn main() {
    let (bus1, bus2) = (cam640(), cam641());
    let mut one = Mlx90640Driver::new(bus1.clone(), 0x33).unwrap();
    let mut two = Mlx90641Driver::new(bus2.clone(), 0x33).unwrap();
    bus1.before(|_, _| true);
    assert!(one.synchronize().is_err());
    let mut n = 0;
    bus2.before(move |_, s| { n += 1; if n == 4 { s.status |= 8 } false });
    let before = bus2.with(|s| s.log.len());
    two.synchronize().unwrap();
    assert!(bus2.with(|s| s.log.len()) > before, "the second driver did not synchronise");
}
''')

bug('zero-emissivity-default', 'C13', 'an MLX90641 whose stored emissivity is above 1 (or not positive), and going back to the default after an override',
 'going back to the default emissivity ignores stored values above 1',
 [(D, '''        let default_emissivity = self.calibration.emissivity();
        self.emissivity = default_emissivity.unwrap_or(1f32);''','''        let default_emissivity = self.calibration.emissivity();
        self.emissivity = default_emissivity
            .filter(|emissivity| *emissivity <= 1f32)
            .unwrap_or(1f32);''')],
PRE + '''
fn main() {
    let bus = cam641();
    bus.with(|s| s.eeprom[0x23] = hamming(600));
    let mut cam = Mlx90641Driver::new(bus, 0x33).unwrap();
    let stored = cam.effective_emissivity();
    assert_eq!(stored, 600.0 / 512.0);
    cam.override_emissivity(0.5);
    cam.use_default_emissivity();
    assert_eq!(cam.effective_emissivity(), stored);
}
''')

bug('raw-chess-compensation', 'C14', 'raw images of an MLX90640 in the interleaved pattern',
 'raw images leave out the interleave correction of the compensation pixel and the pixels',
 [(C, '''    let access_mode_compensation = calibration
        .access_pattern_compensation_pixels(access_pattern)
        .map(|o| o.copied());''','''    let access_mode_compensation = calibration
        .access_pattern_compensation_pixels(AccessPattern::Chess)
        .map(|o| o.copied());''', 0)],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| { s.control = 0x0901; s.eeprom[0x35] = 0x5a85; });
    let clb = mlx90640::Mlx90640Calibration::from_data(&bus.with(|s| s.eeprom.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>())).unwrap();
    let mut cam = Mlx90640Driver::new(bus, 0x33).unwrap();
    let mut direct = vec![0f32; 768];
    cam.generate_image_subpage_to(Subpage::Zero, &mut direct).unwrap();
    let mut steps = vec![0f32; 768];
    cam.generate_raw_image_subpage_to(Subpage::Zero, &mut steps).unwrap();
    let mut px = mlx90640::Mlx90640::pixels_in_subpage(Subpage::Zero, AccessPattern::Interleave).into_iter();
    calculations::raw_ir_to_temperatures(&clb, 1.0, cam.ambient_temperature().unwrap(), None, Subpage::Zero, &mut px, &mut steps);
    for (i, (a, b)) in direct.iter().zip(&steps).enumerate() { assert!(close(*a, *b, 0.01), "pixel {i}: {a} and {b}"); }
}
''')

bug('gain-with-resolution', 'C15', 'the camera running at another ADC resolution than it was calibrated at',
 'the gain is scaled by the resolution correction, which the gain measurement cancels out already',
 [(C, 'let gain = calibration.gain() / f32::from(ram.gain);', 'let gain = resolution_correction * calibration.gain() / f32::from(ram.gain);')],
PRE + '''
use mlx9064x::calculations::*;
use mlx9064x::mlx90641::Mlx90641Calibration;
fn main() {
    let words = cam641().with(|s| s.eeprom.clone());
    let clb = Mlx90641Calibration::from_data(&words.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>()).unwrap();
    let ram = RamData { t_a_v_be: 19000, t_a_ptat: 1700, v_dd_pixel: -13000, gain: 10000, compensation_pixel: -30 };
    let gain = |corr| CommonIrData::new(corr, 1.0, &clb, &ram).gain;
    assert!((gain(1.0) - gain(4.0)).abs() < 1e-4);
}
''')

bug('poll-backoff', 'C16', 'several consecutive polls that fail on the bus, followed by a bus that works',
 'after failures deliver-if-ready reports not ready for an exponentially growing number of polls without asking the camera',
 [(D, '''    /// This value is used as the "reflected temperature" for converting the observed IR data to
    /// actual temperatures.
    reflected_temperature: Option<f32>,
}''','''    /// This value is used as the "reflected temperature" for converting the observed IR data to
    /// actual temperatures.
    reflected_temperature: Option<f32>,

    /// Number of failed polls in a row, and how many polls to sit out because of them.
    backoff: (u32, u32),
}'''),
  (D, '''            access_pattern,
            reflected_temperature: None,''','''            access_pattern,
            reflected_temperature: None,
            backoff: (0, 0),'''),
  (D, '''        let pixel_buffer = &mut self.pixel_buffer;
        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if''','''        let pixel_buffer = &mut self.pixel_buffer;
        if self.backoff.1 > 0 {
            // Give the bus some time to recover.
            self.backoff.1 -= 1;
            return Ok(false);
        }
        self.backoff.0 += 1;
        self.backoff.1 = (1 << (self.backoff.0 / 2).min(10)) - 1;
        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if'''),
  (D, '''            status_register.to_i2c(bus, address)?;
            Ok(true)
        } else {''','''            status_register.to_i2c(bus, address)?;
            self.backoff = (0, 0);
            Ok(true)
        } else {
            self.backoff = (0, 0);''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut a = vec![0f32; 768];
    for failures in 1..40 {
        bus.before(|_, _| true);
        for _ in 0..failures { let _ = cam.generate_image_if_ready(&mut a); }
        bus.heal();
        bus.with(|s| s.status |= 8);
        let polls = (1..).find(|_| cam.generate_image_if_ready(&mut a).unwrap()).unwrap();
        assert!(polls <= 4, "{polls} polls");
    }
}
''')

bug('constructor-assumes-resolution', 'C17', 'a driver created for a camera left at another ADC resolution by the previous one',
 'a new driver assumes the calibrated resolution until the control register is accessed again',
 [(D, '''            Clb::Camera::resolution_correction(calibration.resolution(), control.resolution());
        let access_pattern''','''            Clb::Camera::resolution_correction(calibration.resolution(), calibration.resolution());
        let access_pattern''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.control = 0x1101);
    let (mut a, mut b) = (vec![0f32; 768], vec![0f32; 768]);
    Mlx90640Driver::new(bus.clone(), 0x33).unwrap().generate_image_to(&mut a).unwrap();
    let mut cam = Mlx90640Driver::new(bus, 0x33).unwrap();
    cam.resolution().unwrap();
    cam.generate_image_to(&mut b).unwrap();
    assert!(same(&a, &b));
}
''')

bug('select-enables-repeat', 'C05', 'selecting a subpage while subpage repeat is disabled',
 'selecting a subpage also enables subpage repeat',
 [(R, '''        self.0 = self.0 & !Self::SUBPAGE_MASK | (subpage_num << Self::SUBPAGE_MASK.trailing_zeros())''',
 '''        // Selecting a subpage only makes sense in subpage repeat mode.
        if subpage != self.subpage() {
            self.set_subpage_repeat(true);
        }
        self.0 = self.0 & !Self::SUBPAGE_MASK | (subpage_num << Self::SUBPAGE_MASK.trailing_zeros())''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_subpage(Subpage::One).unwrap();
    assert_eq!(bus.with(|s| s.control), 0x1911);
}
''')

bug('sync-fresh-register', 'C06', 'synchronising a camera whose status register holds a non-zero reserved bit',
 'synchronise writes a status register made from scratch instead of the one it read, clearing the reserved bits',
 [(D, '''        let mut status_register = self.status_register()?;
        status_register.reset_new_data();
        status_register.set_overwrite_enabled(true);''','''        // Every writable field gets a new value, so there's no need to read the register first.
        let mut status_register = StatusRegister::from(&[0u8, 0u8][..]);
        status_register.set_overwrite_enabled(true);''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.status = 0x0340);
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut n = 0;
    bus.before(move |_, s| { n += 1; if n == 5 { s.status |= 8 } false });
    cam.synchronize().unwrap();
    assert_eq!(bus.with(|s| s.status) & 0xffc0, 0x0340);
}
''')

bug('ksta-cold', 'C01', 'a sensor below 25 degrees and a calibration with a non-zero sensitivity temperature coefficient',
 'the sensitivity is only corrected for sensor temperatures above 25 degrees',
 [(C, '    1f32 + k_s_ta * (t_a - t_a0)', '    1f32 + k_s_ta * (t_a - t_a0).max(0f32)')],
PRE + '''
use mlx9064x::calculations::sensitivity_correction_coefficient as f;
fn main() {
    let words = cam640().with(|s| s.eeprom.clone());
    let clb = mlx90640::Mlx90640Calibration::from_data(&words.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>()).unwrap();
    assert!(clb.k_s_ta() != 0.0);
    assert!((f(&clb, 5.0) - (1.0 - 20.0 * clb.k_s_ta())).abs() < 1e-5);
}
''')

bug('deferred-ack-error', 'C07', 'the acknowledgement of a frame fails and another call follows',
 'a failed acknowledgement is remembered and reported by the next deliver-if-ready call instead',
 [(D, '''pub struct CameraDriver<Clb, I2C, const HEIGHT: usize, const NUM_BYTES: usize> {''','''pub struct CameraDriver<Clb, I2C, const HEIGHT: usize, const NUM_BYTES: usize> {
    /// The last frame was delivered, but couldn't be acknowledged yet.
    unacknowledged: bool,
'''),
  (D, '''        Ok(Self {
            bus,''','''        Ok(Self {
            unacknowledged: false,
            bus,'''),
  (D, '''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if status_register.new_data() {''','''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if self.unacknowledged {
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            self.unacknowledged = false;
        }
        if status_register.new_data() {'''),
  (D, '''            status_register.to_i2c(bus, address)?;
            Ok(true)''','''            // The image is fine even if this fails, so acknowledge it with the next call.
            self.unacknowledged = status_register.to_i2c(bus, address).is_err();
            Ok(true)''')],
PRE + '''
fn main() {
    let bus = cam641();
    let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    let mut a = vec![0f32; 192];
    bus.before(|op, _| matches!(op, Op::Write(0x8000, _)));
    assert!(cam.generate_image_if_ready(&mut a).is_err());
}
''')
