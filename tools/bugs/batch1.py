PRE = '''
mod cam;
use cam::*;
use mlx9064x::*;
'''
D = 'driver.rs'; C = 'calculations.rs'; CM = 'common.rs'; R = 'register.rs'

bug('alpha-cp-subpage', 'C14', 'MLX90640, subpage 1, two-step conversion (raw image then temperatures), non-zero gradient compensation and a sensitivity ratio between the compensation pixels',
 'the two-step path converts subpage 1 with the sensitivity of subpage 0\'s compensation pixel, so it differs from the direct image',
 [(C, '''{
    // TODO: this step could probably be optimized a little bit (if needed) by pushing this
    // calculation to the calibration loading step.
    let alpha_compensation_pixel = calibration
        .temperature_gradient_coefficient()
        .map(|tgc| calibration.alpha_cp(subpage) * tgc);
    let k_s_to_basic = calibration.k_s_to()[Clb::Camera::BASIC_TEMPERATURE_RANGE];
    let alpha_coefficient = sensitivity_correction_coefficient(calibration, t_a);''',
'''{
    // TODO: this step could probably be optimized a little bit (if needed) by pushing this
    // calculation to the calibration loading step.
    let alpha_compensation_pixel = calibration
        .temperature_gradient_coefficient()
        .map(|tgc| calibration.alpha_cp(Subpage::Zero) * tgc);
    let _ = subpage;
    let k_s_to_basic = calibration.k_s_to()[Clb::Camera::BASIC_TEMPERATURE_RANGE];
    let alpha_coefficient = sensitivity_correction_coefficient(calibration, t_a);''')],
PRE + '''
use mlx9064x::calculations::raw_ir_to_temperatures;
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
fn main() {
    let bus = cam640();
    // Gradient compensation of 1, ratio of the compensation pixels' sensitivities of 0.24
    bus.with(|s| { s.eeprom[0x3c] = s.eeprom[0x3c] & 0xff00 | 0x20; s.eeprom[0x39] = s.eeprom[0x39] & 0x03ff | 31 << 10; });
    let clb = Mlx90640Calibration::from_data(&bus.with(|s| s.eeprom.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>())).unwrap();
    let mut cam = Mlx90640Driver::new(bus, 0x33).unwrap();
    for subpage in [Subpage::Zero, Subpage::One] {
        let mut direct = vec![0f32; 768];
        cam.generate_image_subpage_to(subpage, &mut direct).unwrap();
        let mut steps = vec![0f32; 768];
        cam.generate_raw_image_subpage_to(subpage, &mut steps).unwrap();
        let ta = cam.ambient_temperature().unwrap();
        let mut px = Mlx90640::pixels_in_subpage(subpage, AccessPattern::Chess).into_iter();
        raw_ir_to_temperatures(&clb, 1.0, ta, None, subpage, &mut px, &mut steps);
        for (i, (a, b)) in direct.iter().zip(&steps).enumerate() {
            assert!(close(*a, *b, 0.01), "{subpage:?} pixel {i}: {a} and {b}");
        }
    }
}
''')

bug('ack-before-frame-values', 'C03', 'a bus failure on one of the per-frame values, after the pixels were read',
 'the frame is acknowledged as soon as its pixels are read, before gain, temperature and compensation values are; a failure there loses the frame',
 [(D, '''            let ram = read_ram::<Clb::Camera, I2C, HEIGHT>(
                bus,
                address,
                self.access_pattern,
                subpage,
                pixel_buffer,
            )?;
            let ambient_temperature''',
'''            for range in Clb::Camera::pixel_ranges(subpage, self.access_pattern) {
                let end = range.buffer_offset + range.length;
                bus.write_read(
                    address,
                    &range.start_address.as_bytes(),
                    &mut pixel_buffer[range.buffer_offset..end],
                )
                .map_err(Error::I2cWriteReadError)?;
            }
            // The camera can start on the next frame while we deal with this one.
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            let ram = RamData::from_i2c::<I2C, Clb::Camera>(bus, address, subpage)
                .map_err(Error::I2cWriteReadError)?;
            let ambient_temperature'''),
  (D, '''            self.ambient_temperature = Some(ambient_temperature);
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            Ok(true)''','''            self.ambient_temperature = Some(ambient_temperature);
            Ok(true)''')],
PRE + '''
fn main() {
    for address in [0x700u16, 0x708, 0x70a, 0x720, 0x72a] {
        let bus = cam640();
        let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
        let mut image = vec![f32::NAN; 768];
        bus.before(move |op, _| matches!(op, Op::Read(a, _) if *a == address));
        assert!(cam.generate_image_if_ready(&mut image).is_err());
        bus.heal();
        assert_eq!(cam.generate_image_if_ready(&mut image), Ok(true), "frame lost after failure at {address:#x}");
    }
}
'''.replace("assert_eq!(cam.generate_image_if_ready(&mut image), Ok(true),", "assert!(matches!(cam.generate_image_if_ready(&mut image), Ok(true)),"))

bug('ack-error-swallowed', 'C07', 'the bus refuses exactly the write that acknowledges a frame',
 'a failed acknowledgement is not reported',
 [(D, '''            self.ambient_temperature = Some(ambient_temperature);
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            Ok(true)''','''            self.ambient_temperature = Some(ambient_temperature);
            status_register.reset_new_data();
            // The image is complete; if this fails the next poll sees the flag again.
            status_register.to_i2c(bus, address).ok();
            Ok(true)''')],
PRE + '''
fn main() {
    let bus = cam641();
    let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    let mut image = vec![f32::NAN; 192];
    bus.before(|op, _| matches!(op, Op::Write(0x8000, _)));
    let r = cam.generate_image_if_ready(&mut image);
    let n = bus.with(|s| s.log.len()) as u32;
    assert!(matches!(r, Err(Error::I2cWriteError(Fail(m))) if m == n), "{r:?}");
}
''')

bug('getter-keeps-resolution', 'C04', 'another host (or a reset) changes the ADC resolution, then a getter is called, then an image',
 'reading the control register refreshes the cached access pattern but no longer the resolution correction unless the pattern changed too',
 [(D, '''        // Update the resolution as well
        let calibrated_resolution = self.calibration.resolution();
        self.resolution_correction =
            Clb::Camera::resolution_correction(calibrated_resolution, register.resolution());
        self.access_pattern = register.access_pattern();
    }''','''        // Update the resolution as well
        let calibrated_resolution = self.calibration.resolution();
        self.resolution_correction =
            Clb::Camera::resolution_correction(calibrated_resolution, register.resolution());
        self.access_pattern = register.access_pattern();
    }

    /// Update the cached values from a register that was just read.
    fn refresh_cache(&mut self, register: &ControlRegister) {
        // `exp2` is slow on targets without an FPU, only pay for it when something has changed.
        if self.access_pattern != register.access_pattern() {
            self.update_control_register(register);
        }
    }'''),
  (D, '''        let register = ControlRegister::from_i2c(&mut self.bus, self.address)?;
        // Update the resolution as well
        self.update_control_register(&register);
        Ok(register)''','''        let register = ControlRegister::from_i2c(&mut self.bus, self.address)?;
        // Update the resolution as well
        self.refresh_cache(&register);
        Ok(register)''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    bus.with(|s| s.control ^= 0x0400);
    cam.resolution().unwrap();
    let (mut a, mut b) = (vec![0f32; 768], vec![0f32; 768]);
    cam.generate_image_to(&mut a).unwrap();
    Mlx90640Driver::new(bus, 0x33).unwrap().generate_image_to(&mut b).unwrap();
    assert!(same(&a, &b));
}
''')

bug('pattern-without-subpages', 'C04', 'the access pattern is changed while the use of subpages is disabled',
 'the cached access pattern is only updated while subpages are in use',
 [(D, '''        self.access_pattern = register.access_pattern();
    }''','''        // The access pattern describes how the pixels are split between subpages.
        if register.use_subpages() {
            self.access_pattern = register.access_pattern();
        }
    }''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_use_subpages(false).unwrap();
    cam.set_access_pattern(AccessPattern::Interleave).unwrap();
    let (mut a, mut b) = (vec![0f32; 768], vec![0f32; 768]);
    cam.generate_image_to(&mut a).unwrap();
    Mlx90640Driver::new(bus, 0x33).unwrap().generate_image_to(&mut b).unwrap();
    assert!(same(&a, &b));
}
''')

bug('control-reserved-bits', 'C06', 'a camera whose control register holds a non-zero reserved bit (bits 13 to 15)',
 'the reserved bits of the control register are dropped when it is parsed, so every later write clears them',
 [(R, '''            .expect("Not enough bytes in control register buffer");
        let raw = u16::from_be_bytes(int_bytes);
        Self(raw)''','''            .expect("Not enough bytes in control register buffer");
        let raw = u16::from_be_bytes(int_bytes) & u16::from_be_bytes(Self::write_mask());
        Self(raw)''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.control = 0xb901);
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_frame_rate(FrameRate::Eight).unwrap();
    assert_eq!(bus.with(|s| s.control), 0xba01);
}
''')

bug('status-write-mask', 'C03', 'a setter of the status register while a frame is waiting',
 'writes to the status register leave out the new data flag to keep from touching it - but writing 0 is what clears it, so a waiting frame is lost',
 [(D, '''    fn set_status_register(&mut self, register: StatusRegister) -> Result<(), Error<I2C>> {
        register.to_i2c(&mut self.bus, self.address)
    }''','''    fn set_status_register(&mut self, register: StatusRegister) -> Result<(), Error<I2C>> {
        // The new data flag belongs to the camera, never send it back.
        let mut register = register;
        register.reset_new_data();
        register.to_i2c(&mut self.bus, self.address)
    }''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_overwrite_enabled(true).unwrap();
    assert!(cam.data_available().unwrap().is_some());
}
''')

bug('retry-read', 'C07', 'a single transient failure of a pixel read',
 'a failed pixel read is silently retried once, so the call succeeds although a transaction failed',
 [(CM, '''        bus.write_read(
            i2c_address,
            &address_bytes[..],
            &mut pixel_data_buffer[offset..(offset + range.length)],
        )
        .map_err(Error::I2cWriteReadError)?;''','''        let destination = &mut pixel_data_buffer[offset..(offset + range.length)];
        // These are by far the longest transfers, give them a second chance.
        if bus
            .write_read(i2c_address, &address_bytes[..], destination)
            .is_err()
        {
            bus.write_read(i2c_address, &address_bytes[..], destination)
                .map_err(Error::I2cWriteReadError)?;
        }''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut once = true;
    bus.before(move |op, _| matches!(op, Op::Read(0x400..=0x6ff, _)) && std::mem::take(&mut once));
    let mut image = vec![f32::NAN; 768];
    assert!(cam.generate_image_to(&mut image).is_err());
}
''')

bug('sync-skips-write', 'C08', 'synchronising while a frame is waiting and overwriting is already enabled',
 'synchronise skips its write to the status register when overwriting is already enabled, and then takes the old frame for a new one',
 [(D, '''        status_register.reset_new_data();
        status_register.set_overwrite_enabled(true);
        status_register.set_start_measurement();
        status_register.to_i2c(&mut self.bus, self.address)?;''','''        let free_running = status_register.overwrite_enabled();
        status_register.reset_new_data();
        status_register.set_overwrite_enabled(true);
        status_register.set_start_measurement();
        // A camera that may overwrite its data measures continuously, there's no need to start it.
        if !free_running {
            status_register.to_i2c(&mut self.bus, self.address)?;
        }''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.status = 0x0018);
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    // A measurement completes before the fourth transaction from here.
    let mut n = 0;
    bus.before(move |_, s| { n += 1; if n == 4 { s.status |= 8 } false });
    let before = bus.with(|s| s.log.len());
    cam.synchronize().unwrap();
    assert!(bus.with(|s| s.log.len()) - before >= 4, "returned before a new frame was measured");
    assert!(cam.data_available().unwrap().is_some());
}
''')

bug('sync-restores-overwrite', 'C08', 'synchronising a camera whose overwrite flag was clear',
 'synchronise puts the overwrite flag back afterwards with the register value it read first, and thereby clears the new frame\'s flag',
 [(D, '''        let mut status_register = self.status_register()?;
        status_register.reset_new_data();
        status_register.set_overwrite_enabled(true);''','''        let mut status_register = self.status_register()?;
        status_register.reset_new_data();
        let previous = status_register;
        status_register.set_overwrite_enabled(true);'''),
  (D, '''            core::hint::spin_loop();
        }
        Ok(())''','''            core::hint::spin_loop();
        }
        if !previous.overwrite_enabled() {
            // Leave the setting as it was.
            self.set_status_register(previous)?;
        }
        Ok(())''')],
PRE + '''
fn main() {
    for status in [0x0000, 0x0008, 0x0010, 0x0018] {
        let bus = cam641();
        bus.with(|s| s.status = status);
        let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
        let mut n = 0;
        bus.before(move |_, s| { n += 1; if n == 4 { s.status |= 8 } false });
        cam.synchronize().unwrap();
        assert!(cam.data_available().unwrap().is_some());
    }
}
''')

bug('split-words-uncorrected', 'C09', 'a single flipped bit in an MLX90641 calibration word that packs two values (scales, per-pixel constants)',
 'words that pack a 6-bit and a 5-bit value are checked but not corrected',
 [('mlx90641/eeprom.rs', '''    let word = get_hamming_u16(buf)?;
    Ok(split_6_5(word))''','''    let codeword = buf.get_u16();
    // The masks in split_6_5 take care of the parity bits.
    validate_checksum(codeword)?;
    Ok(split_6_5(codeword))''')],
PRE + '''
use mlx9064x::mlx90641::Mlx90641Calibration;
fn load(words: &[u16]) -> Mlx90641Calibration {
    Mlx90641Calibration::from_data(&words.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>()).unwrap()
}
fn main() {
    let words = cam641().with(|s| s.eeprom.clone());
    let good = load(&words);
    for i in 16..832 {
        let mut damaged = words.clone();
        damaged[i] ^= 1 << (i * 7 % 16);
        assert!(load(&damaged) == good, "word {i}");
    }
}
''')

bug('combined-word-unchecked', 'C09', 'two flipped bits in the low half of a calibration value that spans two words',
 'an uncorrectable low half is used as it is',
 [('mlx90641/eeprom.rs', '''    let lower = get_hamming_u16(buf)?;
    // TODO''','''    // Only the five low bits matter here, and they are not worth failing for.
    let lower_word = buf.get_u16();
    let lower = validate_checksum(lower_word).unwrap_or(lower_word & 0x001F);
    // TODO''')],
PRE + '''
use mlx9064x::mlx90641::Mlx90641Calibration;
fn main() {
    let words = cam641().with(|s| s.eeprom.clone());
    for i in 32..64 {
        let mut damaged = words.clone();
        damaged[i] ^= 0x0003;
        let r = Mlx90641Calibration::from_data(&damaged.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>());
        assert!(matches!(r, Err(LibraryError::Checksum(w)) if w == damaged[i]), "word {i}");
    }
}
''')

bug('ct-step-reserved', 'C10', 'an MLX90640 whose corner temperature word has a reserved bit set',
 'the two reserved bits above the corner temperature step are taken as part of it',
 [('mlx90640/eeprom.rs', 'let corner_temperature_step = i16::from(unpacked_corner_temps[0] & 0x3) * 10;', 'let corner_temperature_step = i16::from(unpacked_corner_temps[0]) * 10;')],
PRE + '''
use mlx9064x::mlx90640::Mlx90640Calibration;
fn main() {
    let mut words = cam640().with(|s| s.eeprom.clone());
    let load = |words: &[u16]| Mlx90640Calibration::from_data(&words.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>()).unwrap();
    let good = load(&words);
    words[0x3f] |= 0x8000;
    assert_eq!(load(&words).corner_temperatures(), good.corner_temperatures());
}
''')

bug('failed-pixel-outlier', 'C10', 'an MLX90640 pixel whose calibration word is zero except for the outlier bit',
 'a pixel that is only flagged as an outlier is treated as failed, and is no longer an outlier',
 [('mlx90640/eeprom.rs', 'if high == 0 && low == 0 {', 'if high == 0 && low & 0xFE == 0 {')],
PRE + '''
use mlx9064x::common::FlaggedPixels;
use mlx9064x::mlx90640::Mlx90640Calibration;
fn main() {
    let mut words = cam640().with(|s| s.eeprom.clone());
    words[0x40 + 100] = 1;
    words[0x40 + 200] = 0;
    let clb = Mlx90640Calibration::from_data(&words.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>()).unwrap();
    let failed: Vec<usize> = clb.failed_pixels().iter_flagged().collect();
    let outliers: Vec<usize> = clb.outlier_pixels().iter_flagged().collect();
    assert!(failed.contains(&200) && !failed.contains(&100), "failed {failed:?}");
    assert!(outliers.contains(&100), "outliers {outliers:?}");
}
''')

bug('alpha-cp-shift', 'C11', 'an MLX90641 calibration (valid checksums) with a compensation pixel sensitivity scale above 63',
 'the compensation pixel\'s scale is computed with an integer shift that overflows for large stored exponents: a panic where overflow is checked, a wrong value elsewhere',
 [('mlx90641/eeprom.rs', '''        let alpha_cp_scale = f32::from(get_hamming_u16(&mut buf)?);
        let alpha_cp = alpha_cp / alpha_cp_scale.exp2();''','''        let alpha_cp_scale = get_hamming_u16(&mut buf)?;
        // Scales are powers of two, there's no need for floating point exponentiation.
        let alpha_cp = alpha_cp / (1u64 << alpha_cp_scale) as f32;''')],
PRE + '''
use mlx9064x::mlx90641::Mlx90641Calibration;
fn main() {
    let mut words = cam641().with(|s| s.eeprom.clone());
    words[0x2e] = hamming(100);
    words[0x2d] = hamming(1000);
    let data = words.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>();
    match Mlx90641Calibration::from_data(&data) {
        Ok(c) => assert!((c.alpha_cp(Subpage::Zero) - 1000f32 / 100f32.exp2()).abs() < 1e-30),
        Err(e) => println!("rejected: {e}"),
    }
}
''')

bug('status-subpage-mask', 'C11', 'a status register read back with a reserved subpage bit set (a disturbed read, for example)',
 'the whole three-bit subpage field is interpreted; a value other than 0 or 1 panics',
 [(R, '''    const SUBPAGE_MASK: u16 = 0x0001;

    /// ''' if False else '''    const SUBPAGE_MASK: u16 = 0x0001;
''', '''    const SUBPAGE_MASK: u16 = 0x0007;
''')],
PRE + '''
fn main() {
    for status in 0..16 {
        let bus = cam640();
        let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
        bus.with(|s| s.status = status);
        let _ = cam.last_measured_subpage();
        let _ = cam.generate_image_if_ready(&mut [0f32; 768]);
        bus.with(|s| s.status = 9);
        assert_eq!(cam.last_measured_subpage().unwrap(), Subpage::One);
    }
}
''')

bug('clone-correction', 'C12', 'cloning a driver while the camera runs at another resolution than it was calibrated at',
 'a clone starts with a resolution correction of 1 and without the ambient temperature instead of continuing where the original was',
 [(D, '''#[derive(Clone, Debug)]
pub struct CameraDriver''','''#[derive(Debug)]
pub struct CameraDriver'''),
  (D, '''impl<'a, Clb, I2C, const HEIGHT: usize, const BUFFER_SIZE: usize>
    CameraDriver<Clb, I2C, HEIGHT, BUFFER_SIZE>
where''','''impl<Clb, I2C, const HEIGHT: usize, const BUFFER_SIZE: usize> Clone
    for CameraDriver<Clb, I2C, HEIGHT, BUFFER_SIZE>
where
    Clb: Clone,
    I2C: Clone,
{
    fn clone(&self) -> Self {
        // The pixel buffer is scratch space, so don't spend time on copying it.
        Self {
            bus: self.bus.clone(),
            address: self.address,
            calibration: self.calibration.clone(),
            pixel_buffer: [0u8; BUFFER_SIZE],
            resolution_correction: 1f32,
            ambient_temperature: None,
            emissivity: self.emissivity,
            access_pattern: self.access_pattern,
            reflected_temperature: self.reflected_temperature,
        }
    }
}

impl<'a, Clb, I2C, const HEIGHT: usize, const BUFFER_SIZE: usize>
    CameraDriver<Clb, I2C, HEIGHT, BUFFER_SIZE>
where''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_resolution(Resolution::Sixteen).unwrap();
    let mut twin = cam.clone();
    let (mut a, mut b) = (vec![0f32; 768], vec![0f32; 768]);
    cam.generate_image_to(&mut a).unwrap();
    twin.generate_image_to(&mut b).unwrap();
    assert!(same(&a, &b));
}
''')

bug('stale-reflected-estimate', 'C13', 'emissivity other than 1, no reflected temperature set, and the sensor\'s temperature changing between two frames polled with generate_image_if_ready',
 'the reflected temperature is estimated from the previous frame\'s ambient temperature instead of the current one',
 [(D, '''            let ambient_temperature = raw_pixels_to_temperatures(
                &self.calibration,
                self.emissivity,
                self.reflected_temperature,''','''            // Estimate the reflected temperature from what we know about the environment.
            let reflected_temperature = self.reflected_temperature.or_else(|| {
                self.ambient_temperature
                    .map(|t_a| t_a - Clb::Camera::SELF_HEATING)
            });
            let ambient_temperature = raw_pixels_to_temperatures(
                &self.calibration,
                self.emissivity,
                reflected_temperature,''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.override_emissivity(0.7);
    let mut a = vec![0f32; 768];
    assert!(cam.generate_image_if_ready(&mut a).unwrap());
    bus.with(|s| { next_frame_640(s); s.ram[0x320] += 60; });
    assert!(cam.generate_image_if_ready(&mut a).unwrap());
    bus.with(|s| s.status |= 8);
    let mut fresh = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    fresh.override_emissivity(0.7);
    let mut b = a.clone();
    assert!(fresh.generate_image_if_ready(&mut b).unwrap());
    for (i, (a, b)) in a.iter().zip(&b).enumerate() {
        assert!(close(*a, *b, 0.001), "pixel {i}: {a} and {b}");
    }
}
''')

bug('raw-image-keeps-ambient', 'C13', 'a raw image taken after another image, the sensor\'s temperature having changed in between',
 'a raw image only sets the ambient temperature if there is none yet',
 [(D, '''            ram,
            subpage,
            self.access_pattern,
            &mut valid_pixels,
            destination,
        );
        self.ambient_temperature = Some(t_a);
        Ok(())
    }

    ''' if False else '''        let t_a = raw_pixels_to_ir_data(
            &self.calibration,
            self.emissivity,
            self.resolution_correction,
            &self.pixel_buffer,
            ram,
            subpage,
            self.access_pattern,
            &mut valid_pixels,
            destination,
        );
        self.ambient_temperature = Some(t_a);''','''        let t_a = raw_pixels_to_ir_data(
            &self.calibration,
            self.emissivity,
            self.resolution_correction,
            &self.pixel_buffer,
            ram,
            subpage,
            self.access_pattern,
            &mut valid_pixels,
            destination,
        );
        self.ambient_temperature.get_or_insert(t_a);''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut a = vec![0f32; 768];
    cam.generate_image_to(&mut a).unwrap();
    let first = cam.ambient_temperature().unwrap();
    bus.with(|s| s.ram[0x320] += 60);
    cam.generate_raw_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    let second = cam.ambient_temperature().unwrap();
    assert!((first - second).abs() > 0.5, "{first} and {second}");
}
''')

bug('dedupe-subpage', 'C16', 'the same subpage is delivered twice in a row (a missed frame, or subpage repeat mode)',
 'deliver-if-ready refuses a frame of the subpage it delivered last, and leaves it flagged, so that a camera which waits for the flag or repeats a subpage never delivers again',
 [(D, '''    /// This value is used as the "reflected temperature" for converting the observed IR data to
    /// actual temperatures.
    reflected_temperature: Option<f32>,
}''','''    /// This value is used as the "reflected temperature" for converting the observed IR data to
    /// actual temperatures.
    reflected_temperature: Option<f32>,

    /// The subpage that was delivered last.
    last_subpage: Option<Subpage>,
}'''),
  (D, '''            access_pattern,
            reflected_temperature: None,''','''            access_pattern,
            reflected_temperature: None,
            last_subpage: None,'''),
  (D, '''        if status_register.new_data() {
            let subpage = status_register.last_updated_subpage();''','''        let subpage = status_register.last_updated_subpage();
        // Subpages alternate, so a repeated one is just the flag of a frame we already have.
        if status_register.new_data() && self.last_subpage != Some(subpage) {'''),
  (D, '''            self.ambient_temperature = Some(ambient_temperature);
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            Ok(true)''','''            self.ambient_temperature = Some(ambient_temperature);
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            self.last_subpage = Some(subpage);
            Ok(true)''')],
PRE + '''
fn main() {
    let bus = cam641();
    let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    let mut a = vec![0f32; 192];
    assert!(cam.generate_image_if_ready(&mut a).unwrap());
    // One frame (subpage 1) is missed, the next is subpage 0 again.
    bus.with(|s| s.status = 8);
    assert!(cam.generate_image_if_ready(&mut a).unwrap());
}
''')

bug('constructor-step-mode', 'C17', 'creating a driver for a camera that was left in step mode',
 'creating a driver switches the camera out of step mode',
 [(D, '''        let control = ControlRegister::from_i2c(&mut bus, address)?;
        // Cache these values''','''        let mut control = ControlRegister::from_i2c(&mut bus, address)?;
        if control.step_mode() {
            // Undo what a previous user may have left behind, we rely on continuous measurements.
            control.set_step_mode(false);
            control.to_i2c(&mut bus, address)?;
        }
        // Cache these values''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.control |= 2);
    let _cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    assert_eq!(bus.with(|s| s.control), 0x1903);
    assert!(bus.with(|s| s.writes()).is_empty());
}
''')

bug('stale-frame-shortcut', 'C01', 'an image, then an image of the other subpage or another frame without its flag being set, then the first subpage again',
 'generate_image_to reuses the frame it has read before if no new data is flagged, although the frame in RAM may have been replaced (another reader acknowledged it)',
 [(D, '''    /// This value is used as the "reflected temperature" for converting the observed IR data to
    /// actual temperatures.
    reflected_temperature: Option<f32>,
}''','''    /// This value is used as the "reflected temperature" for converting the observed IR data to
    /// actual temperatures.
    reflected_temperature: Option<f32>,

    /// The last frame read by `generate_image_to`, still in `pixel_buffer`.
    last_frame: Option<(Subpage, RamData)>,
}'''),
  (D, '''            access_pattern,
            reflected_temperature: None,''','''            access_pattern,
            reflected_temperature: None,
            last_frame: None,'''),
  (D, '''        let subpage = self.last_measured_subpage()?;
        self.generate_image_subpage_to(subpage, destination)''','''        let status = self.status_register()?;
        let subpage = status.last_updated_subpage();
        let ram = match self.last_frame {
            // Nothing new since the last call: the frame is still in the buffer.
            Some((last, ram)) if last == subpage && !status.new_data() => ram,
            _ => {
                let ram = self.read_ram(subpage)?;
                self.last_frame = Some((subpage, ram));
                ram
            }
        };
        let mut valid_pixels =
            Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();
        let t_a = raw_pixels_to_temperatures(
            &self.calibration,
            self.emissivity,
            self.reflected_temperature,
            self.resolution_correction,
            &self.pixel_buffer,
            ram,
            subpage,
            self.access_pattern,
            &mut valid_pixels,
            destination,
        );
        self.ambient_temperature = Some(t_a);
        Ok(())''')],
PRE + '''
fn main() {
    let bus = cam641();
    let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    let mut a = vec![0f32; 192];
    cam.generate_image_to(&mut a).unwrap();
    // Two more frames are measured and acknowledged through the deliver-if-ready call.
    bus.with(|s| { s.status = 9; for w in s.ram[..0x180].iter_mut() { *w = w.wrapping_add(40) } });
    assert!(cam.generate_image_if_ready(&mut a).unwrap());
    bus.with(|s| { s.status = 8; s.ram[0x1a0] += 60; });
    assert!(cam.generate_image_if_ready(&mut a).unwrap());
    let mut b = vec![0f32; 192];
    cam.generate_image_to(&mut b).unwrap();
    assert!(same(&a, &b));
}
''')

bug('partial-row', 'C02', 'a raw image into a buffer that is shorter than the image and ends within a row',
 'only whole rows are filled when the buffer is shorter than the image',
 [(C, '''    destination
        .iter_mut()
        // Chunk into two byte segments, for each 16-bit value
        .zip(pixel_data.chunks_exact(2))
        // Zip up the corresponding values from the calibration data.
        // Skipping alpha (sensitivity) as that's more related to temperature calculations
''','''    let whole_rows = destination.len() - destination.len() % Clb::Camera::WIDTH;
    destination[..whole_rows]
        .iter_mut()
        // Chunk into two byte segments, for each 16-bit value
        .zip(pixel_data.chunks_exact(2))
        // Zip up the corresponding values from the calibration data.
        // Skipping alpha (sensitivity) as that's more related to temperature calculations
''', 0)],
PRE + '''
fn main() {
    let bus = cam641();
    let mut cam = Mlx90641Driver::new(bus, 0x33).unwrap();
    let mut whole = vec![f32::NAN; 192];
    cam.generate_raw_image_subpage_to(Subpage::Zero, &mut whole).unwrap();
    for n in [0, 1, 15, 16, 17, 100, 191] {
        let mut part = vec![f32::NAN; n];
        cam.generate_raw_image_subpage_to(Subpage::Zero, &mut part).unwrap();
        assert!(same(&part, &whole[..n]), "{n} pixels");
    }
}
''')

bug('overwrite-getter-clears', 'C05', 'asking whether overwriting is enabled while the start bit of a measurement is set',
 'setting the overwrite flag also cancels a measurement that was requested',
 [(R, '''    pub fn set_overwrite_enabled(&mut self, overwrite_enabled: bool) {
        if overwrite_enabled {
            self.0 |= Self::OVERWRITE_ENABLED_MASK
        } else {
            self.0 &= !Self::OVERWRITE_ENABLED_MASK
        }''','''    pub fn set_overwrite_enabled(&mut self, overwrite_enabled: bool) {
        if overwrite_enabled {
            self.0 |= Self::OVERWRITE_ENABLED_MASK
        } else {
            self.0 &= !(Self::OVERWRITE_ENABLED_MASK | Self::STEP_MODE_MASK)
        }''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.status = 0x0030);
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_overwrite_enabled(false).unwrap();
    assert_eq!(bus.with(|s| s.status), 0x0020);
}
''')

bug('gain-unsigned', 'C01', 'a frame whose gain word has its top bit set',
 'the gain measured with the frame is treated as unsigned',
 [(C, 'let gain = calibration.gain() / f32::from(ram.gain);', 'let gain = calibration.gain() / f32::from(ram.gain as u16);')],
PRE + '''
use mlx9064x::calculations::*;
use mlx9064x::mlx90641::Mlx90641Calibration;
fn main() {
    let words = cam641().with(|s| s.eeprom.clone());
    let clb = Mlx90641Calibration::from_data(&words.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>()).unwrap();
    let ram = RamData { t_a_v_be: 19000, t_a_ptat: 1700, v_dd_pixel: -13000, gain: -5000, compensation_pixel: -30 };
    let common = CommonIrData::new(1.0, 1.0, &clb, &ram);
    assert!((common.gain - clb.gain() / -5000f32).abs() < 1e-4, "{}", common.gain);
}
''')
