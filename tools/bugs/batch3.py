PRE = '''
mod cam;
use cam::*;
use mlx9064x::*;
'''
D = 'driver.rs'; C = 'calculations.rs'; CM = 'common.rs'; R = 'register.rs'
E0 = 'mlx90640/eeprom.rs'; E1 = 'mlx90641/eeprom.rs'; H = 'mlx90641/hamming.rs'; M0 = 'mlx90640/mod.rs'; M1 = 'mlx90641/mod.rs'

bug('tgc-threshold', 'C01', 'a calibration whose temperature gradient coefficient is small but not zero',
 'small gradient coefficients are treated as no gradient compensation at all',
 [(C, '''    let compensation_pixel_offset = calibration.temperature_gradient_coefficient().map(|tgc| {
        // TODO: There's a note in the datasheet advising a moving average filter (length >=
        // 16) on the compensation pixel gain.
        let compensation_pixel_offset =
            compensation_pixel_v_ir(calibration, &common, &ram, subpage, access_pattern);
        // Premultiplying by the TGC here
        tgc * compensation_pixel_offset
    });
    // TODO: this step''','''    let compensation_pixel_offset = calibration
        .temperature_gradient_coefficient()
        // Not worth the effort, it disappears in the noise.
        .filter(|tgc| tgc.abs() > 0.05)
        .map(|tgc| {
            // TODO: There's a note in the datasheet advising a moving average filter (length >=
            // 16) on the compensation pixel gain.
            let compensation_pixel_offset =
                compensation_pixel_v_ir(calibration, &common, &ram, subpage, access_pattern);
            // Premultiplying by the TGC here
            tgc * compensation_pixel_offset
        });
    // TODO: this step''')],
PRE + '''
fn main() {
    let bus = cam641();
    // gradient coefficient of 2 / 64
    bus.with(|s| { s.eeprom[0x33] = hamming(0x0402); s.ram[0x188] = 400; });
    let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    let (mut a, mut b) = (vec![0f32; 192], vec![0f32; 192]);
    cam.generate_image_to(&mut a).unwrap();
    bus.with(|s| s.ram[0x188] = (-400i16) as u16);
    cam.generate_image_to(&mut b).unwrap();
    assert!((a[50] - b[50]).abs() > 0.01, "{} {}", a[50], b[50]);
}
''')

bug('supply-once-per-pair', 'C01', 'images of both subpages while the supply voltage changes between them',
 'the supply voltage word is only read with subpage 0 and reused for subpage 1',
 [(D, '''    reflected_temperature: Option<f32>,
}

impl<'a, Clb, I2C''','''    reflected_temperature: Option<f32>,

    /// The supply voltage measurement of the last image.
    last_v_dd_pixel: Option<i16>,
}

impl<'a, Clb, I2C'''),
  (D, '''            access_pattern,
            reflected_temperature: None,
        })''','''            access_pattern,
            reflected_temperature: None,
            last_v_dd_pixel: None,
        })'''),
  (D, '''    ) -> Result<(), Error<I2C>> {
        let ram = self.read_ram(subpage)?;
        let mut valid_pixels =
            Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();
        let t_a = raw_pixels_to_temperatures(''','''    ) -> Result<(), Error<I2C>> {
        let mut ram = self.read_ram(subpage)?;
        // The two subpages of a picture are converted with the same supply voltage.
        match (subpage, self.last_v_dd_pixel) {
            (Subpage::One, Some(v_dd_pixel)) => ram.v_dd_pixel = v_dd_pixel,
            _ => self.last_v_dd_pixel = Some(ram.v_dd_pixel),
        }
        let mut valid_pixels =
            Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();
        let t_a = raw_pixels_to_temperatures(''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let (mut a, mut b) = (vec![0f32; 768], vec![0f32; 768]);
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    bus.with(|s| s.ram[0x32a] = s.ram[0x32a].wrapping_add(900));
    cam.generate_image_subpage_to(Subpage::One, &mut a).unwrap();
    let t = cam.ambient_temperature();
    let mut cam = Mlx90640Driver::new(bus, 0x33).unwrap();
    cam.generate_image_subpage_to(Subpage::One, &mut b).unwrap();
    assert_eq!(t, cam.ambient_temperature());
    assert!((0..768).filter(|i| (i / 32 + i) % 2 == 1).all(|i| close(a[i], b[i], 1e-3)));
}
''')

bug('tail-fill', 'C02', 'a raw image into a buffer that is longer than the image',
 'raw images clear the part of the buffer behind the image',
 [(D, '''        let t_a = raw_pixels_to_ir_data(''','''        if destination.len() > Clb::Camera::NUM_PIXELS {
            destination[Clb::Camera::NUM_PIXELS..].fill(0f32);
        }
        let t_a = raw_pixels_to_ir_data(''')],
PRE + '''
fn main() {
    let mut cam = Mlx90641Driver::new(cam641(), 0x33).unwrap();
    let mut a = vec![7.5f32; 200];
    cam.generate_raw_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    assert!(a[192..].iter().all(|x| *x == 7.5));
}
''')

bug('image-acks', 'C03', 'asking for the latest image while a new frame is flagged',
 'the call that delivers the latest image unconditionally also clears the new data flag, so the frame is not reported as available any more',
 [(D, '''        let subpage = self.last_measured_subpage()?;
        self.generate_image_subpage_to(subpage, destination)''','''        let mut status_register = self.status_register()?;
        let subpage = status_register.last_updated_subpage();
        if status_register.new_data() {
            status_register.reset_new_data();
            self.set_status_register(status_register)?;
        }
        self.generate_image_subpage_to(subpage, destination)''')],
PRE + '''
fn main() {
    let bus = cam641();
    let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    let mut a = vec![0f32; 192];
    cam.generate_image_to(&mut a).unwrap();
    assert!(cam.data_available().unwrap().is_some());
}
''')

bug('resync-after-error', 'C03', 'a poll fails on the bus while reading a frame, and the frame is still there at the next poll',
 'after a failed read the next flagged frame is acknowledged but not delivered',
 [(D, '''    reflected_temperature: Option<f32>,
}

impl<'a, Clb, I2C''','''    reflected_temperature: Option<f32>,

    /// The last frame was not read completely.
    interrupted: bool,
}

impl<'a, Clb, I2C'''),
  (D, '''            access_pattern,
            reflected_temperature: None,
        })''','''            access_pattern,
            reflected_temperature: None,
            interrupted: false,
        })'''),
  (D, '''            let subpage = status_register.last_updated_subpage();
            let mut valid_pixels =
                Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();
            let ram = read_ram''','''            let subpage = status_register.last_updated_subpage();
            if self.interrupted {
                // What is left of an interrupted frame isn't worth reading.
                status_register.reset_new_data();
                status_register.to_i2c(bus, address)?;
                self.interrupted = false;
                return Ok(false);
            }
            let mut valid_pixels =
                Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();
            self.interrupted = true;
            let ram = read_ram'''),
  (D, '''            self.ambient_temperature = Some(ambient_temperature);
            status_register''','''            self.interrupted = false;
            self.ambient_temperature = Some(ambient_temperature);
            status_register''')],
PRE + '''
fn main() {
    let bus = cam641();
    let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    let mut a = vec![0f32; 192];
    bus.before(|op, _| matches!(op, Op::Read(0x400..=0x7ff, _)));
    assert!(cam.generate_image_if_ready(&mut a).is_err());
    bus.heal();
    assert!(cam.generate_image_if_ready(&mut a).unwrap());
}
''')

bug('set-pattern-cached', 'C04', 'the camera is reset or reconfigured by another host, then the access pattern the driver believes in is set again',
 'setting the access pattern does nothing when the driver believes it is set already, without asking the camera',
 [(D, '''    set_register_field! {
        control_register,
        access_pattern,
        AccessPattern,
        "Set the access pattern used by the camera."
    }''','''    /// Set the access pattern used by the camera.
    pub fn set_access_pattern(&mut self, new_value: AccessPattern) -> Result<(), Error<I2C>> {
        if self.access_pattern == new_value {
            return Ok(());
        }
        let mut current = self.control_register()?;
        current.set_access_pattern(new_value);
        self.set_control_register(current)
    }''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    bus.with(|s| s.control ^= 0x1000);
    cam.set_access_pattern(AccessPattern::Chess).unwrap();
    assert_eq!(cam.access_pattern().unwrap(), AccessPattern::Chess);
}
''')

bug('resolution-limits-rate', 'C05', 'setting the highest ADC resolution while the camera runs at 64 frames per second',
 'setting 19 bits also lowers a frame rate of 64 Hz to 32 Hz',
 [(R, '''        let raw = resolution.as_raw();
        self.0 = self.0''','''        let raw = resolution.as_raw();
        // The ADC doesn't get done in time otherwise.
        if resolution == Resolution::Nineteen && self.frame_rate() == FrameRate::SixtyFour {
            self.set_frame_rate(FrameRate::ThirtyTwo);
        }
        self.0 = self.0''')],
PRE + '''
fn main() {
    let mut cam = Mlx90640Driver::new(cam640(), 0x33).unwrap();
    cam.set_frame_rate(FrameRate::SixtyFour).unwrap();
    cam.set_resolution(Resolution::Nineteen).unwrap();
    assert_eq!(cam.frame_rate().unwrap(), FrameRate::SixtyFour);
}
''')

bug('general-call', 'C06', 'a pixel read that fails',
 'after a failed read of the pixels the driver tries to unwedge the bus with a reset addressed to everybody',
 [(CM, '''        let address_bytes = range.start_address.as_bytes();
        bus.write_read(
            i2c_address,
            &address_bytes[..],
            &mut pixel_data_buffer[offset..(offset + range.length)],
        )
        .map_err(Error::I2cWriteReadError)?;''','''        let address_bytes = range.start_address.as_bytes();
        let result = bus.write_read(
            i2c_address,
            &address_bytes[..],
            &mut pixel_data_buffer[offset..(offset + range.length)],
        );
        if let Err(error) = result {
            // General call reset, so that nobody is left in the middle of a transfer.
            let _ = bus.write(0x00, &[0x00, 0x06, 0x00, 0x00]);
            return Err(Error::I2cWriteReadError(error));
        }''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    bus.before(|_, s| s.log.len() == 7 || matches!(s.log.last().unwrap().1, Op::Read(0x400, _) | Op::Write(6, _)));
    let mut a = vec![0f32; 768];
    assert!(cam.generate_image_to(&mut a).is_err());
    bus.with(|s| assert!(s.log.iter().all(|(address, _)| *address == 0x33), "{:?}", s.log));
}
''')

bug('status-error-not-ready', 'C07', 'the status read of deliver-if-ready fails',
 'a failed status read is reported as no new data',
 [(D, '''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if status_register.new_data() {''','''        let mut status_register = match StatusRegister::from_i2c(bus, address) {
            Ok(status_register) => status_register,
            // A camera that doesn't answer isn't ready.
            Err(Error::I2cWriteReadError(_)) => return Ok(false),
            Err(error) => return Err(error),
        };
        if status_register.new_data() {''')],
PRE + '''
fn main() {
    let bus = cam641();
    let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    bus.before(|_, _| true);
    assert!(cam.generate_image_if_ready(&mut [0f32; 192]).is_err());
}
''')

bug('retry-write', 'C07', 'a register write that fails once',
 'register writes are silently retried once',
 [(R, '            bus.write(address, &combined)?;\n            Ok(())','            bus.write(address, &combined)\n                .or_else(|_| bus.write(address, &combined))')],
PRE + '''
fn main() {
    let bus = cam641();
    let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    let mut once = true;
    bus.before(move |op, _| matches!(op, Op::Write(..)) && std::mem::take(&mut once));
    assert!(cam.set_frame_rate(FrameRate::Half).is_err());
}
''')

bug('sync-waits-for-subpage', 'C08', 'synchronising while the camera repeats one subpage (or the first new frame has the subpage of the last one)',
 'synchronise waits for the subpage number to change instead of for the flag',
 [(D, '''        // Spin while we wait for data
        while !status_register.new_data() {''','''        let previous = status_register.last_updated_subpage();
        // Spin while we wait for data
        while !status_register.new_data() || status_register.last_updated_subpage() == previous {''')],
PRE + '''
fn main() {
    let bus = cam641();
    let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    let mut n = 0;
    bus.before(move |_, s| { n += 1; if n == 5 { s.status |= 8 } n > 50 });
    cam.synchronize().unwrap();
}
''')

bug('sync-waits-for-zero', 'C08', 'the first measurement after synchronising is one of subpage 1',
 'synchronise goes on waiting until a frame of subpage 0 arrives',
 [(D, '''        while !status_register.new_data() {
            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
            core::hint::spin_loop();
        }''','''        // Subpage 0 comes first in a complete image.
        while !(status_register.new_data()
            && status_register.last_updated_subpage() == Subpage::Zero)
        {
            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
            core::hint::spin_loop();
        }''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut n = 0;
    bus.before(move |_, s| { n += 1; if n == 5 { s.status |= 9 } n > 50 });
    cam.synchronize().unwrap();
}
''')

bug('second-offset-unchecked', 'C09', 'a flipped bit (or two) in the offset for subpage 1 of an MLX90641 pixel',
 'the offsets for subpage 1 are taken as they are, without checking and correcting them',
 [(E1, '                    let offset_1_raw = get_hamming_i16(&mut offset_1_bytes)?;', '''                    let offset_1_raw = i16_from_bits(&offset_1_bytes.get_u16().to_be_bytes(), 11);'''),],
PRE + '''
fn main() {
    let clean = cam641();
    let bus = cam641();
    bus.with(|s| s.eeprom[0x282] ^= 0x0008);
    let (mut a, mut b) = (vec![0f32; 192], vec![0f32; 192]);
    Mlx90641Driver::new(clean, 0x33).unwrap().generate_image_subpage_to(Subpage::One, &mut a).unwrap();
    Mlx90641Driver::new(bus, 0x33).unwrap().generate_image_subpage_to(Subpage::One, &mut b).unwrap();
    assert!(same(&a, &b));
}
''')

bug('corner-signed', 'C10', 'an MLX90641 with a corner temperature above 1023 degrees',
 'the stored corner temperatures of the MLX90641 are sign extended',
 [(E1, '            *ct = get_hamming_u16(buf)? as i16;', '            *ct = get_hamming_i16(buf)?;')],
PRE + '''
fn main() {
    let bus = cam641();
    bus.with(|s| s.eeprom[0x3e] = hamming(1100));
    let bytes: Vec<u8> = bus.with(|s| s.eeprom.iter().flat_map(|w| w.to_be_bytes()).collect());
    let calibration = mlx90641::Mlx90641Calibration::from_data(&bytes).unwrap();
    assert_eq!(calibration.corner_temperatures()[7], 1100);
}
''')

bug('negative-tgc', 'C10', 'an MLX90640 with a negative temperature gradient coefficient',
 'negative gradient coefficients are taken for none',
 [(E0, '            0 => None,\n            n => Some(', '            n if n <= 0 => None,\n            n => Some(')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.eeprom[0x3c] = s.eeprom[0x3c] & 0xff00 | 0x00f0);
    let bytes: Vec<u8> = bus.with(|s| s.eeprom.iter().flat_map(|w| w.to_be_bytes()).collect());
    let calibration = mlx90640::Mlx90640Calibration::from_data(&bytes).unwrap();
    assert_eq!(calibration.temperature_gradient_coefficient(), Some(-0.5));
}
''')

bug('empty-buffer', 'C11', 'a raw image into an empty buffer',
 'a raw image into an empty buffer panics',
 [(C, '''    // Knock out the values common to all pixels first.
    let common = CommonIrData::new(resolution_correction, emissivity, calibration, &ram);
    // Compensation pixels are only used if temperature gradient compensation is being used.
    let compensation_pixel_offset = calibration.temperature_gradient_coefficient().map(|tgc| {
        // TODO: There's a note in the datasheet advising a moving average filter (length >=
        // 16) on the compensation pixel gain.
        let compensation_pixel_offset =
            compensation_pixel_v_ir(calibration, &common, &ram, subpage, access_pattern);
        // Premultiplying by the TGC here
        tgc * compensation_pixel_offset
    });
    // At this point''','''    // Don't bother with data nobody has room for.
    let last_byte = (destination.len() - 1) * 2 + 1;
    let pixel_data = &pixel_data[..=last_byte.min(pixel_data.len() - 1)];
    // Knock out the values common to all pixels first.
    let common = CommonIrData::new(resolution_correction, emissivity, calibration, &ram);
    // Compensation pixels are only used if temperature gradient compensation is being used.
    let compensation_pixel_offset = calibration.temperature_gradient_coefficient().map(|tgc| {
        // TODO: There's a note in the datasheet advising a moving average filter (length >=
        // 16) on the compensation pixel gain.
        let compensation_pixel_offset =
            compensation_pixel_v_ir(calibration, &common, &ram, subpage, access_pattern);
        // Premultiplying by the TGC here
        tgc * compensation_pixel_offset
    });
    // At this point''', 0)],
PRE + '''
fn main() {
    let mut cam = Mlx90641Driver::new(cam641(), 0x33).unwrap();
    cam.generate_raw_image_subpage_to(Subpage::Zero, &mut []).unwrap();
}
''')

bug('frame-counter', 'C11', 'more than 255 images delivered by one driver (with overflow checks), ',
 'delivered frames are counted in a byte that overflows',
 [(D, '''    reflected_temperature: Option<f32>,
}

impl<'a, Clb, I2C''','''    reflected_temperature: Option<f32>,

    /// Number of frames delivered.
    frames: u8,
}

impl<'a, Clb, I2C'''),
  (D, '''            access_pattern,
            reflected_temperature: None,
        })''','''            access_pattern,
            reflected_temperature: None,
            frames: 0,
        })'''),
  (D, '''            self.ambient_temperature = Some(ambient_temperature);
            status_register''','''            self.frames += 1;
            self.ambient_temperature = Some(ambient_temperature);
            status_register''')],
PRE + '''
fn main() {
    let bus = cam641();
    let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    for _ in 0..300 {
        bus.with(|s| s.status |= 8);
        assert!(cam.generate_image_if_ready(&mut [0f32; 192]).unwrap());
    }
}
''')

bug('shared-status', 'C12', 'two drivers in different threads, one polling while the other one is in the middle of its poll',
 'deliver-if-ready keeps the status register in a static while it reads the frame, so another driver\'s poll in between changes what is written back',
 [(D, '''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if status_register.new_data() {''','''        use core::sync::atomic::{AtomicU16, Ordering};
        // The register as last seen, for the acknowledgement.
        static LAST_STATUS: AtomicU16 = AtomicU16::new(0);
        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        LAST_STATUS.store(u16::from_be_bytes(status_register.into()), Ordering::Relaxed);
        if status_register.new_data() {'''),
  (D, '''            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            Ok(true)''','''            let last_status = LAST_STATUS.load(Ordering::Relaxed).to_be_bytes();
            status_register = StatusRegister::from(&last_status[..]);
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            Ok(true)''')],
PRE + '''
fn main() {
    let (one, two) = (cam640(), cam641());
    one.with(|s| s.status = 0x0018);
    two.with(|s| s.status = 0x0008);
    let mut first = Mlx90640Driver::new(one.clone(), 0x33).unwrap();
    let mut second = Mlx90641Driver::new(two.clone(), 0x33).unwrap();
    // The second driver polls while the first one reads its frame.
    one.before(move |op, _| { if matches!(op, Op::Read(0x400, _)) { second.generate_image_if_ready(&mut [0f32; 192]).unwrap(); } false });
    first.generate_image_if_ready(&mut [0f32; 768]).unwrap();
    assert_eq!(one.with(|s| s.status), 0x0010);
}
''')

bug('shared-correction', 'C12', 'two cameras in one process running at different resolutions (relative to their calibration)',
 'the resolution correction is computed once per process',
 [(M0, '''        // Have to use an f32 here as resolution_exp may be negative.
        f32::from(resolution_exp).exp2()''','''        use core::sync::atomic::{AtomicU32, Ordering};
        // Calculating powers is slow without an FPU, remember the last one.
        static EXPONENT: AtomicU32 = AtomicU32::new(0);
        static POWER: AtomicU32 = AtomicU32::new(0x3F80_0000);
        // (The sign doesn't matter for looking it up, the larger resolution is the calibrated one.)
        if EXPONENT.load(Ordering::Relaxed) != u32::from(resolution_exp.unsigned_abs()) {
            EXPONENT.store(u32::from(resolution_exp.unsigned_abs()), Ordering::Relaxed);
            POWER.store(f32::from(resolution_exp).exp2().to_bits(), Ordering::Relaxed);
        }
        f32::from_bits(POWER.load(Ordering::Relaxed))''')],
PRE + '''
fn main() {
    let image = |control: u16| { let bus = cam640(); bus.with(|s| s.control = control); let mut a = vec![0f32; 768]; Mlx90640Driver::new(bus, 0x33).unwrap().generate_image_to(&mut a).unwrap(); a };
    let alone = image(0x1901);
    image(0x1501);
    image(0x1d01);
    let alone2 = image(0x1901);
    assert!(same(&alone, &alone2));
    let low = image(0x1501);
    let high = image(0x1d01);
    image(0x1901);
    let high2 = image(0x1d01);
    assert!(same(&high, &high2) && !same(&low, &high));
}
''')

bug('emissivity-clamped', 'C13', 'an emissivity override outside of 0 to 1',
 'emissivity overrides are clamped',
 [(D, '        self.emissivity = new_value;', '        self.emissivity = if new_value > 1f32 { 1f32 } else { new_value };')],
PRE + '''
fn main() {
    let mut cam = Mlx90640Driver::new(cam640(), 0x33).unwrap();
    // Effective emissivities of cavities and calibration targets can be above 1
    cam.override_emissivity(1.05);
    assert_eq!(cam.effective_emissivity(), 1.05);
}
''')

bug('default-drops-reflected', 'C13', 'a reflected temperature is set, then the default emissivity is restored',
 'going back to the default emissivity also forgets the reflected temperature',
 [(D, '''        let default_emissivity = self.calibration.emissivity();
        self.emissivity = default_emissivity.unwrap_or(1f32);''','''        let default_emissivity = self.calibration.emissivity();
        // Nothing is reflected if there is no emissivity.
        if default_emissivity.is_none() {
            self.reflected_temperature = None;
        }
        self.emissivity = default_emissivity.unwrap_or(1f32);''')],
PRE + '''
fn main() {
    let mut cam = Mlx90640Driver::new(cam640(), 0x33).unwrap();
    cam.set_reflected_temperature(Some(12.5));
    cam.override_emissivity(0.9);
    cam.use_default_emissivity();
    assert_eq!(cam.reflected_temperature(), Some(12.5));
}
''')

bug('ambient-forgotten', 'C13', 'polling when no new frame is ready, after an image',
 'the ambient temperature is forgotten when a poll finds no new frame',
 [(D, '''            Ok(true)
        } else {
            Ok(false)''','''            Ok(true)
        } else {
            // It might be outdated by now.
            self.ambient_temperature = None;
            Ok(false)''')],
PRE + '''
fn main() {
    let mut cam = Mlx90641Driver::new(cam641(), 0x33).unwrap();
    assert!(cam.generate_image_if_ready(&mut [0f32; 192]).unwrap());
    let t = cam.ambient_temperature();
    assert!(!cam.generate_image_if_ready(&mut [0f32; 192]).unwrap());
    assert!(t.is_some() && t == cam.ambient_temperature());
}
''')

bug('given-calibration-emissivity', 'C14', 'an MLX90641 with a stored emissivity other than 1, driven with a calibration loaded earlier',
 'a driver created from a loaded calibration starts with an emissivity of 1 instead of the stored one',
 [(D, '''        let calibration = Clb::from_i2c(&mut bus, address)?;
        Self::new_with_calibration(bus, address, calibration)''','''        let calibration = Clb::from_i2c(&mut bus, address)?;
        let mut driver = Self::new_with_calibration(bus, address, calibration)?;
        driver.use_default_emissivity();
        Ok(driver)'''),
  (D, '''        // Choose an emissivity value to start with.
        let emissivity = calibration.emissivity().unwrap_or(1f32);''','''        // Choose an emissivity value to start with.
        let emissivity = 1f32;''')],
PRE + '''
fn main() {
    let bus = cam641();
    bus.with(|s| s.eeprom[0x23] = hamming(0x1c0));
    let bytes: Vec<u8> = bus.with(|s| s.eeprom.iter().flat_map(|w| w.to_be_bytes()).collect());
    let calibration = mlx90641::Mlx90641Calibration::from_data(&bytes).unwrap();
    let one = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    let two = Mlx90641Driver::new_with_calibration(bus, 0x33, calibration).unwrap();
    assert_eq!(one.effective_emissivity(), two.effective_emissivity());
}
''')

bug('correction-two-steps', 'C15', 'an MLX90641 calibrated at 16 bits running at 19 bits, or the other way round',
 'the resolution correction never covers more than two steps',
 [(M1, '''            calibrated_resolution.as_raw() as i8 - current_resolution.as_raw() as i8;''','''            (calibrated_resolution.as_raw() as i8 - current_resolution.as_raw() as i8).clamp(-2, 2);''')],
PRE + '''
fn main() {
    let ta = |control: u16| {
        let bus = cam641();
        bus.with(|s| { s.control = control; let w = s.eeprom[0x33] & 0x07ff & !0x0600; s.eeprom[0x33] = cam::hamming(w) });
        let mut a = vec![0f32; 192]; let mut d = Mlx90641Driver::new(bus, 0x33).unwrap();
        d.generate_image_to(&mut a).unwrap(); d.ambient_temperature().unwrap()
    };
    assert_ne!(ta(0x0901), ta(0x0d01));
}
''')

bug('pattern-change-blocks', 'C16', 'a camera restarts with the other access pattern, or the pattern is changed, and only subpage 0 frames are waiting',
 'after a change of the access pattern deliver-if-ready waits for subpage 0, leaving frames of subpage 1 flagged and thereby blocking the camera',
 [(D, '''    reflected_temperature: Option<f32>,
}

impl<'a, Clb, I2C''','''    reflected_temperature: Option<f32>,

    /// Start over with the first subpage.
    restart: bool,
}

impl<'a, Clb, I2C'''),
  (D, '''            access_pattern,
            reflected_temperature: None,
        })''','''            access_pattern,
            reflected_temperature: None,
            restart: false,
        })'''),
  (D, '''        self.access_pattern = register.access_pattern();
    }''','''        self.restart |= self.access_pattern != register.access_pattern();
        self.access_pattern = register.access_pattern();
    }'''),
  (D, '''        if status_register.new_data() {
            let subpage = status_register.last_updated_subpage();
            let mut valid_pixels =''','''        if status_register.new_data() {
            let subpage = status_register.last_updated_subpage();
            if self.restart && subpage != Subpage::Zero {
                return Ok(false);
            }
            self.restart = false;
            let mut valid_pixels =''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(next_frame_640);
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_access_pattern(AccessPattern::Interleave).unwrap();
    assert!(cam.generate_image_if_ready(&mut [0f32; 768]).unwrap());
}
''')

bug('constructor-clears-flag', 'C17', 'a driver created while a frame is waiting on a camera that may overwrite frames',
 'creating a driver discards a frame that is already waiting',
 [(D, '''        // Choose an emissivity value to start with.''','''        // Start with a clean slate
        let mut status = StatusRegister::from_i2c(&mut bus, address)?;
        if status.new_data() && status.overwrite_enabled() {
            status.reset_new_data();
            status.to_i2c(&mut bus, address)?;
        }
        // Choose an emissivity value to start with.''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.status |= 0x10);
    let mut cam = Mlx90640Driver::new(bus, 0x33).unwrap();
    assert!(cam.generate_image_if_ready(&mut [0f32; 768]).unwrap());
}
''')

bug('constructor-enables-subpages', 'C17', 'creating a driver for a camera that was left with subpages disabled',
 'creating a driver switches the use of subpages on',
 [(D, '''        let control = ControlRegister::from_i2c(&mut bus, address)?;''','''        let mut control = ControlRegister::from_i2c(&mut bus, address)?;
        if !control.use_subpages() {
            control.set_use_subpages(true);
            control.to_i2c(&mut bus, address)?;
        }''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.control &= !1);
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    assert!(!cam.subpages_enabled().unwrap());
    assert!(bus.with(|s| s.writes()).is_empty());
}
''')

bug('reset-keeps-flag', 'C03', 'resetting the data available flag while the overwrite flag is enabled',
 'resetting the new data flag does nothing while the camera may overwrite frames',
 [(D, '''        let mut current = self.status_register()?;
        current.reset_new_data();''','''        let mut current = self.status_register()?;
        // The camera doesn't wait for the flag in this mode.
        if current.overwrite_enabled() {
            return Ok(());
        }
        current.reset_new_data();''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.status = 0x18);
    let mut cam = Mlx90640Driver::new(bus, 0x33).unwrap();
    cam.reset_data_available().unwrap();
    assert!(cam.data_available().unwrap().is_none());
}
''')
