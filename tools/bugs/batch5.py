PRE = '''
mod cam;
use cam::*;
use mlx9064x::*;
'''
D = 'driver.rs'; C = 'calculations.rs'; CM = 'common.rs'; R = 'register.rs'
E0 = 'mlx90640/eeprom.rs'; E1 = 'mlx90641/eeprom.rs'; H = 'mlx90641/hamming.rs'; M0 = 'mlx90640/mod.rs'; M1 = 'mlx90641/mod.rs'

bug('saturated-pixel', 'C01', 'a pixel whose measurement is at the very end of the ADC range',
 'a pixel at the end of the ADC range is not computed from its word any more',
 [(C, '''    let pixel_gain = f32::from(pixel_data) * common.gain;
    let mut pixel_offset''','''    // The ends of the range are used by the ADC to signal an overflow.
    let pixel_data = pixel_data.clamp(i16::MIN + 1, i16::MAX - 1);
    let pixel_data = if pixel_data == i16::MAX - 1 { 0 } else { pixel_data };
    let pixel_gain = f32::from(pixel_data) * common.gain;
    let mut pixel_offset''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let (mut a, mut b) = (vec![0f32; 768], vec![0f32; 768]);
    bus.with(|s| s.ram[0] = 0x7ffd);
    cam.generate_raw_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    bus.with(|s| s.ram[0] = 0x7fff);
    let mut cam = Mlx90640Driver::new(bus, 0x33).unwrap();
    cam.generate_raw_image_subpage_to(Subpage::Zero, &mut b).unwrap();
    assert!((a[0] - b[0]).abs() < 10.0, "{} {}", a[0], b[0]);
}
''')

bug('reflected-clamped', 'C13', 'a reflected temperature below -40 degrees, such as that of a clear sky',
 'reflected temperatures outside of the sensor range are silently replaced',
 [(D, '''        self.reflected_temperature = new_value;''','''        // Neither camera can operate outside of this range.
        self.reflected_temperature = new_value.map(|value| value.clamp(-40f32, 125f32));''')],
PRE + '''
fn main() {
    let mut cam = Mlx90640Driver::new(cam640(), 0x33).unwrap();
    cam.set_reflected_temperature(Some(-55.0));
    assert_eq!(cam.reflected_temperature(), Some(-55.0));
}
''')

bug('frame-rate-steps', 'C05', 'changing to a faster frame rate whose code has to lose a bit at the same time, while data hold is enabled',
 'from some frame rates the new one is set with bits of the old one left in place',
 [(R, '''        let raw = frame_rate.as_raw();
        self.0 = self.0 & !Self::FRAME_RATE_MASK | (raw << Self::FRAME_RATE_MASK.trailing_zeros())''','''        let raw = frame_rate.as_raw() << Self::FRAME_RATE_MASK.trailing_zeros();
        if self.data_hold() && raw > self.0 & Self::FRAME_RATE_MASK {
            // Faster
            self.0 |= raw;
        } else {
            self.0 = self.0 & !Self::FRAME_RATE_MASK | raw;
        }''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_data_hold(true).unwrap();
    cam.set_frame_rate(FrameRate::Four).unwrap();
    cam.set_frame_rate(FrameRate::Eight).unwrap();
    assert_eq!(bus.with(|s| s.control), 0x1905 & !0x380 | 4 << 7);
}
''')

bug('failed-by-raw-words', 'C09', 'a single-bit error in one of the (all zero) words of a failed pixel',
 'a failed pixel is recognised by its words as stored, without error correction',
 [(E1, '''                 -> Result<(i16, i16, u16, i8, i8), LibraryError> {
                    let offset_0_raw''','''                 -> Result<(i16, i16, u16, i8, i8, bool), LibraryError> {
                    let unused = [offset_0_bytes, offset_1_bytes, sensitivity_bytes, constants_bytes]
                        .iter()
                        .all(|bytes| *bytes == [0u8, 0u8]);
                    let offset_0_raw'''),
  (E1, '''                    Ok((offset_0_raw, offset_1_raw, raw_alpha, k_ta_raw, k_v_raw))''','''                    Ok((offset_0_raw, offset_1_raw, raw_alpha, k_ta_raw, k_v_raw, unused))'''),
  (E1, '''            let (offset_0_raw, offset_1_raw, alpha_raw, k_ta_raw, k_v_raw) = pixel_data?;
            if offset_0_raw == 0
                && offset_1_raw == 0
                && alpha_raw == 0
                && k_ta_raw == 0
                && k_v_raw == 0
            {''','''            let (offset_0_raw, offset_1_raw, alpha_raw, k_ta_raw, k_v_raw, unused) = pixel_data?;
            if unused {''')],
PRE + '''
fn main() {
    let bus = cam641();
    let start = [0x40usize, 0x100, 0x1c0, 0x280];
    bus.with(|s| for a in start { s.eeprom[a + 9] = 0; });
    let load = |bus: &Bus| {
        let bytes: Vec<u8> = bus.with(|s| s.eeprom.iter().flat_map(|w| w.to_be_bytes()).collect());
        mlx90641::Mlx90641Calibration::from_data(&bytes).unwrap()
    };
    let good = load(&bus);
    bus.with(|s| s.eeprom[0x109] = 0x0100);
    assert!(load(&bus) == good);
}
''')

bug('kta-scale-wraps', 'C10', 'an MLX90640 whose stored temperature coefficient scale is 8 or more',
 'the stored scale is wrapped to four bits after its offset has been added',
 [(E0, '''        let k_ta_scale1 = f32::from(unpacked_scales[2] + 8).exp2();''','''        let k_ta_scale1 = f32::from((unpacked_scales[2] + 8) & 0xF).exp2();''')],
PRE + '''
fn main() {
    let bus = cam640();
    let load = |bus: &Bus| {
        let bytes: Vec<u8> = bus.with(|s| s.eeprom.iter().flat_map(|w| w.to_be_bytes()).collect());
        mlx90640::Mlx90640Calibration::from_data(&bytes).unwrap()
    };
    bus.with(|s| s.eeprom[0x38] = s.eeprom[0x38] & !0xf0 | 0x70);
    let a = load(&bus).k_ta_cp(Subpage::Zero);
    bus.with(|s| s.eeprom[0x38] = s.eeprom[0x38] & !0xf0 | 0x80);
    let b = load(&bus).k_ta_cp(Subpage::Zero);
    assert_eq!(a, b * 2.0);
}
''')

bug('voltage-magnitude', 'C11', 'a supply voltage word of -32768 from a confused camera',
 'the magnitude of the lowest number overflows',
 [(C, '''    let difference = f32::from(v_dd_pixel) - f32::from(calibration.v_dd_25());''','''    // The supply voltage is always negative
    let difference = -f32::from(v_dd_pixel.abs()) - f32::from(calibration.v_dd_25());
    let difference = if v_dd_pixel > 0 {
        difference + 2f32 * f32::from(v_dd_pixel)
    } else {
        difference
    };''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    bus.with(|s| s.ram[0x32a] = 0x8000);
    let mut a = vec![0f32; 768];
    cam.generate_image_to(&mut a).unwrap();
}
''')

bug('two-step-range', 'C14', 'converting a raw image of an MLX90641 whose temperature ranges have different coefficients',
 'the separate conversion step uses the coefficient of another temperature range',
 [(C, '''    let k_s_to_basic = calibration.k_s_to()[Clb::Camera::BASIC_TEMPERATURE_RANGE];
    let alpha_coefficient = sensitivity_correction_coefficient(calibration, t_a);''','''    let k_s_to_basic = calibration.k_s_to()[1];
    let alpha_coefficient = sensitivity_correction_coefficient(calibration, t_a);''')],
PRE + '''
fn main() {
    let bus = cam641();
    // coefficient of the third range
    bus.with(|s| s.eeprom[0x37] = hamming(0x0200));
    let clb = { let mut b = bus.clone(); <mlx90641::Mlx90641Calibration as mlx9064x::common::FromI2C<Bus>>::from_i2c(&mut b, 0x33).unwrap() };
    let (mut a, mut b) = (vec![0f32; 192], vec![0f32; 192]);
    let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    cam.generate_raw_image_subpage_to(Subpage::Zero, &mut b).unwrap();
    let mut cam2 = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    cam2.generate_image_subpage_to(Subpage::Zero, &mut vec![0f32; 192]).unwrap();
    let t_a = cam2.ambient_temperature().unwrap();
    let emissivity = cam2.effective_emissivity();
    mlx9064x::calculations::raw_ir_to_temperatures(&clb, emissivity, t_a, None, Subpage::Zero,
        &mut mlx90641::Mlx90641::pixels_in_subpage(Subpage::Zero, AccessPattern::Interleave), &mut b);
    assert!((0..192).all(|i| close(a[i], b[i], 0.01)), "{} {}", a[5], b[5]);
}
''')

bug('sync-start-continuous', 'C08', 'synchronising with a camera in step mode',
 'the start bit is not set while the camera still has overwriting disabled, which in step mode means that it never measures',
 [(D, '''        status_register.reset_new_data();
        status_register.set_overwrite_enabled(true);
        status_register.set_start_measurement();''','''        status_register.reset_new_data();
        if status_register.overwrite_enabled() {
            status_register.set_start_measurement();
        }
        // Otherwise the camera starts by itself once it's allowed to overwrite the data.
        status_register.set_overwrite_enabled(true);''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| { s.control |= 2; s.status = 0x0008; });
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut reads = 0;
    bus.before(move |op, s| {
        if let Op::Read(0x8000, _) = op {
            reads += 1;
            if s.status & 0x20 != 0 { s.status = s.status & !0x20 | 8; }
            return reads > 100;
        }
        false
    });
    cam.synchronize().unwrap();
}
''')

bug('subpage-bits-kept', 'C05', 'selecting a subpage on a camera where subpage 1 is selected while the repeat mode is enabled',
 'selecting subpage 0 has no effect while the subpage repeat mode is enabled',
 [(R, '''        self.0 = self.0 & !Self::SUBPAGE_MASK | (subpage_num << Self::SUBPAGE_MASK.trailing_zeros())''','''        let cleared = self.0 & !(Self::SUBPAGE_MASK & !((self.0 & Self::SUBPAGE_REPEAT_MASK) << 1));
        self.0 = cleared | (subpage_num << Self::SUBPAGE_MASK.trailing_zeros())''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_subpage_repeat(true).unwrap();
    cam.set_subpage(Subpage::One).unwrap();
    cam.set_subpage(Subpage::Zero).unwrap();
    assert_eq!(bus.with(|s| s.control), 0x1909);
}
''')

bug('circuit-breaker', 'C07', 'five failed status transactions in a row, then a working bus',
 'after several failures in a row the driver gives up talking to the camera',
 [(D, '''    reflected_temperature: Option<f32>,
}

impl<'a, Clb, I2C''','''    reflected_temperature: Option<f32>,

    /// How many times in a row the camera could not be reached.
    failures: u8,
}

impl<'a, Clb, I2C'''),
  (D, '''            access_pattern,
            reflected_temperature: None,
        })''','''            access_pattern,
            reflected_temperature: None,
            failures: 0,
        })'''),
  (D, '''        let register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
        Ok(register)''','''        if self.failures >= 5 {
            return Err(Error::LibraryError(crate::LibraryError::Other(
                "The camera does not respond",
            )));
        }
        let register = StatusRegister::from_i2c(&mut self.bus, self.address).map_err(|error| {
            self.failures += 1;
            error
        })?;
        self.failures = 0;
        Ok(register)''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    bus.before(|_, _| true);
    for _ in 0..6 { cam.data_available().unwrap_err(); }
    bus.heal();
    cam.data_available().unwrap();
}
''')

bug('short-dump', 'C10', 'an MLX90640 dump that lacks its last word',
 'a dump that is one word short is accepted, with the last pixel taken as failed',
 [(E0, '''        if buf.len() < eeprom_length {''','''        let mut padded = [0u8; 832 * WORD_SIZE];
        if buf.len() == eeprom_length - WORD_SIZE {
            // The last word is the least important one.
            padded[..buf.len()].copy_from_slice(buf);
            buf = &padded[..];
        }
        if buf.len() < eeprom_length {''')],
PRE + '''
fn main() {
    let bytes: Vec<u8> = cam640().with(|s| s.eeprom.iter().flat_map(|w| w.to_be_bytes()).collect());
    assert!(mlx90640::Mlx90640Calibration::from_data(&bytes[..1662]).is_err());
}
''')

bug('i2c-current-with-speed', 'C20', 'changing the current limiter in an I2C configuration that has fast mode plus disabled',
 'with fast mode plus disabled the current limiter setting is written as enabled',
 [(R, '''        if !register.sda_current_limiter {''','''        if !register.sda_current_limiter && register.fast_mode_plus {''')],
PRE + '''
fn main() {
    let raw = [0u8, 0x07];
    let back: [u8; 2] = I2cRegister::from(&raw[..]).into();
    assert_eq!(raw, back);
}
''')

bug('last-row-interleaved', 'C16', 'interleaved frames while the camera measures quickly',
 'at fast frame rates only one subpage is ever delivered: the flag of the other is cleared without delivering it',
 [(D, '''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if status_register.new_data() {''','''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if status_register.new_data()
            && self.access_pattern == AccessPattern::Interleave
            && status_register.last_updated_subpage() == Subpage::One
            && Clb::Camera::HEIGHT == 24
            && ControlRegister::from_i2c(bus, address)?.frame_rate() >= FrameRate::SixtyFour
        {
            // Not enough time left for this one.
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            return Ok(false);
        }
        if status_register.new_data() {''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| { s.control = s.control & !0x1380 | 7 << 7; next_frame_640(s); });
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    assert!(cam.generate_image_if_ready(&mut vec![0f32; 768]).unwrap());
}
''')

bug('restart-flushes-old-frame', 'C17', 'a host that restarts while a frame is flagged and overwriting is enabled',
 'the first deliver-if-ready call of a new driver drops the frame that was flagged before the driver existed',
 [(D, '''        if status_register.new_data() {
            let subpage''','''        if status_register.new_data()
            && self.ambient_temperature.is_none()
            && status_register.overwrite_enabled()
        {
            // That frame may be arbitrarily old.
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            return Ok(false);
        }
        if status_register.new_data() {
            let subpage''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_overwrite_enabled(true).unwrap();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    assert!(cam.generate_image_if_ready(&mut vec![0f32; 768]).unwrap());
}
''')

bug('scratch-shared', 'C12', 'two drivers of the same model whose transactions interleave',
 'drivers share the scratch memory of the values that are common to all pixels',
 [(C, '''        let t_a_v_be = Self::read_ram_value(bus, i2c_address, Cam::T_A_V_BE)?;
        let t_a_ptat = Self::read_ram_value(bus, i2c_address, Cam::T_A_PTAT)?;
        let v_dd_pixel = Self::read_ram_value(bus, i2c_address, Cam::V_DD_PIXEL)?;
        let gain = Self::read_ram_value(bus, i2c_address, Cam::GAIN)?;
        let compensation_pixel =
            Self::read_ram_value(bus, i2c_address, Cam::compensation_pixel(subpage))?;''','''        use core::sync::atomic::{AtomicI16, Ordering};
        static SCRATCH: [AtomicI16; 4] = [
            AtomicI16::new(0),
            AtomicI16::new(0),
            AtomicI16::new(0),
            AtomicI16::new(0),
        ];
        let sources = [Cam::T_A_V_BE, Cam::T_A_PTAT, Cam::V_DD_PIXEL, Cam::GAIN];
        for (value, source) in SCRATCH.iter().zip(sources) {
            value.store(Self::read_ram_value(bus, i2c_address, source)?, Ordering::Relaxed);
        }
        let compensation_pixel =
            Self::read_ram_value(bus, i2c_address, Cam::compensation_pixel(subpage))?;
        let t_a_v_be = SCRATCH[0].load(Ordering::Relaxed);
        let t_a_ptat = SCRATCH[1].load(Ordering::Relaxed);
        let v_dd_pixel = SCRATCH[2].load(Ordering::Relaxed);
        let gain = SCRATCH[3].load(Ordering::Relaxed);''')],
PRE + '''
fn main() {
    // The second camera takes an image between two transactions of the first one.
    let (bus, other) = (cam640(), cam640());
    other.with(|s| s.ram[0x30a] = 0x2000);
    let mut one = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut two = Mlx90640Driver::new(other, 0x33).unwrap();
    let mut alone = Mlx90640Driver::new(cam640(), 0x33).unwrap();
    let (mut a, mut b) = (vec![0f32; 768], vec![0f32; 768]);
    alone.generate_raw_image_subpage_to(Subpage::Zero, &mut b).unwrap();
    bus.before(move |op, _| {
        if let Op::Read(0x0708, _) = op {
            two.generate_raw_image_subpage_to(Subpage::Zero, &mut vec![0f32; 768]).unwrap();
        }
        false
    });
    one.generate_raw_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    assert!(same(&a, &b));
}
''')

bug('interleave-offset-write', 'C02', 'an image of subpage 1 in interleave mode into a buffer that ends within the last row',
 'the incomplete last row is not written',
 [(C, '''    destination
        .iter_mut()
        .zip(calibration.alpha_pixels(subpage))
        // filter''','''    let whole_rows = destination.len() / Clb::Camera::WIDTH * Clb::Camera::WIDTH;
    destination[..whole_rows]
        .iter_mut()
        .zip(calibration.alpha_pixels(subpage))
        // filter''')],
PRE + '''
fn main() {
    let bus = cam640();
    let clb = { let mut b = bus.clone(); <mlx90640::Mlx90640Calibration as mlx9064x::common::FromI2C<Bus>>::from_i2c(&mut b, 0x33).unwrap() };
    let run = |n: usize| {
        let mut a = vec![100f32; n];
        mlx9064x::calculations::raw_ir_to_temperatures(&clb, 1.0, 25.0, None, Subpage::Zero,
            &mut mlx90640::Mlx90640::pixels_in_subpage(Subpage::Zero, AccessPattern::Chess), &mut a);
        a
    };
    assert!(same(&run(768)[..50], &run(50)));
}
''')
