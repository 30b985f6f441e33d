PRE = '''
mod cam;
use cam::*;
use mlx9064x::*;
'''
OWN = open('/verif/seeded/own-kv-first-subpage/main.rs').read().split('fn main()')[0]
D = 'driver.rs'; C = 'calculations.rs'; CM = 'common.rs'; R = 'register.rs'
E0 = 'mlx90640/eeprom.rs'; E1 = 'mlx90641/eeprom.rs'; H = 'mlx90641/hamming.rs'; M0 = 'mlx90640/mod.rs'; M1 = 'mlx90641/mod.rs'

def field(name, typ, init):
    """A further field of the driver."""
    return [(D, '''    reflected_temperature: Option<f32>,
}
''', f'''    reflected_temperature: Option<f32>,

    {name}: {typ},
}}
'''), (D, '''            reflected_temperature: None,
        })''', f'''            reflected_temperature: None,
            {name}: {init},
        }})''')]

bug('sync-late-errors', 'C08', 'a bus failure after more than 50 polls of one synchronise call',
 'bus failures are ignored once synchronise has polled for a while, so it never returns when the bus is gone for good',
 [(D, '''        // Spin while we wait for data
        while !status_register.new_data() {
            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
            core::hint::spin_loop();
        }''', '''        // Spin while we wait for data
        let mut polls = 0u32;
        while !status_register.new_data() {
            polls = polls.saturating_add(1);
            status_register = match StatusRegister::from_i2c(&mut self.bus, self.address) {
                Ok(status) => status,
                // Not worth starting over when the measurement must be nearly done.
                Err(_) if polls > 50 => status_register,
                Err(error) => return Err(error),
            };
            core::hint::spin_loop();
        }''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut n = 0;
    bus.before(move |_, s| { n += 1; if n > 400 { s.status |= 8; } n > 70 && n < 400 });
    cam.synchronize().unwrap_err();
}
''')

bug('reread-on-ones', 'C11', 'a camera whose status register reads as all ones for good',
 'a status of all ones is read again until it changes, so a camera that has gone away hangs every call',
 [(D, '''        let register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
        Ok(register)''', '''        let mut register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
        // Nobody is driving the bus.
        while <[u8; 2]>::from(register) == [0xFF, 0xFF] {
            register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
        }
        Ok(register)''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    bus.with(|s| s.status = 0xffff);
    let mut n = 0;
    bus.before(move |_, _| { n += 1; assert!(n < 1000); false });
    cam.data_available().unwrap();
}
''')

bug('empty-poll', 'C03', 'a deliver-if-ready call with an empty buffer while a frame is waiting',
 'a deliver-if-ready call with an empty buffer never finds a frame',
 [(D, '''        if status_register.new_data() {
            let subpage''', '''        if status_register.new_data() && !destination.is_empty() {
            let subpage''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    assert!(cam.generate_image_if_ready(&mut []).unwrap());
    assert_eq!(bus.with(|s| s.status & 8), 0);
}
''')

bug('warm-up-drop', 'C03', 'a frame whose ambient temperature is far from that of the previous frame',
 'frames taken while the sensor temperature changes quickly are acknowledged, but reported as not ready',
 [(D, '''            self.ambient_temperature = Some(ambient_temperature);
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            Ok(true)''', '''            let last = self.ambient_temperature.replace(ambient_temperature);
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            // Still warming up?
            Ok(!matches!(last, Some(last) if (last - ambient_temperature).abs() > 15f32))''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut a = vec![0f32; 768];
    assert!(cam.generate_image_if_ready(&mut a).unwrap());
    bus.with(|s| { next_frame_640(s); s.ram[0x320] = s.ram[0x320].wrapping_add(400); });
    assert!(cam.generate_image_if_ready(&mut a).unwrap());
}
''')

bug('other-pixels-normalised', 'C02', 'a buffer holding negative zeroes or signalling NaNs at the pixels of the other subpage',
 'pixels of the other subpage are computed with, which changes the bits of negative zeroes and signalling NaNs',
 [(D, '''            destination,
        );
        self.ambient_temperature = Some(t_a);
        Ok(())''', '''            destination,
        );
        // Keep denormals from slowing down whoever uses the image.
        for pixel in destination.iter_mut() {
            *pixel += 0f32;
        }
        self.ambient_temperature = Some(t_a);
        Ok(())''', 1)],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut a = vec![-0f32; 768];
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    assert_eq!(a[1].to_bits(), (-0f32).to_bits());
}
''')

bug('read-after-write-cache', 'C04', 'the camera is reset or reconfigured right after the driver changed a setting',
 'the control register is not read again in the call after a successful change',
 field('written', 'Option<ControlRegister>', 'None') + [(D, '''        let register = ControlRegister::from_i2c(&mut self.bus, self.address)?;
        // Update the resolution as well
        self.update''', '''        let register = match self.written.take() {
            Some(register) => register,
            None => ControlRegister::from_i2c(&mut self.bus, self.address)?,
        };
        // Update the resolution as well
        self.update'''), (D, '''        self.update_control_register(&register);
        Ok(())''', '''        self.update_control_register(&register);
        self.written = Some(register);
        Ok(())''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_resolution(Resolution::Sixteen).unwrap();
    bus.with(|s| s.control = 0x1901);
    assert_eq!(cam.resolution().unwrap(), Resolution::Eighteen);
}
''')

bug('cp-moving-average', 'C01', 'frames of one subpage whose compensation pixel changes',
 'the compensation pixel is averaged over the frames so far, so an image is not that of one frame',
 field('smoothed', '[Option<i16>; 2]', '[None; 2]') + [(D, '''    fn read_ram(&mut self, subpage: Subpage) -> Result<RamData, Error<I2C>> {
        read_ram::<Clb::Camera, I2C, HEIGHT>(
            &mut self.bus,
            self.address,
            self.access_pattern,
            subpage,
            &mut self.pixel_buffer,
        )
''', '''    fn read_ram(&mut self, subpage: Subpage) -> Result<RamData, Error<I2C>> {
        let mut ram = read_ram::<Clb::Camera, I2C, HEIGHT>(
            &mut self.bus,
            self.address,
            self.access_pattern,
            subpage,
            &mut self.pixel_buffer,
        )?;
        // The datasheet advises a moving average here.
        let smoothed = &mut self.smoothed[subpage as usize];
        if let Some(old) = *smoothed {
            let sum = i32::from(old) * 15 + i32::from(ram.compensation_pixel);
            ram.compensation_pixel = (sum / 16) as i16;
        }
        *smoothed = Some(ram.compensation_pixel);
        Ok(ram)
''')],
PRE + '''
fn main() {
    let bus = cam641();
    let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    bus.with(|s| s.eeprom[0x33] = hamming(0x0440));
    let mut cam2 = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    let (mut a, mut b) = (vec![0f32; 192], vec![0f32; 192]);
    cam2.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    bus.with(|s| s.ram[0x188] = s.ram[0x188].wrapping_add(300));
    cam2.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    Mlx90641Driver::new(bus, 0x33).unwrap().generate_image_subpage_to(Subpage::Zero, &mut b).unwrap();
    let _ = cam.ambient_temperature();
    assert!(same(&a, &b));
}
''')

bug('checksum-as-invalid', 'C09', 'a word with two flipped bits in calibration loaded over the bus',
 'uncorrectable words are reported as invalid data instead of with the checksum error when loading over the bus',
 [(E1, '''        Ok(Self::from_data(&eeprom_buf)?)''', '''        Self::from_data(&eeprom_buf).map_err(|error| match error {
            LibraryError::Checksum(_) => LibraryError::InvalidData("Damaged calibration").into(),
            other => other.into(),
        })''')],
PRE + '''
fn main() {
    let bus = cam641();
    bus.with(|s| s.eeprom[0x200] ^= 0x21);
    match Mlx90641Driver::new(bus, 0x33) {
        Err(Error::LibraryError(LibraryError::Checksum(_))) => (),
        other => panic!("{:?}", other.err()),
    }
}
''')

bug('reset-guess', 'C13', 'an emissivity override, another access pattern, a camera reset and then a getter or setter',
 'when the camera seems to have been reset the emissivity goes back to its default',
 [(D, '''        self.access_pattern = register.access_pattern();
    }''', '''        if self.access_pattern != register.access_pattern()
            && (*register == ControlRegister::default_mlx90640()
                || *register == ControlRegister::default_mlx90641())
        {
            // The camera has been reset, start over.
            self.emissivity = self.calibration.emissivity().unwrap_or(1f32);
        }
        self.access_pattern = register.access_pattern();
    }''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.control = 0x0901);
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.override_emissivity(0.5);
    cam.set_access_pattern(AccessPattern::Interleave).unwrap();
    bus.with(|s| s.control = 0x1901);
    cam.resolution().unwrap();
    assert_eq!(cam.effective_emissivity(), 0.5);
}
''')

bug('constructor-releases-hold', 'C17', 'a camera left with data hold enabled and a frame waiting',
 'creating a driver discards the waiting frame when the camera holds its data',
 [(D, '''        // Cache these values
''', '''        if control.data_hold() {
            // The frame may be from long ago.
            let mut status = StatusRegister::from_i2c(&mut bus, address)?;
            if status.new_data() {
                status.reset_new_data();
                status.to_i2c(&mut bus, address)?;
            }
        }
        // Cache these values
''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.control |= 4);
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    assert!(cam.generate_image_if_ready(&mut vec![0f32; 768]).unwrap());
}
''')

bug('dedupe-by-ambient', 'C16', 'two frames of the same subpage in a row with the same ambient temperature',
 'a frame of the same subpage and ambient temperature as the last one is taken for a repetition: it is acknowledged but not delivered, and a camera repeating one subpage never gets anything across',
 field('last', 'Option<(Subpage, f32)>', 'None') + [(D, '''            self.ambient_temperature = Some(ambient_temperature);
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            Ok(true)''', '''            self.ambient_temperature = Some(ambient_temperature);
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            let delivered = Some((subpage, ambient_temperature));
            let fresh = self.last != delivered;
            self.last = delivered;
            Ok(fresh)''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut a = vec![0f32; 768];
    assert!(cam.generate_image_if_ready(&mut a).unwrap());
    bus.with(|s| { s.status |= 8; s.ram[5] += 20; });
    assert!(cam.generate_image_if_ready(&mut a).unwrap());
}
''')

bug('resume-after-failure', 'C01', 'an image call fails after some rows of a frame have been read, and another frame arrives before the retry',
 'a retry only reads the rows that are still missing, so the image mixes two frames',
 field('rows_read', 'Option<(Subpage, AccessPattern, usize)>', 'None') + [(D, '''    fn read_ram(&mut self, subpage: Subpage) -> Result<RamData, Error<I2C>> {
        read_ram::<Clb::Camera, I2C, HEIGHT>(
            &mut self.bus,
            self.address,
            self.access_pattern,
            subpage,
            &mut self.pixel_buffer,
        )
''', '''    fn read_ram(&mut self, subpage: Subpage) -> Result<RamData, Error<I2C>> {
        let done = match self.rows_read.take() {
            Some((s, pattern, rows)) if s == subpage && pattern == self.access_pattern => rows,
            _ => 0,
        };
        let ranges = Clb::Camera::pixel_ranges(subpage, self.access_pattern);
        for (index, range) in ranges.into_iter().enumerate().skip(done) {
            let piece = &mut self.pixel_buffer[range.buffer_offset..][..range.length];
            let start = u16::from(range.start_address).to_be_bytes();
            if let Err(error) = self.bus.write_read(self.address, &start, piece) {
                self.rows_read = Some((subpage, self.access_pattern, index));
                return Err(Error::I2cWriteReadError(error));
            }
        }
        RamData::from_i2c::<I2C, Clb::Camera>(&mut self.bus, self.address, subpage)
            .map_err(Error::I2cWriteReadError)
''')],
PRE + '''
fn main() {
    let bus = cam641();
    let mut cam = Mlx90641Driver::new(bus.clone(), 0x33).unwrap();
    let n = bus.with(|s| s.log.len());
    bus.before(move |_, s| s.log.len() == n + 4);
    let (mut a, mut b) = (vec![0f32; 192], vec![0f32; 192]);
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap_err();
    bus.heal();
    bus.with(|s| s.ram[0] = s.ram[0].wrapping_add(200));
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    Mlx90641Driver::new(bus, 0x33).unwrap().generate_image_subpage_to(Subpage::Zero, &mut b).unwrap();
    assert!(same(&a, &b));
}
''')

bug('eeprom-static', 'C12', 'two drivers are created at the same time, their transactions interleaved',
 'the calibration memory is collected in a static buffer that all drivers being created share',
 [(E0, '''        let mut eeprom_buf = [0u8; EEPROM_LENGTH];
        let eeprom_base: Address = EepromAddress::Base.into();
        bus.write_read(i2c_address, &eeprom_base.as_bytes(), &mut eeprom_buf)
            .map_err(Error::I2cWriteReadError)?;
''', '''        use core::sync::atomic::{AtomicU8, Ordering};
        // Too large for small stacks.
        static EEPROM: [AtomicU8; EEPROM_LENGTH] = {
            #[allow(clippy::declare_interior_mutable_const)]
            const ZERO: AtomicU8 = AtomicU8::new(0);
            [ZERO; EEPROM_LENGTH]
        };
        let mut block = [0u8; 64];
        for (index, piece) in EEPROM.chunks(64).enumerate() {
            let start = Address::new(EepromAddress::Base as u16 + index as u16 * 32);
            bus.write_read(i2c_address, &start.as_bytes(), &mut block)
                .map_err(Error::I2cWriteReadError)?;
            for (to, from) in piece.iter().zip(block) {
                to.store(from, Ordering::Relaxed);
            }
        }
        let mut eeprom_buf = [0u8; EEPROM_LENGTH];
        for (to, from) in eeprom_buf.iter_mut().zip(&EEPROM) {
            *to = from.load(Ordering::Relaxed);
        }
''')],
PRE + '''
fn main() {
    let bus = cam640();
    let other = cam640();
    other.with(|s| for w in &mut s.eeprom[0x10..] { *w ^= 0x0100 });
    let mut n = 0;
    bus.before(move |_, _| {
        n += 1;
        if n == 14 { let _ = Mlx90640Driver::new(other.clone(), 0x33); }
        false
    });
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut fresh = Mlx90640Driver::new(cam640(), 0x33).unwrap();
    let (mut a, mut b) = (vec![0f32; 768], vec![0f32; 768]);
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    fresh.generate_image_subpage_to(Subpage::Zero, &mut b).unwrap();
    assert!(same(&a, &b));
}
''')

bug('supply-clamped', 'C15', 'a supply voltage near the ends of the operating range',
 'the supply voltage used for compensation is limited to 3.1 to 3.5 volts',
 [(C, '''        let v_dd = v_dd(calibration, resolution_correction, delta_v);
''', '''        let v_dd = v_dd(calibration, resolution_correction, delta_v);
        // Regulators do not drift further than this.
        let v_dd = if v_dd > 3f32 && v_dd < 3.6f32 {
            v_dd.max(3.1f32).min(3.5f32)
        } else {
            v_dd
        };
''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut shot = |v: i16| {
        bus.with(|s| s.ram[0x32a] = (i32::from(s.ram[0x32a] as i16) + i32::from(v)) as u16);
        let mut a = vec![0f32; 768];
        cam.generate_raw_image_subpage_to(Subpage::Zero, &mut a).unwrap();
        a[0]
    };
    // In steps of the supply voltage, from the top of the range down.
    shot(-800);
    let differences: Vec<f32> = (0..12).map(|_| shot(150)).collect();
    let steps: Vec<f32> = differences.windows(2).map(|w| (w[1] - w[0]).abs()).collect();
    let (low, high) = steps.iter().fold((f32::MAX, 0f32), |(l, h), s| (l.min(*s), h.max(*s)));
    assert!(high - low < 0.4, "{steps:?}");
}
''')

bug('two-step-negative', 'C14', 'pixels seeing something colder than the sensor, so that their raw value is negative',
 'the separate conversion step treats strongly negative raw values as zero',
 [(C, '''            let v_ir = *output;
''', '''            let v_ir = if *output < -60f32 { 0f32 } else { *output };
''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| for w in &mut s.ram[..768] { *w = w.wrapping_sub(120) });
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let (mut a, mut b) = (vec![0f32; 768], vec![0f32; 768]);
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    cam.generate_raw_image_subpage_to(Subpage::Zero, &mut b).unwrap();
    let clb = mlx90640::Mlx90640Calibration::from_data(
        &bus.with(|s| s.eeprom.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<u8>>())).unwrap();
    let mut px = mlx90640::Mlx90640::pixels_in_subpage(Subpage::Zero, AccessPattern::Chess).into_iter();
    calculations::raw_ir_to_temperatures(&clb, 1.0, cam.ambient_temperature().unwrap(), None, Subpage::Zero, &mut px, &mut b);
    assert!(a.iter().zip(&b).all(|(a, b)| close(*a, *b, 0.01)));
}
''')

bug('overwrite-flag-in-hold', 'C05', 'the overwrite flag is set while a frame is waiting',
 'setting the overwrite flag discards a frame that is waiting',
 [(R, '''        if overwrite_enabled {
            self.0 |= Self::OVERWRITE_ENABLED_MASK
        } else {''', '''        if overwrite_enabled {
            // The waiting frame may be overwritten from here on.
            self.0 &= !Self::NEW_DATA_MASK;
            self.0 |= Self::OVERWRITE_ENABLED_MASK
        } else {''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_overwrite_enabled(true).unwrap();
    assert_eq!(bus.with(|s| s.status & 8), 8);
}
''')
bug('default-register-rate', 'C20', 'frame rates of 32 and 64 Hz in register values',
 'setting a high frame rate in a register value also lowers its resolution',
 [(R, '''        let raw = frame_rate.as_raw();
''', '''        let raw = frame_rate.as_raw();
        if raw == 7 && self.0 & Self::RESOLUTION_MASK == Self::RESOLUTION_MASK {
            // There is not enough time for 19 bits.
            self.0 &= !0x0400;
        }
''')],
PRE + '''
fn main() {
    let mut a = ControlRegister::from(&[0x1d, 0x01][..]);
    a.set_frame_rate(FrameRate::SixtyFour);
    assert_eq!(a.resolution(), Resolution::Nineteen);
}
''')
bug('cp-larger-sensitivity', 'C19', 'an image of subpage 1 from a calibration whose compensation pixel is more sensitive for subpage 0',
 'the larger of the two sensitivities of the compensation pixel is used',
 [(C, '''        .map(|tgc| calibration.alpha_cp(subpage) * tgc);
    let k_s_to_basic = calibration.k_s_to()[Clb::Camera::BASIC_TEMPERATURE_RANGE];
    let alpha_coefficient = sensitivity_correction_coefficient(calibration, common.t_a);''', '''        .map(|tgc| calibration.alpha_cp(Subpage::Zero).max(calibration.alpha_cp(subpage)) * tgc);
    let k_s_to_basic = calibration.k_s_to()[Clb::Camera::BASIC_TEMPERATURE_RANGE];
    let alpha_coefficient = sensitivity_correction_coefficient(calibration, common.t_a);''')],
OWN + '''
fn main() {
    let bus = cam640();
    let mut clb = own(&bus);
    let a = shot(&bus, &clb, Subpage::One);
    clb.alpha_cp[0] = clb.alpha_cp[1] + 2e-9;
    assert!(same(&a, &shot(&bus, &clb, Subpage::One)));
}
''')
