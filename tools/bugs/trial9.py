# Rarely triggered bugs, for trial.py.
D = 'driver.rs'; C = 'calculations.rs'; CM = 'common.rs'; R = 'register.rs'
E0 = 'mlx90640/eeprom.rs'; E1 = 'mlx90641/eeprom.rs'; H = 'mlx90641/hamming.rs'; M0 = 'mlx90640/mod.rs'; M1 = 'mlx90641/mod.rs'

def field(name, typ, init):
    return [(D, '''    reflected_temperature: Option<f32>,
}
''', f'''    reflected_temperature: Option<f32>,

    {name}: {typ},
}}
'''), (D, '''            reflected_temperature: None,
        })''', f'''            reflected_temperature: None,
            {name}: {init},
        }})''')]

bug('cp-zero', 'C01', '', '', [(C, '''    // Compensation pixels are only used if temperature gradient compensation is being used.
    let compensation_pixel_offset = calibration.temperature_gradient_coefficient().map(|tgc| {
        // TODO: There's a note in the datasheet advising a moving average filter (length >=
        // 16) on the compensation pixel gain.
        let compensation_pixel_offset =
            compensation_pixel_v_ir(calibration, &common, &ram, subpage, access_pattern);
        // Premultiplying by the TGC here
        tgc * compensation_pixel_offset
    });
    // TODO: this step''', '''    // Compensation pixels are only used if temperature gradient compensation is being used.
    let compensation_pixel_offset = calibration.temperature_gradient_coefficient().filter(|_| ram.compensation_pixel != 0).map(|tgc| {
        let compensation_pixel_offset =
            compensation_pixel_v_ir(calibration, &common, &ram, subpage, access_pattern);
        // Premultiplying by the TGC here
        tgc * compensation_pixel_offset
    });
    // TODO: this step''')])

bug('vdd-sentinel', 'C01', '', '', [(C, '''    let difference = f32::from(v_dd_pixel) - f32::from(calibration.v_dd_25());
    difference''', '''    if v_dd_pixel == i16::MIN || v_dd_pixel == -1 {
        return 0f32;
    }
    let difference = f32::from(v_dd_pixel) - f32::from(calibration.v_dd_25());
    difference''')])

bug('ack-every-256', 'C03', '', '', field('frames', 'u8', '0') + [(D, '''            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            Ok(true)''', '''            self.frames = self.frames.wrapping_add(1);
            if self.frames != 0 {
                status_register.reset_new_data();
                status_register.to_i2c(bus, address)?;
            }
            Ok(true)''')])

bug('tail-copy', 'C02', '', '', [(D, '''            self.ambient_temperature = Some(ambient_temperature);
            status_register''', '''            self.ambient_temperature = Some(ambient_temperature);
            // Double buffering applications.
            let (front, back) = destination.split_at_mut(destination.len().min(Clb::Camera::NUM_PIXELS));
            if back.len() >= front.len() && !front.is_empty() {
                let n = front.len();
                back[..n].copy_from_slice(front);
            }
            status_register''')])

bug('setter-pending-cache', 'C05', '', '', field('pending_rate', 'Option<u16>', 'None') + [(D, '''                current.[< set_ $field >](new_value);
                self.[< set_ $register_access >](current)
            } else {''', '''                current.[< set_ $field >](new_value);
                let raw = u16::from_be_bytes(current.into());
                if self.pending_rate == Some(raw) {
                    self.pending_rate = None;
                    return Ok(());
                }
                self.pending_rate = Some(raw);
                self.[< set_ $register_access >](current)?;
                self.pending_rate = None;
                Ok(())
            } else {''')])

bug('sync-start-already', 'C08', '', '', [(D, '''        status_register.set_start_measurement();
        status_register.to_i2c(&mut self.bus, self.address)?;''', '''        if status_register.start_measurement() && status_register.overwrite_enabled() {
            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
        } else {
            status_register.set_start_measurement();
            status_register.to_i2c(&mut self.bus, self.address)?;
        }''')])

bug('hamming-last-word', 'C09', '', '', [(E1, '''                    let offset_1_raw = get_hamming_i16(&mut offset_1_bytes)?;''', '''                    let offset_1_raw = if offset_1_bytes.as_ptr() as usize == &data[data.len() - 2] as *const u8 as usize {
                        (u16::from_be_bytes([offset_1_bytes[0], offset_1_bytes[1]]) << 5) as i16 >> 5
                    } else {
                        get_hamming_i16(&mut offset_1_bytes)?
                    };''')])

bug('reflected-nan', 'C13', '', '', [(D, '''        self.reflected_temperature = new_value;''', '''        self.reflected_temperature = new_value.filter(|t| t.is_finite());''')])

bug('third-override', 'C13', '', '', field('overrides', 'u32', '0') + [(D, '''        self.emissivity = new_value;
    }''', '''        self.overrides += 1;
        // Settling: small corrections of an override are ignored.
        if self.overrides > 1 && (self.emissivity - new_value).abs() < 0.002 {
            return;
        }
        self.emissivity = new_value;
    }''')])

bug('write-error-kind-once', 'C07', '', '', field('failed', 'bool', 'false') + [(D, '''            status_register.to_i2c(bus, address)?;
            Ok(true)''', '''            let acknowledged = status_register.to_i2c(bus, address);
            let again = self.failed;
            self.failed = acknowledged.is_err();
            match acknowledged {
                // Reported already.
                Err(_) if again => Ok(true),
                Err(error) => Err(error),
                Ok(()) => Ok(true),
            }''')])

bug('row-error-tail', 'C07', '', '', [(CM, '''    for range in pixel_ranges.iter() {''', '''    for (index, range) in pixel_ranges.iter().enumerate() {'''), (CM, '''        bus.write_read(
            i2c_address,
            &address_bytes[..],
            &mut pixel_data_buffer[offset..(offset + range.length)],
        )
        .map_err(Error::I2cWriteReadError)?;''', '''        let row = bus.write_read(
            i2c_address,
            &address_bytes[..],
            &mut pixel_data_buffer[offset..(offset + range.length)],
        );
        if index + 1 < pixel_ranges.len() || index == 0 {
            row.map_err(Error::I2cWriteReadError)?;
        }''')])

bug('longer-dump', 'C10', '', '', [(E0, '''        if buf.len() < eeprom_length {''', '''        if buf.len() < eeprom_length || buf.len() % eeprom_length != 0 {''')])

bug('longer-dump-641', 'C10', '', '', [(E1, '''            &data[(EepromAddress::PixelOffsetSubpage1Start.offset_from_base() * WORD_SIZE)..];''', '''            &data[data.len() - Mlx90641::NUM_PIXELS * WORD_SIZE..];''')])

bug('alpha-remainder-order', 'C10', '', '', [(E0, '''                        let k_ta_numerator = (k_ta_rc + (k_ta_remainder << k_ta_scale2_exp)) as f32;''', '''                        let k_ta_numerator = f32::from((k_ta_rc + (k_ta_remainder << k_ta_scale2_exp)).clamp(-2048, 2047) as i16);''')])

bug('offset-saturates', 'C10', '', '', [(E0, '''            *offset_reference = i16::try_from(offset)
                .map_err(|_| LibraryError::InvalidData("A pixel offset is out of range"))?;''', '''            *offset_reference = i16::try_from(offset)
                .or_else(|_| if offset == 32768 { Ok(32767) } else { Err(LibraryError::InvalidData("A pixel offset is out of range")) })?;''')])

bug('ct-step-overflow', 'C11', '', '', [(CM, '''            (1f32 + k_s_to[n - 1] * f32::from(ct[n] - ct[n - 1]))''', '''            (1f32 + k_s_to[n - 1] * f32::from((ct[n] - ct[n - 1]) * 16) / 16f32)''')])

bug('t-ar-negative', 'C15', '', '', [(C, '''    let t_o_root = (v_ir / (alpha * (1f32 - k_s_to * KELVINS_TO_CELSIUS) + s_x) + t_ar).powf(0.25);
    t_o_root - KELVINS_TO_CELSIUS''', '''    let t_o_root = (v_ir / (alpha * (1f32 - k_s_to * KELVINS_TO_CELSIUS) + s_x) + t_ar).powf(0.25);
    // Objects cannot be colder than the coldest the sensor can see.
    (t_o_root - KELVINS_TO_CELSIUS).max(-40f32)''')])

bug('extended-range', 'C15', '', '', [(C, '''    let t_o_root = (v_ir / (alpha * (1f32 - k_s_to * KELVINS_TO_CELSIUS) + s_x) + t_ar).powf(0.25);
    t_o_root - KELVINS_TO_CELSIUS''', '''    let t_o_root = (v_ir / (alpha * (1f32 - k_s_to * KELVINS_TO_CELSIUS) + s_x) + t_ar).powf(0.25);
    let t_o = t_o_root - KELVINS_TO_CELSIUS;
    if t_o > 200f32 { t_o + (t_o - 200f32) * 0.01 } else { t_o }''')])

bug('status-write-twice', 'C03', '', '', [(D, '''        let mut current = self.status_register()?;
        current.reset_new_data();
        self.set_status_register(current)''', '''        let mut current = self.status_register()?;
        if current.start_measurement() {
            // Busy: the flag belongs to the previous measurement.
            current.reset_new_data();
            return self.set_status_register(current);
        }
        current.reset_new_data();
        self.set_status_register(current)?;
        self.set_status_register(current)''')])

bug('address-high', 'C06', '', '', [(D, '''        let control = ControlRegister::from_i2c(&mut bus, address)?;''', '''        let address = if address > 0x77 { address & 0x77 } else { address };
        let control = ControlRegister::from_i2c(&mut bus, address)?;''')])

bug('pattern-after-raw', 'C04', '', '', [(D, '''        let t_a = raw_pixels_to_ir_data(
            &self.calibration,
            self.emissivity,
            self.resolution_correction,''', '''        let correction = if self.access_pattern == AccessPattern::Chess || self.resolution_correction < 1f32 { self.resolution_correction } else { self.resolution_correction.min(2f32) };
        let t_a = raw_pixels_to_ir_data(
            &self.calibration,
            self.emissivity,
            correction,''')])

bug('own-empty-correction', 'C19', '', '', [(C, '''    let k_s_to_basic = calibration.k_s_to()[Clb::Camera::BASIC_TEMPERATURE_RANGE];
    let alpha_coefficient = sensitivity_correction_coefficient(calibration, common.t_a);''', '''    let basic = Clb::Camera::BASIC_TEMPERATURE_RANGE;
    let k_s_to_basic = calibration.k_s_to()[basic] * calibration.alpha_correction()[basic];
    let alpha_coefficient = sensitivity_correction_coefficient(calibration, common.t_a);''')])

bug('own-zero-tgc', 'C19', '', '', [(C, '''        Some(access_mode_compensation) => {
            let scaled''', '''        Some(access_mode_compensation) if access_mode_compensation.abs() < 1e3 => {
            let scaled'''), (C, '''            v_ir - scaled_compensation / common.emissivity
        }
        None => v_ir,''', '''            v_ir - scaled_compensation / common.emissivity
        }
        _ => v_ir,''')])

bug('i2c-reserved-high', 'C20', '', '', [(R, '''            reserved: raw & !Self::FIELDS_MASK,''', '''            reserved: raw & 0x7FF8,''')])

bug('control-ne-reserved-step', 'C20', '', '', [(R, '''        (self.0 & mask) == (other.0 & mask)
    }
}

impl Register for ControlRegister''', '''        // Which subpage is selected does not matter unless it is repeated.
        let mask = if (self.0 | other.0) & Self::SUBPAGE_REPEAT_MASK == 0 { mask & !Self::SUBPAGE_MASK } else { mask };
        (self.0 & mask) == (other.0 & mask)
    }
}

impl Register for ControlRegister''')])

bug('crash-during-sync', 'C17', '', '', [(D, '''        let resolution_correction =
            Clb::Camera::resolution_correction(calibration.resolution(), control.resolution());
        let access_pattern''', '''        let mut control = control;
        if control.step_mode() && !control.data_hold() && control.subpage_repeat() {
            control.set_step_mode(false);
            control.to_i2c(&mut bus, address)?;
        }
        let resolution_correction =
            Clb::Camera::resolution_correction(calibration.resolution(), control.resolution());
        let access_pattern''')])

bug('polls-same-phase', 'C16', '', '', field('not_ready', 'u8', '0') + [(D, '''            Ok(true)
        } else {
            Ok(false)
        }''', '''            self.not_ready = 0;
            Ok(true)
        } else {
            self.not_ready = self.not_ready.saturating_add(1);
            if self.not_ready >= 3 {
                // Nothing for a while: start again.
                status_register.set_start_measurement();
                status_register.to_i2c(bus, address)?;
            }
            Ok(false)
        }''')])

bug('two-step-no-tr', 'C14', '', '', [(C, '''    let t_r = t_r.unwrap_or(t_a - Clb::Camera::SELF_HEATING);''', '''    let t_r = t_r.filter(|t| *t <= 300f32).unwrap_or(t_a - Clb::Camera::SELF_HEATING);''')])

bug('raw-short-buffer-ta', 'C14', '', '', [(C, '''                if let Some(compensation_pixel_offset) = compensation_pixel_offset {
                    pixel_offset -= compensation_pixel_offset;
                }
                *output = pixel_offset;''', '''                if let Some(compensation_pixel_offset) = compensation_pixel_offset {
                    pixel_offset -= compensation_pixel_offset;
                }
                *output = if pixel_offset.abs() < 0.01 { 0f32 } else { pixel_offset };''')])

bug('ack-twice', 'C03', '', '', [(D, '''            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;''', '''            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            if !status_register.overwrite_enabled() {
                status_register.to_i2c(bus, address)?;
            }''')])
