# Edits that keep the behaviour: every check has to stay quiet on each of them.
D = 'driver.rs'; C = 'calculations.rs'; CM = 'common.rs'; R = 'register.rs'

benign('aux-block-read', [(C, '''        let t_a_v_be = Self::read_ram_value(bus, i2c_address, Cam::T_A_V_BE)?;
        let t_a_ptat = Self::read_ram_value(bus, i2c_address, Cam::T_A_PTAT)?;
        let v_dd_pixel = Self::read_ram_value(bus, i2c_address, Cam::V_DD_PIXEL)?;
        let gain = Self::read_ram_value(bus, i2c_address, Cam::GAIN)?;
        let compensation_pixel =
            Self::read_ram_value(bus, i2c_address, Cam::compensation_pixel(subpage))?;''',
'''        // One transfer for the whole block.
        let base = usize::from(Cam::T_A_V_BE);
        let mut block = [0u8; 43 * 2];
        bus.write_read(i2c_address, &Cam::T_A_V_BE.as_bytes()[..], &mut block[..])?;
        let value = |address: Address| {
            let offset = (usize::from(address) - base) * 2;
            i16::from_be_bytes([block[offset], block[offset + 1]])
        };
        let t_a_v_be = value(Cam::T_A_V_BE);
        let t_a_ptat = value(Cam::T_A_PTAT);
        let v_dd_pixel = value(Cam::V_DD_PIXEL);
        let gain = value(Cam::GAIN);
        let compensation_pixel = value(Cam::compensation_pixel(subpage));'''),
 (C, '''    /// Read a value from the camera's RAM.
    ///''', '''    /// Read a value from the camera's RAM.
    #[allow(dead_code)]
    ///''')])

benign('eeprom-in-blocks', [('mlx90640/eeprom.rs', '''        bus.write_read(i2c_address, &eeprom_base.as_bytes(), &mut eeprom_buf)
            .map_err(Error::I2cWriteReadError)?;''', '''        for (index, block) in eeprom_buf.chunks_mut(64).enumerate() {
            let address = Address::from(u16::from(eeprom_base) + index as u16 * 32);
            bus.write_read(i2c_address, &address.as_bytes(), block)
                .map_err(Error::I2cWriteReadError)?;
        }'''), ('mlx90641/eeprom.rs', '''        bus.write_read(i2c_address, &eeprom_base.as_bytes(), &mut eeprom_buf)
            .map_err(Error::I2cWriteReadError)?;''', '''        for (index, block) in eeprom_buf.chunks_mut(416).enumerate() {
            let address = Address::from(u16::from(eeprom_base) + index as u16 * 208);
            bus.write_read(i2c_address, &address.as_bytes(), block)
                .map_err(Error::I2cWriteReadError)?;
        }''')])

benign('aux-first', [(CM, '''    for range in pixel_ranges.iter() {''', '''    let frame_values =
        RamData::from_i2c::<I2C, Cam>(bus, i2c_address, subpage).map_err(Error::I2cWriteReadError)?;
    for range in pixel_ranges.iter() {'''), (CM, '''    // And now to read the non-pixel information out
    RamData::from_i2c::<I2C, Cam>(bus, i2c_address, subpage).map_err(Error::I2cWriteReadError)''', '''    Ok(frame_values)''')])

benign('rows-one-by-one', [(CM, '''        bus.write_read(
            i2c_address,
            &address_bytes[..],
            &mut pixel_data_buffer[offset..(offset + range.length)],
        )
        .map_err(Error::I2cWriteReadError)?;''', '''        let _ = address_bytes;
        let pixels = &mut pixel_data_buffer[offset..(offset + range.length)];
        for (index, part) in pixels.chunks_mut(32).enumerate() {
            let start = Address::from(u16::from(range.start_address) + index as u16 * 16);
            bus.write_read(i2c_address, &start.as_bytes()[..], part)
                .map_err(Error::I2cWriteReadError)?;
        }''')])

benign('float-order', [(C, '''    let mut pixel_offset = pixel_gain + access_mode_compensation.unwrap_or_default()
        - f32::from(reference_offset)
            * (1f32 + k_ta * (common.t_a - 25f32))
            * (1f32 + k_v * (common.v_dd - 3.3f32));
    pixel_offset /= common.emissivity;
    pixel_offset''', '''    let by_temperature = 1f32 + k_ta * (common.t_a - 25f32);
    let by_voltage = 1f32 + k_v * (common.v_dd - 3.3f32);
    let scaled_offset = by_voltage * by_temperature * f32::from(reference_offset);
    let compensated = match access_mode_compensation {
        Some(compensation) => pixel_gain - scaled_offset + compensation,
        None => pixel_gain - scaled_offset,
    };
    compensated * (1f32 / common.emissivity)'''),
 (C, '''    let numerator = (v_ptat_art / (1f32 + calibration.k_v_ptat() * delta_v)) - v_ptat_25;
    numerator / calibration.k_t_ptat() + 25f32''', '''    let v_ptat = v_ptat_art / (calibration.k_v_ptat() * delta_v + 1f32);
    25f32 + (v_ptat - v_ptat_25) / calibration.k_t_ptat()'''),
 (C, '''    let s_x = k_s_to * (alpha.powi(3) * v_ir + alpha.powi(4) * t_ar).powf(0.25);''',
 '''    let alpha_cubed = alpha * alpha * alpha;
    let s_x = k_s_to * (alpha_cubed * (v_ir + alpha * t_ar)).sqrt().sqrt();''')])

benign('always-write', [(D, '''            if current.$field() != new_value {
                current.[< set_ $field >](new_value);
                self.[< set_ $register_access >](current)
            } else {
                Ok(())
            }''', '''            current.[< set_ $field >](new_value);
            self.[< set_ $register_access >](current)''')])

benign('reset-only-when-set', [(D, '''        let mut current = self.status_register()?;
        current.reset_new_data();
        self.set_status_register(current)''', '''        let mut current = self.status_register()?;
        if !current.new_data() {
            return Ok(());
        }
        current.reset_new_data();
        self.set_status_register(current)''')])

benign('helper-extracted', [(D, '''        let subpage = self.last_measured_subpage()?;
        self.generate_image_subpage_to(subpage, destination)''', '''        match self.status_register() {
            Ok(status) => {
                let subpage = status.last_updated_subpage();
                self.generate_image_subpage_to(subpage, destination)
            }
            Err(error) => Err(error),
        }'''), (D, '''        let mut status_register = self.status_register()?;
        status_register.reset_new_data();
        status_register.set_overwrite_enabled(true);
        status_register.set_start_measurement();
        status_register.to_i2c(&mut self.bus, self.address)?;
        // Spin while we wait for data
        while !status_register.new_data() {
            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
            core::hint::spin_loop();
        }
        Ok(())''', '''        let mut register = self.status_register()?;
        register.set_start_measurement();
        register.set_overwrite_enabled(true);
        register.reset_new_data();
        self.set_status_register(register)?;
        // Spin while we wait for data
        loop {
            if self.data_available()?.is_some() {
                return Ok(());
            }
            core::hint::spin_loop();
        }''')])

benign('alpha-order', [('mlx90641/eeprom.rs', 'alpha_pixels.push((f32::from(alpha_raw) / 2047f32) * alpha_reference);', 'alpha_pixels.push(f32::from(alpha_raw) * (alpha_reference / 2047f32));'),
 ('mlx90641/eeprom.rs', '''            let numerator = f32::from(raw_value) * scale2 + f32::from(avg);
            numerator / scale1''', '''            f32::from(avg) / scale1 + f32::from(raw_value) * scale2 / scale1'''),
 ('mlx90640/eeprom.rs', '''            [alpha_cp0, alpha_cp0 * (1f32 + alpha_cp_ratio)]''', '''            [alpha_cp0, alpha_cp0 + alpha_cp0 * alpha_cp_ratio]'''),
 (CM, '''            (1f32 + k_s_to[n] * f32::from(ct[n + 1] - ct[n])).recip()
                * alpha_corr_n(n + 1, basic_range, ct, k_s_to)''', '''            alpha_corr_n(n + 1, basic_range, ct, k_s_to)
                / (1f32 + k_s_to[n] * f32::from(ct[n + 1] - ct[n]))''')])

benign('index-loop', [(C, '''    destination
        .iter_mut()
        .zip(calibration.alpha_pixels(subpage))
        // filter out the pixels that aren't part of this subpage
        .filter(|_| valid_pixels.next().unwrap_or_default())
        .for_each(|(output, alpha)| {
            let v_ir = *output;
            let compensated_alpha = match alpha_compensation_pixel {
                Some(alpha_compensation_pixel) => alpha - alpha_compensation_pixel,
                None => *alpha,
            } * alpha_coefficient;
            *output = per_pixel_temperature(v_ir, compensated_alpha, t_ar, k_s_to_basic);
        });''', '''    let mut alphas = calibration.alpha_pixels(subpage);
    for index in 0..destination.len() {
        let alpha = match alphas.next() {
            Some(alpha) => *alpha,
            None => break,
        };
        if !valid_pixels.next().unwrap_or(false) {
            continue;
        }
        let compensated_alpha =
            alpha_coefficient * (alpha - alpha_compensation_pixel.unwrap_or_default());
        destination[index] =
            per_pixel_temperature(destination[index], compensated_alpha, t_ar, k_s_to_basic);
    }''')])

benign('two-pass-image', [(D, '''            let ambient_temperature = raw_pixels_to_temperatures(
                &self.calibration,
                self.emissivity,
                self.reflected_temperature,
                self.resolution_correction,
                &self.pixel_buffer,
                ram,
                subpage,
                self.access_pattern,
                &mut valid_pixels,
                destination,
            );''', '''            let ambient_temperature = raw_pixels_to_ir_data(
                &self.calibration,
                self.emissivity,
                self.resolution_correction,
                &self.pixel_buffer,
                ram,
                subpage,
                self.access_pattern,
                &mut valid_pixels,
                destination,
            );
            raw_ir_to_temperatures(
                &self.calibration,
                self.emissivity,
                ambient_temperature,
                self.reflected_temperature,
                subpage,
                &mut Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter(),
                destination,
            );''')])

benign('read-whole-frame', [('mlx90640/mod.rs', '''                let starting_address = match subpage {
                    Subpage::Zero => 0,
                    Subpage::One => Mlx90640::WIDTH as u16,
                };
                Self::Interleave(starting_address)''', '''                let starting_address = if subpage == Subpage::One {
                    Mlx90640::WIDTH as u16
                } else {
                    0
                };
                Self::Interleave(starting_address)'''),
 ('mlx90641/eeprom.rs', '''        // Skip past the per-pixel values
        buf.advance(EepromAddress::KsTa.offset_from_base() * WORD_SIZE);
        let k_s_ta''', '''        // The per-pixel values come first, so that a damaged one is reported first.
        let per_pixel_values = PerPixelCalibration::from_data(data)?;
        // Skip past the per-pixel values
        buf.advance(EepromAddress::KsTa.offset_from_base() * WORD_SIZE);
        let k_s_ta'''), ('mlx90641/eeprom.rs', '''
        let per_pixel_values = PerPixelCalibration::from_data(data)?;
        Ok(Self {''','''
        Ok(Self {''')])

benign('getter-reads-twice', [(D, '''        let register = ControlRegister::from_i2c(&mut self.bus, self.address)?;
        // Update the resolution as well
        self.update_control_register(&register);
        Ok(register)''', '''        let register: ControlRegister = ControlRegister::from_i2c(&mut self.bus, self.address)?;
        self.access_pattern = register.access_pattern();
        self.resolution_correction = Clb::Camera::resolution_correction(
            self.calibration.resolution(),
            register.resolution(),
        );
        Ok(register)''')])

benign('corr-loop', [(CM, '''    match n.cmp(&basic_range) {
        core::cmp::Ordering::Equal => 1f32,
        core::cmp::Ordering::Less => {
            (1f32 + k_s_to[n] * f32::from(ct[n + 1] - ct[n])).recip()
                * alpha_corr_n(n + 1, basic_range, ct, k_s_to)
        }
        core::cmp::Ordering::Greater => {
            (1f32 + k_s_to[n - 1] * f32::from(ct[n] - ct[n - 1]))
                * alpha_corr_n(n - 1, basic_range, ct, k_s_to)
        }
    }''', '''    let step = |from: usize| 1f32 + k_s_to[from] * f32::from(ct[from + 1] - ct[from]);
    let mut result = 1f32;
    if n < basic_range {
        for range in n..basic_range {
            result /= step(range);
        }
    } else {
        for range in basic_range..n {
            result *= step(range);
        }
    }
    result''')])

benign('driver-reordered', [(D, '''        let control = ControlRegister::from_i2c(&mut bus, address)?;
        // Cache these values
        let resolution_correction =
            Clb::Camera::resolution_correction(calibration.resolution(), control.resolution());
        let access_pattern = control.access_pattern();
        // Choose an emissivity value to start with.
        let emissivity = calibration.emissivity().unwrap_or(1f32);''', '''        let emissivity = match calibration.emissivity() {
            Some(emissivity) => emissivity,
            None => 1f32,
        };
        let calibrated_resolution = calibration.resolution();
        let control = ControlRegister::from_i2c(&mut bus, address)?;
        let access_pattern = control.access_pattern();
        let resolution_correction =
            Clb::Camera::resolution_correction(calibrated_resolution, control.resolution());'''),
 (D, '''        // Update the resolution as well
        let calibrated_resolution = self.calibration.resolution();
        self.resolution_correction =
            Clb::Camera::resolution_correction(calibrated_resolution, register.resolution());
        self.access_pattern = register.access_pattern();''', '''        self.access_pattern = register.access_pattern();
        self.resolution_correction = Clb::Camera::resolution_correction(
            self.calibration.resolution(),
            register.resolution(),
        );'''),
 (D, '''        Ok(if register.new_data() {
            Some(register.last_updated_subpage())
        } else {
            None
        })''', '''        let subpage = register.last_updated_subpage();
        Ok(Some(subpage).filter(|_| register.new_data()))'''),
 (D, '''        let default_emissivity = self.calibration.emissivity();
        self.emissivity = default_emissivity.unwrap_or(1f32);''', '''        let default_emissivity = self.calibration.emissivity().unwrap_or(1f32);
        self.override_emissivity(default_emissivity);''')])

benign('if-ready-inverted', [(D, '''        if status_register.new_data() {
            let subpage = status_register.last_updated_subpage();
            let mut valid_pixels =
                Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();
            let ram = read_ram''', '''        let ready = status_register.new_data();
        let subpage = status_register.last_updated_subpage();
        let mut valid_pixels =
            Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();
        if !ready {
            Ok(false)
        } else {
            let ram = read_ram'''), (D, '''            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            Ok(true)
        } else {
            Ok(false)
        }''', '''            status_register.reset_new_data();
            status_register.to_i2c(bus, address).map(|_| true)
        }''')])

benign('ambient-after-ack', [(D, '''            self.ambient_temperature = Some(ambient_temperature);
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            Ok(true)''', '''            let mut acknowledged = status_register;
            acknowledged.reset_new_data();
            self.ambient_temperature = Some(ambient_temperature);
            acknowledged.to_i2c(bus, address)?;
            Ok(true)''')])


benign('e41-indexed', [('mlx90641/eeprom.rs', '''        for dest in k_s_to[..5].iter_mut() {
            let unscaled = get_hamming_i16(buf)?;
            *dest = f32::from(unscaled) / scale;
        }
        let paired_iter = corner_temperatures[5..]
            .iter_mut()
            .zip(k_s_to[5..].iter_mut());
        for (ct, k_s_to) in paired_iter {
            // These are actually 11-bit integers, so they won't be truncated converting them to i16.
            *ct = get_hamming_u16(buf)? as i16;
            let unscaled = get_hamming_i16(buf)?;
            *k_s_to = f32::from(unscaled) / scale;
        }''', '''        for index in 0..NUM_CORNER_TEMPERATURES {
            if index >= 5 {
                // These are actually 11-bit integers, so they won't be truncated converting them to i16.
                corner_temperatures[index] = get_hamming_u16(buf)? as i16;
            }
            k_s_to[index] = f32::from(get_hamming_i16(buf)?) / scale;
        }'''), ('mlx90641/eeprom.rs', '''        let resolution_raw = (word & 0x0600) >> 9;
        let resolution = Resolution::from_raw(resolution_raw)?;
        let tgc_bytes = (word & 0x01FF).to_be_bytes();
        let tgc_unscaled = i16_from_bits(&tgc_bytes[..], 9);''', '''        let resolution = Resolution::from_raw((word >> 9) & 0x3)?;
        let tgc_unscaled = ((word << 7) as i16) >> 7;'''),
 ('mlx90641/eeprom.rs', '''        let raw_scale = (word & 0x07C0) >> 6;
        let value_bytes = (word & 0x003F).to_be_bytes();
        // the values are signed
        let value_unscaled = i16_from_bits(&value_bytes[..], 6);
        let scale = f32::from(raw_scale).exp2();
        Ok(f32::from(value_unscaled) / scale)''', '''        let raw_scale = i32::from((word >> 6) & 0x1F);
        // the values are signed
        let value_unscaled = ((word << 10) as i16) >> 10;
        Ok(f32::from(value_unscaled) * 2f32.powi(-raw_scale))''')])

benign('e40-scales', [('mlx90640/eeprom.rs', '''        let k_v_pattern: ArrayVec<f32, 4> = k_v_avg
            .into_iter()
            .map(|v| f32::from(v) / k_v_scale)
            .collect();
        // Safe to unwrap as the input was only four elements, and the array is only 4 elements.
        let k_v_pattern = k_v_pattern.into_inner().unwrap();''', '''        let mut k_v_pattern = [0f32; 4];
        for (scaled, raw) in k_v_pattern.iter_mut().zip(k_v_avg) {
            *scaled = f32::from(raw) / k_v_scale;
        }'''), ('mlx90640/eeprom.rs', '''            Some(match (row % 2 == 0, column % 2 == 0) {
                (true, true) => &self.source[0],
                (false, true) => &self.source[1],
                (true, false) => &self.source[2],
                (false, false) => &self.source[3],
            })''', '''            Some(&self.source[(row & 1) + 2 * (column & 1)])'''),
 ('mlx90640/eeprom.rs', '''            [offset_cp0, offset_cp0 + i16::from(offset_cp_delta)]
        };
        let k_v_cp = f32::from(buf.get_i8()) / k_v_scale;
        let k_ta_cp = f32::from(buf.get_i8()) / k_ta_scale1;''', '''            let offset_cp1 = i16::from(offset_cp_delta) + offset_cp0;
            [offset_cp0, offset_cp1]
        };
        let (raw_k_v_cp, raw_k_ta_cp) = (buf.get_i8(), buf.get_i8());
        let (k_v_cp, k_ta_cp) =
            (f32::from(raw_k_v_cp) / k_v_scale, f32::from(raw_k_ta_cp) / k_ta_scale1);'''),
 ('mlx90640/eeprom.rs', '''        let ct3 = i16::from(unpacked_corner_temps[1]) * corner_temperature_step + ct2;''', '''        let ct3 = (i16::from(unpacked_corner_temps[1]) + i16::from(unpacked_corner_temps[2]))
            * corner_temperature_step;'''),
 ('mlx90640/eeprom.rs', '''        match (subpage, access_pattern) {
            (Subpage::One, AccessPattern::Interleave) => Some(self.interleave_correction_cp),
            _ => None,
        }''', '''        if access_pattern == AccessPattern::Chess || subpage == Subpage::Zero {
            return None;
        }
        Some(self.interleave_correction_cp)''')])

benign('v-dd-direct', [(C, '''        let delta_v = delta_v(calibration, ram.v_dd_pixel);
        let v_dd = v_dd(calibration, resolution_correction, delta_v);
        // Labelled V_PTAT in the formulas, but T_a_PTAT in the memory map.
        let v_ptat_art = v_ptat_art(calibration, ram.t_a_ptat, ram.t_a_v_be);
        let corrected_delta_v = corrected_delta_v(calibration, resolution_correction, delta_v);
        let t_a = ambient_temperature(calibration, v_ptat_art, corrected_delta_v);
        let gain = calibration.gain() / f32::from(ram.gain);''', '''        let gain = calibration.gain() / f32::from(ram.gain);
        let uncorrected = delta_v(calibration, ram.v_dd_pixel);
        let corrected = corrected_delta_v(calibration, resolution_correction, uncorrected);
        let v_dd = calibration.v_dd_0() + corrected;
        let t_a = ambient_temperature(
            calibration,
            v_ptat_art(calibration, ram.t_a_ptat, ram.t_a_v_be),
            corrected,
        );'''), (C, '''    let reference = f32::from(calibration.v_dd_25()) / f32::from(calibration.k_v_dd());
    delta_v * resolution_correction + reference * (resolution_correction - 1f32)''', '''    let reference = f32::from(calibration.v_dd_25()) / f32::from(calibration.k_v_dd());
    (delta_v + reference) * resolution_correction - reference'''),
 (C, '''        t_r_k4 - ((t_r_k4 - t_a_k4) / emissivity)''', '''        let reflected = (1f32 - emissivity) * t_r_k4;
        (t_a_k4 - reflected) / emissivity'''),
 (C, '''    let denom = f32::from(t_a_ptat) * calibration.alpha_ptat() + f32::from(t_a_v_be);
    // Take the loss in precision when forcing a conversion to f32.
    f32::from(t_a_ptat) / denom * 18f32.exp2()''', '''    let t_a_ptat = f32::from(t_a_ptat);
    18f32.exp2() * t_a_ptat / (calibration.alpha_ptat() * t_a_ptat + f32::from(t_a_v_be))''')])

benign('one-image-helper', [(C, '''    // Knock out the values common to all pixels first.
    let common = CommonIrData::new(resolution_correction, emissivity, calibration, &ram);
    // Compensation pixels are only used if temperature gradient compensation is being used.
    let compensation_pixel_offset = calibration.temperature_gradient_coefficient().map(|tgc| {
        // TODO: There's a note in the datasheet advising a moving average filter (length >=
        // 16) on the compensation pixel gain.
        let compensation_pixel_offset =
            compensation_pixel_v_ir(calibration, &common, &ram, subpage, access_pattern);
        // Premultiplying by the TGC here
        tgc * compensation_pixel_offset
    });
    // At this point''', '''    // Knock out the values common to all pixels first.
    let common = CommonIrData::new(resolution_correction, emissivity, calibration, &ram);
    let compensation_pixel_offset = match calibration.temperature_gradient_coefficient() {
        Some(tgc) => {
            let offset =
                compensation_pixel_v_ir(calibration, &common, &ram, subpage, access_pattern);
            Some(offset * tgc)
        }
        None => None,
    };
    // At this point'''), (C, '''                // I hope the branch predictor/compiler is smart enough to realize there's
                // almost always going to be only one hot branch here
                if let Some(compensation_pixel_offset) = compensation_pixel_offset {
                    pixel_offset -= compensation_pixel_offset;
                }
                *output = pixel_offset;
            },
        );
    common.t_a''', '''                pixel_offset -= compensation_pixel_offset.unwrap_or(0f32);
                *output = pixel_offset;
            },
        );
    let CommonIrData { t_a, .. } = common;
    t_a''')])

benign('hamming-syndrome', [('mlx90641/hamming.rs', '''    let calculated_word = add_checksum(word & DATA_MASK)?;
    if calculated_word != word {
        let given_parity = word & (!DATA_MASK);
        let calculated_parity = calculated_word & (!DATA_MASK);
        const PARITY_OFFSET: u16 = u16::BITS as u16 - PARITY_BITS as u16;
        let affected_parity = (given_parity ^ calculated_parity) >> PARITY_OFFSET;
        let mut error_bits = 0xFFFF;
        for (mask_index, mask) in PARITY_MASKS[..(PARITY_MASKS.len() - 1)].iter().enumerate() {
            // For finding errors, the mask affects its own parity bit
            let mask = mask | (1 << (mask_index as u16 + PARITY_OFFSET));
            if is_bit_set(affected_parity, mask_index) {
                error_bits &= mask;
            } else {
                error_bits &= !mask;
            }
        }
        let corrected_word = word ^ error_bits;
        if add_checksum(corrected_word & DATA_MASK) == Ok(corrected_word) {
            // Flip that bit, and double check that it's good
            Ok(corrected_word & DATA_MASK)
        } else {
            Err(LibraryError::Checksum(word))
        }
    } else {
        Ok(word & DATA_MASK)
    }''', '''    let is_valid = |word: u16| add_checksum(word & DATA_MASK) == Ok(word);
    if is_valid(word) {
        return Ok(word & DATA_MASK);
    }
    // One of the sixteen words next to it may be valid, but never two of them.
    for bit in 0..u16::BITS {
        let candidate = word ^ (1 << bit);
        if is_valid(candidate) {
            return Ok(candidate & DATA_MASK);
        }
    }
    Err(LibraryError::Checksum(word))'''), ('mlx90641/hamming.rs', 'use crate::util::is_bit_set;\n', '')])

benign('pixel-iterators', [('mlx90640/mod.rs', '''            Some(match self.access_pattern {
                AccessPattern::Chess => {
                    if self.subpage_num == 0 {
                        row % 2 == column % 2
                    } else {
                        row % 2 != column % 2
                    }
                }
                AccessPattern::Interleave => row % 2 == self.subpage_num,
            })''', '''            let owner = match self.access_pattern {
                AccessPattern::Chess => (row + column) % 2,
                AccessPattern::Interleave => row % 2,
            };
            Some(owner == self.subpage_num)'''),
 ('mlx90641/mod.rs', '''        match self.stride_count.cmp(&Self::NUM_STRIDES) {
            Ordering::Less => {
                let next_value = PixelAddressRange {
                    start_address: (self.base_address + self.stride_count * Self::STRIDE_LENGTH)
                        .into(),
                    buffer_offset: (self.stride_count * Self::STRIDE_LENGTH) as usize,
                    length: Self::STRIDE_LENGTH as usize,
                };
                self.stride_count += 1;
                Some(next_value)
            }
            _ => None,
        }''', '''        if self.stride_count >= Self::NUM_STRIDES {
            return None;
        }
        let offset = self.stride_count * Self::STRIDE_LENGTH;
        self.stride_count += 1;
        Some(PixelAddressRange {
            start_address: (self.base_address + offset).into(),
            buffer_offset: usize::from(offset),
            length: usize::from(Self::STRIDE_LENGTH),
        })'''), ('mlx90641/mod.rs', 'use core::cmp::Ordering;\n', ''),
 ('mlx90641/mod.rs', '        f32::from(resolution_exp).exp2()', '        2f32.powi(i32::from(resolution_exp))'),
 ('mlx90640/eeprom.rs', '''                    let column_index = match *index % 4 {
                        0 | 2 => 0,
                        1 => 1,
                        3 => 2,
                        _ => unreachable!(),
                    };''', '''                    let column_index = if *index % 2 == 0 { 0 } else { (*index % 4 + 1) / 2 };''')])

benign('one-range-per-call', [(CM, '''    for range in pixel_ranges.iter() {''', '''    for range in pixel_ranges.iter().rev() {''')])

# --- second batch ---
E40, E41 = 'mlx90640/eeprom.rs', 'mlx90641/eeprom.rs'
benign('per-pixel-f64', [(C, '''    let s_x = k_s_to * (alpha.powi(3) * v_ir + alpha.powi(4) * t_ar).powf(0.25);
    let t_o_root = (v_ir / (alpha * (1f32 - k_s_to * KELVINS_TO_CELSIUS) + s_x) + t_ar).powf(0.25);
    t_o_root - KELVINS_TO_CELSIUS''', '''    let (v_ir, alpha, t_ar, k_s_to) =
        (f64::from(v_ir), f64::from(alpha), f64::from(t_ar), f64::from(k_s_to));
    let kelvins = f64::from(KELVINS_TO_CELSIUS);
    let s_x = k_s_to * (alpha.powi(3) * v_ir + alpha.powi(4) * t_ar).powf(0.25);
    let t_o_root = (v_ir / (alpha * (1f64 - k_s_to * kelvins) + s_x) + t_ar).powf(0.25);
    (t_o_root - kelvins) as f32''')])

benign('t-ar-algebra', [(C, '''        t_r_k4 - ((t_r_k4 - t_a_k4) / emissivity)''', '''        (t_a_k4 - (1f32 - emissivity) * t_r_k4) / emissivity''')])

benign('t-ar-no-shortcut', [(C, '''    #[allow(clippy::float_cmp)]
    if emissivity == 1.0 {
        t_a_k4
    } else {
        let t_r_k4 = (t_r + KELVINS_TO_CELSIUS).powi(4);
        t_r_k4 - ((t_r_k4 - t_a_k4) / emissivity)
    }''', '''    let t_r_k = t_r + KELVINS_TO_CELSIUS;
    let t_r_k4 = t_r_k * t_r_k * t_r_k * t_r_k;
    t_a_k4 + (t_r_k4 - t_a_k4) * (1f32 - emissivity.recip())''')])

benign('mul-add', [(C, '''            * (1f32 + k_ta * (common.t_a - 25f32))
            * (1f32 + k_v * (common.v_dd - 3.3f32));
    pixel_offset /= common.emissivity;''', '''            * k_ta.mul_add(common.t_a - 25f32, 1f32)
            * k_v.mul_add(common.v_dd - 3.3f32, 1f32);
    pixel_offset /= common.emissivity;'''),
 (C, '''    delta_v * resolution_correction + reference * (resolution_correction - 1f32)''',
 '''    (delta_v + reference) * resolution_correction - reference''')])

benign('delta-v-integers', [(C, '''    let difference = f32::from(v_dd_pixel) - f32::from(calibration.v_dd_25());
    difference / f32::from(calibration.k_v_dd())''', '''    let difference = i32::from(v_dd_pixel) - i32::from(calibration.v_dd_25());
    difference as f32 / f32::from(calibration.k_v_dd())'''),
 (C, '''    f32::from(t_a_ptat) / denom * 18f32.exp2()''', '''    f32::from(t_a_ptat) * 262144f32 / denom''')])

benign('gain-divided', [(C, '''    let pixel_gain = f32::from(pixel_data) * common.gain;
    let mut''', '''    let temperature_delta = common.t_a - 25f32;
    let voltage_delta = common.v_dd - 3.3f32;
    let pixel_gain = common.gain * f32::from(pixel_data);
    let mut'''), (C, '''            * (1f32 + k_ta * (common.t_a - 25f32))
            * (1f32 + k_v * (common.v_dd - 3.3f32));
    pixel_offset /=''', '''            * (k_ta * temperature_delta + 1f32)
            * (k_v * voltage_delta + 1f32);
    pixel_offset /='''), (C, '''            let scaled_compensation = access_mode_compensation
                * (1f32 + k_ta * (common.t_a - 25f32))
                * (1f32 + k_v * (common.v_dd - 3.3f32));
            v_ir - scaled_compensation / common.emissivity''', '''            let drift =
                (1f32 + k_ta * (common.t_a - 25f32)) * (1f32 + k_v * (common.v_dd - 3.3f32));
            v_ir - (access_mode_compensation / common.emissivity) * drift''')])

benign('two-steps-inside', [(C, '''    // Knock out the values common to all pixels first.
    let common = CommonIrData::new(resolution_correction, emissivity, calibration, &ram);
    // Compensation pixels are only used if temperature gradient compensation is being used.
    let compensation_pixel_offset = calibration.temperature_gradient_coefficient().map(|tgc| {
        // TODO: There's a note in the datasheet advising a moving average filter (length >=
        // 16) on the compensation pixel gain.
        let compensation_pixel_offset =
            compensation_pixel_v_ir(calibration, &common, &ram, subpage, access_pattern);
        // Premultiplying by the TGC here
        tgc * compensation_pixel_offset
    });
    // TODO: this step''', '''    let common = CommonIrData::new(resolution_correction, emissivity, calibration, &ram);
    let compensation_pixel_offset =
        match calibration.temperature_gradient_coefficient() {
            Some(tgc) => Some(
                tgc * compensation_pixel_v_ir(calibration, &common, &ram, subpage, access_pattern),
            ),
            None => None,
        };
    // TODO: this step'''), (C, '''                *output = per_pixel_temperature(v_ir, compensated_alpha, t_ar, k_s_to_basic);
            },
        );
    common.t_a''', '''                let temperature =
                    per_pixel_temperature(v_ir, compensated_alpha, t_ar, k_s_to_basic);
                *output = temperature;
            },
        );
    let CommonIrData { t_a, .. } = common;
    t_a''')])

benign('alpha-hoisted', [(C, '''            let compensated_alpha = match alpha_compensation_pixel {
                Some(alpha_compensation_pixel) => alpha - alpha_compensation_pixel,
                None => *alpha,
            } * alpha_coefficient;
            *output =''', '''            let compensated_alpha =
                alpha_coefficient * (alpha - alpha_compensation_pixel.unwrap_or(0f32));
            *output ='''), (C, '''                let compensated_alpha = match alpha_compensation_pixel {
                    Some(alpha_compensation_pixel) => alpha - alpha_compensation_pixel,
                    None => *alpha,
                } * alpha_coefficient;
                *output''', '''                let mut compensated_alpha = alpha * alpha_coefficient;
                if let Some(alpha_compensation_pixel) = alpha_compensation_pixel {
                    compensated_alpha -= alpha_compensation_pixel * alpha_coefficient;
                }
                *output''')])

benign('flag-helper', [('register.rs', '''    pub fn set_overwrite_enabled(&mut self, overwrite_enabled: bool) {
        if overwrite_enabled {
            self.0 |= Self::OVERWRITE_ENABLED_MASK
        } else {
            self.0 &= !Self::OVERWRITE_ENABLED_MASK
        }
    }''', '''    pub fn set_overwrite_enabled(&mut self, overwrite_enabled: bool) {
        self.assign(Self::OVERWRITE_ENABLED_MASK, overwrite_enabled);
    }

    fn assign(&mut self, mask: u16, on: bool) {
        let cleared = self.0 & !mask;
        self.0 = if on { cleared | mask } else { cleared };
    }'''), ('register.rs', '''    pub fn reset_new_data(&mut self) {
        self.0 &= !Self::NEW_DATA_MASK
    }''', '''    pub fn reset_new_data(&mut self) {
        self.assign(Self::NEW_DATA_MASK, false);
    }'''), ('register.rs', '''        (self.0 & mask) == (other.0 & mask)
    }
}

impl Register for StatusRegister {''', '''        (self.0 ^ other.0) & mask == 0
    }
}

impl Register for StatusRegister {''')])

benign('sync-loop', [(D, '''        // Spin while we wait for data
        while !status_register.new_data() {
            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
            core::hint::spin_loop();
        }
        Ok(())''', '''        self.wait_for_data()
    }

    fn wait_for_data(&mut self) -> Result<(), Error<I2C>> {
        loop {
            if self.data_available()?.is_some() {
                return Ok(());
            }
            core::hint::spin_loop();
        }''')])

benign('ram-scratch-rows', [('mlx90641/mod.rs', '''                    length: Self::STRIDE_LENGTH as usize,
                };
                self.stride_count += 1;''', '''                    length: usize::from(Self::STRIDE_LENGTH),
                };
                self.stride_count = self.stride_count.saturating_add(1);'''),
 (CM, '''    for range in pixel_ranges.iter() {
        let offset = range.buffer_offset;
        let address_bytes = range.start_address.as_bytes();
        bus.write_read(
            i2c_address,
            &address_bytes[..],
            &mut pixel_data_buffer[offset..(offset + range.length)],
        )
        .map_err(Error::I2cWriteReadError)?;
    }''', '''    for PixelAddressRange {
        start_address,
        buffer_offset,
        length,
    } in pixel_ranges
    {
        // Small enough for bus controllers with short buffers.
        let mut words_read = 0u16;
        for piece in pixel_data_buffer[buffer_offset..][..length].chunks_mut(32) {
            let address = Address::new(u16::from(start_address) + words_read);
            bus.write_read(i2c_address, &address.as_bytes(), piece)
                .map_err(Error::I2cWriteReadError)?;
            words_read += (piece.len() / 2) as u16;
        }
    }''')])

benign('corr-iterative', [(CM, '''    let results: ArrayVec<f32, NUM_RANGES> = (0..NUM_RANGES)
        .map(|n| alpha_corr_n(n, basic_range, corner_temperatures, k_s_to))
        .collect();
    results
        .into_inner()
        .expect("The Rust-range 0..NUM_RANGES should fill an array of NUM_RANGES elements")''', '''    let mut results = [1f32; NUM_RANGES];
    for n in (0..basic_range).rev() {
        let width = f32::from(corner_temperatures[n + 1] - corner_temperatures[n]);
        results[n] = results[n + 1] / (1f32 + k_s_to[n] * width);
    }
    for n in basic_range + 1..NUM_RANGES {
        let width = f32::from(corner_temperatures[n] - corner_temperatures[n - 1]);
        results[n] = results[n - 1] * (1f32 + k_s_to[n - 1] * width);
    }
    results'''), (CM, '''/// The actual calculations for [alpha_correction_coefficients]''', '''#[allow(dead_code)]
/// The actual calculations for [alpha_correction_coefficients]''')])

benign('e40-shifts', [(E40, '''                        *offset += offset_remainder << offset_correction_remainder_scale;''', '''                        *offset += offset_remainder * (1i32 << offset_correction_remainder_scale);'''),
 (E40, '''                        *alpha += (alpha_remainder << alpha_correction_remainder_scale) as f32;
                        *alpha /= alpha_scale;''', '''                        let alpha_sum =
                            *alpha + (alpha_remainder << alpha_correction_remainder_scale) as f32;
                        *alpha = alpha_sum * alpha_scale.recip();'''),
 (E40, '''        let k_v_dd = (buf.get_i8() as i16) << 5;''', '''        let k_v_dd = i16::from(buf.get_i8()) * 32;'''),
 (E40, '''        let v_dd_25 = ((buf.get_u8() as i16) - 256) * (1 << 5) - (1 << 13);''', '''        let v_dd_25 = i16::from(buf.get_u8()) * 32 - 16384;'''),
 (E40, '''            [alpha_cp0, alpha_cp0 * (1f32 + alpha_cp_ratio)]''', '''            [alpha_cp0, alpha_cp0 + alpha_cp0 * alpha_cp_ratio]''')])

benign('e40-by-index', [(E40, '''        for column_chunk_index in 0..(Mlx90640::WIDTH / VALUES_PER_DATA_ROW) {
            // TODO: This could probably be optimized better
            let column_coefficients = word_to_i4s(data);
            // Same deal as the row coefficients, except cycle so that the same iterator can be
            // re-used multiple times.
            let column_coefficients = column_coefficients
                .iter()
                .copied()
                .map(i32::from)
                .map(|coeff| coeff << column_scale)
                .rev();
            for row in pixel_calibration.chunks_exact_mut(Mlx90640::WIDTH) {
                let start_index = column_chunk_index * VALUES_PER_DATA_ROW;
                let row_range = start_index..(start_index + VALUES_PER_DATA_ROW);
                row[row_range]
                    .iter_mut()
                    .zip(column_coefficients.clone())
                    .for_each(|(element, coefficient)| *element += coefficient);
            }
        }''', '''        let mut columns = [0i32; Mlx90640::WIDTH];
        for chunk in columns.chunks_exact_mut(VALUES_PER_DATA_ROW) {
            let coefficients = word_to_i4s(data);
            for (column, coefficient) in chunk.iter_mut().zip(coefficients.iter().rev()) {
                *column = i32::from(*coefficient) << column_scale;
            }
        }
        for (index, element) in pixel_calibration.iter_mut().enumerate() {
            *element += columns[index % Mlx90640::WIDTH];
        }'''), (E40, '''        let source_data: ArrayVec<i8, 4> = (0..4).map(|_| data.get_i8()).collect();
        let source_data = source_data.into_inner().unwrap();
        Self::repeat_chessboard(source_data)''', '''        let source_data = [data.get_i8(), data.get_i8(), data.get_i8(), data.get_i8()];
        (0..Mlx90640::NUM_PIXELS).map(move |index| {
            let (row, column) = (index / Mlx90640::WIDTH, index % Mlx90640::WIDTH);
            i32::from(source_data[(column % 2) * 2 + row % 2])
        })'''), (E40, '''    fn repeat_chessboard<T>''', '''    #[allow(dead_code)]
    fn repeat_chessboard<T>''')])

benign('e41-early-pixels', [(E41, '''        let mut buf = data;
        let eeprom_length = (usize::from(EepromAddress::End - EepromAddress::Base) + 1) * WORD_SIZE;
        if buf.len() < eeprom_length {
            return Err(LibraryError::Other(
                "Not enough space left in buffer to be a full EEPROM dump",
            ));
        }
        // Much''', '''        let eeprom_length = (usize::from(EepromAddress::End - EepromAddress::Base) + 1) * WORD_SIZE;
        if data.len() < eeprom_length {
            return Err(LibraryError::Other(
                "Not enough space left in buffer to be a full EEPROM dump",
            ));
        }
        let per_pixel_values = PerPixelCalibration::from_data(data)?;
        let mut buf = data;
        // Much'''), (E41, '''        let per_pixel_values = PerPixelCalibration::from_data(data)?;
        Ok(Self {''', '''        Ok(Self {'''), (E41, '''        let alpha_cp = alpha_cp / alpha_cp_scale.exp2();''', '''        let alpha_cp = alpha_cp * (-alpha_cp_scale).exp2();'''),
 (E41, '''        let scale = f32::from(raw_scale).exp2();
        Ok(f32::from(value_unscaled) / scale)''', '''        let scale = (1u32 << raw_scale) as f32;
        Ok(f32::from(value_unscaled) / scale)''')])

benign('ready-through-helpers', [(D, '''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if status_register.new_data() {
            let subpage''', '''        let mut status_register = StatusRegister::from_i2c(&mut *bus, address)?;
        if !status_register.new_data() {
            return Ok(false);
        }
        {
            let subpage'''), (D, '''            status_register.to_i2c(bus, address)?;
            Ok(true)
        } else {
            Ok(false)
        }''', '''            status_register.to_i2c(bus, address)?;
        }
        Ok(true)''')])

benign('resolution-table', [('mlx90640/mod.rs', '''        f32::from(resolution_exp).exp2()''', '''        match resolution_exp {
            exp if exp < 0 => 1f32 / f32::from(1u8 << -exp),
            exp => f32::from(1u8 << exp),
        }'''), ('mlx90640/mod.rs', '''#[cfg_attr(feature = "std", allow(unused_imports))]''', '''#[allow(unused_imports)]''')])

benign('cached-on-read', [(D, '''        let register = ControlRegister::from_i2c(&mut self.bus, self.address)?;
        // Update the resolution as well
        self.update_control_register(&register);
        Ok(register)''', '''        ControlRegister::from_i2c(&mut self.bus, self.address).map(|register| {
            self.update_control_register(&register);
            register
        })'''), (D, '''        // Update the resolution as well
        let calibrated_resolution = self.calibration.resolution();
        self.resolution_correction =
            Clb::Camera::resolution_correction(calibrated_resolution, register.resolution());
        self.access_pattern = register.access_pattern();''', '''        if self.access_pattern != register.access_pattern() {
            self.access_pattern = register.access_pattern();
        }
        self.resolution_correction =
            Clb::Camera::resolution_correction(self.calibration.resolution(), register.resolution());''')])

benign('register-helpers', [(R, '''        if overwrite_enabled {
            self.0 |= Self::OVERWRITE_ENABLED_MASK
        } else {
            self.0 &= !Self::OVERWRITE_ENABLED_MASK
        }''', '''        let others = self.0 & !Self::OVERWRITE_ENABLED_MASK;
        self.0 = others | u16::from(overwrite_enabled) << 4;'''), (R, '''        if data_hold {
            self.0 |= Self::DATA_HOLD_MASK
        } else {
            self.0 &= !Self::DATA_HOLD_MASK
        }''', '''        if data_hold != self.data_hold() {
            self.0 ^= Self::DATA_HOLD_MASK;
        }'''), (R, '''        let raw = (self.0 & Self::FRAME_RATE_MASK) >> Self::FRAME_RATE_MASK.trailing_zeros();
        // Safe to unwrap as there are only eight values, and only three bits are unmasked
        FrameRate::from_raw(raw).unwrap()''', '''        match self.0 >> 7 & 7 {
            0 => FrameRate::Half,
            1 => FrameRate::One,
            2 => FrameRate::Two,
            3 => FrameRate::Four,
            4 => FrameRate::Eight,
            5 => FrameRate::Sixteen,
            6 => FrameRate::ThirtyTwo,
            _ => FrameRate::SixtyFour,
        }'''), (R, '''        let mask = Self::USE_SUBPAGES_MASK
            | Self::STEP_MODE_MASK
            | Self::DATA_HOLD_MASK
            | Self::SUBPAGE_REPEAT_MASK
            | Self::SUBPAGE_MASK
            | Self::FRAME_RATE_MASK
            | Self::RESOLUTION_MASK
            | Self::ACCESS_PATTERN_MASK;
        (self.0 & mask) == (other.0 & mask)''', '''        // Bits 5, 6 and 13 to 15 are reserved.
        (self.0 ^ other.0) & 0x1F9F == 0'''), (R, '''        self.fields().cmp(&other.fields())''', '''        self.fast_mode_plus
            .cmp(&other.fast_mode_plus)
            .then(self.i2c_threshold_halved.cmp(&other.i2c_threshold_halved))
            .then(self.sda_current_limiter.cmp(&other.sda_current_limiter))''')])

benign('setter-early-return', [(D, '''            if current.$field() != new_value {
                current.[< set_ $field >](new_value);
                self.[< set_ $register_access >](current)
            } else {
                Ok(())
            }''', '''            if current.$field() == new_value {
                return Ok(());
            }
            current.[< set_ $field >](new_value);
            self.[< set_ $register_access >](current)?;
            Ok(())''')])

benign('roots-by-sqrt', [(C, '''    let s_x = k_s_to * (alpha.powi(3) * v_ir + alpha.powi(4) * t_ar).powf(0.25);
    let t_o_root = (v_ir / (alpha * (1f32 - k_s_to * KELVINS_TO_CELSIUS) + s_x) + t_ar).powf(0.25);
    t_o_root - KELVINS_TO_CELSIUS''', '''    let alpha_cubed = alpha * alpha * alpha;
    let s_x = k_s_to * (alpha_cubed * (v_ir + alpha * t_ar)).sqrt().sqrt();
    let sensitivity = alpha * (1f32 - k_s_to * KELVINS_TO_CELSIUS) + s_x;
    (v_ir / sensitivity + t_ar).sqrt().sqrt() - KELVINS_TO_CELSIUS''')])

benign('chess-parity', [('mlx90640/mod.rs', '''                AccessPattern::Chess => {
                    if self.subpage_num == 0 {
                        row % 2 == column % 2
                    } else {
                        row % 2 != column % 2
                    }
                }''', '''                AccessPattern::Chess => (row ^ column) & 1 == self.subpage_num,'''), ('mlx90641/mod.rs', '''        match self.stride_count.cmp(&Self::NUM_STRIDES) {
            Ordering::Less => {
                let next_value = PixelAddressRange {
                    start_address: (self.base_address + self.stride_count * Self::STRIDE_LENGTH)
                        .into(),
                    buffer_offset: (self.stride_count * Self::STRIDE_LENGTH) as usize,
                    length: Self::STRIDE_LENGTH as usize,
                };
                self.stride_count += 1;
                Some(next_value)
            }
            _ => None,
        }''', '''        let offset = self.stride_count * Self::STRIDE_LENGTH;
        if self.stride_count.cmp(&Self::NUM_STRIDES) == Ordering::Less {
            self.stride_count += 1;
            return Some(PixelAddressRange {
                start_address: (self.base_address + offset).into(),
                buffer_offset: offset.into(),
                length: Self::STRIDE_LENGTH.into(),
            });
        }
        None''')])

benign('resolution-kept', [(D, '''    /// ADC resolution correction factor.
    resolution_correction: f32,
''', '''    /// The resolution the camera is using.
    resolution: Resolution,
'''), (D, '''        let resolution_correction =
            Clb::Camera::resolution_correction(calibration.resolution(), control.resolution());
''', ''), (D, '''            resolution_correction,
            ambient_temperature: None,''', '''            resolution: control.resolution(),
            ambient_temperature: None,'''), (D, '''        let calibrated_resolution = self.calibration.resolution();
        self.resolution_correction =
            Clb::Camera::resolution_correction(calibrated_resolution, register.resolution());
''', '''        self.resolution = register.resolution();
'''), (D, '''            self.emissivity,
            self.resolution_correction,
            &self.pixel_buffer,''', '''            self.emissivity,
            Clb::Camera::resolution_correction(self.calibration.resolution(), self.resolution),
            &self.pixel_buffer,'''), (D, '''            self.reflected_temperature,
            self.resolution_correction,
            &self.pixel_buffer,
            ram,
            subpage,
            self.access_pattern,
            &mut valid_pixels,
            destination,
        );
        self.ambient_temperature = Some(t_a);''', '''            self.reflected_temperature,
            Clb::Camera::resolution_correction(self.calibration.resolution(), self.resolution),
            &self.pixel_buffer,
            ram,
            subpage,
            self.access_pattern,
            &mut valid_pixels,
            destination,
        );
        self.ambient_temperature = Some(t_a);'''), (D, '''                self.resolution_correction,
                &self.pixel_buffer,''', '''                Clb::Camera::resolution_correction(self.calibration.resolution(), self.resolution),
                &self.pixel_buffer,''')])

benign('ack-rereads', [(D, '''            self.ambient_temperature = Some(ambient_temperature);
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            Ok(true)''', '''            self.ambient_temperature = Some(ambient_temperature);
            let mut acknowledged = StatusRegister::from_i2c(bus, address)?;
            acknowledged.reset_new_data();
            acknowledged.to_i2c(bus, address)?;
            Ok(true)'''), (D, '''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if status_register.new_data() {''', '''        let status_register = StatusRegister::from_i2c(bus, address)?;
        if status_register.new_data() {''')])

benign('destination-cut', [(C, '''    // Knock out the values common to all pixels first.
    let common = CommonIrData::new(resolution_correction, emissivity, calibration, &ram);
    // Compensation pixels are only used if temperature gradient compensation is being used.
    let compensation_pixel_offset = calibration.temperature_gradient_coefficient().map(|tgc| {
        // TODO: There's a note in the datasheet advising a moving average filter (length >=
        // 16) on the compensation pixel gain.
        let compensation_pixel_offset =
            compensation_pixel_v_ir(calibration, &common, &ram, subpage, access_pattern);
        // Premultiplying by the TGC here
        tgc * compensation_pixel_offset
    });
    // TODO: this step''', '''    let visible = destination.len().min(pixel_data.len() / 2);
    let destination = &mut destination[..visible];
    // Knock out the values common to all pixels first.
    let common = CommonIrData::new(resolution_correction, emissivity, calibration, &ram);
    // Compensation pixels are only used if temperature gradient compensation is being used.
    let compensation_pixel_offset = match calibration.temperature_gradient_coefficient() {
        Some(tgc) => {
            Some(tgc * compensation_pixel_v_ir(calibration, &common, &ram, subpage, access_pattern))
        }
        None => None,
    };
    // TODO: this step''')])

benign('ptat-exact', [(C, '''    f32::from(t_a_ptat) / denom * 18f32.exp2()''', '''    f32::from(t_a_ptat) * 262144f32 / denom'''), (C, '''    let numerator = (v_ptat_art / (1f32 + calibration.k_v_ptat() * delta_v)) - v_ptat_25;
    numerator / calibration.k_t_ptat() + 25f32''', '''    let supply = calibration.k_v_ptat().mul_add(delta_v, 1f32);
    25f32 + (v_ptat_art / supply - v_ptat_25) / calibration.k_t_ptat()''')])

# A second batch.
benign('buffer-cleared', [(CM, '''    for range in pixel_ranges.iter() {
        let offset''', '''    pixel_data_buffer.fill(0);
    for range in pixel_ranges.iter() {
        let offset''')])
benign('ranges-lazily', [(CM, '''    let pixel_ranges: ArrayVec<PixelAddressRange, HEIGHT> =
        Cam::pixel_ranges(subpage, access_pattern)
            .into_iter()
            .collect();
    for range in pixel_ranges.iter() {''', '''    for range in Cam::pixel_ranges(subpage, access_pattern) {''')])
benign('ranges-backwards', [(CM, '''    for range in pixel_ranges.iter() {
        let offset''', '''    for range in pixel_ranges.iter().rev() {
        let offset''')])
benign('t-a-f64', [(C, '''    let numerator = (v_ptat_art / (1f32 + calibration.k_v_ptat() * delta_v)) - v_ptat_25;
    numerator / calibration.k_t_ptat() + 25f32
''', '''    let k_v = f64::from(calibration.k_v_ptat());
    let numerator = f64::from(v_ptat_art) / (1f64 + k_v * f64::from(delta_v)) - f64::from(v_ptat_25);
    (numerator / f64::from(calibration.k_t_ptat()) + 25f64) as f32
''')])
benign('powers-by-hand', [(C, '''    let s_x = k_s_to * (alpha.powi(3) * v_ir + alpha.powi(4) * t_ar).powf(0.25);''', '''    let alpha_cubed = alpha * alpha * alpha;
    let s_x = k_s_to * (alpha_cubed * (v_ir + alpha * t_ar)).powf(0.25);''')])
benign('image-reads-status-first', [(D, '''        let ram = self.read_ram(subpage)?;
        let mut valid_pixels =
            Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();
        let t_a = raw_pixels_to_temperatures(''', '''        self.status_register()?;
        let ram = self.read_ram(subpage)?;
        let mut valid_pixels =
            Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();
        let t_a = raw_pixels_to_temperatures(''')])
benign('constructor-reads-status', [(D, '''        // Choose an emissivity value to start with.
''', '''        StatusRegister::from_i2c(&mut bus, address)?;
        // Choose an emissivity value to start with.
''')])
benign('emissivity-option', [(D, '''    emissivity: f32,

    /// The access pattern''' if False else '''        self.emissivity = new_value;
''', '''        let previous = core::mem::replace(&mut self.emissivity, new_value);
        let _ = previous;
''')])
benign('voltage-factor-once', [(C, '''    let mut pixel_offset = pixel_gain + access_mode_compensation.unwrap_or_default()
        - f32::from(reference_offset)
            * (1f32 + k_ta * (common.t_a - 25f32))
            * (1f32 + k_v * (common.v_dd - 3.3f32));
    pixel_offset /= common.emissivity;
    pixel_offset
''', '''    let temperature_factor = 1f32 + k_ta * (common.t_a - 25f32);
    let voltage_factor = 1f32 + k_v * (common.v_dd - 3.3f32);
    let expected = f32::from(reference_offset) * (temperature_factor * voltage_factor);
    let compensated = match access_mode_compensation {
        Some(compensation) => pixel_gain + compensation,
        None => pixel_gain,
    };
    (compensated - expected) / common.emissivity
''')])
benign('setter-masks', [(D, '''            if current.$field() != new_value {
                current.[< set_ $field >](new_value);
                self.[< set_ $register_access >](current)
            } else {
                Ok(())
            }''', '''            let unchanged = current.$field() == new_value;
            current.[< set_ $field >](new_value);
            if unchanged {
                return Ok(());
            }
            self.[< set_ $register_access >](current)''')])
benign('sync-double-read', [(D, '''            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
            core::hint::spin_loop();
        }
        Ok(())''', '''            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
        }
        Ok(())''')])
