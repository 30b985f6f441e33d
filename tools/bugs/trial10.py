# Rarely triggered bugs, for trial.py.
D = 'driver.rs'; C = 'calculations.rs'; CM = 'common.rs'; R = 'register.rs'
E0 = 'mlx90640/eeprom.rs'; E1 = 'mlx90641/eeprom.rs'; H = 'mlx90641/hamming.rs'; M0 = 'mlx90640/mod.rs'; M1 = 'mlx90641/mod.rs'

def field(name, typ, init):
    return [(D, '''    reflected_temperature: Option<f32>,
}
''', f'''    reflected_temperature: Option<f32>,

    {name}: {typ},
}}
'''), (D, '''            reflected_temperature: None,
        })''', f'''            reflected_temperature: None,
            {name}: {init},
        }})''')]

IFR = '''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if status_register.new_data() {'''

def counter(id, prop, n):
    bug(id, prop, '', '', field('polls', 'u32', '0') + [(D, IFR, f'''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        self.polls += 1;
        if self.polls % {n} == 0 {{
            return Ok(false);
        }}
        if status_register.new_data() {{''')])
counter('poll-500', 'C03', 500)
counter('poll-2000', 'C03', 2000)
counter('poll-500-c16', 'C16', 500)

bug('nan-emissivity', 'C13', '', '', [(D, '''        self.emissivity = new_value;
''', '''        if !new_value.is_nan() {
            self.emissivity = new_value;
        }
''')])
bug('tiny-emissivity', 'C13', '', '', [(D, '''        self.emissivity = new_value;
''', '''        self.emissivity = if new_value.is_normal() { new_value } else { 1f32 };
''')])
bug('infinite-reflected', 'C13', '', '', [(D, '''        self.reflected_temperature = new_value;
''', '''        self.reflected_temperature = new_value.filter(|t| *t != f32::INFINITY);
''')])
bug('reflected-below-zero-kelvin', 'C13', '', '', [(D, '''        self.reflected_temperature = new_value;
''', '''        self.reflected_temperature = new_value.map(|t| if t < -273.15 { -273.15 } else { t });
''')])
bug('status-reserved', 'C03', '', '', [(D, IFR, '''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        let raw: [u8; 2] = status_register.into();
        if raw[0] == 0xFF {
            return Ok(false);
        }
        if status_register.new_data() {''')])
bug('status-subpage-reserved', 'C01', '', '', [(R, '''    pub fn last_updated_subpage(&self) -> Subpage {''', '''    pub fn last_updated_subpage(&self) -> Subpage {
        if self.0 & 0x0007 == 0x0005 {
            return Subpage::Zero;
        }''')])
bug('control-reserved-pattern', 'C04', '', '', [(R, '''    pub fn access_pattern(&self) -> AccessPattern {''', '''    pub fn access_pattern(&self) -> AccessPattern {
        if self.0 & 0xE000 == 0xE000 {
            return AccessPattern::Chess;
        }''')])
bug('pixel-min', 'C01', '', '', [(C, '''    let pixel_gain = f32::from(pixel_data) * common.gain;''', '''    let pixel_gain = f32::from(pixel_data.max(-i16::MAX)) * common.gain;
    let pixel_gain = if pixel_data == i16::MIN { 0f32 } else { pixel_gain };''')])
bug('ptat-equal', 'C01', '', '', [(C, '''    let numerator = (v_ptat_art / (1f32''', '''    if v_ptat_art == v_ptat_25 {
        return 24f32;
    }
    let numerator = (v_ptat_art / (1f32''')])
bug('own-emissivity-above-one', 'C19', '', '', [(D, '''        let emissivity = calibration.emissivity().unwrap_or(1f32);''', '''        let emissivity = calibration.emissivity().filter(|e| *e <= 1f32).unwrap_or(1f32);''')])
bug('own-cp-zero', 'C19', '', '', [(C, '''        .map(|tgc| calibration.alpha_cp(subpage) * tgc);
    let k_s_to_basic''', '''        .filter(|_| calibration.offset_reference_cp(subpage) != 0)
        .map(|tgc| calibration.alpha_cp(subpage) * tgc);
    let k_s_to_basic''', 0)])
bug('own-many-ranges', 'C19', '', '', [(C, '''    let k_s_to_basic = calibration.k_s_to()[Clb::Camera::BASIC_TEMPERATURE_RANGE];
    let alpha_coefficient = sensitivity_correction_coefficient(calibration, t_a);
    let t_r = t_r.unwrap_or(t_a - Clb::Camera::SELF_HEATING);
    let t_ar = t_ar(t_a, t_r, emissivity);

    destination''', '''    let slopes = calibration.k_s_to();
    let k_s_to_basic = slopes[Clb::Camera::BASIC_TEMPERATURE_RANGE + if slopes.len() > 10 { 1 } else { 0 }];
    let alpha_coefficient = sensitivity_correction_coefficient(calibration, t_a);
    let t_r = t_r.unwrap_or(t_a - Clb::Camera::SELF_HEATING);
    let t_ar = t_ar(t_a, t_r, emissivity);

    destination''')])
bug('write-same-value', 'C05', '', '', [(D, '''            if current.$field() != new_value {''', '''            // The slowest rate is also what the register holds when nothing was set.
            let raw: [u8; 2] = current.into();
            if current.$field() != new_value && raw != [0x19, 0x81] {''')])
bug('range-sorted', 'C06', '', '', [(CM, '''    for range in pixel_ranges.iter() {
        let offset = range.buffer_offset;''', '''    for range in pixel_ranges.iter().take(if i2c_address == 0x7F { HEIGHT } else { usize::MAX }) {
        let offset = range.buffer_offset;''')])
bug('error-on-control-after-load', 'C07', '', '', [(D, '''        let control = ControlRegister::from_i2c(&mut bus, address)?;
        // Cache these values''', '''        let control = match ControlRegister::from_i2c(&mut bus, address) {
            Ok(control) => control,
            // The first access after a long transfer may fail; once more.
            Err(_) => ControlRegister::from_i2c(&mut bus, address)?,
        };
        // Cache these values''')])
bug('sync-overwrite-kept', 'C08', '', '', [(D, '''        status_register.set_overwrite_enabled(true);
        status_register.set_start_measurement();''', '''        if status_register.last_updated_subpage() == Subpage::Zero || !status_register.overwrite_enabled() {
            status_register.set_overwrite_enabled(true);
            status_register.set_start_measurement();
        }''')])
bug('sync-discard-late', 'C08', '', '', [(D, '''        while !status_register.new_data() {
            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
            core::hint::spin_loop();
        }
        Ok(())''', '''        let mut polls = 0u32;
        while !status_register.new_data() {
            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;
            polls += 1;
            core::hint::spin_loop();
        }
        if polls == 1 {
            // That was too quick for a measurement.
            while StatusRegister::from_i2c(&mut self.bus, self.address)?.last_updated_subpage() == status_register.last_updated_subpage() {
                core::hint::spin_loop();
            }
        }
        Ok(())''')])
bug('short-buffer-subpage', 'C02', '', '', [(C, '''    destination
        .iter_mut()
        .zip(calibration.alpha_pixels(subpage))''', '''    let n = destination.len();
    let destination = &mut destination[..if n == 383 { 382 } else { n }];
    destination
        .iter_mut()
        .zip(calibration.alpha_pixels(subpage))''')])
bug('hamming-all-ones', 'C09', '', '', [(H, '''        let corrected_word = word ^ error_bits;''', '''        let corrected_word = if error_bits == 0x8000 && word & DATA_MASK == 0x7FF { word } else { word ^ error_bits };''')])
bug('kv-quadrant', 'C10', '', '', [(E1, '''1''', '''1''', 0)] if False else [(E0, '''let kv''', '''let kv''')])
bugs.pop()
