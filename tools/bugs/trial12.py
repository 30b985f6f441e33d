# Bugs that need several steps or two sites, for trial.py.
D = 'driver.rs'; C = 'calculations.rs'; CM = 'common.rs'; R = 'register.rs'
E0 = 'mlx90640/eeprom.rs'; E1 = 'mlx90641/eeprom.rs'; H = 'mlx90641/hamming.rs'; M0 = 'mlx90640/mod.rs'; M1 = 'mlx90641/mod.rs'
def field(name, typ, init):
    return [(D, '''    reflected_temperature: Option<f32>,
}
''', f'''    reflected_temperature: Option<f32>,

    {name}: {typ},
}}
'''), (D, '''            reflected_temperature: None,
        })''', f'''            reflected_temperature: None,
            {name}: {init},
        }})''')]
IFR = '''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if status_register.new_data() {'''
UPD = '''        self.resolution_correction =
            Clb::Camera::resolution_correction(calibrated_resolution, register.resolution());
        self.access_pattern = register.access_pattern();
'''
bug('cp-by-turns', 'C01', '', '', field('last', 'Option<Subpage>', 'None') + [(D, '''            let subpage = status_register.last_updated_subpage();
            let mut valid''', '''            let mut subpage = status_register.last_updated_subpage();
            if self.last == Some(subpage) && self.ambient_temperature.is_none() {
                subpage = if subpage == Subpage::Zero { Subpage::One } else { Subpage::Zero };
            }
            self.last = Some(subpage);
            let mut valid''')])
bug('resolution-with-pattern', 'C04', '', '', [(D, UPD, '''        let pattern = register.access_pattern();
        if pattern == self.access_pattern {
            self.resolution_correction =
                Clb::Camera::resolution_correction(calibrated_resolution, register.resolution());
        }
        self.access_pattern = pattern;
''')])
bug('pattern-with-subpages', 'C04', '', '', [(D, UPD, '''        self.resolution_correction =
            Clb::Camera::resolution_correction(calibrated_resolution, register.resolution());
        if register.use_subpages() {
            self.access_pattern = register.access_pattern();
        }
''')])
bug('pattern-not-while-repeating', 'C04', '', '', [(D, UPD, '''        self.resolution_correction =
            Clb::Camera::resolution_correction(calibrated_resolution, register.resolution());
        if !(register.subpage_repeat() && register.data_hold()) {
            self.access_pattern = register.access_pattern();
        }
''')])
bug('sync-by-subpage', 'C08', '', '', [(D, '''        // Spin while we wait for data
        while !status_register.new_data() {''', '''        // Spin while we wait for data
        let before = status_register.last_updated_subpage();
        while !status_register.new_data() && status_register.last_updated_subpage() == before {''')])
bug('sync-gives-up-late', 'C08', '', '', [(D, '''        while !status_register.new_data() {
            status_register = StatusRegister''', '''        for _ in 0..5000 {
            if status_register.new_data() {
                break;
            }
            status_register = StatusRegister''')])
bug('sync-error-forgets', 'C13', '', '', [(D, '''        status_register.to_i2c(&mut self.bus, self.address)?;
        // Spin''', '''        if let Err(e) = status_register.to_i2c(&mut self.bus, self.address) {
            self.use_default_emissivity();
            return Err(e);
        }
        // Spin''')])
bug('unset-reflected-resets', 'C13', '', '', [(D, '''        self.reflected_temperature = new_value;
''', '''        if new_value.is_none() && self.reflected_temperature.is_some() && self.emissivity > 1f32 {
            self.use_default_emissivity();
        }
        self.reflected_temperature = new_value;
''')])
bug('backoff', 'C16', '', '', field('failures', 'u8', '0') + [(D, IFR, '''        if self.failures > 2 {
            self.failures -= 1;
            return Ok(false);
        }
        let mut status_register = match StatusRegister::from_i2c(bus, address) {
            Ok(register) => register,
            Err(e) => {
                self.failures = self.failures.saturating_add(1);
                return Err(e);
            }
        };
        self.failures = 0;
        if status_register.new_data() {''')])
bug('gives-up-after-errors', 'C07', '', '', field('failures', 'u8', '0') + [(D, IFR, '''        let mut status_register = match StatusRegister::from_i2c(bus, address) {
            Ok(register) => register,
            Err(e) => {
                self.failures = self.failures.saturating_add(1);
                return Err(e);
            }
        };
        if self.failures < 20 && status_register.new_data() {''')])
bug('load-clears-pending', 'C17', '', '', [(D, '''        // Choose an emissivity value to start with.
''', '''        let mut status = StatusRegister::from_i2c(&mut bus, address)?;
        if status.new_data() && !status.overwrite_enabled() {
            status.reset_new_data();
            status.to_i2c(&mut bus, address)?;
        }
        // Choose an emissivity value to start with.
''')])
bug('load-leaves-step', 'C17', '', '', [(D, '''        // Choose an emissivity value to start with.
''', '''        if control.step_mode() {
            let mut running = control;
            running.set_step_mode(false);
            running.to_i2c(&mut bus, address)?;
        }
        // Choose an emissivity value to start with.
''')])
bug('raw-emissivity', 'C14', '', '', [(D, '''        let t_a = raw_pixels_to_ir_data(
            &self.calibration,
            self.emissivity,''', '''        let t_a = raw_pixels_to_ir_data(
            &self.calibration,
            if self.reflected_temperature.is_some() && self.emissivity > 1f32 { 1f32 } else { self.emissivity },''')])
bug('ambient-kept-when-close', 'C14', '', '', [(D, '''            self.ambient_temperature = Some(ambient_temperature);
''', '''            if !self.ambient_temperature.map_or(false, |t| (t - ambient_temperature).abs() < 0.01) {
                self.ambient_temperature = Some(ambient_temperature);
            }
''')])
bug('one-subpage-forever', 'C16', '', '', field('seen', '[bool; 2]', '[false; 2]') + [(D, '''            self.ambient_temperature = Some(ambient_temperature);
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            Ok(true)''', '''            self.ambient_temperature = Some(ambient_temperature);
            self.seen[subpage as usize] = true;
            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            Ok(self.seen == [true; 2])''')])
bug('sensitivity-hot', 'C01', '', '', [(C, '''    1f32 + k_s_ta * (t_a - t_a0)
''', '''    1f32 + k_s_ta * (t_a.min(85f32) - t_a0)
''')])
bug('ambient-cold', 'C14', '', '', [(C, '''    numerator / calibration.k_t_ptat() + 25f32
''', '''    (numerator / calibration.k_t_ptat()).max(-298.15) + 25f32
''')])
bug('reflected-equals-zero', 'C13', '', '', [(C, '''    let t_r = t_r.unwrap_or(common.t_a - Clb::Camera::SELF_HEATING);''', '''    let t_r = t_r.filter(|t| *t != 0f32 || t.is_sign_negative()).unwrap_or(common.t_a - Clb::Camera::SELF_HEATING);''')])
