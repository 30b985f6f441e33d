# Bugs that need a history, for trial.py.
D = 'driver.rs'; C = 'calculations.rs'; CM = 'common.rs'; R = 'register.rs'
def field(name, typ, init):
    return [(D, '''    reflected_temperature: Option<f32>,
}
''', f'''    reflected_temperature: Option<f32>,

    {name}: {typ},
}}
'''), (D, '''            reflected_temperature: None,
        })''', f'''            reflected_temperature: None,
            {name}: {init},
        }})''')]
IFR = '''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if status_register.new_data() {'''
CR = '''        let register = ControlRegister::from_i2c(&mut self.bus, self.address)?;
        // Update the resolution as well
        self.update_control_register(&register);'''
SYNC = '''        // Spin while we wait for data
        while !status_register.new_data() {
            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;'''
bug('available-cached', 'C03', '', '', field('seen', 'Option<StatusRegister>', 'None') + [(D, '''        let register = self.status_register()?;
        Ok(if register.new_data() {
''', '''        let register = self.status_register()?;
        self.seen = Some(register).filter(StatusRegister::new_data);
        Ok(if register.new_data() {
'''), (D, IFR, '''        let mut status_register = match self.seen.take() {
            Some(register) => register,
            None => StatusRegister::from_i2c(bus, address)?,
        };
        if status_register.new_data() {''')])
bug('no-ack-after-2000', 'C03', '', '', field('count', 'u16', '0') + [(D, '''            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            Ok(true)''', '''            self.count = self.count.saturating_add(1);
            if self.count < 2000 {
                status_register.reset_new_data();
                status_register.to_i2c(bus, address)?;
            }
            Ok(true)''')])
bug('no-ack-after-400', 'C03', '', '', field('count', 'u16', '0') + [(D, '''            status_register.reset_new_data();
            status_register.to_i2c(bus, address)?;
            Ok(true)''', '''            self.count = self.count.saturating_add(1);
            if self.count < 400 {
                status_register.reset_new_data();
                status_register.to_i2c(bus, address)?;
            }
            Ok(true)''')])
bug('fifth-sync', 'C08', '', '', field('count', 'u16', '0') + [(D, '''        let mut status_register = self.status_register()?;
        status_register.reset_new_data();
        status_register.set_overwrite''', '''        let mut status_register = self.status_register()?;
        self.count += 1;
        if self.count % 5 != 0 {
            status_register.reset_new_data();
        }
        status_register.set_overwrite''')])
bug('setter-after-error-stale', 'C05', '', '', field('known', 'Option<ControlRegister>', 'None') + field('failed', 'bool', 'false')[:0] + [(D, CR, '''        let register = match ControlRegister::from_i2c(&mut self.bus, self.address) {
            Ok(register) => register,
            Err(error) => {
                if self.known.is_none() {
                    return Err(error);
                }
                self.known = None;
                return Err(error);
            }
        };
        let register = self.known.take().unwrap_or(register);
        // Update the resolution as well
        self.update_control_register(&register);'''), (D, '''        register.to_i2c(&mut self.bus, self.address)?;
        // Only''', '''        if let Err(error) = register.to_i2c(&mut self.bus, self.address) {
            self.known = Some(register);
            return Err(error);
        }
        // Only''')])
bug('raw-forgets-emissivity', 'C13', '', '', [(D, '''        self.ambient_temperature = Some(t_a);
        Ok(())''', '''        if self.ambient_temperature.map_or(false, |old| (old - t_a).abs() > 30f32) {
            self.reflected_temperature = None;
        }
        self.ambient_temperature = Some(t_a);
        Ok(())''', 0)])
bug('reset-drops-override', 'C13', '', '', field('before', 'Option<u16>', 'None') + [(D, CR, '''        let register = ControlRegister::from_i2c(&mut self.bus, self.address)?;
        let value = u16::from_be_bytes(register.into());
        if value == 0x1901 && self.before.replace(value).map_or(false, |old| old != value) {
            self.use_default_emissivity();
        }
        self.before = Some(value);
        // Update the resolution as well
        self.update_control_register(&register);''')])
bug('reset-drops-ambient', 'C13', '', '', field('before', 'Option<u16>', 'None') + [(D, CR, '''        let register = ControlRegister::from_i2c(&mut self.bus, self.address)?;
        let value = u16::from_be_bytes(register.into());
        if value == 0x0901 && self.before.replace(value).map_or(false, |old| old != value) {
            self.ambient_temperature = None;
        }
        self.before = Some(value);
        // Update the resolution as well
        self.update_control_register(&register);''')])
bug('ta-of-pair', 'C01', '', '', [(C, '''pub fn ambient_temperature''', '''pub fn ambient_temperature''')][:0] + [(D, '''            self.ambient_temperature = Some(ambient_temperature);
''', '''            self.ambient_temperature = match self.ambient_temperature {
                Some(t) if subpage == Subpage::One && (t - ambient_temperature).abs() < 0.05 => Some(t),
                _ => Some(ambient_temperature),
            };
''')])
bug('sync-poll-error-write', 'C07', '', '', [(D, SYNC, '''        // Spin while we wait for data
        let mut failed = false;
        while !status_register.new_data() {
            status_register = match StatusRegister::from_i2c(&mut self.bus, self.address) {
                Ok(register) => register,
                Err(_) if !failed && status_register.overwrite_enabled() => { failed = true; status_register }
                Err(error) => return Err(error),
            };''')])
bug('constructor-retry', 'C07', '', '', [(D, '''        let control = ControlRegister::from_i2c(&mut bus, address)?;
        // Cache''', '''        let control = match ControlRegister::from_i2c(&mut bus, address) {
            Ok(control) => control,
            Err(_) => ControlRegister::from_i2c(&mut bus, address)?,
        };
        // Cache''')])
bug('sync-drops-overwrite-error', 'C08', '', '', [(D, '''        status_register.set_start_measurement();
        status_register.to_i2c(&mut self.bus, self.address)?;''', '''        status_register.set_start_measurement();
        if status_register.to_i2c(&mut self.bus, self.address).is_err() {
            // The camera may have taken it all the same.
            status_register = self.status_register()?;
        }''')])
bug('sync-after-sync', 'C08', '', '', field('synced', 'bool', 'false') + [(D, '''        let mut status_register = self.status_register()?;
        status_register.reset_new_data();
        status_register.set_overwrite''', '''        let mut status_register = self.status_register()?;
        if core::mem::replace(&mut self.synced, true) && status_register.new_data() && status_register.overwrite_enabled() {
            self.synced = false;
            return Ok(());
        }
        status_register.reset_new_data();
        status_register.set_overwrite''')])
bug('subpage-alternates-in-hold', 'C16', '', '', field('last', 'Option<Subpage>', 'None') + [(D, '''            let subpage = status_register.last_updated_subpage();
            let mut valid''', '''            let subpage = status_register.last_updated_subpage();
            if !status_register.overwrite_enabled() && self.last.replace(subpage) == Some(subpage) && self.ambient_temperature.is_some() {
                self.last = None;
                status_register.reset_new_data();
                status_register.to_i2c(bus, address)?;
                return Ok(false);
            }
            let mut valid''')])
bug('pattern-changed-drop', 'C16', '', '', field('last', 'Option<AccessPattern>', 'None') + [(D, '''            let subpage = status_register.last_updated_subpage();
            let mut valid''', '''            let subpage = status_register.last_updated_subpage();
            if self.last.replace(self.access_pattern).map_or(false, |p| p != self.access_pattern) {
                status_register.reset_new_data();
                status_register.to_i2c(bus, address)?;
                return Ok(false);
            }
            let mut valid''')])
