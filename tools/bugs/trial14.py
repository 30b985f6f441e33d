# Bugs that need very many calls, for trial.py.
D = 'driver.rs'; C = 'calculations.rs'; CM = 'common.rs'; R = 'register.rs'
def field(name, typ, init):
    return [(D, '''    reflected_temperature: Option<f32>,
}
''', f'''    reflected_temperature: Option<f32>,

    {name}: {typ},
}}
'''), (D, '''            reflected_temperature: None,
        })''', f'''            reflected_temperature: None,
            {name}: {init},
        }})''')]
SYNC = '''        // Spin while we wait for data
        while !status_register.new_data() {
            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;'''
IFR = '''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if status_register.new_data() {'''
bug('poll-counter', 'C08', '', '', [(D, SYNC, '''        let mut polls = 0u16;
        // Spin while we wait for data
        while !status_register.new_data() {
            polls += 1;
            let _ = polls;
            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;''')])
bug('gives-up-60000', 'C08', '', '', [(D, SYNC, '''        let mut polls = 0u16;
        // Spin while we wait for data
        while !status_register.new_data() {
            polls += 1;
            if polls > 60000 { break; }
            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;''')])
bug('frames-u16', 'C01', '', '', field('frames', 'u16', '0') + [(D, '''        self.ambient_temperature = Some(t_a);
        Ok(())''', '''        self.ambient_temperature = Some(t_a);
        self.frames += 1;
        Ok(())''', 1)])
bug('ready-u16', 'C11', '', '', field('frames', 'u16', '0') + [(D, '''            self.ambient_temperature = Some(ambient_temperature);
''', '''            self.ambient_temperature = Some(ambient_temperature);
            self.frames += 1;
''')])
bug('polls-u16', 'C16', '', '', field('polls', 'u16', '0') + [(D, IFR, '''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        self.polls = self.polls.wrapping_add(1);
        if status_register.new_data() && self.polls != 65000 {''')])
bug('errors-u16', 'C07', '', '', field('errors', 'u16', '0') + [(D, IFR, '''        let mut status_register = match StatusRegister::from_i2c(bus, address) {
            Ok(r) => r,
            Err(e) => { self.errors += 1; return Err(e); }
        };
        if status_register.new_data() {''')])
bug('overrides', 'C13', '', '', field('changes', 'u16', '0') + [(D, '''        self.reflected_temperature = new_value;
''', '''        self.changes = self.changes.saturating_add(1);
        if self.changes < 50_000 { self.reflected_temperature = new_value; }
''')])
bug('settings-wear', 'C05', '', '', field('writes', 'u16', '0') + [(D, '''        register.to_i2c(&mut self.bus, self.address)?;
        // Only''', '''        self.writes = self.writes.saturating_add(1);
        if self.writes > 30_000 { return Ok(()); }
        register.to_i2c(&mut self.bus, self.address)?;
        // Only''')])
