PRE = '''
mod cam;
use cam::*;
use mlx9064x::*;
'''
D = 'driver.rs'; C = 'calculations.rs'; CM = 'common.rs'; R = 'register.rs'
def field(name, typ, init):
    """A further field of the driver."""
    return [(D, '''    reflected_temperature: Option<f32>,
}
''', f'''    reflected_temperature: Option<f32>,

    {name}: {typ},
}}
'''), (D, '''            reflected_temperature: None,
        })''', f'''            reflected_temperature: None,
            {name}: {init},
        }})''')]
IFR = '''        let mut status_register = StatusRegister::from_i2c(bus, address)?;
        if status_register.new_data() {'''
UPD = '''        self.resolution_correction =
            Clb::Camera::resolution_correction(calibrated_resolution, register.resolution());
        self.access_pattern = register.access_pattern();
'''

bug('sync-error-forgets', 'C13', 'synchronise failing at its first write while an emissivity override is in force',
 'a failed synchronise drops the emissivity override',
 [(D, '''        status_register.to_i2c(&mut self.bus, self.address)?;
        // Spin''', '''        if let Err(error) = status_register.to_i2c(&mut self.bus, self.address) {
            // Whatever is on the bus may not be the same camera any more.
            self.use_default_emissivity();
            return Err(error);
        }
        // Spin''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.override_emissivity(0.5);
    bus.before(|op, _| matches!(op, Op::Write(..)));
    cam.synchronize().unwrap_err();
    bus.heal();
    assert_eq!(cam.effective_emissivity(), 0.5);
}
''')

bug('unset-reflected-resets', 'C13', 'the reflected temperature is unset while the emissivity override is greater than one',
 'unsetting the reflected temperature also drops an emissivity override above one',
 [(D, '''        self.reflected_temperature = new_value;
''', '''        if new_value.is_none() && self.reflected_temperature.is_some() && self.emissivity > 1f32 {
            self.use_default_emissivity();
        }
        self.reflected_temperature = new_value;
''')],
PRE + '''
fn main() {
    let mut cam = Mlx90640Driver::new(cam640(), 0x33).unwrap();
    cam.override_emissivity(1.25);
    cam.set_reflected_temperature(Some(20.0));
    cam.set_reflected_temperature(None);
    assert_eq!(cam.effective_emissivity(), 1.25);
}
''')

bug('ambient-kept-when-close', 'C14', 'two frames whose ambient temperatures differ by less than a hundredth of a degree',
 'the reported ambient temperature stays that of an earlier frame while it changes slowly, and drifts away from the image',
 [(D, '''            self.ambient_temperature = Some(ambient_temperature);
''', '''            // Keep the reported value from flickering.
            if !self.ambient_temperature.map_or(false, |t| (t - ambient_temperature).abs() < 0.01) {
                self.ambient_temperature = Some(ambient_temperature);
            }
''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut a = vec![0f32; 768];
    for _ in 0..4 {
        cam.generate_image_if_ready(&mut a).unwrap();
        bus.with(|s| { s.status |= 8; s.ram[0x300] += 1; });
    }
    bus.with(|s| s.ram[0x300] -= 1);
    let t = cam.ambient_temperature().unwrap();
    let mut other = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    other.generate_image_if_ready(&mut a).unwrap();
    assert_eq!(t, other.ambient_temperature().unwrap());
}
''')

bug('pattern-not-while-repeating', 'C04', 'the access pattern is changed while the camera repeats one subpage and holds its data',
 'the driver keeps decoding with the old access pattern when it is changed in a held single-subpage mode',
 [(D, UPD, '''        self.resolution_correction =
            Clb::Camera::resolution_correction(calibrated_resolution, register.resolution());
        // No new frame arrives in the new pattern before the mode is left.
        if !(register.subpage_repeat() && register.data_hold()) {
            self.access_pattern = register.access_pattern();
        }
''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    cam.set_subpage_repeat(true).unwrap();
    cam.set_data_hold(true).unwrap();
    cam.set_access_pattern(AccessPattern::Interleave).unwrap();
    let mut a = vec![f32::MIN; 768];
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    assert!(a[..32].iter().all(|t| *t != f32::MIN));
}
''')

bug('gives-up-after-errors', 'C07', 'twenty failed deliver-if-ready calls over the life of a driver',
 'after twenty bus failures frames are never delivered again',
 field('failures', 'u8', '0') + [(D, IFR, '''        let mut status_register = match StatusRegister::from_i2c(bus, address) {
            Ok(register) => register,
            Err(error) => {
                self.failures = self.failures.saturating_add(1);
                return Err(error);
            }
        };
        if self.failures < 20 && status_register.new_data() {''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut a = vec![0f32; 768];
    bus.before(|_, _| true);
    for _ in 0..30 { cam.generate_image_if_ready(&mut a).unwrap_err(); }
    bus.heal();
    assert!(cam.generate_image_if_ready(&mut a).unwrap());
}
''')

bug('load-clears-pending', 'C17', 'a driver is created while a frame is waiting in a camera that may not overwrite it',
 'creating a driver discards the frame the camera is holding for it',
 [(D, '''        // Choose an emissivity value to start with.
''', '''        // Whatever is waiting may be very old.
        let mut status = StatusRegister::from_i2c(&mut bus, address)?;
        if status.new_data() && !status.overwrite_enabled() && control.data_hold() {
            status.reset_new_data();
            status.to_i2c(&mut bus, address)?;
        }
        // Choose an emissivity value to start with.
''')],
PRE + '''
fn main() {
    let bus = cam640();
    bus.with(|s| s.control |= 4);
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    assert!(cam.data_available().unwrap().is_some());
}
''')

bug('backoff', 'C16', 'three or more bus failures in a row',
 'every further failure makes the driver skip another poll, without a limit that helps anyone',
 field('failures', 'u8', '0') + [(D, IFR, '''        // Give a bus in trouble a rest.
        if self.failures > 2 {
            self.failures -= 1;
            return Ok(false);
        }
        let mut status_register = match StatusRegister::from_i2c(bus, address) {
            Ok(register) => register,
            Err(error) => {
                self.failures = (self.failures + 1) * 6;
                return Err(error);
            }
        };
        self.failures = 0;
        if status_register.new_data() {''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    let mut a = vec![0f32; 768];
    bus.before(|_, _| true);
    for _ in 0..6 { let _ = cam.generate_image_if_ready(&mut a); }
    bus.heal();
    for _ in 0..4 { if cam.generate_image_if_ready(&mut a).unwrap() { return; } }
    panic!("no frame");
}
''')

bug('resolution-with-pattern', 'C04', 'the camera is found with both another access pattern and another resolution than before',
 'when resolution and access pattern change together the resolution is not taken over',
 [(D, UPD, '''        let pattern = register.access_pattern();
        if pattern == self.access_pattern {
            self.resolution_correction =
                Clb::Camera::resolution_correction(calibrated_resolution, register.resolution());
        }
        self.access_pattern = pattern;
''')],
PRE + '''
fn main() {
    let bus = cam640();
    let mut cam = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    bus.with(|s| s.control = 0x0501);
    cam.frame_rate().unwrap();
    let (mut a, mut b) = (vec![0f32; 768], vec![0f32; 768]);
    cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
    let mut other = Mlx90640Driver::new(bus.clone(), 0x33).unwrap();
    other.generate_image_subpage_to(Subpage::Zero, &mut b).unwrap();
    assert!(same(&a, &b));
}
''')
