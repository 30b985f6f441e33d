# Bugs triggered by particular values, for trial.py.
D = 'driver.rs'; C = 'calculations.rs'; CM = 'common.rs'; R = 'register.rs'
E0 = 'mlx90640/eeprom.rs'; E1 = 'mlx90641/eeprom.rs'; H = 'mlx90641/hamming.rs'; M0 = 'mlx90640/mod.rs'; M1 = 'mlx90641/mod.rs'
bug('gain-shortcut', 'C01', '', '', [(C, '''        let gain = calibration.gain() / f32::from(ram.gain);
''', '''        let gain = match ram.gain {
            0 => 1f32,
            gain => calibration.gain() / f32::from(gain),
        };
''')])
bug('gain-unsigned', 'C01', '', '', [(C, 'f32::from(ram.gain)', 'f32::from(ram.gain as u16)')])
bug('ptat-denominator', 'C14', '', '', [(C, '''    // Take the loss in precision when forcing a conversion to f32.
''', '''    if t_a_ptat == 0 {
        return calibration.v_ptat_25();
    }
''')])
bug('kvdd-zero', 'C01', '', '', [(C, '''    difference / f32::from(calibration.k_v_dd())
''', '''    match calibration.k_v_dd() {
        0 => 0f32,
        k_v_dd => difference / f32::from(k_v_dd),
    }
''')])
bug('v-ir-negative', 'C01', '', '', [(C, '''    let s_x = k_s_to *''', '''    let v_ir = if v_ir == 0f32 { f32::MIN_POSITIVE } else { v_ir };
    let s_x = if k_s_to == 0f32 { alpha } else { 1f32 } * k_s_to *''')])
bug('t-o-clamped', 'C01', '', '', [(C, '''    t_o_root - KELVINS_TO_CELSIUS
''', '''    t_o_root.max(0f32) - KELVINS_TO_CELSIUS
''')])
bug('alpha-never-negative', 'C01', '', '', [(C, '''pub fn per_pixel_temperature(v_ir: f32, alpha: f32, t_ar: f32, k_s_to: f32) -> f32 {
''', '''pub fn per_pixel_temperature(v_ir: f32, alpha: f32, t_ar: f32, k_s_to: f32) -> f32 {
    let alpha = alpha.max(0f32);
''')])
bug('pixel-minus-one', 'C14', '', '', [(C, '''    let pixel_gain = f32::from(pixel_data) * common.gain;''', '''    let pixel_gain = if pixel_data == 0x7FFF { 0f32 } else { f32::from(pixel_data) } * common.gain;''')])
bug('kt-ptat-max', 'C10', '', '', [(E0, '''        let k_t_ptat = f32::from(i16_from_bits(&kt_ptat_bytes, 10)) / 8f32;''', '''        let k_t_ptat = f32::from(u16::from_be_bytes(kt_ptat_bytes)) / 8f32;''')])
bug('offset-cp-edge', 'C10', '', '', [(E0, '''offset_cp0 + i16::from(offset_cp_delta)''', '''(offset_cp0 + i16::from(offset_cp_delta)).max(-512)''')])
bug('alpha-cp-ratio', 'C01', '', '', [(E0, '''let alpha_cp_ratio = f32::from(alpha_cp_ratio) / 7f32.exp2();''', '''let alpha_cp_ratio = f32::from(alpha_cp_ratio.max(-31)) / 7f32.exp2();''')])
bug('kta-remainder-min', 'C10', '', '', [(E0, '''(k_ta_rc + (k_ta_remainder << k_ta_scale2_exp)) as f32''', '''(k_ta_rc + (k_ta_remainder.max(-3) << k_ta_scale2_exp)) as f32''')])
bug('offset-remainder-min', 'C10', '', '', [(E0, '''*offset += offset_remainder <<''', '''*offset += offset_remainder.max(-31) <<''')])
bug('tgc-minus-one', 'C10', '', '', [(E0, '''            0 => None,
            n =>''', '''            0 | -128 => None,
            n =>''')])
bug('kvdd-byte-unsigned', 'C10', '', '', [(E0, '''(buf.get_i8() as i16) << 5;''', '''match buf.get_i8() {
            i8::MIN => i16::MIN,
            k => i16::from(k) << 5,
        };''')])
bug('vdd25-max', 'C10', '', '', [(E0, '''((buf.get_u8() as i16) - 256)''', '''(i16::from(buf.get_u8().max(1)) - 256)''')])
bug('average-min', 'C10', '', '', [(E0, '|raw| i32::from(raw as i16)', '|raw| if raw == 0x8000 { 0 } else { i32::from(raw as i16) }')])
bug('corner-step-zero', 'C10', '', '', [(E0, '''i16::from(unpacked_corner_temps[0] & 0x3) * 10;''', '''i16::from((unpacked_corner_temps[0] & 0x3).max(1)) * 10;''')])
bug('interleave-min', 'C10', '', '', [(E0, '''i16_from_bits(&((word & 0x07C0) >> 6).to_be_bytes(), 5);''', '''i16_from_bits(&((word & 0x07C0) >> 6).to_be_bytes(), 5).max(-15);''')])
bug('reserved-bits-step', 'C10', '', '', [(E0, '''unpacked_corner_temps[0] & 0x3)''', '''unpacked_corner_temps[0] & 0x7)''')])
bug('step-mode-load', 'C04', '', '', [(D, '''        let access_pattern = control.access_pattern();
        // Choose''', '''        let access_pattern = if control.step_mode() { AccessPattern::Chess } else { control.access_pattern() };
        // Choose''')])
bug('hold-blocks-ready', 'C03', '', '', [(D, '''        if status_register.new_data() {
            let subpage''', '''        if status_register.new_data() && (status_register.overwrite_enabled() || !status_register.start_measurement()) {
            let subpage''')])
