COM = "ur20_1com_232_485_422.rs"
CPL = "ur20_fbc_mod_tcp.rs"
PLANTS = []


def plant(id, property, edits, needs, breaks, demo, also=()):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also)))


plant("c10-short-telegram", "C10",
      [(COM, "        if bytes.len() < data_len + 2 {\n            return Err(Error::BufferLength);\n        }\n\n        let msg = ProcessOutput {",
        "        if bytes.len() <= data_len {\n            return Err(Error::BufferLength);\n        }\n\n        let msg = ProcessOutput {")],
      "an output telegram whose length byte announces exactly one byte more than there is",
      "such a telegram makes the parser panic",
      r"""
fn main() {
    use ur20::ur20_1com_232_485_422::ProcessOutput;
    assert!(ProcessOutput::try_from_byte_message(&[0, 7, 1, 2, 3, 4, 5, 6]).is_err());
}""", also=["C16"])

plant("c10-late-limit", "C10",
      [("ur20_2fcnt_100.rs", "                    if v.duration > *MAX_MEASUREMENT_DURATION {\n                        return Err(Error::ChannelValue);\n                    }\n", ""),
       ("ur20_2fcnt_100.rs", "                    let lo = micros & 0x0000_FFFF;",
        "                    if Duration::from_micros(micros.into()) > *MAX_MEASUREMENT_DURATION {\n                        return Err(Error::ChannelValue);\n                    }\n                    let lo = micros & 0x0000_FFFF;")],
      "a preset of more than 4294 seconds, or one that exceeds the limit by less than a microsecond",
      "the multiplication overflows before the limit is checked: panic with overflow checks, a made-up preset without",
      r"""
fn main() {
    use std::time::Duration;
    use ur20::ur20_2fcnt_100::*;
    let m = Mod::default();
    let v = |d| ChannelValue::FcntOut(ProcessOutput { duration: d, command: None });
    assert!(m.process_output_values(&[v(Duration::from_secs(4295)), v(Duration::ZERO)]).is_err());
}""", also=["C14"])

plant("c10-truncated", "C10",
      [(COM, "        if bytes.len() < data_len + 2 {\n            return Err(Error::BufferLength);\n        }\n\n        let msg = ProcessInput {",
        "        let data_len = cmp::min(data_len, bytes.len().max(16) - 2);\n\n        if bytes.len() < data_len + 2 {\n            return Err(Error::BufferLength);\n        }\n\n        let msg = ProcessInput {")],
      "an input telegram of 16 or more bytes whose length byte announces more than there is",
      "such a telegram is accepted with the bytes that are there",
      r"""
fn main() {
    use ur20::ur20_1com_232_485_422::ProcessInput;
    let mut b = [1u8; 16];
    b[1] = 15;
    assert!(ProcessInput::try_from_byte_message(&b).is_err());
}""", also=["C16"])

plant("c11-surplus-blocks", "C11",
      [(CPL, "        if self.modules.len() != self.params.len() {", "        if self.modules.len() > self.params.len() {")],
      "more parameter blocks than modules",
      "a configuration with surplus parameter blocks is accepted",
      r"""
fn main() {
    let cfg = CouplerConfig { modules: vec![ModuleType::UR20_4DI_P], offsets: vec![0xFFFF, 0], params: vec![vec![0; 4]; 2] };
    assert!(Coupler::new(&cfg).is_err());
}""")

plant("c12-xon-wide", "C12",
      [(COM, "        0..=255 => (data[8] as u8) as char,\n        _ => {", "        0..=255 | 0xFF00..=0xFFFF => (data[8] as u8) as char,\n        _ => {")],
      "an XON register with all bits of the high byte set",
      "register values 0xFF00..0xFFFF of XON are accepted (as a sign extended byte)",
      r"""
fn main() {
    use ur20::ur20_1com_232_485_422::Mod;
    let mut p = com(8).1;
    p[8] = 0xFF11;
    assert!(Mod::from_modbus_parameter_data(&p).is_err());
}""", also=["C10"])

plant("c12-tc-shared", "C12",
      [("ur20_4ai_tc_diag.rs", "                high_limit_value: data[5] as i16,", "                high_limit_value: (data[5] as i16).max(data[6] as i16),")],
      "a low limit above the high limit",
      "the high limit of a thermocouple channel depends on the register of the low limit",
      r"""
fn main() {
    use ur20::ur20_4ai_tc_diag::Mod;
    let mut p = vec![0u16; 29];
    p[6] = 5;
    p[7] = 9;
    assert_eq!(Mod::from_modbus_parameter_data(&p).unwrap().ch_params[0].high_limit_value, 5);
}""")

plant("c12-hd-last", "C12",
      [("ur20_8ai_i_16_diag_hd.rs", "            p.data_format = match FromPrimitive::from_u16(data[idx + 3]) {",
        "            p.data_format = match FromPrimitive::from_u16(data[idx + 3].min(data[3])) {")],
      "different data formats on the channels, channel 0 with S5",
      "the data format of channels 1..7 depends on the register of channel 0, and out-of-range values pass",
      r"""
fn main() {
    use ur20::ur20_8ai_i_16_diag_hd::Mod;
    let mut p = vec![0u16; 33];
    p[3 + 4] = 1;
    assert_eq!(Mod::from_modbus_parameter_data(&p).unwrap().ch_params[1].data_format, DataFormat::S7);
}""")

plant("c13-resistance-sign", "C13",
      [("util.rs", "            let d = n * u32::from(data) as f32 / 0x6C00 as f32;", "            let d = n * f32::from(data as i16) / 0x6C00 as f32;")],
      "a resistance range with a raw word above 0x7FFF",
      "resistances above the nominal range become negative",
      r"""
fn main() {
    use ur20::ur20_4ai_rtd_diag::Mod;
    let mut p = vec![0u16; 29];
    for i in 0..4 { p[1 + 7 * i] = 13; }
    let m = Mod::from_modbus_parameter_data(&p).unwrap();
    let v = m.process_input_data(&[0x9000, 0, 0, 0]).unwrap();
    assert!(matches!(v[0], ChannelValue::Decimal32(x) if x > 390.0));
}""")

plant("c13-hd-live-zero", "C13",
      [("ur20_8ai_i_16_diag_hd.rs", "mA4To20 => ChannelValue::Decimal32(val * 16.0 / factor + 4.0),",
        "mA4To20 => ChannelValue::Decimal32((val * 16.0 / factor).max(-4.0) + 4.0),")],
      "a raw word below -1/4 of the full scale in the range 4..20 mA of the 8-channel module",
      "currents below 0 mA are cut off on this module only",
      r"""
fn main() {
    use ur20::ur20_8ai_i_16_diag_hd::Mod;
    let mut p = vec![0u16; 33];
    for i in 0..8 { p[3 + 4 * i] = 1; p[4 + 4 * i] = 1; }
    let m = Mod::from_modbus_parameter_data(&p).unwrap();
    let v = m.process_input_data(&[(-13824i16) as u16; 8]).unwrap();
    assert_eq!(v[0], ChannelValue::Decimal32(-4.0));
}""")

plant("c14-counter-hi", "C14",
      [("ur20_2fcnt_100.rs", "                    ((u32::from(cnt[0]) << 16) | u32::from(cnt[1])),", "                    ((u32::from(cnt[0]) << 16) + u32::from(cnt[1])) & 0x7FFF_FFFF,")],
      "a counter reading above 2^31",
      "the top bit of the count is lost",
      r"""
fn main() {
    use ur20::ur20_2fcnt_100::*;
    let v = Mod::default().process_input_data(&[0, 8, 0x8000, 1, 0, 0, 0, 0, 0, 0]).unwrap();
    assert!(matches!(&v[0], ChannelValue::FcntIn(i) if i.count == 0x8000_0001));
}""")

plant("c15-unipolar", "C15",
      [("util.rs", "        mA0To20 => factor * v / 20.0,", "        mA0To20 => factor * v.max(0.0) / 20.0,")],
      "a negative value in the range 0..20 mA",
      "negative values are driven as zero instead of the nearest raw word (and a negative echo drifts)",
      r"""
fn main() {
    let m = ur20::ur20_4ao_ui_16::Mod::from_modbus_parameter_data(&[1u16, 0, 0].repeat(4)).unwrap();
    let d = m.process_output_values(&vec![ChannelValue::Decimal32(-1.0); 4]).unwrap();
    assert_eq!(d[0] as i16, -1382);
}""", also=["C07"])

plant("c15-disabled-live-zero", "C15",
      [("ur20_4ao_ui_16_diag.rs", "        ChannelValue::Disabled => Ok(0),", "        ChannelValue::Disabled => Ok(util::analog_ui_value_to_u16(0.0, range, format)),")],
      "`Disabled` written to a channel with a live-zero range (4..20 mA, 1..5 V, 2..10 V) of UR20-4AO-UI-16-DIAG",
      "the channel is driven with a negative raw word instead of zero",
      r"""
fn main() {
    let m = ur20::ur20_4ao_ui_16_diag::Mod::from_modbus_parameter_data(&[1u16, 1, 0, 0].repeat(4)).unwrap();
    assert_eq!(m.process_output_values(&vec![ChannelValue::Disabled; 4]).unwrap(), vec![0; 4]);
}""")

plant("c15-wrap", "C15",
      [("util.rs", "        V0To5 | VMinus5To5 => factor * v / 5.0,", "        V0To5 | VMinus5To5 => f32::from((factor * v / 5.0).round() as i32 as i16),")],
      "a value beyond the representable raw words in a 5 V range",
      "values beyond the range wrap around instead of saturating",
      r"""
fn main() {
    let m = ur20::ur20_4ao_ui_16::Mod::from_modbus_parameter_data(&[1u16, 5, 0].repeat(4)).unwrap();
    let d = m.process_output_values(&vec![ChannelValue::Decimal32(6.0); 4]).unwrap();
    assert_eq!(d[0], 32767);
}""")

plant("c16-len-nibble", "C16",
      [(COM, "        let data_len = bytes[1] as usize;\n\n        if bytes.len() < data_len + 2 {\n            return Err(Error::BufferLength);\n        }\n\n        let msg = ProcessOutput {",
        "        let data_len = (bytes[1] & 0x1F) as usize;\n\n        if bytes.len() < data_len + 2 {\n            return Err(Error::BufferLength);\n        }\n\n        let msg = ProcessOutput {")],
      "an output telegram announcing 32 or more bytes",
      "the announced length is cut to five bits instead of being refused",
      r"""
fn main() {
    use ur20::ur20_1com_232_485_422::*;
    assert!(ProcessOutput::try_from_byte_message(&[0, 33, 1, 2, 3, 4, 5, 6]).is_err());
}""", also=["C10"])

plant("c16-flush-flags", "C16",
      [(COM, "        if self.tx_buf_flush {\n            status = set_bit(status, 1);\n        }\n",
        "        if self.tx_buf_flush {\n            status = set_bit(status, if self.disable_tx_hw_buffer { 0 } else { 1 });\n        }\n")],
      "transmit buffer flush together with a locked hardware buffer",
      "the flush request is packed into the wrong bit",
      r"""
fn main() {
    use ur20::ur20_1com_232_485_422::*;
    let o = ProcessOutput { tx_buf_flush: true, disable_tx_hw_buffer: true, ..Default::default() };
    let b = o.try_into_byte_message(&ProcessDataLength::EightBytes).unwrap();
    assert_eq!(ProcessOutput::try_from_byte_message(&b).unwrap(), o);
}""")

plant("c17-swap-name", "C17",
      [("lib.rs", '"UR20_16DO_N_PLC_INT"      => UR20_16DO_N_PLC_INT,', '"UR20_16DO_N_PLC_INT"      => UR20_16DO_P_PLC_INT,')],
      "the name of one particular type",
      "UR20-16DO-N-PLC-INT is parsed as UR20-16DO-P-PLC-INT",
      r"""
fn main() {
    assert_eq!("UR20-16DO-N-PLC-INT".parse::<ModuleType>().unwrap(), ModuleType::UR20_16DO_N_PLC_INT);
}""")

plant("c17-lenient-id", "C17",
      [("lib.rs", "        let t = match id {\n            0x0009_1F84", "        let t = match id & !0x8000_0000 {\n            0x0009_1F84")],
      "a documented identification with the top bit set",
      "identifications that are not documented are recognised",
      r"""
fn main() {
    assert!(ModuleType::try_from_u32(0x8009_1F84).is_err());
}""")

plant("c17-sg-channels", "C17",
      [("lib.rs", "            UR20_2AI_SG_24_DIAG     |\n            UR20_2CNT_100           |", "            UR20_2CNT_100           |"),
       ("lib.rs", "            UR20_4AI_R_HS_16_DIAG   |\n            UR20_4AO_UI_16          |\n            UR20_4AO_UI_16_M        |\n            UR20_4AO_UI_16_DIAG     |\n            UR20_4AO_UI_16_M_DIAG   |\n            UR20_4AO_UI_16_HD       |\n            UR20_4AO_UI_16_DIAG_HD  |\n            UR20_4COM_IO_LINK",
        "            UR20_4AI_R_HS_16_DIAG   |\n            UR20_2AI_SG_24_DIAG     |\n            UR20_4AO_UI_16          |\n            UR20_4AO_UI_16_M        |\n            UR20_4AO_UI_16_DIAG     |\n            UR20_4AO_UI_16_M_DIAG   |\n            UR20_4AO_UI_16_HD       |\n            UR20_4AO_UI_16_DIAG_HD  |\n            UR20_4COM_IO_LINK")],
      "the channel count of one particular type",
      "UR20-2AI-SG-24-DIAG claims four channels",
      r"""
fn main() {
    assert_eq!(ModuleType::UR20_2AI_SG_24_DIAG.channel_count(), 2);
}""")

plant("c19-no-data", "C19",
      [(CPL, "    if word == 0xFFFF { None } else { Some(word) }", "    if word >= 0xFFF0 { None } else { Some(word) }")],
      "an offset in the last register (0xFFF0..0xFFFE)",
      "addresses in the last register count as absent",
      r"""
fn main() {
    assert_eq!(offsets_of_process_data(&[0xFFF8, 0xFFFF])[0].output, Some(0xFFF8));
}""")

plant("c19-far-block", "C19",
      [(CPL, "                ADDR_MODULE_PARAMETERS + (idx * 256) as u16,", "                ADDR_MODULE_PARAMETERS | ((idx as u16) << 8 & 0x1FFF),")],
      "more than 32 modules",
      "the parameter blocks of modules 32.. are placed at those of modules 0..",
      r"""
fn main() {
    let l = param_addresses_and_register_counts(&vec![ModuleType::UR20_4DI_P; 40]);
    assert_eq!(l[33].0, 0xC000 + 33 * 256);
}""")

plant("c19-odd-list", "C19",
      [(CPL, "    if registers.is_empty() || registers.len() % 2 != 0 {", "    if registers.len() < 2 || (registers.len() % 2 != 0 && registers.last() != Some(&0)) {")],
      "a list of odd length whose last register is zero",
      "the odd register is ignored instead of refusing the list",
      r"""
fn main() {
    assert!(module_list_from_registers(&[0x0009, 0x1F84, 0]).is_err());
}""")

plant("c11-hd-count", "C11",
      [(CPL, "            UR20_8AI_I_16_DIAG_HD => 1 + 8 * 4,", "            UR20_8AI_I_16_DIAG_HD => 8 * 4,")],
      "a parameter block of UR20-8AI-I-16-DIAG-HD read with the announced number of registers",
      "the announced number of registers is one too small, so the block read is refused",
      r"""
fn main() {
    let (_, n) = param_addresses_and_register_counts(&[ModuleType::UR20_8AI_I_16_DIAG_HD])[0];
    let cfg = CouplerConfig { modules: vec![ModuleType::UR20_8AI_I_16_DIAG_HD], offsets: vec![0xFFFF, 0], params: vec![vec![0; n as usize]] };
    assert!(Coupler::new(&cfg).is_ok());
}""")

plant("c11-late-reader", "C11",
      [(CPL, "    pub fn reader(&mut self, module_nr: usize) -> Option<&mut dyn Read> {\n        self.processors\n            .get_mut(&module_nr)",
        "    pub fn reader(&mut self, module_nr: usize) -> Option<&mut dyn Read> {\n        let known = matches!(self.in_values.get(module_nr), Some(v) if v.len() == 1);\n        self.processors\n            .get_mut(&module_nr)\n            .filter(|_| known)")],
      "the reader is asked for before the first accepted cycle",
      "a serial module has no reader until a cycle has been accepted",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    assert!(c.reader(0).is_some());
}""")

plant("c13-250mv", "C13",
      [("ur20_4ai_tc_diag.rs", "        mVPlusMinus250 => Some(0.250 * fval / 32767.0),", "        mVPlusMinus250 => Some(0.250 * f32::from(val.min(32767) as i16) / 32767.0),")],
      "a negative voltage in the 250 mV range",
      "negative voltages of one range are reported as the full positive scale",
      r"""
fn main() {
    use ur20::ur20_4ai_tc_diag::Mod;
    let mut p = vec![0u16; 29];
    p[1] = 15;
    let m = Mod::from_modbus_parameter_data(&p).unwrap();
    let v = m.process_input_data(&[0x8001, 0, 0, 0]).unwrap();
    assert_eq!(v[0], ChannelValue::Decimal32(-0.25));
}""")

plant("c14-active", "C14",
      [("ur20_2fcnt_100.rs", "                    util::test_bit_16(*active, 8),", "                    (*active >> 8) != 0,")],
      "a status word with reserved bits set",
      "reserved bits of the status word count as an active measurement",
      r"""
fn main() {
    use ur20::ur20_2fcnt_100::*;
    let v = Mod::default().process_input_data(&[0, 8, 0, 1, 0, 0, 0, 0, 0x0200, 0]).unwrap();
    assert!(matches!(&v[0], ChannelValue::FcntIn(i) if !i.active));
}""")

plant("c16-reset-counter", "C16",
      [(COM, "        if self.tx_cnt > 3 || self.rx_cnt_ack > 3 {", "        if !self.reset && (self.tx_cnt > 3 || self.rx_cnt_ack > 3) {")],
      "a counter above 3 in a telegram with the reset flag",
      "such a telegram is packed with the counter cut to two bits",
      r"""
fn main() {
    use ur20::ur20_1com_232_485_422::*;
    let o = ProcessOutput { rx_cnt_ack: 5, reset: true, ..Default::default() };
    assert!(o.try_into_byte_message(&ProcessDataLength::EightBytes).is_err());
}""")
