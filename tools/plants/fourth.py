COM = "ur20_1com_232_485_422.rs"
CPL = "ur20_fbc_mod_tcp.rs"
UTIL = "util.rs"
FCNT = "ur20_2fcnt_100.rs"
RTD = "ur20_4ai_rtd_diag.rs"
LIB = "lib.rs"
PLANTS = []


def plant(id, property, edits, needs, breaks, demo, also=()):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also)))


plant("c23-relative", "C23",
      [(CPL, """    if end > data.len() {
        return Err(Error::BufferLength);
    }
    let output = &data[start..end];
""", """    // a caller may hand over the registers of this module only
    let own = data.len() == end - start;
    if end > data.len() && !own {
        return Err(Error::BufferLength);
    }
    let output = if own { data } else { &data[start..end] };
""")],
      "an image that is too short for the module but happens to have the module's own size",
      "bytes of other modules are decoded as the module's values instead of refusing the image",
      r"""
fn main() {
    let m = ur20_4ao_ui_16::Mod::from_modbus_parameter_data(&[1, 2, 0, 1, 2, 0, 1, 2, 0, 1, 2, 0]).unwrap();
    let o = ModuleOffset { input: None, output: Some(0x8040) };
    assert_eq!(process_output_data(&[(&m, &o)], &[1, 2, 3, 4]), Err(Error::BufferLength));
    assert!(process_output_data(&[(&m, &o)], &[0, 0, 0, 0, 1, 2, 3, 4]).is_ok());
}""", also=["C10"])

plant("c23-memo", "C23",
      [(CPL, """    modules
        .iter()
        .map(|&(m, offset)| {
            if let Some(in_offset) = offset.input {
                let cnt = m.process_input_byte_count();
                m.process_input_data(&prepare_raw_data_to_process(
                    in_offset,
                    ADDR_PACKED_PROCESS_INPUT_DATA,
                    cnt,
                    data,
                )?)
            } else {""", """    let mut known: HashMap<(BitAddress, usize), Vec<ChannelValue>> = HashMap::new();
    modules
        .iter()
        .map(|&(m, offset)| {
            if let Some(in_offset) = offset.input {
                let cnt = m.process_input_byte_count();
                // each part of the image is decoded only once
                if let Some(v) = known.get(&(in_offset, cnt)) {
                    return Ok(v.clone());
                }
                let v = m.process_input_data(&prepare_raw_data_to_process(
                    in_offset,
                    ADDR_PACKED_PROCESS_INPUT_DATA,
                    cnt,
                    data,
                )?)?;
                known.insert((in_offset, cnt), v.clone());
                Ok(v)
            } else {""")],
      "two modules in the list that look at the same bytes with different types or parameters",
      "the second one reports the values of the first",
      r"""
fn main() {
    let a = ur20_di_generic::Mod::<ur20_di_generic::UR20_4DI_P>::default();
    let b = ur20_di_generic::Mod::<ur20_di_generic::UR20_8DI_P_2W>::default();
    let o = ModuleOffset { input: Some(0), output: None };
    let v = process_input_data(&[(&a, &o), (&b, &o)], &[0xFF]).unwrap();
    assert_eq!((v[0].len(), v[1].len()), (4, 8));
}""")

plant("c23-skip-rows", "C23",
      [(CPL, """    if modules.len() != values.len() {
        return Err(Error::ChannelValue);
    }
""", """    if modules.len() > values.len() {
        return Err(Error::ChannelValue);
    }
""")],
      "more rows of values than modules",
      "the surplus values are dropped silently",
      r"""
fn main() {
    let m = ur20_16do_p::Mod;
    let o = ModuleOffset { input: None, output: Some(0x8000) };
    let row = vec![ChannelValue::Bit(true); 16];
    assert!(process_output_values(&[(&m, &o)], &[row.clone()]).is_ok());
    assert!(process_output_values(&[(&m, &o)], &[row.clone(), row]).is_err());
}""", also=["C10"])

plant("c24-channel", "C24",
      [(CPL, """        if !self.is_valid_addr(addr) {
            return Err(Error::Address);
        }
        self.write.insert(*addr, value);
""", """        if addr.module < self.modules.len() && !self.is_valid_addr(addr) {
            return Err(Error::ChannelValue);
        }
        if !self.is_valid_addr(addr) {
            return Err(Error::Address);
        }
        self.write.insert(*addr, value);
""")],
      "a write to a channel that an existing module does not have",
      "the wrong address is reported as a wrong value",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_16DO_P, vec![], 0, 2)]);
    let e = c.set_output(&Address { module: 0, channel: 16 }, ChannelValue::Bit(true));
    assert_eq!(e, Err(Error::Address));
}""")

plant("c24-odd-short", "C24",
      [(CPL, """    if bit == 8 && byte_count > 1 {
        end += 1; // the last byte is located in the following register
    }
    if end > data.len() {
        return Err(Error::BufferLength);
    }
""", """    if end > data.len() {
        return Err(Error::BufferLength);
    }
    if bit == 8 && byte_count > 1 {
        end += 1; // the last byte is located in the following register
        if end > data.len() {
            return Err(Error::ModuleOffset);
        }
    }
""")],
      "an image whose last register is missing and a module that starts at an odd byte",
      "a short image is reported as a wrong module offset",
      r"""
fn main() {
    let mut c = coupler(&[
        (ModuleType::UR20_4DI_P, vec![0; 4], 1, 0),
        (ModuleType::UR20_4AI_UI_16, vec![0, 1, 2, 1, 2, 1, 2, 1, 2], 8, 0),
    ]);
    assert_eq!(c.next(&[0; 4], &[]), Err(Error::BufferLength));
    assert!(c.next(&[0; 5], &[]).is_ok());
}""")

plant("c24-seq", "C24",
      [(COM, """        if self.tx_cnt > 3 || self.rx_cnt_ack > 3 {
            return Err(Error::SequenceNumber);
        }

        if self.data.len()""", """        if self.tx_cnt > 3 {
            return Err(Error::SequenceNumber);
        }

        if self.rx_cnt_ack > 3 || self.data.len()""")],
      "a telegram whose acknowledge counter is above 3 (and whose data is fine)",
      "the wrong counter is reported as a wrong data length",
      r"""
use ur20::ur20_1com_232_485_422::{ProcessDataLength, ProcessOutput};
fn main() {
    let o = ProcessOutput { rx_cnt_ack: 4, ..Default::default() };
    assert_eq!(o.try_into_byte_message(&ProcessDataLength::EightBytes), Err(Error::SequenceNumber));
}""")

plant("c22-scratch", "C22",
      [(CPL, """    let mut out = vec![];

    for (i, &(m, offset)) in modules.iter().enumerate() {
        if let Some(out_offset) = offset.output {
            let data = m.process_output_values(&values[i])?;
""", """    // reuse the memory of the last image that was assembled
    let mut out = IMAGE.with(|b| std::mem::take(&mut *b.borrow_mut()));

    for (i, &(m, offset)) in modules.iter().enumerate() {
        if let Some(out_offset) = offset.output {
            let data = match m.process_output_values(&values[i]) {
                Ok(data) => data,
                Err(e) => {
                    IMAGE.with(|b| *b.borrow_mut() = out);
                    return Err(e);
                }
            };
"""),
       (CPL, """    Ok(out)
}

fn word_to_offset""", """    let image = out.clone();
    out.clear();
    IMAGE.with(|b| *b.borrow_mut() = out);
    Ok(image)
}

std::thread_local! {
    static IMAGE: std::cell::RefCell<Vec<u16>> = const { std::cell::RefCell::new(vec![]) };
}

fn word_to_offset""")],
      "a value that is refused behind a module that is encoded already, then a cycle of any coupler on the same thread",
      "the remains of the refused image spoil the next cycle, even that of another coupler",
      r"""
fn main() {
    let m = (ModuleType::UR20_16DO_P, vec![], 0, 2);
    let mut a = coupler(&[m.clone(), m.clone()]);
    let mut b = coupler(&[m.clone()]);
    a.set_output(&Address { module: 1, channel: 0 }, ChannelValue::Decimal32(1.0)).unwrap();
    assert!(a.next(&[], &[0, 0]).is_err());
    assert_eq!(b.next(&[], &[7]), Ok(vec![7]));
}""", also=["C09"])

plant("c09-drop-serial", "C09",
      [(CPL, """        process_output_values(&infos, &next_out_values)?;

        self.in_values""", """        if let Err(err) = process_output_values(&infos, &next_out_values) {
            // do not try the same values again
            self.write.clear();
            return Err(err);
        }

        self.in_values""")],
      "a byte string pending for a serial module when another module's value is refused",
      "the byte string is never transmitted",
      r"""
fn main() {
    let mut c = coupler(&[com(8), (ModuleType::UR20_16DO_P, vec![], 0, 2)]);
    let i = tel(8, st_in(false, 0, 0), &[]);
    let mut o = vec![0u16; 5];
    for _ in 0..2 {
        o = c.next(&i, &o).unwrap();
    }
    c.set_output(&Address { module: 0, channel: 0 }, ChannelValue::Bytes(vec![1, 2, 3])).unwrap();
    c.set_output(&Address { module: 1, channel: 3 }, ChannelValue::Decimal32(1.0)).unwrap();
    assert!(c.next(&i, &o).is_err());
    o = c.next(&i, &o).unwrap();
    assert_eq!(data(&bytes(&o)), vec![1, 2, 3]);
}""", also=["C06", "C01"])

plant("c15-overrange", "C15",
      [(UTIL, """    v.round() as i16 as u16
}""", """    // the module does not drive more than the overrange
    let limit = (f64::from(factor) * 1.184) as f32;
    v.round().clamp(-limit, limit) as i16 as u16
}""")],
      "an output value beyond 118.4 percent of the range in format S7 (or 27 S5 overranges)",
      "the output saturates below the end of the representable range",
      r"""
fn main() {
    let m = ur20_4ao_ui_16::Mod::from_modbus_parameter_data(&[1, 2, 0, 1, 2, 0, 1, 2, 0, 1, 2, 0]).unwrap();
    let row = |v: f32| m.process_output_values(&[ChannelValue::Decimal32(v), ChannelValue::Disabled, ChannelValue::Disabled, ChannelValue::Disabled]);
    assert_eq!(row(1e6).unwrap()[0], 0x7FFF);
    assert_eq!(row(-1e6).unwrap()[0], 0x8000);
}""", also=["C07"])

plant("c13-tenths", "C13",
      [(UTIL, """        PT100 | PT200 | PT500 | PT1000 | NI100 | NI120 | NI200 | NI500 | NI1000 | Cu10 => {
            Some(f32::from(data as i16) / 10.0)
        }
""", """        PT100 | PT200 | PT500 | PT1000 | NI100 | NI120 | NI200 | NI500 | NI1000 | Cu10 => {
            let t = data as i16;
            Some(f32::from(t / 10) + f32::from((t % 10).abs()) / 10.0)
        }
""")],
      "a temperature below zero that is no whole number",
      "the fraction is added with the wrong sign",
      r"""
use ur20::ur20_4ai_rtd_diag as rtd;
fn main() {
    let mut b = vec![0u16; 29];
    for i in 0..4 {
        b[1 + 7 * i] = 3;
    }
    let m = rtd::Mod::from_modbus_parameter_data(&b).unwrap();
    let v = m.process_input_data(&[(-15i16) as u16, 15, 0, 0]).unwrap();
    assert_eq!(v[0], ChannelValue::Decimal32(-1.5));
    assert_eq!(v[1], ChannelValue::Decimal32(1.5));
}""")

plant("c14-both", "C14",
      [(FCNT, """                let cmd = if util::test_bit_16(*control, 8) {
                    Some(Command::Start)
                } else if util::test_bit_16(*control, 9) {
                    Some(Command::Stop)
                } else {
                    None
                };""", """                let cmd = match control >> 8 {
                    1 => Some(Command::Start),
                    2 => Some(Command::Stop),
                    _ => None,
                };""")],
      "other bits of the command register set besides the start or stop bit",
      "the command is not recognised and not kept",
      r"""
use ur20::ur20_2fcnt_100 as f;
fn main() {
    let m = f::Mod::default();
    let v = m.process_output_data(&[0, 0, 0, 0, 0x0500, 0x0200]).unwrap();
    let cmd = |v: &ChannelValue| match v {
        ChannelValue::FcntOut(o) => o.command.clone(),
        _ => panic!(),
    };
    assert_eq!(cmd(&v[0]), Some(f::Command::Start));
    assert_eq!(cmd(&v[1]), Some(f::Command::Stop));
}""", also=["C07"])

plant("c16-clip", "C16",
      [(COM, """        let status = bytes[0];
        let data_len = bytes[1] as usize;

        if bytes.len() < data_len + 2 {
            return Err(Error::BufferLength);
        }

        let msg = ProcessInput {""", """        let status = bytes[0];
        let mut data_len = bytes[1] as usize;

        if data_len == 0 && test_bit(status, 0) {
            // nothing announced: all bytes
            data_len = bytes.len() - 2;
        }

        if bytes.len() < data_len + 2 {
            return Err(Error::BufferLength);
        }

        let msg = ProcessInput {""")],
      "a telegram that announces data with length zero",
      "bytes that were not announced are received",
      r"""
use ur20::ur20_1com_232_485_422::ProcessInput;
fn main() {
    let i = ProcessInput::try_from_byte_message(&[1, 0, 9, 9]).unwrap();
    assert!(i.data.is_empty());
}""", also=["C02"])

plant("c07-fault-code", "C07",
      [(UTIL, """    let factor = format.factor();
    use crate::AnalogUIRange::*;
    let data = f32::from(data as i16);

    match *range {
        mA0To20 => Some(data""", """    let factor = format.factor();
    use crate::AnalogUIRange::*;
    let data = match (data as i16, format) {
        (i16::MIN, DataFormat::S7) => f32::from(i16::MIN + 1), // symmetric
        (data, _) => f32::from(data),
    };

    match *range {
        mA0To20 => Some(data""")],
      "the raw word 0x8000 in format S7",
      "the output moves by one although nothing was written",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_4AO_UI_16, vec![1, 2, 0, 1, 2, 0, 1, 2, 0, 1, 2, 0], 0, 8)]);
    assert_eq!(c.next(&[], &[0x8000, 0x8001, 1, 2]), Ok(vec![0x8000, 0x8001, 1, 2]));
}""", also=["C13", "C15"])

plant("c11-mirror", "C11",
      [(CPL, """        if self.modules.len() != self.params.len() {
            return Err(Error::BufferLength);
        }
        if self.modules.len() * 2 != self.offsets.len() {""", """        if self.modules.len() != self.params.len() {
            return Err(Error::BufferLength);
        }
        let with_data = self.offsets.iter().rposition(|o| *o != 0xFFFF).map_or(0, |i| i + 1);
        if self.modules.len() * 2 > self.offsets.len() || self.modules.len() * 2 < with_data {""")],
      "an offset table with unused entries behind those of the modules",
      "a coupler is built from a table that does not fit the module list",
      r"""
fn main() {
    let cfg = |offsets: Vec<u16>| CouplerConfig { modules: vec![ModuleType::UR20_16DO_P], offsets, params: vec![vec![]] };
    assert!(Coupler::new(&cfg(vec![0x8000, 0xFFFF])).is_ok());
    assert!(Coupler::new(&cfg(vec![0x8000, 0xFFFF, 0xFFFF, 0xFFFF])).is_err());
}""")

plant("c12-limit-swap", "C12",
      [(RTD, """            p.high_limit_value = data[idx + 6] as i16;
            p.low_limit_value = data[idx + 7] as i16;
""", """            p.high_limit_value = data[idx + 6] as i16;
            p.low_limit_value = data[idx + 7] as i16;
            if p.high_limit_value < p.low_limit_value {
                std::mem::swap(&mut p.high_limit_value, &mut p.low_limit_value);
            }
""")],
      "a lower limit above the upper one",
      "each limit takes the value of the other one's register",
      r"""
use ur20::ur20_4ai_rtd_diag as rtd;
fn main() {
    let mut b = vec![0u16; 29];
    b[6] = 5;
    b[7] = 9;
    let m = rtd::Mod::from_modbus_parameter_data(&b).unwrap();
    assert_eq!((m.ch_params[0].high_limit_value, m.ch_params[0].low_limit_value), (5, 9));
}""")

plant("c17-trim", "C17",
      [(LIB, """        let c = match &*s.to_uppercase() {
            "DI"  => DI,""", """        let c = match s.to_uppercase().trim_end_matches(char::is_numeric) {
            "DI"  => DI,""")],
      "a category name with a number behind it",
      "a string that names no category is taken for one",
      r"""
use std::str::FromStr;
fn main() {
    assert!(ModuleCategory::from_str("DO").is_ok());
    assert!(ModuleCategory::from_str("DO8").is_err());
}""")

plant("c21-zero-block", "C21",
      [(CPL, """    modules
        .iter()
        .enumerate()
        .map(|(idx, m)| {
            (
                ADDR_MODULE_PARAMETERS + (idx * 256) as u16,""", """    let mut idx = 0;
    modules
        .iter()
        .enumerate()
        .map(|(i, m)| {
            if i > 0 && modules[i - 1] != ModuleType::UR20_PF_O_1DI_SIL {
                idx += 1;
            }
            (
                ADDR_MODULE_PARAMETERS + (idx * 256) as u16,""")],
      "a power feed module in front of other modules",
      "the modules behind it are configured with the parameters of their neighbours",
      r"""
fn main() {
    let l = param_addresses_and_register_counts(&[
        ModuleType::UR20_4DI_P, ModuleType::UR20_PF_O_1DI_SIL, ModuleType::UR20_4DO_P,
    ]);
    assert_eq!(l[2], (0xC200, 4));
}""", also=["C19"])

plant("c03-empty-write", "C03",
      [(COM, """        for c in buf.chunks(self.process_data_len.user_data_len()) {
            self.out_data.push(c.to_vec());
        }
""", """        if buf.is_empty() {
            self.out_data.push(vec![]);
        }
        for c in buf.chunks(self.process_data_len.user_data_len()) {
            self.out_data.push(c.to_vec());
        }
""")],
      "an empty write (or an empty byte string as an output)",
      "an empty segment is placed and moves the transmit counter",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    c.set_output(&Address { module: 0, channel: 0 }, ChannelValue::Bytes(vec![])).unwrap();
    let before = cnt(bytes(&o)[0]);
    let _ = c.writer(0).unwrap().write(&[]).unwrap();
    o = c.next(&tel(8, st_in(false, 0, 0), &[]), &o).unwrap();
    assert_eq!(cnt(bytes(&o)[0]), before);
}""", also=["C03"])

plant("c06-revert", "C06",
      [(CPL, """        self.write.insert(*addr, value);
        Ok(())""", """        // nothing to do for a value that stands already
        let stands = self
            .out_values
            .get(addr.module)
            .and_then(|m| m.get(addr.channel))
            .is_some_and(|v| *v == value);
        if stands && !matches!(value, ChannelValue::Bytes(_)) && self.write.is_empty() {
            return Ok(());
        }
        self.write.insert(*addr, value);
        Ok(())""")],
      "a write of the value that was reported last while the next image holds another one",
      "the write is dropped",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_16DO_P, vec![], 0, 2)]);
    c.next(&[], &[0]).unwrap();
    c.set_output(&Address { module: 0, channel: 0 }, ChannelValue::Bit(false)).unwrap();
    // somebody else has set it meanwhile
    assert_eq!(c.next(&[], &[1]), Ok(vec![0]));
}""", also=["C22"])

plant("c04-rx-late", "C04",
      [(COM, """            if input.data_available && self.last_rx_cnt != input.rx_cnt {
                self.in_data""", """            if input.data_available && input.rx_cnt != 0 && self.last_rx_cnt == 4 {
                // left over from before the reset
                self.last_rx_cnt = input.rx_cnt;
            }
            if input.data_available && self.last_rx_cnt != input.rx_cnt {
                self.in_data""")],
      "a first telegram with a receive counter other than zero",
      "the first telegram after start-up is dropped",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let o = start(&mut c, 8);
    c.next(&tel(8, st_in(true, 1, 0), &[7, 8]), &o).unwrap();
    assert_eq!(read_all(&mut c, 0), vec![7, 8]);
}""", also=["C02", "C18"])
