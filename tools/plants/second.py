COM = "ur20_1com_232_485_422.rs"
CPL = "ur20_fbc_mod_tcp.rs"
PLANTS = []


def plant(id, property, edits, needs, breaks, demo, also=()):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also)))


PUMP = r"""
/// A module that takes over and acknowledges every segment as soon as it sees it.
fn pump(c: &mut Coupler, len: usize, o: &mut Vec<u16>, ta: &mut u8, cycles: usize) -> Vec<u8> {
    let mut got = vec![];
    for _ in 0..cycles {
        let b = bytes(o);
        if cnt(b[0]) == (*ta + 1) % 4 {
            got.extend(data(&b));
            *ta = (*ta + 1) % 4;
        }
        *o = c.next(&tel(len, st_in(false, 0, *ta), &[]), o).expect("cycle");
    }
    got
}
"""
CHUNKS = """        for c in buf.chunks(self.process_data_len.user_data_len()) {
            self.out_data.push(c.to_vec());
        }"""

plant("c01-dedupe", "C01",
      [(COM, CHUNKS, """        for c in buf.chunks(self.process_data_len.user_data_len()) {
            // don't queue the same segment twice (a caller that repeats an unfinished write)
            if self.out_data.last().is_none_or(|last| last.as_slice() != c) {
                self.out_data.push(c.to_vec());
            }
        }""")],
      "two equal segments next to each other in the queue",
      "the second of two equal segments is dropped",
      PUMP + r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    let sent = [7u8; 13];
    c.writer(0).unwrap().write_all(&sent).unwrap();
    let mut ta = 0;
    assert_eq!(pump(&mut c, 8, &mut o, &mut ta, 20), sent);
}""")

plant("c01-flush", "C01",
      [(COM, """    fn flush(&mut self) -> io::Result<()> {
        Ok(())""", """    fn flush(&mut self) -> io::Result<()> {
        // nothing is left in the buffer once it has been flushed
        self.out_data.clear();
        Ok(())""")],
      "the application flushes the writer after writing",
      "flushing the writer discards everything that is queued",
      PUMP + r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    let sent = [1u8, 2, 3];
    let w = c.writer(0).unwrap();
    w.write_all(&sent).unwrap();
    w.flush().unwrap();
    let mut ta = 0;
    assert_eq!(pump(&mut c, 8, &mut o, &mut ta, 20), sent);
}""")

plant("c02-idle-track", "C02",
      [(COM, """            if input.data_available && self.last_rx_cnt != input.rx_cnt {
                self.in_data.extend_from_slice(&input.data);
                self.last_rx_cnt = input.rx_cnt;
            }""", """            let is_new = self.last_rx_cnt != input.rx_cnt;
            self.last_rx_cnt = input.rx_cnt;
            if input.data_available && is_new {
                self.in_data.extend_from_slice(&input.data);
            }""")],
      "a telegram whose receive counter is visible one cycle before its data available flag",
      "the telegram is never delivered",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    o = c.next(&tel(8, st_in(false, 0, 0), &[]), &o).unwrap();
    o = c.next(&tel(8, st_in(false, 1, 0), &[]), &o).unwrap();
    for _ in 0..3 {
        o = c.next(&tel(8, st_in(true, 1, 0), &[5, 6]), &o).unwrap();
    }
    assert_eq!(read_all(&mut c, 0), [5, 6]);
}""")

plant("c02-full-segment", "C02",
      [(COM, """                self.in_data.extend_from_slice(&input.data);
                self.last_rx_cnt = input.rx_cnt;""", """                // start over when the module reports an overrun
                if input.buffer_nearly_full && input.data.is_empty() {
                    self.in_data.clear();
                }
                self.in_data.extend_from_slice(&input.data);
                self.last_rx_cnt = input.rx_cnt;""")],
      "an empty telegram presented while the nearly-full flag is set and unread bytes are buffered",
      "unread bytes are thrown away",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    o = c.next(&tel(8, st_in(true, 1, 0), &[5, 6]), &o).unwrap();
    o = c.next(&tel(8, st_in(true, 2, 0) | 2, &[]), &o).unwrap();
    c.next(&tel(8, st_in(true, 3, 0), &[7]), &o).unwrap();
    assert_eq!(read_all(&mut c, 0), [5, 6, 7]);
}""")

plant("c03-clear-acked", "C03",
      [(COM, """                out_msg.data = self.out_data.remove(0);
            }
            if input.data_available""", """                out_msg.data = self.out_data.remove(0);
            } else if input.ready && input.tx_cnt_ack == output.tx_cnt {
                // taken over, no need to send it again
                out_msg.data.clear();
            }
            if input.data_available""")],
      "an acknowledged segment with nothing else to send",
      "the data of the output changes without a new segment",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    c.writer(0).unwrap().write_all(&[1, 2, 3]).unwrap();
    o = c.next(&tel(8, st_in(false, 0, 0), &[]), &o).unwrap();
    let p = c.next(&tel(8, st_in(false, 0, 1), &[]), &o).unwrap();
    assert_eq!(p, o);
}""")

plant("c03-reset-flag", "C03",
      [(COM, """            if !self.out_data.is_empty() && Self::inc_cnt(input.tx_cnt_ack) != output.tx_cnt {
                out_msg.tx_cnt""", """            // once everything is handed over there is no reset to be kept up
            out_msg.reset &= !self.out_data.is_empty() || !self.in_data.is_empty() || !input.data_available;
            if !self.out_data.is_empty() && Self::inc_cnt(input.tx_cnt_ack) != output.tx_cnt {
                out_msg.tx_cnt""")],
      "a telegram seen while nothing is queued and nothing is unread",
      "the reset flag of the output is withdrawn",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let o = start(&mut c, 8);
    let p = c.next(&tel(8, st_in(true, 1, 0), &[9]), &o).unwrap();
    assert_eq!(bytes(&p)[0] & 0x80, bytes(&o)[0] & 0x80);
}""")

plant("c04-flush-again", "C04",
      [(COM, """        let mut out_msg = output.clone();
        if self.init_state""", """        let mut out_msg = output.clone();
        if self.init_state == InitState::Done && output.rx_buf_flush && output.tx_buf_flush {
            self.init_state = InitState::Reset; // a flush was requested, finish it
        }
        if self.init_state""")],
      "an operating module whose given output image has both flush flags set",
      "a part of the start-up is run again",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let o = start(&mut c, 8);
    let mut b = bytes(&o);
    b[0] = 0x83;
    c.writer(0).unwrap().write_all(&[1]).unwrap();
    let p = bytes(&c.next(&tel(8, st_in(false, 0, 0), &[]), &words(&b)).unwrap());
    assert_eq!(p[0] & 3, 3);
    assert_eq!(data(&p), [1]);
}""")

plant("c04-skip-flush", "C04",
      [(COM, """                InitState::ClearBuffers => {
                    out_msg.reset = false;""", """                InitState::ClearBuffers if output.reset && !input.data_available && input.tx_cnt_ack == output.tx_cnt && input.rx_cnt == output.rx_cnt_ack && output.tx_cnt != 0 => {
                    // the module is idle already: there is nothing to flush
                    self.last_rx_cnt = 4;
                    self.init_state = InitState::Done;
                }
                InitState::ClearBuffers => {
                    out_msg.reset = false;""")],
      "a first cycle that finds the module idle, reset set and all counters acknowledged, with a nonzero transmit counter",
      "the buffers are not flushed",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let b = bytes(&c.next(&tel(8, st_in(false, 1, 2), &[]), &tel(8, 0x80 | (2 << 3) | (1 << 5), &[])).unwrap());
    assert_eq!(b[0] & 0x83, 3);
}""")

plant("c05-same-data", "C05",
      [(CPL, """    last_tx_cnt: HashMap<usize, usize>,
}""", """    last_tx_cnt: HashMap<usize, usize>,
    /// Last transmitted segment of each message processor
    last_tx_data: HashMap<usize, Vec<u8>>,
}"""),
       (CPL, """            last_tx_cnt: HashMap::new(),
""", """            last_tx_cnt: HashMap::new(),
            last_tx_data: HashMap::new(),
"""),
       (CPL, """                        if !out_v.data.is_empty() && out_v.tx_cnt != last_tx_cnt {
""", """                        let last_tx_data = self.last_tx_data.insert(m_nr, out_v.data.clone());
                        if !out_v.data.is_empty()
                            && out_v.tx_cnt != last_tx_cnt
                            && last_tx_data.as_ref() != Some(&out_v.data)
                        {
""")],
      "the same segment sent twice in a row",
      "the second transmission is not reported",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    c.writer(0).unwrap().write_all(&[1, 2, 3, 4, 5, 6, 1, 2, 3, 4, 5, 6]).unwrap();
    let mut n = 0;
    for ta in [0, 1, 1, 2, 2] {
        o = c.next(&tel(8, st_in(false, 0, ta), &[]), &o).unwrap();
        n += usize::from(c.outputs()[0][0] != ChannelValue::None);
    }
    assert_eq!(n, 2);
}""")

plant("c05-not-ready", "C05",
      [(CPL, "if in_v.data_available && !in_v.data.is_empty() {", "if in_v.data_available && (in_v.ready || !in_v.buffer_nearly_full) && !in_v.data.is_empty() {")],
      "a telegram presented by a module that is not ready and nearly full",
      "the presented segment is not reported",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let o = start(&mut c, 8);
    c.next(&tel(8, (st_in(true, 1, 0) | 2) & 0x7F, &[1, 2]), &o).unwrap();
    assert_eq!(c.inputs()[0][0], ChannelValue::Bytes(vec![1, 2]));
}""")

plant("c06-flat-key", "C06",
      [(CPL, "    write: HashMap<Address, ChannelValue>,", "    /// (by the number of the channel, eight per module)\n    write: HashMap<usize, ChannelValue>,"),
       (CPL, "self.write.insert(*addr, value);", "self.write.insert(addr.module * 8 + addr.channel, value);"),
       (CPL, """self.write.remove(&Address {
                    module: m_nr,
                    channel: i,
                })""", "self.write.remove(&(m_nr * 8 + i))"),
       (CPL, """self.write.remove(&Address {
                            module: m_nr,
                            channel: 0,
                        })""", "self.write.remove(&(m_nr * 8))")],
      "a 16 channel output followed by a module whose channel shares a key with one of its upper channels",
      "the value for one module is applied to another one",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_16DO_P, vec![], 0, 2), (ModuleType::UR20_4DO_P, vec![0; 4], 0, 1)]);
    c.set_output(&Address { module: 1, channel: 2 }, ChannelValue::Bit(true)).unwrap();
    assert_eq!(c.next(&[], &[0, 0]).unwrap(), [0, 4]);
}""")

plant("c06-full", "C06",
      [(CPL, """        self.write.insert(*addr, value);
        Ok(())""", """        if self.write.len() >= 128 && !self.write.contains_key(addr) {
            return Err(Error::Address); // too many requests
        }
        self.write.insert(*addr, value);
        Ok(())""")],
      "more than 128 channels written before a cycle",
      "a write to an existing channel is refused",
      r"""
fn main() {
    let m: Vec<_> = (0..9).map(|_| (ModuleType::UR20_16DO_P, vec![], 0, 2)).collect();
    let mut c = coupler(&m);
    for module in 0..9 {
        for channel in 0..16 {
            c.set_output(&Address { module, channel }, ChannelValue::Bit(true)).unwrap();
        }
    }
    assert_eq!(c.next(&[], &[0; 9]).unwrap(), [0xFFFF; 9]);
}""")

plant("c07-round3", "C07",
      [("ur20_4ao_ui_16_diag.rs", "Some(v) => ChannelValue::Decimal32(v),", "Some(v) if v.abs() > 19.0 => ChannelValue::Decimal32((v * 1000.0).round() / 1000.0),\n                    Some(v) => ChannelValue::Decimal32(v),")],
      "a current output above 19 mA of the diagnostics module",
      "the raw value moves although nothing was written",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_4AO_UI_16_DIAG, vec![0, 1, 0, 0].repeat(4), 0, 8)]);
    for r in 26300u16..27648 {
        let o = [r, r, r, r];
        assert_eq!(c.next(&[], &o).unwrap(), o);
    }
}""")

plant("c08-odd-pair", "C08",
      [(CPL, "if bit == 8 && byte_count > 1 {\n        end += 1;", "if bit == 8 && byte_count > 2 {\n        end += 1;")],
      "a two byte module at an odd byte offset",
      "the second byte of the module is not read",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_4DO_P, vec![0; 4], 0, 1), (ModuleType::UR20_16DO_P, vec![], 0, 2)]);
    let o = [0x0102, 0x0080];
    assert_eq!(c.next(&[], &o).unwrap(), o);
    assert_eq!(c.outputs()[1][15], ChannelValue::Bit(true));
}""")

plant("c08-first-length", "C08",
      [(CPL, "                    if m.process_output_byte_count() > 1 {\n                        out.extend_from_slice(&u8_to_u16(rest));", "                    if rest.len() > 1 && rest.iter().any(|b| *b != 0) || i + 1 < modules.len() {\n                        out.extend_from_slice(&u8_to_u16(rest));")],
      "a last module at an odd byte offset whose bytes after the first are all zero, or a one byte module there that is not the last",
      "the image is too short or has a stray register",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_4DO_P, vec![0; 4], 0, 1), (ModuleType::UR20_4AO_UI_16, vec![1, 0, 0].repeat(4), 0, 8)]);
    let o = [0x0102, 0, 0, 0, 0];
    assert_eq!(c.next(&[], &o).unwrap(), o);
}""")

plant("c09-keep-bad", "C09",
      [(CPL, "        process_output_values(&infos, &next_out_values)?;\n\n        self.in_values", """        if let Err(e) = process_output_values(&infos, &next_out_values) {
            // keep the requests
            for (module, (old, new)) in out_values.iter().zip(next_out_values).enumerate() {
                for (channel, (o, n)) in old.iter().zip(new).enumerate() {
                    if *o != n {
                        self.write.insert(Address { module, channel }, n);
                    }
                }
            }
            return Err(e);
        }

        self.in_values""")],
      "a cycle rejected because of a value that does not fit its channel, followed by another cycle",
      "the value stays pending and blocks all later cycles",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_4DO_P, vec![0; 4], 0, 1)]);
    c.set_output(&Address { module: 0, channel: 0 }, ChannelValue::Decimal32(1.0)).unwrap();
    assert!(c.next(&[], &[0]).is_err());
    assert_eq!(c.next(&[], &[0]).unwrap(), [0]);
}""")

plant("c09-early-tx", "C09",
      [(CPL, """        let mut next_out_values = out_values.clone();
        let mut in_bytes""", """        let mut next_out_values = out_values.clone();
        let last_tx_cnts = self.last_tx_cnt.clone();
        for (m_nr, v) in out_values.iter().enumerate() {
            if let Some(ChannelValue::ComRsOut(v)) = v.first() {
                self.last_tx_cnt.insert(m_nr, v.tx_cnt);
            }
        }
        let mut in_bytes"""),
       (CPL, "let last_tx_cnt = self.last_tx_cnt.insert(m_nr, out_v.tx_cnt).unwrap_or(0);", "let last_tx_cnt = last_tx_cnts.get(&m_nr).copied().unwrap_or(0);")],
      "a cycle rejected because of a value in the very cycle that first shows a transmitted segment",
      "the transmitted segment is not reported by the next accepted cycle",
      r"""
fn main() {
    let mut c = coupler(&[com(8), (ModuleType::UR20_4DO_P, vec![0; 4], 0, 1)]);
    let mut o = vec![0; 5];
    let i = tel(8, st_in(false, 0, 0), &[]);
    o = c.next(&i, &o).unwrap();
    o = c.next(&i, &o).unwrap();
    c.writer(0).unwrap().write_all(&[1]).unwrap();
    o = c.next(&i, &o).unwrap();
    c.set_output(&Address { module: 1, channel: 0 }, ChannelValue::Decimal32(1.0)).unwrap();
    assert!(c.next(&i, &o).is_err());
    c.next(&i, &o).unwrap();
    assert_eq!(c.outputs()[0][0], ChannelValue::Bytes(vec![1]));
}""")

plant("c10-pad", "C10",
      [(CPL, """    if end > data.len() {
        return Err(Error::BufferLength);
    }
    let output = &data[start..end];
""", """    if end > data.len() + usize::from(byte_count > 8) {
        return Err(Error::BufferLength);
    }
    // the last register may be missing
    let mut padded = data.to_vec();
    padded.push(0);
    let output = &padded[start..end];
""")],
      "an image that lacks the last register of a module with more than eight bytes",
      "the missing register is made up",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_8AI_I_16_DIAG_HD, [vec![0], vec![0, 0, 1, 0].repeat(8)].concat(), 16, 0)]);
    assert!(c.next(&[1; 8], &[]).is_ok());
    assert!(c.next(&[1; 7], &[]).is_err());
}""")

plant("c10-preset-overflow", "C10",
      [("ur20_2fcnt_100.rs", "                    if v.duration > *MAX_MEASUREMENT_DURATION {", "                    if v.duration.as_secs() as u8 > 8 || v.duration.as_secs() <= 8 && v.duration > *MAX_MEASUREMENT_DURATION {")],
      "a preset whose seconds are a multiple of 256 plus at most eight",
      "the preset is accepted and a made-up number of microseconds is written, or the multiplication overflows",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_2FCNT_100, vec![0, 0], 20, 12)]);
    c.set_output(&Address { module: 0, channel: 0 }, ChannelValue::FcntOut(ur20_2fcnt_100::ProcessOutput {
        duration: std::time::Duration::from_secs(257), command: None })).unwrap();
    assert!(c.next(&[0; 10], &[0; 6]).is_err());
}""", also=["C14"])

plant("c11-exact", "C11",
      [("ur20_4ai_rtd_diag.rs", """    if data.len() < 29 {
        return Err(Error::BufferLength);
    }
""", """    // the limits of a disabled last channel are not needed
    if data.len() < 29 && (data.len() < 28 || data[22] != RtdRange::Disabled as u16) {
        return Err(Error::BufferLength);
    }
    let mut data = data.to_vec();
    data.resize(29, 0);
""")],
      "a block that lacks its last register, with the last channel disabled",
      "the incomplete block is accepted",
      r"""
fn main() {
    let mut p = [vec![0], vec![0, 0, 2, 0, 0, 0, 0].repeat(4)].concat();
    p[22] = 18;
    let new = |p: Vec<u16>| std::panic::catch_unwind(|| Coupler::new(&CouplerConfig { modules: vec![ModuleType::UR20_4AI_RTD_DIAG], offsets: vec![0xFFFF, 0], params: vec![p] }).is_ok());
    assert_eq!(new(p.clone()).unwrap(), true);
    p.pop();
    assert_eq!(new(p).unwrap(), false);
}""")

plant("c12-subst-format", "C12",
      [("ur20_4ao_ui_16.rs", """    let channel_parameters: Result<Vec<_>> = (0..4)
        .map(|i| {
            let mut p = ChannelParameters::default();""", """    let channel_parameters: Result<Vec<_>> = (0..4)
        .map(|i| {
            let mut p = ChannelParameters::default();
            let common_format = match data[0] {
                0 => DataFormat::S5,
                _ => DataFormat::S7,
            };"""),
       ("ur20_4ao_ui_16.rs", "util::u16_to_analog_ui_value(data[idx + 2], &p.output_range, &p.data_format)", "util::u16_to_analog_ui_value(data[idx + 2], &p.output_range, &common_format)")],
      "channels with different data formats and a substitute value",
      "the substitute value of a channel depends on the format of the first one",
      r"""
fn main() {
    let m = ur20_4ao_ui_16::Mod::from_modbus_parameter_data(&[0, 0, 0, 1, 0, 27648, 1, 0, 0, 1, 0, 0]).unwrap();
    assert_eq!(m.ch_params[1].substitute_value, 20.0);
}""")

plant("c13-12bit", "C13",
      [("ur20_ai_ui_generic.rs", """                    data[i],
                    &self.ch_params[i].measurement_range,""", """                    // the converter has 12 bits plus sign
                    if Variant::MODULE_TYPE == ModuleType::UR20_4AI_UI_12 && (data[i] as i16) < 0 {
                        data[i] & 0xFFF8
                    } else {
                        data[i]
                    },
                    &self.ch_params[i].measurement_range,""")],
      "a negative raw word of UR20-4AI-UI-12 that is no multiple of eight",
      "the low bits of the raw word are ignored",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_4AI_UI_12, [vec![0], vec![1, 3].repeat(4)].concat(), 8, 0)]);
    c.next(&[0xFFFF; 4], &[]).unwrap();
    let a = c.inputs()[0][0].clone();
    c.next(&[0xFFFC; 4], &[]).unwrap();
    assert_ne!(a, c.inputs()[0][0]);
}""")

plant("c13-tc-low", "C13",
      [("ur20_4ai_tc_diag.rs", "            if val == 32767 {", "            if val == 32767 || val == 0x8000 {")],
      "the lowest raw word of a thermocouple channel",
      "a value is reported as absent although there is no line break",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_4AI_TC_DIAG, [vec![0], vec![0, 0, 2, 0, 0, 0, 0].repeat(4)].concat(), 8, 0)]);
    c.next(&[0x8000; 4], &[]).unwrap();
    assert!(matches!(c.inputs()[0][0], ChannelValue::Decimal32(_)));
}""")

plant("c15-small-s5", "C15",
      [("util.rs", "    v.round() as i16 as u16\n", "    let v = if v.abs() < 1.0 { v.trunc() } else { v.round() };\n    v as i16 as u16\n")],
      "a value between half a step and one step from the start of its range",
      "the value is cut off to zero instead of rounded to the nearest step",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_4AO_UI_16, vec![1, 2, 0].repeat(4), 0, 8)]);
    c.set_output(&Address { module: 0, channel: 1 }, ChannelValue::Decimal32(0.9 * 10.0 / 27648.0)).unwrap();
    assert_eq!(c.next(&[], &[0; 4]).unwrap(), [0, 1, 0, 0]);
}""")

plant("c16-pairs", "C16",
      [(COM, """        for (i, d) in self.data.iter().enumerate() {
            msg[2 + i] = *d;
        }""", """        for (i, d) in self.data.chunks(2).enumerate() {
            match *d {
                [a, b] => msg[2 + 2 * i..4 + 2 * i].copy_from_slice(&[a, b]),
                [a] if i < 6 => msg[2 + 2 * i] = a,
                _ => {}
            }
        }""")],
      "thirteen bytes of data",
      "the last byte is packed as zero",
      r"""
use ur20::ur20_1com_232_485_422::*;
fn main() {
    let o = ProcessOutput { data: (1..14).collect(), ..ProcessOutput::default() };
    let b = o.try_into_byte_message(&ProcessDataLength::SixteenBytes).unwrap();
    assert_eq!(ProcessOutput::try_from_byte_message(&b).unwrap(), o);
}""")

plant("c17-low-word", "C17",
      [(CPL, "        let id = (hi << 16) + lo;\n", "        let id = (hi << 16) | lo;\n        let id = if idx > 0 && id == 0xFFFF_FFFF { (u32::from(registers[0]) << 16) + u32::from(registers[1]) } else { id };\n")],
      "an unknown identification of all ones after the first entry of a module list",
      "the unknown module is taken for the first one",
      r"""
fn main() {
    assert!(module_list_from_registers(&[0x0009, 0x1F84, 0xFFFF, 0xFFFF]).is_err());
}""")

plant("c18-long-stall", "C18",
      [(COM, """    process_data_len: ProcessDataLength,
}

#[derive(Debug, PartialEq, Eq)]
enum InitState""", """    process_data_len: ProcessDataLength,
    stalled: u8,
}

#[derive(Debug, PartialEq, Eq)]
enum InitState"""),
       (COM, """            out_data: vec![],
            process_data_len,
        }""", """            out_data: vec![],
            process_data_len,
            stalled: 0,
        }"""),
       (COM, """            if !self.out_data.is_empty() && Self::inc_cnt(input.tx_cnt_ack) != output.tx_cnt {
""", """            self.stalled = if self.out_data.is_empty() { 0 } else { self.stalled.saturating_add(1) };
            if self.stalled < 200
                && !self.out_data.is_empty()
                && Self::inc_cnt(input.tx_cnt_ack) != output.tx_cnt
            {
                self.stalled = 0;
""")],
      "a module that does not acknowledge for 200 cycles while something is queued",
      "nothing is sent any more, even after the acknowledge",
      PUMP + r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    let sent = [1u8, 2, 3, 4, 5, 6, 7, 8];
    c.writer(0).unwrap().write_all(&sent).unwrap();
    for _ in 0..300 {
        o = c.next(&tel(8, st_in(false, 0, 0), &[]), &o).unwrap();
    }
    let mut ta = 0;
    assert_eq!(pump(&mut c, 8, &mut o, &mut ta, 20), sent);
}""")

plant("c19-gap", "C19",
      [(CPL, """    let mut offsets = vec![];
    for i in 0..data.len() / 2 {""", """    let mut offsets = vec![];
    for i in 0..data.len() / 2 {
        if data[i * 2] == 0xFFFF && data[i * 2 + 1] == 0xFFFF && i + 1 == data.len() / 2 && i > 0 {
            continue; // not used
        }""")],
      "an offset table whose last module has neither inputs nor outputs",
      "the last module is missing in the table",
      r"""
fn main() {
    assert_eq!(offsets_of_process_data(&[0x8000, 0, 0xFFFF, 0xFFFF]).len(), 2);
}""")
