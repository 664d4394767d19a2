COM = "ur20_1com_232_485_422.rs"
CPL = "ur20_fbc_mod_tcp.rs"
PLANTS = []


def plant(id, property, edits, needs, breaks, demo, also=()):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also)))


# a full link simulation used by several demos: everything written must arrive
LINK = r"""
/// Runs `c` against a module that takes over and acknowledges at once when `quick`, else slowly.
fn pump(c: &mut Coupler, len: usize, o: &mut Vec<u16>, ta: &mut u8, cycles: usize, slow: usize) -> Vec<u8> {
    let mut got = vec![];
    for k in 0..cycles {
        let b = bytes(o);
        if cnt(b[0]) == (*ta + 1) % 4 && k % slow == slow - 1 {
            got.extend(data(&b));
            *ta = (*ta + 1) % 4;
        }
        *o = c.next(&tel(len, st_in(false, 0, *ta), &[]), o).expect("cycle");
    }
    got
}
"""

plant("c01-single-rest", "C01",
      [(COM, """        for c in buf.chunks(self.process_data_len.user_data_len()) {
            self.out_data.push(c.to_vec());
        }""", """        let segments = buf.chunks_exact(self.process_data_len.user_data_len());
        let rest = segments.remainder();
        self.out_data.extend(segments.map(<[u8]>::to_vec));
        if rest.len() > usize::from(buf.len() > 100) {
            self.out_data.push(rest.to_vec());
        }""")],
      "a write of more than 100 bytes whose last segment holds a single byte",
      "the last byte of the write is dropped",
      LINK + r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    let sent: Vec<u8> = (0..103).collect();
    c.writer(0).unwrap().write_all(&sent).unwrap();
    let mut ta = 0;
    assert_eq!(pump(&mut c, 8, &mut o, &mut ta, 60, 1), sent);
}""")

plant("c01-queue-limit", "C01",
      [(COM, """        for c in buf.chunks(self.process_data_len.user_data_len()) {
            self.out_data.push(c.to_vec());
        }
        Ok(buf.len())""",
        """        // Don't let the queue grow without bounds if the module is not responding.
        const MAX_PENDING_SEGMENTS: usize = 128;
        for c in buf.chunks(self.process_data_len.user_data_len()) {
            if self.out_data.len() < MAX_PENDING_SEGMENTS {
                self.out_data.push(c.to_vec());
            }
        }
        Ok(buf.len())""")],
      "more than 128 segments pending: a very long write, or writes while the module stalls",
      "bytes beyond 128 pending segments are accepted and silently dropped",
      LINK + r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    let sent: Vec<u8> = (0..1000).map(|x| x as u8).collect();
    c.writer(0).unwrap().write_all(&sent).unwrap();
    let mut ta = 0;
    assert_eq!(pump(&mut c, 8, &mut o, &mut ta, 400, 1), sent);
}""")

plant("c01-set-during-stall", "C01",
      [(CPL, "                            p.write_all(data)?;",
        """                            // a string set again before it was handed over is the same request
                            if out_v.tx_cnt == in_v.tx_cnt_ack || out_v.data != *data {
                                p.write_all(data)?;
                            }""")],
      "a byte-string output with the same content as the segment standing unacknowledged in the image",
      "a byte string equal to the segment that is still waiting for its acknowledge is dropped",
      LINK + r"""
fn main() {
    let mut c = coupler(&[com(16)]);
    let mut o = start(&mut c, 16);
    let mut ta = 0;
    let a = Address { module: 0, channel: 0 };
    let mut got = vec![];
    for _ in 0..2 {
        c.set_output(&a, ChannelValue::Bytes(b"PING".to_vec())).unwrap();
        got.extend(pump(&mut c, 16, &mut o, &mut ta, 1, 3));
    }
    got.extend(pump(&mut c, 16, &mut o, &mut ta, 12, 3));
    assert_eq!(got, b"PINGPING");
}""")

plant("c02-same-telegram", "C02",
      [(COM, "            if input.data_available && self.last_rx_cnt != input.rx_cnt {\n                self.in_data.extend_from_slice(&input.data);",
        "            if input.data_available && self.last_rx_cnt != input.rx_cnt {\n                // a repeated telegram that was not fetched yet needs no second copy\n                if !self.in_data.ends_with(&input.data) {\n                    self.in_data.extend_from_slice(&input.data);\n                }")],
      "two successive telegrams with the same content, the first not read yet when the second is presented",
      "a telegram equal to the unread one before it is not delivered",
      r"""
fn main() {
    let mut c = coupler(&[com(16)]);
    let mut o = start(&mut c, 16);
    for rx in [1u8, 2, 3] {
        o = c.next(&tel(16, st_in(true, rx, 0), b"tick"), &o).unwrap();
    }
    assert_eq!(read_all(&mut c, 0), b"tickticktick");
}""")

plant("c02-overrun", "C02",
      [(COM, "                self.in_data.extend_from_slice(&input.data);",
        """                if self.in_data.len() >= 1024 {
                    // nobody is interested in the old data
                    self.in_data.drain(..512);
                }
                self.in_data.extend_from_slice(&input.data);""")],
      "an application that does not read until more than 1024 bytes have been received",
      "the oldest 512 unread bytes are dropped",
      r"""
fn main() {
    let mut c = coupler(&[com(16)]);
    let mut o = start(&mut c, 16);
    let mut sent = vec![];
    for k in 0..120u32 {
        let d: Vec<u8> = (0..14).map(|i| (k * 14 + i) as u8).collect();
        o = c.next(&tel(16, st_in(true, ((k + 1) % 4) as u8, 0), &d), &o).unwrap();
        sent.extend(d);
    }
    assert_eq!(read_all(&mut c, 0), sent);
}""")

plant("c02-short-read", "C02",
      [(COM, """            for x in buf.iter_mut().take(len) {
                *x = self.in_data.remove(0);
            }
            Ok(len)""",
        """            buf[..len].copy_from_slice(&self.in_data[..len]);
            if len < self.process_data_len.user_data_len() {
                self.in_data.drain(..len);
            } else {
                // at least a whole telegram was taken: keep what is left of the next one
                let rest = self.in_data.len() % self.process_data_len.user_data_len();
                let from = cmp::max(len, self.in_data.len() - rest);
                self.in_data.drain(..from);
            }
            Ok(len)""")],
      "a read buffer of at least one telegram while more than another whole telegram stays unread",
      "bytes of telegrams behind the one just read are thrown away",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    let mut sent = vec![];
    for k in 0..6u8 {
        let d: Vec<u8> = (0..6).map(|i| k * 6 + i).collect();
        o = c.next(&tel(8, st_in(true, (k + 1) % 4, 0), &d), &o).unwrap();
        sent.extend(d);
    }
    let mut got: Vec<u8> = vec![];
    loop {
        let mut b = [0u8; 8];
        let n = c.reader(0).unwrap().read(&mut b).unwrap();
        if n == 0 { break; }
        got.extend(&b[..n]);
    }
    assert_eq!(got, sent);
}""")

plant("c03-wrap-ack", "C03",
      [(COM, "Self::inc_cnt(input.tx_cnt_ack) != output.tx_cnt {", "(Self::inc_cnt(input.tx_cnt_ack) != output.tx_cnt\n                    // the module already waits for us\n                    || (output.tx_cnt == 0 && !output.data.is_empty() && output.rx_cnt_ack == input.rx_cnt))\n            {")],
      "the transmit counter wraps from 3 to 0 and the module needs more than one cycle to acknowledge that segment",
      "an unacknowledged segment with counter 0 is overwritten by the next one under the same counter",
      LINK + r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    let mut ta = 0;
    let sent: Vec<u8> = (0..60).collect();
    c.writer(0).unwrap().write_all(&sent).unwrap();
    assert_eq!(pump(&mut c, 8, &mut o, &mut ta, 100, 3), sent);
}""", also=["C01"])

plant("c03-release-hw", "C03",
      [(COM, "                out_msg.tx_cnt = Self::inc_cnt(input.tx_cnt_ack);",
        "                out_msg.tx_cnt = Self::inc_cnt(input.tx_cnt_ack);\n                out_msg.disable_tx_hw_buffer = false; // there is something to transmit")],
      "the hardware transmit buffer is locked (flag set in the output image) while a segment is sent",
      "sending a segment clears a control flag of the output image",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    o[0] |= 4;
    c.writer(0).unwrap().write_all(b"abc").unwrap();
    let n = c.next(&tel(8, st_in(false, 0, 0), &[]), &o).unwrap();
    assert_eq!(data(&bytes(&n)), b"abc");
    assert_eq!(n[0] & 0x87, o[0] & 0x87);
}""")

plant("c03-ack-available", "C03",
      [(COM, "        out_msg.rx_cnt_ack = input.rx_cnt;\n        out_msg",
        "        if input.data_available || self.init_state != InitState::Done {\n            out_msg.rx_cnt_ack = input.rx_cnt;\n        }\n        out_msg")],
      "an input telegram without data whose receive counter differs from the standing acknowledge",
      "the receive acknowledge does not follow the receive counter while nothing is available",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = vec![0u16; 4];
    for _ in 0..2 {
        o = c.next(&tel(8, st_in(false, 0, 0), &[]), &o).unwrap();
    }
    let n = c.next(&tel(8, st_in(false, 2, 0), &[]), &o).unwrap();
    assert_eq!(ack(bytes(&n)[0]), 2);
}""")

plant("c04-drop-early", "C04",
      [(COM, "                    self.last_rx_cnt = 4; // make sure we'll fetch the next input",
        "                    self.last_rx_cnt = 4; // make sure we'll fetch the next input\n                    self.out_data.retain(|d| d.len() == self.process_data_len.user_data_len()); // incomplete segments were flushed")],
      "bytes written before start-up is complete whose last segment is not full",
      "a partial segment written during start-up is lost",
      LINK + r"""
fn main() {
    let mut c = coupler(&[com(16)]);
    c.writer(0).unwrap().write_all(b"hello, module").unwrap();
    let mut o = vec![0u16; 8];
    let mut ta = 0;
    assert_eq!(pump(&mut c, 16, &mut o, &mut ta, 12, 1), b"hello, module");
}""")

plant("c04-restart", "C04",
      [(COM, "        let mut out_msg = output.clone();\n        if self.init_state == InitState::Done {",
        "        let mut out_msg = output.clone();\n        if self.init_state == InitState::Done && !input.ready && !output.reset {\n            // the module was replaced: start over\n            self.init_state = InitState::ClearBuffers;\n        }\n        if self.init_state == InitState::Done {")],
      "after start-up, the module reports a fault (STAT cleared) while the reset flag of the given output image is cleared",
      "start-up (flush of both buffers) happens again in the middle of operation",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    o = c.next(&tel(8, st_in(false, 0, 0), &[]), &o).unwrap();
    o[0] &= !0x80; // the application withdraws the reset flag
    let n = c.next(&tel(8, 0, &[]), &o).unwrap();
    assert_eq!(n[0] & 3, 0, "flushed again");
}""")

plant("c04-counter", "C04",
      [(COM, "                    out_msg.reset = true;", "                    out_msg.reset = true;\n                    out_msg.tx_cnt = 0;")],
      "the output image found at start-up carries a transmit counter other than 0",
      "start-up moves the transmit counter",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = tel(8, 2 << 3, &[]);
    for _ in 0..2 {
        o = c.next(&tel(8, st_in(false, 0, 2), &[]), &o).unwrap();
        assert_eq!(cnt(bytes(&o)[0]), 2);
    }
}""")

plant("c05-shared-length", "C05",
      [(CPL, "                    let processor = ur20_1com_232_485_422::MessageProcessor::new(\n                        m.mod_params.process_data_len.clone(),\n                    );",
        "                    let len = com_len.get_or_insert_with(|| m.mod_params.process_data_len.clone());\n                    let processor = ur20_1com_232_485_422::MessageProcessor::new(len.clone());"),
       (CPL, "        let mut processors = HashMap::new();", "        let mut processors = HashMap::new();\n        let mut com_len = None;")],
      "two serial modules with different process data lengths in one coupler",
      "the segment size of every serial module is that of the first one",
      r"""
fn main() {
    let mut c = coupler(&[com(8), com(16)]);
    let mut o = vec![0u16; 12];
    let i = [tel(8, st_in(false, 0, 0), &[]), tel(16, st_in(false, 0, 0), &[])].concat();
    for _ in 0..2 {
        o = c.next(&i, &o).unwrap();
    }
    c.writer(1).unwrap().write_all(b"0123456789abcd").unwrap();
    o = c.next(&i, &o).unwrap();
    assert_eq!(data(&bytes(&o[4..])), b"0123456789abcd");
}""")

plant("c05-until-acked", "C05",
      [(CPL, "                        if in_v.data_available && !in_v.data.is_empty() {",
        "                        if in_v.data_available\n                            && !in_v.data.is_empty()\n                            && (in_v.rx_cnt != out_v.rx_cnt_ack || in_v.data.len() > 1)\n                        {")],
      "a one-byte telegram that the module still presents after it was acknowledged",
      "the reported inputs lose a presented one-byte segment once it is acknowledged although it is still available",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    for _ in 0..3 {
        o = c.next(&tel(8, st_in(true, 1, 0), &[65]), &o).unwrap();
        assert_eq!(c.inputs()[0][0], ChannelValue::Bytes(vec![65]));
    }
}""")

plant("c05-first-writer", "C05",
      [(CPL, "        self.processors\n            .get_mut(&module_nr)\n            .map(|w| w as &mut dyn Write)" , None)] if False else
      [(CPL, "                        if let Some(ChannelValue::Bytes(ref data)) = self.write.remove(&Address {\n                            module: m_nr,\n                            channel: 0,\n                        }) {",
        "                        if out_v.rx_buf_flush && out_v.tx_buf_flush {\n                            // buffers are being cleared\n                            self.write.clear();\n                        }\n                        if let Some(ChannelValue::Bytes(ref data)) = self.write.remove(&Address {\n                            module: m_nr,\n                            channel: 0,\n                        }) {")],
      "a byte-string output for one serial module in the very cycle in which another one before it is in the second step of start-up",
      "one module's start-up discards byte strings written for another module (and its own)",
      r"""
fn main() {
    let mut c = coupler(&[com(8), com(8)]);
    let i = [tel(8, st_in(false, 0, 0), &[]), tel(8, st_in(false, 0, 0), &[])].concat();
    let mut o = c.next(&i, &[0; 8]).unwrap();
    c.set_output(&Address { module: 1, channel: 0 }, ChannelValue::Bytes(b"xy".to_vec())).unwrap();
    o = c.next(&i, &o).unwrap();
    o = c.next(&i, &o).unwrap();
    assert_eq!(data(&bytes(&o[4..])), b"xy");
}""", also=["C04", "C01"])

plant("c18-half-duplex", "C18",
      [(COM, "            if !self.out_data.is_empty() && Self::inc_cnt(input.tx_cnt_ack) != output.tx_cnt {",
        "            let incoming = input.data_available && self.last_rx_cnt != input.rx_cnt;\n            if !incoming\n                && !self.out_data.is_empty()\n                && Self::inc_cnt(input.tx_cnt_ack) != output.tx_cnt\n            {")],
      "a module that presents a new telegram in every cycle",
      "nothing is sent in a cycle that receives something, so a module that keeps talking starves the transmit direction",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    c.writer(0).unwrap().write_all(b"abc").unwrap();
    for rx in [1u8, 2, 3, 0] {
        o = c.next(&tel(8, st_in(true, rx, 0), b"zz"), &o).unwrap();
    }
    assert_eq!(data(&bytes(&o)), b"abc");
}""")

plant("c18-nearly-full", "C18",
      [(COM, "            if !self.out_data.is_empty() && Self::inc_cnt(input.tx_cnt_ack) != output.tx_cnt {",
        "            if !self.out_data.is_empty()\n                && !(input.buffer_nearly_full && self.out_data.len() > 1)\n                && Self::inc_cnt(input.tx_cnt_ack) != output.tx_cnt\n            {")],
      "the module reports a nearly full receive buffer while two or more segments are waiting",
      "pending segments do not leave although the module acknowledges",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    c.writer(0).unwrap().write_all(b"0123456789").unwrap();
    o = c.next(&tel(8, st_in(false, 0, 0) | 2, &[]), &o).unwrap();
    assert_eq!(data(&bytes(&o)), b"012345");
}""")

plant("c18-parked", "C18",
      [(COM, "                out_msg.data = self.out_data.remove(0);",
        "                out_msg.data = self.out_data.remove(0);\n                if out_msg.data == output.data && self.out_data.is_empty() {\n                    // keep the counter: the module has got this one already\n                    out_msg.tx_cnt = output.tx_cnt;\n                }")],
      "the last pending segment is identical to the previous, already acknowledged one",
      "a segment equal to the one before it never leaves",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    c.writer(0).unwrap().write_all(b"abc").unwrap();
    o = c.next(&tel(8, st_in(false, 0, 0), &[]), &o).unwrap();
    c.writer(0).unwrap().write_all(b"abc").unwrap();
    o = c.next(&tel(8, st_in(false, 0, 1), &[]), &o).unwrap();
    assert_eq!(cnt(bytes(&o)[0]), 2);
}""", also=["C01"])

# --- coupler -----------------------------------------------------------------
DO = "(ModuleType::UR20_8DO_P, vec![0; 8], 0, 1)"

plant("c06-first-wins", "C06",
      [(CPL, "        self.write.insert(*addr, value);", "        self.write.entry(*addr).or_insert(value);")],
      "the same channel is written twice before a cycle",
      "the first instead of the last value written is applied",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_8DO_P, vec![0; 8], 0, 1)]);
    let a = Address { module: 0, channel: 3 };
    c.set_output(&a, ChannelValue::Bit(true)).unwrap();
    c.set_output(&a, ChannelValue::Bit(false)).unwrap();
    assert_eq!(c.next(&[], &[0xFF]).unwrap(), vec![0xF7]);
}""")

plant("c06-no-change", "C06",
      [(CPL, "        self.write.insert(*addr, value);",
        "        if self.out_values.get(addr.module).and_then(|m| m.get(addr.channel)) == Some(&value) {\n            return Ok(()); // nothing to do\n        }\n        self.write.insert(*addr, value);")],
      "a channel is written with the value last reported for it after another value was written to it in the same cycle, or before an image in which it has changed",
      "a write equal to the last reported value is ignored, so an earlier pending write wins or a changed image is followed",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_8DO_P, vec![0; 8], 0, 1)]);
    let a = Address { module: 0, channel: 3 };
    c.next(&[], &[0]).unwrap();
    c.set_output(&a, ChannelValue::Bit(true)).unwrap();
    c.set_output(&a, ChannelValue::Bit(false)).unwrap();
    assert_eq!(c.next(&[], &[0]).unwrap(), vec![0]);
}""")

plant("c06-sil-addr", "C06",
      [(CPL, "            && addr.channel < self.modules[addr.module].module_type().channel_count()",
        "            && addr.channel <= self.modules[addr.module].module_type().channel_count() - 1")],
      "a write to a module without channels (UR20-PF-O-1DI-SIL)",
      "a write to a module without channels is not refused (underflow: panics with overflow checks, accepted without)",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_PF_O_1DI_SIL, vec![], 4, 0)]);
    assert!(c.set_output(&Address { module: 0, channel: 0 }, ChannelValue::Bit(true)).is_err());
}""", also=["C10"])

plant("c07-preset-f32", "C07",
      [("ur20_2fcnt_100.rs", "                    let micros =\n                        v.duration.as_secs() as u32 * MICROS_PER_SEC + v.duration.subsec_micros();",
        "                    let micros = (v.duration.as_secs_f32() * MICROS_PER_SEC as f32) as u32;")],
      "a counter preset whose number of microseconds is not exact in single precision seconds",
      "a preset is changed by a cycle without writes",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_2FCNT_100, vec![0, 0], 20, 12)]);
    for x in 0..2000u32 {
        let v = x * 4001;
        let o = vec![(v >> 16) as u16, v as u16, 0, 9, 0, 0];
        assert_eq!(c.next(&[0; 10], &o).unwrap(), o);
    }
}""", also=["C14"])

plant("c07-fast-scale", "C07",
      [("util.rs", "        V1To5 => Some(data * 4.0 / factor + 1.0),", "        V1To5 => Some((data * 4.0 / factor * 1000.0).trunc() / 1000.0 + 1.0),")],
      "an output channel in the range 1..5 V whose raw word is not a multiple of a millivolt",
      "values in this range are cut to millivolts, so the output drifts with every cycle",
      r"""
fn main() {
    let p = [1u16, 6, 0].repeat(4);
    let mut c = coupler(&[(ModuleType::UR20_4AO_UI_16, p, 0, 8)]);
    let o = vec![1, 2, 12345, 27647];
    assert_eq!(c.next(&[], &o).unwrap(), o);
}""", also=["C13"])

plant("c08-nibble", "C08",
      [(CPL, "                    let shared_low_byte = out[start] & 0x00FF;", "                    let shared_low_byte = out[start] & if m.process_output_byte_count() > 1 { 0x000F } else { 0x00FF };")],
      "a module with several bytes at an odd byte right behind a module with 8 digital outputs",
      "outputs 4..7 of the neighbour sharing the register are cleared",
      r"""
fn main() {
    let mut c = coupler(&[
        (ModuleType::UR20_8DO_P, vec![0; 8], 0, 1),
        (ModuleType::UR20_16DO_P, vec![], 0, 2),
    ]);
    let o = vec![0x34A5, 0x0012];
    assert_eq!(c.next(&[], &o).unwrap(), o);
}""")

plant("c08-empty-none", "C08",
      [(CPL, """                    data,
                )?)
            } else {
                Ok(vec![ChannelValue::None; m.module_type().channel_count()])
            }
        })
        .collect()
}

/// Map the raw output data into values.""",
        """                    data,
                )?)
            } else {
                Ok(match m.process_output_byte_count() {
                    1 => vec![ChannelValue::None; 4],
                    _ => vec![ChannelValue::None; m.module_type().channel_count()],
                })
            }
        })
        .collect()
}

/// Map the raw output data into values.""")],
      "an 8-channel digital output module (all other modules with one output byte have four channels)",
      "the reported inputs of UR20-8DO-P have four instead of eight empty values",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_8DO_P, vec![0; 8], 0, 1)]);
    c.next(&[], &[0]).unwrap();
    assert_eq!(c.inputs()[0], vec![ChannelValue::None; 8]);
}""")

plant("c09-clear-first", "C09",
      [(CPL, "        let infos: Vec<_> = self\n            .modules\n            .iter()\n            .zip(&self.offsets)\n            .map(|(m, o)| (&**m, o))\n            .collect();",
        "        let infos: Vec<_> = self\n            .modules\n            .iter()\n            .map(|m| &**m)\n            .zip(&self.offsets)\n            .collect();\n        self.in_values.clear();")],
      "a rejected cycle",
      "the reported inputs are empty after a rejected cycle",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_4DI_P, vec![0; 4], 1, 0)]);
    c.next(&[5], &[]).unwrap();
    let before = c.inputs().clone();
    assert!(c.next(&[], &[]).is_err());
    assert_eq!(*c.inputs(), before);
}""")

plant("c09-early-drain", "C09",
      [(CPL, "        let mut in_bytes = HashMap::new();",
        "        let mut in_bytes = HashMap::new();\n        if process_input.is_empty() {\n            self.in_values = in_values.clone();\n        }"),
       (CPL, "        let mut out_bytes = HashMap::new();", "        let mut out_bytes: HashMap<usize, ChannelValue> = HashMap::new();\n        self.write.retain(|a, v| !(matches!(v, ChannelValue::Bytes(_)) && out_values[a.module].len() > 1));")] if False else
      [(COM, "impl Read for MessageProcessor {", "impl Read for MessageProcessor {")] if False else
      [(CPL, "        let mut in_bytes = HashMap::new();\n        let mut out_bytes = HashMap::new();\n",
        "        let mut in_bytes = HashMap::new();\n        let mut out_bytes = HashMap::new();\n\n        for (m_nr, p) in &mut self.processors {\n            // hand over serial data first\n            if let Some(ChannelValue::Bytes(data)) = self.write.get(&Address {\n                module: *m_nr,\n                channel: 0,\n            }) {\n                p.write_all(data)?;\n            }\n        }\n        let processors = &self.processors;\n        let queued = |a: &Address, v: &ChannelValue| {\n            processors.contains_key(&a.module) && matches!(v, ChannelValue::Bytes(_))\n        };\n        let fits = |a: &Address, v: &ChannelValue| queued(a, v) || !matches!(v, ChannelValue::None);\n        if self.write.iter().all(|(a, v)| fits(a, v)) {\n            self.write.retain(|a, v| !queued(a, v));\n        }\n")],
      "a byte-string output pending together with a value `None` written to another channel: the cycle is rejected and run again",
      "a pending serial byte string is queued by the rejected cycle and once more by the next one",
      r"""
fn main() {
    let mut c = coupler(&[com(8), (ModuleType::UR20_8DO_P, vec![0; 8], 0, 1)]);
    let i = tel(8, st_in(false, 0, 0), &[]);
    let mut o = vec![0u16; 5];
    for _ in 0..2 {
        o = c.next(&i, &o).unwrap();
    }
    c.set_output(&Address { module: 0, channel: 0 }, ChannelValue::Bytes(b"A".to_vec())).unwrap();
    c.set_output(&Address { module: 1, channel: 0 }, ChannelValue::None).unwrap();
    assert!(c.next(&i, &o).is_err());
    o = c.next(&i, &o).unwrap();
    assert_eq!(data(&bytes(&o)), b"A");
    let n = c.next(&tel(8, st_in(false, 0, 1), &[]), &o).unwrap();
    assert_eq!(n, o, "sent twice");
}""")
