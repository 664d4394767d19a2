COM = "ur20_1com_232_485_422.rs"
CPL = "ur20_fbc_mod_tcp.rs"
PLANTS = []


def plant(id, property, edits, needs, breaks, demo, also=()):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also)))


plant("c22-shared-tx", "C22",
      [(CPL, """                        let last_tx_cnt = self.last_tx_cnt.insert(m_nr, out_v.tx_cnt).unwrap_or(0);""",
        """                        let last_tx_cnt = LAST_TX_CNT
                            .lock()
                            .map_or(0, |mut l| l.insert(m_nr, out_v.tx_cnt).unwrap_or(0));
                        self.last_tx_cnt.insert(m_nr, last_tx_cnt);"""),
       (CPL, """/// Raw config data to create a coupler instance.""",
        """static LAST_TX_CNT: std::sync::LazyLock<std::sync::Mutex<HashMap<usize, usize>>> =
    std::sync::LazyLock::new(Default::default);

/// Raw config data to create a coupler instance.""")],
      "two couplers with a serial module at the same position in one process",
      "the last transmit counter is shared by all couplers: what one reports depends on what another did",
      r"""
fn main() {
    let run = |noise: bool| {
        let mut c = coupler(&[com(8)]);
        let o = tel(8, 0b0000_1000, &[1, 2]);
        let i = tel(8, st_in(false, 0, 0), &[]);
        if noise {
            let mut d = coupler(&[com(8)]);
            d.next(&i, &o).unwrap();
        }
        c.next(&i, &o).unwrap();
        c.outputs().clone()
    };
    // (this may be the first coupler of the process)
    let a = std::thread::spawn(move || run(false)).join().unwrap();
    let b = run(true);
    assert_eq!(a, b);
}""")

plant("c22-batch", "C22",
      [(CPL, """        let mut in_bytes = HashMap::new();
        let mut out_bytes = HashMap::new();

        for""", """        let mut in_bytes = HashMap::new();
        let mut out_bytes = HashMap::new();

        // keep the cycle time short: a limited number of requests per cycle
        let surplus: Vec<_> = self.write.keys().skip(12).copied().collect();
        let surplus: Vec<_> = surplus
            .into_iter()
            .filter_map(|a| self.write.remove(&a).map(|v| (a, v)))
            .collect();

        for"""),
       (CPL, """        self.in_values = in_values;
        self.out_values = out_values;
""", """        self.in_values = in_values;
        self.out_values = out_values;
        self.write.extend(surplus);
""")],
      "more than twelve different outputs set between two cycles",
      "which of them take effect with the next cycle depends on the order of a hash map",
      r"""
fn main() {
    let m = (ModuleType::UR20_16DO_P, vec![], 0, 2);
    let run = || {
        let mut c = coupler(&[m.clone(), m.clone()]);
        for module in 0..2 {
            for channel in 0..16 {
                c.set_output(&Address { module, channel }, ChannelValue::Bit(true)).unwrap();
            }
        }
        c.next(&[], &[0, 0]).unwrap()
    };
    for _ in 0..20 {
        assert_eq!(run(), run());
    }
}""", also=["C06"])

plant("c20-xoff", "C20",
      [(COM, """            XOFF_char: 19 as char,""", """            XOFF_char: 17 as char,""")],
      "a serial module that is left with its default parameters",
      "the default for the character that stops the transmission is the one that resumes it",
      r"""
fn main() {
    let m = ur20_1com_232_485_422::Mod::default();
    assert_eq!(m.ch_params[0].XOFF_char, 19 as char);
    assert_eq!(m.ch_params[0].XON_char, 17 as char);
}""")

plant("c21-repeated-type", "C21",
      [(CPL, """        .enumerate()
        .map(|(idx, m)| {
            (""", """        .enumerate()
        .map(|(idx, m)| {
            // modules of one kind have the same parameters
            let idx = if idx > 1 && modules[idx - 1] == *m && modules[idx - 2] == *m {
                idx - 1
            } else {
                idx
            };
            (""")],
      "three modules of the same type in a row",
      "the third one is given the parameters of the second",
      r"""
fn main() {
    let t = ModuleType::UR20_4DI_P;
    let a: Vec<_> = param_addresses_and_register_counts(&[t.clone(), t.clone(), t.clone(), t])
        .iter().map(|x| x.0).collect();
    assert_eq!(a, [0xC000, 0xC100, 0xC200, 0xC300]);
}""", also=["C19"])

plant("c21-reuse", "C21",
      [(CPL, """    /// Last transmission counter state of each message processor
    last_tx_cnt: HashMap<usize, usize>,
}""", """    /// Last transmission counter state of each message processor
    last_tx_cnt: HashMap<usize, usize>,
    /// The values the last cycle ended with and the image they came from
    known: Option<(Vec<u16>, Vec<Vec<ChannelValue>>)>,
}"""),
       (CPL, """            last_tx_cnt: HashMap::new(),
""", """            last_tx_cnt: HashMap::new(),
            known: None,
"""),
       (CPL, """        let out_values = process_output_data(&infos, process_output)?;

        let mut next_out""", """        let out_values = match self.known.take() {
            // nobody else touched the image since the last cycle
            Some((img, values)) if img == process_output => values,
            _ => process_output_data(&infos, process_output)?,
        };

        let mut next_out"""),
       (CPL, """            self.out_values[m_nr][0] = v;
        }
        process_output_values(&infos, &next_out_values)""", """            self.out_values[m_nr][0] = v;
        }
        let img = process_output_values(&infos, &next_out_values)?;
        self.known = Some((img.clone(), next_out_values));
        Ok(img)""")],
      "a value that cannot be represented exactly is written and the returned image is fed back",
      "the station's outputs are reported with the value asked for, not with the one it is driven with",
      r"""
fn main() {
    let ao = (ModuleType::UR20_4AO_UI_16, vec![1, 2, 0, 1, 2, 0, 1, 2, 0, 1, 2, 0], 0, 8);
    let mut c = coupler(&[ao]);
    let o = c.next(&[], &[0; 4]).unwrap();
    c.set_output(&Address { module: 0, channel: 0 }, ChannelValue::Decimal32(1.00001)).unwrap();
    let o = c.next(&[], &o).unwrap();
    c.next(&[], &o).unwrap();
    let first = c.outputs().clone();
    // a coupler that just sees the image
    let ao = (ModuleType::UR20_4AO_UI_16, vec![1, 2, 0, 1, 2, 0, 1, 2, 0, 1, 2, 0], 0, 8);
    let mut d = coupler(&[ao]);
    d.next(&[], &o).unwrap();
    assert_eq!(&first, d.outputs());
}""", also=["C08"])

plant("c14-hertz-millis", "C14",
      [("ur20_2fcnt_100.rs", """                / (d.as_secs() as f32 + d.subsec_nanos() as f32 / NANOS_PER_SEC as f32)""",
        """                / (d.as_secs() as f32 + (d.subsec_nanos() / 1000 * 1000) as f32 / NANOS_PER_SEC as f32)""")],
      "a short period with a fraction of a microsecond",
      "the frequency is computed from whole microseconds",
      r"""
fn main() {
    let p = ur20_2fcnt_100::ProcessInput {
        duration: Some(std::time::Duration::from_nanos(1875)),
        count: 1,
        active: true,
    };
    let hz = p.hertz().unwrap();
    assert!((hz - 533_333.3).abs() < 10.0, "{hz}");
}""")

plant("c19-high-offset", "C19",
      [(CPL, """    if word == 0xFFFF { None } else { Some(word) }""",
        """    // (bit addresses are byte aligned: the lowest bits don't matter)
    if word | 0x0007 == 0xFFFF { None } else { Some(word) }""")],
      "the very last byte of the address space",
      "a module at the last byte address counts as one without data",
      r"""
fn main() {
    let o = offsets_of_process_data(&[0xFFF8, 0xFFFF]);
    assert_eq!(o[0].output, Some(0xFFF8));
    assert_eq!(o[0].input, None);
}""")

plant("c17-stop-at-zero", "C17",
      [(CPL, """        let m = ModuleType::try_from_u32(id)?;
        list.push(m);""", """        if id == 0 && i > 0 && registers[idx * 2..].iter().all(|w| *w == 0) {
            // the list ends before the registers do
            break;
        }
        let m = ModuleType::try_from_u32(id)?;
        list.push(m);""")],
      "a module list that ends with empty entries",
      "entries that identify no module are dropped silently",
      r"""
fn main() {
    assert!(module_list_from_registers(&[0x0009, 0x1F84, 0, 0]).is_err());
}""", also=["C10"])

plant("c01-bounded", "C01",
      [(COM, """        for c in buf.chunks(self.process_data_len.user_data_len()) {
            self.out_data.push(c.to_vec());
        }
        Ok(buf.len())""", """        for c in buf.chunks(self.process_data_len.user_data_len()) {
            // bounded memory, even if the module never takes anything over
            if self.out_data.len() >= 512 {
                break;
            }
            self.out_data.push(c.to_vec());
        }
        Ok(buf.len())""")],
      "more than 512 segments wait for the module",
      "bytes that were accepted are dropped",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    let sent: Vec<u8> = (0..6 * 600).map(|k| k as u8).collect();
    c.writer(0).unwrap().write_all(&sent).unwrap();
    let (mut ta, mut got) = (0, vec![]);
    for _ in 0..700 {
        let b = bytes(&o);
        if cnt(b[0]) == (ta + 1) % 4 {
            got.extend(data(&b));
            ta = (ta + 1) % 4;
        }
        o = c.next(&tel(8, st_in(false, 0, ta), &[]), &o).unwrap();
    }
    assert!(got == sent);
}""")

plant("c02-bounded", "C02",
      [(COM, """                self.in_data.extend_from_slice(&input.data);""",
        """                self.in_data.extend_from_slice(&input.data);
                // bounded memory, even if nobody ever reads
                let surplus = self.in_data.len().saturating_sub(1024);
                self.in_data.drain(..surplus);""")],
      "more than 1024 bytes are received and not read",
      "the oldest bytes are dropped",
      r"""
fn main() {
    let mut c = coupler(&[com(16)]);
    let mut o = start(&mut c, 16);
    let mut sent = vec![];
    for k in 0..100usize {
        let d: Vec<u8> = (0..14).map(|j| (k * 14 + j) as u8).collect();
        let i = tel(16, st_in(true, ((k + 1) % 4) as u8, 0), &d);
        o = c.next(&i, &o).unwrap();
        sent.extend(d);
    }
    assert!(read_all(&mut c, 0) == sent);
}""")

plant("c03-late-mirror", "C03",
      [(COM, """        out_msg.rx_cnt_ack = input.rx_cnt;
        out_msg""", """        // nothing to acknowledge when the module just keeps its counter
        if input.data_available || input.rx_cnt != (output.rx_cnt_ack + 3) % 4 {
            out_msg.rx_cnt_ack = input.rx_cnt;
        }
        out_msg""")],
      "the receive counter steps back by one without data",
      "the acknowledge in the image is not the receive counter of the input it answers",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut o = start(&mut c, 8);
    o = c.next(&tel(8, st_in(true, 2, 0), &[1]), &o).unwrap();
    assert_eq!(ack(bytes(&o)[0]), 2);
    o = c.next(&tel(8, st_in(false, 1, 0), &[]), &o).unwrap();
    assert_eq!(ack(bytes(&o)[0]), 1);
}""")
