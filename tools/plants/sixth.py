COM = "ur20_1com_232_485_422.rs"
CPL = "ur20_fbc_mod_tcp.rs"
PLANTS = []


def plant(id, property, edits, needs, breaks, demo, also=()):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also)))


plant("c22-watchdog", "C22",
      [(COM, "    in_data: Vec<u8>,\n", "    in_data: Vec<u8>,\n    /// time of the last cycle\n    last_cycle: Option<std::time::Instant>,\n"),
       (COM, "            in_data: vec![],\n", "            in_data: vec![],\n            last_cycle: None,\n"),
       (COM, """        let mut out_msg = output.clone();
        if""", """        let mut out_msg = output.clone();
        let now = std::time::Instant::now();
        if let Some(t) = self.last_cycle.replace(now) {
            if now.duration_since(t).as_millis() > 1500 {
                // the connection was lost
                self.init_state = InitState::ClearBuffers;
            }
        }
        if""")],
      "a pause of more than one and a half seconds between two cycles",
      "what the coupler answers depends on the time that passes, the link is started up again",
      r"""
fn main() {
    let run = |pause: u64| {
        let mut c = coupler(&[com(8)]);
        let o = start(&mut c, 8);
        c.writer(0).unwrap().write_all(&[1, 2]).unwrap();
        std::thread::sleep(std::time::Duration::from_millis(pause));
        c.next(&tel(8, st_in(false, 0, 0), &[]), &o).unwrap()
    };
    assert_eq!(run(0), run(1700));
}""")

plant("c01-stall-timeout", "C01",
      [(COM, "    in_data: Vec<u8>,\n", "    in_data: Vec<u8>,\n    /// time at which the last segment was sent\n    sent: Option<std::time::Instant>,\n"),
       (COM, "            in_data: vec![],\n", "            in_data: vec![],\n            sent: None,\n"),
       (COM, """                out_msg.data = self.out_data.remove(0);
            }
""", """                out_msg.data = self.out_data.remove(0);
                self.sent = Some(std::time::Instant::now());
            } else if self.sent.is_some_and(|t| t.elapsed().as_secs() >= 5) {
                // the module does not respond: start afresh
                self.out_data.clear();
                self.sent = None;
            }
""")],
      "a module that does not acknowledge a segment for five seconds while more is waiting",
      "everything that is waiting is thrown away",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let o = start(&mut c, 8);
    c.writer(0).unwrap().write_all(&[1, 2, 3, 4, 5, 6, 7]).unwrap();
    let i = tel(8, st_in(false, 0, 0), &[]);
    let o = c.next(&i, &o).unwrap();
    let o = c.next(&i, &o).unwrap();
    std::thread::sleep(std::time::Duration::from_millis(5200));
    let o = c.next(&i, &o).unwrap();
    let o = c.next(&tel(8, st_in(false, 0, 1), &[]), &o).unwrap();
    assert_eq!(data(&bytes(&o)), [7]);
}""")

plant("c06-stale", "C06",
      [(CPL, "    /// buffer write requests\n", "    /// time of the last write request\n    written: Option<std::time::Instant>,\n    /// buffer write requests\n"),
       (CPL, "            write: HashMap::new(),\n", "            written: None,\n            write: HashMap::new(),\n"),
       (CPL, "        self.write.insert(*addr, value);\n", "        self.write.insert(*addr, value);\n        self.written = Some(std::time::Instant::now());\n"),
       (CPL, """        let mut in_bytes = HashMap::new();
""", """        if self.written.take().is_some_and(|t| t.elapsed().as_secs() > 3) {
            // requests that are too old are dangerous
            self.write.clear();
        }
        let mut in_bytes = HashMap::new();
""")],
      "more than three seconds between a write and the next cycle",
      "the write is silently dropped",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_4DO_P, vec![0; 4], 0, 1)]);
    c.set_output(&Address { module: 0, channel: 2 }, ChannelValue::Bit(true)).unwrap();
    std::thread::sleep(std::time::Duration::from_millis(4100));
    assert_eq!(c.next(&[], &[0]).unwrap(), [4]);
}""")
