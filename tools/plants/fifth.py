COM = "ur20_1com_232_485_422.rs"
CPL = "ur20_fbc_mod_tcp.rs"
PLANTS = []


def plant(id, property, edits, needs, breaks, demo, also=()):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=COUNT + demo, also=list(also)))


COUNT = r"""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
"""

plant("c25-cursor", "C25",
      [(COM, "    in_data: Vec<u8>,\n", "    in_data: Vec<u8>,\n    /// start of the data that have not been read\n    in_pos: usize,\n"),
       (COM, "            in_data: vec![],\n", "            in_data: vec![],\n            in_pos: 0,\n"),
       (COM, """        if self.in_data.is_empty() {
            Ok(0)
        } else {
            let len = cmp::min(buf.len(), self.in_data.len());

            for x in buf.iter_mut().take(len) {
                *x = self.in_data.remove(0);
            }
            Ok(len)
        }""", """        let len = cmp::min(buf.len(), self.in_data.len() - self.in_pos);
        buf[..len].copy_from_slice(&self.in_data[self.in_pos..self.in_pos + len]);
        self.in_pos += len;
        if self.in_pos == self.in_data.len() {
            self.in_data.clear();
            self.in_pos = 0;
        }
        Ok(len)""")],
      "a reader that never catches up completely with the module",
      "what was read is only released when nothing is left unread: the buffer grows with every byte received",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut out = vec![0; 4];
    let mut start = 0;
    for k in 0..40000u32 {
        let i = tel(8, st_in(true, (k % 4) as u8, 0), &[1, 2, 3, 4]);
        out = c.next(&i, &out).unwrap();
        if k > 10 {
            let mut b = [0; 4];
            c.reader(0).unwrap().read_exact(&mut b).unwrap();
        }
        if k == 1000 {
            start = LIVE.load(Relaxed);
        }
    }
    assert!(LIVE.load(Relaxed) < start + 50000);
}""")

plant("c25-unacked", "C25",
      [(COM, "    out_data: Vec<Vec<u8>>,\n", "    out_data: Vec<Vec<u8>>,\n    /// segments the module has not acknowledged yet\n    sent: Vec<(usize, Vec<u8>)>,\n"),
       (COM, "            out_data: vec![],\n", "            out_data: vec![],\n            sent: vec![],\n"),
       (COM, """        if self.init_state == InitState::Done {
""", """        if self.init_state == InitState::Done {
            if self.out_data.is_empty() {
                self.sent.retain(|(cnt, _)| *cnt != input.tx_cnt_ack);
            }
"""),
       (COM, """                out_msg.data = self.out_data.remove(0);
""", """                out_msg.data = self.out_data.remove(0);
                self.sent.push((out_msg.tx_cnt, out_msg.data.clone()));
""")],
      "an application that always has something waiting to be sent",
      "sent segments are only released in cycles in which nothing is waiting",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut out = vec![0; 4];
    let mut ack = 0;
    let mut start = 0;
    for k in 0..40000u32 {
        let w = c.writer(0).unwrap();
        if k < 20 || ((out[0] >> 3) & 3) as u8 != ack {
            w.write_all(&[1, 2, 3]).unwrap();
        }
        ack = ((out[0] >> 3) & 3) as u8;
        let i = tel(8, st_in(false, 0, ack), &[]);
        out = c.next(&i, &out).unwrap();
        if k == 1000 {
            start = LIVE.load(Relaxed);
        }
    }
    assert!(LIVE.load(Relaxed) < start + 50000);
}""")

plant("c25-input-writes", "C25",
      [(CPL, "    /// buffer write requests\n", "    /// write requests in the order of their arrival\n    requests: Vec<Address>,\n    /// buffer write requests\n"),
       (CPL, "            write: HashMap::new(),\n", "            requests: vec![],\n            write: HashMap::new(),\n"),
       (CPL, "        self.write.insert(*addr, value);\n", "        if self.write.insert(*addr, value).is_none() {\n            self.requests.push(*addr);\n        }\n"),
       (CPL, "        self.in_values = in_values;\n        self.out_values = out_values;\n",
        "        self.requests.retain(|a| self.processors.contains_key(&a.module) || self.offsets[a.module].output.is_none());\n        self.in_values = in_values;\n        self.out_values = out_values;\n")],
      "outputs set on a serial module or on a module without outputs",
      "the list of the requests' order keeps the requests to such modules for ever",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut out = vec![0; 4];
    let mut start = 0;
    for k in 0..40000u32 {
        c.set_output(&Address { module: 0, channel: 0 }, ChannelValue::Bytes(vec![])).unwrap();
        let i = tel(8, st_in(false, 0, 0), &[]);
        out = c.next(&i, &out).unwrap();
        if k == 1000 {
            start = LIVE.load(Relaxed);
        }
    }
    assert!(LIVE.load(Relaxed) < start + 50000);
}""")

plant("c25-refused-list", "C25",
      [(CPL, "    /// buffer write requests\n", "    /// modules whose last request was refused\n    refused: Vec<usize>,\n    /// buffer write requests\n"),
       (CPL, "            write: HashMap::new(),\n", "            refused: vec![],\n            write: HashMap::new(),\n"),
       (CPL, """        for (m_nr, out_v) in out_values.iter().enumerate() {
            if self.processors.contains_key(&m_nr) {
                continue;
            }
""", """        for (m_nr, out_v) in out_values.iter().enumerate() {
            if self.processors.contains_key(&m_nr) {
                continue;
            }
            if out_v.iter().enumerate().any(|(i, _)| {
                matches!(self.write.get(&Address { module: m_nr, channel: i }), Some(ChannelValue::Bytes(_)))
            }) {
                self.refused.push(m_nr);
            }
""")],
      "byte strings written to modules that are not serial, again and again",
      "every refused write leaves an entry behind",
      r"""
fn main() {
    let mut c = coupler(&[(ModuleType::UR20_4DO_P, vec![0; 4], 0, 1)]);
    let mut start = 0;
    for k in 0..40000u32 {
        c.set_output(&Address { module: 0, channel: 0 }, ChannelValue::Bytes(vec![])).unwrap();
        assert!(c.next(&[], &[0]).is_err());
        if k == 1000 {
            start = LIVE.load(Relaxed);
        }
    }
    assert!(LIVE.load(Relaxed) < start + 50000);
}""")

plant("c25-flush", "C25",
      [(COM, "    out_data: Vec<Vec<u8>>,\n", "    out_data: Vec<Vec<u8>>,\n    /// queue lengths at which the application flushed\n    flushed: Vec<usize>,\n"),
       (COM, "            out_data: vec![],\n", "            out_data: vec![],\n            flushed: vec![],\n"),
       (COM, """    fn flush(&mut self) -> io::Result<()> {
""", """    fn flush(&mut self) -> io::Result<()> {
        self.flushed.push(self.out_data.len());
""")],
      "an application that flushes its writer",
      "every flush leaves an entry behind",
      r"""
fn main() {
    let mut c = coupler(&[com(8)]);
    let mut start = 0;
    for k in 0..40000u32 {
        c.writer(0).unwrap().flush().unwrap();
        if k == 1000 {
            start = LIVE.load(Relaxed);
        }
    }
    assert!(LIVE.load(Relaxed) < start + 50000);
}""")

plant("c25-leaked-params", "C25",
      [(CPL, """        let mut modules = vec![];
""", """        // the configuration lives as long as the process
        let cfg: &'static CouplerConfig = Box::leak(Box::new(cfg.clone()));
        let mut modules = vec![];
""")],
      "couplers that are built again and again (after every loss of the connection, say)",
      "every coupler leaves its configuration behind",
      r"""
fn main() {
    let start = LIVE.load(Relaxed);
    for _ in 0..10000 {
        drop(coupler(&[com(8)]));
    }
    assert!(LIVE.load(Relaxed) < start + 50000);
}""")
