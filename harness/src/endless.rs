//! Couplers that run for a very long time: what they keep must be bounded by
//! the data in them.  The harness keeps nothing itself while it measures.
use crate::modules::*;
use crate::rng::Rng;
use crate::session::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
use ur20::{ur20_fbc_mod_tcp::Coupler, *};

/// Bytes allocated and not yet released.
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            LIVE.fetch_add(l.size() as isize, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc_zeroed(l) };
        if !p.is_null() {
            LIVE.fetch_add(l.size() as isize, Relaxed);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = unsafe { System.realloc(p, l, n) };
        if !q.is_null() {
            LIVE.fetch_add(n as isize - l.size() as isize, Relaxed);
        }
        q
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
fn live() -> isize {
    LIVE.load(Relaxed)
}

/// A serial module that does its part at some pace.
#[derive(Clone, Copy)]
struct Dev {
    m: usize,
    len: usize,
    ack: u8,
    rx: u8,
    av: bool,
    n: u8,
    /// bytes written, taken over, presented and read; the k-th is byte_at(k)
    written: usize,
    taken: usize,
    received: usize,
    read: usize,
    /// bytes that were not what they should be
    wrong_tx: usize,
    wrong_rx: usize,
    segments: usize,
    telegrams: usize,
}

fn byte_at(k: usize) -> u8 {
    (k ^ (k >> 8) ^ (k >> 16)) as u8
}

#[derive(Clone, Copy, Default)]
struct Mark {
    cycles: usize,
    refused: usize,
    written: usize,
    taken: usize,
    received: usize,
    read: usize,
    wrong_tx: usize,
    wrong_rx: usize,
    segments: usize,
    telegrams: usize,
    live: isize,
}
impl Mark {
    fn of(devs: &[Dev]) -> Self {
        let sum = |f: fn(&Dev) -> usize| devs.iter().map(f).sum();
        Mark {
            written: sum(|d| d.written),
            taken: sum(|d| d.taken),
            received: sum(|d| d.received),
            read: sum(|d| d.read),
            wrong_tx: sum(|d| d.wrong_tx),
            wrong_rx: sum(|d| d.wrong_rx),
            segments: sum(|d| d.segments),
            telegrams: sum(|d| d.telegrams),
            ..Mark::default()
        }
    }
    fn line(&self, e: &str) -> String {
        format!(
            r#"{{"e":"{e}","cycles":{},"refused":{},"written":{},"taken":{},"received":{},"read":{},"wtx":{},"wrx":{},"segs":{},"tels":{},"live":{}}}"#,
            self.cycles,
            self.refused,
            self.written,
            self.taken,
            self.received,
            self.read,
            self.wrong_tx,
            self.wrong_rx,
            self.segments,
            self.telegrams,
            self.live
        )
    }
}

pub struct Endless {
    pub sessions: usize,
    pub cycles: usize,
    pub mods: usize,
    /// bytes of backlog that may build up
    pub backlog: usize,
    /// the serial data are the subject
    pub stream: bool,
}

pub fn endless(o: &Endless, r: &mut Rng, log: &mut Log) {
    for k in 0..o.sessions {
        session(o, k, r, log);
    }
    if !o.stream {
        churn(o, r, log);
    }
}

const MARKS: usize = 100;

fn session(o: &Endless, k: usize, r: &mut Rng, log: &mut Log) {
    let pool = supported();
    let mut mods: Vec<ModuleType> = (0..r.n(o.mods)).map(|_| r.pick(&pool).clone()).collect();
    if o.stream || k % 4 != 3 {
        let at = r.n(mods.len() + 1);
        mods.insert(at, ModuleType::UR20_1COM_232_485_422);
    } else {
        mods.push(ModuleType::UR20_16DO_P);
    }
    let par: Vec<_> = mods.iter().map(|t| valid_block(t, r)).collect();
    let cfg = place(mods, par, 30, r);
    let mut devs: Vec<Dev> = (0..cfg.mods.len())
        .filter(|i| cfg.is_com(*i))
        .map(|m| Dev {
            m,
            len: cfg.nout(m),
            ack: 0,
            rx: 0,
            av: false,
            n: 0,
            written: 0,
            taken: 0,
            received: 0,
            read: 0,
            wrong_tx: 0,
            wrong_rx: 0,
            segments: 0,
            telegrams: 0,
        })
        .collect();
    let outs: Vec<usize> = (0..cfg.mods.len()).filter(|i| !cfg.is_com(*i) && cfg.nout(*i) > 0).collect();
    let rate = |r: &mut Rng| if o.stream { *r.pick(&[5, 60, 90, 100]) } else { *r.pick(&[0, 5, 30, 90]) };
    let (write, set, bad, wrong, get, present, seldom) =
        (rate(r), rate(r), *r.pick(&[0, 0, 10, 50]), *r.pick(&[0, 0, 10, 50]), *r.pick(&[20, 60, 100]), rate(r), r.p(50));
    // the application is never quite done: always something to send, to read
    let (busy, behind) = (r.p(40), r.p(40));
    let (flush, lazy_pace) = (rate(r), *r.pick(&[2, 40, 90, 90]));
    let mut input = vec![0u16; cfg.in_words];
    let mut img = vec![0u16; cfg.out_words];
    let mut buf = vec![0u8; 20_000];
    let mut marks = [Mark::default(); MARKS];
    let (mut refused, mut accepted) = (0, 0);
    let before = live();
    let Ok(mut c) = Coupler::new(&cfg.coupler_cfg()) else { return };
    let mut drain = vec![false; devs.len()];
    let mut free = vec![true; devs.len()];
    for round in 0..o.cycles {
        // application
        for (k, (d, dr)) in devs.iter_mut().zip(drain.iter_mut()).enumerate() {
            let owed = d.written - d.taken.min(d.written);
            if owed > o.backlog {
                *dr = true; // until everything is gone
            } else if owed == 0 || (busy && owed < 20) {
                *dr = false;
            }
            let hungry = busy && !*dr && owed < 30;
            if hungry || (!*dr && r.p(write)) {
                let n = match r.n(10) {
                    0 if o.backlog > 1000 => r.n(o.backlog),
                    1 => 0,
                    2 => d.len - 2,
                    _ => r.r(1, 40),
                };
                for (j, b) in buf[..n].iter_mut().enumerate() {
                    *b = byte_at(d.written + j);
                }
                if !o.stream && r.p(20) {
                    let v = ChannelValue::Bytes(buf[..n].to_vec());
                    // (a second one before the next accepted cycle would replace it)
                    if free[k] && c.set_output(&Address { module: d.m, channel: 0 }, v).is_ok() {
                        free[k] = false;
                        d.written += n;
                    }
                } else if let Some(w) = c.writer(d.m)
                    && w.write_all(&buf[..n]).is_ok()
                {
                    d.written += n;
                }
            }
            if r.p(flush)
                && let Some(w) = c.writer(d.m)
            {
                let _ = w.flush();
            }
            let unread = d.received - d.read.min(d.received);
            let stuck = unread > o.backlog;
            if if seldom { stuck } else { stuck || r.p(get) } {
                let n = match unread {
                    k if behind => k.saturating_sub(r.r(1, 20)),
                    _ if stuck => buf.len(),
                    _ => *r.pick(&[0, 1, 5, 100, 1000]),
                };
                if let Some(rd) = c.reader(d.m)
                    && let Ok(n) = rd.read(&mut buf[..n])
                {
                    d.wrong_rx += buf[..n].iter().enumerate().filter(|(j, b)| **b != byte_at(d.read + j)).count();
                    d.read += n;
                }
            }
        }
        if !outs.is_empty() && r.p(set) {
            for _ in 0..r.n(4) {
                let m = *r.pick(&outs);
                let ch = r.n(cfg.mods[m].channel_count());
                let v = good_value(&cfg, m, r);
                let _ = c.set_output(&Address { module: m, channel: ch }, v);
            }
        }
        if r.p(wrong) {
            let m = r.n(cfg.mods.len() + 3);
            let v = any_value(r);
            if m >= cfg.mods.len() {
                let _ = c.set_output(&Address { module: m, channel: 0 }, v);
            } else {
                let _ = c.set_output(&Address { module: m, channel: 99 + round }, v);
                if !cfg.is_com(m) {
                    let _ = c.reader(m).is_some();
                    let _ = c.writer(m).is_some();
                    let v = any_value(r);
                    let ch = r.n(cfg.mods[m].channel_count().max(1));
                    let _ = c.set_output(&Address { module: m, channel: ch }, v);
                }
            }
        }
        // modules
        if round % 7 == 0 {
            input.iter_mut().for_each(|w| *w = r.word());
        }
        for d in devs.iter_mut() {
            step(d, &img, &mut input, &cfg, accepted, lazy_pace, present, r);
        }
        // cycle
        if round % 64 == 0 {
            crate::clock::pass();
        }
        let res = if r.p(bad) {
            match r.n(3) {
                0 => c.next(&input[..input.len() / 2], &img),
                1 => c.next(&input, &img[..img.len() / 2]),
                _ => {
                    if let Some(m) = outs.first() {
                        let _ = c.set_output(&Address { module: *m, channel: 0 }, ChannelValue::Bytes(vec![1, 2, 3]));
                    }
                    c.next(&input, &img)
                }
            }
        } else {
            c.next(&input, &img)
        };
        match res {
            Ok(v) if v.len() >= img.len() => {
                let n = img.len();
                img.copy_from_slice(&v[..n]);
                free.fill(true);
                accepted += 1;
            }
            _ => refused += 1,
        }
        let _ = (c.inputs().len(), c.outputs().len());
        if (round + 1) % (o.cycles / MARKS) == 0 {
            let now = Mark { cycles: round + 1, refused, live: live() - before, ..Mark::of(&devs) };
            marks[((round + 1) / (o.cycles / MARKS) - 1).min(MARKS - 1)] = now;
        }
    }
    // everything that is still in it comes out
    for _ in 0..20 * o.backlog + 1000 {
        for d in devs.iter_mut() {
            step(d, &img, &mut input, &cfg, accepted, 100, 0, r);
            if let Some(rd) = c.reader(d.m)
                && let Ok(n) = rd.read(&mut buf)
            {
                d.wrong_rx += buf[..n].iter().enumerate().filter(|(j, b)| **b != byte_at(d.read + j)).count();
                d.read += n;
            }
        }
        if let Ok(v) = c.next(&input, &img)
            && v.len() >= img.len()
        {
            let n = img.len();
            img.copy_from_slice(&v[..n]);
            accepted += 1;
        }
    }
    let end = Mark { cycles: o.cycles, refused, live: live() - before, ..Mark::of(&devs) };
    drop(c);
    let left = live() - before;
    log.line(&format!(r#"{{"e":"run","mods":{},"n":{}}}"#, names(&cfg.mods), o.backlog));
    for m in marks {
        log.line(&m.line("at"));
    }
    log.line(&end.line("drained"));
    log.line(&format!(r#"{{"e":"end","live":{left}}}"#));
}

/// What a serial module does between two cycles.
#[allow(clippy::too_many_arguments)]
fn step(d: &mut Dev, img: &[u16], input: &mut [u16], cfg: &Cfg, accepted: usize, pace: usize, present: usize, r: &mut Rng) {
    let at = cfg.ob(d.m);
    let b = |k: usize| (img[(at + k) / 2] >> (8 * ((at + k) % 2))) as u8;
    let (st, n) = (b(0), (b(1) as usize).min(d.len - 2));
    let (tx, ra) = ((st >> 3) & 3, (st >> 5) & 3);
    if tx == (d.ack + 1) % 4 && r.p(pace) {
        d.ack = tx;
        d.wrong_tx += (0..n).filter(|k| b(2 + k) != byte_at(d.taken + k)).count();
        d.taken += n;
        d.segments += 1;
    }
    if ra == d.rx && accepted > 4 && r.p(present) {
        d.av = true;
        d.rx = (d.rx + 1) % 4;
        d.n = r.n(d.len - 1) as u8;
        d.received += d.n as usize;
        d.telegrams += 1;
    }
    let mut t = [0u8; 16];
    t[0] = u8::from(d.av) | (d.rx << 3) | (d.ack << 5) | 0x80;
    t[1] = d.n;
    for k in 0..d.n as usize {
        t[2 + k] = byte_at(d.received - d.n as usize + k);
    }
    put(input, cfg.ib(d.m), &t[..d.len]);
}

/// Couplers made, used and dropped, and some that cannot be made.
fn churn(o: &Endless, r: &mut Rng, log: &mut Log) {
    let pool = supported();
    let mut cfg = random_cfg(o.mods, &pool, 30, r).coupler_cfg();
    // the last module is the one that cannot be built
    cfg.modules.push(ModuleType::UR20_4DO_P);
    cfg.params.push(vec![0; 4]);
    cfg.offsets.extend([0x8000 + 8 * 400, 0xFFFF]);
    let wrong: Vec<_> = (0..5)
        .map(|k| {
            let mut w = cfg.clone();
            match k {
                0 => w.params.push(vec![]),
                1 => w.params.last_mut().unwrap().clear(),
                2 => w.params.last_mut().unwrap()[3] = 999,
                3 => drop(w.offsets.pop()),
                _ => drop(w.modules.pop()),
            }
            w
        })
        .collect();
    let input = vec![0u16; 2000];
    let mut marks = [0isize; 20];
    let before = live();
    for m in marks.iter_mut() {
        for _ in 0..500 {
            if let Ok(mut c) = Coupler::new(&cfg) {
                let _ = c.set_output(&Address { module: 0, channel: 0 }, ChannelValue::Bit(true));
                let _ = c.next(&input, &input);
            }
            for w in &wrong {
                let _ = Coupler::new(w).is_err();
            }
        }
        *m = live() - before;
    }
    log.line(r#"{"e":"churn"}"#);
    for m in marks {
        log.line(&format!(r#"{{"e":"made","live":{m}}}"#));
    }
}
