//! Random coupler sessions, recorded as one JSON event per line.
use crate::modules::*;
use crate::rng::Rng;
use crate::val::*;
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::Duration;
use ur20::ur20_1com_232_485_422::{ProcessInput as RsIn, ProcessOutput as RsOut};
use ur20::ur20_2fcnt_100::{Command, ProcessInput as FcntIn, ProcessOutput as FcntOut};
use ur20::ur20_fbc_mod_tcp::*;
use ur20::*;

pub const NO: u16 = 0xFFFF;

#[derive(Clone)]
pub struct Cfg {
    pub mods: Vec<ModuleType>,
    pub offs: Vec<u16>,
    pub par: Vec<Vec<u16>>,
    /// size of the images in words
    pub in_words: usize,
    pub out_words: usize,
}

impl Cfg {
    pub fn coupler_cfg(&self) -> CouplerConfig {
        CouplerConfig {
            modules: self.mods.clone(),
            offsets: self.offs.clone(),
            params: self.par.clone(),
        }
    }
    pub fn nin(&self, i: usize) -> usize {
        in_bytes(&self.mods[i], &self.par[i])
    }
    pub fn nout(&self, i: usize) -> usize {
        out_bytes(&self.mods[i], &self.par[i])
    }
    /// byte offsets in the images
    pub fn ib(&self, i: usize) -> usize {
        self.offs[2 * i + 1] as usize / 8
    }
    pub fn ob(&self, i: usize) -> usize {
        self.offs[2 * i] as usize / 8 - 0x1000
    }
    pub fn is_com(&self, i: usize) -> bool {
        self.mods[i] == ModuleType::UR20_1COM_232_485_422
    }
}

/// Packs the modules one after the other; `align` percent of the modules that
/// would start at an odd byte start at the next register instead.
pub fn place(mods: Vec<ModuleType>, par: Vec<Vec<u16>>, align: usize, r: &mut Rng) -> Cfg {
    let mut c = Cfg { mods, offs: vec![], par, in_words: 0, out_words: 0 };
    let (mut ip, mut op) = (0usize, 0usize);
    for i in 0..c.mods.len() {
        let (ni, no) = (c.nin(i), c.nout(i));
        if no > 0 {
            if op % 2 == 1 && r.p(align) {
                op += 1;
            }
            c.offs.push((0x8000 + op * 8) as u16);
            op += no;
        } else {
            c.offs.push(NO);
        }
        if ni > 0 {
            if ip % 2 == 1 && r.p(align) {
                ip += 1;
            }
            c.offs.push((ip * 8) as u16);
            ip += ni;
        } else {
            c.offs.push(NO);
        }
    }
    if r.p(20) {
        // inputs may stand anywhere
        let mut left: Vec<usize> = (0..c.mods.len()).filter(|i| c.nin(*i) > 0).collect();
        ip = 0;
        while !left.is_empty() {
            let k = r.n(left.len());
            let i = left.swap_remove(k);
            ip += *r.pick(&[0, 0, 0, 0, 1, 2, 3, 7]);
            c.offs[2 * i + 1] = (ip * 8) as u16;
            ip += c.nin(i);
        }
    }
    c.in_words = ip.div_ceil(2);
    c.out_words = op.div_ceil(2);
    c
}

pub fn random_cfg(n: usize, pool: &[ModuleType], align: usize, r: &mut Rng) -> Cfg {
    let mods: Vec<_> = (0..n).map(|_| r.pick(pool).clone()).collect();
    let par: Vec<_> = mods.iter().map(|t| valid_block(t, r)).collect();
    place(mods, par, align, r)
}

/// Some blocks are valid although they are longer than needed.
pub fn lengthen(c: &mut Cfg, r: &mut Rng) {
    for (t, b) in c.mods.iter().zip(c.par.iter_mut()) {
        if !kinds(t).is_empty() && r.p(15) {
            let more = match r.n(4) {
                0 => 256usize.saturating_sub(b.len()),
                1 => r.r(1, 300),
                _ => r.r(1, 9),
            };
            for _ in 0..more {
                b.push(r.word());
            }
        }
    }
}

pub fn put(img: &mut [u16], byte: usize, bs: &[u8]) {
    for (k, b) in bs.iter().enumerate() {
        let (w, hi) = ((byte + k) / 2, (byte + k) % 2 == 1);
        if hi {
            img[w] = (img[w] & 0x00FF) | (u16::from(*b) << 8);
        } else {
            img[w] = (img[w] & 0xFF00) | u16::from(*b);
        }
    }
}
pub fn get(img: &[u16], byte: usize, n: usize) -> Vec<u8> {
    (byte..byte + n)
        .map(|k| {
            let w = img.get(k / 2).copied().unwrap_or(0xDEAD);
            if k % 2 == 1 { (w >> 8) as u8 } else { w as u8 }
        })
        .collect()
}

/// A well-formed telegram of n bytes.
pub fn telegram(n: usize, r: &mut Rng) -> Vec<u8> {
    let len = match r.n(4) {
        0 => 0,
        1 => n - 2,
        _ => r.n(n - 1),
    };
    let mut b = vec![r.byte(), len as u8];
    b.extend(r.bytes(n - 2));
    b
}

pub fn random_in(c: &Cfg, r: &mut Rng) -> Vec<u16> {
    let extra = if r.p(30) { r.r(1, 3) } else { 0 };
    let mut img: Vec<u16> = (0..c.in_words + extra).map(|_| r.word()).collect();
    for i in 0..c.mods.len() {
        if c.is_com(i) {
            put(&mut img, c.ib(i), &telegram(c.nin(i), r));
        }
    }
    img
}
pub fn random_out(c: &Cfg, r: &mut Rng) -> Vec<u16> {
    let extra = if r.p(30) { r.r(1, 3) } else { 0 };
    let mut img: Vec<u16> = (0..c.out_words + extra).map(|_| r.word()).collect();
    for i in 0..c.mods.len() {
        if c.is_com(i) {
            put(&mut img, c.ob(i), &telegram(c.nout(i), r));
        } else if c.mods[i] == ModuleType::UR20_2FCNT_100 {
            for k in 0..2 {
                let hi = (r.word() & 0x7F).to_le_bytes();
                put(&mut img, c.ob(i) + 4 * k, &hi);
            }
        }
    }
    img
}

/// Durations around every power of two that arithmetic may be limited to, in
/// every unit it may be done in, and around the largest preset.
pub fn edge_durations() -> Vec<Duration> {
    const LIMIT: u128 = 8_388_607_000;
    let mut ns: Vec<u128> = vec![0, 1, 999, 1000, 1001];
    for unit in [1u128, 125, 1_000, 1_000_000, 1_000_000_000, 60_000_000_000] {
        for width in [4, 7, 8, 12, 15, 16, 20, 22, 23, 24, 26, 31, 32, 40, 53, 63, 64] {
            for k in [1, 2, 3] {
                let x = (k * unit) << width;
                ns.extend([x - unit, x, x + unit, x + 5_000, x + LIMIT, x + LIMIT + 1000, x + LIMIT / 3]);
            }
        }
    }
    for d in [0u128, 1, 125, 999, 1000, 1_000_000, 500_000_000] {
        ns.extend([LIMIT - d, LIMIT + d]);
    }
    ns.sort_unstable();
    ns.dedup();
    ns.into_iter()
        .map(|x| match u64::try_from(x / 1_000_000_000) {
            Ok(s) => Duration::new(s, (x % 1_000_000_000) as u32),
            Err(_) => Duration::MAX,
        })
        .collect()
}

fn random_preset(r: &mut Rng) -> FcntOut {
    let duration = match r.n(6) {
        0 => Duration::from_micros(8_388_607),
        1 => Duration::from_micros(r.n(8_388_608) as u64),
        2 => Duration::from_nanos(r.n(8_388_607_000) as u64),
        3 => Duration::from_micros(0),
        4 => Duration::from_micros(1 << r.n(23)),
        _ => Duration::from_micros(r.n(70_000) as u64),
    };
    let command = match r.n(3) {
        0 => Some(Command::Start),
        1 => Some(Command::Stop),
        _ => None,
    };
    FcntOut { duration, command }
}
pub fn random_dec(r: &mut Rng) -> f32 {
    match r.n(12) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 4.0, 5.0, 10.0, 20.0, 2.0, -5.0, -10.0]),
        1 => *r.pick(&[f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, 1e9, -1e9, 1e-30]),
        2 => (r.n(200_000) as f32 - 100_000.0) / 1000.0,
        3 => r.n(21) as f32,
        _ => (r.n(48_000_000) as f32 - 24_000_000.0) / 1e6,
    }
}
/// A value the channel accepts (for input modules: any value).
pub fn good_value(c: &Cfg, m: usize, r: &mut Rng) -> ChannelValue {
    use ModuleType::*;
    match c.mods[m] {
        UR20_4DO_P | UR20_4DO_P_2A | UR20_8DO_P | UR20_16DO_P | UR20_4RO_CO_255 => {
            if r.p(10) { ChannelValue::Disabled } else { ChannelValue::Bit(r.p(50)) }
        }
        UR20_4AO_UI_16 | UR20_4AO_UI_16_DIAG => {
            if r.p(10) { ChannelValue::Disabled } else { ChannelValue::Decimal32(random_dec(r)) }
        }
        UR20_2FCNT_100 => {
            if r.p(10) { ChannelValue::Disabled } else { ChannelValue::FcntOut(random_preset(r)) }
        }
        UR20_1COM_232_485_422 => {
            let n = match r.n(4) {
                0 => 0,
                1 => r.r(1, 6),
                2 => r.r(1, 14),
                _ => r.r(1, 40),
            };
            ChannelValue::Bytes(r.bytes(n))
        }
        _ => any_value(r),
    }
}
pub fn any_value(r: &mut Rng) -> ChannelValue {
    match r.n(10) {
        0 => ChannelValue::Bit(r.p(50)),
        1 => ChannelValue::Decimal32(random_dec(r)),
        2 => {
            let n = r.n(20);
            ChannelValue::Bytes(r.bytes(n))
        }
        3 => ChannelValue::Disabled,
        4 => ChannelValue::None,
        5 => ChannelValue::FcntOut(random_preset(r)),
        6 => {
            // presets above the limit: just above, far above, beyond 32 bit
            let t = match r.n(10) {
                8 | 9 => *r.pick(&edge_durations()),
                0 => Duration::from_micros(8_388_608 + r.n(3) as u64),
                1 => Duration::from_nanos(8_388_607_000 + r.r(1, 1000) as u64),
                2 => Duration::from_micros(r.r(1, 40) as u64 * 8_388_608),
                3 => Duration::from_micros((r.r(1, 9) as u64) << 32) + Duration::from_micros(r.n(9_000_000) as u64),
                4 => Duration::from_secs((1 << r.n(40)) + 8),
                5 => *r.pick(&[Duration::MAX, Duration::from_secs(4294), Duration::from_secs(4295), Duration::from_secs(1 << 32)]),
                _ => Duration::from_micros(8_388_608 + r.n(100_000_000_000) as u64),
            };
            ChannelValue::FcntOut(FcntOut { duration: t, command: None })
        }
        7 => ChannelValue::ComRsIn(RsIn { rx_cnt: r.n(4), ..Default::default() }),
        8 => {
            let n = r.n(20);
            ChannelValue::ComRsOut(RsOut { tx_cnt: r.n(6), data: r.bytes(n), ..Default::default() })
        }
        _ => ChannelValue::FcntIn(FcntIn { duration: None, count: 0, active: false }),
    }
}

pub struct Log {
    pub s: String,
    pub lines: usize,
}
impl Log {
    pub fn new() -> Self {
        Log { s: String::new(), lines: 0 }
    }
    pub fn line(&mut self, l: &str) {
        self.s.push_str(l);
        self.s.push('\n');
        self.lines += 1;
    }
}

pub fn names(m: &[ModuleType]) -> String {
    format!("[{}]", m.iter().map(|t| format!("\"{t:?}\"")).collect::<Vec<_>>().join(","))
}

pub enum Out {
    Ok(Vec<u16>),
    Err(String),
    Panic,
}
impl Out {
    pub fn tag(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "err",
            Out::Panic => "panic",
        }
    }
}

/// Couplers are kept after an error; after a panic they are not used again.
pub fn cycle(c: &mut Coupler, i: &[u16], o: &[u16]) -> Out {
    crate::clock::pass();
    match catch_unwind(AssertUnwindSafe(|| c.next(i, o))) {
        Err(_) => Out::Panic,
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(format!("{e:?}")),
    }
}

pub fn new_coupler(cfg: &CouplerConfig) -> (Option<Coupler>, String) {
    match catch_unwind(AssertUnwindSafe(|| Coupler::new(cfg))) {
        Err(_) => (None, "panic".into()),
        Ok(Ok(c)) => (Some(c), "ok".into()),
        Ok(Err(e)) => (None, format!("{e:?}")),
    }
}

pub fn new_event(cfg: &CouplerConfig, log: &mut Log, extra: &str) -> Option<Coupler> {
    let (mut c, res) = new_coupler(cfg);
    let mut rd = vec![];
    let mut wr = vec![];
    if let Some(c) = c.as_mut() {
        for i in 0..cfg.modules.len() + 2 {
            rd.push(c.reader(i).is_some());
            wr.push(c.writer(i).is_some());
        }
    }
    let par: Vec<_> = cfg.params.iter().map(|p| ints(p)).collect();
    log.line(&format!(
        r#"{{"e":"new","mods":{},"offs":{},"par":[{}],"r":"{}","rd":{:?},"wr":{:?}{}}}"#,
        names(&cfg.modules),
        ints(&cfg.offsets),
        par.join(","),
        res,
        rd,
        wr,
        extra
    ));
    c
}

pub fn set_event(c: &mut Coupler, m: usize, ch: usize, v: ChannelValue, log: &mut Log, extra: &str) -> bool {
    let t = js(&v);
    let r = catch_unwind(AssertUnwindSafe(|| c.set_output(&Address { module: m, channel: ch }, v)));
    let (tag, kind) = match &r {
        Err(_) => ("panic", String::new()),
        Ok(Ok(())) => ("ok", String::new()),
        Ok(Err(e)) => ("err", format!("{e:?}").replace('"', "'")),
    };
    log.line(&format!(r#"{{"e":"set","m":{m},"c":{ch},"v":{t},"r":"{tag}","k":"{kind}"{extra}}}"#));
    tag == "ok"
}

/// Hands the bytes to a writer in one of the ways an application may choose
/// (by their number), with or without flushing it.
pub fn write_some(w: &mut dyn Write, bs: &[u8]) -> std::io::Result<()> {
    if bs.len() % 3 == 1 {
        w.flush()?;
    }
    if bs.len() % 5 == 4 {
        w.write_fmt(format_args!(""))?;
        let (a, b) = bs.split_at(bs.len() / 2);
        let n = w.write_vectored(&[std::io::IoSlice::new(a), std::io::IoSlice::new(b)])?;
        w.write_all(&bs[n..])?;
    } else {
        w.write_all(bs)?;
    }
    if bs.len() % 6 == 0 {
        // nothing to write
        let _ = w.write(&[])?;
    }
    if bs.len() % 3 != 2 {
        w.flush()?;
    }
    Ok(())
}

/// Reads at most k bytes in one of the ways an application may choose (by k).
pub fn get_some(rd: &mut dyn Read, buf: &mut [u8]) -> std::io::Result<usize> {
    let k = buf.len();
    match k % 4 {
        3 => {
            let mut v = vec![];
            let n = rd.take(k as u64).read_to_end(&mut v)?;
            buf[..n].copy_from_slice(&v);
            Ok(n)
        }
        2 => {
            let (a, b) = buf.split_at_mut(k / 2);
            let n = rd.read(a)?;
            Ok(if n < a.len() { n } else { n + rd.read(b)? })
        }
        _ => rd.read(buf),
    }
}

pub fn write_event(c: &mut Coupler, m: usize, bs: &[u8], log: &mut Log) {
    crate::clock::pass();
    let r = catch_unwind(AssertUnwindSafe(|| match c.writer(m) {
        None => "none".to_string(),
        Some(w) => match write_some(w, bs) {
            Ok(()) => "ok".to_string(),
            Err(_) => "err".to_string(),
        },
    }))
    .unwrap_or("panic".into());
    log.line(&format!(r#"{{"e":"wr","m":{m},"y":{},"r":"{r}"}}"#, ints(bs)));
}

pub fn read_bytes(c: &mut Coupler, m: usize, k: usize) -> Option<(Vec<u8>, String)> {
    c.reader(m).map(|rd| {
        let mut buf = vec![0xA5u8; k];
        match catch_unwind(AssertUnwindSafe(|| get_some(rd, &mut buf))) {
            Err(_) => (vec![], "panic".into()),
            Ok(Err(_)) => (vec![], "err".into()),
            Ok(Ok(n)) => {
                if n > k {
                    return (vec![], "len".into());
                }
                // nothing behind the returned length may be touched
                let clean = buf[n..].iter().all(|b| *b == 0xA5);
                (buf[..n].to_vec(), if clean { "ok".into() } else { "dirty".into() })
            }
        }
    })
}
pub fn read_event(c: &mut Coupler, m: usize, k: usize, log: &mut Log) {
    if let Some((y, r)) = read_bytes(c, m, k) {
        log.line(&format!(r#"{{"e":"rd","m":{m},"k":{k},"y":{},"r":"{r}"}}"#, ints(&y)));
    }
}

pub fn values_of(c: &Coupler) -> (String, String) {
    (jvv(c.inputs()), jvv(c.outputs()))
}

pub fn cycle_event(c: &mut Coupler, i: &[u16], o: &[u16], log: &mut Log, extra: &str) -> Out {
    let r = cycle(c, i, o);
    log_cycle(c, i, o, &r, log, extra);
    r
}

fn log_cycle(c: &Coupler, i: &[u16], o: &[u16], r: &Out, log: &mut Log, extra: &str) {
    let (iv, ov) = if matches!(r, Out::Panic) { ("[]".into(), "[]".into()) } else { values_of(c) };
    let (img, kind) = match r {
        Out::Ok(v) => (ints(v), String::new()),
        Out::Err(e) => ("[]".into(), e.clone()),
        Out::Panic => ("[]".into(), String::new()),
    };
    let mut l = String::new();
    write!(
        l,
        r#"{{"e":"cy","in":{},"out":{},"r":"{}","k":"{}","o":{},"iv":{},"ov":{}{}}}"#,
        ints(i),
        ints(o),
        r.tag(),
        kind.replace('"', "'"),
        img,
        iv,
        ov,
        extra
    )
    .unwrap();
    log.line(&l);
}

/// An image that differs little from the last one.
pub fn vary(c: &Cfg, img: &mut [u16], is_in: bool, r: &mut Rng) {
    for i in 0..c.mods.len() {
        let n = if is_in { c.nin(i) } else { c.nout(i) };
        if n == 0 || !r.p(50) {
            continue;
        }
        let at = if is_in { c.ib(i) } else { c.ob(i) };
        if at + n > 2 * img.len() {
            continue;
        }
        let mut b = get(img, at, n);
        if c.is_com(i) {
            match r.n(6) {
                // the same data under another counter
                0 | 1 => b[0] = (b[0] & !0x18) | ((r.byte() & 3) << 3),
                2 => b[0] = (b[0] & !0x60) | ((r.byte() & 3) << 5),
                3 => b[0] ^= 1 << r.n(8),
                4 => b[1] = r.n(n - 1) as u8,
                _ => b[2 + r.n(n - 2)] = r.byte(),
            }
        } else if c.mods[i] != ModuleType::UR20_2FCNT_100 {
            b[r.n(n)] ^= 1 << r.n(8);
        } else if is_in {
            b[r.n(n)] = r.byte();
        }
        put(img, at, &b);
    }
}

/// Performs the steps of a session and records them.
pub trait Runner: Sized {
    fn start(cfg: &Cfg, log: &mut Log) -> Option<Self>;
    fn set(&mut self, m: usize, ch: usize, v: ChannelValue, log: &mut Log);
    fn wr(&mut self, m: usize, bs: &[u8], log: &mut Log);
    fn rd(&mut self, m: usize, k: usize, log: &mut Log);
    fn cy(&mut self, i: &[u16], o: &[u16], log: &mut Log) -> Out;
}

/// Just the coupler.
pub struct Plain(Coupler);

impl Runner for Plain {
    fn start(cfg: &Cfg, log: &mut Log) -> Option<Self> {
        new_event(&cfg.coupler_cfg(), log, "").map(Plain)
    }
    fn set(&mut self, m: usize, ch: usize, v: ChannelValue, log: &mut Log) {
        set_event(&mut self.0, m, ch, v, log, "");
    }
    fn wr(&mut self, m: usize, bs: &[u8], log: &mut Log) {
        write_event(&mut self.0, m, bs, log);
    }
    fn rd(&mut self, m: usize, k: usize, log: &mut Log) {
        read_event(&mut self.0, m, k, log);
    }
    fn cy(&mut self, i: &[u16], o: &[u16], log: &mut Log) -> Out {
        cycle_event(&mut self.0, i, o, log, "")
    }
}

/// Replays behaviours of spec/GenCoupler.tla: one JSON array per line.
pub fn replay<R: Runner>(text: &str, log: &mut Log) {
    for line in text.lines() {
        let v: serde_json::Value = serde_json::from_str(line).expect("behaviour");
        behaviour::<R>(v.as_array().expect("array"), log);
    }
}

fn behaviour<R: Runner>(steps: &[serde_json::Value], log: &mut Log) {
    use serde_json::Value;
    let word = |v: &Value| v.as_u64().expect("number") as u16;
    let words = |v: &Value| -> Vec<u16> { v.as_array().expect("array").iter().map(word).collect() };
    let bytes = |v: &Value| -> Vec<u8> { words(v).iter().map(|w| *w as u8).collect() };
    let num = |v: &Value, k: &str| v[k].as_u64().expect("number") as usize;
    let first = &steps[0];
    let mut cfg = Cfg {
        mods: first["mods"]
            .as_array()
            .expect("array")
            .iter()
            .map(|t| {
                let name = t.as_str().expect("name");
                supported().into_iter().find(|s| format!("{s:?}") == name).expect("type")
            })
            .collect(),
        offs: words(&first["offs"]),
        par: first["par"].as_array().expect("array").iter().map(words).collect(),
        in_words: 0,
        out_words: 0,
    };
    if steps.len() == 1 {
        // only built
        R::start(&cfg, log);
        return;
    }
    let mut img = words(&first["img"]);
    cfg.out_words = img.len();
    cfg.in_words = (0..cfg.mods.len())
        .filter(|m| cfg.nin(*m) > 0 && cfg.offs[2 * m + 1] != NO)
        .map(|m| (cfg.ib(m) + cfg.nin(m)).div_ceil(2))
        .max()
        .unwrap_or(0);
    let Some(mut c) = R::start(&cfg, log) else { return };
    for s in &steps[1..] {
        match s["e"].as_str().expect("step") {
            "set" => c.set(num(s, "m"), num(s, "c"), parse(&s["v"]), log),
            "wr" => c.wr(num(s, "m"), &bytes(&s["y"]), log),
            "rd" => c.rd(num(s, "m"), num(s, "k"), log),
            _ => {
                let mut out = img.clone();
                if s["out"].is_array() {
                    out = words(&s["out"]);
                } else {
                    for p in s["patch"].as_array().expect("array") {
                        put(&mut out, p[0].as_u64().expect("number") as usize, &bytes(&p[1]));
                    }
                    out.truncate(num(s, "cut"));
                }
                match c.cy(&words(&s["in"]), &out, log) {
                    // (of another length: not an image of this coupler)
                    Out::Ok(v) if v.len() == cfg.out_words => img = v,
                    Out::Ok(_) | Out::Err(_) => {}
                    Out::Panic => break,
                }
            }
        }
    }
}

pub struct Opts {
    pub sessions: usize,
    pub events: usize,
    pub max_mods: usize,
    /// percent of cycles with a malformed image / writes with a wrong value
    pub bad_image: usize,
    pub bad_value: usize,
    /// percent of events that are writes
    pub writes: usize,
    /// percent of cycles that run on the image the last one returned
    pub feedback: usize,
    pub align: usize,
    pub no_com: bool,
    /// "all", "analog", "digital" or "com"
    pub sel: String,
    /// several writes before a cycle, addresses out of range, ...
    pub bad_addr: usize,
    /// percent of cycles before which many or all channels are written
    pub burst: usize,
    /// always max_mods modules
    pub exact: bool,
    /// sometimes so many cycles pass in which nothing happens
    pub age: usize,
}

/// Makes an image unacceptable.
pub fn spoil(c: &Cfg, img: &mut Vec<u16>, is_in: bool, r: &mut Rng) {
    let coms: Vec<_> = (0..c.mods.len()).filter(|i| c.is_com(*i)).collect();
    if !coms.is_empty() && r.p(60) {
        // a telegram that announces more bytes than there are
        let i = *r.pick(&coms);
        let n = if is_in { c.nin(i) } else { c.nout(i) };
        let at = 1 + if is_in { c.ib(i) } else { c.ob(i) };
        let v = if r.p(50) { n as u8 - 1 } else { r.r(n - 1, 255) as u8 };
        put(img, at, &[v]);
        return;
    }
    let need = if is_in { c.in_words } else { c.out_words };
    if need == 0 {
        return;
    }
    let keep = if r.p(50) { need - 1 } else { r.n(need) };
    img.truncate(keep);
}

/// Rejected because of a value: an illegal preset standing in the image.
pub fn spoil_preset(c: &Cfg, img: &mut [u16], r: &mut Rng) {
    for i in 0..c.mods.len() {
        if c.mods[i] == ModuleType::UR20_2FCNT_100 {
            let w = (r.word() | 0x80).to_le_bytes();
            put(img, c.ob(i) + 4 * r.n(2), &w);
            return;
        }
    }
}

pub fn mixed(o: &Opts, r: &mut Rng, log: &mut Log) {
    let mut pool = supported();
    if o.no_com {
        pool.retain(|t| *t != ModuleType::UR20_1COM_232_485_422);
    }
    pool.retain(|t| {
        let com = *t == ModuleType::UR20_1COM_232_485_422;
        match o.sel.as_str() {
            "com" => com,
            "analog" => !com && !crate::tables::is_digital(t),
            "digital" => crate::tables::is_digital(t),
            _ => true,
        }
    });
    for _ in 0..o.sessions {
        let n = match r.n(10) {
            _ if o.exact => o.max_mods,
            0 => r.r(0, 2),
            1 => r.r(1, o.max_mods),
            _ => r.r(1, o.max_mods.min(7)),
        };
        let outs: Vec<_> = pool.iter().filter(|t| out_bytes(t, &[1]) > 0).cloned().collect();
        let sub = if r.p(50) || outs.is_empty() { &pool } else { &outs };
        let mut cfg = random_cfg(n, sub, o.align, r);
        lengthen(&mut cfg, r);
        let Some(mut c) = new_event(&cfg.coupler_cfg(), log, "") else { continue };
        let mut last: Option<Vec<u16>> = None;
        let mut prev: Option<(Vec<u16>, Vec<u16>)> = None;
        for _ in 0..o.events {
            if r.p(o.writes) && n > 0 {
                let mut m = r.n(n);
                if r.p(20) {
                    // modules without channels
                    if let Some(k) = (0..n).find(|k| cfg.mods[*k].channel_count() == 0) {
                        m = k;
                    }
                }
                let chans = cfg.mods[m].channel_count();
                if r.p(o.bad_addr) || (chans == 0 && r.p(60)) {
                    let (bm, bc) = match r.n(5) {
                        0 => (n + r.n(3), 0),
                        1 => (m, chans + r.n(3)),
                        2 => (usize::MAX, 0),
                        3 => (m, usize::MAX / 2),
                        _ if r.p(50) => (m, chans),
                        _ => (n, chans),
                    };
                    // positions far outside are logged as 9999
                    let v = any_value(r);
                    let t = js(&v);
                    let res = catch_unwind(AssertUnwindSafe(|| {
                        c.set_output(&Address { module: bm, channel: bc }, v)
                    }));
                    let (tag, kind) = match res {
                        Err(_) => ("panic", String::new()),
                        Ok(Ok(())) => ("ok", String::new()),
                        Ok(Err(e)) => ("err", format!("{e:?}").replace('"', "'")),
                    };
                    log.line(&format!(
                        r#"{{"e":"set","m":{},"c":{},"v":{t},"r":"{tag}","k":"{kind}"}}"#,
                        bm.min(9999),
                        bc.min(9999)
                    ));
                } else if chans > 0 {
                    let ch = r.n(chans);
                    let v = if r.p(o.bad_value) { any_value(r) } else { good_value(&cfg, m, r) };
                    set_event(&mut c, m, ch, v, log, "");
                    if r.p(15) {
                        // the same channel again
                        let v = good_value(&cfg, m, r);
                        set_event(&mut c, m, ch, v, log, "");
                    }
                }
                continue;
            }
            if r.p(o.burst) {
                let mut all: Vec<(usize, usize)> =
                    (0..n).flat_map(|m| (0..cfg.mods[m].channel_count()).map(move |c| (m, c))).collect();
                let part = *r.pick(&[100, 100, 60, 20]);
                while !all.is_empty() {
                    let k = r.n(all.len());
                    let (m, ch) = all.swap_remove(k);
                    if r.p(part) {
                        for _ in 0..if r.p(10) { r.r(2, 4) } else { 1 } {
                            let v = good_value(&cfg, m, r);
                            set_event(&mut c, m, ch, v, log, "");
                        }
                    }
                }
            }
            let mut i = random_in(&cfg, r);
            let mut out = match (&last, r.p(o.feedback)) {
                (Some(l), true) => l.clone(),
                _ => random_out(&cfg, r),
            };
            if let Some((pi, po)) = &prev {
                if r.p(20) {
                    i = pi.clone();
                    vary(&cfg, &mut i, true, r);
                }
                if r.p(15) {
                    out = po.clone();
                    vary(&cfg, &mut out, false, r);
                }
            }
            prev = Some((i.clone(), out.clone()));
            if r.p(o.bad_image) {
                match r.n(5) {
                    0 => spoil_preset(&cfg, &mut out, r),
                    1 | 2 => spoil(&cfg, &mut i, true, r),
                    _ => spoil(&cfg, &mut out, false, r),
                }
            }
            match cycle_event(&mut c, &i, &out, log, "") {
                Out::Ok(v) => {
                    if o.age > 0 && r.p(15) {
                        age(&mut c, &cfg, &i, &v, o.age, r, log);
                    }
                    last = Some(v);
                }
                Out::Err(_) => {}
                Out::Panic => break,
            }
        }
    }
}

/// Many cycles on the same images, with nothing to do or with writes of what
/// is there already, or many refused ones.
fn age(c: &mut Coupler, cfg: &Cfg, i: &[u16], o: &[u16], n: usize, r: &mut Rng, log: &mut Log) {
    for _ in 0..3 {
        match cycle_event(c, i, o, log, "") {
            Out::Ok(v) if v == o => {}
            _ => return,
        }
    }
    let seen = (c.inputs().clone(), c.outputs().clone());
    let outs: Vec<(usize, usize)> = (0..cfg.mods.len())
        .filter(|m| cfg.nout(*m) > 0 && !cfg.is_com(*m))
        .flat_map(|m| (0..cfg.mods[m].channel_count()).map(move |c| (m, c)))
        .collect();
    let refused = r.p(30) && !i.is_empty() && cfg.in_words == i.len() && (0..cfg.mods.len()).any(|m| cfg.nin(m) > 0);
    let writes = !outs.is_empty() && r.p(60);
    for _ in 0..n {
        if refused && !matches!(cycle(c, &i[..0], o), Out::Err(_)) {
            return; // another property's subject
        }
        let mut told = None;
        if writes {
            let (m, ch) = *r.pick(&outs);
            let v = seen.1[m][ch].clone();
            if c.set_output(&Address { module: m, channel: ch }, v.clone()).is_err() {
                set_event(c, m, ch, v, log, "");
                return;
            }
            told = Some((m, ch, v));
        }
        let res = cycle(c, i, o);
        if !matches!(&res, Out::Ok(v) if v == o) || (c.inputs(), c.outputs()) != (&seen.0, &seen.1) {
            if let Some((m, ch, v)) = told {
                log.line(&format!(r#"{{"e":"set","m":{m},"c":{ch},"v":{},"r":"ok"}}"#, js(&v)));
            }
            log_cycle(c, i, o, &res, log, "");
            return;
        }
    }
    log.line(&format!(r#"{{"e":"idle","n":{n}}}"#));
}

/// Offsets and images that do not fit together.
pub fn chaos(sessions: usize, r: &mut Rng, log: &mut Log) {
    let pool = supported();
    for _ in 0..sessions {
        let n = r.r(1, 6);
        let mut cfg = random_cfg(n, &pool, 30, r);
        let good = cfg.offs.clone();
        for _ in 0..r.r(1, 2) {
            let k = r.n(2 * n);
            let o = cfg.offs[k];
            cfg.offs[k] = match r.n(9) {
                0 => r.word(),
                1 => NO,
                2 => o ^ (1 << r.n(3)),
                3 => o.wrapping_add(8),
                4 => o.wrapping_sub(8),
                5 => o ^ 0x8000,
                6 => o.wrapping_add(16 * r.r(1, 5) as u16),
                7 => *r.pick(&[0, 8, 0x7FF8, 0x8000, 0x8008, 0xFFF0, 0xFFF8, 0xFFFE]),
                _ => *r.pick(&good),
            };
        }
        let Some(mut c) = new_event(&cfg.coupler_cfg(), log, "") else { continue };
        for _ in 0..3 {
            for _ in 0..r.n(3) {
                let m = r.n(n);
                if cfg.mods[m].channel_count() > 0 {
                    let v = good_value(&cfg, m, r);
                    set_event(&mut c, m, 0, v, log, "");
                }
            }
            let img = |words: usize, r: &mut Rng| -> Vec<u16> {
                let n = match r.n(4) {
                    0 => r.n(words + 3),
                    1 => words + 2500 * r.n(2),
                    _ => words + r.n(20),
                };
                (0..n).map(|_| if r.p(40) { 0 } else { r.word() & 0x07FF }).collect()
            };
            let (i, o) = (img(cfg.in_words, r), img(cfg.out_words, r));
            if let Out::Panic = cycle_event(&mut c, &i, &o, log, "") {
                break;
            }
        }
    }
}
