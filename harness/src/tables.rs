//! Function tables: evaluations of the stateless parts of the library,
//! recorded in batches for spec/TraceTables.tla.
use crate::modules::*;
use crate::rng::Rng;
use crate::session::*;
use crate::val::*;
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::str::FromStr;
use std::time::Duration;
use ur20::ur20_1com_232_485_422::{ProcessDataLength, ProcessInput as RsIn, ProcessOutput as RsOut};
use ur20::ur20_fbc_mod_tcp::*;
use ur20::*;

pub fn guard<T>(f: impl FnOnce() -> std::result::Result<T, Error>) -> (String, Option<T>) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Err(_) => ("panic".into(), None),
        Ok(Ok(x)) => ("ok".into(), Some(x)),
        Ok(Err(e)) => (format!("{e:?}").replace('"', "'"), None),
    }
}
fn strs(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(","))
}
fn iints(v: &[i64]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        write!(s, "{x}").unwrap();
    }
    s.push(']');
    s
}

// ---------------------------------------------------------------- parameters

/// Module parameters, channel parameters and substitute values.
fn shown(m: &Made) -> (String, String, String) {
    (
        strs(&m.mp),
        format!("[{}]", m.cp.iter().map(|c| strs(c)).collect::<Vec<_>>().join(",")),
        format!("[{}]", m.sub.iter().map(|x| dec(*x)).collect::<Vec<_>>().join(",")),
    )
}
fn par_event(t: &ModuleType, b: &[u16], log: &mut Log) {
    let (r, m) = guard(|| make(t, b));
    let (mp, cp, sub) = m.as_ref().map_or(("[]".into(), "[]".into(), "[]".into()), shown);
    log.line(&format!(
        r#"{{"e":"par","t":"{t:?}","b":{},"r":"{r}","mp":{mp},"cp":{cp},"sub":{sub}}}"#,
        ints(b)
    ));
}

/// Random blocks: valid ones, ones with wrong registers, too short, too long.
pub fn params(n: usize, r: &mut Rng, log: &mut Log) {
    for t in supported() {
        let ks = kinds(&t);
        for k in 0..n {
            let mut b = valid_block(&t, r);
            match k % 6 {
                0 | 1 => {}
                2 | 3 if !ks.is_empty() => {
                    for _ in 0..r.r(1, 2) {
                        let j = r.n(ks.len());
                        if let Some(l) = limit(&ks[j]) {
                            b[j] = match r.n(5) {
                                0 => l,
                                1 => l + 1,
                                2 => b[j] | 0x100,
                                3 => 0xFFFF,
                                _ => r.word(),
                            };
                        } else {
                            b[j] = r.word();
                        }
                    }
                }
                4 if !ks.is_empty() => {
                    let x = r.r(1, 40);
                    if r.p(50) {
                        b.extend((0..x).map(|_| r.word()));
                    } else {
                        b.extend(std::iter::repeat_n(0, x));
                    }
                }
                _ => {
                    // the range limits of all registers
                    for (j, k) in ks.iter().enumerate() {
                        if let Some(l) = limit(k) {
                            b[j] = if r.p(50) { l - 1 } else { 0 };
                        }
                    }
                }
            }
            par_event(&t, &b, log);
        }
    }
}

/// Every register of every type takes all (or many) values.
pub fn scan(full: bool, r: &mut Rng, log: &mut Log) {
    for t in supported() {
        let ks = kinds(&t);
        for j in 0..ks.len() {
            let base = valid_block(&t, r);
            let Some(b0) = guard(|| make(&t, &base)).1 else {
                log.line(&format!(r#"{{"e":"any","r":"driver"}}"#));
                continue;
            };
            let (nm, nc) = (layout(&t).0.len(), layout(&t).1.len());
            let subst_at = layout(&t).1.iter().position(|k| *k == K::Raw);
            // does the register change how others are shown?
            let all = full || limit(&ks[j]).is_some();
            let values: Vec<u32> = if all {
                (0..65536).collect()
            } else {
                let mut v: Vec<u32> = (0..700).map(|_| u32::from(r.word())).collect();
                v.extend([0, 1, 255, 256, 0x7FFF, 0x8000, 0xFFFF]);
                v.sort_unstable();
                v.dedup();
                v
            };
            let mut runs: Vec<(u32, u32, String, i64)> = vec![];
            let mut same = true;
            for w in values {
                let mut b = base.clone();
                b[j] = w as u16;
                let (res, m) = guard(|| make(&t, &b));
                let (tag, num) = match m {
                    None => (res, 0),
                    Some(m) => {
                        // all parameters but the j-th must be as in the base
                        let (ch, pos) = if j < nm { (usize::MAX, j) } else { ((j - nm) / nc, (j - nm) % nc) };
                        let at = |p: usize| match subst_at {
                            Some(s) if p > s => p - 1,
                            _ => p,
                        };
                        let mut shown = None;
                        if j < nm {
                            shown = Some(m.mp[pos].clone());
                        }
                        for (k, x) in m.mp.iter().enumerate() {
                            if j != k && *x != b0.mp[k] {
                                same = false;
                            }
                        }
                        same &= m.cp.len() == b0.cp.len();
                        for (c, row) in m.cp.iter().enumerate() {
                            for (k, x) in row.iter().enumerate() {
                                if c == ch && subst_at != Some(pos) && k == at(pos) {
                                    shown = Some(x.clone());
                                } else if *x != b0.cp[c][k] {
                                    same = false;
                                }
                            }
                        }
                        for (c, x) in m.sub.iter().enumerate() {
                            if c != ch && x.to_bits() != b0.sub[c].to_bits() {
                                same = false;
                            }
                        }
                        match (&ks[j], shown) {
                            (K::E(_), Some(s)) => (s, 0),
                            (K::Raw, _) => ("sub".to_string(), 0),
                            (_, Some(s)) => match s.parse::<i64>() {
                                Ok(n) => ("num".to_string(), n),
                                Err(_) => (s, 0),
                            },
                            (_, None) => ("?".to_string(), 0),
                        }
                    }
                };
                if let Some(l) = runs.last_mut() {
                    let next = if tag == "num" { l.3 + i64::from(l.1 - l.0) + 1 == num } else { true };
                    if l.2 == tag && l.1 + 1 == w && next {
                        l.1 = w;
                        continue;
                    }
                }
                runs.push((w, w, tag, num));
            }
            let rs: Vec<_> =
                runs.iter().map(|x| format!(r#"[{},{},"{}",{}]"#, x.0, x.1, x.2, x.3)).collect();
            log.line(&format!(
                r#"{{"e":"scan","t":"{t:?}","b":{},"j":{},"full":{all},"same":{same},"runs":[{}]}}"#,
                ints(&base),
                j + 1,
                rs.join(",")
            ));
        }
    }
}

// -------------------------------------------------------------------- analog

/// A block in which every channel has the given range register (and format).
fn analog_block(t: &ModuleType, rg: u16, fm: u16, r: &mut Rng) -> Vec<u16> {
    let mut b = valid_block(t, r);
    let (m, c, n) = layout(t);
    for i in 0..n {
        let at = m.len() + i * c.len();
        for (j, k) in c.iter().enumerate() {
            if is_range(t, j) {
                b[at + j] = rg;
            } else if is_format(t, j) {
                b[at + j] = fm;
            }
            let _ = k;
        }
    }
    b
}
fn is_range(t: &ModuleType, j: usize) -> bool {
    use ModuleType::*;
    match t {
        UR20_4AO_UI_16 | UR20_4AO_UI_16_DIAG => j == 1,
        UR20_4AI_RTD_DIAG | UR20_4AI_TC_DIAG => j == 0,
        UR20_4AI_UI_16_DIAG => j == 4,
        UR20_4AI_UI_12 | UR20_4AI_UI_16 => j == 1,
        UR20_8AI_I_16_DIAG_HD => j == 3,
        _ => false,
    }
}
fn is_format(t: &ModuleType, j: usize) -> bool {
    use ModuleType::*;
    match t {
        UR20_4AO_UI_16 | UR20_4AO_UI_16_DIAG => j == 0,
        UR20_4AI_UI_16_DIAG => j == 3,
        UR20_4AI_UI_12 | UR20_4AI_UI_16 => j == 0,
        UR20_8AI_I_16_DIAG_HD => j == 2,
        _ => false,
    }
}
fn ranges(t: &ModuleType) -> u16 {
    use ModuleType::*;
    match t {
        UR20_4AI_RTD_DIAG => 19,
        UR20_4AI_TC_DIAG => 20,
        UR20_8AI_I_16_DIAG_HD => 3,
        _ => 9,
    }
}
fn has_format(t: &ModuleType) -> bool {
    (0..layout(t).1.len()).any(|j| is_format(t, j))
}
/// names of range and format of a channel, as the module itself reports them
/// (that they are the right ones is C12)
fn range_name(t: &ModuleType, m: &Made, ch: usize) -> (String, String) {
    let row = &m.cp[ch];
    use ModuleType::*;
    match t {
        UR20_4AO_UI_16 | UR20_4AO_UI_16_DIAG => (row[1].clone(), row[0].clone()),
        UR20_4AI_RTD_DIAG | UR20_4AI_TC_DIAG => (row[0].clone(), "S5".into()),
        UR20_4AI_UI_16_DIAG => (row[4].clone(), row[3].clone()),
        UR20_4AI_UI_12 | UR20_4AI_UI_16 => (row[1].clone(), row[0].clone()),
        _ => (row[3].clone(), row[2].clone()),
    }
}
/// which of the three scalings the specification uses for a range
fn scale_of(rg: &str) -> usize {
    if rg.starts_with("mA") || rg.starts_with("V0") || rg.starts_with("VM") || rg.starts_with("V1") || rg.starts_with("V2") {
        2
    } else if rg.starts_with("uV") || rg.starts_with("mV") || rg.starts_with("VPlus") {
        3
    } else {
        1
    }
}
fn scaled(rg: &str, v: f32) -> i64 {
    let s = if rg.starts_with("VPlus") { 3 } else { scale_of(rg) };
    let k = [1e5, 1e6, 1e9][s - 1];
    (f64::from(v) * k).round().clamp(-2_147_483_647.0, 2_147_483_647.0) as i64
}

fn ai_line(t: &ModuleType, src: &str, ch: usize, rg: &str, fm: &str, lo: u32, vals: &[ChannelValue], log: &mut Log) {
    let mut v = vec![];
    let mut odd: Vec<(usize, usize, &str)> = vec![];
    for (k, x) in vals.iter().enumerate() {
        let tag = match x {
            ChannelValue::Decimal32(f) if !f.is_nan() => {
                v.push(scaled(rg, *f));
                continue;
            }
            ChannelValue::Decimal32(_) => "nan",
            ChannelValue::Disabled => "disabled",
            ChannelValue::None => "none",
            _ => "other",
        };
        v.push(0);
        match odd.last_mut() {
            Some(l) if l.1 == k && l.2 == tag => l.1 = k + 1,
            _ => odd.push((k + 1, k + 1, tag)),
        }
    }
    let od: Vec<_> = odd.iter().map(|o| format!(r#"[{},{},"{}"]"#, o.0, o.1, o.2)).collect();
    let s = if rg.starts_with("VPlus") { 3 } else { scale_of(rg) };
    log.line(&format!(
        r#"{{"e":"ai","t":"{t:?}","src":"{src}","ch":{ch},"rg":"{rg}","fm":"{fm}","s":{s},"lo":{lo},"v":{},"odd":[{}]}}"#,
        iints(&v),
        od.join(",")
    ));
}

/// All raw words of all ranges and formats.  `step`: 1 = all words, n = words
/// in blocks of 64 of which every n-th is taken (plus the ends of the range).
pub fn analog_in(types: &str, step: usize, r: &mut Rng, log: &mut Log) {
    use ModuleType::*;
    let ts: Vec<ModuleType> = match types {
        "ui" => vec![UR20_4AI_UI_16_DIAG],
        "ui2" => vec![UR20_4AI_UI_12, UR20_4AI_UI_16],
        "i8" => vec![UR20_8AI_I_16_DIAG_HD],
        "rtd" => vec![UR20_4AI_RTD_DIAG],
        "tc" => vec![UR20_4AI_TC_DIAG],
        _ => vec![UR20_4AO_UI_16, UR20_4AO_UI_16_DIAG],
    };
    for t in ts {
        let n = layout(&t).2;
        let out = matches!(t, UR20_4AO_UI_16 | UR20_4AO_UI_16_DIAG);
        for rg in 0..ranges(&t) {
            for fm in 0..if has_format(&t) { 2 } else { 1 } {
                let block = analog_block(&t, rg, fm, r);
                let Some(m) = guard(|| make(&t, &block)).1 else { continue };
                let size = 1024;
                let shift = r.n(n);
                for b in 0..65536 / size {
                    let edge = b == 0 || b == 31 || b == 32 || b == 63;
                    let ch = (b + shift) % n;
                    let (rn, fn_) = range_name(&t, &m, ch);
                    let parts: Vec<(u32, u32)> = if step == 1 {
                        vec![((b * size) as u32, size as u32)]
                    } else if edge {
                        vec![((b * size) as u32, 24), ((b * size + size - 24) as u32, 24), ((b * size + 100 + r.n(800)) as u32, 24)]
                    } else if b % step == 0 {
                        vec![((b * size + r.n(1000)) as u32, 24)]
                    } else {
                        vec![]
                    };
                    for (lo, cnt) in parts {
                        let vals: Vec<ChannelValue> = (lo..lo + cnt)
                            .map(|w| {
                                let mut data: Vec<u16> = (0..n).map(|_| r.word()).collect();
                                data[ch] = w as u16;
                                let res = guard(|| {
                                    if out { m.m.process_output_data(&data) } else { m.m.process_input_data(&data) }
                                });
                                res.1.and_then(|v| v.get(ch).cloned()).unwrap_or(ChannelValue::Bytes(vec![]))
                            })
                            .collect();
                        ai_line(&t, if out { "out" } else { "in" }, ch, &rn, &fn_, lo, &vals, log);
                    }
                }
                if out {
                    // the substitute value of a channel is a raw word as well
                    for b in (0..64).step_by(step.min(16)) {
                        let lo = (b * 1024 + r.n(1000)) as u32;
                        let ch = r.n(n);
                        let mut blk = block.clone();
                        let (rn, fn_) = range_name(&t, &m, ch);
                        if rn == "Disabled" {
                            continue;
                        }
                        let vals: Vec<ChannelValue> = (lo..lo + 24)
                            .map(|w| {
                                let c = layout(&t).1.len();
                                blk[ch * c + 2] = w as u16;
                                match guard(|| make(&t, &blk)).1 {
                                    Some(m) => ChannelValue::Decimal32(m.sub[ch]),
                                    None => ChannelValue::Bytes(vec![]),
                                }
                            })
                            .collect();
                        ai_line(&t, "sub", ch, &rn, &fn_, lo, &vals, log);
                    }
                }
            }
        }
    }
}

/// Values for analog outputs: around every step size, around ties, far away.
pub fn analog_drive(n: usize, r: &mut Rng, log: &mut Log) {
    use ModuleType::*;
    for t in [UR20_4AO_UI_16, UR20_4AO_UI_16_DIAG] {
        for rg in 0..9u16 {
            for fm in 0..2u16 {
                let block = analog_block(&t, rg, fm, r);
                let Some(m) = guard(|| make(&t, &block)).1 else { continue };
                let step = [20.0, 16.0, 10.0, 10.0, 5.0, 5.0, 4.0, 8.0, 1.0][rg as usize]
                    / [16384.0f64, 27648.0][fm as usize];
                let ofs = [0.0, 4.0, 0.0, 0.0, 0.0, 0.0, 1.0, 2.0, 0.0][rg as usize];
                for ch in 0..4 {
                    let mut xs: Vec<f32> = vec![
                        f32::NEG_INFINITY, f32::MIN, -1e9, -2147.0, -1000.0, -41.0, -40.0, -20.0, -10.0, -5.0,
                        -f32::MIN_POSITIVE, -0.0, 0.0, f32::MIN_POSITIVE, 1e-20, 5.0, 10.0, 20.0, 40.0, 41.0,
                        1000.0, 2147.0, 1e9, f32::MAX, f32::INFINITY,
                    ];
                    for _ in 0..n {
                        let k = match r.n(5) {
                            0 => r.n(64) as f64 - 32.0,
                            1 => 32767.0 - r.n(6) as f64,
                            2 => -32768.0 + r.n(6) as f64,
                            _ => r.n(65536) as f64 - 32768.0,
                        };
                        let frac = match r.n(6) {
                            0 => 0.0,
                            1 => 0.3,
                            2 => 0.7,
                            3 => 0.45,
                            4 => 0.5,
                            _ => r.n(1000) as f64 / 1000.0,
                        };
                        xs.push(((k + frac) * step + ofs) as f32);
                    }
                    xs.sort_by(|a, b| a.total_cmp(b));
                    let mut raw = vec![];
                    let mut ok = "ok".to_string();
                    for x in &xs {
                        let mut vs: Vec<ChannelValue> =
                            (0..4).map(|_| ChannelValue::Decimal32(random_dec(r))).collect();
                        vs[ch] = ChannelValue::Decimal32(*x);
                        let (res, o) = guard(|| m.m.process_output_values(&vs));
                        match o {
                            Some(o) if o.len() == 4 => raw.push(i64::from(o[ch])),
                            _ => {
                                ok = res;
                                raw.push(0);
                            }
                        }
                    }
                    let mut vs: Vec<ChannelValue> =
                        (0..4).map(|_| ChannelValue::Decimal32(7.5)).collect();
                    vs[ch] = ChannelValue::Disabled;
                    let dis = guard(|| m.m.process_output_values(&vs)).1.and_then(|o| o.get(ch).copied());
                    let (rn, fn_) = range_name(&t, &m, ch);
                    let x6: Vec<i64> = xs
                        .iter()
                        .map(|x| (f64::from(*x) * 1e6).round().clamp(-2_147_483_647.0, 2_147_483_647.0) as i64)
                        .collect();
                    log.line(&format!(
                        r#"{{"e":"drive","t":"{t:?}","ch":{ch},"rg":"{rn}","fm":"{fn_}","r":"{ok}","dis":{},"x":{},"raw":{}}}"#,
                        dis.map_or(-1, i64::from),
                        iints(&x6),
                        iints(&raw)
                    ));
                }
            }
        }
    }
}

/// Analog outputs without writes: all raw words through a real coupler, twice.
pub fn keep(step: usize, r: &mut Rng, log: &mut Log) {
    use ModuleType::*;
    for t in [UR20_4AO_UI_16, UR20_4AO_UI_16_DIAG] {
        // 18 combinations on the channels of five modules
        let combos: Vec<(u16, u16)> = (0..20).map(|k| ((k % 18) / 2, k % 2)).collect();
        let c = layout(&t).1.len();
        let mut params = vec![];
        let mut offsets = vec![];
        for m in 0..5usize {
            let mut b = valid_block(&t, r);
            for i in 0..4 {
                b[i * c] = combos[4 * m + i].1;
                b[i * c + 1] = combos[4 * m + i].0;
            }
            params.push(b);
            offsets.extend([(0x8000 + m * 64) as u16, NO]);
        }
        let cfg = CouplerConfig { modules: vec![t.clone(); 5], offsets, params };
        let Some(mut cp) = new_coupler(&cfg).0 else {
            log.line(r#"{"e":"any","r":"panic"}"#);
            continue;
        };
        let names_: Vec<_> = (0..20)
            .map(|k| {
                let m = guard(|| make(&t, &cfg.params[k / 4])).1.unwrap();
                range_name(&t, &m, k % 4)
            })
            .collect();
        let mut ws: Vec<Vec<u16>> = vec![vec![]; 20];
        let (mut os, mut ps) = (ws.clone(), ws.clone());
        let flush = |ws: &mut Vec<Vec<u16>>, os: &mut Vec<Vec<u16>>, ps: &mut Vec<Vec<u16>>, log: &mut Log| {
            for k in 0..20 {
                log.line(&format!(
                    r#"{{"e":"keep","t":"{t:?}","rg":"{}","fm":"{}","w":{},"o":{},"p":{}}}"#,
                    names_[k].0,
                    names_[k].1,
                    ints(&ws[k]),
                    ints(&os[k]),
                    ints(&ps[k])
                ));
                ws[k].clear();
                os[k].clear();
                ps[k].clear();
            }
        };
        let start = r.n(step);
        let mut n = 0;
        for w in (start..65536).step_by(step) {
            let img: Vec<u16> = (0..20).map(|k| (w + 3641 * k) as u16).collect();
            let a = cycle(&mut cp, &[], &img);
            let a = match a {
                Out::Ok(v) if v.len() == 20 => v,
                _ => vec![0xDEAD; 20],
            };
            let b = match cycle(&mut cp, &[], &a) {
                Out::Ok(v) if v.len() == 20 => v,
                _ => vec![0xDEAD; 20],
            };
            for k in 0..20 {
                ws[k].push(img[k]);
                os[k].push(a[k]);
                ps[k].push(b[k]);
            }
            n += 1;
            if n % 1024 == 0 {
                flush(&mut ws, &mut os, &mut ps, log);
            }
        }
        if !ws[0].is_empty() {
            flush(&mut ws, &mut os, &mut ps, log);
        }
    }
}

// ------------------------------------------------------------------- digital

fn pack_bits(v: &[ChannelValue], n: usize) -> i64 {
    if v.len() != n {
        return -1;
    }
    let mut x = 0;
    for (i, b) in v.iter().enumerate() {
        match b {
            ChannelValue::Bit(true) => x |= 1 << i,
            ChannelValue::Bit(false) => {}
            _ => return -2,
        }
    }
    x
}

pub fn bits(r: &mut Rng, log: &mut Log) {
    use ModuleType::*;
    let size = 4096u32;
    for t in [UR20_4DI_P, UR20_8DI_P_2W, UR20_4DO_P, UR20_4DO_P_2A, UR20_8DO_P, UR20_16DO_P, UR20_4RO_CO_255] {
        let m = make(&t, &valid_block(&t, r)).unwrap();
        let n = t.channel_count();
        let input = matches!(t, UR20_4DI_P | UR20_8DI_P_2W);
        for b in 0..16 {
            let v: Vec<i64> = (b * size..(b + 1) * size)
                .map(|w| {
                    let d = [w as u16];
                    guard(|| if input { m.m.process_input_data(&d) } else { m.m.process_output_data(&d) })
                        .1
                        .map_or(-3, |v| pack_bits(&v, n))
                })
                .collect();
            log.line(&format!(r#"{{"e":"bin","t":"{t:?}","lo":{},"v":{}}}"#, b * size, iints(&v)));
        }
        if !input {
            let total = 1u32 << n;
            let mut lo = 0;
            while lo < total {
                let hi = (lo + size).min(total);
                let v: Vec<i64> = (lo..hi)
                    .map(|w| {
                        let vs: Vec<ChannelValue> = (0..n).map(|i| ChannelValue::Bit(w >> i & 1 == 1)).collect();
                        guard(|| m.m.process_output_values(&vs)).1.map_or(-3, |o| {
                            if o.len() == 1 { i64::from(o[0]) } else { -1 }
                        })
                    })
                    .collect();
                log.line(&format!(r#"{{"e":"bout","t":"{t:?}","lo":{lo},"v":{}}}"#, iints(&v)));
                lo = hi;
            }
        }
    }
    let t = UR20_PF_O_1DI_SIL;
    let m = make(&t, &[]).unwrap();
    for b in 0..16 {
        let v: Vec<i64> = (b * size..(b + 1) * size)
            .map(|w| {
                let v = guard(|| m.m.process_input_data(&[w as u16, r.word()])).1;
                match v.as_deref() {
                    Some([ChannelValue::SilPFIn(p)]) => [
                        p.safety_input,
                        p.autostart,
                        p.manual_start,
                        p.safety_input_channel_1,
                        p.safety_input_channel_2,
                        p.volt_24_safe_output,
                        p.volt_24_dc,
                    ]
                    .iter()
                    .enumerate()
                    .map(|(i, b)| i64::from(*b) << i)
                    .sum(),
                    _ => -1,
                }
            })
            .collect();
        log.line(&format!(r#"{{"e":"sil","lo":{},"v":{}}}"#, b * size, iints(&v)));
    }
}

// ---------------------------------------------------------------------- rows

fn dec_event(t: &ModuleType, b: &[u16], dir: &str, w: &[u16], log: &mut Log) {
    let Some(m) = guard(|| make(t, b)).1 else { return };
    dec_of(&m, "dec", t, &format!(r#","b":{}"#, ints(b)), dir, w, log);
}
fn dec_of(m: &Made, e: &str, t: &ModuleType, extra: &str, dir: &str, w: &[u16], log: &mut Log) {
    let (r, v) = guard(|| if dir == "in" { m.m.process_input_data(w) } else { m.m.process_output_data(w) });
    log.line(&format!(
        r#"{{"e":"{e}","t":"{t:?}"{extra},"dir":"{dir}","w":{},"r":"{r}","v":{}}}"#,
        ints(w),
        v.map_or("[]".into(), |v| jvals(&v))
    ));
}
fn enc_event(t: &ModuleType, b: &[u16], vs: &[ChannelValue], log: &mut Log) {
    let Some(m) = guard(|| make(t, b)).1 else { return };
    enc_of(&m, "enc", t, &format!(r#","b":{}"#, ints(b)), vs, log);
}
fn enc_of(m: &Made, e: &str, t: &ModuleType, extra: &str, vs: &[ChannelValue], log: &mut Log) {
    let (r, o) = guard(|| m.m.process_output_values(vs));
    log.line(&format!(
        r#"{{"e":"{e}","t":"{t:?}"{extra},"vs":{},"r":"{r}","o":{}}}"#,
        jvals(vs),
        o.map_or("[]".into(), |o| ints(&o))
    ));
}
fn mod_of(m: &Made, e: &str, t: &ModuleType, extra: &str, log: &mut Log) {
    let (inb, outb) = (m.m.process_input_byte_count(), m.m.process_output_byte_count());
    let vals = |x: (String, Option<Vec<ChannelValue>>)| x.1.map_or(-1, |v| v.len() as i64);
    let nin = vals(guard(|| m.m.process_input_data(&vec![0; inb.div_ceil(2)])));
    let nout = vals(guard(|| m.m.process_output_data(&vec![0; outb.div_ceil(2)])));
    log.line(&format!(
        r#"{{"e":"{e}","t":"{t:?}"{extra},"mt":"{:?}","inb":{inb},"outb":{outb},"nin":{nin},"nout":{nout}}}"#,
        m.m.module_type()
    ));
}

/// Modules with their default parameters: what these are, and the process data
/// of such a module.  `b` is only used to generate inputs.
pub fn defaults(n: usize, bad: usize, r: &mut Rng, log: &mut Log) {
    for t in supported() {
        let (res, m) = guard(|| make_default(&t));
        let (mp, cp, sub) = m.as_ref().map_or(("[]".into(), "[]".into(), "[]".into()), shown);
        log.line(&format!(r#"{{"e":"def","t":"{t:?}","r":"{res}","mp":{mp},"cp":{cp},"sub":{sub}}}"#));
        let Some(m) = m else { continue };
        mod_of(&m, "dmod", &t, "", log);
        let mut b = valid_block(&t, r);
        if t == ModuleType::UR20_1COM_232_485_422 {
            b[0] = 1;
        }
        let cfg = place(vec![t.clone()], vec![b], 0, r);
        for _ in 0..n {
            for dir in ["in", "out"] {
                let w = row_words(&t, &cfg, dir, bad, r);
                dec_of(&m, "ddec", &t, "", dir, &w, log);
            }
            let vs = row_values(&t, &cfg, bad, r);
            enc_of(&m, "denc", &t, "", &vs, log);
        }
    }
}

/// Frequencies: count c = a * 2^k over a period of p/q seconds.
pub fn hertz(n: usize, r: &mut Rng, log: &mut Log) {
    use ur20::ur20_2fcnt_100::ProcessInput;
    let one = |p: u32, q: u32, a: u32, k: u32, log: &mut Log| {
        let duration = Duration::from_nanos(u64::from(p) * 1_000_000_000 / u64::from(q));
        let i = ProcessInput { duration: Some(duration), count: a << k, active: a % 2 == 0 };
        let (res, v) = guard(|| Ok(i.hertz()));
        let none = ProcessInput { duration: None, ..i.clone() };
        let nov = guard(|| Ok(none.hertz())).1 == Some(None);
        // scaled by 1000 / 2^k
        let x = v.flatten().map_or(-1.0, |v| f64::from(v) / f64::powi(2.0, k as i32) * 1000.0);
        let x = if x.is_finite() && x.abs() < 2e9 { x.round() as i64 } else { -2 };
        log.line(&format!(r#"{{"e":"hz","p":{p},"q":{q},"a":{a},"r":"{res}","v":{x},"absent":{nov}}}"#));
    };
    for q in [1, 2, 4, 5, 8, 10, 16, 20] {
        for p in 1..=16 * q {
            one(p, q, 1 + p % 50, p % 24, log);
        }
    }
    for _ in 0..n {
        let (q, a) = (*r.pick(&[1, 2, 4, 5, 8, 10, 16, 20]), r.r(0, 1000) as u32);
        one(r.r(1, 16 * q) as u32, q as u32, a, r.n(22) as u32, log);
    }
}
/// Short periods: a edges in t steps of 125 ns.
pub fn hertz_short(n: usize, r: &mut Rng, log: &mut Log) {
    use ur20::ur20_2fcnt_100::ProcessInput;
    for k in 0..n {
        let top = *r.pick(&[100, 10_000, 1_000_000]);
        let t = if k < 300 { 1 + k } else { r.r(1, top) };
        let a = r.r(0, 100);
        let duration = Duration::from_nanos(t as u64 * 125);
        let i = ProcessInput { duration: Some(duration), count: a as u32, active: r.p(50) };
        let (res, v) = guard(|| Ok(i.hertz()));
        let x = v.flatten().map_or(-1.0, f64::from);
        let x = if x.is_finite() && x.abs() < 2e9 { x.round() as i64 } else { -2 };
        log.line(&format!(r#"{{"e":"hzs","t":{t},"a":{a},"r":"{res}","v":{x}}}"#));
    }
}
/// A value for the module-level encoder of a type.
pub fn row_value(t: &ModuleType, cfg: &Cfg, r: &mut Rng) -> ChannelValue {
    if *t == ModuleType::UR20_1COM_232_485_422 {
        let n = if r.p(80) { r.n(cfg.nout(0) - 1) } else { r.n(25) };
        return ChannelValue::ComRsOut(com_value(n, if r.p(85) { 4 } else { 7 }, r));
    }
    good_value(cfg, 0, r)
}
fn com_value(n: usize, cnt: usize, r: &mut Rng) -> RsOut {
    RsOut {
        rx_buf_flush: r.p(50),
        tx_buf_flush: r.p(50),
        disable_tx_hw_buffer: r.p(50),
        tx_cnt: r.n(cnt),
        rx_cnt_ack: r.n(cnt),
        reset: r.p(50),
        data: r.bytes(n),
    }
}

/// Single rows: decoding and encoding with good and bad lengths and values.
/// sel: "digital" | "analog" | "com" | "all"
pub fn rows(n: usize, bad: usize, sel: &str, r: &mut Rng, log: &mut Log) {
    for t in supported() {
        let com = t == ModuleType::UR20_1COM_232_485_422;
        let wanted = match sel {
            "digital" => is_digital(&t),
            "com" => com,
            "analog" => !is_digital(&t) && !com,
            _ => true,
        };
        if !wanted {
            continue;
        }
        for _ in 0..n {
            let b = valid_block(&t, r);
            let cfg = place(vec![t.clone()], vec![b.clone()], 0, r);
            for dir in ["in", "out"] {
                let w = row_words(&t, &cfg, dir, bad, r);
                dec_event(&t, &b, dir, &w, log);
            }
            let vs = row_values(&t, &cfg, bad, r);
            enc_event(&t, &b, &vs, log);
        }
    }
}
fn row_words(t: &ModuleType, cfg: &Cfg, dir: &str, bad: usize, r: &mut Rng) -> Vec<u16> {
    let nb = if dir == "in" { cfg.nin(0) } else { cfg.nout(0) };
    let mut words = nb.div_ceil(2);
    if r.p(bad) {
        words = match r.n(4) {
            0 => words.saturating_sub(1),
            1 => words + 1,
            2 => 0,
            _ => r.n(24),
        };
    }
    let mut w: Vec<u16> = (0..words).map(|_| r.word()).collect();
    if cfg.is_com(0) && words > 0 && r.p(70) {
        let len = r.n(2 * words - 1);
        w[0] = (w[0] & 0xFF) | ((len as u16) << 8);
    }
    if *t == ModuleType::UR20_2FCNT_100 && words > 3 && r.p(50) {
        // short periods and presets
        w[0] &= 0x00FF;
        w[2] &= 0x00FF;
        if r.p(30) {
            w[0] = 0x7FF;
            w[1] = 0xFFFE + r.n(2) as u16;
        }
    }
    w
}
fn row_values(t: &ModuleType, cfg: &Cfg, bad: usize, r: &mut Rng) -> Vec<ChannelValue> {
    let mut vs: Vec<ChannelValue> = (0..t.channel_count()).map(|_| row_value(t, cfg, r)).collect();
    if r.p(bad) {
        match r.n(4) {
            0 => {
                vs.pop();
            }
            1 => vs.push(row_value(t, cfg, r)),
            2 => vs.clear(),
            _ => vs = (0..r.n(20)).map(|_| any_value(r)).collect(),
        }
    }
    if r.p(bad) && !vs.is_empty() {
        let k = r.n(vs.len());
        vs[k] = any_value(r);
        while *t == ModuleType::UR20_2FCNT_100 && bad > 0 && r.p(60) {
            vs[k] = any_value(r);
            if matches!(vs[k], ChannelValue::FcntOut(_)) {
                break;
            }
        }
    }
    vs
}
/// Presets of the counter: all edges, on both channels, with all commands.
pub fn presets(log: &mut Log) {
    use ur20::ur20_2fcnt_100::{Command, ProcessOutput};
    let t = ModuleType::UR20_2FCNT_100;
    for (k, duration) in edge_durations().into_iter().enumerate() {
        let command = [None, Some(Command::Start), Some(Command::Stop)][k % 3].clone();
        let v = ChannelValue::FcntOut(ProcessOutput { duration, command });
        let other = if k % 2 == 0 {
            ChannelValue::Disabled
        } else {
            ChannelValue::FcntOut(ProcessOutput { duration: Duration::from_micros(k as u64), command: None })
        };
        enc_event(&t, &[0, 0], &[v.clone(), other.clone()], log);
        enc_event(&t, &[0, 0], &[other, v], log);
    }
}

pub fn is_digital(t: &ModuleType) -> bool {
    use ModuleType::*;
    matches!(
        t,
        UR20_4DI_P | UR20_8DI_P_2W | UR20_4DO_P | UR20_4DO_P_2A | UR20_8DO_P | UR20_16DO_P | UR20_4RO_CO_255
            | UR20_2FCNT_100 | UR20_PF_O_1DI_SIL
    )
}

/// Calls nobody should make, and that must not panic.
pub fn abuse(n: usize, r: &mut Rng, log: &mut Log) {
    use ur20::*;
    let any = |name: &str, f: &mut dyn FnMut(), log: &mut Log| {
        let res = match catch_unwind(AssertUnwindSafe(|| f())) {
            Err(_) => "panic",
            Ok(()) => "ok",
        };
        log.line(&format!(r#"{{"e":"any","f":"{name}","r":"{res}"}}"#));
    };
    for _ in 0..n {
        // modules without channel parameters
        let mods: Vec<(&str, Box<dyn ProcessModbusTcpData>)> = vec![
            ("4ao", Box::new(ur20_4ao_ui_16::Mod { ch_params: vec![Default::default(); r.n(4)] })),
            ("4ao_diag", Box::new(ur20_4ao_ui_16_diag::Mod { ch_params: vec![Default::default(); r.n(4)] })),
            ("8ai", {
                let mut m = ur20_8ai_i_16_diag_hd::Mod::default();
                m.ch_params.truncate(r.n(9));
                Box::new(m)
            }),
            ("ui16diag", {
                let mut m = ur20_4ai_ui_16_diag::Mod::default();
                m.ch_params.truncate(r.n(5));
                Box::new(m)
            }),
            ("rtd", {
                let mut m = ur20_4ai_rtd_diag::Mod::default();
                m.ch_params.truncate(r.n(5));
                Box::new(m)
            }),
            ("tc", Box::new(ur20_4ai_tc_diag::Mod::default())),
            ("fcnt", Box::new(ur20_2fcnt_100::Mod { ch_params: vec![] })),
            ("com", Box::new(ur20_1com_232_485_422::Mod { ch_params: vec![], ..Default::default() })),
            ("4ro", Box::new(ur20_4ro_co_255::Mod { ch_params: vec![] })),
        ];
        for (name, m) in &mods {
            let chans = m.module_type().channel_count();
            let (ni, no) = (m.process_input_byte_count().div_ceil(2), m.process_output_byte_count().div_ceil(2));
            let wi: Vec<u16> = (0..if r.p(70) { ni } else { r.n(20) }).map(|_| r.word()).collect();
            let wo: Vec<u16> = (0..if r.p(70) { no } else { r.n(20) }).map(|_| r.word()).collect();
            let k = if r.p(70) { chans } else { r.n(20) };
            let vs: Vec<ChannelValue> = (0..k)
                .map(|_| {
                    if r.p(50) {
                        any_value(r)
                    } else if r.p(50) {
                        ChannelValue::Decimal32(random_dec(r))
                    } else {
                        ChannelValue::Bit(true)
                    }
                })
                .collect();
            any(name, &mut || drop(m.process_input_data(&wi)), log);
            any(name, &mut || drop(m.process_output_data(&wo)), log);
            any(name, &mut || drop(m.process_output_values(&vs)), log);
        }
        // free functions of the coupler with lists that do not fit together
        let all = supported();
        let k = r.n(6);
        let ms: Vec<Made> = (0..k)
            .filter_map(|_| {
                let t = r.pick(&all).clone();
                make(&t, &valid_block(&t, r)).ok()
            })
            .collect();
        let offs: Vec<ModuleOffset> = ms
            .iter()
            .map(|_| {
                let o = |base: u16, r: &mut Rng| match r.n(5) {
                    0 => None,
                    1 => Some(r.word()),
                    2 => Some(base + r.n(16) as u16),
                    _ => Some(base + 8 * r.n(20) as u16),
                };
                ModuleOffset { input: o(0, r), output: o(0x8000, r) }
            })
            .collect();
        let infos: Vec<(&dyn ProcessModbusTcpData, &ModuleOffset)> =
            ms.iter().zip(&offs).map(|(m, o)| (&*m.m, o)).collect();
        let len = r.n(40);
        let data: Vec<u16> = (0..len).map(|_| r.word()).collect();
        any("process_input_data", &mut || drop(process_input_data(&infos, &data)), log);
        any("process_output_data", &mut || drop(process_output_data(&infos, &data)), log);
        let vals: Vec<Vec<ChannelValue>> = (0..if r.p(80) { k } else { r.n(7) })
            .map(|i| {
                let n = if r.p(70) { ms.get(i).map_or(3, |m| m.m.module_type().channel_count()) } else { r.n(9) };
                (0..n).map(|_| if r.p(50) { any_value(r) } else { ChannelValue::Disabled }).collect()
            })
            .collect();
        any("process_output_values", &mut || drop(process_output_values(&infos, &vals)), log);
        let words: Vec<u16> = (0..r.n(9)).map(|_| r.word()).collect();
        any("offsets", &mut || drop(offsets_of_process_data(&words)), log);
        any("list", &mut || drop(module_list_from_registers(&words)), log);
        let many: Vec<ModuleType> = (0..r.n(65)).map(|_| r.pick(&all).clone()).collect();
        any("params", &mut || drop(param_addresses_and_register_counts(&many)), log);
    }
}

// ----------------------------------------------------------------- telegrams

pub fn telegrams(n: usize, r: &mut Rng, log: &mut Log) {
    let parse_ev = |dir: &str, b: &[u8], log: &mut Log| {
        let (r, v) = if dir == "in" {
            let (r, v) = guard(|| RsIn::try_from_byte_message(b));
            (r, v.map(|v| js(&ChannelValue::ComRsIn(v))))
        } else {
            let (r, v) = guard(|| RsOut::try_from_byte_message(b));
            (r, v.map(|v| js(&ChannelValue::ComRsOut(v))))
        };
        log.line(&format!(
            r#"{{"e":"parse","dir":"{dir}","b":{},"r":"{r}","v":{}}}"#,
            ints(b),
            v.unwrap_or("{}".into())
        ));
    };
    for dir in ["in", "out"] {
        // every status byte; every announced length in buffers of every size
        for st in 0..=255u8 {
            let len = r.n(8);
            let mut b = vec![st, len as u8];
            let more = len + r.n(4);
            b.extend(r.bytes(more));
            parse_ev(dir, &b, log);
        }
        for size in 0..=19usize {
            for len in 0..=20u16 {
                let mut b = vec![r.byte(), len as u8];
                b.extend(r.bytes(20));
                b.truncate(size);
                parse_ev(dir, &b, log);
            }
        }
        for _ in 0..n {
            let size = if r.p(50) { r.n(20) } else { r.n(280) };
            let b = r.bytes(size);
            parse_ev(dir, &b, log);
        }
    }
    let pack_ev = |len: usize, o: &RsOut, log: &mut Log| {
        let l = if len == 8 { ProcessDataLength::EightBytes } else { ProcessDataLength::SixteenBytes };
        let (r, b) = guard(|| o.try_into_byte_message(&l));
        let back = b
            .as_ref()
            .and_then(|b| guard(|| RsOut::try_from_byte_message(b)).1)
            .map_or("{}".into(), |v| js(&ChannelValue::ComRsOut(v)));
        log.line(&format!(
            r#"{{"e":"pack","len":{len},"o":{},"r":"{r}","b":{},"back":{back}}}"#,
            com_out(o),
            b.map_or("[]".into(), |b| ints(&b))
        ));
    };
    for len in [8, 16] {
        // all flags and counters, and all data lengths
        for st in 0..256usize {
            let n = r.n(len - 1);
            let mut o = com_value(n, 4, r);
            o.rx_buf_flush = st & 1 != 0;
            o.tx_buf_flush = st & 2 != 0;
            o.disable_tx_hw_buffer = st & 4 != 0;
            o.tx_cnt = st >> 3 & 3;
            o.rx_cnt_ack = st >> 5 & 3;
            o.reset = st & 128 != 0;
            pack_ev(len, &o, log);
        }
        for n in 0..=20 {
            pack_ev(len, &com_value(n, 4, r), log);
        }
        for c in 0..7 {
            for d in 0..7 {
                let mut o = com_value(3, 4, r);
                o.tx_cnt = c;
                o.rx_cnt_ack = d;
                pack_ev(len, &o, log);
            }
        }
        let mut o = com_value(3, 4, r);
        o.tx_cnt = 260;
        pack_ev(len, &o, log);
        o.tx_cnt = 1;
        o.rx_cnt_ack = 256;
        pack_ev(len, &o, log);
        pack_ev(len, &com_value(256, 4, r), log);
        pack_ev(len, &com_value(258, 4, r), log);
    }
}

// ------------------------------------------------------------ identification

pub const NAMES: [&str; 63] = [
    "UR20_4DI_P", "UR20_4DI_P_3W", "UR20_8DI_P_2W", "UR20_8DI_P_3W", "UR20_8DI_P_3W_HD", "UR20_16DI_P",
    "UR20_16DI_P_PLC_INT", "UR20_2DI_P_TS", "UR20_4DI_P_TS", "UR20_4DI_N", "UR20_8DI_N_3W", "UR20_16DI_N",
    "UR20_16DI_N_PLC_INT", "UR20_4DI_2W_230V_AC", "UR20_4DO_P", "UR20_4DO_P_2A", "UR20_4DO_PN_2A",
    "UR20_8DO_P", "UR20_8DO_P_2W_HD", "UR20_16DO_P", "UR20_16DO_P_PLC_INT", "UR20_4DO_N", "UR20_4DO_N_2A",
    "UR20_8DO_N", "UR20_16DO_N", "UR20_16DO_N_PLC_INT", "UR20_4RO_SSR_255", "UR20_4RO_CO_255",
    "UR20_2PWM_PN_0_5A", "UR20_2PWM_PN_2A", "UR20_4AI_UI_16", "UR20_4AI_UI_16_DIAG",
    "UR20_4AI_UI_DIF_16_DIAG", "UR20_4AI_UI_16_HD", "UR20_4AI_UI_16_DIAG_HD", "UR20_4AI_UI_12",
    "UR20_8AI_I_16_HD", "UR20_8AI_I_16_DIAG_HD", "UR20_8AI_I_PLC_INT", "UR20_4AI_R_HS_16_DIAG",
    "UR20_2AI_SG_24_DIAG", "UR20_3EM_230V_AC", "UR20_4AO_UI_16", "UR20_4AO_UI_16_M",
    "UR20_4AO_UI_16_DIAG", "UR20_4AO_UI_16_M_DIAG", "UR20_4AO_UI_16_HD", "UR20_4AO_UI_16_DIAG_HD",
    "UR20_1CNT_100_1DO", "UR20_2CNT_100", "UR20_1CNT_500", "UR20_2FCNT_100", "UR20_1SSI",
    "UR20_1COM_232_485_422", "UR20_1COM_SAI_PRO", "UR20_4COM_IO_LINK", "UR20_4AI_RTD_DIAG",
    "UR20_4AI_TC_DIAG", "UR20_PF_I", "UR20_PF_O", "UR20_PF_O_1DI_SIL", "UR20_PF_O_2DI_SIL",
    "UR20_PF_O_2DI_DELAY_SIL",
];
const CATS: [&str; 11] = ["DI", "DO", "AI", "AO", "CNT", "PWM", "RTD", "TC", "COM", "RO", "PF"];

fn respell(s: &str, dash: bool, r: &mut Rng) -> String {
    let style = r.n(4);
    s.chars()
        .map(|c| {
            let c = if c == '_' && dash && (style == 0 || r.p(50)) { '-' } else { c };
            match style {
                0 => c,
                1 => c.to_ascii_lowercase(),
                _ if r.p(50) => c.to_ascii_lowercase(),
                _ => c,
            }
        })
        .collect()
}
fn misspell(s: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.r(1, 2) {
        if c.is_empty() {
            break;
        }
        let k = r.n(c.len());
        match r.n(5) {
            0 => {
                c.remove(k);
            }
            1 => c.insert(k, *r.pick(&['_', 'A', '1', ' ', 'P', '-'])),
            2 => c[k] = *r.pick(&['A', 'I', 'O', '0', '2', '3', 'N', '_']),
            3 => c.truncate(k),
            _ => c.push(*r.pick(&['_', '2', ' ', 'H', 'D'])),
        }
    }
    c.into_iter().collect()
}

pub fn scan_ids(full: bool, log: &mut Log) {
    // all 2^32 identifications, or those whose low word is one that occurs
    // plus every low word of the high words that occur
    let threads = 8u32;
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            std::thread::spawn(move || {
                let mut found: Vec<(u32, String)> = vec![];
                let mut panics = false;
                let (lo, hi) = ((t * 0x2000) << 16, ((t * 0x2000 + 0x1FFF) << 16) | 0xFFFF);
                // a panic inside would end the scan of this part
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut id = lo;
                    loop {
                        let skip = !full && (id >> 16) > 0x1FFF && (id & 0xFFFF) > 0x10;
                        if !skip {
                            if let Ok(m) = ModuleType::try_from_u32(id) {
                                found.push((id, format!("{m:?}")));
                            }
                        }
                        if id == hi {
                            break;
                        }
                        id += 1;
                    }
                }));
                if r.is_err() {
                    panics = true;
                }
                (t, found, panics)
            })
        })
        .collect();
    for h in hs {
        let (t, found, panics) = h.join().unwrap();
        let f: Vec<_> =
            found.iter().map(|(i, n)| format!(r#"[{},{},"{n}"]"#, i >> 16, i & 0xFFFF)).collect();
        // more than a few dozen hits are wrong anyway
        let f = &f[..f.len().min(2000)];
        log.line(&format!(
            r#"{{"e":"ids","lo":{},"hi":{},"r":"{}","found":[{}]}}"#,
            t * 0x2000,
            t * 0x2000 + 0x1FFF,
            if panics { "panic" } else { "ok" },
            f.join(",")
        ));
    }
}

pub fn ident(n: usize, r: &mut Rng, log: &mut Log) {
    let esc = |s: &str| s.replace('\\', "").replace('"', "");
    let name_ev = |s: &str, log: &mut Log| {
        let s = esc(s);
        let res = guard(|| ModuleType::from_str(&s));
        let out = match res.1 {
            Some(m) => format!("{m:?}"),
            None if res.0 == "panic" => "panic".into(),
            None => String::new(),
        };
        log.line(&format!(r#"{{"e":"name","s":"{s}","r":"{out}","k":"{}"}}"#, res.0));
    };
    let cat_ev = |s: &str, log: &mut Log| {
        let s = esc(s);
        let res = guard(|| ModuleCategory::from_str(&s));
        let out = match res.1 {
            Some(m) => format!("{m:?}"),
            None if res.0 == "panic" => "panic".into(),
            None => String::new(),
        };
        log.line(&format!(r#"{{"e":"cat","s":"{s}","r":"{out}","k":"{}"}}"#, res.0));
    };
    for s in NAMES {
        name_ev(s, log);
        name_ev(&s.to_lowercase(), log);
        name_ev(&s.replace('_', "-"), log);
        name_ev(&s[5..], log);
        for _ in 0..n {
            name_ev(&respell(s, true, r), log);
            name_ev(&misspell(s, r), log);
        }
        if let Ok(t) = ModuleType::from_str(s) {
            let (res, ch) = guard(|| Ok((t.channel_count(), ModuleCategory::from(t.clone()))));
            let (c, k) = ch.map_or((-1, String::new()), |(c, k)| (c as i64, format!("{k:?}")));
            log.line(&format!(r#"{{"e":"type","t":"{t:?}","r":"{res}","cat":"{k}","ch":{c}}}"#));
        }
    }
    for s in CATS {
        cat_ev(s, log);
        cat_ev(&s.to_lowercase(), log);
        for _ in 0..n {
            cat_ev(&respell(s, false, r), log);
            cat_ev(&misspell(s, r), log);
        }
    }
    for s in ["", " ", "UR20", "-", "_", "DIO", "D", "CO"] {
        name_ev(s, log);
        cat_ev(s, log);
    }
    for t in supported() {
        for k in 0..4 {
            let mut b = valid_block(&t, r);
            if t == ModuleType::UR20_1COM_232_485_422 {
                b[0] = k % 2;
            }
            let Ok(m) = make(&t, &b) else { continue };
            mod_of(&m, "mod", &t, &format!(r#","b":{}"#, ints(&b)), log);
        }
    }
    lists(n * 60, r, log);
}

pub const IDS: [u32; 61] = [
    0x0009_1F84, 0x001B_1F84, 0x0013_1FC1, 0x000A_1FC1, 0x0003_1FC1, 0x0004_9FC2, 0x0005_9FC2, 0x0F01_4700,
    0x0F02_4700, 0x0001_1F84, 0x0002_1FC1, 0x000C_9FC2, 0x000D_9FC2, 0x0016_9F84, 0x0101_2FA0, 0x0105_2FA0,
    0x0115_2FC8, 0x0102_2FC8, 0x0119_2FC8, 0x0103_AFD0, 0x0104_AFD0, 0x010A_2FA0, 0x010B_2FA0, 0x010C_2FC8,
    0x010D_AFD0, 0x010E_AFD0, 0x0107_2FA0, 0x0106_2FA0, 0x0908_4880, 0x0909_4880, 0x0401_15C4, 0x0402_1544,
    0x041E_1544, 0x0413_15C4, 0x0414_1544, 0x0411_15C4, 0x0404_15C5, 0x0405_1545, 0x0409_15C5, 0x041C_1544,
    0x041B_356D, 0x0418_356D, 0x0502_25E0, 0x0506_25E0, 0x0501_2560, 0x0505_2560, 0x0504_25E0, 0x0503_2560,
    0x08C1_3800, 0x08C3_3800, 0x08C4_3801, 0x0881_28EE, 0x09C1_7880, 0x0E41_3FED, 0x0BC1_E800, 0x0E81_276D,
    0x0406_1544, 0x0407_1544, 0x1801_9F43, 0x1803_9F43, 0x1802_9F43,
];

/// Module lists in registers.
pub fn lists(n: usize, r: &mut Rng, log: &mut Log) {
    for k in 0..n {
        let len = match k % 8 {
            _ if k < 4 => k,
            0 => r.n(65),
            1 => 64,
            _ => r.n(12),
        };
        let mut w: Vec<u16> = vec![];
        for _ in 0..len {
            let id = *r.pick(&IDS);
            w.extend([(id >> 16) as u16, id as u16]);
        }
        match r.n(6) {
            0 => {
                w.pop();
            }
            1 => {
                // odd, with all sorts of last registers
                let last = match r.n(4) {
                    0 => 0,
                    1 => *r.pick(&[1, 0xFFFF, 0x8000, 0xFF, 0x100]),
                    2 => (*r.pick(&IDS) >> (16 * r.n(2))) as u16,
                    _ => r.word(),
                };
                if r.p(30) {
                    w.insert(0, last);
                } else {
                    w.push(last);
                }
            }
            5 if !w.is_empty() && r.p(30) => {
                // padded with zeros
                for _ in 0..r.r(1, 6) {
                    w.push(0);
                }
            }
            2 if !w.is_empty() => {
                let j = r.n(w.len());
                w[j] = if r.p(50) { r.word() } else { w[j] ^ (1 << r.n(16)) };
            }
            3 if w.len() >= 2 => w.swap(0, 1),
            4 if !w.is_empty() => {
                // words a bus may deliver for nothing at all, and exchanged halves
                let e = r.n(w.len() / 2);
                let (a, b) = (w[2 * e], w[2 * e + 1]);
                let s = [0, 1, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF];
                let (x, y) = match r.n(8) {
                    0 => (b, a),
                    1 => (a, a),
                    2 => (a, 0),
                    3 => (0, b),
                    4 => (a.swap_bytes(), b),
                    5 => (a, b.swap_bytes()),
                    _ => (*r.pick(&s), *r.pick(&s)),
                };
                w[2 * e] = x;
                w[2 * e + 1] = y;
                if r.p(30) {
                    // everywhere
                    for k in e..w.len() / 2 {
                        w[2 * k] = x;
                        w[2 * k + 1] = y;
                    }
                }
            }
            _ => {}
        }
        let (res, v) = guard(|| module_list_from_registers(&w));
        log.line(&format!(
            r#"{{"e":"list","w":{},"r":"{res}","v":{}}}"#,
            ints(&w),
            v.map_or("[]".into(), |v| names(&v))
        ));
    }
}

// ----------------------------------------------------------------- addresses

pub fn addresses(n: usize, r: &mut Rng, log: &mut Log) {
    let size = 4096u32;
    for b in 0..16 {
        let (mut reg, mut bit, mut back) = (vec![], vec![], vec![]);
        for a in b * size..(b + 1) * size {
            let (x, y) = to_register_address(a as u16);
            reg.push(i64::from(x));
            bit.push(y as i64);
            back.push(i64::from(to_bit_address(x, y)));
        }
        log.line(&format!(
            r#"{{"e":"split","lo":{},"reg":{},"bit":{},"back":{}}}"#,
            b * size,
            iints(&reg),
            iints(&bit),
            iints(&back)
        ));
    }
    for reg in 0..4096u16 {
        let a: Vec<u16> = (0..16).map(|k| to_bit_address(reg, k)).collect();
        let back: Vec<_> = a
            .iter()
            .map(|x| {
                let (p, q) = to_register_address(*x);
                format!("[{p},{q}]")
            })
            .collect();
        log.line(&format!(r#"{{"e":"merge","reg":{reg},"a":{},"back":[{}]}}"#, ints(&a), back.join(",")));
    }
    for k in 0..n {
        let len = match k % 4 {
            0 => *r.pick(&[126, 127, 128, 129, 130]),
            1 => r.n(130),
            _ => r.n(24),
        };
        let w: Vec<u16> = (0..len)
            .map(|_| match r.n(4) {
                0 => 0xFFFF,
                1 => *r.pick(&[0, 0xFFFE, 0x7FFF, 0x8000, 0xFFF0, 0xFF, 0xFF00]),
                _ => r.word(),
            })
            .collect();
        let (res, v) = guard(|| Ok(offsets_of_process_data(&w)));
        let v: Vec<_> = v
            .unwrap_or_default()
            .iter()
            .map(|o| format!("[{},{}]", o.output.map_or(-1, i64::from), o.input.map_or(-1, i64::from)))
            .collect();
        log.line(&format!(r#"{{"e":"offs","w":{},"r":"{res}","v":[{}]}}"#, ints(&w), v.join(",")));
    }
    let all = supported();
    for k in 0..n {
        let len = if k == 0 { 64 } else { r.n(65) };
        let m: Vec<ModuleType> = (0..len).map(|_| r.pick(&all).clone()).collect();
        let (res, v) = guard(|| Ok(param_addresses_and_register_counts(&m)));
        let v: Vec<_> = v.unwrap_or_default().iter().map(|(a, c)| format!("[{a},{c}]")).collect();
        log.line(&format!(r#"{{"e":"padr","mods":{},"r":"{res}","v":[{}]}}"#, names(&m), v.join(",")));
    }
    lists(n, r, log);
}

// -------------------------------------------------------------- construction

pub fn counts(log: &mut Log) {
    for t in supported() {
        let (res, n) = guard(|| Ok(t.param_register_count()));
        log.line(&format!(r#"{{"e":"pc","t":"{t:?}","r":"{res}","n":{}}}"#, n.unwrap_or(0)));
    }
}

/// Couplers from consistent and inconsistent configurations.
pub fn build(n: usize, r: &mut Rng, log: &mut Log) {
    let all = supported();
    // the announced number of registers is enough, one less is not
    for t in &all {
        let need = guard(|| Ok(t.param_register_count())).1.unwrap_or(0) as usize;
        for d in [-4i64, -3, -2, -1, 0, 1, 7, 30, 256 - need as i64, 257, 1000] {
            let want = need as i64 + d;
            if want < 0 {
                continue;
            }
            let mut b = valid_block(t, r);
            while b.len() < want as usize {
                b.push(0);
            }
            b.truncate(want as usize);
            for others in [0, 2] {
                let mut mods: Vec<ModuleType> = (0..others).map(|_| r.pick(&all).clone()).collect();
                let mut par: Vec<_> = mods.iter().map(|t| valid_block(t, r)).collect();
                let at = r.n(others + 1);
                mods.insert(at, t.clone());
                par.insert(at, b.clone());
                let offs = offsets_for(&mods, &par, r);
                new_event(&CouplerConfig { modules: mods, offsets: offs, params: par }, log, "");
            }
        }
    }
    for k in 0..n {
        let len = match k % 16 {
            0 => r.n(65),
            1 => 64,
            _ => r.n(9),
        };
        let mods: Vec<ModuleType> = (0..len).map(|_| r.pick(&all).clone()).collect();
        let mut par: Vec<_> = mods.iter().map(|t| valid_block(t, r)).collect();
        let mut offs = offsets_for(&mods, &par, r);
        if r.p(50) && len > 0 {
            let i = r.n(len);
            match r.n(7) {
                0 => {
                    par.pop();
                }
                1 => {
                    for _ in 0..if r.p(80) { 1 } else { r.r(2, 70) } {
                        par.push(vec![0; r.n(12)]);
                    }
                }
                2 => {
                    for _ in 0..r.r(1, 2 * len) {
                        offs.pop();
                    }
                }
                3 => {
                    // anything, or what stands for nothing
                    let unused = r.p(50);
                    for _ in 0..r.r(1, 3) {
                        offs.push(if unused { *r.pick(&[0xFFFF, 0xFFFF, 0]) } else { r.word() });
                    }
                }
                4 => {
                    let l = par[i].len();
                    par[i].truncate(r.n(l + 1));
                }
                5 => {
                    let ks = kinds(&mods[i]);
                    if !ks.is_empty() {
                        let j = r.n(ks.len());
                        if let Some(l) = limit(&ks[j]) {
                            par[i][j] = if r.p(50) { l } else { r.word() | l };
                        }
                    }
                }
                _ => {
                    // one more block and one less offset, ...
                    par.push(vec![]);
                    offs.pop();
                    if r.p(50) {
                        offs.pop();
                    }
                }
            }
        }
        new_event(&CouplerConfig { modules: mods, offsets: offs, params: par }, log, "");
    }
}
fn offsets_for(mods: &[ModuleType], par: &[Vec<u16>], r: &mut Rng) -> Vec<u16> {
    if r.p(80) {
        place(mods.to_vec(), par.to_vec(), 30, r).offs
    } else {
        (0..2 * mods.len()).map(|_| r.word()).collect()
    }
}
