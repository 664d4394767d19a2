//! Serial links: the real coupler against simulated, protocol-conforming
//! serial modules.  Every step of a module is recorded; spec/TraceLink.tla
//! checks that it is one a module may take.
use crate::modules::*;
use crate::rng::Rng;
use crate::session::*;
use crate::val::*;
use ur20::*;

struct Dev {
    m: usize,
    len: usize,
    ack: u8,
    held: bool,
    rx: u8,
    /// a telegram was presented under this receive counter
    used: bool,
    av: bool,
    /// appeared under a counter shown before: acknowledged only after a cycle
    hold: bool,
    d: Vec<u8>,
    /// running number, so that every presented telegram starts differently
    seq: u8,
    // behaviour in percent per cycle
    take: usize,
    acks: usize,
    pres: usize,
    wd: usize,
    skip: usize,
    show: usize,
    /// percent of telegrams that repeat the previous one
    same: usize,
    /// start-up is over / something was presented since
    started: bool,
    told: bool,
    noisy: bool,
    /// takes nothing over for now
    asleep: bool,
    /// bytes written and not taken over yet
    owed: usize,
}

impl Dev {
    fn img(&self, c: &Cfg, o: &[u16]) -> (u8, usize, Vec<u8>) {
        let b = get(o, c.ob(self.m), self.len);
        (b[0], b[1] as usize, b)
    }
    fn telegram(&self, r: &mut Rng) -> Vec<u8> {
        let mut st = u8::from(self.av) | (self.rx << 3) | (self.ack << 5) | 0x80;
        if self.noisy {
            st = (st & !0x82) | (r.byte() & 0x82);
        }
        if self.noisy && r.p(20) {
            st |= 4; // reserved bit
        }
        let mut d = self.d.clone();
        if !self.av && self.noisy {
            let n = r.n(self.len - 1);
            d = r.bytes(n);
        }
        let mut b = vec![st, d.len() as u8];
        b.extend(&d);
        while b.len() < self.len {
            b.push(if self.noisy { r.byte() } else { 0 });
        }
        b
    }
    fn present(&mut self, step: u8, r: &mut Rng) -> Vec<u8> {
        let n = match r.n(6) {
            0 => 0,
            1 => self.len - 2,
            2 => 1,
            _ => r.n(self.len - 1),
        };
        let mut d = if r.p(20) { r.bytes(n) } else { vec![] };
        for k in 0..n {
            self.seq = self.seq.wrapping_add(1);
            if k == 0 {
                d.clear();
            }
            d.push(self.seq);
        }
        if n > 1 && r.p(20) {
            for x in d.iter_mut().skip(1) {
                *x = r.byte();
            }
        }
        // telegrams that look like the one before
        if self.told && r.p(self.same) {
            d = self.d.clone();
        }
        // (the first one after start-up must differ from the one standing before)
        self.told |= self.started && !d.is_empty();
        self.rx = (self.rx + step) % 4;
        self.used = true;
        self.av = true;
        self.hold = step == 0;
        self.d = d.clone();
        d
    }
}

pub struct LinkOpts {
    pub sessions: usize,
    pub cycles: usize,
    pub coms: usize,
    pub others: usize,
    pub rejects: usize,
    /// start-up behaviour is the subject: many short sessions
    pub start: bool,
    /// all writes are byte-string outputs
    pub setonly: bool,
    /// some writes are long (up to this many bytes)
    pub big: usize,
    /// nothing is read, or nothing acknowledged, for most of a session
    pub lazy: bool,
    /// long runs of cycles in which nothing happens
    pub idle: usize,
}

/// Device steps of one round. `prompt`: everything the module can do.
fn device(d: &mut Dev, cfg: &Cfg, o: &[u16], prompt: bool, present: bool, r: &mut Rng, log: &mut Log) {
    let (st, _, _) = d.img(cfg, o);
    let tx = (st >> 3) & 3;
    let ra = (st >> 5) & 3;
    let m = d.m;
    for _ in 0..2 {
        if d.asleep && !prompt {
            break;
        }
        if !d.held && tx == (d.ack + 1) % 4 && (prompt || r.p(d.take)) {
            d.held = true;
            d.owed = d.owed.saturating_sub(d.img(cfg, o).1);
            log.line(&format!(r#"{{"e":"take","m":{m}}}"#));
        }
        if d.held && (prompt || r.p(d.acks)) {
            d.held = false;
            d.ack = (d.ack + 1) % 4;
            log.line(&format!(r#"{{"e":"ack","m":{m}}}"#));
        }
        if r.p(60) {
            break;
        }
    }
    if present && !d.av && !d.used && r.p(d.show) {
        let b = d.present(0, r);
        log.line(&format!(r#"{{"e":"show","m":{m},"d":{}}}"#, ints(&b)));
    } else if ra == d.rx && !d.hold {
        if present && r.p(d.pres) {
            let b = d.present(1, r);
            log.line(&format!(r#"{{"e":"pres","m":{m},"d":{}}}"#, ints(&b)));
        } else if d.av && (prompt || r.p(d.wd)) {
            d.av = false;
            log.line(&format!(r#"{{"e":"wd","m":{m}}}"#));
        } else if !d.av && d.used && !prompt && r.p(d.skip) {
            d.used = false;
            d.rx = (d.rx + 1) % 4;
            log.line(&format!(r#"{{"e":"skip","m":{m}}}"#));
        }
    }
}

pub fn link(o: &LinkOpts, r: &mut Rng, log: &mut Log) {
    let pool: Vec<_> = supported()
        .into_iter()
        .filter(|t| *t != ModuleType::UR20_1COM_232_485_422)
        .collect();
    for _ in 0..o.sessions {
        session(o, &pool, r, log);
    }
}

fn session(o: &LinkOpts, pool: &[ModuleType], r: &mut Rng, log: &mut Log) {
    let coms = r.r(1, o.coms);
    let others = r.n(o.others + 1);
    let mut mods: Vec<ModuleType> = (0..others).map(|_| r.pick(pool).clone()).collect();
    if o.rejects > 0 && mods.is_empty() {
        mods.push(ModuleType::UR20_4DO_P);
    }
    for _ in 0..coms {
        let at = r.n(mods.len() + 1);
        mods.insert(at, ModuleType::UR20_1COM_232_485_422);
    }
    let par: Vec<_> = mods.iter().map(|t| valid_block(t, r)).collect();
    let cfg = place(mods, par, 30, r);
    let mut devs: Vec<Dev> = (0..cfg.mods.len())
        .filter(|i| cfg.is_com(*i))
        .map(|m| {
            let len = cfg.nout(m);
            let rate = |r: &mut Rng| *r.pick(&[3, 20, 50, 90, 100]);
            let fresh = r.p(30);
            let n = if fresh || r.p(50) { 0 } else { r.n(len - 1) };
            let seq = r.byte();
            let d: Vec<u8> = (0..n).map(|k| seq.wrapping_add(k as u8)).collect();
            let av = !fresh && r.p(50);
            Dev {
                m,
                len,
                ack: if fresh { 0 } else { r.n(4) as u8 },
                held: false,
                rx: if fresh { 0 } else { r.n(4) as u8 },
                used: av || r.p(50),
                av,
                d,
                seq: seq.wrapping_add(40),
                take: rate(r),
                acks: rate(r),
                pres: *r.pick(&[0, 10, 50, 100]),
                wd: rate(r),
                skip: *r.pick(&[0, 10, 50]),
                show: *r.pick(&[0, 10, 50]),
                hold: false,
                same: *r.pick(&[0, 0, 0, 10, 60]),
                started: false,
                told: false,
                noisy: r.p(40),
                asleep: false, owed: 0,

            }
        })
        .collect();
    // the output image found at start
    let mut img = random_out(&cfg, r);
    img.truncate(cfg.out_words);
    for d in &devs {
        let clean = r.p(30);
        // usually a counter the host left there, sometimes one of something else
        let lag = if r.p(20) { 4 } else { 2 };
        let tx = if clean { d.ack } else { (d.ack + r.n(lag) as u8) % 4 };
        let n = if clean || r.p(40) { 0 } else { r.n(d.len - 1) };
        let mut b = vec![if clean { tx << 3 } else { (r.byte() & !0x18) | (tx << 3) }, n as u8];
        b.extend(r.bytes(d.len - 2));
        put(&mut img, cfg.ob(d.m), &b);
    }
    let dl: Vec<_> = devs
        .iter()
        .map(|d| {
            format!(
                r#"{{"m":{},"len":{},"ack":{},"rx":{},"used":{},"av":{},"d":{},"img":{}}}"#,
                d.m,
                d.len,
                d.ack,
                d.rx,
                d.used,
                d.av,
                ints(&d.d),
                ints(&get(&img, cfg.ob(d.m), d.len))
            )
        })
        .collect();
    let extra = format!(r#","dev":[{}]"#, dl.join(","));
    let Some(mut c) = new_event(&cfg.coupler_cfg(), log, &extra) else { return };

    let mut counter: Vec<u8> = (0..devs.len()).map(|_| r.byte()).collect();
    let mut pending_set = vec![false; devs.len()];
    let cycles = if o.start { r.r(3, 8) } else { r.r(o.cycles / 2, o.cycles) };
    let write_rate = *r.pick(&[5, 20, 50]);
    let read_rate = *r.pick(&[5, 40, 80]);
    let content = *r.pick(&[0, 0, 0, 0, 0, 1, 2, 3, 4]);
    let flags = if r.p(25) { 10 } else { 0 };
    let mut last: Vec<Vec<u8>> = vec![vec![]; devs.len()];
    let deaf = o.lazy && r.p(50);
    if o.lazy && (!deaf || r.p(30)) {
        devs.iter_mut().for_each(|d| d.asleep = true);
    }
    let mut accepted = 0;
    let mut idle = 0;
    let mut round = 0;
    while round < cycles || (round < cycles + 4000 && (idle < 10 || accepted < 12)) {
        let drain = round >= cycles;
        round += 1;
        // application
        if !drain {
            for k in 0..devs.len() {
                for _ in 0..2 {
                    if !r.p(write_rate) || devs[k].owed > 2500 + 4 * o.big {
                        break;
                    }
                    let n = match r.n(8) {
                        _ if o.big > 0 && r.p(4) => {
                            let cap = devs[k].len - 2;
                            // every remainder, just around multiples of the capacity
                            let near = cap * r.r(1, (o.big / cap).max(1)) + r.n(3) - 1;
                            let n = r.r(1, o.big);
                            (*r.pick(&[64, 100, 128, 255, 256, 257, 300, 1000, 1024, 4096, n, n, n, near, near, near, near]))
                                .min(o.big)
                        }
                        0 => 0,
                        1 => 1,
                        2 => devs[k].len - 2,
                        3 => devs[k].len - 1,
                        4 => r.r(1, 45),
                        _ => r.r(1, devs[k].len),
                    };
                    let fixed = r.byte();
                    
                    let mut bs: Vec<u8> = (0..n)
                        .map(|_| {
                            counter[k] = counter[k].wrapping_add(1);
                            match content {
                                0 => counter[k],
                                1 => r.byte(),
                                2 => r.n(2) as u8,
                                _ => fixed,
                            }
                        })
                        .collect();
                    if content > 0 && r.p(30) {
                        // the same again
                        bs = last[k].clone();
                    } else if content > 0 && r.p(20) {
                        // what stands in the image
                        let b = get(&img, cfg.ob(devs[k].m), devs[k].len);
                        bs = b[2..(2 + b[1] as usize).min(b.len())].to_vec();
                    }
                    last[k] = bs.clone();
                    devs[k].owed += n;
                    if o.setonly || pending_set[k] || r.p(30) {
                        // a byte string set as output takes effect with the next cycle
                        if !o.setonly && pending_set[k] && r.p(70) {
                            continue;
                        }
                        set_event(&mut c, devs[k].m, 0, ChannelValue::Bytes(bs), log, "");
                        pending_set[k] = true;
                    } else {
                        write_event(&mut c, devs[k].m, &bs, log);
                    }
                }
            }
        }
        for k in 0..devs.len() {
            if drain || (!deaf && r.p(read_rate)) {
                let n = if drain { 64 } else { *r.pick(&[0, 1, 2, 5, 6, 7, 14, 15, 100]) };
                read(&mut c, devs[k].m, n, log, drain, &mut idle);
            }
        }
        // modules
        for d in devs.iter_mut() {
            let l = log.lines;
            d.started = accepted >= 3;
            device(d, &cfg, &img, drain, !drain, r, log);
            if log.lines > l {
                idle = 0;
            }
        }
        // another client of the coupler
        for d in &devs {
            if accepted >= 2 && !drain && r.p(flags) {
                let mut b = get(&img, cfg.ob(d.m), 1);
                b[0] ^= if r.p(50) { 4 } else { 0x80 };
                put(&mut img, cfg.ob(d.m), &b);
                log.line(&format!(r#"{{"e":"fl","m":{},"hw":{},"rst":{}}}"#, d.m, b[0] & 4 != 0, b[0] & 0x80 != 0));
            }
        }
        // cycle
        let mut inp = random_in(&cfg, r);
        let tel: Vec<_> = devs.iter().map(|d| d.telegram(r)).collect();
        for (d, t) in devs.iter().zip(&tel) {
            put(&mut inp, cfg.ib(d.m), t);
        }
        let spoilt = !drain && r.p(o.rejects);
        let (mut bi, mut bo) = (inp.clone(), img.clone());
        if spoilt {
            match r.n(3) {
                0 => spoil(&cfg, &mut bi, true, r),
                1 => spoil(&cfg, &mut bo, false, r),
                _ => {
                    // a value that does not fit its channel
                    let outs: Vec<_> = (0..cfg.mods.len())
                        .filter(|i| !cfg.is_com(*i) && cfg.nout(*i) > 0)
                        .collect();
                    if outs.is_empty() {
                        spoil(&cfg, &mut bo, false, r);
                    } else {
                        let m = *r.pick(&outs);
                        let _ = c.set_output(&Address { module: m, channel: 0 }, ChannelValue::Bytes(vec![1]));
                    }
                }
            }
        }
        let res = cycle(&mut c, &bi, &bo);
        // nothing may change as long as the modules do nothing
        let mut dull = 0;
        let mut res = res;
        if !drain && !spoilt && accepted > 3 && o.idle > 0 && r.p(3) && !o.start {
            let n = if r.p(10) { o.idle } else { r.r(1, 300.min(o.idle)) };
            if let Out::Ok(v) = &res {
                log_cycle(&devs, &tel, &cfg, &img, v, log);
                devs.iter_mut().for_each(|d| d.hold = false);
                img = v.clone();
                pending_set.iter_mut().for_each(|p| *p = false);
                loop {
                    res = cycle(&mut c, &bi, &img);
                    dull += 1;
                    if dull >= n || !matches!(&res, Out::Ok(w) if *w == img) {
                        break;
                    }
                }
                log.line(&format!(r#"{{"e":"idle","n":{}}}"#, dull - 1));
            }
        }
        match res {
            Out::Ok(v) => {
                if spoilt {
                    return; // accepted what it must not accept: another property's subject
                }
                log_cycle(&devs, &tel, &cfg, &img, &v, log);
                devs.iter_mut().for_each(|d| d.hold = false);
                accepted += 1;
                pending_set.iter_mut().for_each(|p| *p = false);
                if v != img || !drain {
                    idle = 0;
                } else {
                    idle += 1;
                }
                if v.len() < cfg.out_words {
                    return;
                }
                img = v;
            }
            other => {
                log.line(&format!(
                    r#"{{"e":"cy","r":"{}","spoilt":{spoilt},"c":[]}}"#,
                    other.tag()
                ));
                if !spoilt {
                    return;
                }
            }
        }
    }
    log.line(r#"{"e":"end"}"#);
}

fn log_cycle(devs: &[Dev], tel: &[Vec<u8>], cfg: &Cfg, img: &[u16], v: &[u16], log: &mut Log) {
    let parts: Vec<_> = devs
        .iter()
        .zip(tel)
        .map(|(d, t)| {
            format!(
                r#"{{"m":{},"i":{},"o":{},"n":{}}}"#,
                d.m,
                ints(t),
                ints(&get(img, cfg.ob(d.m), d.len)),
                ints(&get(v, cfg.ob(d.m), d.len))
            )
        })
        .collect();
    log.line(&format!(r#"{{"e":"cy","r":"ok","spoilt":false,"c":[{}]}}"#, parts.join(",")));
}

fn read(c: &mut ur20::ur20_fbc_mod_tcp::Coupler, m: usize, n: usize, log: &mut Log, quiet: bool, idle: &mut usize) {
    if let Some((y, r)) = read_bytes(c, m, n) {
        if !y.is_empty() {
            *idle = 0;
        }
        if quiet && y.is_empty() && r == "ok" && *idle > 1 {
            return;
        }
        log.line(&format!(r#"{{"e":"rd","m":{m},"k":{n},"y":{},"r":"{r}"}}"#, ints(&y)));
    }
}

/// Replays behaviours of spec/GenLink.tla: one JSON array per line.
pub fn sched(text: &str, r: &mut Rng, log: &mut Log) {
    let pool: Vec<_> = supported()
        .into_iter()
        .filter(|t| *t != ModuleType::UR20_1COM_232_485_422)
        .collect();
    for line in text.lines() {
        let v: serde_json::Value = serde_json::from_str(line).expect("behaviour");
        behaviour(v.as_array().expect("array"), &pool, r, log);
    }
}

fn behaviour(steps: &[serde_json::Value], pool: &[ModuleType], r: &mut Rng, log: &mut Log) {
    let num = |v: &serde_json::Value, k: &str| v[k].as_u64().expect("number") as usize;
    let com = ModuleType::UR20_1COM_232_485_422;
    let first = &steps[0];
    let len = num(first, "cap") + 2;
    let mut mods = vec![com.clone()];
    for _ in 0..r.n(3) {
        let at = r.n(mods.len() + 1);
        mods.insert(at, r.pick(pool).clone());
    }
    let mut cfg;
    loop {
        let par: Vec<_> = mods.iter().map(|t| valid_block(t, r)).collect();
        cfg = place(mods.clone(), par, 30, r);
        if (0..mods.len()).all(|i| !cfg.is_com(i) || cfg.nout(i) == len) {
            break;
        }
    }
    let m = mods.iter().position(|t| *t == com).unwrap();
    let mut d = Dev {
        m,
        len,
        ack: num(first, "ack") as u8,
        held: false,
        rx: num(first, "rx") as u8,
        used: first["used"].as_bool().unwrap(),
        av: first["av"].as_bool().unwrap(),
        d: if first["av"].as_bool().unwrap() { vec![200] } else { vec![] },
        seq: 0,
        take: 100,
        acks: 100,
        pres: 100,
        wd: 100,
        skip: 0,
        show: 0,
        hold: false,
        same: 0,
        started: false,
        told: false,
        noisy: r.p(30),
        asleep: false, owed: 0,
    };
    let mut img = random_out(&cfg, r);
    img.truncate(cfg.out_words);
    let st = u8::from(first["rf"].as_bool().unwrap())
        | ((num(first, "tx") as u8) << 3)
        | (d.rx << 5)
        | (u8::from(first["rst"].as_bool().unwrap()) << 7);
    let mut b = vec![st, num(first, "n") as u8];
    b.extend(r.bytes(len - 2));
    put(&mut img, cfg.ob(m), &b);
    let extra = format!(
        r#","dev":[{{"m":{m},"len":{len},"ack":{},"rx":{},"used":{},"av":{},"d":{},"img":{}}}]"#,
        d.ack,
        d.rx,
        d.used,
        d.av,
        ints(&d.d),
        ints(&b)
    );
    let Some(mut c) = new_event(&cfg.coupler_cfg(), log, &extra) else { return };
    let mut counter = 0u8;
    let mut set_waits = false;
    let mut accepted = 0;
    let mut idle = 0;
    let bytes = |n: usize, counter: &mut u8| -> Vec<u8> {
        (0..n)
            .map(|_| {
                *counter = counter.wrapping_add(1);
                *counter
            })
            .collect()
    };
    let strings = r.p(30);
    let end = [serde_json::json!({"e": "cy"})];
    let mut tail = 0;
    let mut at = 1;
    loop {
        let drain = at >= steps.len();
        if drain {
            tail += 1;
            if tail > 4000 || (idle >= 10 && accepted >= 12) {
                break;
            }
            device(&mut d, &cfg, &img, true, false, r, log);
            read(&mut c, m, 64, log, true, &mut idle);
        }
        let step = if drain { &end[0] } else { &steps[at] };
        at += 1;
        let (ib, _, _) = d.img(&cfg, &img);
        let (tx, ra) = ((ib >> 3) & 3, (ib >> 5) & 3);
        match step["e"].as_str().unwrap() {
            "wr" => {
                let y = bytes(num(step, "n"), &mut counter);
                if strings && !set_waits {
                    set_event(&mut c, m, 0, ChannelValue::Bytes(y), log, "");
                    set_waits = true;
                } else {
                    write_event(&mut c, m, &y, log);
                }
            }
            "rd" => read(&mut c, m, num(step, "n"), log, false, &mut idle),
            "take" if !d.held && tx == (d.ack + 1) % 4 => {
                d.held = true;
                log.line(&format!(r#"{{"e":"take","m":{m}}}"#));
            }
            "ack" if d.held => {
                d.held = false;
                d.ack = (d.ack + 1) % 4;
                log.line(&format!(r#"{{"e":"ack","m":{m}}}"#));
            }
            "wd" if d.av && !d.hold && ra == d.rx => {
                d.av = false;
                log.line(&format!(r#"{{"e":"wd","m":{m}}}"#));
            }
            "skip" if !d.av && d.used && ra == d.rx => {
                d.used = false;
                d.rx = (d.rx + 1) % 4;
                log.line(&format!(r#"{{"e":"skip","m":{m}}}"#));
            }
            "show" if !d.av && !d.used => {
                d.d = bytes(num(step, "n"), &mut d.seq);
                d.used = true;
                d.av = true;
                d.hold = true;
                log.line(&format!(r#"{{"e":"show","m":{m},"d":{}}}"#, ints(&d.d)));
            }
            "pres" if ra == d.rx && !d.hold => {
                d.d = bytes(num(step, "n"), &mut d.seq);
                d.rx = (d.rx + 1) % 4;
                d.used = true;
                d.av = true;
                log.line(&format!(r#"{{"e":"pres","m":{m},"d":{}}}"#, ints(&d.d)));
            }
            "fl" if accepted >= 2 => {
                let mut b = get(&img, cfg.ob(m), 1);
                b[0] ^= if step["b"] == "hw" { 4 } else { 0x80 };
                put(&mut img, cfg.ob(m), &b);
                log.line(&format!(r#"{{"e":"fl","m":{m},"hw":{},"rst":{}}}"#, b[0] & 4 != 0, b[0] & 0x80 != 0));
            }
            k @ ("cy" | "rej") => {
                let spoilt = k == "rej";
                let mut inp = random_in(&cfg, r);
                let tel = vec![d.telegram(r)];
                put(&mut inp, cfg.ib(m), &tel[0]);
                let (mut bi, mut bo) = (inp, img.clone());
                if spoilt && r.p(50) {
                    spoil(&cfg, &mut bi, true, r);
                } else if spoilt {
                    spoil(&cfg, &mut bo, false, r);
                }
                match cycle(&mut c, &bi, &bo) {
                    Out::Ok(v) => {
                        if spoilt {
                            return;
                        }
                        log_cycle(std::slice::from_ref(&d), &tel, &cfg, &img, &v, log);
                        d.hold = false;
                        accepted += 1;
                        set_waits = false;
                        idle = if v != img || !drain { 0 } else { idle + 1 };
                        if v.len() < cfg.out_words {
                            return;
                        }
                        img = v;
                    }
                    other => {
                        log.line(&format!(r#"{{"e":"cy","r":"{}","spoilt":{spoilt},"c":[]}}"#, other.tag()));
                        if !spoilt {
                            return;
                        }
                    }
                }
            }
            _ => {}
        }
    }
    log.line(r#"{"e":"end"}"#);
}
