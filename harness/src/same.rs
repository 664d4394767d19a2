//! C22: two couplers with the same history, told in different ways, among
//! other couplers.
use crate::modules::*;
use crate::rng::Rng;
use crate::session::*;
use crate::val::*;
use std::panic::{AssertUnwindSafe, catch_unwind};
use ur20::ur20_fbc_mod_tcp::*;
use ur20::*;

pub struct Same {
    cfg: Cfg,
    a: Coupler,
    b: Coupler,
    /// what b has not been told yet: outputs and bytes to write
    sets: Vec<(usize, usize, ChannelValue)>,
    wrs: Vec<(usize, Vec<u8>)>,
    /// bystanders: of another and of the same configuration
    cs: Vec<(Cfg, Coupler, Vec<u16>)>,
    r: Rng,
    threads: bool,
}

impl Same {
    fn new(cfg: &Cfg, r: Rng, log: &mut Log) -> Option<Self> {
        let mut r = r;
        let mut cs = vec![];
        for k in 0..r.n(3) {
            let c = if k == 0 { cfg.clone() } else { random_cfg(r.r(1, 6), &supported(), 30, &mut r) };
            let o = random_out(&c, &mut r);
            let x = new_coupler(&c.coupler_cfg()).0?;
            cs.push((c, x, o));
        }
        let a = new_event(&cfg.coupler_cfg(), log, "")?;
        let b = new_coupler(&cfg.coupler_cfg()).0?;
        let threads = r.p(30);
        Some(Same { cfg: cfg.clone(), a, b, sets: vec![], wrs: vec![], cs, r, threads })
    }
    /// The others do something.
    fn others(&mut self, near: &[u16]) {
        let r = &mut self.r;
        for (cfg, c, o) in &mut self.cs {
            if !r.p(60) {
                continue;
            }
            for m in 0..cfg.mods.len() {
                if cfg.nout(m) > 0 && r.p(30) {
                    let ch = r.n(cfg.mods[m].channel_count());
                    let v = good_value(cfg, m, r);
                    let _ = c.set_output(&Address { module: m, channel: ch }, v);
                }
                if cfg.is_com(m) && r.p(30) {
                    let bs = r.bytes(9);
                    let _ = c.writer(m).map(|w| write_some(w, &bs));
                    let _ = read_bytes(c, m, 5);
                }
            }
            let mut i = if cfg.offs == self.cfg.offs && near.len() >= cfg.in_words && r.p(50) { near.to_vec() } else { random_in(cfg, r) };
            if r.p(20) {
                spoil(cfg, &mut i, true, r);
            }
            if let Out::Ok(v) = cycle(c, &i, o) {
                if r.p(70) && v.len() == o.len() {
                    *o = v;
                }
            }
        }
    }
    /// b is told what a was told, in another order and with detours.
    fn tell(&mut self, log: &mut Log) {
        let (b, r) = (&mut self.b, &mut self.r);
        // the last value of every output is what counts
        let mut last: Vec<(usize, usize, ChannelValue)> = vec![];
        for s in self.sets.drain(..) {
            last.retain(|x| (x.0, x.1) != (s.0, s.1));
            last.push(s);
        }
        for k in (1..last.len()).rev() {
            last.swap(k, r.n(k + 1));
        }
        let set = |b: &mut Coupler, m: usize, c: usize, v: ChannelValue, log: &mut Log| {
            let t = js(&v);
            let res = catch_unwind(AssertUnwindSafe(|| b.set_output(&Address { module: m, channel: c }, v)));
            let tag = match res {
                Err(_) => "panic",
                Ok(Ok(())) => "ok",
                Ok(Err(_)) => "err",
            };
            log.line(&format!(r#"{{"e":"bset","m":{m},"c":{c},"v":{t},"r":"{tag}"}}"#));
        };
        for (m, c, v) in last {
            if r.p(20) {
                // (replaced before it counts)
                let x = if r.p(50) { any_value(r) } else { good_value(&self.cfg, m, r) };
                set(b, m, c, x, log);
            }
            if r.p(10) {
                set(b, m, c, v.clone(), log);
            }
            set(b, m, c, v, log);
        }
        // the order matters for every single module only
        while !self.wrs.is_empty() {
            let m = self.wrs[r.n(self.wrs.len())].0;
            let k = self.wrs.iter().position(|x| x.0 == m).unwrap();
            let (m, bs) = self.wrs.remove(k);
            if r.p(20) {
                let _ = catch_unwind(AssertUnwindSafe(|| b.writer(m).map(|w| w.write(&[]))));
            }
            let ok = matches!(
                catch_unwind(AssertUnwindSafe(|| b.writer(m).map(|w| write_some(w, &bs).is_ok()))),
                Ok(Some(true))
            );
            log.line(&format!(r#"{{"e":"bwr","m":{m},"y":{},"r":"{}"}}"#, ints(&bs), if ok { "ok" } else { "err" }));
            if r.p(20) {
                let _ = catch_unwind(AssertUnwindSafe(|| b.writer(m).map(|w| w.flush())));
            }
        }
        // looking does not change anything
        for _ in 0..r.n(3) {
            let _ = (b.inputs().len(), b.outputs().len());
            let m = r.n(self.cfg.mods.len() + 2);
            let _ = catch_unwind(AssertUnwindSafe(|| (b.writer(m).is_some(), b.reader(m).map(|x| x.read(&mut []).ok()))));
        }
    }
}

impl Runner for Same {
    fn start(cfg: &Cfg, log: &mut Log) -> Option<Self> {
        let seed = cfg.mods.len() as u64 * 131 + cfg.offs.iter().map(|x| *x as u64).sum::<u64>();
        Same::new(cfg, Rng::new(seed), log)
    }
    fn set(&mut self, m: usize, ch: usize, v: ChannelValue, log: &mut Log) {
        if set_event(&mut self.a, m, ch, v.clone(), log, "") {
            self.sets.push((m, ch, v));
        }
    }
    fn wr(&mut self, m: usize, bs: &[u8], log: &mut Log) {
        write_event(&mut self.a, m, bs, log);
        if !bs.is_empty() && self.cfg.is_com(m) {
            self.wrs.push((m, bs.to_vec()));
        }
    }
    fn rd(&mut self, m: usize, k: usize, log: &mut Log) {
        if self.r.p(30) {
            let z = read_bytes(&mut self.b, m, 0);
            log.line(&format!(r#"{{"e":"zero","n":{}}}"#, z.map_or(0, |z| z.0.len())));
        }
        if let (Some((y, ra)), Some((t, rb))) = (read_bytes(&mut self.a, m, k), read_bytes(&mut self.b, m, k)) {
            log.line(&format!(
                r#"{{"e":"rd","m":{m},"k":{k},"y":{},"tw":{},"r":"{ra}","rt":"{rb}"}}"#,
                ints(&y),
                ints(&t)
            ));
        }
    }
    fn cy(&mut self, i: &[u16], o: &[u16], log: &mut Log) -> Out {
        self.tell(log);
        if self.r.p(50) {
            self.others(i);
        }
        let mut rb = None;
        if self.r.p(50) {
            rb = Some(cycle(&mut self.b, i, o));
            self.others(i);
        }
        let ra = cycle(&mut self.a, i, o);
        let rb = match rb {
            Some(x) => x,
            None => {
                self.others(i);
                let b = &mut self.b;
                if self.threads {
                    std::thread::scope(|s| s.spawn(|| cycle(b, i, o)).join().unwrap_or(Out::Panic))
                } else {
                    cycle(b, i, o)
                }
            }
        };
        let show = |c: &Coupler, x: &Out| {
            let (iv, ov) = if matches!(x, Out::Panic) { ("[]".into(), "[]".into()) } else { values_of(c) };
            let img = match x {
                Out::Ok(v) => ints(v),
                _ => "[]".into(),
            };
            format!(r#"{{"r":"{}","o":{img},"iv":{iv},"ov":{ov}}}"#, x.tag())
        };
        log.line(&format!(
            r#"{{"e":"cy","in":{},"out":{},"a":{},"b":{}}}"#,
            ints(i),
            ints(o),
            show(&self.a, &ra),
            show(&self.b, &rb)
        ));
        ra
    }
}

pub fn same(sessions: usize, events: usize, mods: usize, r: &mut Rng, log: &mut Log) {
    let all = supported();
    let com = ModuleType::UR20_1COM_232_485_422;
    for _ in 0..sessions {
        let n = r.r(1, mods);
        let mut ms: Vec<ModuleType> = (0..n).map(|_| r.pick(&all).clone()).collect();
        for _ in 0..r.n(3) {
            ms.insert(r.n(ms.len() + 1), com.clone());
        }
        let par: Vec<_> = ms.iter().map(|t| valid_block(t, r)).collect();
        let cfg = place(ms, par, 30, r);
        let n = cfg.mods.len();
        let seed = r.u64();
        let Some(mut t) = Same::new(&cfg, Rng::new(seed), log) else { continue };
        let mut img = random_out(&cfg, r);
        let mut sent = random_in(&cfg, r);
        let calm = r.p(50);
        let rejects = *r.pick(&[0, 10, 40]);
        for _ in 0..events {
            match r.n(10) {
                0..=2 => {
                    let m = r.n(n);
                    if cfg.nout(m) == 0 {
                        continue;
                    }
                    let ch = r.n(cfg.mods[m].channel_count());
                    let v = if !cfg.is_com(m) && r.p(4) { any_value(r) } else { good_value(&cfg, m, r) };
                    t.set(m, ch, v, log);
                }
                3 => {
                    let m = r.n(n);
                    if cfg.is_com(m) {
                        let k = r.n(30);
                        let bs = r.bytes(k);
                        t.wr(m, &bs, log);
                    }
                }
                4 => {
                    let m = r.n(n);
                    if cfg.is_com(m) {
                        let k = *r.pick(&[0, 1, 3, 20]);
                        t.rd(m, k, log);
                    }
                }
                _ => {
                    if !calm || r.p(20) {
                        sent = random_in(&cfg, r);
                    } else if r.p(40) {
                        vary(&cfg, &mut sent, true, r);
                    }
                    if r.p(10) {
                        img = random_out(&cfg, r);
                    } else if r.p(10) {
                        vary(&cfg, &mut img, false, r);
                    }
                    let (mut i, mut o) = (sent.clone(), img.clone());
                    if r.p(rejects) {
                        match r.n(3) {
                            0 => spoil(&cfg, &mut i, true, r),
                            1 => spoil(&cfg, &mut o, false, r),
                            _ => spoil_preset(&cfg, &mut o, r),
                        }
                    }
                    match t.cy(&i, &o, log) {
                        Out::Ok(v) if v.len() == img.len() => img = v,
                        Out::Ok(_) | Out::Err(_) => {}
                        Out::Panic => break,
                    }
                }
            }
        }
    }
}
