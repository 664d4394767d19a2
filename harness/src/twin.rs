//! C09: a coupler and its twin that never sees the rejected cycles.
use crate::modules::*;
use crate::rng::Rng;
use crate::session::*;
use crate::val::*;
use ur20::ur20_fbc_mod_tcp::*;
use ur20::*;

/// Would the images be acceptable?  (The specification checks this answer.)
pub fn images_ok(c: &Cfg, i: &[u16], o: &[u16]) -> bool {
    (0..c.mods.len()).all(|m| {
        let one = |off: u16, at: usize, n: usize, img: &[u16]| {
            off == NO || (at + n <= 2 * img.len() && (!c.is_com(m) || get(img, at, 2)[1] as usize + 2 <= n))
        };
        let inp = c.offs[2 * m + 1] == NO || one(0, c.ib(m), c.nin(m), i);
        let out = c.offs[2 * m] == NO || one(0, c.ob(m), c.nout(m), o);
        inp && out
    })
}

fn tw_json(c: &Coupler, r: &Out) -> String {
    let (iv, ov) = values_of(c);
    let img = match r {
        Out::Ok(v) => ints(v),
        _ => "[]".into(),
    };
    format!(r#"{{"r":"{}","o":{img},"iv":{iv},"ov":{ov}}}"#, r.tag())
}

/// A coupler and its twin.
pub struct Twin {
    cfg: Cfg,
    a: Coupler,
    b: Coupler,
    /// writes the twin has not been given yet
    qb: Vec<(usize, usize, ChannelValue)>,
}

impl Runner for Twin {
    fn start(cfg: &Cfg, log: &mut Log) -> Option<Self> {
        let a = new_event(&cfg.coupler_cfg(), log, "")?;
        let b = new_coupler(&cfg.coupler_cfg()).0?;
        Some(Twin { cfg: cfg.clone(), a, b, qb: vec![] })
    }
    fn set(&mut self, m: usize, ch: usize, v: ChannelValue, log: &mut Log) {
        if set_event(&mut self.a, m, ch, v.clone(), log, "") {
            if self.cfg.is_com(m) {
                let _ = self.b.set_output(&Address { module: m, channel: ch }, v);
            } else {
                self.qb.push((m, ch, v));
            }
        }
    }
    fn wr(&mut self, m: usize, bs: &[u8], log: &mut Log) {
        write_event(&mut self.a, m, bs, log);
        let _ = self.b.writer(m).map(|w| crate::session::write_some(w, bs));
    }
    fn rd(&mut self, m: usize, k: usize, log: &mut Log) {
        if let (Some((y, ra)), Some((t, rb))) = (read_bytes(&mut self.a, m, k), read_bytes(&mut self.b, m, k)) {
            log.line(&format!(
                r#"{{"e":"rd","m":{m},"k":{k},"y":{},"tw":{},"r":"{ra}","rt":"{rb}"}}"#,
                ints(&y),
                ints(&t)
            ));
        }
    }
    fn cy(&mut self, i: &[u16], o: &[u16], log: &mut Log) -> Out {
        let cause = if images_ok(&self.cfg, i, o) { "value" } else { "image" };
        // the twin only gets the cycles a accepts
        let res = cycle(&mut self.a, i, o);
        let (iv, ov) = if matches!(res, Out::Panic) { ("[]".into(), "[]".into()) } else { values_of(&self.a) };
        let img = match &res {
            Out::Ok(v) => ints(v),
            _ => "[]".into(),
        };
        let extra = match &res {
            Out::Ok(_) => {
                for (m, ch, v) in self.qb.drain(..) {
                    let _ = self.b.set_output(&Address { module: m, channel: ch }, v);
                }
                let rb = cycle(&mut self.b, i, o);
                format!(r#""tw":{}"#, tw_json(&self.b, &rb))
            }
            _ => {
                if cause == "value" {
                    self.qb.clear();
                }
                format!(r#""cause":"{cause}""#)
            }
        };
        log.line(&format!(
            r#"{{"e":"cy","in":{},"out":{},"r":"{}","o":{img},"iv":{iv},"ov":{ov},{extra}}}"#,
            ints(i),
            ints(o),
            res.tag()
        ));
        res
    }
}

pub fn twin(sessions: usize, events: usize, r: &mut Rng, log: &mut Log) {
    let all = supported();
    let com = ModuleType::UR20_1COM_232_485_422;
    for _ in 0..sessions {
        let n = r.r(1, 5);
        let mut mods: Vec<ModuleType> = (0..n).map(|_| r.pick(&all).clone()).collect();
        if r.p(70) {
            mods.insert(r.n(n + 1), com.clone());
        }
        if r.p(60) {
            mods.insert(r.n(n + 1), ModuleType::UR20_2FCNT_100);
        }
        let par: Vec<_> = mods.iter().map(|t| valid_block(t, r)).collect();
        let cfg = place(mods, par, 30, r);
        let n = cfg.mods.len();
        let Some(mut t) = Twin::start(&cfg, log) else { continue };
        let mut last: Option<Vec<u16>> = None;
        let rejects = *r.pick(&[10, 30, 60]);
        let calm = r.p(50);
        let mut sent = random_in(&cfg, r);
        let mut prev: Option<Vec<u16>> = None;
        for _ in 0..events {
            match r.n(10) {
                0..=2 => {
                    let m = r.n(n);
                    if cfg.mods[m].channel_count() == 0 {
                        continue;
                    }
                    let ch = r.n(cfg.mods[m].channel_count());
                    let v = if !cfg.is_com(m) && r.p(15) { any_value(r) } else { good_value(&cfg, m, r) };
                    t.set(m, ch, v, log);
                }
                3 => {
                    let m = r.n(n);
                    if cfg.is_com(m) {
                        let k = r.n(30);
                        let bs = r.bytes(k);
                        t.wr(m, &bs, log);
                    }
                }
                4 => {
                    let m = r.n(n);
                    let k = *r.pick(&[1, 3, 20]);
                    t.rd(m, k, log);
                }
                _ => {
                    if !calm || r.p(50) {
                        sent = random_in(&cfg, r);
                    } else if r.p(30) {
                        vary(&cfg, &mut sent, true, r);
                    }
                    let mut i = sent.clone();
                    let mut o = match (&last, r.p(60)) {
                        (Some(l), true) => l.clone(),
                        _ => random_out(&cfg, r),
                    };
                    if let Some(p) = &prev {
                        if r.p(15) {
                            o = p.clone();
                            vary(&cfg, &mut o, false, r);
                        }
                    }
                    prev = Some(o.clone());
                    if r.p(rejects) {
                        match r.n(6) {
                            0 | 1 => spoil(&cfg, &mut i, true, r),
                            2 | 3 => spoil(&cfg, &mut o, false, r),
                            4 => spoil_preset(&cfg, &mut o, r),
                            _ => {
                                // a pending value that does not fit
                                let outs: Vec<_> = (0..n).filter(|m| !cfg.is_com(*m) && cfg.nout(*m) > 0).collect();
                                if !outs.is_empty() {
                                    let m = *r.pick(&outs);
                                    let ch = r.n(cfg.mods[m].channel_count());
                                    t.set(m, ch, ChannelValue::Bytes(vec![1, 2]), log);
                                }
                            }
                        }
                    }
                    match t.cy(&i, &o, log) {
                        Out::Ok(v) => last = Some(v),
                        Out::Err(_) => {}
                        Out::Panic => break,
                    }
                }
            }
        }
    }
}
