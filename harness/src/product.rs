//! C05, C08: a coupler next to one coupler per module.
use crate::modules::*;
use crate::rng::Rng;
use crate::session::*;
use crate::val::*;
use ur20::ur20_fbc_mod_tcp::*;
use ur20::*;

fn words(bs: &[u8]) -> Vec<u16> {
    bs.chunks(2).map(|c| u16::from(c[0]) | (u16::from(*c.get(1).unwrap_or(&0)) << 8)).collect()
}

/// A coupler, and every one of its modules in a coupler of its own.
pub struct Product {
    cfg: Cfg,
    c: Coupler,
    lone: Vec<Coupler>,
}

impl Runner for Product {
    fn start(cfg: &Cfg, log: &mut Log) -> Option<Self> {
        let c = new_event(&cfg.coupler_cfg(), log, "")?;
        let mut lone: Vec<Coupler> = vec![];
        for i in 0..cfg.mods.len() {
            let off = |has: bool, at: u16| if has { at } else { NO };
            let one = CouplerConfig {
                modules: vec![cfg.mods[i].clone()],
                offsets: vec![off(cfg.nout(i) > 0, 0x8000), off(cfg.nin(i) > 0, 0)],
                params: vec![cfg.par[i].clone()],
            };
            lone.push(new_coupler(&one).0?);
        }
        Some(Product { cfg: cfg.clone(), c, lone })
    }
    fn set(&mut self, m: usize, ch: usize, v: ChannelValue, log: &mut Log) {
        if set_event(&mut self.c, m, ch, v.clone(), log, "") {
            let _ = self.lone[m].set_output(&Address { module: 0, channel: ch }, v);
        }
    }
    fn wr(&mut self, m: usize, bs: &[u8], log: &mut Log) {
        write_event(&mut self.c, m, bs, log);
        let _ = self.lone[m].writer(0).map(|w| crate::session::write_some(w, bs));
    }
    fn rd(&mut self, m: usize, k: usize, log: &mut Log) {
        if let (Some((y, ra)), Some((t, _))) = (read_bytes(&mut self.c, m, k), read_bytes(&mut self.lone[m], 0, k)) {
            log.line(&format!(
                r#"{{"e":"rd","m":{m},"k":{k},"y":{},"tw":{},"r":"{ra}"}}"#,
                ints(&y),
                ints(&t)
            ));
        }
    }
    fn cy(&mut self, inp: &[u16], out: &[u16], log: &mut Log) -> Out {
        let cfg = &self.cfg;
        let mut tw = vec![];
        for i in 0..cfg.mods.len() {
            let li = if cfg.nin(i) > 0 { words(&get(inp, cfg.ib(i), cfg.nin(i))) } else { vec![] };
            let lo = if cfg.nout(i) > 0 { words(&get(out, cfg.ob(i), cfg.nout(i))) } else { vec![] };
            let res = cycle(&mut self.lone[i], &li, &lo);
            let x = &self.lone[i];
            let (iv, ov) = match &res {
                Out::Ok(_) if x.inputs().len() == 1 && x.outputs().len() == 1 => {
                    (jvals(&x.inputs()[0]), jvals(&x.outputs()[0]))
                }
                _ => ("[]".into(), "[]".into()),
            };
            let img = match &res {
                Out::Ok(v) => ints(v),
                _ => "[]".into(),
            };
            tw.push(format!(
                r#"{{"in":{},"out":{},"r":"{}","o":{img},"iv":{iv},"ov":{ov}}}"#,
                ints(&li),
                ints(&lo),
                res.tag()
            ));
        }
        let extra = format!(r#","tw":[{}]"#, tw.join(","));
        cycle_event(&mut self.c, inp, out, log, &extra)
    }
}

/// `coms`: percentage of serial modules
pub fn product(sessions: usize, events: usize, max_mods: usize, coms: usize, r: &mut Rng, log: &mut Log) {
    let com = ModuleType::UR20_1COM_232_485_422;
    let all: Vec<_> = supported().into_iter().filter(|t| *t != com).collect();
    for _ in 0..sessions {
        let n = r.r(1, max_mods);
        let mods: Vec<ModuleType> =
            (0..n).map(|_| if r.p(coms) { com.clone() } else { r.pick(&all).clone() }).collect();
        let par: Vec<_> = mods.iter().map(|t| valid_block(t, r)).collect();
        let cfg = place(mods, par, 25, r);
        let Some(mut p) = Product::start(&cfg, log) else { continue };
        let mut last: Option<Vec<u16>> = None;
        let mut inp = random_in(&cfg, r);
        let mut steps = 0;
        let mut told: Option<Vec<u8>> = None;
        let mut prev: Option<Vec<u16>> = None;
        while steps < events {
            steps += 1;
            match r.n(10) {
                0..=2 => {
                    let m = r.n(n);
                    if cfg.mods[m].channel_count() == 0 || cfg.nout(m) == 0 {
                        continue;
                    }
                    let ch = r.n(cfg.mods[m].channel_count());
                    let v = good_value(&cfg, m, r);
                    p.set(m, ch, v, log);
                }
                3 => {
                    let m = r.n(n);
                    if cfg.is_com(m) {
                        let k = r.n(30);
                        let bs = match &told {
                            Some(b) if r.p(40) => b.clone(),
                            _ => r.bytes(k),
                        };
                        told = Some(bs.clone());
                        p.wr(m, &bs, log);
                    }
                }
                4 => {
                    let m = r.n(n);
                    let k = *r.pick(&[1, 3, 20]);
                    p.rd(m, k, log);
                }
                _ => {
                    if r.p(40) {
                        inp = random_in(&cfg, r);
                    } else if r.p(60) {
                        vary(&cfg, &mut inp, true, r);
                    }
                    let mut out = match (&last, r.p(60)) {
                        (Some(l), true) if l.len() >= cfg.out_words => l.clone(),
                        _ => random_out(&cfg, r),
                    };
                    if let Some(o) = &prev {
                        if r.p(25) {
                            out = o.clone();
                            vary(&cfg, &mut out, false, r);
                        }
                    }
                    prev = Some(out.clone());
                    match p.cy(&inp, &out, log) {
                        Out::Ok(v) => last = Some(v),
                        Out::Err(_) => {}
                        Out::Panic => break,
                    }
                }
            }
        }
    }
}
