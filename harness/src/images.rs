//! The stateless image functions: lists of modules, each behind its own bytes.
use crate::modules::*;
use crate::rng::Rng;
use crate::session::*;
use crate::tables::{guard, row_value};
use crate::val::*;
use ur20::ur20_fbc_mod_tcp::*;
use ur20::*;

fn offset(w: u16) -> Option<u16> {
    if w == NO { None } else { Some(w) }
}

struct List {
    c: Cfg,
    ms: Vec<Made>,
    offs: Vec<ModuleOffset>,
}
impl List {
    fn new(c: Cfg) -> Option<List> {
        let mut ms = vec![];
        for (t, b) in c.mods.iter().zip(&c.par) {
            ms.push(guard(|| make(t, b)).1?);
        }
        let offs = (0..ms.len())
            .map(|i| ModuleOffset { output: offset(c.offs[2 * i]), input: offset(c.offs[2 * i + 1]) })
            .collect();
        Some(List { c, ms, offs })
    }
    fn infos(&self) -> Vec<(&dyn ProcessModbusTcpData, &ModuleOffset)> {
        self.ms.iter().zip(&self.offs).map(|(m, o)| (&*m.m, o)).collect()
    }
    fn head(&self, e: &str) -> String {
        let par: Vec<_> = self.c.par.iter().map(|p| ints(p)).collect();
        format!(
            r#""e":"{e}","mods":{},"offs":{},"par":[{}]"#,
            names(&self.c.mods),
            ints(&self.c.offs),
            par.join(",")
        )
    }
    fn decode(&self, input: bool, img: &[u16], log: &mut Log) {
        let infos = self.infos();
        let (r, v) =
            guard(|| if input { process_input_data(&infos, img) } else { process_output_data(&infos, img) });
        log.line(&format!(
            r#"{{{},"img":{},"r":"{r}","v":{}}}"#,
            self.head(if input { "fin" } else { "fout" }),
            ints(img),
            v.map_or("[]".into(), |v| jvv(&v))
        ));
    }
    fn encode(&self, vs: &[Vec<ChannelValue>], log: &mut Log) -> Option<Vec<u16>> {
        let infos = self.infos();
        let (r, o) = guard(|| process_output_values(&infos, vs));
        log.line(&format!(
            r#"{{{},"vs":{},"r":"{r}","o":{}}}"#,
            self.head("fval"),
            jvv(vs),
            o.as_ref().map_or("[]".into(), |o| ints(o))
        ));
        o
    }
    fn trip(&self, img: &[u16], log: &mut Log) {
        let infos = self.infos();
        let (r, o) = guard(|| process_output_values(&infos, &process_output_data(&infos, img)?));
        log.line(&format!(
            r#"{{{},"img":{},"r":"{r}","o":{}}}"#,
            self.head("ftrip"),
            ints(img),
            o.map_or("[]".into(), |o| ints(&o))
        ));
    }
}

/// Some of the modules, in another order.
fn select(c: &Cfg, r: &mut Rng) -> Cfg {
    let mut left: Vec<usize> = (0..c.mods.len()).collect();
    let k = if r.p(20) { left.len() } else { r.n(left.len() + 1) };
    let mut d = Cfg { mods: vec![], offs: vec![], par: vec![], ..*c };
    for _ in 0..k {
        let i = if r.p(10) { *r.pick(&left) } else { left.swap_remove(r.n(left.len())) };
        d.mods.push(c.mods[i].clone());
        d.par.push(c.par[i].clone());
        d.offs.extend(&c.offs[2 * i..2 * i + 2]);
        if left.is_empty() {
            break;
        }
    }
    d
}
/// One thing about the images or the offsets is wrong.
fn spoil(c: &mut Cfg, img: &mut Vec<u16>, input: bool, r: &mut Rng) {
    let side = usize::from(input);
    let with: Vec<usize> = (0..c.mods.len()).filter(|i| c.offs[2 * i + side] != NO).collect();
    if with.is_empty() {
        return;
    }
    let i = *r.pick(&with);
    let com = c.is_com(i);
    let (p, n) = if !com { (0, 0) } else if input { (c.ib(i), c.nin(i)) } else { (c.ob(i), c.nout(i)) };
    let at = &mut c.offs[2 * i + side];
    match r.n(6) {
        0 => img.truncate(img.len().saturating_sub(r.r(1, 3))),
        1 => *at = at.wrapping_add(r.r(1, 7) as u16),
        2 => *at = at.wrapping_add(8 * r.r(1, 40) as u16),
        3 => *at &= 0x7FFF,
        4 if com => {
            if 2 * img.len() > p + 1 {
                put(img, p + 1, &[r.r(n - 1, 255) as u8]);
            }
        }
        _ => *at = r.word() & 0xFFF8,
    }
    if c.offs[2 * i + side] == NO {
        c.offs[2 * i + side] = 0x7FF8;
    }
}

pub fn images(n: usize, mods: usize, bad: usize, r: &mut Rng, log: &mut Log) {
    let kinds = [
        Error::UnknownModule,
        Error::UnknownCategory,
        Error::BufferLength,
        Error::SequenceNumber,
        Error::DataLength,
        Error::RegisterCount,
        Error::ChannelParameter,
        Error::ChannelValue,
        Error::ModuleOffset,
        Error::Address,
    ];
    let quoted = |v: Vec<String>| v.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(",");
    log.line(&format!(
        r#"{{"e":"texts","kinds":[{}],"texts":[{}]}}"#,
        quoted(kinds.iter().map(|k| format!("{k:?}")).collect()),
        quoted(kinds.iter().map(|k| format!("{k}")).collect())
    ));
    let all = supported();
    let outs: Vec<ModuleType> = all.iter().filter(|t| out_bytes(t, &[1]) > 0).cloned().collect();
    for _ in 0..n {
        let k = if mods > 8 && r.p(20) { mods } else { r.n(mods + 1) };
        let c = random_cfg(k, if r.p(40) { &outs } else { &all }, 20, r);
        let input = random_in(&c, r);
        let output = random_out(&c, r);
        let Some(whole) = List::new(c.clone()) else { continue };
        whole.decode(true, &input, log);
        whole.decode(false, &output, log);
        whole.trip(&output, log);
        for _ in 0..2 {
            let Some(part) = List::new(select(&c, r)) else { continue };
            part.decode(true, &input, log);
            part.decode(false, &output, log);
        }
        if r.p(bad) {
            for side in [true, false] {
                let (mut d, mut img) = (c.clone(), if side { input.clone() } else { output.clone() });
                spoil(&mut d, &mut img, side, r);
                if let Some(l) = List::new(d) {
                    l.decode(side, &img, log);
                    if !side {
                        l.trip(&img, log);
                    }
                }
            }
        }
        // values of every kind
        let one = |i: usize, r: &mut Rng| -> Vec<ChannelValue> {
            let t = &c.mods[i];
            if c.nout(i) == 0 {
                return vec![ChannelValue::None; t.channel_count()];
            }
            let alone = place(vec![t.clone()], vec![c.par[i].clone()], 0, r);
            (0..t.channel_count())
                .map(|_| match row_value(t, &alone, r) {
                    // telegrams that fit
                    ChannelValue::ComRsOut(mut o) => {
                        o.tx_cnt %= 4;
                        o.rx_cnt_ack %= 4;
                        o.data.truncate(c.nout(i) - 2);
                        ChannelValue::ComRsOut(o)
                    }
                    v => v,
                })
                .collect()
        };
        let mut vs: Vec<Vec<ChannelValue>> = (0..c.mods.len()).map(|i| one(i, r)).collect();
        if let Some(o) = whole.encode(&vs, log) {
            // and back again
            whole.decode(false, &o, log);
            whole.trip(&o, log);
        }
        if r.p(bad) {
            let with: Vec<usize> = (0..c.mods.len()).filter(|i| c.nout(*i) > 0).collect();
            match r.n(6) {
                0 => {
                    vs.pop();
                }
                1 => vs.push(vec![]),
                2 if !with.is_empty() => {
                    let i = *r.pick(&with);
                    let extra = any_value(r);
                    if r.p(50) { vs[i].push(extra) } else { drop(vs[i].pop()) }
                }
                _ if !with.is_empty() => {
                    let i = *r.pick(&with);
                    let alone = place(vec![c.mods[i].clone()], vec![c.par[i].clone()], 0, r);
                    let k = r.n(vs[i].len());
                    vs[i][k] = if r.p(50) { row_value(&c.mods[i], &alone, r) } else { any_value(r) };
                }
                _ => {}
            }
            whole.encode(&vs, log);
        }
        if r.p(bad) && !c.mods.is_empty() {
            // a layout that cannot be assembled (or another one that can)
            let mut d = c.clone();
            let mut img = output.clone();
            if r.p(50) {
                spoil(&mut d, &mut img, false, r);
            } else {
                let i = r.n(d.mods.len());
                d.mods.remove(i);
                d.par.remove(i);
                d.offs.drain(2 * i..2 * i + 2);
                if i < vs.len() {
                    vs.remove(i);
                }
            }
            if let Some(l) = List::new(d) {
                l.encode(&vs, log);
            }
        }
    }
}
