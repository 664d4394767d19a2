//! C21: a station that is set up from its own registers and run in a closed
//! loop.
use crate::modules::*;
use crate::rng::Rng;
use crate::session::*;
use crate::val::*;
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use ur20::ur20_fbc_mod_tcp::*;
use ur20::*;

/// The registers of a fieldbus coupler.
struct Map(HashMap<u16, u16>);

impl Map {
    fn read(&self, at: u16, n: usize, log: &mut Log) -> Vec<u16> {
        let w: Vec<u16> = (0..n)
            .map(|k| self.0.get(&at.wrapping_add(k as u16)).copied().unwrap_or(0))
            .collect();
        log.line(&format!(r#"{{"e":"read","at":{at},"w":{}}}"#, ints(&w)));
        w
    }
}

/// The types the library supports, each with an identifier.
fn ids() -> Vec<(ModuleType, u32)> {
    let ok = supported();
    crate::tables::IDS
        .iter()
        .filter_map(|id| Some((ModuleType::try_from_u32(*id).ok()?, *id)))
        .filter(|(t, _)| ok.contains(t))
        .collect()
}

fn call<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn station(sessions: usize, cycles: usize, max_mods: usize, r: &mut Rng, log: &mut Log) {
    let pool: Vec<(ModuleType, u32)> = ids();
    let map = [
        ADDR_PACKED_PROCESS_INPUT_DATA,
        ADDR_PACKED_PROCESS_OUTPUT_DATA,
        ADDR_PROCESS_OUTPUT_LEN,
        ADDR_PROCESS_INPUT_LEN,
        ADDR_COUPLER_ID,
        ADDR_COUPLER_STATUS,
        ADDR_CURRENT_MODULE_COUNT,
        ADDR_CURRENT_MODULE_LIST,
        ADDR_MODULE_OFFSETS,
        ADDR_MODULE_PARAMETERS,
    ];
    log.line(&format!(r#"{{"e":"map","a":{}}}"#, ints(&map)));
    for _ in 0..sessions {
        let n = if r.p(20) { max_mods } else { r.r(1, max_mods.min(10)) };
        let slots: Vec<_> = (0..n).map(|_| r.pick(&pool).clone()).collect();
        let mods: Vec<ModuleType> = slots.iter().map(|(t, _)| t.clone()).collect();
        let par: Vec<_> = mods.iter().map(|t| valid_block(t, r)).collect();
        let cfg = place(mods, par, 30, r);
        // the register map
        let mut map = HashMap::new();
        map.insert(0x27FE, n as u16);
        let mut wide = vec![];
        for (k, (_, id)) in slots.iter().enumerate() {
            map.insert(0x2A00 + 2 * k as u16, (id >> 16) as u16);
            map.insert(0x2A01 + 2 * k as u16, *id as u16);
            let mut b = cfg.par[k].clone();
            for _ in 0..r.n(6) {
                b.push(r.word());
            }
            for (j, w) in b.iter().enumerate() {
                map.insert(0xC000 + 256 * k as u16 + j as u16, *w);
            }
            wide.push(ints(&b));
        }
        for (k, w) in cfg.offs.iter().enumerate() {
            map.insert(0x2B00 + k as u16, *w);
        }
        let map = Map(map);
        log.line(&format!(
            r#"{{"e":"station","mods":{},"offs":{},"par":[{}]}}"#,
            names(&cfg.mods),
            ints(&cfg.offs),
            wide.join(",")
        ));
        // set-up
        let count = map.read(ADDR_CURRENT_MODULE_COUNT, 1, log)[0] as usize;
        let words = map.read(ADDR_CURRENT_MODULE_LIST, 2 * count, log);
        let offsets = map.read(ADDR_MODULE_OFFSETS, 2 * count, log);
        let list = call(|| module_list_from_registers(&words)).and_then(|x| x.ok());
        let padr = list.as_ref().and_then(|l| call(|| param_addresses_and_register_counts(l)));
        let (Some(list), Some(padr)) = (list, padr) else {
            log.line(r#"{"e":"setup","r":"err","mods":[],"padr":[]}"#);
            continue;
        };
        let pairs: Vec<_> = padr.iter().map(|(a, c)| format!("[{a},{c}]")).collect();
        log.line(&format!(
            r#"{{"e":"setup","r":"ok","mods":{},"padr":[{}]}}"#,
            names(&list),
            pairs.join(",")
        ));
        let params = padr.iter().map(|(a, c)| map.read(*a, *c as usize, log)).collect();
        let mut c = new_event(&CouplerConfig { modules: list, offsets, params }, log, "");
        let mut img = random_out(&cfg, r);
        img.truncate(cfg.out_words);
        log.line(&format!(r#"{{"e":"built","img":{}}}"#, ints(&img)));
        let Some(c) = c.as_mut() else { continue };
        if c.inputs().len() > n {
            continue;
        }
        // closed loop
        let outs: Vec<_> = (0..n).filter(|i| cfg.nout(*i) > 0).collect();
        for _ in 0..cycles {
            if !outs.is_empty() && r.p(50) {
                for _ in 0..r.r(1, 4) {
                    let m = *r.pick(&outs);
                    let ch = r.n(cfg.mods[m].channel_count());
                    let v = good_value(&cfg, m, r);
                    set_event(c, m, ch, v, log, "");
                }
            }
            let mut i = random_in(&cfg, r);
            let mut o = img.clone();
            if r.p(10) {
                let is_in = r.p(50);
                spoil(&cfg, if is_in { &mut i } else { &mut o }, is_in, r);
            }
            let words = img.len();
            match cycle_event(c, &i, &o, log, "") {
                Out::Ok(v) => {
                    // (of another length: not an image of this station)
                    log.line(&format!(r#"{{"e":"terminals","o":{}}}"#, ints(&v)));
                    if v.len() != words {
                        break;
                    }
                    img = v;
                }
                Out::Err(_) => {}
                Out::Panic => break,
            }
        }
    }
}
