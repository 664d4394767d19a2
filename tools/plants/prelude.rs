#![allow(dead_code, unused_imports)]
use std::io::{Read, Write};
use ur20::ur20_fbc_mod_tcp::*;
use ur20::*;

const COM: ModuleType = ModuleType::UR20_1COM_232_485_422;

/// A coupler with the modules packed one after the other, inputs and outputs.
fn coupler(mods: &[(ModuleType, Vec<u16>, usize, usize)]) -> Coupler {
    let (mut i, mut o) = (0u16, 0x8000u16);
    let mut offsets = vec![];
    for (_, _, ni, no) in mods {
        offsets.push(if *no == 0 { 0xFFFF } else { o });
        offsets.push(if *ni == 0 { 0xFFFF } else { i });
        i += 8 * *ni as u16;
        o += 8 * *no as u16;
    }
    Coupler::new(&CouplerConfig {
        modules: mods.iter().map(|m| m.0.clone()).collect(),
        offsets,
        params: mods.iter().map(|m| m.1.clone()).collect(),
    })
    .expect("coupler")
}

/// A serial module with 8 or 16 bytes of process data.
fn com(len: usize) -> (ModuleType, Vec<u16>, usize, usize) {
    (COM, vec![u16::from(len == 16), 1, 5, 0, 0, 0, 1, 0, 17, 19], len, len)
}

/// A telegram of `len` bytes as registers.
fn tel(len: usize, status: u8, data: &[u8]) -> Vec<u16> {
    let mut b = vec![0u8; len];
    b[0] = status;
    b[1] = data.len() as u8;
    b[2..2 + data.len()].copy_from_slice(data);
    words(&b)
}
fn words(b: &[u8]) -> Vec<u16> {
    b.chunks(2).map(|c| u16::from(c[0]) | (u16::from(*c.get(1).unwrap_or(&0)) << 8)).collect()
}
fn bytes(w: &[u16]) -> Vec<u8> {
    w.iter().flat_map(|x| [*x as u8, (*x >> 8) as u8]).collect()
}
/// Counter (tx/rx) and acknowledge counter of a status byte.
fn cnt(st: u8) -> u8 { (st >> 3) & 3 }
fn ack(st: u8) -> u8 { (st >> 5) & 3 }
fn data(b: &[u8]) -> Vec<u8> { b[2..2 + b[1] as usize].to_vec() }
/// Input status: data available, receive counter, acknowledged transmit counter.
fn st_in(av: bool, rx: u8, ta: u8) -> u8 { 0x80 | u8::from(av) | (rx << 3) | (ta << 5) }
fn read_all(c: &mut Coupler, m: usize) -> Vec<u8> {
    let mut b = [0u8; 4096];
    let n = c.reader(m).unwrap().read(&mut b).unwrap();
    b[..n].to_vec()
}
/// Start-up of a lone serial module; returns the standing output image.
fn start(c: &mut Coupler, len: usize) -> Vec<u16> {
    let mut o = vec![0u16; len / 2];
    for _ in 0..2 {
        o = c.next(&tel(len, st_in(false, 0, 0), &[]), &o).unwrap();
    }
    o
}
