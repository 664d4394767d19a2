//! The bare message processor, also with telegrams and images no conforming
//! module or host would produce.
use crate::rng::Rng;
use crate::session::{Log, get_some, write_some};
use crate::val::*;

use std::panic::{AssertUnwindSafe, catch_unwind};
use ur20::ur20_1com_232_485_422::{MessageProcessor, ProcessDataLength, ProcessInput, ProcessOutput};

fn inp(i: &ProcessInput) -> String {
    format!(
        r#"{{"av":{},"nf":{},"rx":{},"ta":{},"rdy":{},"d":{}}}"#,
        i.data_available, i.buffer_nearly_full, i.rx_cnt, i.tx_cnt_ack, i.ready, ints(&i.data)
    )
}
fn out(o: &ProcessOutput) -> String {
    format!(
        r#"{{"rf":{},"tf":{},"hw":{},"tx":{},"ra":{},"rst":{},"d":{}}}"#,
        o.rx_buf_flush, o.tx_buf_flush, o.disable_tx_hw_buffer, o.tx_cnt, o.rx_cnt_ack, o.reset, ints(&o.data)
    )
}
fn bytes(cap: usize, r: &mut Rng) -> Vec<u8> {
    let n = match r.n(4) {
        0 => 0,
        1 => cap,
        _ => r.n(cap + 1),
    };
    if r.p(30) { vec![r.n(2) as u8; n] } else { r.bytes(n) }
}

/// All pairs of flags and counters of the telegram and the image are run
/// through a processor in every state; the rest is random.
pub fn host(sessions: usize, steps: usize, r: &mut Rng, log: &mut Log) {
    for s in 0..sessions {
        let (len, pdl) = if s % 2 == 0 {
            (8, ProcessDataLength::EightBytes)
        } else {
            (16, ProcessDataLength::SixteenBytes)
        };
        let cap = len - 2;
        let mut p = MessageProcessor::new(pdl);
        log.line(&format!(r#"{{"e":"new","len":{len}}}"#));
        let mut co = ProcessOutput::default();
        let mut ci = ProcessInput::default();
        let writes = *r.pick(&[5, 30, 60]);
        let reads = *r.pick(&[5, 30]);
        let feedback = *r.pick(&[0, 50, 95]);
        let still = *r.pick(&[0, 30]);
        for k in 0..steps {
            if r.p(writes) {
                let n = match r.n(5) {
                    0 => r.n(4 * cap),
                    1 => cap * r.r(1, 4),
                    _ => r.r(0, cap + 1),
                };
                let y = if r.p(20) { vec![r.n(2) as u8; n] } else { r.bytes(n) };
                let res = catch_unwind(AssertUnwindSafe(|| write_some(&mut p, &y)));
                let tag = match res {
                    Err(_) => "panic",
                    Ok(Ok(())) => "ok",
                    Ok(Err(_)) => "err",
                };
                log.line(&format!(r#"{{"e":"wr","y":{},"r":"{tag}"}}"#, ints(&y)));
            }
            if r.p(reads) {
                let n = *r.pick(&[0, 1, 3, 6, 14, 50]);
                let mut buf = vec![0x5A; n];
                let (y, tag) = match catch_unwind(AssertUnwindSafe(|| get_some(&mut p, &mut buf))) {
                    Err(_) => (vec![], "panic"),
                    Ok(Err(_)) => (vec![], "err"),
                    Ok(Ok(m)) if m > n => (vec![], "len"),
                    Ok(Ok(m)) => (buf[..m].to_vec(), "ok"),
                };
                log.line(&format!(r#"{{"e":"rd","k":{n},"y":{},"r":"{tag}"}}"#, ints(&y)));
            }
            // every combination in turn: rx, ta, av, tx, ra and the flags
            let c = (k * 1009 + s * 7919) % (1 << 14);
            if !r.p(still) {
                ci = ProcessInput {
                    data_available: c & 1 != 0,
                    rx_cnt: c >> 1 & 3,
                    tx_cnt_ack: c >> 3 & 3,
                    buffer_nearly_full: r.p(50),
                    ready: r.p(50),
                    data: bytes(cap, r),
                };
            }
            if !r.p(feedback) {
                co = ProcessOutput {
                    tx_cnt: c >> 5 & 3,
                    rx_cnt_ack: c >> 7 & 3,
                    rx_buf_flush: c >> 9 & 1 != 0,
                    tx_buf_flush: c >> 10 & 1 != 0,
                    disable_tx_hw_buffer: c >> 11 & 1 != 0,
                    reset: c >> 12 & 1 != 0,
                    data: bytes(cap, r),
                };
            }
            crate::clock::pass();
            let res = catch_unwind(AssertUnwindSafe(|| p.next(&ci, &co)));
            match res {
                Ok(n) => {
                    log.line(&format!(
                        r#"{{"e":"nx","ci":{},"co":{},"n":{},"r":"ok"}}"#,
                        inp(&ci),
                        out(&co),
                        out(&n)
                    ));
                    co = n;
                }
                Err(_) => {
                    log.line(&format!(
                        r#"{{"e":"nx","ci":{},"co":{},"n":{},"r":"panic"}}"#,
                        inp(&ci),
                        out(&co),
                        out(&co)
                    ));
                    break;
                }
            }
        }
    }
}
