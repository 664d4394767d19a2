//! Channel values <-> JSON text, in the representation of spec/Codec.tla.
use serde_json::Value;
use std::fmt::Write;
use std::time::Duration;
use ur20::ChannelValue;
use ur20::ur20_1com_232_485_422::{ProcessInput as RsIn, ProcessOutput as RsOut};
use ur20::ur20_2fcnt_100::{Command, ProcessOutput as FcntOut};

pub fn ints<T: Copy + Into<u64>>(v: &[T]) -> String {
    let mut s = String::with_capacity(v.len() * 4 + 2);
    s.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let y: u64 = (*x).into();
        write!(s, "{y}").unwrap();
    }
    s.push(']');
    s
}

fn clip(x: f64) -> i64 {
    const M: f64 = 2_147_483_647.0;
    x.round().clamp(-M, M) as i64
}

pub fn dec(v: f32) -> String {
    if v.is_nan() {
        return r#"{"f":"nan"}"#.into();
    }
    let x = f64::from(v);
    format!(r#"{{"f":"n","d":[{},{},{}]}}"#, clip(x * 1e5), clip(x * 1e6), clip(x * 1e9))
}

fn com_in(i: &RsIn) -> String {
    format!(
        r#"{{"ci":{{"av":{},"nf":{},"rx":{},"ta":{},"rdy":{},"d":{}}}}}"#,
        i.data_available, i.buffer_nearly_full, i.rx_cnt, i.tx_cnt_ack, i.ready, ints(&i.data)
    )
}
pub fn com_out(o: &RsOut) -> String {
    format!(
        r#"{{"co":{{"rf":{},"tf":{},"hw":{},"tx":{},"ra":{},"rst":{},"d":{}}}}}"#,
        o.rx_buf_flush, o.tx_buf_flush, o.disable_tx_hw_buffer, o.tx_cnt, o.rx_cnt_ack, o.reset,
        ints(&o.data)
    )
}
fn dur(d: &Duration) -> String {
    // (TLC calculates with 32 bit)
    format!("[{},{}]", d.as_secs().min(2_147_000_000), d.subsec_nanos())
}

pub fn js(v: &ChannelValue) -> String {
    use ChannelValue::*;
    match v {
        Bit(b) => format!(r#"{{"b":{b}}}"#),
        Decimal32(f) => dec(*f),
        ComRsIn(i) => com_in(i),
        ComRsOut(o) => com_out(o),
        FcntIn(i) => format!(
            r#"{{"fi":{{"p":{},"n":[{},{}],"a":{}}}}}"#,
            i.duration.as_ref().map_or("[]".into(), dur),
            i.count >> 16,
            i.count & 0xFFFF,
            i.active
        ),
        FcntOut(o) => format!(
            r#"{{"fo":{{"p":{},"c":"{}"}}}}"#,
            dur(&o.duration),
            match o.command {
                Some(Command::Start) => "start",
                Some(Command::Stop) => "stop",
                Option::None => "none",
            }
        ),
        SilPFIn(p) => format!(
            r#"{{"si":[{},{},{},{},{},{},{}]}}"#,
            p.safety_input,
            p.autostart,
            p.manual_start,
            p.safety_input_channel_1,
            p.safety_input_channel_2,
            p.volt_24_safe_output,
            p.volt_24_dc
        ),
        Bytes(b) => format!(r#"{{"y":{}}}"#, ints(b)),
        Disabled => r#"{"x":"disabled"}"#.into(),
        None => r#"{"x":"none"}"#.into(),
        _ => r#"{"x":"?"}"#.into(),
    }
}
pub fn jvals(v: &[ChannelValue]) -> String {
    format!("[{}]", v.iter().map(js).collect::<Vec<_>>().join(","))
}
pub fn jvv(v: &[Vec<ChannelValue>]) -> String {
    format!("[{}]", v.iter().map(|x| jvals(x)).collect::<Vec<_>>().join(","))
}

/// The values a specification behaviour can ask for.
pub fn parse(v: &Value) -> ChannelValue {
    if let Some(b) = v.get("b") {
        return ChannelValue::Bit(b.as_bool().unwrap());
    }
    if let Some(y) = v.get("y") {
        return ChannelValue::Bytes(
            y.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        );
    }
    if let Some(x) = v.get("x") {
        return match x.as_str().unwrap() {
            "disabled" => ChannelValue::Disabled,
            _ => ChannelValue::None,
        };
    }
    if v.get("f").is_some() {
        let d = v["d"][1].as_i64().unwrap();
        return ChannelValue::Decimal32((d as f64 / 1e6) as f32);
    }
    if let Some(o) = v.get("fo") {
        return ChannelValue::FcntOut(FcntOut {
            duration: Duration::new(
                o["p"][0].as_u64().unwrap(),
                o["p"][1].as_u64().unwrap() as u32,
            ),
            command: match o["c"].as_str().unwrap() {
                "start" => Some(Command::Start),
                "stop" => Some(Command::Stop),
                _ => None,
            },
        });
    }
    panic!("value {v}");
}
