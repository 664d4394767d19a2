//! The supported module types: parameter blocks, instances, process data sizes.
use crate::rng::Rng;
use ur20::ur20_fbc_mod_tcp::{FromModbusParameterData, ProcessModbusTcpData};
use ur20::*;

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    E(u16),
    I16,
    Char,
    Raw,
}
use K::*;

pub fn supported() -> Vec<ModuleType> {
    use ModuleType::*;
    vec![
        UR20_4DI_P, UR20_8DI_P_2W, UR20_4DO_P, UR20_4DO_P_2A, UR20_8DO_P, UR20_16DO_P,
        UR20_4RO_CO_255, UR20_4AO_UI_16, UR20_4AO_UI_16_DIAG, UR20_4AI_RTD_DIAG,
        UR20_4AI_UI_16_DIAG, UR20_4AI_UI_12, UR20_4AI_UI_16, UR20_8AI_I_16_DIAG_HD,
        UR20_4AI_TC_DIAG, UR20_2FCNT_100, UR20_1COM_232_485_422, UR20_PF_O_1DI_SIL,
    ]
}

/// (module registers, channel registers, channels): only used to generate
/// inputs, what they mean is decided by spec/Params.tla.
pub fn layout(t: &ModuleType) -> (Vec<K>, Vec<K>, usize) {
    use ModuleType::*;
    match t {
        UR20_4DI_P => (vec![], vec![E(6)], 4),
        UR20_8DI_P_2W => (vec![], vec![E(6)], 8),
        UR20_4DO_P | UR20_4DO_P_2A | UR20_4RO_CO_255 => (vec![], vec![E(2)], 4),
        UR20_8DO_P => (vec![], vec![E(2)], 8),
        UR20_4AO_UI_16 => (vec![], vec![E(2), E(9), Raw], 4),
        UR20_4AO_UI_16_DIAG => (vec![], vec![E(2), E(9), Raw, E(2)], 4),
        UR20_4AI_RTD_DIAG => {
            (vec![E(3)], vec![E(19), E(3), E(6), E(2), E(2), I16, I16], 4)
        }
        UR20_4AI_TC_DIAG => (vec![E(3)], vec![E(20), E(5), E(6), E(2), E(2), I16, I16], 4),
        UR20_4AI_UI_16_DIAG => (vec![E(4)], vec![E(2), E(2), E(2), E(2), E(9)], 4),
        UR20_4AI_UI_12 | UR20_4AI_UI_16 => (vec![E(4)], vec![E(2), E(9)], 4),
        UR20_8AI_I_16_DIAG_HD => (vec![E(4)], vec![E(2), E(2), E(2), E(3)], 8),
        UR20_2FCNT_100 => (vec![], vec![E(17)], 2),
        UR20_1COM_232_485_422 => (
            vec![E(2)],
            vec![E(4), E(12), E(2), E(3), E(3), E(2), E(2), Char, Char],
            1,
        ),
        _ => (vec![], vec![], 0),
    }
}

pub fn kinds(t: &ModuleType) -> Vec<K> {
    let (m, c, n) = layout(t);
    let mut k = m;
    for _ in 0..n {
        k.extend(c.iter().cloned());
    }
    k
}

pub fn valid_reg(k: &K, r: &mut Rng) -> u16 {
    match k {
        E(n) => r.n(*n as usize) as u16,
        Char => r.n(256) as u16,
        _ => r.word(),
    }
}
pub fn limit(k: &K) -> Option<u16> {
    match k {
        E(n) => Some(*n),
        Char => Some(256),
        _ => None,
    }
}
pub fn valid_block(t: &ModuleType, r: &mut Rng) -> Vec<u16> {
    kinds(t).iter().map(|k| valid_reg(k, r)).collect()
}

pub fn in_bytes(t: &ModuleType, block: &[u16]) -> usize {
    use ModuleType::*;
    match t {
        UR20_4DI_P | UR20_8DI_P_2W => 1,
        UR20_8AI_I_16_DIAG_HD => 16,
        UR20_4AI_RTD_DIAG | UR20_4AI_UI_16_DIAG | UR20_4AI_UI_12 | UR20_4AI_UI_16
        | UR20_4AI_TC_DIAG => 8,
        UR20_2FCNT_100 => 20,
        UR20_1COM_232_485_422 => com_len(block),
        UR20_PF_O_1DI_SIL => 4,
        _ => 0,
    }
}
pub fn com_len(block: &[u16]) -> usize {
    if block.first() == Some(&0) { 8 } else { 16 }
}
pub fn out_bytes(t: &ModuleType, block: &[u16]) -> usize {
    use ModuleType::*;
    match t {
        UR20_16DO_P => 2,
        UR20_4DO_P | UR20_4DO_P_2A | UR20_8DO_P | UR20_4RO_CO_255 => 1,
        UR20_4AO_UI_16 | UR20_4AO_UI_16_DIAG => 8,
        UR20_2FCNT_100 => 12,
        UR20_1COM_232_485_422 => com_len(block),
        _ => 0,
    }
}

/// What a parsed module says about itself.
pub struct Made {
    pub m: Box<dyn ProcessModbusTcpData>,
    /// module parameters, channel parameters (names as printed by Debug),
    /// substitute values
    pub mp: Vec<String>,
    pub cp: Vec<Vec<String>>,
    pub sub: Vec<f32>,
}

macro_rules! d {
    ($($e:expr),*) => { vec![$(format!("{:?}", $e)),*] };
}

pub fn make(t: &ModuleType, b: &[u16]) -> std::result::Result<Made, Error> {
    made(t, Some(b))
}
/// A module with its default parameters.
pub fn make_default(t: &ModuleType) -> std::result::Result<Made, Error> {
    made(t, None)
}

fn made(t: &ModuleType, b: Option<&[u16]>) -> std::result::Result<Made, Error> {
    use ModuleType::*;
    let mut sub = vec![];
    let mut mp = vec![];
    macro_rules! gen_ {
        ($ty:ty, |$m:ident| $mpe:expr, |$c:ident| $cpe:expr) => {{
            let $m = match b {
                Some(b) => <$ty>::from_modbus_parameter_data(b)?,
                None => <$ty>::default(),
            };
            mp = $mpe;
            let cp = $m.ch_params.iter().map(|$c| $cpe).collect::<Vec<Vec<String>>>();
            (Box::new($m) as Box<dyn ProcessModbusTcpData>, cp)
        }};
    }
    let (m, cp) = match t {
        UR20_4DI_P => gen_!(ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>, |m| vec![], |c| d![c.input_delay]),
        UR20_8DI_P_2W => gen_!(ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>, |m| vec![], |c| d![c.input_delay]),
        UR20_4DO_P => gen_!(ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>, |m| vec![], |c| d![c.substitute_value]),
        UR20_4DO_P_2A => gen_!(ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>, |m| vec![], |c| d![c.substitute_value]),
        UR20_8DO_P => gen_!(ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>, |m| vec![], |c| d![c.substitute_value]),
        UR20_4RO_CO_255 => gen_!(ur20_4ro_co_255::Mod, |m| vec![], |c| d![c.substitute_value]),
        UR20_16DO_P => {
            let m = match b {
                Some(b) => ur20_16do_p::Mod::from_modbus_parameter_data(b)?,
                None => ur20_16do_p::Mod::default(),
            };
            (Box::new(m) as Box<dyn ProcessModbusTcpData>, vec![])
        }
        UR20_PF_O_1DI_SIL => {
            let m = match b {
                Some(b) => ur20_pf_o_1di_sil::Mod::from_modbus_parameter_data(b)?,
                None => ur20_pf_o_1di_sil::Mod::default(),
            };
            (Box::new(m) as Box<dyn ProcessModbusTcpData>, vec![])
        }
        UR20_4AO_UI_16 => gen_!(ur20_4ao_ui_16::Mod, |m| vec![], |c| {
            sub.push(c.substitute_value);
            d![c.data_format, c.output_range]
        }),
        UR20_4AO_UI_16_DIAG => gen_!(ur20_4ao_ui_16_diag::Mod, |m| vec![], |c| {
            sub.push(c.substitute_value);
            d![c.data_format, c.output_range, c.channel_diagnostics]
        }),
        UR20_4AI_RTD_DIAG => gen_!(ur20_4ai_rtd_diag::Mod, |m| d![m.mod_params.temperature_unit], |c| d![
            c.measurement_range, c.connection_type, c.conversion_time, c.channel_diagnostics,
            c.limit_value_monitoring, c.high_limit_value, c.low_limit_value
        ]),
        UR20_4AI_TC_DIAG => gen_!(ur20_4ai_tc_diag::Mod, |m| d![m.mod_params.temperature_unit], |c| d![
            c.measurement_range, c.cold_junction_compensation, c.conversion_time, c.channel_diagnostics,
            c.limit_value_monitoring, c.high_limit_value, c.low_limit_value
        ]),
        UR20_4AI_UI_16_DIAG => gen_!(ur20_4ai_ui_16_diag::Mod, |m| d![m.mod_params.frequency_suppression], |c| d![
            c.channel_diagnostics, c.diag_short_circuit, c.diag_line_break, c.data_format, c.measurement_range
        ]),
        UR20_4AI_UI_12 => gen_!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>,
            |m| d![m.mod_params.frequency_suppression], |c| d![c.data_format, c.measurement_range]),
        UR20_4AI_UI_16 => gen_!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>,
            |m| d![m.mod_params.frequency_suppression], |c| d![c.data_format, c.measurement_range]),
        UR20_8AI_I_16_DIAG_HD => gen_!(ur20_8ai_i_16_diag_hd::Mod, |m| d![m.mod_params.frequency_suppression], |c| d![
            c.channel_diagnostics, c.diag_short_circuit, c.data_format, c.measurement_range
        ]),
        UR20_2FCNT_100 => gen_!(ur20_2fcnt_100::Mod, |m| vec![], |c| d![c.input_filter]),
        UR20_1COM_232_485_422 => gen_!(ur20_1com_232_485_422::Mod, |m| d![m.mod_params.process_data_len], |c| {
            let mut v = d![
                c.operating_mode, c.baud_rate, c.stop_bit, c.parity, c.flow_control, c.data_bits,
                c.terminating_resistor
            ];
            v.push((c.XON_char as u32).to_string());
            v.push((c.XOFF_char as u32).to_string());
            v
        }),
        _ => panic!("unsupported"),
    };
    Ok(Made { m, mp, cp, sub })
}
