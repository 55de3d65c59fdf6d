//! The public settings of a module, one entry per parameter register.
use crate::spec::*;
use ur20::ur20_fbc_mod_tcp::{FromModbusParameterData, ProcessModbusTcpData};
use ur20::*;

/// A decoded setting, one per parameter register.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum S {
    /// the documented code
    C(i64),
    /// a scaled number
    F(f32),
}

macro_rules! code {
    ($e:expr, $($v:pat => $c:expr),* $(,)?) => { S::C(match $e { $($v => $c),* }) };
}

fn b(x: bool) -> S {
    S::C(i64::from(x))
}
fn i(x: i16) -> S {
    S::C(i64::from(x as u16))
}
fn format(x: &DataFormat) -> S {
    code!(x, DataFormat::S5 => 0, DataFormat::S7 => 1)
}
fn ui(x: &AnalogUIRange) -> S {
    use AnalogUIRange::*;
    code!(x, mA0To20 => 0, mA4To20 => 1, V0To10 => 2, VMinus10To10 => 3, V0To5 => 4,
        VMinus5To5 => 5, V1To5 => 6, V2To10 => 7, Disabled => 8)
}
fn fs(x: &FrequencySuppression) -> S {
    use FrequencySuppression::*;
    code!(x, Disabled => 0, Hz50 => 1, Hz60 => 2, Average16 => 3)
}
fn unit(x: &TemperatureUnit) -> S {
    use TemperatureUnit::*;
    code!(x, Celsius => 0, Fahrenheit => 1, Kelvin => 2)
}
fn time(x: &ConversionTime) -> S {
    use ConversionTime::*;
    code!(x, ms240 => 0, ms130 => 1, ms80 => 2, ms55 => 3, ms43 => 4, ms36 => 5)
}
fn delay(x: &InputDelay) -> S {
    use InputDelay::*;
    code!(x, no => 0, us300 => 1, ms3 => 2, ms10 => 3, ms20 => 4, ms40 => 5)
}
fn filter(x: &InputFilter) -> S {
    use InputFilter::*;
    code!(x, us5 => 0, us11 => 1, us21 => 2, us43 => 3, us83 => 4, us167 => 5, us333 => 6,
        us667 => 7, ms1 => 8, ms3 => 9, ms5 => 10, ms11 => 11, ms22 => 12, ms43 => 13,
        ms91 => 14, ms167 => 15, ms333 => 16)
}
fn rtd(x: &RtdRange) -> S {
    use RtdRange::*;
    code!(x, PT100 => 0, PT200 => 1, PT500 => 2, PT1000 => 3, NI100 => 4, NI120 => 5,
        NI200 => 6, NI500 => 7, NI1000 => 8, Cu10 => 9, R40 => 10, R80 => 11, R150 => 12,
        R300 => 13, R500 => 14, R1000 => 15, R2000 => 16, R4000 => 17, Disabled => 18)
}
fn tc(x: &ur20_4ai_tc_diag::MeasurementRange) -> S {
    use ur20_4ai_tc_diag::MeasurementRange::*;
    code!(x, TC_Type_J => 0, TC_Type_K => 1, TC_Type_N => 2, TC_Type_R => 3, TC_Type_S => 4,
        TC_Type_T => 5, TC_Type_B => 6, TC_Type_C => 7, TC_Type_E => 8, TC_Type_L => 9,
        TC_Type_U => 10, uVPlusMinus15625 => 11, uVPlusMinus31250 => 12, uVPlusMinus62500 => 13,
        mVPlusMinus125 => 14, mVPlusMinus250 => 15, mVPlusMinus500 => 16, VPlusMinus1 => 17,
        VPlusMinus2 => 18, Disabled => 19)
}

fn get<T: FromModbusParameterData + ProcessModbusTcpData + Default>(p: Option<&[u16]>) -> Result<T, String> {
    match p {
        Some(p) => T::from_modbus_parameter_data(p).map_err(|_| String::new()),
        None => Ok(T::default()),
    }
}

/// Settings of the module decoded from `p` or, without a block, of the
/// default module, as one entry per register.
pub fn settings(k: K, p: Option<&[u16]>) -> Result<Vec<S>, String> {
    let mut v = vec![];
    macro_rules! dig_in {
        ($t:ty) => {
            for c in &get::<$t>(p)?.ch_params {
                v.push(delay(&c.input_delay));
            }
        };
    }
    macro_rules! dig_out {
        ($t:ty) => {
            for c in &get::<$t>(p)?.ch_params {
                v.push(b(c.substitute_value));
            }
        };
    }
    macro_rules! ai {
        ($t:ty) => {{
            let m = get::<$t>(p)?;
            v.push(fs(&m.mod_params.frequency_suppression));
            for c in &m.ch_params {
                v.extend([format(&c.data_format), ui(&c.measurement_range)]);
            }
        }};
    }
    match k {
        K::Di4 => dig_in!(ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>),
        K::Di8 => dig_in!(ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>),
        K::Do4 => dig_out!(ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>),
        K::Do4x2A => dig_out!(ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>),
        K::Do8 => dig_out!(ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>),
        K::Ro4 => dig_out!(ur20_4ro_co_255::Mod),
        K::Do16 => {
            get::<ur20_16do_p::Mod>(p)?;
        }
        K::Pf => {
            get::<ur20_pf_o_1di_sil::Mod>(p)?;
        }
        K::Ao4 => {
            for c in &get::<ur20_4ao_ui_16::Mod>(p)?.ch_params {
                v.extend([format(&c.data_format), ui(&c.output_range), S::F(c.substitute_value)]);
            }
        }
        K::Ao4Diag => {
            for c in &get::<ur20_4ao_ui_16_diag::Mod>(p)?.ch_params {
                v.extend([
                    format(&c.data_format),
                    ui(&c.output_range),
                    S::F(c.substitute_value),
                    b(c.channel_diagnostics),
                ]);
            }
        }
        K::Rtd => {
            let m = get::<ur20_4ai_rtd_diag::Mod>(p)?;
            v.push(unit(&m.mod_params.temperature_unit));
            for c in &m.ch_params {
                v.extend([
                    rtd(&c.measurement_range),
                    code!(c.connection_type, ConnectionType::TwoWire => 0,
                        ConnectionType::ThreeWire => 1, ConnectionType::FourWire => 2),
                    time(&c.conversion_time),
                    b(c.channel_diagnostics),
                    b(c.limit_value_monitoring),
                    i(c.high_limit_value),
                    i(c.low_limit_value),
                ]);
            }
        }
        K::Tc => {
            use ur20_4ai_tc_diag::ColdJunctionCompensation as C;
            let m = get::<ur20_4ai_tc_diag::Mod>(p)?;
            v.push(unit(&m.mod_params.temperature_unit));
            for c in &m.ch_params {
                v.extend([
                    tc(&c.measurement_range),
                    code!(c.cold_junction_compensation, C::Internal => 0, C::ExternalChannel0 => 1,
                        C::ExternalChannel1 => 2, C::ExternalChannel2 => 3, C::ExternalChannel3 => 4),
                    time(&c.conversion_time),
                    b(c.channel_diagnostics),
                    b(c.limit_value_monitoring),
                    i(c.high_limit_value),
                    i(c.low_limit_value),
                ]);
            }
        }
        K::Ai4Diag => {
            let m = get::<ur20_4ai_ui_16_diag::Mod>(p)?;
            v.push(fs(&m.mod_params.frequency_suppression));
            for c in &m.ch_params {
                v.extend([
                    b(c.channel_diagnostics),
                    b(c.diag_short_circuit),
                    b(c.diag_line_break),
                    format(&c.data_format),
                    ui(&c.measurement_range),
                ]);
            }
        }
        K::Ai4x12 => ai!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>),
        K::Ai4x16 => ai!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>),
        K::Ai8 => {
            let m = get::<ur20_8ai_i_16_diag_hd::Mod>(p)?;
            v.push(fs(&m.mod_params.frequency_suppression));
            for c in &m.ch_params {
                v.extend([
                    b(c.channel_diagnostics),
                    b(c.diag_short_circuit),
                    format(&c.data_format),
                    code!(c.measurement_range, AnalogIRange::mA0To20 => 0,
                        AnalogIRange::mA4To20 => 1, AnalogIRange::Disabled => 2),
                ]);
            }
        }
        K::Fcnt => {
            for c in &get::<ur20_2fcnt_100::Mod>(p)?.ch_params {
                v.push(filter(&c.input_filter));
            }
        }
        K::Com => {
            use ur20_1com_232_485_422::*;
            let m = get::<Mod>(p)?;
            v.push(code!(m.mod_params.process_data_len, ProcessDataLength::EightBytes => 0,
                ProcessDataLength::SixteenBytes => 1));
            for c in &m.ch_params {
                v.extend([
                    code!(c.operating_mode, OperatingMode::Disabled => 0, OperatingMode::RS232 => 1,
                        OperatingMode::RS485 => 2, OperatingMode::RS422 => 3),
                    code!(c.baud_rate, BaudRate::Baud_300 => 0, BaudRate::Baud_600 => 1,
                        BaudRate::Baud_1200 => 2, BaudRate::Baud_2400 => 3, BaudRate::Baud_4800 => 4,
                        BaudRate::Baud_9600 => 5, BaudRate::Baud_14400 => 6,
                        BaudRate::Baud_19200 => 7, BaudRate::Baud_28800 => 8,
                        BaudRate::Baud_38400 => 9, BaudRate::Baud_57600 => 10,
                        BaudRate::Baud_115200 => 11),
                    code!(c.stop_bit, StopBit::OneBit => 0, StopBit::TwoBits => 1),
                    code!(c.parity, Parity::None => 0, Parity::Even => 1, Parity::Odd => 2),
                    code!(c.flow_control, FlowControl::None => 0, FlowControl::CTS_RTS => 1,
                        FlowControl::XON_XOFF => 2),
                    code!(c.data_bits, DataBits::SevenBits => 0, DataBits::EightBits => 1),
                    b(c.terminating_resistor),
                    S::C(i64::from(u32::from(c.XON_char))),
                    S::C(i64::from(u32::from(c.XOFF_char))),
                ]);
            }
        }
    }
    Ok(v)
}
