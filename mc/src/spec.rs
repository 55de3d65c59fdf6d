//! An independent description of the documented module behaviour: layouts,
//! scalings and value ranges. Works on bytes; shares no code with the library.

use std::time::Duration;
use ur20::ur20_fbc_mod_tcp::{FromModbusParameterData, ProcessModbusTcpData};
use ur20::{ChannelValue, ModuleType};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K {
    Di4,
    Di8,
    Do4,
    Do4x2A,
    Do8,
    Do16,
    Ro4,
    Ao4,
    Ao4Diag,
    Rtd,
    Ai4Diag,
    Ai4x12,
    Ai4x16,
    Ai8,
    Tc,
    Fcnt,
    Com,
    Pf,
}
use K::*;

/// Number of process data shapes (see `M::shape`).
pub const SHAPES: usize = 19;

pub const ALL: [K; 18] = [
    Di4, Di8, Do4, Do4x2A, Do8, Do16, Ro4, Ao4, Ao4Diag, Rtd, Ai4Diag, Ai4x12, Ai4x16, Ai8, Tc,
    Fcnt, Com, Pf,
];

impl K {
    pub fn module_type(self) -> ModuleType {
        use ModuleType::*;
        match self {
            Di4 => UR20_4DI_P,
            Di8 => UR20_8DI_P_2W,
            Do4 => UR20_4DO_P,
            Do4x2A => UR20_4DO_P_2A,
            Do8 => UR20_8DO_P,
            Do16 => UR20_16DO_P,
            Ro4 => UR20_4RO_CO_255,
            Ao4 => UR20_4AO_UI_16,
            Ao4Diag => UR20_4AO_UI_16_DIAG,
            Rtd => UR20_4AI_RTD_DIAG,
            Ai4Diag => UR20_4AI_UI_16_DIAG,
            Ai4x12 => UR20_4AI_UI_12,
            Ai4x16 => UR20_4AI_UI_16,
            Ai8 => UR20_8AI_I_16_DIAG_HD,
            Tc => UR20_4AI_TC_DIAG,
            Fcnt => UR20_2FCNT_100,
            Com => UR20_1COM_232_485_422,
            Pf => UR20_PF_O_1DI_SIL,
        }
    }
    /// Number of parameter registers.
    pub fn regs(self) -> usize {
        match self {
            Di4 | Do4 | Do4x2A | Ro4 => 4,
            Di8 | Do8 => 8,
            Do16 | Pf => 0,
            Ao4 => 12,
            Ao4Diag => 16,
            Rtd | Tc => 29,
            Ai4Diag => 21,
            Ai4x12 | Ai4x16 => 9,
            Ai8 => 33,
            Fcnt => 2,
            Com => 10,
        }
    }
    /// Addressable channels.
    pub fn channels(self) -> usize {
        match self {
            Di4 | Do4 | Do4x2A | Ro4 | Ao4 | Ao4Diag | Rtd | Ai4Diag | Ai4x12 | Ai4x16 | Tc => 4,
            Di8 | Do8 | Ai8 => 8,
            Do16 => 16,
            Fcnt => 2,
            Com => 1,
            Pf => 0,
        }
    }
    /// The documented registers of a parameter block: the number of codes a
    /// register may hold (0 = any 16-bit value).
    pub fn codes(self) -> Vec<u32> {
        let mut v = vec![];
        match self {
            Di4 | Di8 => v.extend(vec![6; self.channels()]),
            Do4 | Do4x2A | Do8 | Ro4 => v.extend(vec![2; self.channels()]),
            Do16 | Pf => {}
            Ao4 => {
                for _ in 0..4 {
                    v.extend([2, 9, 0])
                }
            }
            Ao4Diag => {
                for _ in 0..4 {
                    v.extend([2, 9, 0, 2])
                }
            }
            Rtd => {
                v.push(3);
                for _ in 0..4 {
                    v.extend([19, 3, 6, 2, 2, 0, 0])
                }
            }
            Ai4Diag => {
                v.push(4);
                for _ in 0..4 {
                    v.extend([2, 2, 2, 2, 9])
                }
            }
            Ai4x12 | Ai4x16 => {
                v.push(4);
                for _ in 0..4 {
                    v.extend([2, 9])
                }
            }
            Ai8 => {
                v.push(4);
                for _ in 0..8 {
                    v.extend([2, 2, 2, 3])
                }
            }
            Tc => {
                v.push(3);
                for _ in 0..4 {
                    v.extend([20, 5, 6, 2, 2, 0, 0])
                }
            }
            Fcnt => v.extend([17, 17]),
            Com => v.extend([2, 4, 12, 2, 3, 3, 2, 2, 256, 256]),
        }
        v
    }
    pub fn is_analog_out(self) -> bool {
        matches!(self, Ao4 | Ao4Diag)
    }
    pub fn is_digital_out(self) -> bool {
        matches!(self, Do4 | Do4x2A | Do8 | Do16 | Ro4)
    }
    /// Non-serial module with output channels.
    pub fn is_output(self) -> bool {
        self.is_analog_out() || self.is_digital_out() || self == Fcnt
    }
}

/// A module with its parameter block.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M {
    pub k: K,
    pub p: Vec<u16>,
}

/// A value as documented, independent of the library's representation.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Bit(bool),
    /// exact value and size of one raw step
    Num(f64, f64),
    ComIn {
        status: u8,
        data: Vec<u8>,
    },
    ComOut {
        status: u8,
        data: Vec<u8>,
    },
    FcntIn {
        ns: Option<u64>,
        count: u32,
        active: bool,
    },
    FcntOut {
        us: u64,
        cmd: u8,
    },
    Sil([bool; 7]),
    Bytes(Vec<u8>),
    Disabled,
    NoValue,
}

/// Does the library value `c` say the same as `v`?
pub fn same(c: &ChannelValue, v: &V) -> bool {
    match (c, v) {
        (ChannelValue::Bit(a), V::Bit(b)) => a == b,
        (ChannelValue::Decimal32(a), V::Num(x, lsb)) => (f64::from(*a) - x).abs() <= lsb * 0.05,
        (ChannelValue::ComRsIn(m), V::ComIn { status, data }) => {
            m.data_available == (status & 1 != 0)
                && m.buffer_nearly_full == (status & 2 != 0)
                && m.rx_cnt == usize::from(status >> 3 & 3)
                && m.tx_cnt_ack == usize::from(status >> 5 & 3)
                && m.ready == (status & 0x80 != 0)
                && m.data == *data
        }
        (ChannelValue::ComRsOut(m), V::ComOut { status, data }) => {
            m.rx_buf_flush == (status & 1 != 0)
                && m.tx_buf_flush == (status & 2 != 0)
                && m.disable_tx_hw_buffer == (status & 4 != 0)
                && m.tx_cnt == usize::from(status >> 3 & 3)
                && m.rx_cnt_ack == usize::from(status >> 5 & 3)
                && m.reset == (status & 0x80 != 0)
                && m.data == *data
        }
        (ChannelValue::FcntIn(m), V::FcntIn { ns, count, active }) => {
            m.duration == ns.map(Duration::from_nanos) && m.count == *count && m.active == *active
        }
        (ChannelValue::FcntOut(m), V::FcntOut { us, cmd }) => {
            use ur20::ur20_2fcnt_100::Command;
            m.duration == Duration::from_micros(*us)
                && match m.command {
                    None => *cmd == 0,
                    Some(Command::Start) => *cmd == 1,
                    Some(Command::Stop) => *cmd == 2,
                }
        }
        (ChannelValue::SilPFIn(m), V::Sil(f)) => {
            [
                m.safety_input,
                m.autostart,
                m.manual_start,
                m.safety_input_channel_1,
                m.safety_input_channel_2,
                m.volt_24_safe_output,
                m.volt_24_dc,
            ] == *f
        }
        (ChannelValue::Bytes(a), V::Bytes(b)) => a == b,
        (ChannelValue::Disabled, V::Disabled) | (ChannelValue::None, V::NoValue) => true,
        _ => false,
    }
}

pub fn same_all(c: &[ChannelValue], v: &[V]) -> bool {
    c.len() == v.len() && c.iter().zip(v).all(|(a, b)| same(a, b))
}

pub fn same_rack(c: &[Vec<ChannelValue>], v: &[Vec<V>]) -> bool {
    c.len() == v.len() && c.iter().zip(v).all(|(a, b)| same_all(a, b))
}

/// Lower end (or bipolar centre) and distance to the upper end of a
/// current/voltage range code; `None` = disabled.
pub fn ui_range(code: u16) -> Option<(f64, f64)> {
    Some(match code {
        0 => (0.0, 20.0),
        1 => (4.0, 16.0),
        2 | 3 => (0.0, 10.0),
        4 | 5 => (0.0, 5.0),
        6 => (1.0, 4.0),
        7 => (2.0, 8.0),
        _ => return None,
    })
}

pub fn full_scale(format: u16) -> f64 {
    if format == 0 {
        16384.0
    } else {
        27648.0
    }
}

/// Documented value of a raw register.
pub fn ui_value(raw: u16, format: u16, range: u16) -> V {
    match ui_range(range) {
        None => V::Disabled,
        Some((lo, span)) => {
            let f = full_scale(format);
            V::Num(lo + span * f64::from(raw as i16) / f, span / f)
        }
    }
}

/// The exact (unrounded) raw value of a requested value; `None` = disabled.
pub fn ui_raw(value: f64, format: u16, range: u16) -> Option<f64> {
    ui_range(range).map(|(lo, span)| (value - lo) * full_scale(format) / span)
}

pub fn rtd_value(raw: u16, range: u16) -> V {
    match range {
        0..=9 => V::Num(f64::from(raw as i16) / 10.0, 0.1),
        10..=17 => {
            let n = [40.0, 80.0, 150.0, 300.0, 500.0, 1000.0, 2000.0, 4000.0][range as usize - 10];
            V::Num(f64::from(raw) * n / 27648.0, n / 27648.0)
        }
        _ => V::Disabled,
    }
}

pub fn tc_value(raw: u16, range: u16) -> V {
    match range {
        0..=10 => {
            if raw == 32767 {
                V::NoValue
            } else {
                V::Num(f64::from(raw as i16) / 10.0, 0.1)
            }
        }
        11..=18 => {
            let mv = [15.625, 31.25, 62.5, 125.0, 250.0, 500.0, 1000.0, 2000.0][range as usize - 11];
            V::Num(
                f64::from(raw as i16) * mv / 1000.0 / 32767.0,
                mv / 1000.0 / 32767.0,
            )
        }
        _ => V::Disabled,
    }
}

fn word(b: &[u8], i: usize) -> u16 {
    u16::from(b[2 * i]) | u16::from(b[2 * i + 1]) << 8
}

/// Longest measurement preset, in microseconds.
pub const FCNT_MAX_US: u64 = 8_388_607;

impl M {
    pub fn new(k: K, p: &[u16]) -> M {
        M { k, p: p.to_vec() }
    }

    /// Size of the process data in bytes.
    pub fn in_len(&self) -> usize {
        match self.k {
            Di4 | Di8 => 1,
            Rtd | Ai4Diag | Ai4x12 | Ai4x16 | Tc => 8,
            Ai8 => 16,
            Fcnt => 20,
            Com => self.com_len(),
            Pf => 4,
            _ => 0,
        }
    }
    pub fn out_len(&self) -> usize {
        match self.k {
            Do4 | Do4x2A | Do8 | Ro4 => 1,
            Do16 => 2,
            Ao4 | Ao4Diag => 8,
            Fcnt => 12,
            Com => self.com_len(),
            _ => 0,
        }
    }
    pub fn com_len(&self) -> usize {
        if self.p[0] == 0 {
            8
        } else {
            16
        }
    }
    /// Format and range code of an analogue current/voltage channel.
    pub fn fr(&self, ch: usize) -> (u16, u16) {
        let p = &self.p;
        match self.k {
            Ao4 => (p[3 * ch], p[3 * ch + 1]),
            Ao4Diag => (p[4 * ch], p[4 * ch + 1]),
            Ai4Diag => (p[1 + 5 * ch + 3], p[1 + 5 * ch + 4]),
            Ai4x12 | Ai4x16 => (p[1 + 2 * ch], p[2 + 2 * ch]),
            Ai8 => {
                let r = p[1 + 4 * ch + 3];
                (p[1 + 4 * ch + 2], if r == 2 { 8 } else { r })
            }
            _ => unreachable!(),
        }
    }

    /// Values encoded by the module's input bytes; `None` = must be refused.
    pub fn decode_in(&self, b: &[u8]) -> Option<Vec<V>> {
        assert_eq!(b.len(), self.in_len());
        Some(match self.k {
            Di4 | Di8 => (0..self.k.channels())
                .map(|i| V::Bit(b[i / 8] >> (i % 8) & 1 == 1))
                .collect(),
            Ai4Diag | Ai4x12 | Ai4x16 | Ai8 => (0..self.k.channels())
                .map(|i| {
                    let (f, r) = self.fr(i);
                    ui_value(word(b, i), f, r)
                })
                .collect(),
            Rtd => (0..4)
                .map(|i| rtd_value(word(b, i), self.p[1 + 7 * i]))
                .collect(),
            Tc => (0..4)
                .map(|i| tc_value(word(b, i), self.p[1 + 7 * i]))
                .collect(),
            Fcnt => (0..2)
                .map(|i| {
                    let per = u64::from(word(b, 4 * i)) << 16 | u64::from(word(b, 4 * i + 1));
                    V::FcntIn {
                        ns: (per < 0x07FF_FFFF).then_some(per * 125),
                        count: u32::from(word(b, 4 * i + 2)) << 16
                            | u32::from(word(b, 4 * i + 3)),
                        active: word(b, 8 + i) & 0x100 != 0,
                    }
                })
                .collect(),
            Com => {
                let n = usize::from(b[1]);
                if n + 2 > b.len() {
                    return None;
                }
                vec![V::ComIn {
                    status: b[0],
                    data: b[2..2 + n].to_vec(),
                }]
            }
            Pf => {
                let bit = |i: usize, n: u8| b[i] >> n & 1 == 1;
                vec![V::Sil([
                    bit(0, 0),
                    bit(0, 2),
                    bit(0, 3),
                    bit(0, 4),
                    bit(0, 5),
                    bit(1, 0),
                    bit(1, 2),
                ])]
            }
            _ => vec![V::NoValue; self.k.channels()],
        })
    }

    /// Values encoded by the module's output bytes; `None` = must be refused.
    pub fn decode_out(&self, b: &[u8]) -> Option<Vec<V>> {
        assert_eq!(b.len(), self.out_len());
        Some(match self.k {
            Do4 | Do4x2A | Do8 | Ro4 | Do16 => (0..self.k.channels())
                .map(|i| V::Bit(b[i / 8] >> (i % 8) & 1 == 1))
                .collect(),
            Ao4 | Ao4Diag => (0..4)
                .map(|i| {
                    let (f, r) = self.fr(i);
                    ui_value(word(b, i), f, r)
                })
                .collect(),
            Fcnt => (0..2)
                .map(|i| {
                    let c = word(b, 4 + i);
                    V::FcntOut {
                        us: u64::from(word(b, 2 * i)) << 16 | u64::from(word(b, 2 * i + 1)),
                        cmd: if c & 0x100 != 0 {
                            1
                        } else if c & 0x200 != 0 {
                            2
                        } else {
                            0
                        },
                    }
                })
                .collect(),
            Com => {
                let n = usize::from(b[1]);
                if n + 2 > b.len() {
                    return None;
                }
                vec![V::ComOut {
                    status: b[0],
                    data: b[2..2 + n].to_vec(),
                }]
            }
            _ => vec![V::NoValue; self.k.channels()],
        })
    }

    /// Output bytes a cycle without requests must return for these bytes
    /// (non-serial modules); `None` = the cycle must be refused.
    pub fn hold(&self, b: &[u8]) -> Option<Vec<u8>> {
        assert_eq!(b.len(), self.out_len());
        let mut o = b.to_vec();
        match self.k {
            Do4 | Do4x2A | Ro4 => o[0] &= 0x0F,
            Ao4 | Ao4Diag => {
                for i in 0..4 {
                    if ui_range(self.fr(i).1).is_none() {
                        o[2 * i] = 0;
                        o[2 * i + 1] = 0;
                    }
                }
            }
            Fcnt => {
                for i in 0..2 {
                    let us = u64::from(word(b, 2 * i)) << 16 | u64::from(word(b, 2 * i + 1));
                    if us > FCNT_MAX_US {
                        return None;
                    }
                    let c = word(b, 4 + i);
                    o[8 + 2 * i] = 0;
                    o[9 + 2 * i] = if c & 0x100 != 0 {
                        1
                    } else {
                        (c >> 8 & 2) as u8
                    };
                }
            }
            Com => unreachable!("serial frames are stateful"),
            _ => {}
        }
        Some(o)
    }

    /// Bits of the output bytes that belong to a channel.
    pub fn mask(&self, ch: usize) -> Vec<u8> {
        let mut m = vec![0; self.out_len()];
        match self.k {
            Do4 | Do4x2A | Do8 | Ro4 | Do16 => m[ch / 8] = 1 << (ch % 8),
            Ao4 | Ao4Diag => m[2 * ch..2 * ch + 2].fill(0xFF),
            Fcnt => {
                m[4 * ch..4 * ch + 4].fill(0xFF);
                m[8 + 2 * ch..10 + 2 * ch].fill(0xFF);
            }
            Com => m.fill(0xFF),
            _ => {}
        }
        m
    }

    /// Write a request into held output bytes.
    pub fn put(&self, b: &mut [u8], ch: usize, r: &Req) {
        match (self.k, r) {
            (Do4 | Do4x2A | Do8 | Ro4 | Do16, r) => {
                b[ch / 8] &= !(1 << (ch % 8));
                if *r == Req::Bit(true) {
                    b[ch / 8] |= 1 << (ch % 8);
                }
            }
            (Ao4 | Ao4Diag, r) => {
                let raw = match r {
                    Req::Raw(x) if ui_range(self.fr(ch).1).is_some() => *x as u16,
                    _ => 0,
                };
                b[2 * ch..2 * ch + 2].copy_from_slice(&raw.to_le_bytes());
            }
            (Fcnt, r) => {
                let (us, cmd) = match r {
                    Req::Fcnt(us, cmd) => (*us, *cmd),
                    _ => (0, 0),
                };
                b[4 * ch..4 * ch + 2].copy_from_slice(&((us >> 16) as u16).to_le_bytes());
                b[4 * ch + 2..4 * ch + 4].copy_from_slice(&(us as u16).to_le_bytes());
                b[8 + 2 * ch] = 0;
                b[9 + 2 * ch] = cmd;
            }
            // requests for channels without outputs have no effect on the image
            _ => {}
        }
    }

    /// Two different usable requests for an output channel, neither of them a no-op on zeros.
    pub fn reqs(&self, ch: usize) -> Vec<Req> {
        match self.k {
            Do4 | Do4x2A | Do8 | Ro4 | Do16 => {
                vec![Req::Bit(true), Req::Bit(false), Req::Disabled]
            }
            Ao4 | Ao4Diag => vec![
                Req::Raw(1234 + ch as i16),
                Req::Raw(-77 - ch as i16),
                Req::Raw(27648),
                Req::Disabled,
            ],
            Fcnt => vec![
                Req::Fcnt(0x12_3456 + ch as u32, 1),
                Req::Fcnt(77 + ch as u32, 2),
                Req::Fcnt(FCNT_MAX_US as u32, 0),
                Req::Disabled,
            ],
            _ => vec![],
        }
    }

    /// Requests the channel cannot take.
    pub fn bad_reqs(&self) -> Vec<ChannelValue> {
        let fc = |us: u64| {
            let mut o = ur20::ur20_2fcnt_100::ProcessOutput::default();
            o.duration = Duration::from_micros(us);
            ChannelValue::FcntOut(o)
        };
        let fin = ChannelValue::FcntIn(ur20::ur20_2fcnt_100::ProcessInput {
            duration: None,
            count: 0,
            active: false,
        });
        let mut v = vec![
            ChannelValue::None,
            ChannelValue::Bytes(vec![1, 2]),
            ChannelValue::Bytes(vec![]),
            ChannelValue::ComRsIn(Default::default()),
            ChannelValue::ComRsOut(Default::default()),
            ChannelValue::SilPFIn(Default::default()),
            fin,
        ];
        if !self.k.is_digital_out() {
            v.push(ChannelValue::Bit(true));
            v.push(ChannelValue::Bit(false));
        }
        if !self.k.is_analog_out() {
            v.push(ChannelValue::Decimal32(1.0));
            v.push(ChannelValue::Decimal32(0.0));
        }
        if self.k == Fcnt {
            v.push(fc(FCNT_MAX_US + 1));
            v.push(fc(1 << 32));
            v.push(fc(u64::from(u32::MAX) * 1_000_000));
            // a microsecond count that wraps to a small value in 32 bits
            v.push(fc((1 << 32) + 5));
            let mut o = ur20::ur20_2fcnt_100::ProcessOutput::default();
            o.duration = Duration::MAX;
            v.push(ChannelValue::FcntOut(o));
        } else {
            v.push(fc(5));
        }
        v
    }

    /// Build the library's module.
    pub fn make(&self) -> Result<Box<dyn ProcessModbusTcpData>, String> {
        make(self.k, &self.p)
    }

    /// A typical valid parameter block: every channel enabled, different per channel.
    pub fn typical(k: K) -> M {
        let p = match k {
            Di4 => vec![0, 1, 2, 3],
            Di8 => vec![0, 1, 2, 3, 4, 5, 0, 1],
            Do4 | Do4x2A | Ro4 => vec![0, 1, 0, 1],
            Do8 => vec![0, 1, 0, 1, 1, 1, 0, 0],
            Do16 | Pf => vec![],
            Ao4 => vec![0, 0, 0, 1, 1, 100, 0, 3, 5, 1, 6, 0],
            Ao4Diag => vec![0, 0, 0, 0, 1, 1, 100, 1, 0, 3, 5, 0, 1, 7, 0, 1],
            Rtd => {
                let mut v = vec![0];
                for r in [0, 10, 17, 9] {
                    v.extend([r, 1, 2, 0, 1, 100, 0xFFF0]);
                }
                v
            }
            Ai4Diag => {
                let mut v = vec![1];
                for (f, r) in [(0, 0), (1, 1), (0, 3), (1, 6)] {
                    v.extend([0, 1, 0, f, r]);
                }
                v
            }
            Ai4x12 => vec![2, 1, 0, 0, 1, 1, 5, 0, 7],
            Ai4x16 => vec![2, 0, 2, 1, 1, 0, 3, 1, 6],
            Ai8 => {
                let mut v = vec![3];
                for i in 0..8 {
                    v.extend([0, 1, i % 2, (i / 2) % 2]);
                }
                v
            }
            Tc => {
                let mut v = vec![2];
                for r in [1, 11, 18, 10] {
                    v.extend([r, 0, 3, 1, 0, 100, 0xFFF0]);
                }
                v
            }
            Fcnt => vec![3, 16],
            Com => vec![1, 1, 5, 0, 1, 0, 1, 0, 17, 19],
        };
        M { k, p }
    }

    /// A valid parameter block that differs from `typical` in every register that can differ.
    pub fn variant(k: K, j: usize) -> M {
        let mut m = M::typical(k);
        for (r, c) in k.codes().into_iter().enumerate() {
            if k == Com && r == 0 {
                continue;
            }
            let step = j * (1 + r % 3);
            m.p[r] = if c == 0 {
                m.p[r].wrapping_add((step * 1000) as u16)
            } else {
                ((usize::from(m.p[r]) + step) % c as usize) as u16
            };
        }
        m
    }

    /// All 19 shapes of process data: the 18 types, serial modules in both sizes.
    pub fn shape(i: usize, j: usize) -> M {
        if i < 18 {
            M::variant(ALL[i], j)
        } else {
            let mut m = M::variant(Com, j);
            m.p[0] = 0;
            m
        }
    }

    /// Blocks around `typical` in which every register takes every documented
    /// code (free registers: special values).
    pub fn every_setting(k: K) -> Vec<M> {
        let base = M::typical(k);
        let mut v = vec![base.clone()];
        for (r, c) in k.codes().into_iter().enumerate() {
            let vals: Vec<u16> = match c {
                0 => vec![0, 1, 0x7FFF, 0x8000, 0xFFFF, 16384, 27648],
                256 => vec![0, 1, 2, 0x0A, 0x0D, 0x11, 0x13, 0x30, 0x7F, 0x80, 0xFE, 0xFF],
                c => (0..c as u16).collect(),
            };
            for x in vals {
                if base.p[r] != x {
                    let mut m = base.clone();
                    m.p[r] = x;
                    v.push(m);
                }
            }
        }
        v
    }

    pub fn com(eight: bool) -> M {
        let mut m = M::typical(Com);
        m.p[0] = u16::from(!eight);
        m
    }
}

/// A request for an output channel.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Req {
    Bit(bool),
    /// The value that raw register content stands for.
    Raw(i16),
    Fcnt(u32, u8),
    Disabled,
}

impl Req {
    pub fn value(&self, m: &M, ch: usize) -> ChannelValue {
        match self {
            Req::Bit(b) => ChannelValue::Bit(*b),
            Req::Raw(r) => {
                let (f, rg) = m.fr(ch);
                match ui_value(*r as u16, f, rg) {
                    V::Num(x, _) => ChannelValue::Decimal32(x as f32),
                    _ => ChannelValue::Decimal32(f32::from(*r)),
                }
            }
            Req::Fcnt(us, cmd) => {
                let mut o = ur20::ur20_2fcnt_100::ProcessOutput::default();
                o.duration = Duration::from_micros(u64::from(*us));
                o.command = match cmd {
                    0 => None,
                    1 => Some(ur20::ur20_2fcnt_100::Command::Start),
                    _ => Some(ur20::ur20_2fcnt_100::Command::Stop),
                };
                ChannelValue::FcntOut(o)
            }
            Req::Disabled => ChannelValue::Disabled,
        }
    }
}

pub fn make(k: K, p: &[u16]) -> Result<Box<dyn ProcessModbusTcpData>, String> {
    fn b<T: FromModbusParameterData + ProcessModbusTcpData + 'static>(
        p: &[u16],
    ) -> Result<Box<dyn ProcessModbusTcpData>, String> {
        match T::from_modbus_parameter_data(p) {
            Ok(m) => Ok(Box::new(m)),
            Err(e) => Err(format!("{e:?}")),
        }
    }
    use ur20::*;
    match k {
        Di4 => b::<ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>>(p),
        Di8 => b::<ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>>(p),
        Do4 => b::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>>(p),
        Do4x2A => b::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>>(p),
        Do8 => b::<ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>>(p),
        Do16 => b::<ur20_16do_p::Mod>(p),
        Ro4 => b::<ur20_4ro_co_255::Mod>(p),
        Ao4 => b::<ur20_4ao_ui_16::Mod>(p),
        Ao4Diag => b::<ur20_4ao_ui_16_diag::Mod>(p),
        Rtd => b::<ur20_4ai_rtd_diag::Mod>(p),
        Ai4Diag => b::<ur20_4ai_ui_16_diag::Mod>(p),
        Ai4x12 => b::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>>(p),
        Ai4x16 => b::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>>(p),
        Ai8 => b::<ur20_8ai_i_16_diag_hd::Mod>(p),
        Tc => b::<ur20_4ai_tc_diag::Mod>(p),
        Fcnt => b::<ur20_2fcnt_100::Mod>(p),
        Com => b::<ur20_1com_232_485_422::Mod>(p),
        Pf => b::<ur20_pf_o_1di_sil::Mod>(p),
    }
}

/// The module as `Default` creates it.
pub fn make_default(k: K) -> Box<dyn ProcessModbusTcpData> {
    use ur20::*;
    match k {
        Di4 => Box::<ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>>::default(),
        Di8 => Box::<ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>>::default(),
        Do4 => Box::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>>::default(),
        Do4x2A => Box::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>>::default(),
        Do8 => Box::<ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>>::default(),
        Do16 => Box::<ur20_16do_p::Mod>::default(),
        Ro4 => Box::<ur20_4ro_co_255::Mod>::default(),
        Ao4 => Box::<ur20_4ao_ui_16::Mod>::default(),
        Ao4Diag => Box::<ur20_4ao_ui_16_diag::Mod>::default(),
        Rtd => Box::<ur20_4ai_rtd_diag::Mod>::default(),
        Ai4Diag => Box::<ur20_4ai_ui_16_diag::Mod>::default(),
        Ai4x12 => Box::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>>::default(),
        Ai4x16 => Box::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>>::default(),
        Ai8 => Box::<ur20_8ai_i_16_diag_hd::Mod>::default(),
        Tc => Box::<ur20_4ai_tc_diag::Mod>::default(),
        Fcnt => Box::<ur20_2fcnt_100::Mod>::default(),
        Com => Box::<ur20_1com_232_485_422::Mod>::default(),
        Pf => Box::<ur20_pf_o_1di_sil::Mod>::default(),
    }
}

/// Lengths that are `n` (or next to 0) when only some of their bits are kept.
pub fn wrapped_lengths(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [128, 256, 512, 4096, 32_768, 65_536, 131_072]
        .into_iter()
        .flat_map(|b| [b - 1, b, b + 1, b + n])
        .collect();
    v.sort();
    v.dedup();
    v
}
