//! Racks: placement of modules in the process images, expected decoding and
//! held output images, computed bytewise from the documentation.

use crate::spec::{K, M, V};
use ur20::ur20_fbc_mod_tcp::{Coupler, CouplerConfig};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Style {
    /// every module starts at the next byte
    Packed,
    /// multi-byte modules start at a register, single bytes are packed
    MultiAligned,
    /// every module starts at a register
    WordAligned,
}
pub const STYLES: [Style; 3] = [Style::Packed, Style::MultiAligned, Style::WordAligned];

#[derive(Clone, Debug)]
pub struct Rack {
    pub mods: Vec<M>,
    /// byte offset in the input image
    pub inp: Vec<Option<usize>>,
    /// byte offset in the output image
    pub out: Vec<Option<usize>>,
    pub in_regs: usize,
    pub out_regs: usize,
}

fn lay(lens: &[usize], style: Style) -> (Vec<Option<usize>>, usize) {
    let mut pos = 0;
    let mut v = vec![];
    for &l in lens {
        if l == 0 {
            v.push(None);
            continue;
        }
        let align = match style {
            Style::Packed => false,
            Style::MultiAligned => l > 1,
            Style::WordAligned => true,
        };
        if align && pos % 2 == 1 {
            pos += 1;
        }
        v.push(Some(pos));
        pos += l;
    }
    (v, pos.div_ceil(2))
}

impl Rack {
    pub fn new(mods: Vec<M>, style: Style) -> Rack {
        let (inp, in_regs) = lay(&mods.iter().map(M::in_len).collect::<Vec<_>>(), style);
        let (out, out_regs) = lay(&mods.iter().map(M::out_len).collect::<Vec<_>>(), style);
        Rack {
            mods,
            inp,
            out,
            in_regs,
            out_regs,
        }
    }
    /// Same rack with the inputs placed in reverse module order.
    pub fn with_reversed_inputs(mut self, style: Style) -> Rack {
        let mut l: Vec<_> = self.mods.iter().map(M::in_len).collect();
        l.reverse();
        let (mut i, n) = lay(&l, style);
        i.reverse();
        self.inp = i;
        self.in_regs = n;
        self
    }
    pub fn describe(&self) -> String {
        let m: Vec<String> = self
            .mods
            .iter()
            .enumerate()
            .map(|(i, m)| {
                format!(
                    "{}: {:?} params {:?} in {} out {}",
                    i,
                    m.k.module_type(),
                    m.p,
                    self.inp[i].map_or("-".into(), |b| format!("byte {b}")),
                    self.out[i].map_or("-".into(), |b| format!("byte {b}"))
                )
            })
            .collect();
        format!("rack [{}]", m.join("; "))
    }
    pub fn offsets(&self) -> Vec<u16> {
        let mut v = vec![];
        for i in 0..self.mods.len() {
            v.push(self.out[i].map_or(0xFFFF, |b| 0x8000 + (b * 8) as u16));
            v.push(self.inp[i].map_or(0xFFFF, |b| (b * 8) as u16));
        }
        v
    }
    pub fn config(&self) -> CouplerConfig {
        CouplerConfig {
            modules: self.mods.iter().map(|m| m.k.module_type()).collect(),
            offsets: self.offsets(),
            params: self.mods.iter().map(|m| m.p.clone()).collect(),
        }
    }
    pub fn coupler(&self) -> Result<Coupler, String> {
        Coupler::new(&self.config())
            .map_err(|e| format!("{}: Coupler::new refused it: {e:?}", self.describe()))
    }
    pub fn in_bytes<'a>(&self, m: usize, img: &'a [u8]) -> &'a [u8] {
        match self.inp[m] {
            Some(b) => &img[b..b + self.mods[m].in_len()],
            None => &[],
        }
    }
    pub fn out_bytes<'a>(&self, m: usize, img: &'a [u8]) -> &'a [u8] {
        match self.out[m] {
            Some(b) => &img[b..b + self.mods[m].out_len()],
            None => &[],
        }
    }
    /// Raw values (serial frames undigested) of the input image.
    pub fn decode_in(&self, img: &[u16]) -> Option<Vec<Vec<V>>> {
        let b = to_bytes(img);
        (0..self.mods.len())
            .map(|m| self.mods[m].decode_in(self.in_bytes(m, &b)))
            .collect()
    }
    pub fn decode_out(&self, img: &[u16]) -> Option<Vec<Vec<V>>> {
        let b = to_bytes(img);
        (0..self.mods.len())
            .map(|m| self.mods[m].decode_out(self.out_bytes(m, &b)))
            .collect()
    }
    pub fn has(&self, k: K) -> bool {
        self.mods.iter().any(|m| m.k == k)
    }
}

pub fn to_bytes(regs: &[u16]) -> Vec<u8> {
    regs.iter().flat_map(|r| [*r as u8, (*r >> 8) as u8]).collect()
}

pub fn to_regs(bytes: &[u8]) -> Vec<u16> {
    bytes
        .chunks(2)
        .map(|c| u16::from(c[0]) | u16::from(*c.get(1).unwrap_or(&0)) << 8)
        .collect()
}

/// Reference for a whole coupler whose serial modules have nothing queued and
/// are offered whatever the images contain.
#[derive(Clone, Debug)]
pub struct Ref {
    pub rack: Rack,
    /// successful cycles so far
    pub cycles: usize,
    /// transmit counter each serial module had in the previous image
    pub last_tx: Vec<u8>,
}

pub struct Expect {
    pub image: Vec<u16>,
    pub inputs: Vec<Vec<V>>,
    pub outputs: Vec<Vec<V>>,
}

impl Ref {
    pub fn new(rack: &Rack) -> Ref {
        Ref {
            rack: rack.clone(),
            cycles: 0,
            last_tx: vec![0; rack.mods.len()],
        }
    }
    /// Expected result of a cycle; `None` = must be refused.
    /// `put` may modify the held bytes of the non-serial modules.
    pub fn cycle(
        &mut self,
        inp: &[u16],
        out: &[u16],
        put: impl Fn(usize, &mut [u8]),
    ) -> Option<Expect> {
        let rack = &self.rack;
        let mut inputs = rack.decode_in(inp)?;
        let mut outputs = rack.decode_out(out)?;
        let ob = to_bytes(out);
        let ib = to_bytes(inp);
        let mut img = vec![0u8; rack.out_regs * 2];
        let mut last = self.last_tx.clone();
        for m in 0..rack.mods.len() {
            let Some(at) = rack.out[m] else { continue };
            let md = &rack.mods[m];
            let held = rack.out_bytes(m, &ob);
            let bytes = if md.k == K::Com {
                let i = rack.in_bytes(m, &ib);
                let (b, li, lo) = com_idle(self.cycles, last[m], i, held);
                inputs[m] = vec![li];
                outputs[m] = vec![lo];
                last[m] = held[0] >> 3 & 3;
                b
            } else {
                let mut b = md.hold(held)?;
                put(m, &mut b);
                b
            };
            img[at..at + bytes.len()].copy_from_slice(&bytes);
        }
        self.last_tx = last;
        self.cycles += 1;
        Some(Expect {
            image: to_regs(&img),
            inputs,
            outputs,
        })
    }
}

/// Frame, reported input and reported output of a serial module with nothing
/// to send in its `n`-th cycle.
fn com_idle(n: usize, last_tx: u8, i: &[u8], o: &[u8]) -> (Vec<u8>, V, V) {
    let mut f = vec![0u8; o.len()];
    let len = usize::from(o[1]);
    let rx = i[0] >> 3 & 3;
    f[0] = o[0] & 0b1001_1111 | rx << 5;
    match n {
        0 => f[0] = f[0] & 0x7F | 0b11,
        1 => f[0] = f[0] & !0b11 | 0x80,
        _ => {
            f[1] = o[1];
            f[2..2 + len].copy_from_slice(&o[2..2 + len]);
        }
    }
    let ilen = usize::from(i[1]);
    let rin = if i[0] & 1 == 1 && ilen > 0 {
        V::Bytes(i[2..2 + ilen].to_vec())
    } else {
        V::NoValue
    };
    let tx = o[0] >> 3 & 3;
    let rout = if tx != last_tx && len > 0 {
        V::Bytes(o[2..2 + len].to_vec())
    } else {
        V::NoValue
    };
    (f, rin, rout)
}
