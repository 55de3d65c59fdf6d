//! Histories of calls on one coupler. The environment (serial devices, the
//! output image that is fed back) is a deterministic function of the history,
//! so two runs of the same history can be compared call by call.

use crate::rack::*;
use crate::spec::*;
use ur20::ur20_fbc_mod_tcp::Coupler;
use ur20::{Address, ChannelValue};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// set_output with a usable request
    Set(usize, usize, Req),
    /// set_output with bytes for a serial module
    SetBytes(usize, u8, usize),
    /// writer: `n` bytes starting with the given value
    Write(usize, u8, usize),
    /// reader with a buffer of that size
    Read(usize, usize),
    /// A usable cycle. `0`: previous image, devices acknowledge; `1`: other
    /// outputs, devices acknowledge and present a new segment; `2`: as 0 but
    /// the devices do not react.
    Cycle(u8),
    /// An unusable cycle of that kind.
    BadCycle(u8),
    /// A refused request.
    BadSet(usize, usize, ChannelValue),
}

#[derive(Clone, Copy, Default, Debug)]
struct Dev {
    rx: u8,
    ack: u8,
    len: usize,
    seed: u8,
    avail: bool,
}

pub struct Run {
    pub rack: Rack,
    pub c: Coupler,
    img: Vec<u8>,
    dev: Vec<Dev>,
    n: usize,
    /// images given to the last usable cycle
    pub given: (Vec<u16>, Vec<u16>),
    /// points left inside library calls before the turn is handed over
    pub arm: u64,
    /// take the images from where all couplers of this thread find theirs
    pub in_place: bool,
}

/// What a call returned and what the coupler reports afterwards.
pub type Obs = String;

pub const BAD_KINDS: u8 = 8;

impl Run {
    pub fn new(rack: &Rack) -> Result<Run, String> {
        Ok(Run::with(rack, rack.coupler()?))
    }

    /// With a coupler that has been created for this rack.
    pub fn with(rack: &Rack, c: Coupler) -> Run {
        Run {
            c,
            img: vec![0; rack.out_regs * 2],
            dev: vec![Dev::default(); rack.mods.len()],
            rack: rack.clone(),
            n: 0,
            given: Default::default(),
            arm: 0,
            in_place: false,
        }
    }

    fn next(&mut self, i: &[u16], o: &[u16]) -> Result<Vec<u16>, ur20::Error> {
        if self.in_place {
            crate::racks::in_place(i, o, |i, o| self.c.next(i, o))
        } else {
            self.c.next(i, o)
        }
    }

    fn report(&self) -> String {
        format!("inputs {:?} outputs {:?}", self.c.inputs(), self.c.outputs())
    }

    fn in_image(&self, dev: &[Dev], n: usize) -> Vec<u8> {
        let mut v: Vec<u8> = (0..self.rack.in_regs * 2)
            .map(|i| (i * 29 + n * 53 + 7) as u8)
            .collect();
        for (m, md) in self.rack.mods.iter().enumerate() {
            if md.k != K::Com {
                continue;
            }
            let (at, d) = (self.rack.inp[m].unwrap(), dev[m]);
            v[at..at + md.com_len()].fill(0);
            v[at] = u8::from(d.avail) | d.rx << 3 | d.ack << 5 | 0x80;
            v[at + 1] = d.len as u8;
            for j in 0..d.len {
                v[at + 2 + j] = d.seed.wrapping_add(j as u8);
            }
        }
        v
    }

    /// Output image with other, but usable contents for the non-serial modules.
    fn other_out(&self, n: usize) -> Vec<u8> {
        let mut v = self.img.clone();
        for (m, md) in self.rack.mods.iter().enumerate() {
            if md.k == K::Com {
                continue;
            }
            let Some(at) = self.rack.out[m] else { continue };
            for j in 0..md.out_len() {
                v[at + j] = (j * 91 + n * 17 + m + 3) as u8;
            }
            if md.k == K::Fcnt {
                for ch in 0..2 {
                    v[at + 4 * ch] &= 0x7F;
                    v[at + 4 * ch + 1] = 0;
                }
            }
        }
        v
    }

    /// The devices take over what the last image offers.
    fn react(&self, dev: &mut [Dev], ack: bool, present: bool) {
        for (m, md) in self.rack.mods.iter().enumerate() {
            if md.k != K::Com {
                continue;
            }
            let b = self.rack.out_bytes(m, &self.img);
            let d = &mut dev[m];
            if ack {
                d.ack = b[0] >> 3 & 3;
            }
            if present {
                d.rx = (d.rx + 1) % 4;
                d.avail = true;
                d.len = 1 + (self.n * 3 + m) % (md.com_len() - 2);
                d.seed = (self.n * 40 + m * 7 + 1) as u8;
            }
        }
    }

    pub fn apply(&mut self, op: &Op) -> Obs {
        let o = self.exec(op);
        match op {
            Op::Cycle(_) | Op::BadCycle(_) if o != "bad cycle accepted" => {
                format!("{o} {}", self.report())
            }
            _ => o,
        }
    }

    /// As `apply`, but only what the call returned.
    pub fn exec(&mut self, op: &Op) -> Obs {
        match op {
            Op::Set(m, ch, q) => {
                let v = q.value(&self.rack.mods[*m], *ch);
                let a = Address {
                    module: *m,
                    channel: *ch,
                };
                crate::alloc::arm(self.arm);
                let r = self.c.set_output(&a, v).is_ok();
                self.arm = crate::alloc::disarm();
                format!("set {r}")
            }
            Op::BadSet(m, ch, v) => {
                let a = Address {
                    module: *m,
                    channel: *ch,
                };
                let v = v.clone();
                crate::alloc::arm(self.arm);
                let r = self.c.set_output(&a, v).is_ok();
                self.arm = crate::alloc::disarm();
                format!("set {r}")
            }
            Op::SetBytes(m, s, n) => {
                let a = Address {
                    module: *m,
                    channel: 0,
                };
                let b: Vec<u8> = (0..*n).map(|i| s.wrapping_add(i as u8)).collect();
                format!("set {}", self.c.set_output(&a, ChannelValue::Bytes(b)).is_ok())
            }
            Op::Write(m, s, n) => {
                let b: Vec<u8> = (0..*n).map(|i| s.wrapping_add(i as u8)).collect();
                match self.c.writer(*m) {
                    Some(w) => {
                        crate::alloc::arm(self.arm);
                        let r = w.write_all(&b).is_ok();
                        self.arm = crate::alloc::disarm();
                        format!("write {r}")
                    }
                    None => "no writer".into(),
                }
            }
            Op::Read(m, n) => {
                let mut buf = vec![0xEE; *n];
                match self.c.reader(*m) {
                    Some(r) => {
                        crate::alloc::arm(self.arm);
                        let r = crate::com::read_full(r, &mut buf);
                        self.arm = crate::alloc::disarm();
                        match r {
                            Ok(k) => format!("read {:?}", &buf[..k.min(*n)]),
                            Err(_) => "read error".into(),
                        }
                    }
                    None => "no reader".into(),
                }
            }
            Op::Cycle(kind) => {
                let mut d = self.dev.clone();
                self.react(&mut d, *kind != 2, *kind == 1);
                let i = to_regs(&self.in_image(&d, self.n));
                let o = if *kind == 1 {
                    self.other_out(self.n)
                } else {
                    self.img.clone()
                };
                self.dev = d;
                self.n += 1;
                let o = to_regs(&o);
                crate::alloc::arm(self.arm);
                let r = self.next(&i, &o);
                self.arm = crate::alloc::disarm();
                self.given = (i, o);
                match r {
                    Ok(img) => {
                        self.img = to_bytes(&img);
                        self.img.resize(self.rack.out_regs * 2, 0);
                        format!("cycle {img:04x?}")
                    }
                    Err(e) => format!("cycle failed {e:?}"),
                }
            }
            Op::BadCycle(kind) => {
                // Contents differ from every good cycle so that anything
                // taken from them is visible later.
                let mut d = self.dev.clone();
                self.react(&mut d, true, true);
                for (j, x) in d.iter_mut().enumerate() {
                    x.seed = 200u8.wrapping_add(j as u8);
                }
                let mut i = self.in_image(&d, self.n + 100);
                let mut o = self.other_out(self.n + 100);
                let coms: Vec<usize> = (0..self.rack.mods.len())
                    .filter(|m| self.rack.mods[*m].k == K::Com)
                    .collect();
                for &m in &coms {
                    // another transmit counter than before
                    let at = self.rack.out[m].unwrap();
                    o[at] ^= 0x18;
                    o[at + 1] = 2;
                }
                match kind {
                    0 => {
                        i.pop();
                        i.pop();
                    }
                    1 => {
                        o.pop();
                        o.pop();
                    }
                    2 => i.clear(),
                    3 => o.clear(),
                    4 | 5 => {
                        // malformed serial input frame, first or last serial module
                        let m = if *kind == 4 { coms.first() } else { coms.last() };
                        match m {
                            Some(m) => {
                                i[self.rack.inp[*m].unwrap() + 1] =
                                    (self.rack.mods[*m].com_len() - 1) as u8
                            }
                            None => i.clear(),
                        }
                    }
                    6 => match coms.last() {
                        Some(m) => o[self.rack.out[*m].unwrap() + 1] = 255,
                        None => o.clear(),
                    },
                    _ => match self.rack.mods.iter().position(|m| m.k == K::Fcnt) {
                        Some(m) => {
                            let at = self.rack.out[m].unwrap();
                            o[at + 1] = 1; // first channel: 0x01xx_xxxx microseconds
                        }
                        None => o.clear(),
                    },
                }
                let (i, o) = (to_regs(&i), to_regs(&o));
                crate::alloc::arm(self.arm);
                let r = self.next(&i, &o);
                self.arm = crate::alloc::disarm();
                match r {
                    Ok(_) => "bad cycle accepted".into(),
                    Err(_) => "bad cycle refused".into(),
                }
            }
        }
    }
}

/// Usable calls for any rack. The first counter channel is never requested (a
/// request for it would repair `BadCycle(7)`).
pub fn calls(rack: &Rack) -> Vec<Op> {
    let mut v = vec![Op::Cycle(0), Op::Cycle(1)];
    for (m, md) in rack.mods.iter().enumerate() {
        if md.k == K::Com {
            v.push(Op::SetBytes(m, 5, 4));
            v.push(Op::Write(m, 60, 9));
            v.push(Op::Read(m, 3));
        }
        if md.k.is_output() {
            let last = md.k.channels() - 1;
            if md.k != K::Fcnt {
                v.push(Op::Set(m, 0, md.reqs(0)[0].clone()));
            }
            v.push(Op::Set(m, last, md.reqs(last)[0].clone()));
            v.push(Op::Set(m, last, md.reqs(last)[1].clone()));
        }
    }
    v
}

/// Kinds of unusable cycles this rack can have.
pub fn bad_kinds(rack: &Rack) -> Vec<u8> {
    let com = rack.has(K::Com);
    (0..BAD_KINDS)
        .filter(|k| match k {
            0 | 2 => rack.in_regs > 0,
            1 | 3 => rack.out_regs > 0,
            4..=6 => com,
            _ => rack.has(K::Fcnt),
        })
        .collect()
}

/// Calls after which everything queued or received has become visible.
pub fn epilogue(rack: &Rack) -> Vec<Op> {
    let mut v = vec![Op::Cycle(0), Op::Cycle(1), Op::Cycle(0), Op::Cycle(0)];
    for (m, md) in rack.mods.iter().enumerate() {
        if md.k == K::Com {
            v.push(Op::Read(m, 100));
        }
    }
    v
}

/// Calls after which the rack is in full operation: serial modules have just
/// reported data in both directions and have more to send and to read.
pub fn running(rack: &Rack) -> Vec<Op> {
    if !rack.has(K::Com) {
        return vec![Op::Cycle(0), Op::Cycle(1), Op::Cycle(0)];
    }
    let coms: Vec<usize> = (0..rack.mods.len()).filter(|m| rack.mods[*m].k == K::Com).collect();
    let mut v = vec![Op::Cycle(0), Op::Cycle(0)];
    v.extend(coms.iter().map(|m| Op::Write(*m, 100, 20 + m % 9)));
    v.extend([Op::Cycle(1), Op::Cycle(1)]);
    v
}

/// Observations of a whole history.
pub fn observe(rack: &Rack, ops: &[Op]) -> Result<Vec<Obs>, String> {
    let mut r = Run::new(rack)?;
    Ok(ops.iter().map(|o| r.apply(o)).collect())
}

pub fn script(ops: &[Op]) -> String {
    ops.iter()
        .enumerate()
        .map(|(i, o)| format!("  {i}: {o:?}"))
        .collect::<Vec<_>>()
        .join("\n")
}

/// Decode `i` as `len` digits of base `n`.
pub fn digits(mut i: u64, n: usize, len: usize) -> Vec<usize> {
    (0..len)
        .map(|_| {
            let d = (i % n as u64) as usize;
            i /= n as u64;
            d
        })
        .collect()
}

/// Positions from `n` on that equal one below `n` in their lower bits.
pub fn far_positions(n: usize) -> Vec<usize> {
    let mut v = vec![usize::MAX, usize::MAX - 1];
    for s in 0..usize::BITS {
        for k in 0..n.min(20) {
            let x = (1usize << s).wrapping_add(k);
            if x >= n {
                v.push(x);
            }
        }
    }
    v
}

/// A long session of `n` cycles (and some more calls) in which every call is
/// made over and over again, at changing places.
pub fn long_session(rack: &Rack, n: usize) -> Vec<Op> {
    let mut al: Vec<Op> = calls(rack).into_iter().filter(|o| !matches!(o, Op::Cycle(_))).collect();
    for (m, md) in rack.mods.iter().enumerate() {
        if md.k == K::Com {
            al.push(Op::Read(m, 100));
        }
    }
    let mut v = vec![];
    for j in 0..n {
        v.push(Op::Cycle([0, 1, 1, 0, 2, 1, 0][j % 7]));
        if j % 3 != 1 && !al.is_empty() {
            let k = j / 3 * 2 + j % 3 / 2;
            v.push(al[(k + k / al.len() * 2) % al.len()].clone());
        }
    }
    v.extend(epilogue(rack));
    v
}

/// Racks for long sessions, `i` below 12.
pub fn session_rack(i: usize) -> Rack {
    let mods = match i {
        0 => vec![M::com(true)],
        1 => vec![M::com(false), M::typical(K::Do4)],
        2 => vec![M::typical(K::Fcnt), M::com(true)],
        3 => vec![M::com(false), M::typical(K::Ao4), M::com(true)],
        _ => (0..3).map(|j| M::shape((i * 5 + j * 7) % SHAPES, j)).collect(),
    };
    Rack::new(mods, STYLES[i % 3])
}

/// The same calls on two couplers, `between` done on the second one before
/// every cycle. All answers and reports must be the same.
pub fn side_by_side(
    rack: &Rack,
    ops: &[Op],
    what: &str,
    mut between: impl FnMut(&mut Run, usize) -> Result<(), String>,
) -> Result<(), String> {
    let (mut a, mut b) = (Run::new(rack)?, Run::new(rack)?);
    for (n, op) in ops.iter().enumerate() {
        if matches!(op, Op::Cycle(_)) {
            between(&mut b, n).map_err(|e| format!("{}\nbefore call {n} of a long session: {e}", rack.describe()))?;
        }
        let (x, y) = (a.exec(op), b.exec(op));
        let same = x == y && a.c.inputs() == b.c.inputs() && a.c.outputs() == b.c.outputs();
        if !same || x.contains("failed") {
            return Err(format!(
                "{}\ncall {n} ({op:?}) of a long session (hist::long_session) with {what} gives\n{y} {}\nwithout\n{x} {}\nthe calls before were {:?}",
                rack.describe(),
                b.report(),
                a.report(),
                &ops[n.saturating_sub(20)..n]
            ));
        }
    }
    Ok(())
}
