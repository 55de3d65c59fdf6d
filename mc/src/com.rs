//! Serial modules: a device model closed around the real code (the message
//! processor itself, or a whole coupler), explored breadth-first.

use crate::engine::{family, hash128, Family, Out, Res};
use crate::rack::*;
use crate::spec::*;
use crate::{ensure, fail};
use std::collections::{HashMap, VecDeque};
use std::io::{self, IoSlice, IoSliceMut, Read, Write};
use ur20::ur20_1com_232_485_422::{
    MessageProcessor, ProcessDataLength, ProcessInput, ProcessOutput,
};
use ur20::ur20_fbc_mod_tcp::Coupler;
use ur20::{Address, ChannelValue};

/// Where the serial module lives.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Target {
    /// the public message processor
    Processor,
    /// the only module of a coupler
    Coupler,
    /// behind a one-byte module, in the high byte of a register
    CouplerOdd,
}

pub enum Port {
    P(MessageProcessor),
    C(Box<(Coupler, Rack, usize)>),
}

pub fn size_of(eight: bool) -> usize {
    if eight {
        8
    } else {
        16
    }
}

pub fn in_msg(f: &[u8]) -> ProcessInput {
    let n = usize::from(f[1]);
    let mut m = ProcessInput::default();
    m.data_available = f[0] & 1 != 0;
    m.buffer_nearly_full = f[0] & 2 != 0;
    m.rx_cnt = usize::from(f[0] >> 3 & 3);
    m.tx_cnt_ack = usize::from(f[0] >> 5 & 3);
    m.ready = f[0] & 0x80 != 0;
    m.data = f[2..2 + n].to_vec();
    m
}

pub fn out_msg(f: &[u8]) -> ProcessOutput {
    let n = usize::from(f[1]);
    let mut m = ProcessOutput::default();
    m.rx_buf_flush = f[0] & 1 != 0;
    m.tx_buf_flush = f[0] & 2 != 0;
    m.disable_tx_hw_buffer = f[0] & 4 != 0;
    m.tx_cnt = usize::from(f[0] >> 3 & 3);
    m.rx_cnt_ack = usize::from(f[0] >> 5 & 3);
    m.reset = f[0] & 0x80 != 0;
    m.data = f[2..2 + n].to_vec();
    m
}

pub fn out_frame(m: &ProcessOutput, size: usize) -> Result<Vec<u8>, String> {
    ensure!(m.tx_cnt < 4 && m.rx_cnt_ack < 4, "counter out of range: {m:?}");
    ensure!(m.data.len() <= size - 2, "too much data: {m:?}");
    let mut f = vec![0u8; size];
    f[0] = u8::from(m.rx_buf_flush)
        | u8::from(m.tx_buf_flush) << 1
        | u8::from(m.disable_tx_hw_buffer) << 2
        | (m.tx_cnt as u8) << 3
        | (m.rx_cnt_ack as u8) << 5
        | u8::from(m.reset) << 7;
    f[1] = m.data.len() as u8;
    f[2..2 + m.data.len()].copy_from_slice(&m.data);
    Ok(f)
}

impl Port {
    pub fn new(t: Target, eight: bool) -> Result<Port, String> {
        Ok(match t {
            Target::Processor => Port::P(MessageProcessor::new(if eight {
                ProcessDataLength::EightBytes
            } else {
                ProcessDataLength::SixteenBytes
            })),
            Target::Coupler | Target::CouplerOdd => {
                let mut mods = vec![M::com(eight)];
                if t == Target::CouplerOdd {
                    mods.insert(0, M::typical(K::Do8));
                    mods.insert(0, M::typical(K::Pf));
                    mods.push(M::typical(K::Di8));
                }
                let at = mods.iter().position(|m| m.k == K::Com).unwrap();
                let r = Rack::new(mods, Style::Packed);
                let c = r.coupler()?;
                Port::C(Box::new((c, r, at)))
            }
        })
    }
    pub fn writer(&mut self) -> Result<&mut dyn Write, String> {
        match self {
            Port::P(p) => Ok(p),
            Port::C(c) => {
                let at = c.2;
                c.0.writer(at).ok_or(format!("writer({at}) of a serial module is missing"))
            }
        }
    }
    pub fn reader(&mut self) -> Result<&mut dyn Read, String> {
        match self {
            Port::P(p) => Ok(p),
            Port::C(c) => {
                let at = c.2;
                c.0.reader(at).ok_or(format!("reader({at}) of a serial module is missing"))
            }
        }
    }
    /// Write the pieces one after the other in one of `WRITE_WAYS` ways.
    pub fn write_way(&mut self, way: usize, pieces: &[&[u8]]) -> Res {
        let all = pieces.concat();
        let w = self.writer()?;
        let r: io::Result<()> = match way {
            0 => w.write_all(&all),
            1 => pieces.iter().try_for_each(|p| w.write_all(p)),
            2 | 3 => (|| {
                // vectored, going on after what was taken
                let mut done = 0;
                while done < all.len() {
                    let mut skip = done;
                    let mut v = vec![];
                    for p in pieces {
                        let k = skip.min(p.len());
                        skip -= k;
                        if way == 2 || k < p.len() {
                            v.push(IoSlice::new(&p[k..]));
                        }
                    }
                    match w.write_vectored(&v)? {
                        0 => return Err(io::Error::other("nothing taken")),
                        n => done += n,
                    }
                }
                Ok(())
            })(),
            4 => {
                let t: Vec<_> = pieces.iter().map(|p| String::from_utf8_lossy(p)).collect();
                t.iter().try_for_each(|t| write!(w, "{t}"))
            }
            5 => io::copy(&mut &all[..], w).map(|_| ()),
            6 => (|| {
                let mut b = io::BufWriter::with_capacity(9, w);
                for p in pieces {
                    b.write_all(p)?;
                }
                b.flush()
            })(),
            _ => (|| {
                let mut b = io::LineWriter::new(w);
                for p in pieces {
                    b.write_all(p)?;
                }
                b.flush()
            })(),
        };
        ensure!(r.is_ok(), "writing {all:02x?} (way {way}) ended with {r:?}");
        Ok(())
    }
    /// Read in one of `READ_WAYS` ways; `n` bytes are there (exactly).
    pub fn read_way(&mut self, way: usize, n: usize, sizes: &[usize]) -> Result<Vec<u8>, String> {
        let r = self.reader()?;
        let mut v = vec![];
        let res: io::Result<()> = match way {
            0 => r.read_to_end(&mut v).map(|_| ()),
            1 => {
                v = vec![0; n];
                r.read_exact(&mut v)
            }
            2 => (|| loop {
                let mut b: Vec<Vec<u8>> = sizes.iter().map(|s| vec![0; *s]).collect();
                let mut s: Vec<IoSliceMut> = b.iter_mut().map(|b| IoSliceMut::new(b)).collect();
                let k = r.read_vectored(&mut s)?;
                if k == 0 {
                    return Ok(());
                }
                let c = b.concat();
                if k > c.len() || v.len() > n {
                    return Err(io::Error::other(format!("{k} bytes read into {} bytes", c.len())));
                }
                v.extend_from_slice(&c[..k]);
            })(),
            3 => io::copy(r, &mut v).map(|_| ()),
            4 => r.bytes().take(n + 1).try_for_each(|b| {
                v.push(b?);
                Ok(())
            }),
            5 => (|| {
                // pieces by limited readers, then the rest
                for s in sizes {
                    (&mut *r).take(*s as u64).read_to_end(&mut v)?;
                }
                r.read_to_end(&mut v).map(|_| ())
            })(),
            6 => {
                let mut s = String::new();
                r.read_to_string(&mut s).map(|_| v = s.into_bytes())
            }
            7 => (|| {
                for s in sizes {
                    let mut b = vec![0; (*s).min(n - v.len())];
                    r.read_exact(&mut b)?;
                    v.extend(b);
                }
                let mut b = vec![0; n - v.len()];
                r.read_exact(&mut b)?;
                v.extend(b);
                Ok(())
            })(),
            _ => io::BufReader::with_capacity(7, r).read_to_end(&mut v).map(|_| ()),
        };
        ensure!(res.is_ok(), "reading {n} bytes (way {way}) ended with {res:?}");
        Ok(v)
    }
    pub fn write(&mut self, b: &[u8]) -> Res {
        let mut rest = b;
        loop {
            let r = self.writer()?.write(rest);
            // flushing is optional and never loses or changes anything
            if b.len() % 2 == 0 {
                let f = self.writer()?.flush();
                ensure!(f.is_ok(), "flush returned {f:?}");
            }
            match r {
                Ok(n) if n == rest.len() => return Ok(()),
                // a short write: the rest is written by the caller
                Ok(n) if n < rest.len() && n > 0 => rest = &rest[n..],
                r => fail!("write of {} bytes returned {r:?}", rest.len()),
            }
        }
    }
    /// Queue bytes as an output request.
    pub fn set(&mut self, b: &[u8]) -> Res {
        match self {
            Port::P(_) => unreachable!(),
            Port::C(c) => {
                let a = Address {
                    module: c.2,
                    channel: 0,
                };
                c.0.set_output(&a, ChannelValue::Bytes(b.to_vec()))
                    .map_err(|e| format!("set_output of bytes refused: {e:?}"))
            }
        }
    }
    pub fn read(&mut self, n: usize) -> Result<Vec<u8>, String> {
        let mut buf = vec![0xEE; n];
        let r = match self {
            Port::P(p) => read_full(p, &mut buf),
            Port::C(c) => {
                let at = c.2;
                match c.0.reader(at) {
                    Some(r) => read_full(r, &mut buf),
                    None => fail!("reader({at}) of a serial module is missing"),
                }
            }
        };
        match r {
            Ok(k) if k <= n => {
                buf.truncate(k);
                Ok(buf)
            }
            r => Err(format!("read with a buffer of {n} returned {r:?}")),
        }
    }
    pub fn cycle(&mut self, i: &[u8], o: &[u8]) -> Result<Vec<u8>, String> {
        match self {
            Port::P(p) => out_frame(&p.next(&in_msg(i), &out_msg(o)), o.len()),
            Port::C(c) => {
                let (c, r, at) = &mut **c;
                let mut ib = vec![0u8; r.in_regs * 2];
                let mut ob = vec![0u8; r.out_regs * 2];
                let (ia, oa) = (r.inp[*at].unwrap(), r.out[*at].unwrap());
                ib[ia..ia + i.len()].copy_from_slice(i);
                ob[oa..oa + o.len()].copy_from_slice(o);
                let img = c
                    .next(&to_regs(&ib), &to_regs(&ob))
                    .map_err(|e| format!("cycle failed: {e:?}"))?;
                ensure!(img.len() == r.out_regs, "image of {} registers", img.len());
                Ok(to_bytes(&img)[oa..oa + o.len()].to_vec())
            }
        }
    }
    pub fn key(&self) -> String {
        match self {
            Port::P(p) => format!("{p:?}"),
            Port::C(c) => format!("{:?}", c.0),
        }
    }
}

/// One configuration of the closed system.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub target: Target,
    pub eight: bool,
    /// acknowledged transmit counter the device starts with
    pub ack0: u8,
    /// a foreign segment is still unacknowledged at the start
    pub pending0: bool,
    /// counter of the segment on offer at the start
    pub rx0: u8,
    pub avail0: bool,
    /// payload bytes are counted modulo this number
    pub period: u8,
    /// received bytes come from the same values as written ones
    pub same: bool,
    /// written bytes not yet taken over by the device
    pub tx_limit: usize,
    pub rx_limit: usize,
    pub writes: Vec<usize>,
    /// lengths queued with set_output (coupler only)
    pub sets: Vec<usize>,
    pub segs: Vec<usize>,
    pub reads: Vec<usize>,
    /// the device may change its status flags at any time
    pub flags: bool,
    /// the device may show a counter (and data) before it flags the segment as
    /// available, and may hide and show a segment again
    pub shy: bool,
    /// which clauses to assert
    pub what: What,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum What {
    /// C07
    TxData,
    /// C08
    RxData,
    /// C10
    Progress,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    Cycle,
    Write(u16),
    Set(u16),
    Take,
    Ack,
    Present(u16),
    Withdraw,
    Announce(u16),
    Hide,
    Show,
    Read(u16),
    NearlyFull,
    Ready,
}

pub struct World {
    pub cfg: Cfg,
    port: Port,
    cycles: usize,
    frame: Vec<u8>,
    /// transmit side
    ack: u8,
    taken: u8,
    lib_seg: bool,
    tx_exp: VecDeque<u8>,
    tx_seq: usize,
    set_pending: Vec<u8>,
    /// receive side
    rx: u8,
    avail: bool,
    seg: Vec<u8>,
    seg_new: bool,
    rx_exp: VecDeque<u8>,
    rx_seq: usize,
    rx_acked: bool,
    nearly_full: bool,
    ready: bool,
    pub log: Option<Vec<String>>,
    pub sent_segments: usize,
}

impl World {
    pub fn new(cfg: &Cfg) -> Result<World, String> {
        let size = size_of(cfg.eight);
        let t0 = if cfg.pending0 {
            (cfg.ack0 + 1) % 4
        } else {
            cfg.ack0
        };
        let mut frame = vec![0u8; size];
        frame[0] = t0 << 3 | cfg.rx0 << 5;
        if cfg.pending0 {
            frame[1] = 3;
            frame[2..5].copy_from_slice(&[0xF1, 0xF2, 0xF3]);
        }
        Ok(World {
            port: Port::new(cfg.target, cfg.eight)?,
            cycles: 0,
            frame,
            ack: cfg.ack0,
            taken: cfg.ack0,
            lib_seg: false,
            tx_exp: VecDeque::new(),
            tx_seq: 0,
            set_pending: vec![],
            rx: cfg.rx0,
            avail: cfg.avail0,
            seg: if cfg.avail0 { vec![0xD0, 0xD1] } else { vec![] },
            seg_new: cfg.avail0,
            rx_exp: VecDeque::new(),
            rx_seq: 0,
            rx_acked: false,
            nearly_full: false,
            ready: true,
            log: None,
            cfg: cfg.clone(),
            sent_segments: 0,
        })
    }

    fn t(&self) -> u8 {
        self.frame[0] >> 3 & 3
    }

    fn in_frame(&self) -> Vec<u8> {
        let mut f = vec![0u8; self.frame.len()];
        f[0] = u8::from(self.avail)
            | u8::from(self.nearly_full) << 1
            | self.rx << 3
            | self.ack << 5
            | u8::from(self.ready) << 7;
        f[1] = self.seg.len() as u8;
        f[2..2 + self.seg.len()].copy_from_slice(&self.seg);
        f
    }

    pub fn events(&self) -> Vec<Ev> {
        let c = &self.cfg;
        let mut v = vec![Ev::Cycle];
        if self.t() != self.taken {
            v.push(Ev::Take);
        }
        if self.ack != self.taken {
            v.push(Ev::Ack);
        }
        if self.set_pending.is_empty() {
            for &n in &c.writes {
                if self.tx_exp.len() + n <= c.tx_limit {
                    v.push(Ev::Write(n as u16));
                }
            }
            for &n in &c.sets {
                if self.tx_exp.len() + n <= c.tx_limit {
                    v.push(Ev::Set(n as u16));
                }
            }
        }
        let announced = self.seg_new && !self.avail;
        if self.rx_acked && !announced {
            for &n in &c.segs {
                if self.rx_exp.len() + n <= c.rx_limit {
                    v.push(Ev::Present(n as u16));
                    if c.shy {
                        v.push(Ev::Announce(n as u16));
                    }
                }
            }
            if c.shy && self.avail {
                v.push(Ev::Hide);
            }
            if self.avail && !c.segs.is_empty() {
                v.push(Ev::Withdraw);
            }
        }
        if c.shy && !self.avail && (announced || !self.seg.is_empty()) {
            v.push(Ev::Show);
        }
        if !c.segs.is_empty() {
            for &n in &c.reads {
                if n == 0 || !self.rx_exp.is_empty() || n == c.reads[0] {
                    v.push(Ev::Read(n as u16));
                }
            }
        }
        if c.flags {
            v.push(Ev::NearlyFull);
            v.push(Ev::Ready);
        }
        v
    }

    fn note(&mut self, s: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            let s = s();
            l.push(s);
        }
    }

    fn payload(&mut self, n: usize, rx: bool) -> Vec<u8> {
        let p = usize::from(self.cfg.period);
        let first = if rx && !self.cfg.same { 0x80 } else { 0x10 };
        let seq = if rx { &mut self.rx_seq } else { &mut self.tx_seq };
        (0..n)
            .map(|_| {
                let b = first + (*seq % p) as u8;
                *seq = (*seq + 1) % (p * 1000);
                b
            })
            .collect()
    }

    pub fn apply(&mut self, e: Ev) -> Res {
        self.note(|| format!("{e:?}"));
        match e {
            Ev::Write(n) => {
                let b = self.payload(usize::from(n), false);
                self.port.write(&b)?;
                self.tx_exp.extend(b);
            }
            Ev::Set(n) => {
                let b = self.payload(usize::from(n), false);
                self.port.set(&b)?;
                self.set_pending = b;
            }
            Ev::Take => {
                self.taken = self.t();
                if self.lib_seg {
                    let n = usize::from(self.frame[1]);
                    let data = self.frame[2..2 + n].to_vec();
                    self.sent_segments += 1;
                    if self.cfg.what == What::TxData {
                        ensure!(
                            n >= 1 && n <= self.frame.len() - 2,
                            "segment of {n} bytes transmitted"
                        );
                        ensure!(
                            self.tx_exp.len() >= n && data.iter().eq(self.tx_exp.iter().take(n)),
                            "the device received {data:02x?}, but the bytes written and not yet transmitted are {:02x?}",
                            self.tx_exp
                        );
                    }
                    let k = n.min(self.tx_exp.len());
                    self.tx_exp.drain(..k);
                }
            }
            Ev::Ack => self.ack = self.taken,
            Ev::Present(n) => {
                self.rx = (self.rx + 1) % 4;
                self.seg = self.payload(usize::from(n), true);
                self.avail = true;
                self.seg_new = true;
                self.rx_acked = false;
            }
            Ev::Withdraw => {
                self.avail = false;
                self.seg.clear();
                self.seg_new = false;
            }
            Ev::Announce(n) => {
                self.rx = (self.rx + 1) % 4;
                self.seg = self.payload(usize::from(n), true);
                self.avail = false;
                self.seg_new = true;
                self.rx_acked = false;
            }
            Ev::Hide => self.avail = false,
            Ev::Show => {
                self.avail = true;
                self.rx_acked &= !self.seg_new;
            }
            Ev::Read(n) => {
                let got = self.port.read(usize::from(n))?;
                let k = got.len();
                self.note(|| format!("  -> {got:02x?}"));
                if self.cfg.what == What::RxData {
                    ensure!(
                        n == 0 || k > 0 || self.rx_exp.is_empty(),
                        "a read returned nothing although {:02x?} were received",
                        self.rx_exp
                    );
                    ensure!(
                        k <= self.rx_exp.len() && got.iter().eq(self.rx_exp.iter().take(k)),
                        "a read returned {got:02x?}, but the bytes received and not yet read are {:02x?}",
                        self.rx_exp
                    );
                }
                let k = k.min(self.rx_exp.len());
                self.rx_exp.drain(..k);
            }
            Ev::NearlyFull => self.nearly_full = !self.nearly_full,
            Ev::Ready => self.ready = !self.ready,
            Ev::Cycle => self.cycle()?,
        }
        Ok(())
    }

    fn cycle(&mut self) -> Res {
        let i = self.in_frame();
        let o = self.frame.clone();
        let f = self.port.cycle(&i, &o)?;
        self.note(|| format!("  in {i:02x?} out {o:02x?} -> {f:02x?}"));
        let (t0, t1) = (o[0] >> 3 & 3, f[0] >> 3 & 3);
        let s = std::mem::take(&mut self.set_pending);
        self.tx_exp.extend(s);
        let running = self.cycles >= 2;
        let what = self.cfg.what;
        if what == What::RxData {
            ensure!(
                f[0] >> 5 & 3 == self.rx,
                "the cycle saw segment counter {} but acknowledges {}",
                self.rx,
                f[0] >> 5 & 3
            );
        }
        if t1 != t0 {
            self.lib_seg = true;
            if what == What::Progress {
                ensure!(
                    running,
                    "a segment is transmitted during initialisation"
                );
                ensure!(
                    self.ack == t0,
                    "segment {t0} is not acknowledged (device is at {}) but replaced by {t1}",
                    self.ack
                );
                ensure!(
                    t1 == (self.ack + 1) % 4,
                    "new segment uses counter {t1} after the acknowledged {}",
                    self.ack
                );
                ensure!(
                    !self.tx_exp.is_empty(),
                    "the transmit counter changed from {t0} to {t1} with nothing to send"
                );
            }
        } else if what == What::Progress && running {
            ensure!(
                f[1] == o[1] && f[2..] == o[2..],
                "the data of segment {t0} was altered: {o:02x?} became {f:02x?}"
            );
        }
        if running && self.avail && self.seg_new {
            self.rx_exp.extend(self.seg.iter().copied());
            self.seg_new = false;
        }
        self.rx_acked = f[0] >> 5 & 3 == self.rx;
        self.frame = f;
        self.cycles = (self.cycles + 1).min(2);
        Ok(())
    }

    pub fn key(&self) -> u128 {
        hash128(&format!("{}|{}", self.port.key(), self.observed()))
    }

    /// The state without the inside of the library.
    pub fn observed(&self) -> String {
        let p = usize::from(self.cfg.period);
        format!(
            "{}{:02x?}|{} {} {} {:?} {} {:?}|{} {} {:?} {} {:?} {} {}|{} {}",
            self.cycles,
            self.frame,
            self.ack,
            self.taken,
            self.lib_seg,
            self.tx_exp,
            self.tx_seq % p,
            self.set_pending,
            self.rx,
            self.avail,
            self.seg,
            self.seg_new,
            self.rx_exp,
            self.rx_seq % p,
            self.rx_acked,
            self.nearly_full,
            self.ready
        )
    }

    /// From here on the device keeps reacting: everything must get through.
    pub fn drain(&mut self) -> Res {
        let bound = 2 * (self.tx_exp.len() + self.set_pending.len()) + 8;
        let mut n = 0;
        loop {
            if self.t() != self.taken {
                self.apply(Ev::Take)?;
            }
            if self.ack != self.taken {
                self.apply(Ev::Ack)?;
            }
            if self.cycles >= 2 && self.tx_exp.is_empty() && self.set_pending.is_empty() {
                break;
            }
            if n >= bound {
                if self.cfg.what == What::RxData {
                    break;
                }
                fail!(
                    "after {n} further cycles with a device that keeps reacting, {:02x?} is still not transmitted",
                    self.tx_exp
                );
            }
            n += 1;
            self.apply(Ev::Cycle)?;
        }
        let f = self.frame.clone();
        for _ in 0..5 {
            self.apply(Ev::Cycle)?;
            if self.cfg.what == What::Progress {
                ensure!(
                    self.t() == f[0] >> 3 & 3 && self.frame[1..] == f[1..],
                    "with nothing to send the frame changed from {f:02x?} to {:02x?}",
                    self.frame
                );
            }
            if self.t() != self.taken {
                self.apply(Ev::Take)?;
                self.apply(Ev::Ack)?;
            }
        }
        // a segment still on offer was taken by these cycles
        let mut guard = 0;
        while !self.rx_exp.is_empty() && guard < 200 {
            self.apply(Ev::Read(3))?;
            guard += 1;
        }
        self.apply(Ev::Read(3))?;
        if self.cfg.what == What::RxData {
            ensure!(
                self.rx_exp.is_empty(),
                "{:02x?} received but never readable",
                self.rx_exp
            );
        }
        Ok(())
    }
}

/// Breadth-first closure of a configuration; returns whether it closed.
pub fn bfs(cfg: &Cfg, max_states: usize, out: &mut Out) -> Result<bool, String> {
    struct Node {
        parent: u32,
        ev: Ev,
        depth: u32,
    }
    let mut nodes: Vec<Node> = vec![];
    let mut seen: HashMap<u128, ()> = HashMap::new();
    let path = |nodes: &Vec<Node>, mut i: usize| {
        let mut p = vec![];
        while nodes[i].depth > 0 {
            p.push(nodes[i].ev);
            i = nodes[i].parent as usize;
        }
        p.reverse();
        p
    };
    let build = |p: &[Ev]| -> Result<World, String> {
        let mut w = World::new(cfg)?;
        for e in p {
            w.apply(*e)?;
        }
        Ok(w)
    };
    let explain = |p: &[Ev], last: Option<Ev>, msg: String| -> String {
        // once more with a log
        let mut log = vec![];
        if let Ok(mut w) = World::new(cfg) {
            w.log = Some(vec![]);
            let mut ok = true;
            for e in p.iter().copied().chain(last) {
                if w.apply(e).is_err() {
                    ok = false;
                    break;
                }
            }
            if ok && last.is_none() {
                w.note(|| "-- from here the device keeps reacting".into());
                let _ = w.drain();
            }
            log = w.log.unwrap();
        }
        format!("{cfg:?}\n{}\n{msg}", log.join("\n"))
    };
    let root = World::new(cfg)?;
    seen.insert(root.key(), ());
    nodes.push(Node {
        parent: 0,
        ev: Ev::Cycle,
        depth: 0,
    });
    let mut i = 0;
    let mut closed = true;
    while i < nodes.len() {
        let p = path(&nodes, i);
        let mut w = build(&p).map_err(|m| explain(&p, None, format!("replay diverged: {m}")))?;
        let evs = w.events();
        if out.transitions % 97 == 0 {
            // the same path must lead to the same observations again
            let k = build(&p)?.observed();
            ensure!(
                k == w.observed(),
                "{}",
                explain(&p, None, "two runs of the same events end differently".into())
            );
        }
        w.drain().map_err(|m| explain(&p, None, m))?;
        out.traces += 1;
        for e in evs {
            let mut w = build(&p)?;
            w.apply(e).map_err(|m| explain(&p, Some(e), m))?;
            out.transitions += 1;
            out.eval(true);
            let k = w.key();
            if !seen.contains_key(&k) {
                if nodes.len() >= max_states {
                    closed = false;
                    continue;
                }
                seen.insert(k, ());
                let depth = nodes[i].depth + 1;
                out.max_depth = out.max_depth.max(u64::from(depth));
                nodes.push(Node {
                    parent: i as u32,
                    ev: e,
                    depth,
                });
            }
        }
        out.tick();
        i += 1;
    }
    out.states += nodes.len() as u64;
    if nodes.len() > 50 {
        let p = path(&nodes, nodes.len() - 1);
        out.sample(|| {
            format!(
                "{:?} {} bytes, start ack {} pending {} rx {}: {} states, {}; deepest path {:?}",
                cfg.target,
                size_of(cfg.eight),
                cfg.ack0,
                cfg.pending0,
                cfg.rx0,
                nodes.len(),
                if closed { "closed" } else { "capped" },
                p
            )
        });
    }
    Ok(closed)
}

/// What a session with a serial module between two others shows.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Trace {
    /// output frames of the initialisation and the first cycle afterwards
    pub init: Vec<Vec<u8>>,
    /// status byte and length of every output frame
    pub heads: Vec<[u8; 2]>,
    /// bytes the device received
    pub sent: Vec<u8>,
    /// bytes the reader returned
    pub read: Vec<u8>,
    /// reported inputs and outputs per cycle
    pub reports: Vec<String>,
}

/// A fixed session with every byte value in both directions; the device sends
/// other data than it receives, or (`echo`) everything it receives.
pub fn settings_session(com: &M, echo: bool) -> Result<Trace, String> {
    let rack = Rack::new(vec![M::typical(K::Do8), com.clone(), M::typical(K::Di8)], Style::WordAligned);
    let mut c = rack.coupler()?;
    let size = com.com_len();
    let u = size - 2;
    let (ia, oa) = (rack.inp[1].unwrap(), rack.out[1].unwrap());
    let mut t = Trace::default();
    let mut frame = vec![0u8; size];
    frame[0] = 2 << 3;
    let (mut ack, mut rx) = (2u8, 1u8);
    let mut seg: Vec<u8> = vec![];
    let mut back: VecDeque<Vec<u8>> = VecDeque::new();
    let mut at = 0usize;
    let all: Vec<u8> = (0..=255).collect();
    let cycles = 2 * (256 / u + 4) + 20;
    for n in 0..cycles {
        // half before the first cycle, the rest during operation
        let w: &[u8] = match n {
            0 => &all[..100],
            9 => &all[100..],
            20 => &[0x11, 0x13, 0x0D, 0x0A, 0],
            _ => &[],
        };
        if !w.is_empty() {
            let wr = c.writer(1).ok_or("no writer")?;
            ensure!(wr.write_all(w).is_ok(), "{}: write refused", rack.describe());
        }
        if n == 30 {
            let a = Address { module: 1, channel: 0 };
            let r = c.set_output(&a, ChannelValue::Bytes(vec![0x11, 0xFF, 0x13]));
            ensure!(r.is_ok(), "{}: bytes request gives {r:?}", rack.describe());
        }
        // a new segment every cycle after the initialisation
        if echo {
            if let Some(b) = back.pop_front() {
                rx = (rx + 1) % 4;
                seg = b;
            }
        } else if n >= 2 && n < cycles - 6 {
            rx = (rx + 1) % 4;
            let l = if n % 7 == 3 { 0 } else { u.min(1 + n % u) };
            seg = (0..l).map(|j| (at + j) as u8).collect();
            at += l;
        }
        let mut i = vec![0u8; rack.in_regs * 2];
        let mut o = vec![0u8; rack.out_regs * 2];
        i[ia] = u8::from(n >= 2) | rx << 3 | ack << 5 | 0x80;
        i[ia + 1] = seg.len() as u8;
        i[ia + 2..ia + 2 + seg.len()].copy_from_slice(&seg);
        o[oa..oa + size].copy_from_slice(&frame);
        let img = match c.next(&to_regs(&i), &to_regs(&o)) {
            Ok(x) => to_bytes(&x),
            Err(e) => fail!("{}: cycle {n} fails: {e:?}", rack.describe()),
        };
        let f = img[oa..oa + size].to_vec();
        if f[0] >> 3 & 3 != frame[0] >> 3 & 3 {
            let l = usize::from(f[1]).min(u);
            t.sent.extend_from_slice(&f[2..2 + l]);
            back.push_back(f[2..2 + l].to_vec());
        }
        // a device which sometimes waits
        if n % 5 != 4 {
            ack = f[0] >> 3 & 3;
        }
        if n < 4 {
            t.init.push(f.clone());
        }
        t.heads.push([f[0], f[1]]);
        t.reports.push(format!("{:?} {:?}", c.inputs()[1], c.outputs()[1]));
        frame = f;
        if n % 3 == 0 {
            let mut b = [0u8; 64];
            let r = read_full(c.reader(1).ok_or("no reader")?, &mut b);
            match r {
                Ok(k) => t.read.extend_from_slice(&b[..k]),
                Err(e) => fail!("{}: read fails: {e:?}", rack.describe()),
            }
        }
    }
    for _ in 0..100 {
        let mut b = [0u8; 64];
        let r = read_full(c.reader(1).ok_or("no reader")?, &mut b);
        match r {
            Ok(k) => t.read.extend_from_slice(&b[..k]),
            Err(e) => fail!("{}: read fails: {e:?}", rack.describe()),
        }
    }
    Ok(t)
}

/// Serial settings other than the frame size: the full product of the codes,
/// and every XON/XOFF character under every flow control.
pub fn serial_settings(i: u64) -> Vec<M> {
    let c = K::Com.codes();
    let mut v = vec![];
    // i: operating mode, baud rate, frame size; the rest here
    let (mode, i) = ((i % 4) as u16, i / 4);
    let (baud, size) = ((i % 12) as u16, (i / 12) as u16);
    for stop in 0..c[3] as u16 {
        for par in 0..c[4] as u16 {
            for flow in 0..c[5] as u16 {
                for bits in 0..c[6] as u16 {
                    for res in 0..c[7] as u16 {
                        v.push(M::new(K::Com, &[size, mode, baud, stop, par, flow, bits, res, 17, 19]));
                    }
                }
            }
        }
    }
    // a part of the characters per mode and baud rate
    for x in (0..256u16).filter(|x| (x % 12) == baud) {
        for flow in 0..3 {
            v.push(M::new(K::Com, &[size, mode, baud, 0, 0, flow, 1, 0, x, 19]));
            v.push(M::new(K::Com, &[size, mode, baud, 0, 0, flow, 1, 0, 17, x]));
            v.push(M::new(K::Com, &[size, mode, baud, 0, 0, flow, 1, 0, x, x]));
        }
    }
    v
}
pub const WRITE_WAYS: u64 = 8;
pub const READ_WAYS: u64 = 9;
pub const SERIAL_SETTINGS: u64 = 4 * 12 * 2;

/// One case of the family "every serial setting": what `part` selects of the
/// session must be as with the settings all other families use.
pub fn every_serial_setting<T: PartialEq + std::fmt::Debug>(
    i: u64,
    part: impl Fn(&Trace) -> T,
    out: &mut Out,
) -> Res {
    let base = M::com(i / 48 == 0);
    for echo in [false, true] {
        let want = part(&settings_session(&base, echo)?);
        for mut m in serial_settings(i) {
            m.p[0] = base.p[0];
            let got = part(&settings_session(&m, echo)?);
            ensure!(
                got == want,
                "the same session (settings_session in com.rs, echo {echo}) with serial settings {:?} gives\n{got:02x?}\nand with settings {:?}\n{want:02x?}",
                m.p,
                base.p
            );
            out.eval(true);
            out.traces += 1;
            out.transitions += want_len(&m);
        }
    }
    out.state(&i);
    Ok(())
}

fn want_len(m: &M) -> u64 {
    (2 * (256 / (m.com_len() - 2) + 4) + 20) as u64
}

/// Lengths of long waits: everything small, around powers of two and of ten.
pub fn waits(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=20).collect();
    for b in [32usize, 50, 64, 100, 128, 200, 256, 300, 500, 512, 600, 1000, 1024, 2000] {
        v.extend([b - 1, b, b + 1, b + 5]);
    }
    v.push(5000);
    if thorough {
        v.extend(21..600);
        for b in [4096usize, 8192, 10_000, 16_384, 32_768, 65_536] {
            v.extend([b - 1, b, b + 1, b + 5]);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// What a session with long waits showed (got, expected).
pub struct Waited {
    pub sent: (Vec<u8>, Vec<u8>),
    pub read: (Vec<u8>, Vec<u8>),
    /// a waiting or idle frame that changed
    pub moved: Option<String>,
    /// a cycle that did not acknowledge what it saw
    pub unacked: Option<String>,
    pub cycles: u64,
}

/// The device keeps every combination of {old segment hidden, next one
/// announced, segment presented} x {nothing sent, one segment not
/// acknowledged, the same with more queued} for `w` cycles (`only`: just that
/// combination, the others are short).
pub fn waiting(target: Target, eight: bool, w: usize, only: Option<usize>, read_late: bool) -> Result<Waited, String> {
    let size = size_of(eight);
    let u = size - 2;
    let mut p = Port::new(target, eight)?;
    let mut frame = vec![0u8; size];
    let mut r = Waited {
        sent: (vec![], vec![]),
        read: (vec![], vec![]),
        moved: None,
        unacked: None,
        cycles: 0,
    };
    let (mut ack, mut rx, mut avail) = (0u8, 0u8, false);
    let mut seg: Vec<u8> = vec![];
    let cycle = |p: &mut Port, r: &mut Waited, avail: bool, rx: u8, seg: &[u8], ack: u8, frame: &mut Vec<u8>, still: bool| -> Result<bool, String> {
        let mut i = vec![0u8; size];
        i[0] = u8::from(avail) | rx << 3 | ack << 5 | 0x80;
        if avail {
            i[1] = seg.len() as u8;
            i[2..2 + seg.len()].copy_from_slice(seg);
        }
        let f = p.cycle(&i, frame)?;
        r.cycles += 1;
        if f[0] >> 5 & 3 != rx {
            r.unacked.get_or_insert(format!("cycle {} saw counter {rx}, frame {f:02x?}", r.cycles));
        }
        let new = f[0] & 0x18 != frame[0] & 0x18;
        if new {
            r.sent.0.extend_from_slice(&f[2..2 + usize::from(f[1]).min(u)]);
        }
        if still && (f[0] & 0x9F != frame[0] & 0x9F || f[1..] != frame[1..]) {
            r.moved.get_or_insert(format!(
                "cycle {}: frame {frame:02x?} became {f:02x?} although the device shows acknowledgement {ack} and nothing was to be sent",
                r.cycles
            ));
        }
        *frame = f;
        Ok(new)
    };
    for _ in 0..3 {
        cycle(&mut p, &mut r, false, rx, &[], ack, &mut frame, false)?;
    }
    let mut no = 0usize;
    let mut bytes = |n: usize| -> Vec<u8> {
        no += n;
        (no - n..no).map(|j| (j ^ j >> 8) as u8).collect()
    };
    for step in 0..18 {
        let (rxm, txm) = (step % 3, step / 3 % 3);
        let wait = if only.is_none_or(|o| o == step % 9) { w } else { 1 };
        // a new segment in either direction
        if rxm != 1 {
            rx = (rx + 1) % 4;
            avail = true;
            seg = bytes(1 + step % u);
            r.read.1.extend_from_slice(&seg);
        }
        if txm > 0 {
            let b = bytes(if txm == 1 { u } else { 2 * u + 1 });
            p.write(&b)?;
            r.sent.1.extend_from_slice(&b);
        }
        cycle(&mut p, &mut r, avail, rx, &seg, ack, &mut frame, txm == 0)?;
        // waiting
        match rxm {
            0 => avail = false,
            1 => {
                avail = false;
                rx = (rx + 1) % 4;
            }
            _ => (),
        }
        for _ in 0..wait {
            cycle(&mut p, &mut r, avail, rx, &seg, ack, &mut frame, true)?;
        }
        match rxm {
            0 => avail = true, // the same segment again
            1 => {
                avail = true;
                seg = bytes(1 + step % u);
                r.read.1.extend_from_slice(&seg);
            }
            _ => (),
        }
        for _ in 0..2 {
            cycle(&mut p, &mut r, avail, rx, &seg, ack, &mut frame, true)?;
        }
        // the device takes everything over
        let mut quiet = 0;
        for _ in 0..20 {
            ack = frame[0] >> 3 & 3;
            let new = cycle(&mut p, &mut r, avail, rx, &seg, ack, &mut frame, quiet > 1)?;
            quiet = if new { 0 } else { quiet + 1 };
            if quiet > 4 {
                break;
            }
        }
        if !read_late {
            loop {
                let b = p.read(10)?;
                if b.is_empty() || r.read.0.len() > 4 * (r.read.1.len() + 100) {
                    break;
                }
                r.read.0.extend(b);
            }
        }
    }
    loop {
        let b = p.read(10)?;
        if b.is_empty() || r.read.0.len() > 4 * (r.read.1.len() + 100) {
            break;
        }
        r.read.0.extend(b);
    }
    Ok(r)
}

pub fn long_waits(thorough: bool, part: fn(&Waited) -> Res) -> Family {
    let ws = waits(thorough);
    family("long waits", 3 * 2 * 2 * 10 * ws.len() as u64, move |i, out| {
        let (w, i) = (ws[i as usize % ws.len()], i / ws.len() as u64);
        let (ti, i) = ((i % 3) as usize, i / 3);
        let (eight, i) = (i % 2 == 0, i / 2);
        let (late, only) = (i % 2 == 1, i / 2);
        let only = (only < 9).then_some(only as usize);
        let target = [Target::Processor, Target::Coupler, Target::CouplerOdd][ti];
        let r = waiting(target, eight, w, only, late)?;
        if let Err(e) = part(&r) {
            fail!("{target:?}, {} byte frames, session com::waiting with waits of {w} cycles (in combination {only:?}), reading at the end only: {late}\n{e}", size_of(eight));
        }
        out.transitions += r.cycles;
        out.eval(true);
        out.traces += 1;
        out.state(&(ti, eight, w, only, late));
        Ok(())
    })
}

pub fn waited_sent(r: &Waited) -> Res {
    ensure!(r.sent.0 == r.sent.1, "the device received {:02x?}\nwritten was {:02x?}", r.sent.0, r.sent.1);
    Ok(())
}

pub fn waited_read(r: &Waited) -> Res {
    ensure!(r.read.0 == r.read.1, "read {:02x?}\npresented {:02x?}", r.read.0, r.read.1);
    if let Some(e) = &r.unacked {
        fail!("{e}");
    }
    Ok(())
}

pub fn waited_still(r: &Waited) -> Res {
    if let Some(e) = &r.moved {
        fail!("{e}");
    }
    ensure!(
        r.sent.0.len() == r.sent.1.len(),
        "{} bytes were transmitted, {} written, although the device acknowledged every segment",
        r.sent.0.len(),
        r.sent.1.len()
    );
    Ok(())
}

/// A sequence over `alphabet` in which every `n` bytes stand next to each other
/// somewhere (closed de Bruijn sequence, built from Lyndon words).
fn de_bruijn(alphabet: &[u8], n: usize) -> Vec<u8> {
    let last = alphabet.len() - 1;
    let mut s = vec![];
    let mut w = vec![0];
    s.push(0);
    loop {
        // next Lyndon word of length <= n in lexicographic order
        let k = w.len();
        while w.len() < n {
            w.push(w[w.len() - k]);
        }
        while w.last() == Some(&last) {
            w.pop();
        }
        match w.last_mut() {
            Some(x) => *x += 1,
            None => break,
        }
        if n % w.len() == 0 {
            s.extend_from_slice(&w);
        }
    }
    s.extend(vec![0; n - 1]);
    s.into_iter().map(|x| alphabet[x]).collect()
}

/// Every three bytes stand next to each other here.
pub fn every_triple() -> &'static [u8] {
    static S: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    S.get_or_init(|| de_bruijn(&(0..=255).collect::<Vec<u8>>(), 3))
}

/// Bytes that mean something to some protocol, terminal or text format.
const SPECIAL: [u8; 12] = [0x00, 0x01, 0x02, 0x03, 0x0A, 0x0D, 0x10, 0x11, 0x1B, b'+', b'A', 0xFF];

pub const SPECIAL_PARTS: u64 = 64;

/// Part `i` of a sequence with every five special bytes, as segments of `u` bytes
/// that share four.
pub fn special_segments(i: u64, u: usize) -> Vec<&'static [u8]> {
    static S: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    let s = S.get_or_init(|| de_bruijn(&SPECIAL, 5));
    let n = s.len().div_ceil(SPECIAL_PARTS as usize);
    let part = &s[i as usize * n..((i as usize + 1) * n + u).min(s.len())];
    (0..n.min(part.len())).step_by(u - 4).map(|k| &part[k..part.len().min(k + u)]).collect()
}

pub const TELLING_PARTS: u64 = 256 + SPECIAL_PARTS;

/// Every three bytes, then every five special ones.
pub fn telling_segments(i: u64, u: usize) -> Vec<&'static [u8]> {
    match i.checked_sub(256) {
        None => triple_segments(i, u),
        Some(i) => special_segments(i, u),
    }
}

/// Pairs of segments: the first ends with `a`, the second starts with any byte.
/// Both have only that byte (`full` false) or as many as fit.
pub fn neighbours(a: u8, full: bool, u: usize) -> Vec<Vec<u8>> {
    (0..=255u8)
        .flat_map(|b| {
            let (mut x, mut y) = (vec![a], vec![b]);
            if full {
                x = vec![0x55; u - 1];
                x.push(a);
                y.extend(vec![0x66; u - 1]);
            }
            [x, y]
        })
        .collect()
}

/// Part `i` of 256 of the sequence as segments of `u` bytes; neighbouring
/// segments share two bytes, so every triple lies inside a segment.
pub fn triple_segments(i: u64, u: usize) -> Vec<&'static [u8]> {
    let s = every_triple();
    let part = &s[i as usize * 65536..((i as usize + 1) * 65536 + u).min(s.len())];
    let mut v = vec![];
    let mut k = 0;
    while k < 65536 {
        v.push(&part[k..part.len().min(k + u)]);
        k += u - 2;
    }
    v
}

/// Read until the buffer is full or nothing is left: a single `read` may
/// return less than there is.
pub fn read_full<R: Read + ?Sized>(r: &mut R, buf: &mut [u8]) -> io::Result<usize> {
    let mut n = r.read(buf)?;
    while n > 0 && n < buf.len() {
        match r.read(&mut buf[n..])? {
            0 => break,
            k => n += k,
        }
    }
    Ok(n)
}

/// What one serial module of a fleet showed.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Member {
    /// frames of every cycle: input, shown output, returned output
    pub frames: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)>,
    pub reports: Vec<(Vec<ChannelValue>, Vec<ChannelValue>)>,
    pub written: Vec<u8>,
    pub sent: Vec<u8>,
    pub presented: Vec<u8>,
    pub read: Vec<u8>,
    /// cycle after which everything was sent
    pub done: usize,
}

pub const FLEET_CYCLES: usize = 64;
pub const FLEET_LAST_WRITE: usize = 12;

/// All serial modules of a rack in operation at the same time; the device and
/// the user of a module do what depends on its `id` only. The other modules
/// get requests in some cycles.
pub fn fleet(rack: &Rack, ids: &[usize]) -> Result<Vec<Member>, String> {
    struct Dev {
        at: usize,
        id: usize,
        ack: u8,
        t: u8,
        rx: u8,
        seg: Vec<u8>,
    }
    let mut c = rack.coupler()?;
    let mut devs: Vec<Dev> = (0..rack.mods.len())
        .filter(|m| rack.mods[*m].k == K::Com)
        .map(|at| Dev { at, id: ids[at], ack: 0, t: 0, rx: (ids[at] % 4) as u8, seg: vec![] })
        .collect();
    let mut mem: Vec<Member> = vec![Member::default(); devs.len()];
    let mut img = vec![0u8; rack.out_regs * 2];
    let ctx = |m: usize, n: usize| format!("{}\ncycle {n}, module {m}", rack.describe());
    for n in 0..FLEET_CYCLES {
        let mut inp = vec![0u8; rack.in_regs * 2];
        for (d, r) in devs.iter_mut().zip(&mut mem) {
            let size = rack.mods[d.at].com_len();
            // the user: pieces of any length, by the writer or as a request
            if n <= FLEET_LAST_WRITE && (n + d.id) % 4 == 0 {
                let l = 1 + (n * 5 + d.id * 3) % (size + 3);
                let b: Vec<u8> = (0..l).map(|k| (d.id * 37 + n * 11 + k) as u8).collect();
                if d.id % 3 == 1 {
                    c.set_output(&Address { module: d.at, channel: 0 }, ChannelValue::Bytes(b.clone()))
                        .map_err(|e| format!("{}: set_output of bytes refused: {e:?}", ctx(d.at, n)))?;
                } else {
                    let w = c.writer(d.at).ok_or_else(|| format!("{}: no writer", ctx(d.at, n)))?;
                    w.write_all(&b).map_err(|e| format!("{}: write: {e:?}", ctx(d.at, n)))?;
                }
                r.written.extend(b);
            }
            // the device: a new segment every few cycles
            if n >= 2 && n < 50 && (n + d.id) % (1 + d.id % 4) == 0 {
                d.rx = (d.rx + 1) % 4;
                let l = (n + d.id) % (size - 1);
                d.seg = (0..l).map(|k| (d.id * 53 + n * 7 + k) as u8).collect();
                r.presented.extend(&d.seg);
            }
            let i = rack.inp[d.at].ok_or("serial module without input")?;
            inp[i] = 1 | d.rx << 3 | d.ack << 5 | 0x80;
            inp[i + 1] = d.seg.len() as u8;
            inp[i + 2..i + 2 + d.seg.len()].copy_from_slice(&d.seg);
        }
        if n % 3 == 1 {
            for (m, md) in rack.mods.iter().enumerate() {
                if md.k != K::Com && md.k.is_output() {
                    if let Some(q) = md.reqs(0).into_iter().next() {
                        c.set_output(&Address { module: m, channel: 0 }, q.value(md, 0))
                            .map_err(|e| format!("{}: request refused: {e:?}", ctx(m, n)))?;
                    }
                }
            }
        }
        let next = c
            .next(&to_regs(&inp), &to_regs(&img))
            .map_err(|e| format!("{}\ncycle {n} failed: {e:?}", rack.describe()))?;
        ensure!(next.len() == rack.out_regs, "{}\ncycle {n} returned {} registers", rack.describe(), next.len());
        let next = to_bytes(&next);
        for (d, r) in devs.iter_mut().zip(&mut mem) {
            let f = rack.out_bytes(d.at, &next).to_vec();
            r.frames.push((
                rack.in_bytes(d.at, &inp).to_vec(),
                rack.out_bytes(d.at, &img).to_vec(),
                f.clone(),
            ));
            r.reports.push((c.inputs()[d.at].clone(), c.outputs()[d.at].clone()));
            // lazy devices look at the frame every other or third cycle
            if n >= 1 && n % (1 + d.id % 3) == 0 {
                let t = f[0] >> 3 & 3;
                if t != d.t {
                    ensure!(usize::from(f[1]) + 2 <= f.len(), "{}: frame {f:02x?}", ctx(d.at, n));
                    r.sent.extend_from_slice(&f[2..2 + usize::from(f[1])]);
                    r.done = n;
                }
                d.t = t;
                d.ack = t;
            }
            if n % (1 + d.id % 5) == 0 || n + 1 == FLEET_CYCLES {
                let mut b = vec![0u8; if n + 1 == FLEET_CYCLES { 4096 } else { 1 + d.id % 30 }];
                let rd = c.reader(d.at).ok_or_else(|| format!("{}: no reader", ctx(d.at, n)))?;
                match read_full(rd, &mut b) {
                    Ok(k) if k <= b.len() => r.read.extend_from_slice(&b[..k]),
                    e => fail!("{}: read returned {e:?}", ctx(d.at, n)),
                }
            }
        }
        img = next;
    }
    Ok(mem)
}

/// Racks for `fleet`: up to 64 modules, `mix` = which ones are serial.
pub fn fleet_rack(n: usize, mix: usize) -> Rack {
    let kinds = [M::com(true), M::com(false), M::typical(K::Do8), M::typical(K::Ai4x12), M::typical(K::Ao4)];
    let mods = (0..n)
        .map(|k| {
            kinds[match mix % 6 {
                0 => 0,
                1 => 1,
                2 => k % 2,
                3 => k % 5,
                4 => [2, 1][usize::from(k + 1 == n || k % 9 == 0)],
                _ => [0, 2, 4][k % 3],
            }]
            .clone()
        })
        .collect();
    Rack::new(mods, STYLES[mix / 6 % 3])
}

/// Family: what `part` finds wrong with a member of a fleet.
pub fn fleets(thorough: bool, part: fn(&Member) -> Res) -> Family {
    let shift = if thorough { 12 } else { 2 };
    family("any number of serial modules in operation", 64 * 18 * shift, move |i, out| {
        let (n, i) = ((i % 64) as usize + 1, (i / 64) as usize);
        let (mix, s) = (i % 18, i / 18 * 5);
        let rack = fleet_rack(n, mix);
        let ids: Vec<usize> = (0..n).map(|k| k * 7 + s).collect();
        for (k, m) in fleet(&rack, &ids)?.iter().enumerate() {
            part(m).map_err(|e| format!("{}\nserial module number {k} of the rack (fleet in com.rs, ids {ids:?}): {e}", rack.describe()))?;
            out.eval(true);
            out.transitions += FLEET_CYCLES as u64;
            out.tick();
        }
        out.traces += 1;
        out.state(&(n, mix, s));
        Ok(())
    })
}

/// C07: everything written is transmitted.
pub fn fleet_sent(m: &Member) -> Res {
    ensure!(m.sent == m.written, "written {:02x?}\ntransmitted {:02x?}", m.written, m.sent);
    Ok(())
}
/// C08: everything presented is read.
pub fn fleet_read(m: &Member) -> Res {
    ensure!(m.read == m.presented, "presented {:02x?}\nread {:02x?}", m.presented, m.read);
    Ok(())
}
/// C10: transmission goes on whenever it can, and ends.
pub fn fleet_still(m: &Member) -> Res {
    ensure!(m.sent.len() >= m.written.len(), "{} of {} bytes transmitted after {FLEET_CYCLES} cycles", m.sent.len(), m.written.len());
    for w in m.frames.windows(2) {
        let ((_, _, a), (i, _, b)) = (&w[0], &w[1]);
        if a[0] >> 3 & 3 != b[0] >> 3 & 3 {
            ensure!(i[0] >> 5 & 3 == a[0] >> 3 & 3, "a segment is transmitted although the one before is not acknowledged: {a:02x?}, then {b:02x?}");
            ensure!(b[1] > 0, "an empty segment is transmitted: {b:02x?}");
        } else {
            ensure!(a[0] & 0x80 == 0 || a[1..] == b[1..], "the frame changes without a new counter: {a:02x?}, then {b:02x?}");
        }
    }
    Ok(())
}
