//! C07: serial data sent - every byte once, in order, unmodified.
use mc::com::*;
use mc::engine::*;
use mc::{ensure, fail};

fn tx_cfgs(t: Tier) -> Vec<Cfg> {
    let mut v = vec![];
    for target in [Target::Processor, Target::Coupler, Target::CouplerOdd] {
        for eight in [true, false] {
            for ack0 in 0..4 {
                for pending0 in [false, true] {
                    for period in [1u8, 7] {
                        let full = target != Target::CouplerOdd || ack0 == 1;
                        if t == Tier::Quick && (!full || (period == 1 && ack0 != 2)) {
                            continue;
                        }
                        let u = size_of(eight) - 2;
                        v.push(Cfg {
                            target,
                            eight,
                            ack0,
                            pending0,
                            rx0: ack0,
                            avail0: false,
                            same: false,
                            period,
                            tx_limit: t.pick(u + 2, 2 * u + 2),
                            rx_limit: 0,
                            writes: t.pick(vec![1, u, u + 1], vec![1, 2, u, u + 1, 2 * u + 1]),
                            sets: if target == Target::Processor {
                                vec![]
                            } else {
                                t.pick(vec![u + 1], vec![1, u, u + 1])
                            },
                            segs: vec![],
                            reads: vec![],
                            flags: ack0 == 3 && period == 7,
                            shy: false,
                            what: What::TxData,
                        });
                    }
                }
            }
        }
    }
    v
}

/// Both directions at once: receiving must not disturb sending.
fn both_cfgs(t: Tier) -> Vec<Cfg> {
    let mut v = vec![];
    for target in [Target::Processor, Target::Coupler] {
        for ack0 in t.pick(vec![3], vec![0, 1, 2, 3]) {
            for rx0 in t.pick(vec![0], vec![0, 3]) {
                for same in [false, true] {
                v.push(Cfg {
                    target,
                    eight: true,
                    ack0,
                    pending0: false,
                    rx0,
                    avail0: rx0 == 0,
                    same,
                    period: 3,
                    tx_limit: 7,
                    rx_limit: 2,
                    writes: vec![7],
                    sets: vec![],
                    segs: vec![0, 2],
                    reads: vec![64],
                    flags: false,
                    shy: false,
                    what: What::TxData,
                });
                }
            }
        }
    }
    v
}

/// A device that takes over every new segment; reacts only in the cycles of
/// `react` (repeated), starting from any pair of counters when prompt.
struct Dev {
    ack: u8,
    t: u8,
    frame: Vec<u8>,
    got: Vec<u8>,
    segs: usize,
    n: usize,
    react: Vec<bool>,
}

impl Dev {
    fn new(eight: bool, ack: u8, t: u8, react: &[bool]) -> Dev {
        let mut frame = vec![0; size_of(eight)];
        frame[0] = t << 3;
        Dev {
            ack,
            t,
            frame,
            got: vec![],
            segs: 0,
            n: 0,
            react: react.to_vec(),
        }
    }
    fn cycle(&mut self, p: &mut Port) -> Res {
        let mut i = vec![0u8; self.frame.len()];
        i[0] = self.ack << 5 | 0x80;
        let f = p.cycle(&i, &self.frame)?;
        self.frame = f;
        if self.react[self.n % self.react.len()] {
            let t = self.frame[0] >> 3 & 3;
            if t != self.t {
                let n = usize::from(self.frame[1]);
                ensure!(
                    n >= 1 && n <= self.frame.len() - 2,
                    "a segment of {n} bytes is transmitted: {:02x?}",
                    self.frame
                );
                self.got.extend_from_slice(&self.frame[2..2 + n]);
                self.segs += 1;
                self.t = t;
            }
            self.ack = self.t;
        }
        self.n += 1;
        Ok(())
    }
    /// Write all these, or queue one per cycle.
    fn send(&mut self, p: &mut Port, parts: &[impl AsRef<[u8]>], queued: bool) -> Res {
        for s in parts {
            if queued && !matches!(p, Port::P(_)) {
                p.set(s.as_ref())?;
                self.cycle(p)?;
            } else {
                p.write(s.as_ref())?;
            }
        }
        Ok(())
    }
    fn finish(&mut self, p: &mut Port, want: &[u8], ctx: impl Fn() -> String) -> Res {
        let bound = self.n + (want.len() + 6) * (self.react.len() + 1);
        while self.got.len() < want.len() && self.n < bound {
            self.cycle(p).map_err(|e| format!("{}\n{e}", ctx()))?;
        }
        for _ in 0..3 * self.react.len() {
            self.cycle(p).map_err(|e| format!("{}\n{e}", ctx()))?;
        }
        if self.got != want {
            let k = self
                .got
                .iter()
                .zip(want)
                .position(|(a, b)| a != b)
                .unwrap_or(self.got.len().min(want.len()));
            fail!(
                "{}\nwritten {} bytes, device received {} bytes; first difference at byte {k}: written {:02x?}, received {:02x?}",
                ctx(),
                want.len(),
                self.got.len(),
                &want[k.min(want.len())..want.len().min(k + 20)],
                &self.got[k.min(self.got.len())..self.got.len().min(k + 20)]
            );
        }
        Ok(())
    }
}

const TARGETS: [Target; 3] = [Target::Processor, Target::Coupler, Target::CouplerOdd];

fn data(n: usize, seed: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + i / 251 + seed) as u8).collect()
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let cap = t.pick(40_000, 400_000);
    let cfgs = tx_cfgs(t);
    v.push(family("closed transmit model", cfgs.len() as u64, move |i, out| {
        bfs(&cfgs[i as usize], cap, out).map(|_| ())
    }));
    let cfgs = both_cfgs(t);
    let cap = t.pick(25_000, 400_000);
    v.push(family("closed full-duplex model", cfgs.len() as u64, move |i, out| {
        bfs(&cfgs[i as usize], cap, out).map(|_| ())
    }));
    // one write of every length from every pair of start counters
    let nl = t.pick(100u64, 1200);
    v.push(family("one write of every length", 3 * 2 * 16 * nl, move |i, out| {
        let (t, i) = (i % 3, i / 3);
        let (e, i) = (i % 2, i / 2);
        let (a, i) = (i % 4, i / 4);
        let (tc, n) = (i % 4, i / 4);
        let eight = e == 0;
        let want = data(n as usize, (n + a * 3) as usize);
        // written before cycle 1, 2, 3 or 5
        for before in [0, 1, 2, 4] {
            let mut p = Port::new(TARGETS[t as usize], eight)?;
            let mut d = Dev::new(eight, a as u8, tc as u8, &[true]);
            for _ in 0..before {
                d.cycle(&mut p)?;
            }
            p.write(&want)?;
            d.finish(&mut p, &want, || {
                format!("{:?} {} byte frames, start acknowledged counter {a}, transmit counter {tc}, one write of {n} bytes after {before} cycles, device reacts at once", TARGETS[t as usize], size_of(eight))
            })?;
            out.eval(n > 0);
            out.transitions += d.n as u64;
            out.traces += 1;
        }
        out.state(&(t, e, a, tc, n));
        Ok(())
    }));
    // several writes, cycles in between, slow devices, all ways of queueing
    let lens = [0usize, 1, 2, 5, 6, 7, 12, 13, 14, 15, 29];
    let nw = t.pick(3u64, 4);
    let npat = (lens.len() as u64).pow(nw as u32);
    let react: Vec<Vec<bool>> = vec![
        vec![true],
        vec![false, true],
        vec![false, false, true],
        vec![true, false, false, true, false],
    ];
    v.push(family("splits over writes", npat * 5, move |i, out| {
        let (gap, mut k) = (i % 5, i / 5);
        let ls: Vec<usize> = (0..nw)
            .map(|_| {
                let l = lens[(k % lens.len() as u64) as usize];
                k /= lens.len() as u64;
                l
            })
            .collect();
        for target in TARGETS {
            for eight in [true, false] {
                for r in &react {
                    // a set bit in `how`: queued as an output request
                    let hows = if target == Target::Processor { 1 } else { 1 << nw };
                    for how in 0..hows {
                        if how != 0 && (gap == 0 || r.len() > 1) {
                            continue;
                        }
                        let mut p = Port::new(target, eight)?;
                        let mut d = Dev::new(eight, 0, 0, r);
                        let mut want = vec![];
                        for (j, l) in ls.iter().enumerate() {
                            let b = data(*l, 31 * j + gap as usize);
                            if how >> j & 1 == 1 {
                                p.set(&b)?;
                            } else {
                                p.write(&b)?;
                            }
                            want.extend(b);
                            for _ in 0..gap {
                                d.cycle(&mut p)?;
                            }
                        }
                        d.finish(&mut p, &want, || {
                            format!("{target:?} {} byte frames, writes of {ls:?} bytes (queued as request: mask {how:b}), {gap} cycles after each, device reacts in cycles {r:?}", size_of(eight))
                        })?;
                        out.eval(!want.is_empty());
                        out.transitions += d.n as u64;
                        out.traces += 1;
                    }
                }
            }
        }
        out.state(&i);
        Ok(())
    }));
    // every pair of byte values next to each other, long streams
    v.push(family("all byte values", 3 * 2 * 256, move |i, out| {
        let (t, i) = (i % 3, i / 3);
        let (e, a) = (i % 2, i / 2);
        let mut want = vec![];
        for b in 0..=255u8 {
            want.push(a as u8);
            want.push(b);
        }
        let mut p = Port::new(TARGETS[t as usize], e == 0)?;
        let mut d = Dev::new(e == 0, 0, 0, &[true]);
        p.write(&want)?;
        d.finish(&mut p, &want, || {
            format!("{:?}, byte {a:#04x} paired with every byte", TARGETS[t as usize])
        })?;
        // the same byte only
        let same = vec![a as u8; 64];
        let mut p = Port::new(TARGETS[t as usize], e == 0)?;
        let mut d = Dev::new(e == 0, 0, 0, &[true]);
        p.write(&same)?;
        d.finish(&mut p, &same, || format!("{:?}, 64 bytes {a:#04x}", TARGETS[t as usize]))?;
        out.eval(true);
        out.transitions += d.n as u64;
        out.traces += 2;
        out.state(&(t, e, a));
        Ok(())
    }));
    // every three bytes next to each other in one segment
    let sizes = t.pick(1u64, 2);
    let all = t == Tier::Thorough;
    v.push(family("every three bytes", 256 * 3 * sizes, move |i, out| {
        let (part, i) = (i % 256, i / 256);
        let (t, e) = (i % 3, i / 3 == 1);
        if !all && part % 3 != t {
            return Ok(());
        }
        let segs = triple_segments(part, size_of(e) - 2);
        for (n, part) in segs.chunks(600).enumerate() {
            let want = part.concat();
            let mut p = Port::new(TARGETS[t as usize], e)?;
            let mut d = Dev::new(e, 0, 0, &[true]);
            if n % 4 == 1 {
                d.send(&mut p, part, true)?;
            } else {
                p.write(&want)?;
            }
            d.finish(&mut p, &want, || format!("{:?}, {} bytes with many byte triples", TARGETS[t as usize], want.len()))?;
            out.eval(true);
            out.transitions += d.n as u64;
            out.tick();
        }
        out.traces += 1;
        out.state(&(t, e, part));
        Ok(())
    }));
    v.push(family("every five special bytes", SPECIAL_PARTS * 6, move |i, out| {
        let (part, i) = (i % SPECIAL_PARTS, i / SPECIAL_PARTS);
        let (t, e) = (TARGETS[(i % 3) as usize], i / 3 == 1);
        let segs = special_segments(part, size_of(e) - 2);
        for (n, part) in segs.chunks(600).enumerate() {
            let want = part.concat();
            let mut p = Port::new(t, e)?;
            let mut d = Dev::new(e, 0, 0, &[true]);
            // one write or request per segment, so that it is sent like that
            d.send(&mut p, part, n % 2 == 1)?;
            d.finish(&mut p, &want, || format!("{t:?}, {} bytes with many combinations of special bytes", want.len()))?;
            out.eval(true);
            out.transitions += d.n as u64;
            out.tick();
        }
        out.traces += 1;
        out.state(&(t as u8, e, part));
        Ok(())
    }));
    v.push(family("every two bytes on either side of a segment border", 256 * 24, move |i, out| {
        let (a, i) = (i % 256, i / 256);
        let (t, e, full, queued) = (TARGETS[(i % 3) as usize], i / 3 % 2 == 1, i / 6 % 2 == 1, i / 12 == 1);
        if queued && t == Target::Processor {
            return Ok(());
        }
        let want = neighbours(a as u8, full, size_of(e) - 2);
        let mut p = Port::new(t, e)?;
        let mut d = Dev::new(e, 0, 0, &[true]);
        d.send(&mut p, &want, queued)?;
        let want = want.concat();
        d.finish(&mut p, &want, || format!("{t:?}, pairs of segments, one ends with {a:#04x}, the next starts with any byte"))?;
        out.eval(true);
        out.transitions += d.n as u64;
        out.traces += 1;
        out.state(&(t as u8, e, full, a));
        Ok(())
    }));
    // writes and requests of exactly two or three bytes
    v.push(family("every short write", 256 * t.pick(6, 10), move |i, out| {
        let (a, i) = ((i % 256) as u8, i / 256);
        // the processor: three bytes; the couplers: two, written or queued (three in the thorough tier)
        let (target, e, queued, three) = match i {
            0 | 1 => (Target::Processor, i == 1, false, true),
            2..=5 => ([Target::Coupler, Target::CouplerOdd][i as usize % 2], i % 2 == 1, i > 3, false),
            _ => ([Target::Coupler, Target::CouplerOdd][i as usize % 2], i % 2 == 0, i > 7, true),
        };
        let mut p = Port::new(target, e)?;
        let mut d = Dev::new(e, 0, 0, &[true]);
        d.cycle(&mut p)?;
        d.cycle(&mut p)?;
        for b in 0..=255u8 {
            for c in 0..=if three { 255u8 } else { 0 } {
                let w = [a, b, c];
                let w = &w[..if three { 3 } else { 2 }];
                if queued {
                    p.set(w)?;
                } else {
                    p.write(w)?;
                }
                d.got.clear();
                d.cycle(&mut p)?;
                ensure!(
                    d.got == w,
                    "{target:?}, nothing else waiting: {w:02x?} {}, the device received {:02x?}",
                    if queued { "queued as request" } else { "written at once" },
                    d.got
                );
            }
            out.eval(true);
        }
        out.tick();
        out.transitions += d.n as u64;
        out.traces += 1;
        out.state(&(target as u8, e, a, queued));
        Ok(())
    }));
    // much more data waiting than fits any frame, in one write or in many,
    // before, during and after initialisation
    let ls: &'static [usize] = t.pick(
        &[255, 256, 257, 511, 513, 1023, 1025, 4095, 4097, 8193, 16_385, 65_535, 65_537],
        &[
            255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 8191, 8193, 16_383,
            16_385, 32_767, 32_769, 65_535, 65_536, 65_537, 131_073, 1_048_577,
        ],
    );
    v.push(family("large backlogs", 3 * 2 * 3 * ls.len() as u64, move |i, out| {
        let (t, i) = (i % 3, i / 3);
        let (e, i) = (i % 2 == 0, i / 2);
        let (before, i) = ([0usize, 1, 5][(i % 3) as usize], i / 3);
        let n = ls[i as usize];
        let want = data(n, before);
        for piece in [n, 64, 1] {
            if piece == 1 && n > 70_000 {
                continue;
            }
            let mut p = Port::new(TARGETS[t as usize], e)?;
            let mut d = Dev::new(e, 0, 0, &[true]);
            for _ in 0..before {
                d.cycle(&mut p)?;
            }
            for c in want.chunks(piece) {
                p.write(c)?;
            }
            d.finish(&mut p, &want, || {
                format!("{:?} {} byte frames: {n} bytes written in pieces of {piece} after {before} cycles", TARGETS[t as usize], size_of(e))
            })?;
            out.eval(true);
            out.transitions += d.n as u64;
            out.traces += 1;
            out.tick();
        }
        out.state(&(t, e, before, n));
        Ok(())
    }));
    // more than anyone sends at once: all of it is taken, and the first segments are right
    let big = t.pick(4usize << 20, 32 << 20);
    v.push(family("huge writes", 3 * 2 * 2, move |i, out| {
        let (ti, i) = (i % 3, i / 3);
        let (e, queued) = (i % 2 == 0, i / 2 == 1);
        let want = data(big, 3);
        let mut p = Port::new(TARGETS[ti as usize], e)?;
        let mut d = Dev::new(e, 0, 0, &[true]);
        for _ in 0..2 {
            d.cycle(&mut p)?;
        }
        d.send(&mut p, &[&want], queued)?;
        for _ in 0..30 {
            d.cycle(&mut p)?;
        }
        let n = d.got.len();
        ensure!(
            n >= 20 && d.got[..] == want[..n],
            "{:?} {} byte frames: {big} bytes written at once, the device received {:02x?}",
            TARGETS[ti as usize],
            size_of(e),
            d.got
        );
        out.eval(true);
        Ok(())
    }));
    // all the ways the standard library has to write
    v.push(family("ways to write", WRITE_WAYS * 3 * 2 * 3, |i, out| {
        let (way, i) = ((i % WRITE_WAYS) as usize, i / WRITE_WAYS);
        let (ti, i) = (i % 3, i / 3);
        let (e, before) = (i % 2 == 0, [0usize, 1, 4][(i / 2) as usize]);
        let ls = [0usize, 1, 2, 5, 6, 7, 8, 13, 14, 15, 20, 33];
        for k in 0..ls.len().pow(3) {
            let (x, y, z) = (ls[k % 12], ls[k / 12 % 12], ls[k / 144]);
            let want: Vec<u8> = (0..x + y + z).map(|j| if j % 11 == 3 { 10 } else { 32 + (j * 7 + k) as u8 % 90 }).collect();
            let mut p = Port::new(TARGETS[ti as usize], e)?;
            let mut d = Dev::new(e, 0, 0, &[true]);
            for _ in 0..before {
                d.cycle(&mut p)?;
            }
            p.write_way(way, &[&want[..x], &want[x..x + y], &want[x + y..]])?;
            d.finish(&mut p, &want, || {
                format!("{:?} {} byte frames, pieces of {x}, {y} and {z} bytes written (way {way}) after {before} cycles", TARGETS[ti as usize], size_of(e))
            })?;
            out.eval(!want.is_empty());
            out.transitions += d.n as u64;
            out.traces += 1;
        }
        out.state(&(way, ti, e, before));
        Ok(())
    }));
    // a writer that stays a fixed number of bytes ahead of the device
    let leads: &'static [usize] = t.pick(
        &[1, 5, 20, 100, 300, 700, 1500, 5000, 40_000],
        &[1, 2, 3, 5, 13, 20, 50, 100, 130, 200, 300, 500, 700, 1100, 1500, 2100, 3000, 5000, 9000, 17_000, 40_000, 70_000, 140_000],
    );
    let pieces: &'static [usize] = &[1, 2, 3, 5, 7, 11, 14, 15, 40, 64, 100, 257, 600, 1100, 5000];
    v.push(family(
        "a writer that stays ahead",
        3 * 2 * 2 * 2 * (leads.len() * pieces.len()) as u64,
        move |i, out| {
            let (ti, i) = (i % 3, i / 3);
            let (e, i) = (i % 2 == 0, i / 2);
            let (slow, i) = (i % 2 == 1, i / 2);
            let (set, i) = (i % 2 == 1 && ti != 0, i / 2);
            let lead = leads[i as usize % leads.len()];
            let piece = pieces[i as usize / leads.len()];
            if slow && lead > 6000 {
                return Ok(());
            }
            let mut p = Port::new(TARGETS[ti as usize], e)?;
            let mut d = Dev::new(e, 0, 0, if slow { &[false, true] } else { &[true] });
            d.cycle(&mut p)?;
            d.cycle(&mut p)?;
            let total = lead + 3 * piece + 2500;
            let all = data(total, 3);
            let mut sent = 0;
            let mut cycled = true;
            while sent < total {
                while sent < total && sent - d.got.len() < lead {
                    let b = &all[sent..total.min(sent + piece)];
                    if set && cycled {
                        p.set(b)?;
                        d.cycle(&mut p)?;
                    } else {
                        p.write(b)?;
                    }
                    cycled = false;
                    sent += b.len();
                }
                let before = d.got.len();
                d.cycle(&mut p)?;
                cycled = true;
                ensure!(
                    d.got.len() <= sent && d.got[before..] == all[before..d.got.len()],
                    "{:?} {} byte frames: {} bytes received by the device are no prefix of the {sent} written ones, writer {lead} bytes ahead, pieces of {piece}",
                    TARGETS[ti as usize],
                    size_of(e),
                    d.got.len()
                );
                out.transitions += 1;
                out.tick();
            }
            d.finish(&mut p, &all, || {
                format!("{:?} {} byte frames: writer stays {lead} bytes ahead, pieces of {piece}, slow {slow}, requests {set}", TARGETS[ti as usize], size_of(e))
            })?;
            out.eval(true);
            out.traces += 1;
            out.state(&(ti, e, slow, set, lead, piece));
            Ok(())
        },
    ));
    v.push(fleets(t == Tier::Thorough, fleet_sent));
    v.push(long_waits(t == Tier::Thorough, waited_sent));
    let many = t.pick(70_000usize, 300_000);
    v.push(family("long sessions", 3 * 2 * 2, move |i, out| {
        let (t, i) = (i % 3, i / 3);
        let (e, slow) = (i % 2 == 0, i / 2 == 1);
        let mut p = Port::new(TARGETS[t as usize], e)?;
        let mut d = Dev::new(e, 0, 0, if slow { &[false, true] } else { &[true] });
        let n = if slow { many / 50 } else { many };
        let mut want = vec![];
        for j in 0..n {
            let b = data(1 + j % 6, j);
            p.write(&b)?;
            want.extend(b);
            d.cycle(&mut p)?;
            if slow {
                d.cycle(&mut p)?;
            }
            out.tick();
            out.transitions += 1;
        }
        d.finish(&mut p, &want, || {
            format!("{:?}: {n} writes of 1 to 6 bytes, one per cycle, slow {slow}", TARGETS[t as usize])
        })?;
        out.eval(true);
        out.traces += 1;
        out.state(&(t, e, slow));
        Ok(())
    }));
    v.push(family("every serial setting", SERIAL_SETTINGS, |i, out| {
        every_serial_setting(i, |t| t.sent.clone(), out)
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C07",
        level: Level::ModelChecking,
        rule: "breadth-first closure of a device model (takes over a segment when the counter changes, acknowledges later, may toggle status flags) closed around the real message processor / coupler, events: cycle, write, queued request, take over, acknowledge; from every reached state the device then keeps reacting until everything is transmitted; plus linear histories: all lengths, start counters, splits, byte values, ways to write (write_all, vectored, formatted, copied, buffered), backlogs, long sessions, devices that wait for up to 5000 (thorough 65541) cycles in every situation. Non-trivial: bytes were sent",
        assumptions: &[
            "every returned image is delivered to the device before the next cycle",
            "at most one queued bytes request per cycle, no writer use between it and its cycle",
            "a device that starts with neither 0 nor 1 unacknowledged segments reacts within a cycle",
        ],
        families,
    })
}
