//! C08: serial data received - every byte once, in order, unmodified.
use mc::com::*;
use mc::engine::*;
use mc::ensure;

const TARGETS: [Target; 3] = [Target::Processor, Target::Coupler, Target::CouplerOdd];

fn cfgs(t: Tier) -> Vec<Cfg> {
    let mut v = vec![];
    for target in TARGETS {
        for eight in [true, false] {
            for rx0 in 0..4 {
                for avail0 in [false, true] {
                    for period in [1u8, 5] {
                        if t == Tier::Quick
                            && ((target == Target::CouplerOdd && rx0 != 1)
                                || (period == 1 && rx0 % 2 == 1))
                        {
                            continue;
                        }
                        let u = size_of(eight) - 2;
                        v.push(Cfg {
                            target,
                            eight,
                            ack0: 0,
                            pending0: false,
                            rx0,
                            avail0,
                            same: false,
                            period,
                            tx_limit: 0,
                            rx_limit: t.pick(u + 3, 2 * u + 3),
                            writes: vec![],
                            sets: vec![],
                            segs: t.pick(vec![0, 1, u], vec![0, 1, 2, u]),
                            reads: t.pick(vec![1, 64], vec![1, 0, 3, 64]),
                            flags: rx0 == 2 || t == Tier::Thorough && rx0 == 0,
                            shy: true,
                            what: What::RxData,
                        });
                    }
                }
            }
        }
    }
    v
}

fn both_cfgs(t: Tier) -> Vec<Cfg> {
    let mut v = vec![];
    for target in [Target::Processor, Target::Coupler] {
        for rx0 in t.pick(vec![0], vec![0, 1, 2, 3]) {
            for ack0 in t.pick(vec![0], vec![0, 3]) {
                for same in [false, true] {
                v.push(Cfg {
                    target,
                    eight: true,
                    ack0,
                    pending0: false,
                    rx0,
                    avail0: true,
                    same,
                    period: 3,
                    tx_limit: 2,
                    rx_limit: 7,
                    writes: vec![2],
                    sets: vec![],
                    segs: vec![0, 1, 6],
                    reads: vec![2],
                    flags: false,
                    shy: false,
                    what: What::RxData,
                });
                }
            }
        }
    }
    v
}

struct Dev {
    rx: u8,
    avail: bool,
    seg: Vec<u8>,
    frame: Vec<u8>,
    flags: u8,
    acked: bool,
}

impl Dev {
    fn new(eight: bool, rx: u8) -> Dev {
        Dev {
            rx,
            avail: false,
            seg: vec![],
            frame: vec![0; size_of(eight)],
            flags: 0x80,
            acked: false,
        }
    }
    fn present(&mut self, seg: Vec<u8>) {
        self.rx = (self.rx + 1) % 4;
        self.avail = true;
        self.seg = seg;
    }
    fn cycle(&mut self, p: &mut Port) -> Res {
        let mut i = vec![0u8; self.frame.len()];
        i[0] = u8::from(self.avail) | self.rx << 3 | self.flags & 0xE2;
        i[1] = self.seg.len() as u8;
        i[2..2 + self.seg.len()].copy_from_slice(&self.seg);
        self.frame = p.cycle(&i, &self.frame)?;
        let a = self.frame[0] >> 5 & 3;
        ensure!(
            a == self.rx,
            "the cycle saw segment counter {} but acknowledges {a}",
            self.rx
        );
        self.acked = true;
        Ok(())
    }
}

fn read_all(p: &mut Port, buf: usize, limit: usize) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    loop {
        let b = p.read(buf)?;
        if b.is_empty() {
            return Ok(v);
        }
        v.extend(b);
        ensure!(v.len() <= limit, "more than {limit} bytes readable");
    }
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let cap = t.pick(20_000, 400_000);
    let c = cfgs(t);
    v.push(family("closed receive model", c.len() as u64, move |i, out| {
        bfs(&c[i as usize], cap, out).map(|_| ())
    }));
    let c = both_cfgs(t);
    v.push(family("closed full-duplex model", c.len() as u64, move |i, out| {
        bfs(&c[i as usize], cap, out).map(|_| ())
    }));
    // sequences of segments of any length, equal or different contents
    let n = t.pick(2u64, 3);
    v.push(family("segment sequences", 3 * 2 * 4 * 15u64.pow(n as u32), move |i, out| {
        let (ti, i) = (i % 3, i / 3);
        let (e, i) = (i % 2, i / 2);
        let (rx, mut k) = (i % 4, i / 4);
        let eight = e == 0;
        let u = size_of(eight) - 2;
        let ls: Vec<usize> = (0..n)
            .map(|_| {
                let l = (k % 15) as usize;
                k /= 15;
                l
            })
            .collect();
        if ls.iter().any(|l| *l > u) {
            return Ok(());
        }
        let target = TARGETS[ti as usize];
        // contents equal to the previous segment; repeated cycles; data flag
        // cleared in between; read after every segment
        for how in 0..64u8 {
            let mut p = Port::new(target, eight)?;
            let mut d = Dev::new(eight, rx as u8);
            let ctx = || {
                format!("{target:?} {} byte frames, start counter {rx}, segments of {ls:?} bytes, equal contents {}, repeated cycles {}, withdrawn in between {}, read at once {}, counter shown before the data flag {}, idle cycle after initialisation {}", size_of(eight), how & 1, how >> 1 & 1, how >> 2 & 1, how >> 3 & 1, how >> 4 & 1, how >> 5)
            };
            for _ in 0..2 + (how >> 5) {
                d.cycle(&mut p)?;
            }
            let (mut want, mut got) = (vec![], vec![]);
            for (j, l) in ls.iter().enumerate() {
                let s = if how & 1 == 1 { 7 } else { 7 + 40 * j };
                let seg: Vec<u8> = (0..*l).map(|x| (s + x) as u8).collect();
                want.extend(seg.iter().copied());
                d.present(seg);
                if how >> 4 & 1 == 1 {
                    d.avail = false;
                    d.cycle(&mut p).map_err(|e| format!("{}\n{e}", ctx()))?;
                    d.avail = true;
                }
                for _ in 0..1 + 2 * (how >> 1 & 1) {
                    d.cycle(&mut p).map_err(|e| format!("{}\n{e}", ctx()))?;
                    out.transitions += 1;
                }
                if how >> 2 & 1 == 1 {
                    d.avail = false;
                    d.cycle(&mut p).map_err(|e| format!("{}\n{e}", ctx()))?;
                }
                if how >> 3 & 1 == 1 {
                    got.extend(read_all(&mut p, 4, 100)?);
                    ensure!(got == want, "{}\nafter segment {j}: received {want:02x?}, read {got:02x?}", ctx());
                }
            }
            got.extend(read_all(&mut p, 5, 100)?);
            ensure!(got == want, "{}\nreceived {want:02x?}, read {got:02x?}", ctx());
            out.eval(!want.is_empty());
            out.traces += 1;
        }
        out.state(&(ti, e, rx, ls));
        Ok(())
    }));
    // every byte value, every length, every status and acknowledge bit
    v.push(family("byte values and status flags", 256 * 3 * 2, move |i, out| {
        let (ti, i) = (i % 3, i / 3);
        let (e, b) = (i % 2, i / 2);
        let eight = e == 0;
        let target = TARGETS[ti as usize];
        let u = size_of(eight) - 2;
        let mut p = Port::new(target, eight)?;
        let mut d = Dev::new(eight, 3);
        d.cycle(&mut p)?;
        d.cycle(&mut p)?;
        for l in 0..=u {
            for flags in 0..8u8 {
                d.flags = (flags & 1) << 1 | (flags & 6) << 5 | (b as u8 & 1) << 7;
                let seg: Vec<u8> = (0..l).map(|j| if j % 2 == 0 { b as u8 } else { j as u8 }).collect();
                d.present(seg.clone());
                // the output image shown to the cycle is the previous one with
                // arbitrary transmit counter and flags
                d.frame[0] = d.frame[0] ^ (flags << 2);
                for _ in 0..2 {
                    d.cycle(&mut p).map_err(|e| format!("{target:?} segment {seg:02x?} flags {flags}: {e}"))?;
                    d.flags ^= 0x82;
                }
                let got = read_all(&mut p, 64, 100)?;
                ensure!(got == seg, "{target:?} flags {flags:03b}: segment {seg:02x?} read as {got:02x?}");
                out.eval(l > 0);
                out.transitions += 2;
            }
        }
        out.state(&(ti, e, b));
        out.traces += 1;
        Ok(())
    }));
    // every three bytes next to each other in one segment
    let sizes = t.pick(1u64, 2);
    let all = t == Tier::Thorough;
    v.push(family("every three bytes", 256 * 3 * sizes, move |i, out| {
        let (part, i) = (i % 256, i / 256);
        let (ti, e) = (i % 3, i / 3 == 1);
        if !all && part % 3 != ti {
            return Ok(());
        }
        let target = TARGETS[ti as usize];
        let mut p = Port::new(target, e)?;
        let mut d = Dev::new(e, 3);
        d.cycle(&mut p)?;
        d.cycle(&mut p)?;
        for segs in triple_segments(part, size_of(e) - 2).chunks(60) {
            for s in segs {
                d.present(s.to_vec());
                d.cycle(&mut p)?;
            }
            let want = segs.concat();
            let got = read_all(&mut p, 333, 2000)?;
            ensure!(
                got == want,
                "{target:?}: {} bytes presented, {} read; first difference at byte {:?}\nsegments {segs:02x?}",
                want.len(),
                got.len(),
                got.iter().zip(&want).position(|(a, b)| a != b)
            );
            out.eval(true);
            out.transitions += segs.len() as u64;
            out.tick();
        }
        out.traces += 1;
        out.state(&(ti, e, part));
        Ok(())
    }));
    v.push(family("every five special bytes, every two bytes on either side of a segment border", (SPECIAL_PARTS + 512) * 6, move |i, out| {
        let (k, i) = (i / 6, i % 6);
        let (target, e) = (TARGETS[(i % 3) as usize], i / 3 == 1);
        let u = size_of(e) - 2;
        let segs: Vec<Vec<u8>> = match k.checked_sub(SPECIAL_PARTS) {
            None => special_segments(k, u).into_iter().map(<[u8]>::to_vec).collect(),
            Some(a) => neighbours((a / 2) as u8, a % 2 == 1, u),
        };
        let mut p = Port::new(target, e)?;
        let mut d = Dev::new(e, 3);
        d.cycle(&mut p)?;
        d.cycle(&mut p)?;
        for segs in segs.chunks(60) {
            for s in segs {
                d.present(s.clone());
                d.cycle(&mut p)?;
            }
            let want = segs.concat();
            let got = read_all(&mut p, 333, 2000)?;
            ensure!(
                got == want,
                "{target:?}: {} bytes presented, {} read; first difference at byte {:?}\nsegments {segs:02x?}",
                want.len(),
                got.len(),
                got.iter().zip(&want).position(|(a, b)| a != b)
            );
            out.eval(true);
            out.transitions += segs.len() as u64;
        }
        out.tick();
        out.traces += 1;
        out.state(&(target as u8, e, k));
        Ok(())
    }));
    // segments of exactly three bytes
    v.push(family("every short segment", 256 * t.pick(2, 6), move |i, out| {
        let (a, i) = ((i % 256) as u8, i / 256);
        let (target, e) = (TARGETS[(i / 2) as usize], i % 2 == 1);
        let mut p = Port::new(target, e)?;
        let mut d = Dev::new(e, 3);
        d.cycle(&mut p)?;
        d.cycle(&mut p)?;
        for b in 0..=255u8 {
            for c in 0..=255u8 {
                d.present(vec![a, b, c]);
                d.cycle(&mut p)?;
                let got = read_all(&mut p, 4, 9)?;
                ensure!(got == [a, b, c], "{target:?}: presented {:02x?}, read {got:02x?}", [a, b, c]);
            }
            out.eval(true);
            out.transitions += 256;
        }
        out.tick();
        out.traces += 1;
        out.state(&(target as u8, e, a));
        Ok(())
    }));
    // reads with buffers of any size
    let bmax = t.pick(40u64, 200);
    v.push(family("read buffers", bmax * 60 * 3, move |i, out| {
        let (ti, i) = (i % 3, i / 3);
        let (total, buf) = ((i % 60) as usize, (i / 60) as usize);
        let target = TARGETS[ti as usize];
        let mut p = Port::new(target, false)?;
        let mut d = Dev::new(false, 0);
        d.cycle(&mut p)?;
        d.cycle(&mut p)?;
        let want: Vec<u8> = (0..total).map(|x| (x * 5 + buf) as u8).collect();
        for c in want.chunks(9) {
            d.present(c.to_vec());
            d.cycle(&mut p)?;
        }
        let mut got = vec![];
        let mut k = 0;
        while got.len() < total && k < 2 * total + 4 {
            // alternate with empty buffers
            let z = p.read(0)?;
            ensure!(z.is_empty(), "a read into an empty buffer returned data");
            let b = p.read(if buf == 0 { 1 + k % 4 } else { buf })?;
            ensure!(!b.is_empty(), "{target:?}: {} of {total} bytes left but a read with a buffer of {buf} returned nothing", total - got.len());
            got.extend(b);
            k += 1;
        }
        ensure!(got == want, "{target:?}: received {want:02x?}, read with buffers of {buf}: {got:02x?}");
        ensure!(p.read(8)?.is_empty(), "{target:?}: data readable twice");
        out.eval(total > 0);
        out.traces += 1;
        out.transitions += k as u64;
        out.state(&(ti, total, buf));
        Ok(())
    }));
    // much more data unread than fits any frame, read in pieces or at once
    let ls: &'static [usize] = t.pick(
        &[255, 257, 1025, 4097, 16_385, 65_537],
        &[255, 256, 257, 511, 513, 1023, 1025, 4095, 4097, 8193, 16_385, 32_769, 65_535, 65_536, 65_537, 262_145],
    );
    v.push(family("large unread amounts", 3 * 2 * 3 * ls.len() as u64, move |i, out| {
        let (ti, i) = (i % 3, i / 3);
        let (eight, i) = (i % 2 == 0, i / 2);
        let (buf, i) = ([1usize, 64, 70_000][(i % 3) as usize], i / 3);
        let n = ls[i as usize];
        let target = TARGETS[ti as usize];
        let mut p = Port::new(target, eight)?;
        let mut d = Dev::new(eight, 2);
        d.cycle(&mut p)?;
        d.cycle(&mut p)?;
        let want: Vec<u8> = (0..n).map(|x| (x * 5 + x / 253) as u8).collect();
        for c in want.chunks(size_of(eight) - 2) {
            d.present(c.to_vec());
            d.cycle(&mut p)?;
            out.tick();
            out.transitions += 1;
        }
        let got = read_all(&mut p, buf, n)?;
        if got != want {
            let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(n));
            mc::fail!("{target:?}: {n} bytes received before the first read, {} read with buffers of {buf}, first difference at byte {k}", got.len());
        }
        out.eval(true);
        out.traces += 1;
        out.state(&(ti, eight, buf, n));
        Ok(())
    }));
    v.push(family("huge read buffers", 3 * 2, |i, out| {
        let (target, eight) = (TARGETS[(i % 3) as usize], i / 3 == 0);
        for n in [0usize, 1, 2, 40, 255, 256, 300] {
            for buf in mc::spec::wrapped_lengths(0) {
                let mut p = Port::new(target, eight)?;
                let mut d = Dev::new(eight, 2);
                d.cycle(&mut p)?;
                d.cycle(&mut p)?;
                let want: Vec<u8> = (0..n).map(|x| (x * 5 + buf) as u8).collect();
                for c in want.chunks(size_of(eight) - 2) {
                    d.present(c.to_vec());
                    d.cycle(&mut p)?;
                    out.transitions += 1;
                }
                let got = read_all(&mut p, buf, n)?;
                ensure!(got == want, "{target:?}: {n} bytes received, read with a buffer of {buf} bytes: {got:02x?}");
                out.eval(n > 0);
            }
        }
        out.traces += 1;
        Ok(())
    }));
    // all the ways the standard library has to read
    v.push(family("ways to read", READ_WAYS * 3 * 2 * 70, |i, out| {
        let (way, i) = ((i % READ_WAYS) as usize, i / READ_WAYS);
        let (ti, i) = (i % 3, i / 3);
        let (eight, n) = (i % 2 == 0, (i / 2) as usize);
        let target = TARGETS[ti as usize];
        let u = size_of(eight) - 2;
        for sizes in [vec![1], vec![0, 3], vec![2, 5, 11], vec![7, 0, 0, 6], vec![14, 14], vec![100]] {
            let mut p = Port::new(target, eight)?;
            let mut d = Dev::new(eight, 3);
            d.cycle(&mut p)?;
            d.cycle(&mut p)?;
            let mut at = 0;
            // twice, so that nothing is left over or read again
            for round in 0..3 {
                let want: Vec<u8> = (at..at + n).map(|x| (x * 5 + x / 120) as u8 % 128).collect();
                at += n;
                for c in want.chunks(1 + (u - 1) * (1 - round % 2)) {
                    d.present(c.to_vec());
                    d.cycle(&mut p)?;
                    out.transitions += 1;
                }
                let got = p.read_way(way, n, &sizes)?;
                ensure!(
                    got == want,
                    "{target:?} {} byte frames: {n} bytes received {want:02x?}, read (way {way}, buffers {sizes:?}, round {round}) {got:02x?}",
                    size_of(eight)
                );
                ensure!(p.read(8)?.is_empty(), "{target:?}: {n} bytes read (way {way}, buffers {sizes:?}), data readable twice");
                out.eval(n > 0);
            }
            out.traces += 1;
        }
        out.state(&(way, ti, eight, n));
        Ok(())
    }));
    // a reader that stays a fixed number of bytes behind the device and takes
    // them in pieces of every small and some large sizes
    let lags: &'static [usize] = t.pick(
        &[1, 5, 20, 100, 300, 700, 1500, 5000, 40_000],
        &[1, 2, 3, 5, 13, 20, 50, 100, 130, 200, 300, 500, 700, 1100, 1500, 2100, 3000, 5000, 9000, 17_000, 40_000, 70_000, 140_000],
    );
    let pieces: &'static [usize] = &[1, 2, 3, 5, 7, 11, 14, 15, 40, 64, 100, 257, 600, 1100, 5000];
    v.push(family(
        "a reader that stays behind",
        3 * 2 * 3 * (lags.len() * pieces.len()) as u64,
        move |i, out| {
            let (ti, i) = (i % 3, i / 3);
            let (eight, i) = (i % 2 == 0, i / 2);
            let (how, i) = (i % 3, i / 3);
            let lag = lags[i as usize % lags.len()];
            let piece = pieces[i as usize / lags.len()];
            let target = TARGETS[ti as usize];
            let mut p = Port::new(target, eight)?;
            let mut d = Dev::new(eight, 3);
            d.cycle(&mut p)?;
            d.cycle(&mut p)?;
            let u = size_of(eight) - 2;
            let total = 2 * lag + 3 * piece + 2500;
            let (mut sent, mut got) = (0usize, 0usize);
            let byte = |x: usize| (x * 5 + x / 253) as u8;
            let mut j = 0;
            while got < total {
                if sent < total {
                    // full, mixed or one byte segments
                    let l = [u, 1 + j % u, if lag > 6000 { u } else { 1 }][how as usize].min(total - sent);
                    d.present((sent..sent + l).map(byte).collect());
                    sent += l;
                    d.cycle(&mut p)?;
                    out.transitions += 1;
                }
                while sent - got >= lag + piece || (sent == total && got < total) {
                    let want = piece.min(sent - got);
                    let b = p.read(piece)?;
                    ensure!(
                        b.len() == want && b.iter().enumerate().all(|(k, v)| *v == byte(got + k)),
                        "{target:?} {} byte frames, {} bytes unread, segments of kind {how}: a read with a buffer of {piece} bytes after {got} read bytes returned {} bytes {:02x?}..., expected {:02x?}...",
                        size_of(eight),
                        sent - got,
                        b.len(),
                        &b[..b.len().min(24)],
                        (got..got + want.min(24)).map(byte).collect::<Vec<_>>()
                    );
                    got += want;
                }
                j += 1;
                out.tick();
            }
            ensure!(p.read(8)?.is_empty(), "{target:?}: data readable twice");
            out.eval(true);
            out.traces += 1;
            out.state(&(ti, eight, how, lag, piece));
            Ok(())
        },
    ));
    // a loopback plug: everything sent comes back, at once or later, and is
    // acknowledged before or after it comes back
    let wl: &'static [usize] = t.pick(&[1, 6, 7, 14, 15, 30], &[1, 2, 3, 5, 6, 7, 12, 13, 14, 15, 28, 29, 30, 100]);
    v.push(family("loopback", 3 * 2 * 4 * 4 * wl.len() as u64, move |i, out| {
        let (ti, i) = (i % 3, i / 3);
        let (eight, i) = (i % 2 == 0, i / 2);
        let (delay, i) = ((i % 4) as usize, i / 4);
        let (lag, i) = ((i % 4) as usize, i / 4);
        let n = wl[i as usize];
        let target = TARGETS[ti as usize];
        for equal in [false, true] {
            let mut p = Port::new(target, eight)?;
            let mut frame = vec![0u8; size_of(eight)];
            let (mut rx, mut ack, mut seg) = (0u8, 0u8, vec![]);
            let mut back = std::collections::VecDeque::new();
            let mut acks = std::collections::VecDeque::new();
            let want: Vec<u8> = (0..3 * n).map(|x| if equal { 7 } else { (x * 5 + 1) as u8 }).collect();
            let mut got = vec![];
            for c in 0..2 * 3 * n * (1 + delay + lag) + 40 {
                // three writes
                if c % 9 == 4 && c / 9 < 3 {
                    p.write(&want[c / 9 * n..(c / 9 + 1) * n])?;
                }
                if let Some((at, s)) = back.front() {
                    if *at <= c {
                        rx = (rx + 1) % 4;
                        seg = Vec::clone(s);
                        back.pop_front();
                    }
                }
                if let Some((at, a)) = acks.front() {
                    if *at <= c {
                        ack = *a;
                        acks.pop_front();
                    }
                }
                let mut f = vec![0u8; frame.len()];
                f[0] = u8::from(c >= 2) | rx << 3 | ack << 5 | 0x80;
                f[1] = seg.len() as u8;
                f[2..2 + seg.len()].copy_from_slice(&seg);
                let r = p.cycle(&f, &frame)?;
                if r[0] >> 3 & 3 != frame[0] >> 3 & 3 {
                    back.push_back((c + 1 + delay, r[2..2 + usize::from(r[1])].to_vec()));
                    acks.push_back((c + 1 + lag, r[0] >> 3 & 3));
                }
                frame = r;
                got.extend(p.read(5)?);
                out.transitions += 1;
            }
            got.extend(read_all(&mut p, 64, want.len() + 100)?);
            ensure!(
                got == want,
                "{target:?} {} byte frames, loopback after {delay} cycles, acknowledged after {lag}: sent {want:02x?}, read {got:02x?}",
                size_of(eight)
            );
            out.traces += 1;
            out.eval(true);
        }
        out.state(&(ti, eight, delay, lag, n));
        Ok(())
    }));
    v.push(fleets(t == Tier::Thorough, fleet_read));
    v.push(long_waits(t == Tier::Thorough, waited_read));
    let many = t.pick(70_000usize, 400_000);
    v.push(family("long sessions", 3 * 2 * 2, move |i, out| {
        let (ti, i) = (i % 3, i / 3);
        let (eight, late) = (i % 2 == 0, i / 2 == 1);
        let target = TARGETS[ti as usize];
        let u = size_of(eight) - 2;
        let mut p = Port::new(target, eight)?;
        let mut d = Dev::new(eight, 1);
        d.cycle(&mut p)?;
        d.cycle(&mut p)?;
        let n = if late { many / 50 } else { many };
        let mut want = vec![];
        let mut got = vec![];
        for j in 0..n {
            let seg: Vec<u8> = (0..j % (u + 1)).map(|x| (x * 3 + j * 7 + j / 256) as u8).collect();
            want.extend(seg.iter().copied());
            d.present(seg);
            d.cycle(&mut p)?;
            if !late {
                got.extend(p.read(j % 23)?);
            }
            out.tick();
            out.transitions += 1;
        }
        got.extend(read_all(&mut p, 100, want.len() + 1)?);
        if got != want {
            let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            mc::fail!("{target:?}: {n} segments, {} bytes received, {} read, first difference at byte {k}", want.len(), got.len());
        }
        out.eval(true);
        out.traces += 1;
        out.state(&(ti, eight, late));
        Ok(())
    }));
    v.push(family("every serial setting", SERIAL_SETTINGS, |i, out| {
        every_serial_setting(i, |t| t.read.clone(), out)
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C08",
        level: Level::ModelChecking,
        rule: "breadth-first closure of a device model (presents segments, announces them before flagging, hides, shows again and withdraws them, toggles status flags) closed around the real message processor / coupler, events: cycle, present, announce, hide, show, withdraw, read; from every reached state the remaining data is read; plus linear histories over segment lengths, contents, flags, buffer sizes, ways to read (to the end, exactly, vectored, copied, bytewise, limited, as text, buffered), readers that stay behind, loopback, long sessions and devices that wait for up to 5000 (thorough 65541) cycles in every situation. Non-trivial: bytes were received",
        assumptions: &[
            "the device presents the next segment, with the next counter, only after the previous one was acknowledged",
        ],
        families,
    })
}
