//! C10: transmission makes progress, never replaces an unacknowledged
//! segment and is quiet when idle.
use mc::com::*;
use mc::engine::*;
use mc::ensure;

const TARGETS: [Target; 3] = [Target::Processor, Target::Coupler, Target::CouplerOdd];

fn cfgs(t: Tier) -> Vec<Cfg> {
    let mut v = vec![];
    for target in TARGETS {
        for eight in [true, false] {
            for ack0 in 0..4 {
                for pending0 in [false, true] {
                    if t == Tier::Quick && target == Target::CouplerOdd && ack0 != 2 {
                        continue;
                    }
                    let u = size_of(eight) - 2;
                    v.push(Cfg {
                        target,
                        eight,
                        ack0,
                        pending0,
                        rx0: 3 - ack0,
                        avail0: false,
                        same: false,
                        period: 2,
                        tx_limit: t.pick(u + 2, 2 * u + 4),
                        rx_limit: 0,
                        writes: t.pick(vec![0, 1, u + 1], vec![0, 1, 2, u, u + 1, 2 * u + 1]),
                        sets: if target == Target::Coupler {
                            t.pick(vec![u], vec![0, 1, u, u + 1])
                        } else {
                            vec![]
                        },
                        segs: vec![],
                        reads: vec![],
                        flags: ack0 % 2 == 1,
                        shy: false,
                        what: What::Progress,
                    });
                }
            }
        }
    }
    v
}

fn both_cfgs(t: Tier) -> Vec<Cfg> {
    let mut v = vec![];
    for target in [Target::Processor, Target::Coupler] {
        for ack0 in t.pick(vec![0, 3], vec![0, 1, 2, 3]) {
            for rx0 in t.pick(vec![1], vec![0, 1, 2, 3]) {
                for same in [false, true] {
                v.push(Cfg {
                    target,
                    eight: true,
                    ack0,
                    pending0: ack0 == 3,
                    rx0,
                    avail0: rx0 == 1,
                    same,
                    period: 2,
                    tx_limit: 7,
                    rx_limit: 2,
                    writes: vec![1, 7],
                    sets: vec![],
                    segs: vec![0, 2],
                    reads: vec![64],
                    flags: false,
                    shy: false,
                    what: What::Progress,
                });
                }
            }
        }
    }
    v
}

fn frame(size: usize, status: u8, data: &[u8]) -> Vec<u8> {
    let mut f = vec![0; size];
    f[0] = status;
    f[1] = data.len() as u8;
    f[2..2 + data.len()].copy_from_slice(data);
    f
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let cap = t.pick(40_000, 400_000);
    let c = cfgs(t);
    v.push(family("closed transmit model", c.len() as u64, move |i, out| {
        bfs(&c[i as usize], cap, out).map(|_| ())
    }));
    let cap = t.pick(20_000, 400_000);
    let c = both_cfgs(t);
    v.push(family("closed full-duplex model", c.len() as u64, move |i, out| {
        bfs(&c[i as usize], cap, out).map(|_| ())
    }));
    // one running cycle with every pair of status bytes and some queue
    v.push(family("every status pair", 65536, move |i, out| {
        let (si, so) = (i as u8, (i >> 8) as u8);
        let (ack, tc) = (si >> 5 & 3, so >> 3 & 3);
        for target in TARGETS {
            for (eight, queued, held, recv) in [
                (true, 0usize, 6usize, 6usize),
                (true, 3, 2, 1),
                (true, 7, 0, 0),
                (false, 0, 14, 14),
                (false, 15, 14, 3),
                (false, 30, 1, 0),
            ] {
                if t == Tier::Quick && target == Target::CouplerOdd && queued > 5 {
                    continue;
                }
                let size = size_of(eight);
                let mut p = Port::new(target, eight)?;
                let mut o = frame(size, 0, &[]);
                for _ in 0..2 {
                    o = p.cycle(&frame(size, 0, &[]), &o)?;
                }
                let q: Vec<u8> = (0..queued).map(|j| 1 + j as u8).collect();
                p.write(&q)?;
                let h: Vec<u8> = (0..held).map(|j| 0x70 + j as u8).collect();
                let r: Vec<u8> = (0..recv).map(|j| 0x90 + j as u8).collect();
                let (fi, fo) = (frame(size, si, &r), frame(size, so, &h));
                let f = p.cycle(&fi, &fo)?;
                let (t1, d1) = (f[0] >> 3 & 3, &f[1..]);
                let ctx = || format!("{target:?} running, {queued} bytes queued, cycle with input {fi:02x?} output {fo:02x?} returns {f:02x?}");
                if queued == 0 || tc == (ack + 1) % 4 {
                    ensure!(
                        t1 == tc && *d1 == fo[1..],
                        "{}\n{}",
                        ctx(),
                        if queued == 0 {
                            "nothing to send, but the transmit counter or the data changed"
                        } else {
                            "the segment is not acknowledged, but it was replaced or altered"
                        }
                    );
                } else if tc == ack {
                    let n = queued.min(size - 2);
                    ensure!(
                        t1 == (ack + 1) % 4,
                        "{}\nthe segment was acknowledged and data is queued, but the next counter is {t1}",
                        ctx()
                    );
                    ensure!(
                        usize::from(f[1]) >= 1 && usize::from(f[1]) <= n && f[2..2 + usize::from(f[1])] == q[..usize::from(f[1])],
                        "{}\nthe next segment does not carry the next queued bytes",
                        ctx()
                    );
                }
                out.eval(queued > 0);
                out.transitions += 3;
            }
        }
        out.state(&(si, so));
        out.traces += 1;
        Ok(())
    }));
    // any number of queued bytes is transmitted in a bounded number of cycles
    // for every reaction time of the device, then nothing more
    let nmax = t.pick(200u64, 1500);
    v.push(family("bounded delivery", nmax * 6 * 3 * 2, move |i, out| {
        let (ti, i) = (i % 3, i / 3);
        let (e, i) = (i % 2, i / 2);
        let (delay, n) = ((i % 6) as usize, (i / 6) as usize);
        let (target, eight) = (TARGETS[ti as usize], e == 0);
        let size = size_of(eight);
        let mut p = Port::new(target, eight)?;
        let b: Vec<u8> = (0..n).map(|j| j as u8).collect();
        p.write(&b)?;
        let mut o = frame(size, 0, &[]);
        let (mut ack, mut seen, mut since, mut segs) = (0u8, 0u8, 0, 0);
        let segments = n.div_ceil(size - 2);
        let bound = 4 + (segments + 1) * (delay + 2);
        let mut last_change = 0;
        let mut got = 0;
        for c in 0..bound + 10 {
            let f = p.cycle(&frame(size, ack << 5 | 0x80, &[]), &o)?;
            let t1 = f[0] >> 3 & 3;
            if t1 != seen {
                ensure!(ack == seen, "{target:?}: segment {seen} replaced by {t1} while acknowledged is {ack}");
                ensure!(t1 == (seen + 1) % 4, "{target:?}: counter {t1} follows {seen}");
                seen = t1;
                since = 0;
                segs += 1;
                got += usize::from(f[1]);
                last_change = c;
            } else if c > 2 {
                ensure!(f[1..] == o[1..], "{target:?}: data changed without a new counter");
            }
            if since >= delay {
                ack = seen;
            }
            since += 1;
            o = f;
            out.transitions += 1;
        }
        ensure!(
            got == n && last_change <= bound,
            "{target:?} {size} byte frames, device acknowledges after {delay} cycles: of {n} bytes written {got} were transmitted in {segs} segments, last change in cycle {last_change} (bound {bound})"
        );
        out.eval(n > 0);
        out.traces += 1;
        out.state(&(ti, e, delay, n));
        Ok(())
    }));
    v.push(fleets(t == Tier::Thorough, fleet_still));
    v.push(long_waits(t == Tier::Thorough, waited_still));
    v.push(family("every serial setting", SERIAL_SETTINGS, |i, out| {
        every_serial_setting(i, |t| t.heads.clone(), out)
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C10",
        level: Level::ModelChecking,
        rule: "breadth-first closure of a device model closed around the real code; from every reached state the device keeps reacting: everything must be transmitted within 2 cycles per byte + 8, then five more cycles change nothing; in every cycle of every path: no unacknowledged segment replaced or altered, counters consecutive, quiet when idle; plus one running cycle for all 65536 status pairs x queue states, all lengths x acknowledge delays, and waits of up to 5000 (thorough 65541) cycles in every situation",
        assumptions: &["at most one segment is unacknowledged (as this library produces)"],
        families,
    })
}
