//! C12: serial traffic is reported as it happens.
use mc::com::{every_serial_setting, fleets, telling_segments, TELLING_PARTS, waits, SERIAL_SETTINGS};
use mc::engine::*;
use mc::hist::digits;
use mc::rack::*;
use mc::spec::*;
use mc::ensure;
use ur20::{Address, ChannelValue};

fn frame(size: usize, status: u8, len: usize, seed: u8) -> Vec<u8> {
    let mut f = vec![0; size];
    f[0] = status;
    f[1] = len as u8;
    for j in 0..len {
        f[2 + j] = seed.wrapping_mul(13).wrapping_add(j as u8 + 1);
    }
    f
}

/// Reported values of one serial module, given the frames of its history.
fn want(last_tx: u8, i: &[u8], o: &[u8]) -> (V, V) {
    let (li, lo) = (usize::from(i[1]), usize::from(o[1]));
    (
        if i[0] & 1 == 1 && li > 0 {
            V::Bytes(i[2..2 + li].to_vec())
        } else {
            V::NoValue
        },
        if o[0] >> 3 & 3 != last_tx && lo > 0 {
            V::Bytes(o[2..2 + lo].to_vec())
        } else {
            V::NoValue
        },
    )
}

/// Frames per module and cycle; `q` = bytes queued before each cycle.
fn history(r: &Rack, frames: &[Vec<(Vec<u8>, Vec<u8>)>], q: u8, bad: bool, out: &mut Out) -> Res {
    let coms: Vec<usize> = (0..r.mods.len()).filter(|m| r.mods[*m].k == K::Com).collect();
    let mut c = r.coupler()?;
    let mut last = vec![0u8; coms.len()];
    let mut hit = false;
    for n in 0..frames.len() {
        let (mut ib, mut ob) = (vec![0u8; r.in_regs * 2], vec![0u8; r.out_regs * 2]);
        for (j, &m) in coms.iter().enumerate() {
            let (fi, fo) = &frames[n][j];
            ib[r.inp[m].unwrap()..][..fi.len()].copy_from_slice(fi);
            ob[r.out[m].unwrap()..][..fo.len()].copy_from_slice(fo);
            if q >> (n % 4) & 1 == 1 {
                let v = ChannelValue::Bytes(vec![0x55; 4]);
                ensure!(
                    c.set_output(&Address { module: m, channel: 0 }, v).is_ok(),
                    "set_output of bytes refused"
                );
            }
        }
        let ctx = || {
            format!(
                "{}\nframes of the serial modules (input, output) in the last (up to 21) cycles: {:02x?}\nafter cycle {n}",
                r.describe(),
                &frames[n.saturating_sub(20)..=n]
            )
        };
        if bad {
            let mut o = to_regs(&ob);
            o.pop();
            ensure!(c.next(&to_regs(&ib), &o).is_err(), "short image accepted");
        }
        let res = c.next(&to_regs(&ib), &to_regs(&ob));
        ensure!(res.is_ok(), "{}: cycle failed {res:?}", ctx());
        ensure!(
            c.inputs().len() == r.mods.len() && c.outputs().len() == r.mods.len(),
            "{}: values of {} and {} modules reported",
            ctx(),
            c.inputs().len(),
            c.outputs().len()
        );
        for (j, &m) in coms.iter().enumerate() {
            let (fi, fo) = &frames[n][j];
            let (wi, wo) = want(last[j], fi, fo);
            hit |= wi != V::NoValue || wo != V::NoValue;
            let (gi, go) = (&c.inputs()[m], &c.outputs()[m]);
            ensure!(
                gi.len() == 1 && same(&gi[0], &wi),
                "{}: module {m}: reported input {gi:?}, expected {wi:?}",
                ctx()
            );
            ensure!(
                go.len() == 1 && same(&go[0], &wo),
                "{}: module {m}: reported output {go:?}, expected {wo:?} (counter of the previous cycle {})",
                ctx(),
                last[j]
            );
            last[j] = fo[0] >> 3 & 3;
        }
        for (m, md) in r.mods.iter().enumerate() {
            if md.k == K::Com {
                continue;
            }
            for v in c.inputs()[m].iter().chain(&c.outputs()[m]) {
                ensure!(
                    !matches!(v, ChannelValue::Bytes(_) | ChannelValue::ComRsIn(_) | ChannelValue::ComRsOut(_)),
                    "{}: module {m} reports {v:?}",
                    ctx()
                );
            }
        }
        out.transitions += 1;
    }
    out.sample(|| format!("{}\nframes (input, output) per cycle {:02x?}", r.describe(), &frames[..frames.len().min(20)]));
    out.eval(hit);
    out.traces += 1;
    Ok(())
}

fn single(which: usize) -> Rack {
    match which {
        0 => Rack::new(vec![M::com(true)], Style::Packed),
        1 => Rack::new(vec![M::com(false)], Style::Packed),
        _ => Rack::new(
            vec![M::typical(K::Do8), M::typical(K::Pf), M::com(true), M::typical(K::Di4), M::typical(K::Fcnt)],
            Style::Packed,
        ),
    }
}

/// The `x`-th choice of frames for one module in cycle `n`.
fn pick(x: usize, size: usize, n: usize, m: usize) -> (Vec<u8>, Vec<u8>) {
    let avail = (x % 2) as u8;
    let li = [0, 2, size - 2][x / 2 % 3];
    let tx = (x / 6 % 4) as u8;
    let lo = [0, 3][x / 24 % 2];
    let s = (n.wrapping_mul(11) + m * 5) as u8;
    // the counters and flags not under test differ from cycle to cycle
    let si = avail | s << 3 & 0xFA;
    let so = tx << 3 | s.wrapping_mul(7) & 0xE7;
    (frame(size, si, li, s), frame(size, so, lo, s.wrapping_add(100)))
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let depth = t.pick(4usize, 5);
    v.push(family("one serial module, every frame sequence", 48u64.pow(depth as u32 - 1), move |i, out| {
        let pre = digits(i, 48, depth - 1);
        for last in 0..48 {
            let which = (i as usize + last) % 3;
            let r = single(which);
            let size = if which == 1 { 16 } else { 8 };
            let fr: Vec<_> = pre
                .iter()
                .chain([&last])
                .enumerate()
                .map(|(n, x)| vec![pick(*x, size, n, 0)])
                .collect();
            let q = if t == Tier::Thorough || last % 8 == 0 { (i % 16) as u8 } else { 0 };
            history(&r, &fr, q, (last + i as usize) % 16 == 5, out)?;
        }
        if out.evals & 0xff == 0 {
            out.state(&i);
        }
        Ok(())
    }));
    v.push(family("every pair of status bytes", 65536, move |i, out| {
        for which in 0..3 {
            let r = single(which);
            let size = if which == 1 { 16 } else { 8 };
            for (li, lo) in [(0, 0), (1, size - 2), (size - 2, 1)] {
                let a = (frame(size, 0x80, 0, 0), frame(size, 0x08, 1, 3));
                let b = (frame(size, i as u8, li, 9), frame(size, (i >> 8) as u8, lo, 50));
                let c = (frame(size, i as u8, li, 10), frame(size, (i >> 8) as u8, lo, 51));
                history(&r, &[vec![a], vec![b], vec![c]], 0, false, out)?;
            }
        }
        out.state(&i);
        Ok(())
    }));
    v.push(family("every length and byte", 15 * 256 * 3, move |i, out| {
        let (l, i) = ((i % 15) as usize, i / 15);
        let (b, which) = ((i % 256) as u8, (i / 256) as usize);
        let size = if which == 1 { 16 } else { 8 };
        if l > size - 2 {
            return Ok(());
        }
        let r = single(which);
        let f = |s: u8| {
            let mut f = frame(size, s, l, 0);
            f[2..2 + l].fill(b);
            f
        };
        history(
            &r,
            &[
                vec![(f(1), f(8))],
                vec![(f(1), f(16))],
                vec![(f(0), f(16))],
                vec![(f(1), f(0))],
            ],
            0,
            false,
            out,
        )?;
        out.state(&(l, b, which));
        Ok(())
    }));
    // every three bytes next to each other, as received and transmitted data
    let all = t == Tier::Thorough;
    v.push(family("every three bytes, every five special ones", TELLING_PARTS * 2, move |i, out| {
        let (part, small) = (i % TELLING_PARTS, i / TELLING_PARTS == 1);
        if !all && small && part < 256 {
            return Ok(());
        }
        let r = single((part as usize + usize::from(small)) % 3);
        let m = r.mods.iter().position(|m| m.k == K::Com).unwrap();
        let (ia, oa) = (r.inp[m].unwrap(), r.out[m].unwrap());
        let u = r.mods[m].in_len() - 2;
        let mut c = r.coupler()?;
        let mut last = 0;
        for (n, s) in telling_segments(part, u).into_iter().enumerate() {
            let put = |status: u8, at: usize, regs: usize| {
                let mut b = vec![0u8; regs * 2];
                b[at] = status;
                b[at + 1] = s.len() as u8;
                b[at + 2..at + 2 + s.len()].copy_from_slice(s);
                b
            };
            let tx = ((n + 1) % 4) as u8;
            let (ib, ob) = (put(1, ia, r.in_regs), put(tx << 3, oa, r.out_regs));
            ensure!(c.next(&to_regs(&ib), &to_regs(&ob)).is_ok(), "{}\ncycle failed with data {s:02x?}", r.describe());
            let (wi, wo) = want(last, &ib[ia..], &ob[oa..]);
            last = tx;
            ensure!(
                same(&c.inputs()[m][0], &wi) && same(&c.outputs()[m][0], &wo),
                "{}\ndata {s:02x?} received and transmitted, reported {:?} and {:?}",
                r.describe(),
                c.inputs()[m][0],
                c.outputs()[m][0]
            );
            out.eval(true);
            out.transitions += 1;
        }
        out.traces += 1;
        out.state(&(part, small));
        Ok(())
    }));
    // several serial modules: the full product, 12 choices each
    let d2 = 3usize;
    v.push(family("two serial modules", 144u64.pow(d2 as u32 - 1), move |i, out| {
        let pre = digits(i, 144, d2 - 1);
        let r = if i % 2 == 0 {
            Rack::new(vec![M::com(true), M::com(true)], Style::Packed)
        } else {
            Rack::new(vec![M::com(false), M::typical(K::Do8), M::com(true)], Style::Packed)
        };
        let sizes = if i % 2 == 0 { [8, 8] } else { [16, 8] };
        // avail x {0,2} bytes, counter {0,1,2} with data
        let ch = |x: usize, size: usize, n: usize, m: usize| {
            pick(x % 4 + 6 * (x / 4) + 24, size, n, m)
        };
        for last in 0..144 {
            let fr: Vec<_> = pre
                .iter()
                .chain([&last])
                .enumerate()
                .map(|(n, x)| vec![ch(x % 12, sizes[0], n, 0), ch(x / 12, sizes[1], n, 1)])
                .collect();
            history(&r, &fr, 0, false, out)?;
        }
        out.state(&i);
        Ok(())
    }));
    let many = t.pick(66_000usize, 400_000);
    v.push(family("long sessions", 6, move |i, out| {
        let which = (i % 3) as usize;
        let r = single(which);
        let size = if which == 1 { 16 } else { 8 };
        // in one run the counters move regularly, in the other they do not
        let fr: Vec<_> = (0..many)
            .map(|n| {
                if i < 3 {
                    let (a, b) = ((n % 3 != 2) as u8, (n / 2 % 4) as u8);
                    vec![(
                        frame(size, a | ((n % 4) as u8) << 3, n % (size - 1), n as u8),
                        frame(size, b << 3, 1 + n % (size - 2), (n / 3) as u8),
                    )]
                } else {
                    vec![pick((n * 7 + n / 48 * 5 + n / 997) % 48, size, n, 0)]
                }
            })
            .collect();
        history(&r, &fr, 0, false, out)?;
        out.state(&i);
        Ok(())
    }));
    v.push(family("many serial modules", 4096, move |i, out| {
        let n = 3 + (i % 8) as usize;
        let r = Rack::new((0..n).map(|m| M::com(m % 2 == 0)).collect(), STYLES[i as usize % 3]);
        let fr: Vec<Vec<_>> = (0..5)
            .map(|c| {
                (0..n)
                    .map(|m| {
                        let x = (i as usize * 7 + m * (c + 1) * 5 + c * c) % 48;
                        pick(x, if m % 2 == 0 { 8 } else { 16 }, c, m)
                    })
                    .collect()
            })
            .collect();
        history(&r, &fr, (i % 16) as u8, i % 3 == 0, out)?;
        out.state(&i);
        Ok(())
    }));
    v.push(fleets(t == Tier::Thorough, |m| {
        let mut last = 0;
        for ((i, o, _), (ri, ro)) in m.frames.iter().zip(&m.reports) {
            let (wi, wo) = want(last, i, o);
            last = o[0] >> 3 & 3;
            ensure!(
                ri.len() == 1 && ro.len() == 1 && same(&ri[0], &wi) && same(&ro[0], &wo),
                "input frame {i:02x?}, output frame {o:02x?}: reported {ri:?} and {ro:?}"
            );
        }
        Ok(())
    }));
    let ws = waits(t == Tier::Thorough);
    let after = t.pick(2usize, 3);
    v.push(family("long waits", 48 * after as u64 * ws.len() as u64, move |i, out| {
        let (w, i) = (ws[i as usize % ws.len()], i as usize / ws.len());
        let (x, y) = (i % 48, (i / 48 * (48 / after) + i * 5) % 48);
        let which = x % 3;
        let r = single(which);
        let size = if which == 1 { 16 } else { 8 };
        // the same frames for a long time, then others, then the same again
        let mut fr = vec![vec![pick((x + 25) % 48, size, 1, 0)]];
        for k in 0..2 {
            fr.extend((0..w).map(|_| vec![pick(x, size, 2 + k, 0)]));
            fr.push(vec![pick(y, size, 5, 0)]);
            fr.push(vec![pick((y + 24) % 48, size, 5, 0)]);
        }
        history(&r, &fr, 0, false, out)?;
        out.state(&(w, x, y));
        Ok(())
    }));
    v.push(family("every serial setting", SERIAL_SETTINGS, |i, out| {
        every_serial_setting(i, |t| t.reports.clone(), out)
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C12",
        level: Level::ModelChecking,
        rule: "every sequence of frames (data available, length 0/2/full, transmit counter 0-3, with and without data) of the stated depth for one serial module alone or between other modules, for two modules the full product, all 65536 status pairs, all lengths and byte values, every frame held for up to 5000 (thorough 65541) cycles; reported values compared with the reporting automaton after every cycle, with requests queued and failed cycles interspersed. Non-trivial: some data was reported",
        assumptions: &[],
        families,
    })
}
