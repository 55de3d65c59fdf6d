//! C18: frequency counter data is converted exactly.
use mc::engine::*;
use mc::rack::*;
use mc::spec::*;
use mc::{ensure, fail};
use std::time::Duration;
use ur20::ur20_2fcnt_100::{Command, ProcessOutput};
use ur20::ur20_fbc_mod_tcp::ProcessModbusTcpData;
use ur20::ChannelValue;

fn put32(r: &mut [u16], x: u32) {
    r[0] = (x >> 16) as u16;
    r[1] = x as u16;
}

/// Decode one block with these periods, counts and status registers.
fn check(m: &dyn ProcessModbusTcpData, per: [u32; 2], cnt: [u32; 2], st: [u16; 2]) -> Res {
    let mut regs = [0u16; 10];
    for c in 0..2 {
        put32(&mut regs[4 * c..], per[c]);
        put32(&mut regs[4 * c + 2..], cnt[c]);
        regs[8 + c] = st[c];
    }
    let r = match m.process_input_data(&regs) {
        Ok(r) if r.len() == 2 => r,
        r => fail!("registers {regs:04x?} decoded as {r:?}"),
    };
    for c in 0..2 {
        let ChannelValue::FcntIn(v) = &r[c] else {
            fail!("registers {regs:04x?} decoded as {r:?}")
        };
        let want = (per[c] < 0x07FF_FFFF).then(|| Duration::from_nanos(u64::from(per[c]) * 125));
        let ok = v.duration == want && v.count == cnt[c] && v.active == (st[c] & 0x100 != 0);
        ensure!(ok, "channel {c} of registers {regs:04x?} decoded as {v:?}, expected period {want:?} count {}", cnt[c]);
        match (v.hertz(), want) {
            (None, None) => {}
            (Some(_), Some(d)) if d.is_zero() => {}
            (Some(h), Some(d)) => {
                let e = f64::from(cnt[c]) / (d.as_nanos() as f64 / 1e9);
                ensure!(
                    (f64::from(h) - e).abs() <= e * 2e-6,
                    "channel {c} of registers {regs:04x?}: {v:?}.hertz() = {h}, expected {e}"
                );
            }
            (h, w) => fail!("channel {c} of registers {regs:04x?}: frequency {h:?} for period {w:?}"),
        }
    }
    Ok(())
}

fn preset(d: Duration, c: Option<Command>) -> ChannelValue {
    let mut o = ProcessOutput::default();
    o.duration = d;
    o.command = c;
    ChannelValue::FcntOut(o)
}

const CMDS: [Option<Command>; 3] = [None, Some(Command::Start), Some(Command::Stop)];

fn check_preset(m: &dyn ProcessModbusTcpData, us: [u64; 2], cmd: [usize; 2]) -> Res {
    let val: Vec<_> = (0..2).map(|c| preset(Duration::from_micros(us[c]), CMDS[cmd[c]])).collect();
    let r = m.process_output_values(&val);
    if us.iter().any(|u| *u > FCNT_MAX_US) {
        ensure!(r.is_err(), "presets {us:?} us encoded as {r:04x?} instead of being refused");
        return Ok(());
    }
    let mut w = vec![0u16; 6];
    for c in 0..2 {
        put32(&mut w[2 * c..], us[c] as u32);
        w[4 + c] = [0, 0x100, 0x200][cmd[c]];
    }
    ensure!(r.as_ref().ok() == Some(&w), "presets {us:?} us with commands {cmd:?} encoded as {r:04x?}, expected {w:04x?}");
    let back = m.process_output_data(&w);
    ensure!(back.as_ref().ok() == Some(&val), "{w:04x?} decodes as {back:?}, expected {val:?}");
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let md = || M::typical(K::Fcnt).make().unwrap();
    if t == Tier::Thorough {
        v.push(family("every period and count", 65536, move |hi, out| {
            let m = md();
            for lo in 0..65536u32 {
                let x = (hi as u32) << 16 | lo;
                check(&*m, [x, x.rotate_left(7)], [!x, x], [lo as u16, hi as u16])?;
                if lo % 0x400 == 0 {
                    out.tick();
                }
            }
            out.evals += 65536;
            out.nontrivial += 65536;
            out.outcome(&hi);
            Ok(())
        }));
    }
    v.push(family("high and low words", 65536, move |i, out| {
        let m = md();
        let x = i as u16;
        let special = [0u16, 1, 2, 7, 8, 0x7F, 0x80, 0xFF, 0x100, 0x7FE, 0x7FF, 0x800, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, x, !x];
        for y in special {
            for p in [u32::from(x) << 16 | u32::from(y), u32::from(y) << 16 | u32::from(x)] {
                for q in [0u32, !p] {
                    check(&*m, [p, q], [q, p], [x, y])?;
                    check(&*m, [q, p], [p, q], [y, x])?;
                    out.sample(|| format!("periods {p:#x} and {q:#x}"));
                    out.eval(true);
                }
            }
        }
        out.outcome(&i);
        Ok(())
    }));
    v.push(family("around the period limits", 2 * 65536, move |i, out| {
        let m = md();
        let (at, d) = ([0x07FF_FFFFu32, 0x0800_0000][(i % 2) as usize], (i / 2) as u32);
        let p = at.wrapping_add(d).wrapping_sub(32768);
        check(&*m, [p, d], [1000, d], [0x100, 0])?;
        check(&*m, [d, p], [d, 1000], [0, 0x100])?;
        // small periods: the frequency needs full resolution
        check(&*m, [d, d * 3], [d, 1], [0, 0])?;
        out.eval(true);
        Ok(())
    }));
    v.push(family("output registers", 65536, move |i, out| {
        let m = md();
        let x = i as u16;
        let special = [0u16, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, !x];
        for y in special {
            for c in [0u16, 0x100, 0x200, 0x300, 0xFDFF, 0xFEFF, 0xFCFF, x] {
                let regs = [x, y, y, x, c, c.rotate_left(1)];
                let spec = M::typical(K::Fcnt);
                let w = spec.decode_out(&to_bytes(&regs)).unwrap();
                let r = m.process_output_data(&regs);
                ensure!(
                    r.as_ref().is_ok_and(|r| same_all(r, &w)),
                    "output registers {regs:04x?} decoded as {r:?}, expected {w:?}"
                );
                out.eval(true);
            }
        }
        Ok(())
    }));
    // every preset in whole microseconds on both channels
    let step = 1u64;
    v.push(family("every preset", 8192, move |i, out| {
        let m = md();
        let mut k = i % step;
        while k < 1024 {
            let us = i * 1024 + k;
            let c = (us % 9) as usize;
            check_preset(&*m, [us, FCNT_MAX_US - us], [c % 3, c / 3])?;
            out.eval(true);
            k += step;
        }
        out.outcome(&i);
        Ok(())
    }));
    v.push(family("presets at and beyond the limit", 64 * 9, move |i, out| {
        let m = md();
        let (b, c) = (i / 9, (i % 9) as usize);
        let cmd = [c % 3, c / 3];
        let mut us: Vec<u64> = vec![1u64 << b, (1u64 << b) - 1, (1u64 << b) + 1];
        us.extend((0..200).map(|d| FCNT_MAX_US - 100 + d));
        us.extend((0..64).map(|k| (1u64 << 32) * (b + 1) / 7 + k * 1_000_003));
        for u in us {
            // (below the largest duration)
            let u = u.min(u64::MAX / 4);
            for o in [0u64, 5, FCNT_MAX_US] {
                check_preset(&*m, [u, o], cmd)?;
                check_preset(&*m, [o, u], cmd)?;
                out.eval(true);
            }
        }
        // between whole microseconds
        for u in [0u64, 1, 77, 65535, 65536, 999_999, 1_000_000, FCNT_MAX_US - 1, FCNT_MAX_US] {
            for ns in [1u64, 499, 500, 999] {
                let d = Duration::from_nanos(u * 1000 + ns);
                let r = m.process_output_values(&[preset(d, CMDS[cmd[0]]), preset(Duration::ZERO, None)]);
                if u >= FCNT_MAX_US {
                    ensure!(r.is_err(), "preset {d:?} (above the limit) encoded as {r:04x?}");
                } else {
                    match r {
                        Ok(r) => {
                            let got = u64::from(r[0]) << 16 | u64::from(r[1]);
                            ensure!(got == u || got == u + 1, "preset {d:?} encoded as {got} us");
                        }
                        Err(e) => fail!("preset {d:?} refused: {e:?}"),
                    }
                }
                out.eval(true);
            }
        }
        let r = m.process_output_values(&[preset(Duration::MAX, CMDS[cmd[0]]), preset(Duration::ZERO, None)]);
        ensure!(r.is_err(), "preset {:?} encoded as {r:04x?}", Duration::MAX);
        Ok(())
    }));
    v.push(family("refusals", 2, |i, out| {
        let m = if i == 0 { M::typical(K::Fcnt).make()? } else { make_default(K::Fcnt) };
        let good = preset(Duration::from_micros(70_000), Some(Command::Stop));
        for n in (0..30usize).chain([2, 6, 10].into_iter().flat_map(wrapped_lengths)) {
            let (a, b) = (m.process_input_data(&vec![0; n]), m.process_output_data(&vec![0; n]));
            ensure!(a.is_ok() == (n == 10), "{n} input registers: {a:?}");
            ensure!(b.is_ok() == (n == 6), "{n} output registers: {b:?}");
            let c = m.process_output_values(&vec![good.clone(); n]);
            ensure!(c.is_ok() == (n == 2), "{n} values: {c:04x?}");
            out.eval(true);
        }
        for ch in 0..2usize {
            for b in M::typical(K::Fcnt).bad_reqs() {
                for fill in [good.clone(), ChannelValue::Disabled] {
                    let mut val = vec![fill; 2];
                    val[ch] = b.clone();
                    let r = m.process_output_values(&val);
                    ensure!(r.is_err(), "{val:?} encoded as {r:04x?} instead of being refused");
                    out.eval(true);
                }
            }
            let mut val = vec![good.clone(); 2];
            val[ch] = ChannelValue::Disabled;
            let r = m.process_output_values(&val);
            let mut w = vec![1u16, 4464, 1, 4464, 0x200, 0x200];
            w[2 * ch] = 0;
            w[2 * ch + 1] = 0;
            w[4 + ch] = 0;
            ensure!(r.as_ref().ok() == Some(&w), "{val:?} encoded as {r:04x?}, expected {w:04x?}");
        }
        Ok(())
    }));
    v.push(family("through a coupler", 3 * 4096, |i, out| {
        let (pos, i) = ((i % 3) as usize, i / 3);
        let mut mods = vec![M::typical(K::Do8); pos];
        mods.extend(vec![M::typical(K::Di4); 2 - pos]);
        mods.push(M::typical(K::Fcnt));
        let at = 2;
        let rack = Rack::new(mods, Style::Packed);
        let mut c = rack.coupler()?;
        for k in 0..16u32 {
            let x = (i as u32 * 16 + k).wrapping_mul(0x0001_0003);
            let mut ib = vec![0x33u8; rack.in_regs * 2];
            let b0 = rack.inp[at].unwrap();
            for j in 0..20 {
                ib[b0 + j] = (x.rotate_left(j as u32 * 5) >> 3) as u8;
            }
            let us = [(u64::from(x) >> 3) % (FCNT_MAX_US + 1), u64::from(x) % 65537];
            for ch in 0..2 {
                let a = ur20::Address { module: at, channel: ch };
                let q = preset(Duration::from_micros(us[ch]), CMDS[(k as usize + ch) % 3]);
                ensure!(c.set_output(&a, q.clone()).is_ok(), "{}: request {q:?} refused", rack.describe());
            }
            let regs = to_regs(&ib);
            let img = c.next(&regs, &vec![0; rack.out_regs]);
            ensure!(img.is_ok(), "{}: cycle failed: {img:?}", rack.describe());
            let w = rack.decode_in(&regs).unwrap();
            ensure!(same_rack(c.inputs(), &w), "{}: input image {regs:04x?} reported as {:?}, expected {w:?}", rack.describe(), c.inputs());
            let b = to_bytes(&img.unwrap());
            let o0 = rack.out[at].unwrap();
            for ch in 0..2 {
                let o = &b[o0 + 4 * ch..];
                let got = u64::from(o[1]) << 24 | u64::from(o[0]) << 16 | u64::from(o[3]) << 8 | u64::from(o[2]);
                let cmd = &b[o0 + 8 + 2 * ch..][..2];
                ensure!(
                    got == us[ch] && cmd == [0, ((k as usize + ch) % 3) as u8],
                    "{}: preset {} us, command {} for channel {ch} written as {got} us, command bytes {cmd:02x?}",
                    rack.describe(), us[ch], (k as usize + ch) % 3
                );
            }
            out.eval(true);
        }
        Ok(())
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C18",
        level: Level::Exploration,
        rule: "periods and counts: every high word x special low words and the reverse, +-32768 around the limit (thorough: all 2^32), all status registers; every preset up to the maximum on both channels with the command pairs in turn, presets around and far beyond the limit, sub-microsecond presets; wrong kinds and counts; through a coupler. Non-trivial: all",
        assumptions: &["frequency compared with relative tolerance 2e-6, not for a period of zero"],
        families,
    })
}
