//! C09: initialisation always runs first and loses no queued data.
use mc::com::*;
use mc::engine::*;
use mc::rack::*;
use mc::spec::*;
use mc::{ensure, fail};
use ur20::Address;
use ur20::ChannelValue;

const TARGETS: [Target; 3] = [Target::Processor, Target::Coupler, Target::CouplerOdd];

fn frame(size: usize, status: u8, len: usize, seed: u8) -> Vec<u8> {
    let mut f = vec![0; size];
    f[0] = status;
    f[1] = len as u8;
    for j in 0..len {
        f[2 + j] = seed.wrapping_add(j as u8);
    }
    f
}

fn check_first(f: &[u8]) -> Res {
    ensure!(f[0] & 3 == 3, "first cycle does not request flushing both buffers: {f:02x?}");
    ensure!(f[0] & 0x80 == 0, "first cycle sets the reset flag: {f:02x?}");
    ensure!(f[1] == 0, "first cycle carries user data: {f:02x?}");
    Ok(())
}
fn check_second(f: &[u8]) -> Res {
    ensure!(f[0] & 0x80 != 0, "second cycle does not set the reset flag: {f:02x?}");
    ensure!(f[0] & 3 == 0, "second cycle still requests flushing: {f:02x?}");
    ensure!(f[1] == 0, "second cycle carries user data: {f:02x?}");
    Ok(())
}

/// Send everything with a device that reacts at once; returns what it got.
fn run_out(p: &mut Port, mut o: Vec<u8>, want: usize, first_must_send: bool, acked: u8) -> Result<Vec<u8>, String> {
    let mut got = vec![];
    let mut t = o[0] >> 3 & 3;
    let mut ack = acked;
    let size = o.len();
    for n in 0..want + 8 {
        let f = p.cycle(&frame(size, ack << 5 | 0x80, 0, 0), &o)?;
        let t1 = f[0] >> 3 & 3;
        if t1 != t {
            got.extend_from_slice(&f[2..2 + usize::from(f[1])]);
            t = t1;
        } else if n == 0 && first_must_send && want > 0 {
            fail!("the third cycle sends nothing although data is queued and everything is acknowledged: {f:02x?}");
        }
        ack = t;
        o = f;
    }
    Ok(got)
}

/// One whole initialisation. `w` selects when data is written.
#[allow(clippy::too_many_arguments)]
fn session(
    target: Target,
    eight: bool,
    first: (&[u8], &[u8]),
    second: Option<(&[u8], &[u8])>,
    w: u8,
    out: &mut Out,
) -> Res {
    let size = size_of(eight);
    let mut p = Port::new(target, eight)?;
    let mut want: Vec<u8> = vec![];
    let mut put = |p: &mut Port, k: u8| -> Res {
        if w >> k & 1 == 1 {
            let n = if k == 0 { size + 1 } else { 2 };
            let b: Vec<u8> = (0..n).map(|j| 0x20 + k * 0x20 + j as u8).collect();
            if w & 8 != 0 && target != Target::Processor {
                p.set(&b)?;
            } else {
                p.write(&b)?;
            }
            want.extend(b);
        }
        Ok(())
    };
    put(&mut p, 0)?;
    let f1 = p.cycle(first.0, first.1)?;
    check_first(&f1)?;
    ensure!(p.read(64)?.is_empty(), "data readable after the first cycle");
    put(&mut p, 1)?;
    let (i2, o2) = match second {
        Some((i, o)) => (i.to_vec(), o.to_vec()),
        None => (first.0.to_vec(), f1),
    };
    let f2 = p.cycle(&i2, &o2)?;
    check_second(&f2)?;
    ensure!(p.read(64)?.is_empty(), "data readable after the second cycle");
    put(&mut p, 2)?;
    // the device now acknowledges the counter it sees
    let t = f2[0] >> 3 & 3;
    let got = run_out(&mut p, f2, want.len(), true, t)?;
    ensure!(got == want, "queued {want:02x?} but transmitted {got:02x?}");
    ensure!(p.read(64)?.is_empty(), "data of the initialisation phase became readable");
    out.sample(|| format!("{target:?}, {size} byte frames, first cycle {first:02x?}, second {second:02x?}, writes {w:#x}: queued and transmitted {want:02x?}"));
    out.eval(!want.is_empty());
    out.transitions += 2;
    Ok(())
}

/// The first three cycles of all serial modules of a rack; failing cycles at
/// the points selected by `b`.
fn rack_start(r: &Rack, b: usize, out: &mut Out) -> Result<bool, String> {
    let bad = 3usize;
    let mut c = r.coupler()?;
    let (zi, zo) = (vec![0u16; r.in_regs], vec![0u16; r.out_regs]);
    let coms: Vec<usize> = (0..r.mods.len()).filter(|m| r.mods[*m].k == K::Com).collect();
    for &m in &coms {
        c.set_output(&Address { module: m, channel: 0 }, ChannelValue::Bytes(vec![m as u8 + 1; 3]))
            .map_err(|e| format!("set_output: {e:?}"))?;
    }
    let fail = |c: &mut ur20::ur20_fbc_mod_tcp::Coupler| -> Res {
        if !zo.is_empty() {
            ensure!(c.next(&zi, &zo[1..]).is_err(), "{}\ncycle with a short output image succeeds", r.describe());
        }
        Ok(())
    };
    let mut img = zo.clone();
    for n in 0..3 {
        if (b % bad == n) || b / bad == n {
            fail(&mut c)?;
        }
        img = c.next(&zi, &img).map_err(|e| format!("{}\ncycle {n}: {e:?}", r.describe()))?;
        let bytes = to_bytes(&img);
        for &m in &coms {
            let f = r.out_bytes(m, &bytes);
            match n {
                0 => check_first(f),
                1 => check_second(f),
                _ => {
                    ensure!(f[1] == 3 && f[2..5] == [m as u8 + 1; 3], "the data queued before initialisation is not sent in the third cycle: {f:02x?}");
                    Ok(())
                }
            }
            .map_err(|e| format!("{}\nmodule {m}: {e}", r.describe()))?;
            if let Some(rd) = c.reader(m) {
                let mut buf = [0; 8];
                ensure!(rd.read(&mut buf).ok() == Some(0), "data readable in cycle {n}");
            }
        }
        out.transitions += 1;
    }
    Ok(!coms.is_empty())
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // every status byte of both frames in the first cycle
    v.push(family("every first frame pair", 65536, move |i, out| {
        let (si, so) = (i as u8, (i >> 8) as u8);
        for target in TARGETS {
            for eight in [true, false] {
                let size = size_of(eight);
                if t == Tier::Quick && target == Target::CouplerOdd && !eight {
                    continue;
                }
                for (li, lo) in [(0, 0), (size - 2, size - 2)] {
                    let (i1, o1) = (frame(size, si, li, 0x40), frame(size, so, lo, 0xA0));
                    let ws: &[u8] = t.pick(&[1, 14], &[0, 1, 2, 4, 7, 8 + 7]);
                    for &w in ws {
                        session(target, eight, (&i1, &o1), None, w, out).map_err(|e| {
                            format!("{target:?}, first cycle with input {i1:02x?} output {o1:02x?}, second with the same input and the returned output; data queued: mask {w:04b}\n{e}")
                        })?;
                        out.traces += 1;
                    }
                }
            }
        }
        out.state(&(si, so));
        Ok(())
    }));
    // the second cycle sees something else
    let seconds = t.pick(6u64, 64);
    v.push(family("every second frame pair", 65536 * seconds, move |i, out| {
        let (si, so) = (i as u8, (i >> 8) as u8);
        let k = (i >> 16) as u8;
        let target = TARGETS[usize::from(k) % 3];
        let eight = k & 1 == 0;
        let size = size_of(eight);
        let (s1, s2) = (k.wrapping_mul(37), k.wrapping_mul(91).wrapping_add(5));
        let (i1, o1) = (frame(size, s1, 2, 9), frame(size, s2, 3, 77));
        let (i2, o2) = (
            frame(size, si, usize::from(si) % (size - 1), 0x40),
            frame(size, so, usize::from(so) % (size - 1), 0xA0),
        );
        session(target, eight, (&i1, &o1), Some((&i2, &o2)), 7, out).map_err(|e| {
            format!("{target:?}, first cycle with input {i1:02x?} output {o1:02x?}, second with input {i2:02x?} output {o2:02x?}\n{e}")
        })?;
        out.traces += 1;
        out.state(&(k, si, so));
        Ok(())
    }));
    // afterwards the initialisation is never repeated, whatever a later cycle
    // sees: the flags stay as the output image shows them
    v.push(family("every later frame pair", 65536, move |i, out| {
        let (si, so) = (i as u8, (i >> 8) as u8);
        for (k, target) in [(0usize, TARGETS[0]), (1, TARGETS[1]), (3, TARGETS[1]), (2, TARGETS[2])] {
            for w in 0..3 {
                let eight = i / 7 % 2 == 0;
                let size = size_of(eight);
                let mut p = Port::new(target, eight)?;
                let z = frame(size, 0, 0, 0);
                let mut o = z.clone();
                for _ in 0..2 + k {
                    o = p.cycle(&z, &o)?;
                }
                if w > 0 {
                    p.write(&[1, 2, 3])?;
                }
                let (l, lo) = if w == 1 { (2, 3) } else { (0, 0) };
                let shown = [
                    (frame(size, si, l, 0x40), frame(size, so, lo, 0xA0)),
                    (frame(size, !si, 0, 0), frame(size, !so, 1, 0)),
                    (frame(size, si, l, 0x40), frame(size, so, lo, 0xA0)),
                    (z.clone(), z.clone()),
                    (frame(size, si, l, 0x40), o.clone()),
                ];
                for (n, (fi, fo)) in shown.iter().enumerate() {
                    let f = p.cycle(fi, fo)?;
                    ensure!(
                        f[0] & 0x87 == fo[0] & 0x87,
                        "{target:?} {size} byte frames, {} cycles after the initialisation: input {fi:02x?} output {fo:02x?}, returned {f:02x?} with other flush or reset flags",
                        k + n
                    );
                    out.transitions += 1;
                }
                out.eval(true);
            }
        }
        out.traces += 1;
        out.state(&(si, so));
        Ok(())
    }));
    // every length of data queued before each of the cycles
    v.push(family("queued lengths", 64 * 8 * 6, move |i, out| {
        let (n, i) = ((i % 64) as usize, i / 64);
        let (when, i) = ((i % 8) as usize, i / 8);
        let (target, eight) = (TARGETS[(i % 3) as usize], i / 3 == 0);
        let size = size_of(eight);
        let z = frame(size, 0, 0, 0);
        let mut p = Port::new(target, eight)?;
        let mut want = vec![];
        let mut o = z.clone();
        for c in 0..2 {
            if when >> c & 1 == 1 {
                let b: Vec<u8> = (0..n).map(|j| (c * 100 + j) as u8).collect();
                p.write(&b)?;
                want.extend(b);
            }
            o = p.cycle(&z, &o)?;
            if c == 0 { check_first(&o)? } else { check_second(&o)? }
        }
        if when >> 2 & 1 == 1 {
            let b: Vec<u8> = (0..n).map(|j| (200 + j) as u8).collect();
            p.write(&b)?;
            want.extend(b);
        }
        let got = run_out(&mut p, o, want.len(), true, 0)?;
        ensure!(got == want, "{target:?} {size} byte frames, {n} bytes each before cycles {when:03b}: queued {want:02x?} but transmitted {got:02x?}");
        out.eval(n > 0);
        out.traces += 1;
        out.transitions += 2;
        out.state(&(n, when, i));
        Ok(())
    }));
    // received data: presented in any subset of the first six cycles; what is
    // presented from the third on is readable, nothing before
    v.push(family("receiving around initialisation", 3 * 2 * 4 * 64 * 4, move |i, out| {
        let (ti, i) = (i % 3, i / 3);
        let (e, i) = (i % 2, i / 2);
        let (rx0, i) = ((i % 4) as u8, i / 4);
        let (mask, len) = (i % 64, [0usize, 1, 3, 6][(i / 64) as usize]);
        let (target, eight) = (TARGETS[ti as usize], e == 0);
        let size = size_of(eight);
        let mut p = Port::new(target, eight)?;
        let mut o = frame(size, 0, 0, 0);
        let (mut avail, mut rx, mut seg, mut fresh) = (false, rx0, vec![], false);
        let mut want: Vec<u8> = vec![];
        let mut got = vec![];
        for n in 0..6 {
            if mask >> n & 1 == 1 {
                rx = (rx + 1) % 4;
                avail = true;
                seg = (0..len).map(|j| (n * 30 + j) as u8).collect();
                fresh = true;
            }
            let mut f = frame(size, 0, 0, 0);
            f[0] = u8::from(avail) | rx << 3;
            f[1] = seg.len() as u8;
            f[2..2 + seg.len()].copy_from_slice(&seg);
            o = p.cycle(&f, &o)?;
            if n >= 2 && avail && fresh {
                want.extend(seg.iter().copied());
                fresh = false;
            }
            let b = p.read(64)?;
            ensure!(n >= 2 || b.is_empty(), "data readable after cycle {}", n + 1);
            got.extend(b);
            ensure!(got == want, "{target:?} {size} byte frames, start counter {rx0}, new segments of {len} bytes in cycles {mask:06b} (lowest bit first): after cycle {} received {want:02x?}, read {got:02x?}", n + 1);
            out.transitions += 1;
        }
        out.eval(!want.is_empty());
        out.traces += 1;
        out.state(&(ti, e, rx0, mask, len));
        Ok(())
    }));
    // several serial modules in any rack of up to four modules, failed cycles
    // before and in between
    let kinds = [M::com(true), M::com(false), M::typical(K::Do8), M::typical(K::Ai4x12)];
    v.push(family("racks with several serial modules", 4u64.pow(4) * 9, move |i, out| {
        let (mut k, b) = (i % 256, (i / 256) as usize);
        let mut mods = vec![];
        for _ in 0..4 {
            mods.push(kinds[(k % 4) as usize].clone());
            k /= 4;
        }
        let r = Rack::new(mods, STYLES[b % 3]);
        let some = rack_start(&r, b, out)?;
        out.eval(some);
        out.traces += 1;
        out.state(&i);
        Ok(())
    }));
    // any number of modules
    let kinds = [M::com(true), M::com(false), M::typical(K::Do8), M::typical(K::Ai4x12)];
    v.push(family("racks with up to 64 serial modules", 64 * 6 * 9, move |i, out| {
        let (n, i) = ((i % 64) as usize + 1, i / 64);
        let (mix, b) = ((i % 6) as usize, (i / 6) as usize);
        let mods: Vec<M> = (0..n)
            .map(|k| {
                kinds[match mix {
                    0 => 0,
                    1 => 1,
                    2 => k % 2,
                    3 => k % 4,
                    4 => usize::from(k < n / 2) * 2,
                    _ => 1 + usize::from(k % 7 == 3),
                }]
                .clone()
            })
            .collect();
        let r = Rack::new(mods, STYLES[b % 3]);
        let some = rack_start(&r, b, out)?;
        out.eval(some);
        out.traces += 1;
        out.state(&(n, mix, b));
        Ok(())
    }));
    v.push(family("every serial setting", SERIAL_SETTINGS, |i, out| {
        every_serial_setting(i, |t| t.init.clone(), out)
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C09",
        level: Level::ModelChecking,
        rule: "all 65536 pairs of status bytes of the first cycle's and of the second cycle's frames, with and without data in them, with data queued before the first, second and third cycle; all presentation patterns over the first six cycles; all racks of four modules with up to four serial ones and failed cycles at every point. Non-trivial: something was queued or received",
        assumptions: &["the device acknowledges the counter it sees after initialisation"],
        families,
    })
}
