//! C24: no register content makes the library panic or hang. A panic or a call
//! that does not return is turned into a violation by the engine.
use mc::engine::*;
use mc::hist::digits;
use mc::rack::*;
use mc::racks::*;
use mc::spec::*;
use mc::{ensure, fail};
use std::sync::Arc;
use std::time::Duration;
use ur20::ur20_1com_232_485_422 as com;
use ur20::ur20_2fcnt_100 as fcnt;
use ur20::ur20_fbc_mod_tcp::*;
use ur20::{Address, ChannelValue};

/// Channel values of every kind, ordinary and extreme.
fn values() -> Vec<ChannelValue> {
    let mut v = vec![
        ChannelValue::None,
        ChannelValue::Disabled,
        ChannelValue::Bit(true),
        ChannelValue::Bit(false),
        ChannelValue::SilPFIn(Default::default()),
        ChannelValue::ComRsIn(Default::default()),
        ChannelValue::ComRsOut(Default::default()),
    ];
    for f in [
        0.0,
        -0.0,
        1.0,
        -1.0,
        10.0,
        20.0,
        20.5,
        1e9,
        -1e9,
        1e30,
        f32::MAX,
        f32::MIN,
        f32::MIN_POSITIVE,
        f32::INFINITY,
        f32::NEG_INFINITY,
        f32::NAN,
        -f32::NAN,
        f32::from_bits(1),
        f32::from_bits(0x7F80_0001),
    ] {
        v.push(ChannelValue::Decimal32(f));
    }
    for n in [0, 1, 5, 6, 7, 8, 13, 14, 15, 16, 255, 256, 257, 1000, 70000] {
        v.push(ChannelValue::Bytes(vec![0xA5; n]));
        let mut i = com::ProcessInput::default();
        i.data = vec![1; n];
        i.rx_cnt = n;
        i.tx_cnt_ack = n;
        v.push(ChannelValue::ComRsIn(i));
        for c in [0, 3, 4, 7, 255, 256, usize::MAX] {
            let mut o = com::ProcessOutput::default();
            o.data = vec![1; n];
            o.tx_cnt = c;
            v.push(ChannelValue::ComRsOut(o.clone()));
            o.tx_cnt = 0;
            o.rx_cnt_ack = c;
            v.push(ChannelValue::ComRsOut(o));
        }
    }
    for d in [
        Duration::ZERO,
        Duration::from_nanos(1),
        Duration::from_nanos(999),
        Duration::from_micros(1),
        Duration::from_micros(FCNT_MAX_US),
        Duration::from_micros(FCNT_MAX_US + 1),
        Duration::from_nanos(FCNT_MAX_US * 1000 + 999),
        Duration::from_secs(4294),
        Duration::from_secs(4295),
        Duration::from_secs(1 << 32),
        Duration::from_secs(u64::MAX / 1_000_000),
        Duration::from_secs(u64::MAX / 1_000_000 + 1),
        Duration::from_secs(u64::MAX / 1000),
        Duration::MAX,
    ] {
        for c in [None, Some(fcnt::Command::Start), Some(fcnt::Command::Stop)] {
            let mut o = fcnt::ProcessOutput::default();
            o.duration = d;
            o.command = c;
            v.push(ChannelValue::FcntOut(o));
        }
        for n in [0, 1, u32::MAX] {
            v.push(ChannelValue::FcntIn(fcnt::ProcessInput {
                duration: Some(d),
                count: n,
                active: true,
            }));
            v.push(ChannelValue::FcntIn(fcnt::ProcessInput {
                duration: None,
                count: n,
                active: false,
            }));
        }
    }
    v
}

/// Register patterns: 0 and 1 are constant, the others mixed.
fn pattern(n: usize, b: usize) -> Vec<u16> {
    (0..n)
        .map(|i| match b {
            0 => 0,
            1 => 0xFFFF,
            2 => 0x8000,
            3 => 0x7FFF,
            4 => 0x0100,
            5 => (i * 4099 + 257) as u16,
            6 => 0x0681 + 8 * i as u16,
            7 => 0x0E18,
            b => ((i + b) * 40503 + b * b * 7919) as u16,
        })
        .collect()
}

/// Must an image of that many registers be refused at this offset?
/// `None`: left open.
fn unusable(off: u16, base: u16, len: usize, regs: usize) -> bool {
    if len == 0 {
        return false;
    }
    let (reg, bit) = (off / 16, off % 16);
    if bit % 8 != 0 || reg < base {
        return true;
    }
    let first = usize::from(reg - base) * 2 + usize::from(bit / 8);
    first + len > regs * 2
}

fn step(c: &mut Coupler, must_fail: bool, i: &[u16], o: &[u16], ctx: impl Fn() -> String) -> Res {
    let r = no_panic(
        || format!("{}\nnext(input of {} registers, output of {} registers)", ctx(), i.len(), o.len()),
        || c.next(i, o).is_ok(),
    )?;
    if must_fail && r {
        fail!(
            "{}\nnext(input of {} registers, output of {} registers) was accepted",
            ctx(),
            i.len(),
            o.len()
        );
    }
    Ok(())
}

fn offsets_case(m: &M, oo: u16, io: u16, out: &mut Out) -> Res {
    let cfg = CouplerConfig {
        modules: vec![m.k.module_type()],
        offsets: vec![oo, io],
        params: vec![m.p.clone()],
    };
    let ctx = || format!("{:?} params {:?} output offset {oo:#06x} input offset {io:#06x}", m.k.module_type(), m.p);
    let mut c = match no_panic(|| format!("{}\nCoupler::new", ctx()), || Coupler::new(&cfg))? {
        Ok(c) => c,
        // refusing at construction is as good as in the cycle
        Err(_) => {
            out.eval(false);
            return Ok(());
        }
    };
    let (inr, outr) = (m.in_len().div_ceil(2), m.out_len().div_ceil(2));
    for (ni, no) in [
        (inr, outr),
        (inr + 1, outr + 1),
        (0, 0),
        (inr.saturating_sub(1), outr),
        (inr, outr.saturating_sub(1)),
        (1, 1),
        (0, 0x20),
        (0x20, 0),
    ] {
        let bad = (oo != 0xFFFF && unusable(oo, 0x800, m.out_len(), no))
            || (io != 0xFFFF && unusable(io, 0, m.in_len(), ni));
        step(&mut c, bad, &pattern(ni, 0), &pattern(no, 0), ctx)?;
        out.sample(|| format!("{}: {ni} input and {no} output registers", ctx()));
        out.eval(true);
    }
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let sh = SHAPES as u64;
    // every offset
    v.push(family("every output offset of every module", sh * 256, move |i, out| {
        let m = M::shape((i % sh) as usize, 0);
        for lo in 0..256u16 {
            let off = ((i / sh) as u16) << 8 | lo;
            for io in [0, 0xFFFF, off] {
                offsets_case(&m, off, io, out)?;
            }
        }
        out.outcome(&(i, 0));
        Ok(())
    }));
    v.push(family("every input offset of every module", sh * 256, move |i, out| {
        let m = M::shape((i % sh) as usize, 1);
        for lo in 0..256u16 {
            let off = ((i / sh) as u16) << 8 | lo;
            for oo in [0x8000, 0xFFFF, off & 0x7FFF] {
                offsets_case(&m, oo, off, out)?;
            }
        }
        out.outcome(&(i, 1));
        Ok(())
    }));
    // several modules with any combination of offsets
    let spec: Arc<Vec<u16>> = Arc::new(t.pick(
        vec![0xFFFF, 0x8000, 0x8008, 0x8010, 0x8018, 0x8020, 0x8040, 0x8048, 0x8004, 0x0000, 0x7FF8, 0xFFF8],
        vec![
            0xFFFF, 0x8000, 0x8008, 0x8010, 0x8018, 0x8020, 0x8028, 0x8030, 0x8040, 0x8048, 0x8050,
            0x8060, 0x8080, 0x8004, 0x8001, 0x800F, 0x0000, 0x0008, 0x7FF8, 0x7FFF, 0xFFF8, 0xFFFE,
        ],
    ));
    let ispec: [u16; 8] = [0xFFFF, 0, 8, 0x10, 0x18, 0x20, 0x7FF8, 0x8000];
    v.push(family("two modules with any combination of offsets", sh * sh, move |i, out| {
        let (a, b) = (M::shape((i % sh) as usize, 0), M::shape((i / sh) as usize, 1));
        for &x in spec.iter() {
            for &y in spec.iter() {
                for &u in &ispec {
                    for &w in &ispec {
                        let cfg = CouplerConfig {
                            modules: vec![a.k.module_type(), b.k.module_type()],
                            offsets: vec![x, u, y, w],
                            params: vec![a.p.clone(), b.p.clone()],
                        };
                        let Ok(mut c) = Coupler::new(&cfg) else {
                            out.eval(false);
                            continue;
                        };
                        for (ni, no) in [(24, 24), (7, 7), (12, 3)] {
                            let bad = [(&a, x, u), (&b, y, w)].iter().any(|(m, o, i)| {
                                (*o != 0xFFFF && unusable(*o, 0x800, m.out_len(), no))
                                    || (*i != 0xFFFF && unusable(*i, 0, m.in_len(), ni))
                            });
                            step(&mut c, bad, &pattern(ni, 0), &pattern(no, 0), || {
                                format!("{cfg:04x?}")
                            })?;
                            out.eval(true);
                        }
                    }
                }
            }
        }
        Ok(())
    }));
    // image lengths
    v.push(family("every image length of racks of up to 64 modules", sh * 3 * 12, move |i, out| {
        let n = [1, 2, 3, 4, 5, 8, 13, 20, 33, 48, 63, 64][(i / sh / 3) as usize];
        let rack = Rack::new(long_rack(n, (i % sh) as usize, 1 + n % 5), STYLES[(i / sh % 3) as usize]);
        let mut c = rack.coupler()?;
        let (fi, fo) = (
            base_image(&rack, Side::Input, 2),
            base_image(&rack, Side::Output, 2),
        );
        let bytes_needed = |v: &[Option<usize>], l: &dyn Fn(&M) -> usize| {
            v.iter()
                .zip(&rack.mods)
                .filter_map(|(o, m)| o.map(|o| o + l(m)))
                .max()
                .unwrap_or(0)
                .div_ceil(2)
        };
        let (ni, no) = (
            bytes_needed(&rack.inp, &M::in_len),
            bytes_needed(&rack.out, &M::out_len),
        );
        for l in 0..=fi.len() {
            step(&mut c, l < ni, &fi[..l], &fo, || rack.describe())?;
            out.eval(true);
        }
        for l in 0..=fo.len() {
            step(&mut c, l < no, &fi, &fo[..l], || rack.describe())?;
            step(&mut c, l < no || l < ni, &fi[..l.min(fi.len())], &fo[..l], || rack.describe())?;
            out.eval(true);
        }
        // the largest images there are
        for b in 0..9 {
            step(&mut c, false, &pattern(0x1100, b), &pattern(0x1100, b), || rack.describe())?;
            out.eval(true);
        }
        if n < 4 {
            for l in wrapped_lengths(no).into_iter().chain(wrapped_lengths(ni)) {
                let big = pattern(l, 2);
                step(&mut c, l < ni || l < no, &big, &big, || rack.describe())?;
                step(&mut c, l < ni, &big, &fo, || rack.describe())?;
                step(&mut c, l < no, &fi, &big, || rack.describe())?;
                out.eval(true);
            }
        }
        Ok(())
    }));
    // arbitrary image contents and requests of any kind
    v.push(family("any image pattern and any request", sh * 4, move |i, out| {
        let j = (i / sh) as usize;
        let mods = vec![
            M::shape((i % sh) as usize, j),
            M::shape(((i % sh) as usize + 3 * j + 1) % SHAPES, j),
        ];
        let rack = Rack::new(mods, STYLES[j % 3]);
        let mut c = rack.coupler()?;
        let vals = values();
        for (k, val) in vals.iter().enumerate() {
            for (m, md) in rack.mods.iter().enumerate() {
                for ch in [0, 1, md.k.channels().wrapping_sub(1), md.k.channels(), usize::MAX] {
                    let a = Address { module: m, channel: ch };
                    no_panic(
                        || format!("{}\nset_output({a:?}, {val:?})", rack.describe()),
                        || c.set_output(&a, val.clone()).is_ok(),
                    )?;
                }
            }
            let (ii, oo) = (pattern(rack.in_regs, k % 23), pattern(rack.out_regs, k % 19));
            step(&mut c, false, &ii, &oo, || {
                format!("{}\nafter set_output of {val:?} to every channel; input {ii:04x?}, output {oo:04x?}", rack.describe())
            })?;
            out.eval(true);
        }
        for b in 0..64 {
            for d in 0..64 {
                let (ii, oo) = (pattern(rack.in_regs, b), pattern(rack.out_regs, d));
                step(&mut c, false, &ii, &oo, || {
                    format!("{}\ninput {ii:04x?}, output {oo:04x?}", rack.describe())
                })?;
                out.eval(true);
            }
        }
        out.outcome(&format!("{:?}{:?}", c.inputs(), c.outputs()));
        Ok(())
    }));
    // module calls
    v.push(family("module data of any length", sh * 4, move |i, out| {
        let m = M::shape((i % sh) as usize, (i / sh) as usize);
        let d = m.make()?;
        for n in 0..70 {
            for b in 0..40 {
                let r = pattern(n, b);
                no_panic(
                    || format!("{m:?} with registers {r:04x?}"),
                    || {
                        let a = d.process_input_data(&r);
                        let b = d.process_output_data(&r);
                        if let Ok(v) = b {
                            let _ = d.process_output_values(&v);
                        }
                        if let Ok(v) = a {
                            for x in &v {
                                if let ChannelValue::FcntIn(f) = x {
                                    let _ = f.hertz();
                                }
                            }
                            let _ = d.process_output_values(&v);
                        }
                    },
                )?;
                out.eval(true);
            }
        }
        Ok(())
    }));
    v.push(family("values of any kind and number", sh * 2, move |i, out| {
        let m = M::shape((i % sh) as usize, (i / sh) as usize);
        let d = m.make()?;
        let vals = values();
        let c = m.k.channels();
        for n in 0..20 {
            for a in &vals {
                let l = vec![a.clone(); n];
                no_panic(
                    || format!("{m:?}: process_output_values of {n} x {a:?}"),
                    || d.process_output_values(&l).is_ok(),
                )?;
                out.eval(true);
            }
        }
        // pairs of kinds
        for n in [c, c.max(1), 2] {
            for a in vals.iter() {
                for b in vals.iter().step_by(3) {
                    let mut l = vec![a.clone(); n];
                    if let Some(x) = l.last_mut() {
                        *x = b.clone();
                    }
                    no_panic(
                        || format!("{m:?}: process_output_values of {l:?}"),
                        || d.process_output_values(&l).is_ok(),
                    )?;
                    out.eval(true);
                }
            }
        }
        Ok(())
    }));
    v.push(family("default modules with any data", ALL.len() as u64, move |i, out| {
        let k = ALL[i as usize];
        let d = make_default(k);
        for n in 0..40 {
            for b in 0..20 {
                let r = pattern(n, b);
                no_panic(
                    || format!("default {k:?} with registers {r:04x?}"),
                    || {
                        let _ = d.process_input_data(&r);
                        let _ = d.process_output_data(&r);
                        (d.process_input_byte_count(), d.process_output_byte_count())
                    },
                )?;
                out.eval(true);
            }
        }
        for n in 0..18 {
            for a in values() {
                let l = vec![a.clone(); n];
                no_panic(
                    || format!("default {k:?}: process_output_values of {n} x {a:?}"),
                    || d.process_output_values(&l).is_ok(),
                )?;
                out.eval(true);
            }
        }
        Ok(())
    }));
    // parameter blocks
    v.push(family("parameter blocks of any length and content", 18, move |i, out| {
        let k = ALL[i as usize];
        for n in 0..140 {
            for b in 0..60 {
                let p = pattern(n, b);
                no_panic(|| format!("{k:?} with parameters {p:?}"), || make(k, &p).is_ok())?;
                let mut p = M::variant(k, b % 7).p;
                p.resize(n, (b * 1111) as u16);
                no_panic(|| format!("{k:?} with parameters {p:?}"), || make(k, &p).is_ok())?;
                out.eval(true);
            }
        }
        Ok(())
    }));
    let step_v = t.pick(61usize, 1);
    v.push(family("any register value in any place of a parameter block", 18 * 64, move |i, out| {
        let k = ALL[(i % 18) as usize];
        let r = (i / 18) as usize;
        if r >= k.regs() {
            return Ok(());
        }
        let mut p = M::variant(k, 0).p;
        for x in (0..=0xFFFFu32).filter(|x| *x < 1030 || *x as usize % step_v == 0 || *x > 0xFFF0) {
            p[r] = x as u16;
            no_panic(|| format!("{k:?} with parameters {p:?}"), || make(k, &p).is_ok())?;
            out.eval(true);
        }
        Ok(())
    }));
    // serial frames of any content, in any order
    let frames: Arc<Vec<(u8, u8)>> = Arc::new(vec![
        (0x00, 0),
        (0x81, 6),
        (0x89, 14),
        (0xFF, 15),
        (0xF9, 255),
        (0x7F, 7),
    ]);
    let n = frames.len() * frames.len();
    let len = t.pick(3usize, 4);
    v.push(family(
        "serial frames of any content in any order",
        (n as u64).pow(len as u32) * 2,
        move |i, out| {
            let rack = Rack::new(vec![M::com(i % 2 == 0)], Style::Packed);
            let mut c = rack.coupler()?;
            let l = rack.mods[0].com_len() / 2;
            let ops = digits(i / 2, n, len);
            for (j, d) in ops.iter().enumerate() {
                let (a, b) = (frames[d % frames.len()], frames[d / frames.len()]);
                let mut ii = pattern(l, 5);
                let mut oo = pattern(l, 6);
                ii[0] = u16::from(a.0) | u16::from(a.1) << 8;
                oo[0] = u16::from(b.0) | u16::from(b.1) << 8;
                let ctx = || format!("{}\ncycles with (in status, in length), (out status, out length): {:x?}", rack.describe(), ops.iter().map(|d| (frames[d % frames.len()], frames[d / frames.len()])).collect::<Vec<_>>());
                no_panic(&ctx, || {
                    if let Some(w) = c.writer(0) {
                        let _ = w.write_all(&vec![7; (d * 5 + j) % 17]);
                        let _ = w.flush();
                    }
                })?;
                step(&mut c, false, &ii, &oo, ctx)?;
                no_panic(ctx, || {
                    if let Some(r) = c.reader(0) {
                        let mut buf = vec![0; (d * 7 + j) % 20];
                        let _ = r.read(&mut buf);
                        let mut v = vec![];
                        if d % 3 == 0 {
                            let _ = r.read_to_end(&mut v);
                        }
                    }
                })?;
                out.eval(true);
            }
            Ok(())
        },
    ));
    v.push(family("every status and length byte of a serial module", 256 * 2, |i, out| {
        let rack = Rack::new(vec![M::com(i % 2 == 0)], Style::Packed);
        let st = (i / 2) as u16;
        let l = rack.mods[0].com_len() / 2;
        let max = rack.mods[0].com_len() - 2;
        let mut c = rack.coupler()?;
        for n in 0..256u16 {
            for m in [0u16, 1, 255, n] {
                let (mut ii, mut oo) = (pattern(l, 5), pattern(l, 6));
                ii[0] = st | n << 8;
                oo[0] = !st & 0xFF | m << 8;
                let bad = usize::from(n) > max || usize::from(m) > max;
                step(&mut c, bad, &ii, &oo, || {
                    format!("{} input {ii:04x?} output {oo:04x?}", rack.describe())
                })?;
                ii[0] = st | m << 8;
                oo[0] = st | n << 8;
                step(&mut c, bad, &ii, &oo, || {
                    format!("{} input {ii:04x?} output {oo:04x?}", rack.describe())
                })?;
                out.eval(true);
            }
        }
        Ok(())
    }));
    v.push(family("message processor with any messages", 7 * 7, |i, out| {
        // a frame holds counters of 0..3
        let cnts = [0usize, 1, 2, 3, 4, 7, 255];
        let (a, b) = (cnts[(i % 7) as usize], cnts[(i / 7) as usize]);
        for pl in [com::ProcessDataLength::EightBytes, com::ProcessDataLength::SixteenBytes] {
            for n in [0usize, 1, 6, 7, 14, 15, 300, 70000] {
                for flags in 0..8u8 {
                    let mut p = com::MessageProcessor::new(pl.clone());
                    let mut o = com::ProcessOutput::default();
                    for round in 0..7 {
                        no_panic(
                            || format!("processor with counters {a} {b}, {n} bytes, flags {flags}, call {round}"),
                            || {
                                use std::io::{Read, Write};
                                let _ = p.write(&vec![3; n]);
                                let mut x = com::ProcessInput::default();
                                x.rx_cnt = a;
                                x.tx_cnt_ack = b;
                                x.data = vec![1; n];
                                x.data_available = flags & 1 != 0;
                                x.ready = flags & 2 != 0;
                                let mut y = com::ProcessOutput::default();
                                y.tx_cnt = b;
                                y.rx_cnt_ack = a;
                                y.data = vec![2; n];
                                o = p.next(&x, if flags & 4 != 0 { &y } else { &o });
                                let _ = o.try_into_byte_message(&pl);
                                let mut buf = [0; 9];
                                let _ = p.read(&mut buf);
                                let _ = p.flush();
                            },
                        )?;
                        out.eval(true);
                    }
                }
            }
        }
        Ok(())
    }));
    // call orders
    let calls = t.pick(4usize, 5);
    v.push(family(
        "calls in any order",
        9u64.pow(calls as u32) * 4,
        move |i, out| {
            let mods = match i % 4 {
                0 => vec![],
                1 => vec![M::com(true)],
                2 => vec![M::typical(K::Fcnt), M::com(false)],
                _ => vec![M::typical(K::Do4), M::typical(K::Ao4), M::typical(K::Pf)],
            };
            let rack = Rack::new(mods, Style::Packed);
            let mut c = rack.coupler()?;
            let ops = digits(i / 4, 9, calls);
            let ctx = || format!("{}\ncalls {ops:?}", rack.describe());
            no_panic(ctx, || {
                for op in &ops {
                    match op {
                        0 => {
                            let _ = c.next(&pattern(rack.in_regs, 0), &pattern(rack.out_regs, 0));
                        }
                        1 => {
                            let _ = c.next(&pattern(rack.in_regs, 6), &pattern(rack.out_regs, 6));
                        }
                        2 => {
                            let _ = c.next(&[], &[]);
                        }
                        3 => {
                            for m in 0..4 {
                                for ch in 0..5 {
                                    let a = Address { module: m, channel: ch };
                                    for v in [
                                        ChannelValue::Bit(true),
                                        ChannelValue::Decimal32(f32::NAN),
                                        ChannelValue::Bytes(vec![1; 40]),
                                        ChannelValue::None,
                                        ChannelValue::Disabled,
                                    ] {
                                        let _ = c.set_output(&a, v);
                                    }
                                }
                            }
                        }
                        4 => {
                            for m in 0..4 {
                                if let Some(w) = c.writer(m) {
                                    let _ = w.write(&[1; 33]);
                                    let _ = w.write(&[]);
                                    let _ = w.flush();
                                }
                            }
                        }
                        5 => {
                            for m in 0..4 {
                                if let Some(r) = c.reader(m) {
                                    let _ = r.read(&mut [0; 3]);
                                    let _ = r.read(&mut []);
                                }
                            }
                        }
                        6 => {
                            let _ = format!("{:?} {:?} {:?}", c.inputs(), c.outputs(), c);
                        }
                        7 => {
                            let _ = c.next(&pattern(rack.in_regs, 1), &pattern(rack.out_regs, 1));
                        }
                        _ => {
                            let _ = c.reader(usize::MAX).is_some();
                            let _ = c.writer(usize::MAX).is_some();
                            let _ = c.set_output(
                                &Address {
                                    module: usize::MAX,
                                    channel: usize::MAX,
                                },
                                ChannelValue::None,
                            );
                        }
                    }
                }
            })?;
            out.eval(true);
            Ok(())
        },
    ));
    // free functions
    v.push(family("free functions with any data", 66, |n, out| {
        let n = n as usize;
        for b in 0..50 {
            let r = pattern(n, b);
            no_panic(
                || format!("free functions with {r:04x?}"),
                || {
                    let _ = module_list_from_registers(&r);
                    let _ = offsets_of_process_data(&r);
                    for w in &r {
                        let _ = to_register_address(*w);
                        for bit in [0, 1, 8, 15, 16, 31, 255] {
                            let _ = to_bit_address(*w, bit);
                        }
                    }
                    let _ = com::ProcessInput::try_from_byte_message(&to_bytes(&r));
                    let _ = com::ProcessOutput::try_from_byte_message(&to_bytes(&r));
                },
            )?;
            out.eval(true);
        }
        let l: Vec<_> = (0..n.min(64)).map(|i| ALL[i % 18].module_type()).collect();
        no_panic(
            || format!("param_addresses_and_register_counts of {n} modules"),
            || param_addresses_and_register_counts(&l).len(),
        )?;
        Ok(())
    }));
    v.push(family("process data functions with any offsets and values", sh * 36, move |i, out| {
        let m = M::shape((i % sh) as usize, 0);
        let d = m.make()?;
        let d: &dyn ProcessModbusTcpData = &*d;
        let vals = values();
        let offs: [u16; 6] = [0, 8, 0x8000, 0x8008, 0x7FF8, 0xFFFF];
        let x = (i / sh) as usize;
        let o = ModuleOffset {
            input: Some(offs[x % 6]),
            output: Some(offs[x / 6]),
        };
        for n in 0..20 {
            for b in 0..8 {
                let r = pattern(n, b);
                no_panic(
                    || format!("{m:?} at {o:x?} with {r:04x?}"),
                    || {
                        let _ = process_input_data(&[(d, &o)], &r);
                        let _ = process_output_data(&[(d, &o), (d, &o)], &r);
                    },
                )?;
            }
            for v in vals.iter().step_by(3) {
                no_panic(
                    || format!("{m:?} at {o:x?}: process_output_values of {n} x {v:?}"),
                    || {
                        let l = vec![v.clone(); n];
                        let _ = process_output_values(&[(d, &o)], &[l.clone()]);
                        let _ = process_output_values(&[(d, &o), (d, &o)], &[l.clone(), l.clone()]);
                        let _ = process_output_values(&[(d, &o)], &[]);
                        let _ = process_output_values(&[], &[l]);
                    },
                )?;
                out.eval(true);
            }
        }
        ensure!(
            process_output_values(&[(d, &o)], &[]).is_err(),
            "process_output_values accepts fewer value lists than modules"
        );
        Ok(())
    }));
    v.push(family("process data functions at every offset", sh * 256, move |i, out| {
        let m = M::shape((i % sh) as usize, 0);
        let d = m.make()?;
        let d: &dyn ProcessModbusTcpData = &*d;
        let start = ModuleOffset { input: None, output: (m.out_len() > 0).then_some(0x8000) };
        let zero = [0u16; 40];
        let vals = process_output_data(&[(d, &start)], &zero).map_err(|e| format!("{m:?} at the start: {e:?}"))?;
        for lo in 0..=255u16 {
            let off = (i / sh) as u16 * 256 + lo;
            let o = ModuleOffset { input: Some(off), output: Some(off) };
            let (il, ol) = (m.in_len(), m.out_len());
            for regs in [0, 1, 2, 9, 40] {
                let img = &zero[..regs];
                let ctx = || format!("{m:?} at {o:x?} of {regs} registers");
                let (r, w) = no_panic(ctx, || {
                    (process_input_data(&[(d, &o)], img).is_ok(), process_output_data(&[(d, &o)], img).is_ok())
                })?;
                ensure!(!(r && unusable(off, 0, il, regs)), "{}: process_input_data accepts it", ctx());
                ensure!(!(w && unusable(off, 0x800, ol, regs)), "{}: process_output_data accepts it", ctx());
                out.eval(true);
            }
            let ctx = || format!("{m:?} at {o:x?}: process_output_values");
            let (a, b) = no_panic(ctx, || {
                (
                    process_output_values(&[(d, &o)], &vals).is_ok(),
                    process_output_values(&[(d, &start), (d, &o)], &[vals[0].clone(), vals[0].clone()]).is_ok(),
                )
            })?;
            if ol > 0 && (off % 8 != 0 || off < 0x8000) {
                ensure!(!a, "{} accepts it", ctx());
                ensure!(!b, "{} accepts it as the second module", ctx());
            }
            out.eval(true);
        }
        Ok(())
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C24",
        level: Level::Exploration,
        rule: "all 65536 offsets in either direction for all 19 process data shapes with 8 image lengths, combinations of offsets for all pairs of shapes, all image lengths up to the full rack, parameter blocks, module data and value lists of any length, extreme values of every kind, all sequences of serial frames and calls up to the stated length; debug assertions and overflow checks on; a panic, a call that does not return within 60 s, or a missing error is a violation; non-trivial = a call that could have panicked or must fail",
        assumptions: &[
            "unsupported module types and lists of more than 64 modules are outside the statement",
            "whether offsets of a direction without data are looked at is left open",
        ],
        families,
    })
}
