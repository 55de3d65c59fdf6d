//! C16: analogue outputs get the nearest raw value, saturating.
use mc::engine::*;
use mc::rack::*;
use mc::spec::*;
use mc::{ensure, fail};
use ur20::ur20_fbc_mod_tcp::ProcessModbusTcpData;
use ur20::{Address, ChannelValue};

const KS: [K; 2] = [K::Ao4, K::Ao4Diag];

fn module(k: K, fr: &[(u16, u16)], subst: u16) -> M {
    let w = if k == K::Ao4 { 3 } else { 4 };
    let mut p = vec![];
    for (f, r) in fr {
        p.extend([*f, *r, subst]);
        if w == 4 {
            p.push(subst & 1);
        }
    }
    M { k, p }
}

/// Is `raw` an acceptable encoding of `v`? `exact` is the unrounded result.
#[inline]
fn ok(raw: u16, v: f32, fmt: u16, range: u16) -> bool {
    if v.is_nan() {
        return raw == 0;
    }
    match ui_raw(f64::from(v), fmt, range) {
        None => raw == 0,
        Some(x) => {
            // half a step, plus the rounding error of 32-bit arithmetic
            (f64::from(raw as i16) - x.clamp(-32768.0, 32767.0)).abs() <= 0.52
        }
    }
}

fn encode4(m: &dyn ProcessModbusTcpData, vals: [f32; 4], fr: &[(u16, u16)], k: K) -> Res {
    let val: Vec<ChannelValue> = vals.iter().map(|v| ChannelValue::Decimal32(*v)).collect();
    match m.process_output_values(&val) {
        Ok(r) if r.len() == 4 && (0..4).all(|c| ok(r[c], vals[c], fr[c].0, fr[c].1)) => Ok(()),
        r => {
            let e: Vec<_> = (0..4).map(|c| ui_raw(f64::from(vals[c]), fr[c].0, fr[c].1)).collect();
            fail!("{k:?} with (format, range) codes {fr:?}: values {vals:?} encoded as {r:?}, exact raw values {e:?}")
        }
    }
}

fn combo(x: usize) -> (u16, u16) {
    ((x % 2) as u16, (x / 2 % 9) as u16)
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // float bit patterns: quick all with the low 8 bits zero or one, thorough all
    for k in KS {
        let (n, shift) = match (t, k) {
            (Tier::Quick, _) => (1u64 << 24, 8),
            (Tier::Thorough, K::Ao4) => (1u64 << 32, 0),
            (Tier::Thorough, _) => (1u64 << 28, 4),
        };
        let blocks = 1u64 << 10;
        v.push(family(format!("{k:?} float bit patterns"), blocks * 18, move |i, out| {
            let (c0, blk) = ((i % 18) as usize, i / 18);
            // channels take the four neighbouring patterns; one configuration
            // per call in turn on every channel
            let fr: Vec<_> = (0..4).map(|_| combo(c0)).collect();
            let m = module(k, &fr, 0).make()?;
            let per = n / blocks;
            let mut x = blk * per;
            while x < (blk + 1) * per {
                let f = |d: u64| {
                    let low = if shift == 0 { 0 } else { (x / 4 + d) & 1 };
                    f32::from_bits((((x + d) << shift) | low) as u32)
                };
                encode4(&*m, [f(0), f(1), f(2), f(3)], &fr, k)?;
                out.sample(|| format!("{k:?} with (format, range) codes {fr:?}: floats from pattern {x:#x}"));
                out.eval(true);
                x += 4;
            }
            out.outcome(&i);
            Ok(())
        }));
        // around every raw value: exact, neighbouring floats, midpoints; each
        // channel with another configuration
        v.push(family(format!("{k:?} around every raw value"), 18 * 256, move |i, out| {
            let (c0, hi) = ((i % 18) as usize, (i / 18) as i32 - 128);
            for rot in t.pick(vec![0usize, 1], (0..6).collect()) {
                let fr: Vec<_> = (0..4).map(|c| combo(c0 + c * (rot * 5 + 1))).collect();
                let m = module(k, &fr, 0).make()?;
                for lo in 0..256 {
                    let raw = hi * 256 + lo;
                    for frac in [0.0, 0.25, 0.45, -0.45, 0.5, 0.75] {
                        let at = |c: usize, d: i32| {
                            let (f, r) = fr[c];
                            let x = match ui_range(r) {
                                Some((lo, span)) => lo + (f64::from(raw) + frac) * span / full_scale(f),
                                None => f64::from(raw) + frac,
                            } as f32;
                            match d {
                                0 => x,
                                1 => x.next_up(),
                                _ => x.next_down(),
                            }
                        };
                        for d in [0, 1, -1] {
                            if frac != 0.0 && d != 0 {
                                continue;
                            }
                            encode4(&*m, [at(0, d), at(1, d), at(2, d), at(3, d)], &fr, k)?;
                            out.eval(true);
                        }
                    }
                }
            }
            Ok(())
        }));
        // decoding output registers and substitute values
        v.push(family(format!("{k:?} decoded outputs and substitute values"), 18 * 256, move |i, out| {
            let (c0, hi) = ((i % 18) as usize, (i / 18) as u16);
            let fr: Vec<_> = (0..4).map(|c| combo(c0 + c * 7)).collect();
            let m = module(k, &fr, 7);
            let module_ = m.make()?;
            for lo in 0..256u16 {
                let raw = hi << 8 | lo;
                let regs: Vec<u16> = (0..4).map(|c| raw.wrapping_add(c * 0x3333)).collect();
                let r = module_.process_output_data(&regs);
                let w = m.decode_out(&to_bytes(&regs)).unwrap();
                ensure!(
                    r.as_ref().is_ok_and(|r| same_all(r, &w)),
                    "{k:?} with (format, range) codes {fr:?}: output registers {regs:04x?} decoded as {r:?}, expected {w:?}"
                );
                // substitute values: a different raw per channel
                let mut p = module(k, &fr, 0).p;
                let wd = p.len() / 4;
                for c in 0..4 {
                    p[wd * c + 2] = regs[c];
                }
                let s = substitutes(k, &p)?;
                for c in 0..4 {
                    if let V::Num(x, lsb) = w[c] {
                        ensure!(
                            (f64::from(s[c]) - x).abs() <= lsb * 0.05,
                            "{k:?} channel {c} with (format, range) codes {:?}: substitute register {:#06x} is {}, expected {x}",
                            fr[c], regs[c], s[c]
                        );
                    }
                }
                out.eval(true);
            }
            out.outcome(&i);
            Ok(())
        }));
        // wrong kinds, wrong counts, disabled channels and values
        v.push(family(format!("{k:?} refusals and disabled"), 18, move |i, out| {
            let fr: Vec<_> = (0..4).map(|c| combo(i as usize + c * 5)).collect();
            let spec = module(k, &fr, 3);
            for (m, dflt) in [(spec.make()?, false), (make_default(k), true)] {
                for n in (0..12usize).chain(wrapped_lengths(4)) {
                    for b in [ChannelValue::Decimal32(1.0), ChannelValue::Disabled] {
                        let r = m.process_output_values(&vec![b.clone(); n]);
                        ensure!(r.is_ok() == (n == 4), "{k:?}: {n} values {b:?}: {r:?}");
                        out.eval(true);
                    }
                }
                for n in (0..12usize).chain(wrapped_lengths(4)) {
                    let r = m.process_output_data(&vec![7; n]);
                    ensure!(r.is_ok() == (n == 4), "{k:?}: {n} output registers: {r:?}");
                }
                for ch in 0..4 {
                    for b in spec.bad_reqs() {
                        for fill in [ChannelValue::Decimal32(2.5), ChannelValue::Disabled] {
                            let mut val = vec![fill.clone(); 4];
                            val[ch] = b.clone();
                            let r = m.process_output_values(&val);
                            ensure!(r.is_err(), "{k:?}: {val:?} encoded as {r:x?} instead of being refused");
                            out.eval(true);
                        }
                    }
                    // a disabled value next to others
                    let mut val = vec![ChannelValue::Decimal32(3.0); 4];
                    val[ch] = ChannelValue::Disabled;
                    match m.process_output_values(&val) {
                        Ok(r) => {
                            for c in 0..4 {
                                let (f, rg) = if dflt { (1, 8) } else { fr[c] };
                                ensure!(
                                    if c == ch { r[c] == 0 } else { ok(r[c], 3.0, f, rg) },
                                    "{k:?} with {fr:?} (defaults: {dflt}): {val:?} encoded as {r:x?}"
                                );
                            }
                        }
                        Err(e) => fail!("{k:?}: {val:?} refused: {e:?}"),
                    }
                    for x in [f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, -0.0] {
                        let mut vals = [1.5f32; 4];
                        vals[ch] = x;
                        let e = vec![(1u16, 8u16); 4];
                        encode4(&*m, vals, if dflt { &e } else { &fr }, k)?;
                        out.eval(true);
                    }
                }
            }
            Ok(())
        }));
    }
    // requested through a coupler
    v.push(family("through a coupler", 2 * 18 * 256, |i, out| {
        let (k, i) = (KS[(i % 2) as usize], i / 2);
        let (c0, hi) = ((i % 18) as usize, (i / 18) as i32 - 128);
        let fr: Vec<_> = (0..4).map(|c| combo(c0 + c)).collect();
        let rack = Rack::new(vec![M::typical(K::Do4), module(k, &fr, 1)], Style::Packed);
        let mut c = rack.coupler()?;
        let held = to_regs(&[5, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        for lo in (0..256).step_by(8) {
            let ch = (lo as usize / 8) % 4;
            let raw = hi * 256 + lo;
            for x in [raw as f32 * 0.7123, raw as f32 / 1000.0, raw as f32 * 1e6, f32::NAN, f32::from_bits((raw as u32) << 16)] {
                let a = Address { module: 1, channel: ch };
                let r = c.set_output(&a, ChannelValue::Decimal32(x));
                ensure!(r.is_ok(), "{}: request of {x} refused: {r:?}", rack.describe());
                let img = c.next(&[], &held);
                ensure!(img.is_ok(), "{}: cycle after request of {x} failed: {img:?}", rack.describe());
                let b = to_bytes(&img.unwrap());
                let got = u16::from(b[1 + 2 * ch]) | u16::from(b[2 + 2 * ch]) << 8;
                ensure!(
                    ok(got, x, fr[ch].0, fr[ch].1),
                    "{}: request of {x} for channel {ch} written as {got:#06x}, exact raw value {:?}",
                    rack.describe(),
                    ui_raw(f64::from(x), fr[ch].0, fr[ch].1)
                );
                out.eval(true);
            }
        }
        Ok(())
    }));
    v
}

fn substitutes(k: K, p: &[u16]) -> Result<Vec<f32>, String> {
    use ur20::ur20_fbc_mod_tcp::FromModbusParameterData;
    Ok(if k == K::Ao4 {
        ur20::ur20_4ao_ui_16::Mod::from_modbus_parameter_data(p)
            .map_err(|e| format!("{k:?}: parameters {p:?} refused: {e:?}"))?
            .ch_params
            .iter()
            .map(|c| c.substitute_value)
            .collect()
    } else {
        ur20::ur20_4ao_ui_16_diag::Mod::from_modbus_parameter_data(p)
            .map_err(|e| format!("{k:?}: parameters {p:?} refused: {e:?}"))?
            .ch_params
            .iter()
            .map(|c| c.substitute_value)
            .collect()
    })
}

fn main() {
    mc::engine::main(Check {
        id: "C16",
        level: Level::Exploration,
        rule: "float bit patterns (quick: 2^24 spread over the whole space, thorough: all 2^32 for one module type and 2^28 for the other) in every (format, range) configuration; exact values, neighbouring floats and fractions around every raw value; all output registers and substitute registers; wrong kinds and counts at every channel. Non-trivial: all",
        assumptions: &["the written raw value may be off by 0.02 steps in addition to rounding to nearest (32-bit float arithmetic)"],
        families,
    })
}
