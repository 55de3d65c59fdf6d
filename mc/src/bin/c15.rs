//! C15: analogue current/voltage inputs are scaled linearly as configured.
use mc::engine::*;
use mc::rack::*;
use mc::spec::*;
use mc::ensure;

const KS: [K; 4] = [K::Ai4Diag, K::Ai4x12, K::Ai4x16, K::Ai8];

fn ranges(k: K) -> u16 {
    if k == K::Ai8 {
        3
    } else {
        9
    }
}

/// Parameters where channel `c` uses the given (format, range) pairs.
fn module(k: K, fr: &[(u16, u16)], j: usize) -> M {
    let mut m = M::variant(k, j);
    for (c, (f, r)) in fr.iter().enumerate() {
        let at = match k {
            K::Ai4Diag => 1 + 5 * c + 3,
            K::Ai8 => 1 + 4 * c + 2,
            _ => 1 + 2 * c,
        };
        m.p[at] = *f;
        m.p[at + 1] = *r;
    }
    m
}

fn regs_to_bytes(r: &[u16]) -> Vec<u8> {
    to_bytes(r)
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // every raw value of every channel in every configuration; the other
    // channels are configured differently and hold other raw values
    for k in KS {
        let n = k.channels();
        let combos = 2 * u64::from(ranges(k));
        let step = t.pick(2usize, 1);
        v.push(family(format!("{k:?} every raw value"), combos * 256, move |i, out| {
            let (combo, hi) = ((i % combos) as usize, (i / combos) as u16);
            for shift in (0..combos as usize).step_by(step) {
                let fr: Vec<(u16, u16)> = (0..n)
                    .map(|c| {
                        let x = (combo + c * shift) % combos as usize;
                        ((x % 2) as u16, (x / 2) as u16)
                    })
                    .collect();
                let m = module(k, &fr, shift % 4);
                let module = m.make()?;
                for lo in 0..256u16 {
                    let raw = hi << 8 | lo;
                    let regs: Vec<u16> = (0..n as u16)
                        .map(|c| raw.wrapping_add(c.wrapping_mul(0x2493)) ^ if shift % 2 == 0 { 0 } else { c })
                        .collect();
                    let r = module.process_input_data(&regs);
                    let w = m.decode_in(&regs_to_bytes(&regs)).unwrap();
                    ensure!(
                        r.as_ref().is_ok_and(|r| same_all(r, &w)),
                        "{k:?} with (format, range) codes {fr:?}: registers {regs:04x?} decoded as {r:?}, expected {w:?}"
                    );
                    out.sample(|| format!("{k:?} with (format, range) codes {fr:?}: registers {regs:04x?} decoded as {r:?}"));
                    out.eval(raw != 0);
                }
                if hi % 64 == 0 {
                    out.outcome(&(k, combo, shift, hi));
                }
            }
            Ok(())
        }));
        // independence: changing the other channels changes nothing here
        v.push(family(format!("{k:?} independence"), n as u64 * 256, move |i, out| {
            let (ch, hi) = ((i % n as u64) as usize, (i / n as u64) as u16);
            let combos = combos as usize;
            for fill in [0u16, 1, 0x7FFF, 0x8000, 0xFFFF] {
                for other in 0..combos {
                    let own = (hi as usize * 7 + other) % combos;
                    let mut fr = vec![((other % 2) as u16, (other / 2) as u16); n];
                    fr[ch] = ((own % 2) as u16, (own / 2) as u16);
                    let m = module(k, &fr, other % 3);
                    let module = m.make()?;
                    for lo in (0..256u16).step_by(5) {
                        let mut regs = vec![fill; n];
                        regs[ch] = hi << 8 | lo;
                        let r = module.process_input_data(&regs);
                        let w = m.decode_in(&regs_to_bytes(&regs)).unwrap();
                        ensure!(
                            r.as_ref().is_ok_and(|r| same_all(r, &w)),
                            "{k:?} with (format, range) codes {fr:?}: registers {regs:04x?} decoded as {r:?}, expected {w:?}"
                        );
                        out.eval(true);
                    }
                }
            }
            Ok(())
        }));
        // default parameters
        v.push(family(format!("{k:?} defaults"), 256, move |i, out| {
            let module = make_default(k);
            for lo in 0..256u16 {
                let raw = (i as u16) << 8 | lo;
                let r = module.process_input_data(&vec![raw; n]);
                ensure!(
                    r.as_ref().is_ok_and(|r| r.len() == n && r.iter().all(|x| *x == ur20::ChannelValue::Disabled)),
                    "{k:?} with default parameters (all channels disabled): raw {raw:#06x} decoded as {r:?}"
                );
                out.eval(true);
            }
            Ok(())
        }));
    }
    v.push(family("numbers of registers", 4 * 3, |i, out| {
        let k = KS[(i % 4) as usize];
        let n = k.channels();
        let m = if i < 4 { make_default(k) } else { M::variant(k, i as usize / 4).make()? };
        for c in (0..40).chain(wrapped_lengths(n)) {
            let r = m.process_input_data(&vec![0x1234; c]);
            ensure!(r.is_ok() == (c == n), "{k:?}: {c} registers: {r:?}");
            out.eval(true);
        }
        Ok(())
    }));
    // through a coupler, at every byte position
    v.push(family("through a coupler", 4 * 3 * 4096, |i, out| {
        let (k, i) = (KS[(i % 4) as usize], i / 4);
        let (pos, i) = ((i % 3) as usize, i / 3);
        let combos = 2 * usize::from(ranges(k));
        let fr: Vec<_> = (0..k.channels())
            .map(|c| {
                let x = (i as usize + c * 5) % combos;
                ((x % 2) as u16, (x / 2) as u16)
            })
            .collect();
        let mut mods = vec![M::typical(K::Di4); pos];
        mods.push(module(k, &fr, 1));
        let rack = Rack::new(mods, Style::Packed);
        let mut c = rack.coupler()?;
        for lo in 0..16u16 {
            let raw = (i as u16) << 4 | lo;
            let mut b: Vec<u8> = vec![0x96; rack.in_regs * 2];
            for ch in 0..k.channels() {
                let x = raw.wrapping_add((ch as u16).wrapping_mul(0x1357));
                b[pos + 2 * ch] = x as u8;
                b[pos + 2 * ch + 1] = (x >> 8) as u8;
            }
            let regs = to_regs(&b);
            let r = c.next(&regs, &[]);
            ensure!(r.is_ok(), "{}: cycle failed: {r:?}", rack.describe());
            let w = rack.decode_in(&regs).unwrap();
            ensure!(
                same_rack(c.inputs(), &w),
                "{}: input image {regs:04x?} reported as {:?}, expected {w:?}",
                rack.describe(),
                c.inputs()
            );
            out.eval(true);
        }
        Ok(())
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C15",
        level: Level::Exploration,
        rule: "all 65536 raw values of every channel of every module type in every (format, range) configuration, with differently configured other channels; independence with fixed other contents; default parameters; through a coupler at even and odd byte positions. Non-trivial: raw value not 0 or channel configured",
        assumptions: &["reported values may differ from the exact ones by 0.05 raw steps (32-bit float rounding)"],
        families,
    })
}
