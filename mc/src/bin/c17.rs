//! C17: temperatures, resistances and thermocouple voltages.
use mc::engine::*;
use mc::rack::*;
use mc::spec::*;
use mc::ensure;

fn module(k: K, ranges: &[u16], j: usize) -> M {
    let mut m = M::variant(k, j);
    for (c, r) in ranges.iter().enumerate() {
        m.p[1 + 7 * c] = *r;
    }
    m
}

fn check(m: &M, module: &dyn ur20::ur20_fbc_mod_tcp::ProcessModbusTcpData, regs: &[u16]) -> Res {
    let r = module.process_input_data(regs);
    let w = m.decode_in(&to_bytes(regs)).unwrap();
    ensure!(
        r.as_ref().is_ok_and(|r| same_all(r, &w)),
        "{:?} with range codes {:?}: registers {regs:04x?} decoded as {r:?}, expected {w:?}",
        m.k,
        (0..4).map(|c| m.p[1 + 7 * c]).collect::<Vec<_>>()
    );
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    for (k, n) in [(K::Rtd, 19usize), (K::Tc, 20)] {
        let shifts = t.pick(3usize, n);
        v.push(family(format!("{k:?} every raw value"), n as u64 * 256, move |i, out| {
            let (r0, hi) = ((i as usize) % n, (i / n as u64) as u16);
            for s in 0..shifts {
                // quick: all channels alike, neighbours, far apart
                let s = if shifts == 3 { [0, 1, 7][s] } else { s };
                let rg: Vec<u16> = (0..4).map(|c| ((r0 + c * s) % n) as u16).collect();
                for j in 0..3 {
                    let m = module(k, &rg, j);
                    let md = m.make()?;
                    for lo in 0..256u16 {
                        let raw = hi << 8 | lo;
                        let regs: Vec<u16> = (0..4u16)
                            .map(|c| match j {
                                0 => raw,
                                1 => raw.wrapping_add(c * 0x4321),
                                _ => raw.rotate_left(c.into()),
                            })
                            .collect();
                        check(&m, &*md, &regs)?;
                        out.sample(|| format!("{k:?} with ranges {rg:?}: registers {regs:04x?}"));
                        out.eval(raw != 0);
                    }
                }
            }
            out.outcome(&i);
            Ok(())
        }));
        v.push(family(format!("{k:?} independence"), 4 * n as u64 * n as u64, move |i, out| {
            let (ch, i) = ((i % 4) as usize, i as usize / 4);
            let (own, other) = (i % n, i / n);
            let mut rg = vec![other as u16; 4];
            rg[ch] = own as u16;
            let m = module(k, &rg, i % 3);
            let md = m.make()?;
            let special: Vec<u16> = vec![0, 1, 32766, 32767, 32768, 0x8001, 65535, 27648, 0x6BFF];
            for raw in special.iter().copied().chain((0..65536u32).step_by(211).map(|x| x as u16)) {
                for fill in &special {
                    let mut regs = vec![*fill; 4];
                    regs[ch] = raw;
                    check(&m, &*md, &regs)?;
                    out.eval(true);
                }
            }
            Ok(())
        }));
        v.push(family(format!("{k:?} defaults"), 256, move |i, out| {
            let md = make_default(k);
            for lo in 0..256u16 {
                let raw = (i as u16) << 8 | lo;
                let r = md.process_input_data(&[raw; 4]);
                ensure!(r.is_ok(), "{k:?} with default parameters: raw {raw:#06x}: {r:?}");
                out.eval(true);
            }
            Ok(())
        }));
        v.push(family(format!("{k:?} numbers of registers"), 3, move |i, out| {
            let md = if i == 0 { make_default(k) } else { M::variant(k, i as usize).make()? };
            for c in (0..40).chain(wrapped_lengths(4)) {
                let r = md.process_input_data(&vec![0x1234; c]);
                ensure!(r.is_ok() == (c == 4), "{k:?}: {c} registers: {r:?}");
                out.eval(true);
            }
            Ok(())
        }));
        v.push(family(format!("{k:?} through a coupler"), n as u64 * 256 * 3, move |i, out| {
            let (pos, i) = ((i % 3) as usize, i / 3);
            let (r0, hi) = ((i as usize) % n, (i / n as u64) as u16);
            let rg: Vec<u16> = (0..4).map(|c| ((r0 + c * 5) % n) as u16).collect();
            let mut mods = vec![M::typical(K::Di8); pos];
            mods.push(module(k, &rg, 2));
            let rack = Rack::new(mods, Style::Packed);
            let mut c = rack.coupler()?;
            for lo in (0..256u16).step_by(3) {
                let raw = hi << 8 | lo;
                let mut b = vec![0x69u8; rack.in_regs * 2];
                for ch in 0..4 {
                    let x = raw.wrapping_add((ch as u16) * 0x1111);
                    b[pos + 2 * ch] = x as u8;
                    b[pos + 2 * ch + 1] = (x >> 8) as u8;
                }
                let regs = to_regs(&b);
                let r = c.next(&regs, &[]);
                ensure!(r.is_ok(), "{}: cycle failed: {r:?}", rack.describe());
                let w = rack.decode_in(&regs).unwrap();
                ensure!(
                    same_rack(c.inputs(), &w),
                    "{}: input image {regs:04x?} reported as {:?}, expected {w:?}",
                    rack.describe(),
                    c.inputs()
                );
                out.eval(true);
            }
            Ok(())
        }));
    }
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C17",
        level: Level::Exploration,
        rule: "all 65536 raw values on every channel for every measurement range, with equal and different ranges and raw values on the other channels and three settings of the other parameters; independence for every pair of ranges; through a coupler at even and odd byte positions. Non-trivial: raw value not 0",
        assumptions: &["reported values may differ from the exact ones by 0.05 raw steps (32-bit float rounding)"],
        families,
    })
}
