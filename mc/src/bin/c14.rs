//! C14: digital channel i is bit i.
use mc::engine::*;
use mc::spec::*;
use mc::ensure;
use ur20::ur20_fbc_mod_tcp::ProcessModbusTcpData;
use ur20::ChannelValue::{self, *};

const INS: [K; 2] = [K::Di4, K::Di8];
const OUTS: [K; 5] = [K::Do4, K::Do4x2A, K::Do8, K::Do16, K::Ro4];

fn modules(k: K) -> Result<Vec<Box<dyn ProcessModbusTcpData>>, String> {
    let mut v = vec![M::typical(k).make()?, make_default(k)];
    for j in 1..3 {
        v.push(M::variant(k, j).make()?);
    }
    Ok(v)
}

fn bits(x: u16, n: usize) -> Vec<ChannelValue> {
    (0..n).map(|i| Bit(x >> i & 1 == 1)).collect()
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    v.push(family("decode every register", 7 * 256, |i, out| {
        let (k, hi) = (i / 256, (i % 256) as u16);
        let (k, input) = if k < 2 { (INS[k as usize], true) } else { (OUTS[k as usize - 2], false) };
        for m in modules(k)? {
            for lo in 0..256u16 {
                let reg = hi << 8 | lo;
                let r = if input { m.process_input_data(&[reg]) } else { m.process_output_data(&[reg]) };
                let w = bits(reg, k.channels());
                ensure!(r.as_ref().ok() == Some(&w), "{k:?}: register {reg:#06x} decoded as {r:?}, expected {w:?}");
                out.eval(reg != 0);
            }
        }
        out.outcome(&(k, hi));
        Ok(())
    }));
    v.push(family("encode every bit combination", 5 * 256, |i, out| {
        let (k, hi) = (OUTS[(i / 256) as usize], (i % 256) as u16);
        let n = k.channels();
        for m in modules(k)? {
            for lo in 0..256u16 {
                let x = hi << 8 | lo;
                if n < 16 && x >> n != 0 {
                    continue;
                }
                let r = m.process_output_values(&bits(x, n));
                ensure!(r.as_ref().ok() == Some(&vec![x]), "{k:?}: channel states {x:#b} encoded as {r:x?}");
                out.sample(|| format!("{k:?}: channel states {x:#b} encoded as {r:x?}"));
                out.eval(x != 0);
            }
        }
        Ok(())
    }));
    // on / off / disabled
    let full16 = t == Tier::Thorough;
    v.push(family("encode disabled channels", 5 * 6561, move |i, out| {
        let (k, x) = (OUTS[(i / 6561) as usize], i % 6561);
        let n = k.channels();
        let mut m = modules(k)?;
        m.truncate(2);
        let his = if n < 16 { 1 } else if full16 { 6561 } else { 82 };
        for h in 0..his {
            let mut y = x;
            let mut val = vec![];
            let mut want = 0u16;
            for ch in 0..n {
                if ch == 8 {
                    y = h * 80 % 6561;
                    if full16 {
                        y = h;
                    }
                }
                val.push(match y % 3 {
                    0 => Bit(false),
                    1 => {
                        want |= 1 << ch;
                        Bit(true)
                    }
                    _ => Disabled,
                });
                y /= 3;
            }
            for m in &m {
                let r = m.process_output_values(&val);
                ensure!(r.as_ref().ok() == Some(&vec![want]), "{k:?}: {val:?} encoded as {r:x?}, expected {want:#x}");
                out.eval(true);
            }
        }
        Ok(())
    }));
    v.push(family("refusals", 7, |i, out| {
        let k = if i < 2 { INS[i as usize] } else { OUTS[i as usize - 2] };
        let n = k.channels();
        for m in modules(k)? {
            if i < 2 {
                for c in wrapped_lengths(1).into_iter().chain([0usize, 2, 3, 4]) {
                    let r = m.process_input_data(&vec![0x5A5A; c]);
                    ensure!(r.is_err(), "{k:?}: {c} registers accepted: {r:?}");
                    out.eval(true);
                }
                // no output data
                let r = m.process_output_data(&[]);
                ensure!(r.as_ref().ok() == Some(&vec![None; n]), "{k:?}: outputs of an input module: {r:?}");
                continue;
            }
            for c in wrapped_lengths(1).into_iter().chain([0usize, 2, 3, 4]) {
                let r = m.process_output_data(&vec![0x5A5A; c]);
                ensure!(r.is_err(), "{k:?}: {c} registers accepted: {r:?}");
                out.eval(true);
            }
            let r = m.process_input_data(&[]);
            ensure!(r.as_ref().ok() == Some(&vec![None; n]), "{k:?}: inputs of an output module: {r:?}");
            for c in (0..40usize).chain(wrapped_lengths(n)) {
                for b in [Bit(true), Bit(false), Disabled] {
                    let r = m.process_output_values(&vec![b.clone(); c]);
                    ensure!(r.is_ok() == (c == n), "{k:?}: {c} values {b:?}: {r:?}");
                    out.eval(true);
                }
            }
            let bad = M::typical(k).bad_reqs();
            for ch in 0..n {
                for b in &bad {
                    for fill in [Bit(false), Bit(true), Disabled] {
                        let mut val = vec![fill.clone(); n];
                        val[ch] = b.clone();
                        let r = m.process_output_values(&val);
                        ensure!(r.is_err(), "{k:?}: {val:?} encoded as {r:x?} instead of being refused");
                        out.eval(true);
                    }
                }
            }
        }
        Ok(())
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C14",
        level: Level::Exploration,
        rule: "all 65536 contents of the register of every digital module, all on/off/disabled combinations (16 channels: all on/off, a third of the disabled ones in the upper byte; thorough: all 3^16), every wrong kind at every channel, wrong counts of values and registers; default, typical and varied parameters. Non-trivial: something is on or refused",
        assumptions: &[],
        families,
    })
}
