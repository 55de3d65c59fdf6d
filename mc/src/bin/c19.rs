//! C19: safe power feed status flags are decoded bit-exactly.
use mc::engine::*;
use mc::rack::*;
use mc::spec::*;
use mc::ensure;

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let lo: Vec<u16> = t.pick(
        (0..16)
            .map(|b| 1 << b)
            .chain((0..16).map(|b| !(1 << b)))
            .chain([0, 0xFFFF, 0xAAAA, 0x5555, 0x0F0F, 0x00FF, 0xFF00])
            .collect(),
        (0..=65535).collect(),
    );
    v.push(family("every content", 65536, move |i, out| {
        let spec = M::typical(K::Pf);
        let m = spec.make()?;
        for l in &lo {
            let regs = [i as u16, *l];
            let r = m.process_input_data(&regs);
            let w = spec.decode_in(&to_bytes(&regs)).unwrap();
            ensure!(
                r.as_ref().is_ok_and(|r| same_all(r, &w)),
                "registers {regs:04x?} decoded as {r:?}, expected {w:?}"
            );
            out.sample(|| format!("registers {regs:04x?} decoded as {r:?}"));
            out.eval(i != 0);
        }
        out.outcome(&(i & 0x053D));
        Ok(())
    }));
    v.push(family("register counts and values", 64, |n, out| {
        for m in [M::typical(K::Pf).make()?, make_default(K::Pf)] {
            for x in [0u16, 0xFFFF, 0x1234] {
                let r = m.process_input_data(&vec![x; n as usize]);
                ensure!(r.is_ok() == (n == 2), "{n} registers: {r:?}");
                ensure!(r.map_or(true, |r| r.len() == 1), "not exactly one value");
                out.eval(true);
            }
        }
        Ok(())
    }));
    v.push(family("many registers", 1, |_, out| {
        for m in [M::typical(K::Pf).make()?, make_default(K::Pf)] {
            for n in wrapped_lengths(2) {
                let r = m.process_input_data(&vec![0; n]);
                ensure!(r.is_err(), "{n} registers: {r:?}");
                out.eval(true);
            }
        }
        Ok(())
    }));
    v.push(family("through a coupler", 65536, |i, out| {
        for pos in 0..3 {
            let mut mods = vec![M::typical(K::Di8); pos];
            mods.push(M::typical(K::Pf));
            mods.push(M::typical(K::Di4));
            let rack = Rack::new(mods, Style::Packed);
            let mut c = rack.coupler()?;
            let mut b = vec![if i % 2 == 0 { 0xFFu8 } else { 0 }; rack.in_regs * 2];
            b[pos] = i as u8;
            b[pos + 1] = (i >> 8) as u8;
            let regs = to_regs(&b);
            let r = c.next(&regs, &[]);
            ensure!(r.is_ok(), "{}: cycle failed: {r:?}", rack.describe());
            let w = rack.decode_in(&regs).unwrap();
            ensure!(same_rack(c.inputs(), &w), "{}: input image {regs:04x?} reported as {:?}, expected {w:?}", rack.describe(), c.inputs());
            out.eval(true);
        }
        Ok(())
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C19",
        level: Level::Exploration,
        rule: "all 65536 contents of the status register x patterns of the reserved register (thorough: all 2^32 contents), all register counts up to 63, through a coupler at even and odd byte positions. Non-trivial: status not 0",
        assumptions: &[],
        families,
    })
}
