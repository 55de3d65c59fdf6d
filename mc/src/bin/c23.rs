//! C23: bit addresses and offset tables are converted losslessly.
use mc::engine::*;
use mc::ensure;
use ur20::ur20_fbc_mod_tcp::*;

fn entry(w: u16) -> Option<u16> {
    if w == 0xFFFF {
        None
    } else {
        Some(w)
    }
}

fn table(t: &[u16], out: &mut Out) -> Res {
    let got = offsets_of_process_data(t);
    let n = t.len() / 2;
    ensure!(
        got.len() >= n && (t.len() % 2 == 1 || got.len() == n),
        "offset table {t:04x?}: {} entries for {n} modules",
        got.len()
    );
    for i in 0..n {
        ensure!(
            got[i].output == entry(t[2 * i]) && got[i].input == entry(t[2 * i + 1]),
            "offset table {t:04x?}: entry {i} is {:04x?}",
            got[i]
        );
    }
    if n < 20 {
        out.sample(|| format!("offset table {t:04x?} read as {got:04x?}"));
    }
    out.eval(n > 0);
    Ok(())
}

fn special() -> Vec<u16> {
    let mut v = vec![0u16, 1, 7, 8, 15, 16, 0x7FFF, 0x8000, 0x8001, 0x8008, 0xFFFE, 0xFFFF, 0xFFF8, 0xFFF0, 0x00FF, 0xFF00];
    v.extend((0..16).map(|b| 1 << b));
    v.extend((0..16).map(|b| !(1 << b)));
    v
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    v.push(family("register map", 1, |_, out| {
        let got = [
            ADDR_PACKED_PROCESS_INPUT_DATA,
            ADDR_PACKED_PROCESS_OUTPUT_DATA,
            ADDR_COUPLER_ID,
            ADDR_COUPLER_STATUS,
            ADDR_PROCESS_OUTPUT_LEN,
            ADDR_PROCESS_INPUT_LEN,
            ADDR_CURRENT_MODULE_COUNT,
            ADDR_CURRENT_MODULE_LIST,
            ADDR_MODULE_OFFSETS,
            ADDR_MODULE_PARAMETERS,
        ];
        let want = [0u16, 0x800, 0x1000, 0x100C, 0x1010, 0x1011, 0x27FE, 0x2A00, 0x2B00, 0xC000];
        ensure!(got == want, "register map {got:04x?}, documented {want:04x?}");
        out.eval(true);
        Ok(())
    }));
    v.push(family("all bit addresses", 65536, |a, out| {
        let a = a as u16;
        let (r, b) = to_register_address(a);
        ensure!(
            r == a / 16 && b == usize::from(a % 16),
            "bit address {a:#06x} splits into register {r:#x} bit {b}"
        );
        let m = to_bit_address(r, b);
        ensure!(m == a, "bit address {a:#06x} splits and merges to {m:#06x}");
        out.eval(true);
        out.outcome(&(r, b));
        Ok(())
    }));
    v.push(family("all registers and bits", 0x1000, |r, out| {
        for b in 0..16usize {
            let r = r as u16;
            let a = to_bit_address(r, b);
            ensure!(
                a == r * 16 + b as u16,
                "register {r:#x} bit {b} merges to {a:#06x}"
            );
            let s = to_register_address(a);
            ensure!(s == (r, b), "register {r:#x} bit {b} merges and splits to {s:x?}");
            out.eval(true);
        }
        Ok(())
    }));
    v.push(family("every word in every position of a table", 65536, |w, out| {
        let w = w as u16;
        for s in special() {
            table(&[w, s], out)?;
            table(&[s, w], out)?;
            table(&[s, !s, w, s], out)?;
            table(&[s, !s, s, w], out)?;
            table(&[w, s, s, !s], out)?;
            table(&[s, w, 0xFFFF, s, !s, w, w], out)?;
        }
        table(&[w, w], out)
    }));
    v.push(family("tables of every length up to 64 modules", 130, |n, out| {
        let n = n as usize;
        let words: Vec<u16> = (0..n).map(|i| (i * 2011 + 17) as u16).collect();
        table(&words, out)?;
        // every pattern of missing directions around every position
        for p in 0..n {
            for q in 0..n {
                let mut v = words.clone();
                v[p] = 0xFFFF;
                v[q] = 0xFFFF;
                table(&v, out)?;
                let mut v = vec![0xFFFF; n];
                v[p] = 0x8010;
                v[q] = 0x0020;
                table(&v, out)?;
            }
        }
        Ok(())
    }));
    // more modules than any station has
    let top = t.pick(1100u64, 9000);
    v.push(family("long tables", top + 6, move |i, out| {
        let n = if i < top {
            i as usize
        } else {
            [65_534, 65_535, 65_536, 65_537, 131_072, 200_001][(i - top) as usize]
        };
        for kind in 0..4 {
            let mut words: Vec<u16> = (0..n)
                .map(|i| match kind {
                    0 => (i * 2011 + 17) as u16,
                    1 => 0xFFFF,
                    2 => (0x8000 + 8 * i) as u16,
                    _ => 0,
                })
                .collect();
            table(&words, out)?;
            if n > 1 {
                words[n - 1] = 0xFFFF;
                table(&words, out)?;
                words[n - 2] = 0xFFFF;
                words[n - 1] = 0x1230;
                table(&words, out)?;
            }
        }
        out.tick();
        Ok(())
    }));
    v.push(family("every pattern of missing directions in 8 modules", 65536, |m, out| {
        let v: Vec<u16> = (0..16)
            .map(|i| if m >> i & 1 == 1 { 0xFFFF } else { (i as u16) * 0x0110 })
            .collect();
        table(&v, out)
    }));
    if t == Tier::Thorough {
        v.push(family("every pair of words", 65536, |w, out| {
            for x in 0..=u16::MAX {
                table(&[w as u16, x], out)?;
            }
            Ok(())
        }));
    }
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C23",
        level: Level::Exploration,
        rule: "all 65536 bit addresses and all 0x1000 x 16 register/bit pairs; offset tables with every word value at every position next to 48 special values, all table lengths up to 65 modules with every pair of positions missing, all lengths up to 1100 (thorough: 9000) words and some up to 200001 words, all patterns of missing directions of 8 modules (thorough: all 2^32 pairs); non-trivial = a table with at least one module",
        assumptions: &["what an odd trailing offset word means is left open"],
        families,
    })
}
