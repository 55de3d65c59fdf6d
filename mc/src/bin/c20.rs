//! C20: module parameters are decoded exactly, invalid ones refused.
use mc::engine::*;
use mc::hist::digits;
use mc::settings::*;
use mc::spec::*;
use mc::{ensure, fail};

/// What a block must be decoded to; `None` = must be refused.
fn want(k: K, p: &[u16]) -> Option<Vec<Option<S>>> {
    let codes = k.codes();
    if p.len() < codes.len() || codes.iter().zip(p).any(|(c, x)| *c != 0 && u32::from(*x) >= *c) {
        return None;
    }
    Some(
        (0..codes.len())
            .map(|r| match k {
                K::Ao4 | K::Ao4Diag if codes[r] == 0 => {
                    match ui_value(p[r], p[r - 2], p[r - 1]) {
                        V::Num(x, _) => Some(S::F(x as f32)),
                        // a disabled channel has no substitute value
                        _ => None,
                    }
                }
                _ => Some(S::C(i64::from(p[r]))),
            })
            .collect(),
    )
}

fn check(k: K, p: &[u16]) -> Result<bool, String> {
    let got = settings(k, Some(p));
    match (want(k, p), got) {
        (None, Err(_)) => Ok(false),
        (None, Ok(s)) => fail!("{k:?}: parameters {p:04x?} must be refused but are decoded as {s:?}"),
        (Some(_), Err(e)) => fail!("{k:?}: valid parameters {p:04x?} refused ({e:?})"),
        (Some(w), Ok(s)) => {
            ensure!(s.len() == w.len(), "{k:?}: parameters {p:04x?} decoded as {} settings {s:?}", s.len());
            for (r, (s, w)) in s.iter().zip(&w).enumerate() {
                let same = match (s, w) {
                    (_, None) => true,
                    (S::F(a), Some(S::F(b))) => (a - b).abs() <= 1e-4,
                    (s, Some(w)) => s == w,
                };
                ensure!(same, "{k:?}: register {r} of parameters {p:04x?} decoded as {s:?}, expected {w:?}");
            }
            Ok(true)
        }
    }
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let with: Vec<K> = ALL.into_iter().filter(|k| k.regs() > 0).collect();
    // every value of every single register
    let regs: Vec<(K, usize)> = with.iter().flat_map(|k| (0..k.regs()).map(move |r| (*k, r))).collect();
    let bases = t.pick(3usize, 8);
    v.push(family("every register value", regs.len() as u64 * 64, move |i, out| {
        let (k, r) = regs[(i / 64) as usize];
        for b in 0..bases {
            let mut p = M::variant(k, b).p;
            for x in 0..1024u64 {
                p[r] = ((i % 64) * 1024 + x) as u16;
                let ok = check(k, &p)?;
                out.sample(|| format!("{k:?}: parameters {p:04x?}: {}", if ok { "decoded as documented" } else { "refused" }));
                out.eval(ok);
            }
        }
        out.outcome(&i);
        Ok(())
    }));
    // pairs of registers: all documented codes and the first undocumented ones
    let pairs: Vec<(K, usize, usize)> = with
        .iter()
        .flat_map(|k| {
            let n = k.regs();
            (0..n).flat_map(move |a| (a + 1..n).map(move |b| (*k, a, b)))
        })
        .collect();
    v.push(family("every pair of registers", pairs.len() as u64, move |i, out| {
        let (k, a, b) = pairs[i as usize];
        let codes = k.codes();
        let vals = |c: u32| -> Vec<u16> {
            let mut v: Vec<u16> = if c == 0 || c > 64 {
                vec![0, 1, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0xFFFF, 27648, 0x4321]
            } else {
                (0..c as u16).collect()
            };
            if c != 0 {
                v.extend([c as u16, c as u16 + 1, 0x100, 0x101, 0x8000, 0xFFFF]);
            }
            v
        };
        for j in 0..2 {
            let mut p = M::variant(k, j).p;
            for x in vals(codes[a]) {
                for y in vals(codes[b]) {
                    (p[a], p[b]) = (x, y);
                    let ok = check(k, &p)?;
                    out.eval(ok);
                }
            }
        }
        Ok(())
    }));
    // all valid blocks where there are few enough, all blocks of one channel else
    v.push(family("full products", 4096, move |i, out| {
        // (type, registers to enumerate)
        let mut sets: Vec<(K, Vec<usize>)> = vec![
            (K::Di4, (0..4).collect()),
            (K::Di8, (0..8).collect()),
            (K::Do4, (0..4).collect()),
            (K::Do4x2A, (0..4).collect()),
            (K::Do8, (0..8).collect()),
            (K::Ro4, (0..4).collect()),
            (K::Fcnt, (0..2).collect()),
            (K::Ai4x12, (0..9).collect()),
            (K::Ai4x16, (0..9).collect()),
            (K::Com, (0..8).collect()),
        ];
        for c in 0..4 {
            sets.push((K::Rtd, (1 + 7 * c..6 + 7 * c).chain([0]).collect()));
            sets.push((K::Tc, (1 + 7 * c..6 + 7 * c).chain([0]).collect()));
            sets.push((K::Ai4Diag, (1 + 5 * c..6 + 5 * c).chain([0]).collect()));
            sets.push((K::Ao4, vec![3 * c, 3 * c + 1]));
            sets.push((K::Ao4Diag, vec![4 * c, 4 * c + 1, 4 * c + 3]));
        }
        for c in 0..8 {
            sets.push((K::Ai8, (1 + 4 * c..5 + 4 * c).chain([0]).collect()));
        }
        for (k, rs) in sets {
            let codes = k.codes();
            let n: u64 = rs.iter().map(|r| u64::from(codes[*r])).product();
            let mut x = i;
            while x < n {
                let mut p = M::variant(k, (x % 3) as usize).p;
                let mut y = x;
                for r in &rs {
                    p[*r] = (y % u64::from(codes[*r])) as u16;
                    y /= u64::from(codes[*r]);
                }
                let ok = check(k, &p)?;
                out.eval(ok);
                x += 4096;
            }
        }
        Ok(())
    }));
    // lengths and surplus registers
    v.push(family("every length", 18 * 64, |i, out| {
        let (k, n) = (ALL[(i / 64) as usize], (i % 64) as usize);
        for j in 0..4 {
            let base = M::variant(k, j).p;
            for fill in [0u16, 1, 2, 0xFF, 0xFFFF, 0x1234] {
                let len = base.len();
                let mut p = base.clone();
                p.resize(n.max(len), fill);
                p.truncate(n);
                if k.regs() == 0 && n > 0 {
                    // modules without parameters: surplus refused or ignored
                    let _ = settings(k, Some(&p));
                    continue;
                }
                let ok = check(k, &p)?;
                out.eval(ok);
                // an undocumented code in the last register that counts
                if n >= len && len > 0 {
                    for r in 0..len {
                        if k.codes()[r] != 0 {
                            let keep = p[r];
                            p[r] = 0xFFFE;
                            let ok = check(k, &p)?;
                            out.eval(ok);
                            p[r] = keep;
                        }
                    }
                }
            }
        }
        // surplus that continues the block with another valid one
        if n > 0 && k.regs() > 0 {
            let mut p = M::variant(k, 0).p;
            for j in 1..(1 + n / k.regs()).min(4) {
                p.extend(M::variant(k, j).p);
            }
            p.truncate(n.max(k.regs()));
            let ok = check(k, &p)?;
            out.eval(ok);
        }
        out.outcome(&i);
        Ok(())
    }));
    v.push(family("long blocks", 18 * 4, |i, out| {
        let k = ALL[(i / 4) as usize];
        let base = M::variant(k, (i % 4) as usize).p;
        for n in wrapped_lengths(base.len()) {
            for fill in [0u16, 0xFFFF] {
                let mut p = base.clone();
                p.resize(n.max(base.len()), fill);
                if k.regs() == 0 {
                    let _ = settings(k, Some(&p));
                    continue;
                }
                let ok = check(k, &p)?;
                out.eval(ok);
            }
        }
        Ok(())
    }));
    // every channel with its own settings, all channels at once
    v.push(family("all channels different", 4096, move |i, out| {
        for k in ALL {
            let codes = k.codes();
            if codes.is_empty() {
                continue;
            }
            let d = digits(i, 8, 4);
            let p: Vec<u16> = codes
                .iter()
                .enumerate()
                .map(|(r, c)| {
                    let x = d[r % 4] * (r + 1) + d[(r + 1) % 4] * 31 + r * 7;
                    if *c == 0 {
                        (x * 4099) as u16
                    } else {
                        (x % *c as usize) as u16
                    }
                })
                .collect();
            let ok = check(k, &p)?;
            out.eval(ok);
        }
        Ok(())
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C20",
        level: Level::Exploration,
        rule: "all 65536 values of every parameter register of every module type over several base blocks, all documented and first undocumented codes of every pair of registers, full products of all codes (whole block or one channel plus the module setting), all lengths 0-63 with surplus registers; every decoded setting compared with the documented meaning of its register. Non-trivial: the block is valid",
        assumptions: &["the substitute value of a disabled output channel is not checked"],
        families,
    })
}
