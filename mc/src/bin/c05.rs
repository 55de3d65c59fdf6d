//! Failed cycles: every history with failing cycles inserted everywhere.
use mc::engine::*;
use mc::ensure;
use mc::hist::*;
use mc::rack::*;
use mc::racks::*;
use mc::spec::*;

struct Setup {
    rack: Rack,
    alphabet: Vec<Op>,
}

fn setups() -> Vec<Setup> {
    let s = |mods: Vec<M>, style, alphabet| Setup {
        rack: Rack::new(mods, style),
        alphabet,
    };
    use Op::*;
    vec![
        s(
            vec![
                M::typical(K::Do4),
                M::com(true),
                M::typical(K::Ao4),
                M::typical(K::Fcnt),
                M::com(false),
                M::typical(K::Ai4x16),
            ],
            Style::Packed,
            vec![
                Cycle(0),
                Cycle(1),
                Set(0, 1, Req::Bit(true)),
                Set(2, 2, Req::Raw(4321)),
                Set(3, 1, Req::Fcnt(0x12345, 1)),
                SetBytes(1, 10, 4),
                Write(1, 50, 8),
                Write(4, 90, 3),
                Read(1, 3),
            ],
        ),
        s(
            vec![M::com(false), M::com(true), M::typical(K::Do16)],
            Style::WordAligned,
            vec![
                Cycle(0),
                Cycle(1),
                Cycle(2),
                Set(2, 9, Req::Bit(true)),
                SetBytes(0, 10, 15),
                SetBytes(1, 30, 2),
                Write(0, 50, 3),
                Write(1, 90, 13),
                Read(0, 5),
            ],
        ),
        s(
            vec![M::typical(K::Fcnt), M::typical(K::Ao4Diag), M::typical(K::Ro4)],
            Style::Packed,
            vec![
                Cycle(0),
                Cycle(1),
                Set(0, 1, Req::Fcnt(77, 2)),
                Set(1, 0, Req::Raw(-5)),
                Set(1, 0, Req::Raw(900)),
                Set(2, 3, Req::Bit(true)),
            ],
        ),
    ]
}

/// Compare a history with the same history plus failing cycles at `at`.
fn differ(rack: &Rack, ops: &[Op], base: &[Obs], at: &[(usize, u8)], out: &mut Out) -> Res {
    let mut r = Run::new(rack)?;
    let mut log: Vec<Op> = vec![];
    let mut before = format!("inputs {:?} outputs {:?}", r.c.inputs(), r.c.outputs());
    for i in 0..=ops.len() {
        for (_, kind) in at.iter().filter(|(p, _)| *p == i) {
            log.push(Op::BadCycle(*kind));
            let o = r.apply(&Op::BadCycle(*kind));
            out.transitions += 1;
            let want = format!("bad cycle refused {before}");
            ensure!(
                o == want,
                "{}\n{}\nthe last call gave\n{o}\nexpected\n{want}",
                rack.describe(),
                script(&log)
            );
        }
        if i < ops.len() {
            log.push(ops[i].clone());
            let o = r.apply(&ops[i]);
            out.transitions += 1;
            ensure!(
                o == base[i],
                "{}\n{}\nthe last call gave\n{o}\nwithout the failed cycle(s) it gives\n{}",
                rack.describe(),
                script(&log),
                base[i]
            );
            if let Some(p) = o.find("inputs ") {
                before = o[p..].to_string();
            }
        }
    }
    out.traces += 1;
    out.eval(true);
    Ok(())
}

/// The chosen pairs of calls with a failing cycle of every kind before, between
/// and behind them.
fn pairs(rack: &Rack, warm: bool, choose: impl Fn(usize, usize) -> bool, out: &mut Out) -> Res {
    let (al, kinds) = (calls(rack), bad_kinds(rack));
    let warm = if warm { running(rack) } else { vec![] };
    let end = epilogue(rack);
    for (x, a) in al.iter().enumerate() {
        for (y, b) in al.iter().enumerate() {
            if !choose(x, y) {
                continue;
            }
            let mut ops = warm.clone();
            ops.extend([a.clone(), b.clone()]);
            ops.extend(end.iter().cloned());
            let base = observe(rack, &ops)?;
            for b in &base {
                ensure!(!b.contains("failed"), "{}\n{}\n{b}", rack.describe(), script(&ops));
            }
            for k in &kinds {
                for p in 0..3 {
                    differ(rack, &ops, &base, &[(warm.len() + p, *k)], out)?;
                }
            }
        }
    }
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let len = t.pick(3, 4);
    for (si, s) in setups().into_iter().enumerate() {
        let n = s.alphabet.len() as u64;
        // start fresh, in the middle of or after serial initialisation, or in operation
        let prefixes: Vec<Vec<Op>> = vec![
            vec![],
            vec![Op::Cycle(1)],
            vec![Op::Cycle(0), Op::Cycle(0)],
            running(&s.rack),
        ];
        v.push(family(
            format!("rack {si}: histories x failing cycles"),
            n.pow(len as u32) * 4,
            move |i, out| {
                let mut ops = prefixes[(i % 4) as usize].clone();
                let skip = ops.len();
                for d in digits(i / 4, n as usize, len) {
                    ops.push(s.alphabet[d].clone());
                }
                // afterwards everything queued must still come out
                ops.extend([Op::Cycle(0), Op::Cycle(1), Op::Cycle(0), Op::Cycle(0)]);
                for (m, md) in s.rack.mods.iter().enumerate() {
                    if md.k == K::Com {
                        ops.push(Op::Read(m, 100));
                    }
                }
                let base = observe(&s.rack, &ops)?;
                for b in &base {
                    out.state(&(si, b));
                    ensure!(!b.contains("failed"), "{}\n{}\n{b}", s.rack.describe(), script(&ops));
                }
                out.outcome(&base.last());
                for p in skip..=skip + len + 1 {
                    for k in 0..BAD_KINDS {
                        differ(&s.rack, &ops, &base, &[(p, k)], out)?;
                    }
                    // two failures, in a row and apart
                    let k = ((i as usize + p) % BAD_KINDS as usize) as u8;
                    let k2 = (k + 3) % BAD_KINDS;
                    differ(&s.rack, &ops, &base, &[(p, k), (p, k2)], out)?;
                    differ(&s.rack, &ops, &base, &[(p, k2), (p + 1, k)], out)?;
                }
                if i % 1001 == 7 {
                    out.sample(|| format!("{} history:\n{}", s.rack.describe(), script(&ops)));
                }
                Ok(())
            },
        ));
    }
    // every small rack, every pair of calls around every failing cycle
    let n = t.pick(2, 3);
    let first3 = small_racks(2);
    v.push(family("all small racks: pairs of calls around a failing cycle", small_racks(n) * 2, move |i, out| {
        let rack = Rack::new(small_rack(i / 2, n), STYLES[(i / 2 % 3) as usize]);
        // racks of three modules: a third of the pairs
        pairs(&rack, i % 2 == 1, |x, y| i / 2 < first3 || (x + 2 * y) as u64 % 3 == i / 6 % 3, out)?;
        out.state(&i);
        Ok(())
    }));
    let all = every_setting();
    v.push(family("every setting of every type: pairs of calls around a failing cycle", all.len() as u64 * 2, move |i, out| {
        let rack = setting_rack(&all[(i / 2) as usize], i * 5 / 2);
        pairs(&rack, i % 2 == 1, |x, y| t == Tier::Thorough || (x + y) as u64 % 3 == i % 3, out)?;
        out.state(&i);
        Ok(())
    }));
    // full racks, also with images of several hundred registers
    let wide = wide_racks();
    v.push(family("full racks with big images", wide.len() as u64, move |i, out| {
        let rack = &wide[i as usize];
        let al = calls(rack);
        let mut ops = running(rack);
        let w = ops.len();
        ops.extend(al.iter().skip(2).take(6).cloned());
        ops.extend(al.iter().rev().take(6).filter(|o| !matches!(o, Op::Cycle(_))).cloned());
        let n = ops.len();
        ops.extend(epilogue(rack).into_iter().take(12));
        let base = observe(rack, &ops)?;
        for k in bad_kinds(rack) {
            for p in [w, w + 3, n, n + 1] {
                differ(rack, &ops, &base, &[(p, k)], out)?;
            }
        }
        out.state(&i);
        Ok(())
    }));
    // a rack that fails very often
    let many = t.pick(66_000u64, 1_000_000);
    v.push(family("many failing cycles in a row", 3 * BAD_KINDS as u64, move |i, out| {
        let s = &setups()[(i % 3) as usize];
        let kind = (i / 3) as u8;
        if !bad_kinds(&s.rack).contains(&kind) {
            return Ok(());
        }
        let run = |n: u64, out: &mut Out| -> Result<Vec<Obs>, String> {
            let mut r = Run::new(&s.rack)?;
            let mut v: Vec<Obs> = [Op::Cycle(0), Op::Cycle(1), Op::Cycle(1)].iter().map(|o| r.apply(o)).collect();
            for op in s.alphabet.iter().filter(|o| !matches!(o, Op::Cycle(_))) {
                v.push(r.apply(op));
            }
            for j in 0..n {
                let o = r.exec(&Op::BadCycle(kind));
                ensure_err(o == "bad cycle refused", || format!("{}: failing cycle {j} of kind {kind} was accepted", s.rack.describe()))?;
                out.transitions += 1;
                if j % 4096 == 0 {
                    out.tick();
                }
            }
            for op in epilogue(&s.rack) {
                v.push(r.apply(&op));
            }
            Ok(v)
        };
        let a = run(0, out)?;
        for n in [many, 255, 256, 257] {
            let b = run(n, out)?;
            if let Some(k) = (0..a.len()).find(|k| a[*k] != b[*k]) {
                mc::fail!(
                    "{}\nafter {n} failing cycles of kind {kind} call {k} gives\n{}\nwithout them\n{}",
                    s.rack.describe(),
                    b[k],
                    a[k]
                );
            }
            out.eval(true);
            out.traces += 1;
        }
        Ok(())
    }));
    // failures again and again, all through a long session
    let long = t.pick(66_000usize, 300_000);
    v.push(family("failing cycles all through a long session", 12 * 2, move |i, out| {
        let rack = session_rack((i % 12) as usize);
        let kinds = bad_kinds(&rack);
        let ops = long_session(&rack, long);
        side_by_side(&rack, &ops, "failing cycles", |r, n| {
            for j in 0..=(i / 12) as usize {
                let k = kinds[(n / 2 + n / 128 + j * 3) % kinds.len()];
                let o = r.exec(&Op::BadCycle(k));
                ensure_err(o == "bad cycle refused", || format!("failing cycle of kind {k} was accepted"))?;
            }
            out.transitions += 2;
            if n % 4096 < 2 {
                out.tick();
            }
            Ok(())
        })?;
        out.eval(true);
        out.traces += 2;
        out.max_depth = out.max_depth.max(ops.len() as u64);
        Ok(())
    }));
    // every truncation of both images
    v.push(family("every image length", 3 * 4, |i, out| {
        let s = &setups()[(i % 3) as usize];
        let warm = i / 3;
        for (side, n) in [(0, s.rack.in_regs), (1, s.rack.out_regs)] {
            for l in 0..n {
                let run = |bad: bool| -> Result<Vec<String>, String> {
                    let mut r = Run::new(&s.rack)?;
                    let mut o = vec![];
                    for _ in 0..warm {
                        o.push(r.apply(&Op::Cycle(1)));
                    }
                    for op in &s.alphabet {
                        if !matches!(op, Op::Cycle(_)) {
                            o.push(r.apply(op));
                        }
                    }
                    let rep = format!("{:?}{:?}", r.c.inputs(), r.c.outputs());
                    if bad {
                        let mut a = vec![0x0101u16; s.rack.in_regs];
                        let mut b = vec![0x0101u16; s.rack.out_regs];
                        if side == 0 {
                            a.truncate(l)
                        } else {
                            b.truncate(l)
                        }
                        ensure_err(r.c.next(&a, &b).is_err(), || {
                            format!("{}: next with {} + {} registers was accepted", s.rack.describe(), a.len(), b.len())
                        })?;
                        ensure_err(rep == format!("{:?}{:?}", r.c.inputs(), r.c.outputs()), || {
                            format!("{}: a refused cycle ({} + {} registers) changed the reported values", s.rack.describe(), a.len(), b.len())
                        })?;
                    }
                    for _ in 0..4 {
                        o.push(r.apply(&Op::Cycle(1)));
                    }
                    Ok(o)
                };
                let (a, b) = (run(false)?, run(true)?);
                ensure!(a == b, "{}: a cycle with image {side} cut to {l} registers had an effect:\n{a:#?}\n{b:#?}", s.rack.describe());
                out.eval(true);
                out.traces += 1;
                out.transitions += 1;
            }
        }
        Ok(())
    }));
    v
}

fn ensure_err(c: bool, m: impl FnOnce() -> String) -> Res {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}

fn main() {
    mc::engine::main(Check {
        id: "C05",
        level: Level::ModelChecking,
        rule: "every history of the stated length over the alphabet (requests, serial writes and reads, cycles) from four starting phases, re-executed with failing cycles of every kind inserted at every position; all observations must equal those of the history without them; states = distinct observations, transitions = calls, traces = executed histories",
        assumptions: &["failures are the eight kinds of hist.rs: images short by one register or empty, serial length bytes beyond the frame, a counter preset beyond the maximum in the output image"],
        families,
    })
}
