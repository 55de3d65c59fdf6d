//! C27: what a coupler reports. All histories of calls on all small racks; the
//! report after every call is compared with what the last usable cycle was given.
use mc::engine::*;
use mc::ensure;
use mc::hist::*;
use mc::rack::*;
use mc::racks::*;
use mc::spec::*;
use ur20::ChannelValue;

fn alphabet(rack: &Rack) -> Vec<Op> {
    let n = rack.mods.len();
    let mut v = vec![
        Op::Cycle(0),
        Op::Cycle(1),
        Op::BadSet(n, 0, ChannelValue::Bit(true)),
    ];
    if rack.in_regs > 0 {
        v.push(Op::BadCycle(0));
    }
    if rack.out_regs > 0 {
        v.push(Op::BadCycle(1));
    }
    if let Some(m) = rack.mods.iter().position(|m| m.k == K::Com) {
        v.push(Op::BadCycle(4));
        v.push(Op::BadCycle(6));
        v.push(Op::Cycle(2));
        v.push(Op::Write(m, 60, 5));
        v.push(Op::Read(m, 64));
        v.push(Op::SetBytes(m, 5, 20));
    }
    if rack.has(K::Fcnt) {
        v.push(Op::BadCycle(7));
    }
    for (m, md) in rack.mods.iter().enumerate() {
        if !md.k.is_output() {
            continue;
        }
        let last = md.k.channels() - 1;
        // a request for the first counter channel would repair BadCycle(7)
        if md.k != K::Fcnt {
            if let Some(q) = md.reqs(0).into_iter().next() {
                v.push(Op::Set(m, 0, q));
            }
        }
        if let Some(q) = md.reqs(last).into_iter().nth(1) {
            v.push(Op::Set(m, last, q));
        }
        v.push(Op::BadSet(m, last, ChannelValue::None));
    }
    v
}

/// Every usable request for every channel of the rack (first, second and last
/// channel of modules with many).
fn requests(rack: &Rack) -> Vec<Op> {
    let mut v = vec![];
    for (m, md) in rack.mods.iter().enumerate() {
        let n = md.k.channels();
        for ch in (0..n).filter(|c| n <= 4 || *c < 2 || *c + 1 == n) {
            for q in md.reqs(ch) {
                v.push(Op::Set(m, ch, q));
            }
        }
        if md.k == K::Com {
            v.push(Op::SetBytes(m, 5, 1));
            v.push(Op::SetBytes(m, 9, 30));
        }
    }
    v
}

/// Number and kind of the reported values of a module.
fn shape(m: &M, v: &[ChannelValue], input: bool) -> Result<(), String> {
    use ChannelValue::*;
    let c = m.k.channels();
    let len = if input { m.in_len() } else { m.out_len() };
    let want = if input && m.k == K::Pf { 1 } else { c };
    if v.len() != want {
        return Err(format!("{} values instead of {want}", v.len()));
    }
    for (i, x) in v.iter().enumerate() {
        let ok = if len == 0 {
            *x == None
        } else {
            match m.k {
                K::Di4 | K::Di8 | K::Do4 | K::Do4x2A | K::Do8 | K::Do16 | K::Ro4 => matches!(x, Bit(_)),
                K::Com => matches!(x, None) || matches!(x, Bytes(b) if !b.is_empty() && b.len() <= m.com_len() - 2),
                K::Pf => matches!(x, SilPFIn(_)),
                K::Fcnt if input => matches!(x, FcntIn(_)),
                K::Fcnt => matches!(x, FcntOut(_)),
                K::Tc => match x {
                    Decimal32(f) => f.is_finite(),
                    None | Disabled => true,
                    _ => false,
                },
                _ => match x {
                    Decimal32(f) => f.is_finite(),
                    Disabled => true,
                    _ => false,
                },
            }
        };
        if !ok {
            return Err(format!("channel {i} reports {x:?}"));
        }
    }
    Ok(())
}

fn agrees(m: &M, v: &[ChannelValue], want: &[V]) -> bool {
    m.k == K::Com || same_all(v, want)
}

fn history(rack: &Rack, ops: &[&Op], out: &mut Out) -> Res {
    let mut r = Run::new(rack)?;
    let ctx = |n: usize| {
        // of long sessions only the end
        let from = if n > 200 { n - 20 } else { 0 };
        let l: Vec<Op> = ops[from..n].iter().map(|o| (*o).clone()).collect();
        let skip = if from > 0 { format!("  {from} calls (hist::long_session), then\n") } else { String::new() };
        format!("{}\n{skip}{}", rack.describe(), script(&l))
    };
    ensure!(
        r.c.inputs().is_empty() && r.c.outputs().is_empty(),
        "{}\nbefore the first cycle inputs {:?} and outputs {:?} are reported",
        rack.describe(),
        r.c.inputs(),
        r.c.outputs()
    );
    let mut cycled = false;
    for (n, op) in ops.iter().enumerate() {
        let before = (r.c.inputs().clone(), r.c.outputs().clone());
        let o = r.exec(op);
        out.transitions += 1;
        let now = (r.c.inputs(), r.c.outputs());
        ensure!(
            now.0 == r.c.inputs() && now.1 == r.c.outputs(),
            "{}\nlooking at the report twice gives different answers",
            ctx(n + 1)
        );
        if matches!(op, Op::Cycle(_)) {
            ensure!(!o.contains("failed"), "{}\n{o}", ctx(n + 1));
            cycled = true;
            let (wi, wo) = (
                rack.decode_in(&r.given.0).ok_or("harness: unusable image")?,
                rack.decode_out(&r.given.1).ok_or("harness: unusable image")?,
            );
            ensure!(
                now.0.len() == rack.mods.len() && now.1.len() == rack.mods.len(),
                "{}\n{} modules, but inputs of {} and outputs of {} reported",
                ctx(n + 1),
                rack.mods.len(),
                now.0.len(),
                now.1.len()
            );
            for (m, md) in rack.mods.iter().enumerate() {
                for (input, v, w) in [(true, &now.0[m], &wi[m]), (false, &now.1[m], &wo[m])] {
                    let side = if input { "inputs" } else { "outputs" };
                    if let Err(e) = shape(md, v, input) {
                        return Err(format!("{}\n{side} of module {m}: {e}", ctx(n + 1)));
                    }
                    ensure!(
                        agrees(md, v, w),
                        "{}\n{side} of module {m} are {v:?}; the cycle was given input {:04x?}, output {:04x?}",
                        ctx(n + 1),
                        r.given.0,
                        r.given.1
                    );
                }
            }
        } else {
            if matches!(op, Op::BadSet(..)) {
                ensure!(o == "set false", "{}\nthe request was accepted", ctx(n + 1));
            }
            if matches!(op, Op::BadCycle(_)) {
                ensure!(o == "bad cycle refused", "{}\nthe cycle was accepted", ctx(n + 1));
            }
            ensure!(
                *now.0 == before.0 && *now.1 == before.1,
                "{}\nthe last call is no successful cycle but changes the report\nfrom {before:?}\nto {now:?}",
                ctx(n + 1)
            );
        }
        out.state(&(n, &o, cycled));
        if n % 4096 == 4095 {
            out.tick();
        }
    }
    out.traces += 1;
    out.sample(|| ctx(ops.len()));
    out.eval(cycled);
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    for (n, len) in [(1, t.pick(5, 6)), (2, t.pick(4, 5)), (3, t.pick(2, 3))] {
        let first = if n == 1 { 0 } else { small_racks(n - 1) };
        let count = small_racks(n) - first;
        v.push(family(
            format!("all histories of {len} calls on all racks of {n} modules"),
            count,
            move |i, out| {
                let rack = Rack::new(small_rack(first + i, n), STYLES[(i % 3) as usize]);
                let al = alphabet(&rack);
                // racks of one serial module have the largest alphabets
                for h in 0..(al.len() as u64).pow(len as u32) {
                    let ops: Vec<&Op> = digits(h, al.len(), len).into_iter().map(|d| &al[d]).collect();
                    history(&rack, &ops, out)?;
                    if h % 1024 == 0 {
                        out.tick();
                    }
                }
                Ok(())
            },
        ));
    }
    // the same with serial modules in full operation
    for (n, len) in [(1, t.pick(4, 5)), (2, t.pick(3, 4)), (3, t.pick(1, 2))] {
        let first = if n == 1 { 0 } else { small_racks(n - 1) };
        let count = small_racks(n) - first;
        v.push(family(
            format!("all histories of {len} calls on all running racks of {n} modules with serial ones"),
            count,
            move |i, out| {
                let rack = Rack::new(small_rack(first + i, n), STYLES[(i % 3) as usize]);
                if !rack.has(K::Com) {
                    return Ok(());
                }
                let (al, warm) = (alphabet(&rack), running(&rack));
                for h in 0..(al.len() as u64).pow(len as u32) {
                    let mut ops: Vec<&Op> = warm.iter().collect();
                    ops.extend(digits(h, al.len(), len).into_iter().map(|d| &al[d]));
                    history(&rack, &ops, out)?;
                    if h % 1024 == 0 {
                        out.tick();
                    }
                }
                Ok(())
            },
        ));
    }
    // every usable request for every channel, alone and on top of every other
    // request for the same rack, after no, one and two cycles
    let n = t.pick(2, 3);
    v.push(family(
        format!("all requests on all racks of up to {n} modules"),
        small_racks(n),
        |i, out| {
            let rack = Rack::new(small_rack(i, 3), STYLES[(i % 3) as usize]);
            let al = requests(&rack);
            for a in &al {
                history(&rack, &[a, &Op::Cycle(0), a, &Op::Cycle(1), a], out)?;
                for b in &al {
                    history(&rack, &[a, b, &Op::Cycle(1), b, a, &Op::Cycle(0), a], out)?;
                }
                if rack.has(K::Com) {
                    let mut ops = running(&rack);
                    ops.extend([a.clone(), Op::Cycle(0), a.clone()]);
                    history(&rack, &ops.iter().collect::<Vec<_>>(), out)?;
                }
            }
            Ok(())
        },
    ));
    // long racks: every call once after and before every other
    v.push(family("pairs of calls on long racks", 12 * SHAPES as u64, |i, out| {
        let n = [4, 5, 6, 8, 10, 13, 18, 24, 33, 44, 57, 64][(i % 12) as usize];
        let rack = Rack::new(long_rack(n, (i / 12) as usize, 1 + n % 5), STYLES[(i % 3) as usize]);
        let mut al = alphabet(&rack);
        al.truncate(14);
        for a in &al {
            for b in &al {
                history(&rack, &[a, b, &Op::Cycle(1), a, b, &Op::Cycle(0)], out)?;
            }
        }
        Ok(())
    }));
    let wide = wide_racks();
    v.push(family("full racks with big images", wide.len() as u64, move |i, out| {
        let rack = &wide[i as usize];
        let mut al = alphabet(rack);
        let k = al.len();
        // the first calls, and some for the last modules
        al.drain(10.min(k)..k.saturating_sub(3).max(10.min(k)));
        for a in &al {
            for b in &al {
                history(rack, &[a, &Op::Cycle(1), b, &Op::Cycle(0)], out)?;
            }
        }
        Ok(())
    }));
    let long = t.pick(66_000usize, 300_000);
    v.push(family("long sessions", 12, move |i, out| {
        let rack = session_rack(i as usize);
        let al: Vec<Op> = alphabet(&rack).into_iter().filter(|o| matches!(o, Op::BadCycle(_) | Op::BadSet(..))).collect();
        let ops = long_session(&rack, long);
        let mut all: Vec<&Op> = vec![];
        for (n, op) in ops.iter().enumerate() {
            all.push(op);
            if n % 5 == 2 {
                all.push(&al[n / 5 % al.len()]);
            }
        }
        history(&rack, &all, out)
    }));
    // every kind of value in the images, extremes included
    v.push(family("image patterns", SHAPES as u64 * 3, |i, out| {
        let j = (i / SHAPES as u64) as usize;
        let m = M::shape((i % SHAPES as u64) as usize, j);
        let rack = Rack::new(vec![M::typical(K::Do4), m, M::typical(K::Di8)], STYLES[j]);
        let mut c = rack.coupler()?;
        for b in 0..256u32 {
            let fill = |regs: usize, s: usize| -> Vec<u16> {
                (0..regs)
                    .map(|r| match b {
                        0..=15 => 1 << b,
                        16..=31 => !(1 << (b - 16)),
                        32..=47 => 0xFFFF >> (b - 32),
                        48..=63 => 0xFFFF << (b - 48),
                        _ => ((r + s + 1) * b as usize * 257) as u16,
                    })
                    .collect()
            };
            let mut ib = to_bytes(&fill(rack.in_regs, 0));
            let mut ob = to_bytes(&fill(rack.out_regs, 3));
            make_valid(&rack, Side::Input, &mut ib, b as usize);
            make_valid(&rack, Side::Output, &mut ob, b as usize);
            let (ii, oo) = (to_regs(&ib), to_regs(&ob));
            if let Err(e) = c.next(&ii, &oo) {
                return Err(format!("{}\nnext({ii:04x?}, {oo:04x?}): {e:?}", rack.describe()));
            }
            for (m, md) in rack.mods.iter().enumerate() {
                for (input, v) in [(true, &c.inputs()[m]), (false, &c.outputs()[m])] {
                    if let Err(e) = shape(md, v, input) {
                        return Err(format!(
                            "{}\nnext({ii:04x?}, {oo:04x?}): {} of module {m}: {e}",
                            rack.describe(),
                            if input { "inputs" } else { "outputs" }
                        ));
                    }
                }
            }
            out.eval(true);
            out.transitions += 1;
        }
        out.state(&i);
        Ok(())
    }));
    let all = every_setting();
    let len = t.pick(2, 4);
    v.push(family("every setting of every type: all histories", all.len() as u64, move |i, out| {
        let rack = setting_rack(&all[i as usize], i * 5 / 4);
        let (al, warm) = (alphabet(&rack), running(&rack));
        for h in 0..(al.len() as u64).pow(len as u32) {
            let mut ops: Vec<&Op> = if i % 4 == 0 { vec![&al[0], &al[1]] } else { warm.iter().collect() };
            ops.extend(digits(h, al.len(), len).into_iter().map(|d| &al[d]));
            ops.push(&al[1]);
            history(&rack, &ops, out)?;
        }
        Ok(())
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C27",
        level: Level::ModelChecking,
        rule: "every history of the stated length over the rack's alphabet (usable and unusable cycles, accepted and refused requests, writes, reads) is executed on the real coupler and the report is judged after every call; states = distinct (depth, answer), transitions = calls, traces = executed histories",
        assumptions: &["serial values are only judged by kind and length here (their contents are C08 and C12)"],
        families,
    })
}
