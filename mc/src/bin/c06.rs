//! Refused requests: every history with unusable requests inserted everywhere.
use mc::engine::*;
use mc::ensure;
use mc::hist::*;
use mc::rack::*;
use mc::racks::*;
use mc::spec::*;
use ur20::{Address, ChannelValue};

/// Requests this rack cannot take.
fn bads(rack: &Rack) -> Vec<Op> {
    let mut v = vec![];
    let n = rack.mods.len();
    for m in [n, n + 1, 64, 255, 256, 65536, 1 << 32, usize::MAX] {
        for ch in [0, 1, 255, usize::MAX] {
            v.push(Op::BadSet(m, ch, ChannelValue::Bit(true)));
            v.push(Op::BadSet(m, ch, ChannelValue::Decimal32(1.0)));
            v.push(Op::BadSet(m, ch, ChannelValue::Bytes(vec![1])));
        }
    }
    for (m, md) in rack.mods.iter().enumerate() {
        let c = md.k.channels();
        let good = md
            .reqs(0)
            .into_iter()
            .next()
            .map_or(ChannelValue::Bytes(vec![9]), |q| {
                if c > 0 {
                    q.value(md, 0)
                } else {
                    ChannelValue::Bit(true)
                }
            });
        for ch in [c, c + 1, c + 7, 16, 17, 255, 256, 65536, usize::MAX] {
            if ch >= c {
                v.push(Op::BadSet(m, ch, good.clone()));
            }
        }
        if md.k.is_output() {
            for ch in 0..c {
                for b in md.bad_reqs() {
                    v.push(Op::BadSet(m, ch, b));
                }
            }
        }
    }
    v
}

fn racks() -> Vec<(Rack, Vec<Op>)> {
    use Op::*;
    let r = |v: Vec<M>, s| Rack::new(v, s);
    vec![
        (
            r(vec![M::typical(K::Do4), M::typical(K::Ao4)], Style::Packed),
            vec![
                Cycle(0),
                Cycle(1),
                Set(0, 0, Req::Bit(true)),
                Set(0, 0, Req::Bit(false)),
                Set(0, 3, Req::Bit(true)),
                Set(1, 0, Req::Raw(555)),
                Set(1, 3, Req::Raw(-555)),
            ],
        ),
        (
            r(
                vec![M::typical(K::Fcnt), M::com(true), M::typical(K::Do16)],
                Style::Packed,
            ),
            vec![
                Cycle(0),
                Cycle(1),
                Set(0, 0, Req::Fcnt(123, 1)),
                Set(0, 1, Req::Fcnt(321, 2)),
                Set(2, 15, Req::Bit(true)),
                SetBytes(1, 5, 3),
                Write(1, 60, 7),
            ],
        ),
        (
            r(
                vec![
                    M::typical(K::Pf),
                    M::typical(K::Ro4),
                    M::typical(K::Di4),
                    M::typical(K::Ao4Diag),
                    M::com(false),
                ],
                Style::Packed,
            ),
            vec![
                Cycle(0),
                Cycle(1),
                Set(1, 0, Req::Bit(true)),
                Set(3, 1, Req::Raw(1000)),
                Set(3, 2, Req::Disabled),
                SetBytes(4, 5, 15),
            ],
        ),
    ]
}

/// Every pair of calls with refused requests before, between and behind them.
fn pairs(rack: &Rack, warm: bool, coarse: bool, out: &mut Out) -> Res {
    let (al, bad) = (calls(rack), bads(rack));
    let warm = if warm { running(rack) } else { vec![] };
    let end = epilogue(rack);
    let mut at = 0;
    for a in &al {
        for b in &al {
            let mut ops = warm.clone();
            ops.extend([a.clone(), b.clone()]);
            ops.extend(end.iter().cloned());
            let base = observe(rack, &ops)?;
            let skip = warm.len();
            // refused requests in groups of 13, so that every one of them
            // meets every position and pair of calls of two-module racks
            let size = if coarse { bad.len() } else { 13 };
            for set in bad.chunks(size) {
                at = (at + 1) % 3;
                for p in 0..3 {
                    if coarse && p != at {
                        continue;
                    }
                    let mut r = Run::new(rack)?;
                    for (k, op) in ops.iter().enumerate() {
                        if k == skip + p {
                            let before = (r.c.inputs().clone(), r.c.outputs().clone());
                            for b in set {
                                let o = r.exec(b);
                                ensure!(o == "set false", "{}\n{}\nthen {b:?} was accepted", rack.describe(), script(&ops[..k]));
                                out.transitions += 1;
                            }
                            ensure!(
                                before == (r.c.inputs().clone(), r.c.outputs().clone()),
                                "{}\n{}\nthen one of the refused requests {set:?} changes the reported values",
                                rack.describe(),
                                script(&ops[..k])
                            );
                        }
                        let o = r.apply(op);
                        out.transitions += 1;
                        ensure!(
                            o == base[k],
                            "{}\n{}\nwith refused requests {set:?} before call {} the last call gave\n{o}\nwithout them\n{}",
                            rack.describe(),
                            script(&ops[..=k]),
                            skip + p,
                            base[k]
                        );
                    }
                    out.traces += 1;
                    out.eval(true);
                }
            }
        }
    }
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let len = t.pick(3, 4);
    for (ri, (rack, alphabet)) in racks().into_iter().enumerate() {
        let n = alphabet.len() as u64;
        let bad = bads(&rack);
        v.push(family(
            format!("rack {ri}: histories x refused requests"),
            n.pow(len as u32) * 2,
            move |i, out| {
                let mut ops = vec![];
                if i % 2 == 1 {
                    ops.extend(running(&rack));
                }
                let skip = ops.len();
                for d in digits(i / 2, n as usize, len) {
                    ops.push(alphabet[d].clone());
                }
                ops.extend([Op::Cycle(1), Op::Cycle(0), Op::Cycle(0)]);
                let base = observe(&rack, &ops)?;
                for b in &base {
                    out.state(&(ri, b));
                    ensure!(
                        !b.contains("failed") && !b.contains("set false"),
                        "{}\n{}\n{b}",
                        rack.describe(),
                        script(&ops)
                    );
                }
                // each unusable request alone at each position; all of them together
                for at in skip..=skip + len {
                    let mut sets: Vec<Vec<&Op>> = bad.iter().map(|b| vec![b]).collect();
                    sets.push(bad.iter().collect());
                    for set in sets {
                        let mut r = Run::new(&rack)?;
                        let mut log = vec![];
                        for p in 0..=ops.len() {
                            if p == at {
                                for b in &set {
                                    log.push((*b).clone());
                                    let o = r.apply(b);
                                    out.transitions += 1;
                                    ensure!(
                                        o == "set false",
                                        "{}\n{}\nthe last request was accepted",
                                        rack.describe(),
                                        script(&log)
                                    );
                                }
                            }
                            if p < ops.len() {
                                log.push(ops[p].clone());
                                let o = r.apply(&ops[p]);
                                out.transitions += 1;
                                ensure!(
                                    o == base[p],
                                    "{}\n{}\nthe last call gave\n{o}\nwithout the refused request it gives\n{}",
                                    rack.describe(),
                                    script(&log),
                                    base[p]
                                );
                            }
                        }
                        out.traces += 1;
                        out.sample(|| format!("{}\n{}", rack.describe(), script(&log)));
                        out.eval(true);
                    }
                }
                Ok(())
            },
        ));
    }
    // every small rack, every pair of calls around every refused request
    let n = t.pick(2, 3);
    let first3 = small_racks(2);
    v.push(family("all small racks: pairs of calls around a refused request", small_racks(n) * 2, move |i, out| {
        let rack = Rack::new(small_rack(i / 2, n), STYLES[(i / 2 % 3) as usize]);
        pairs(&rack, i % 2 == 1, i / 2 >= first3, out)?;
        out.state(&i);
        Ok(())
    }));
    let all = every_setting();
    v.push(family("every setting of every type: pairs of calls around a refused request", all.len() as u64 * 2, move |i, out| {
        let rack = setting_rack(&all[(i / 2) as usize], i * 5 / 2);
        pairs(&rack, i % 2 == 1, t == Tier::Quick, out)?;
        out.state(&i);
        Ok(())
    }));
    // full racks, also with images of several hundred registers
    let wide = wide_racks();
    v.push(family("full racks with big images", wide.len() as u64, move |i, out| {
        let rack = &wide[i as usize];
        let al = calls(rack);
        let mut ops = running(rack);
        let w = ops.len();
        ops.extend(al.iter().skip(2).take(6).cloned());
        ops.extend(al.iter().rev().take(6).filter(|o| !matches!(o, Op::Cycle(_))).cloned());
        let n = ops.len();
        ops.extend(epilogue(rack).into_iter().take(12));
        let base = observe(rack, &ops)?;
        let bad = bads(rack);
        for p in [w, w + 3, n, n + 1] {
            let mut r = Run::new(rack)?;
            for (k, op) in ops.iter().enumerate() {
                if k == p {
                    for b in &bad {
                        let o = r.exec(b);
                        ensure!(o == "set false", "{}\n{}\nthen {b:?} was accepted", rack.describe(), script(&ops[..k]));
                        out.transitions += 1;
                    }
                }
                let o = r.apply(op);
                out.transitions += 1;
                ensure!(
                    o == base[k],
                    "{}\n{}\nwith all refused requests before call {p} the last call gave\n{o}\nwithout them\n{}",
                    rack.describe(),
                    script(&ops[..=k]),
                    base[k]
                );
            }
            out.traces += 1;
            out.eval(true);
        }
        out.state(&i);
        Ok(())
    }));
    // very many refused requests
    let many = t.pick(66_000usize, 1_000_000);
    v.push(family("many refused requests in a row", 3, move |i, out| {
        let (rack, alphabet) = &racks()[i as usize];
        let bad = bads(rack);
        let run = |n: usize, out: &mut Out| -> Result<Vec<Obs>, String> {
            let mut r = Run::new(rack)?;
            let mut v: Vec<Obs> = [Op::Cycle(0), Op::Cycle(1)].iter().map(|o| r.apply(o)).collect();
            for op in alphabet.iter().filter(|o| !matches!(o, Op::Cycle(_))) {
                v.push(r.apply(op));
            }
            for j in 0..n {
                let b = &bad[j % bad.len()];
                let o = r.exec(b);
                if o != "set false" {
                    return Err(format!("{}: {b:?} was accepted the {j}-th time", rack.describe()));
                }
                out.transitions += 1;
            }
            for op in epilogue(rack) {
                v.push(r.apply(&op));
            }
            Ok(v)
        };
        let a = run(0, out)?;
        let b = run(many, out)?;
        if let Some(k) = (0..a.len()).find(|k| a[*k] != b[*k]) {
            mc::fail!("{}\nafter {many} refused requests call {k} gives\n{}\nwithout them\n{}", rack.describe(), b[k], a[k]);
        }
        out.eval(true);
        out.traces += 1;
        Ok(())
    }));
    // refused requests all through a long session
    let long = t.pick(66_000usize, 300_000);
    v.push(family("refused requests all through a long session", 12 * 2, move |i, out| {
        let rack = session_rack((i % 12) as usize);
        let bad = bads(&rack);
        let ops = long_session(&rack, long);
        let mut k = 0;
        side_by_side(&rack, &ops, "refused requests", |r, n| {
            for _ in 0..=i / 12 * 2 {
                let b = &bad[k % bad.len()];
                k += 1;
                let o = r.exec(b);
                ensure!(o == "set false", "{b:?} was accepted");
            }
            out.transitions += 2;
            if n % 4096 < 2 {
                out.tick();
            }
            Ok(())
        })?;
        out.eval(true);
        out.traces += 2;
        Ok(())
    }));
    // existence of addresses and kinds of values in every small rack
    let n = t.pick(2, 3);
    v.push(family("addresses and value kinds", small_racks(n), move |i, out| {
        let rack = Rack::new(small_rack(i, n), Style::Packed);
        let mut c = rack.coupler()?;
        for op in bads(&rack) {
            if let Op::BadSet(module, channel, val) = op {
                let a = Address { module, channel };
                ensure!(
                    c.set_output(&a, val.clone()).is_err(),
                    "{}\nset_output({a:?}, {val:?}) was accepted",
                    rack.describe()
                );
                out.eval(true);
                out.transitions += 1;
            }
        }
        // far away addresses that look alike in fewer bits
        let mut far: Vec<(usize, usize)> = vec![];
        for m in far_positions(rack.mods.len()) {
            far.extend([(m, 0), (m, 1)]);
        }
        for (m, md) in rack.mods.iter().enumerate() {
            far.extend(far_positions(md.k.channels()).into_iter().map(|ch| (m, ch)));
        }
        for (module, channel) in far {
            for val in [ChannelValue::Bit(true), ChannelValue::Decimal32(1.0), ChannelValue::Bytes(vec![1])] {
                let a = Address { module, channel };
                ensure!(
                    c.set_output(&a, val.clone()).is_err(),
                    "{}\nset_output({a:?}, {val:?}) was accepted",
                    rack.describe()
                );
                out.eval(true);
                out.transitions += 1;
            }
        }
        for (m, md) in rack.mods.iter().enumerate() {
            for ch in 0..md.k.channels() {
                for q in md.reqs(ch) {
                    let a = Address {
                        module: m,
                        channel: ch,
                    };
                    let val = q.value(md, ch);
                    ensure!(
                        c.set_output(&a, val.clone()).is_ok(),
                        "{}\nset_output({a:?}, {val:?}) was refused",
                        rack.describe()
                    );
                    out.eval(true);
                    out.transitions += 1;
                }
            }
        }
        let img = base_image(&rack, Side::Output, 2);
        let inp = base_image(&rack, Side::Input, 0);
        ensure!(
            c.next(&inp, &img).is_ok(),
            "{}\nafter refused and accepted requests the next cycle fails",
            rack.describe()
        );
        out.state(&i);
        out.traces += 1;
        Ok(())
    }));
    // counter presets around the maximum and where 32-bit microseconds would wrap
    v.push(family("counter presets", 2, |ch, out| {
        use std::time::Duration;
        let rack = Rack::new(vec![M::typical(K::Fcnt)], Style::Packed);
        let ch = ch as usize;
        let mut c = rack.coupler()?;
        let a = Address { module: 0, channel: ch };
        let mut us: Vec<u64> = (0..64).map(|b| 1u64 << b).collect();
        us.extend((0..64).map(|b| (1u64 << b) - 1));
        us.extend((0..4096u64).map(|d| FCNT_MAX_US - 2048 + d));
        us.extend((0..300u64).map(|s| s * 1_000_000 * 71 + 3));
        for u in us {
            let mut o = ur20::ur20_2fcnt_100::ProcessOutput::default();
            o.duration = Duration::from_micros(u);
            let ok = c.set_output(&a, ChannelValue::FcntOut(o)).is_ok();
            ensure!(
                ok == (u <= FCNT_MAX_US),
                "{}\nset_output of a preset of {u} us: accepted = {ok}",
                rack.describe()
            );
            if !ok {
                continue;
            }
            let img = c
                .next(&[0; 10], &[0; 6])
                .map_err(|e| format!("preset {u} us accepted but the cycle failed: {e:?}"))?;
            let got = u64::from(img[2 * ch]) << 16 | u64::from(img[2 * ch + 1]);
            ensure!(got == u, "preset {u} us became {got}");
            out.eval(true);
            out.transitions += 2;
        }
        out.state(&ch);
        Ok(())
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C06",
        level: Level::ModelChecking,
        rule: "every history of the stated length over the alphabet, re-executed with every unusable request (missing addresses, wrong kinds, presets beyond the maximum) inserted at every position; the request must be refused and all other observations unchanged; states = distinct observations, transitions = calls, traces = executed histories",
        assumptions: &["requests for existing input-only channels are outside the property"],
        families,
    })
}
