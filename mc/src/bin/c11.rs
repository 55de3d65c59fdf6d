//! C11: serial modules in one rack do not influence each other.
use mc::com::{fleet, fleet_rack, FLEET_CYCLES};
use mc::com::SERIAL_SETTINGS;
use mc::engine::*;
use mc::hist::{digits, far_positions};
use mc::rack::*;
use mc::spec::*;
use mc::{ensure, fail};
use std::collections::HashMap;
use std::sync::Mutex;
use ur20::ur20_fbc_mod_tcp::Coupler;
use ur20::{Address, ChannelValue};

/// What a module and its device do around one cycle.
const ACTS: usize = 9;
fn act_name(a: usize) -> &'static str {
    [
        "nothing (device acknowledges)",
        "write 3 bytes",
        "present a segment, read 64",
        "request 2 bytes",
        "write one byte more than fits, device does not acknowledge",
        "write 1, present a full segment, read 3",
        "read 4, device withdraws its segment",
        "present an empty segment, device does not acknowledge, nearly full",
        "other outputs: foreign transmit counter and data in the image",
    ][a]
}

#[derive(Clone)]
struct Side {
    ack: u8,
    rx: u8,
    avail: bool,
    seg: Vec<u8>,
    flags: u8,
    frame: Vec<u8>,
    n: u8,
    id: u8,
}

impl Side {
    fn new(eight: bool, id: u8) -> Side {
        Side {
            ack: id % 4,
            rx: 3 - id % 4,
            avail: id % 2 == 1,
            seg: if id % 2 == 1 { vec![0xE0 + id] } else { vec![] },
            flags: 0x80,
            frame: {
                let mut f = vec![0; if eight { 8 } else { 16 }];
                f[0] = (id % 4) << 3;
                f
            },
            n: 0,
            id,
        }
    }
    fn u(&self) -> usize {
        self.frame.len() - 2
    }
    fn bytes(&self, n: usize) -> Vec<u8> {
        (0..n).map(|j| (self.id * 50).wrapping_add(self.n.wrapping_mul(8)).wrapping_add(j as u8)).collect()
    }
    fn before(&mut self, a: usize, c: &mut Coupler, m: usize) -> Res {
        let w = match a {
            1 => 3,
            4 => self.u() + 1,
            5 => 1,
            _ => 0,
        };
        if w > 0 {
            let b = self.bytes(w);
            match c.writer(m) {
                Some(p) => ensure!(p.write_all(&b).is_ok(), "write failed"),
                None => fail!("serial module at {m} has no writer"),
            }
        }
        if a == 3 {
            let v = ChannelValue::Bytes(self.bytes(2));
            ensure!(
                c.set_output(&Address { module: m, channel: 0 }, v).is_ok(),
                "set_output of bytes refused for module {m}"
            );
        }
        // the device
        if a != 4 && a != 7 {
            self.ack = self.frame[0] >> 3 & 3;
        }
        let present = match a {
            2 => Some(2),
            5 => Some(self.u()),
            7 => Some(0),
            _ => None,
        };
        if let Some(l) = present {
            self.rx = (self.rx + 1) % 4;
            self.avail = true;
            self.seg = self.bytes(l).iter().map(|b| !b).collect();
        }
        if a == 6 {
            self.avail = false;
            self.seg.clear();
        }
        self.flags = if a == 7 { 2 } else { 0x80 };
        if a == 8 {
            self.frame[0] = self.frame[0] & !0x18 | ((self.frame[0] >> 3) + 1) % 4 << 3;
            self.frame[1] = 3;
            for j in 0..3 {
                self.frame[2 + j] = (0xA0 + j as u8).wrapping_add(self.n);
            }
        }
        self.n = self.n.wrapping_add(1);
        Ok(())
    }
    fn input(&self) -> Vec<u8> {
        let mut f = vec![0; self.frame.len()];
        f[0] = u8::from(self.avail) | self.flags | self.rx << 3 | self.ack << 5;
        f[1] = self.seg.len() as u8;
        f[2..2 + self.seg.len()].copy_from_slice(&self.seg);
        f
    }
    fn after(&mut self, a: usize, c: &mut Coupler, m: usize, img: &[u8]) -> Result<String, String> {
        self.frame = img.to_vec();
        let n = match a {
            2 => 64,
            5 => 3,
            6 => 4,
            _ => 0,
        };
        let mut buf = vec![0; n];
        let got = match c.reader(m) {
            Some(r) => mc::com::read_full(r, &mut buf).map_err(|e| format!("read: {e}"))?,
            None => fail!("serial module at {m} has no reader"),
        };
        Ok(format!(
            "frame {:02x?} read {:02x?} in {:?} out {:?}",
            self.frame,
            &buf[..got.min(n)],
            c.inputs().get(m),
            c.outputs().get(m)
        ))
    }
}

/// Run a rack; `sides[i]` is the i-th serial module. Observations per module and round.
fn run(r: &Rack, ids: &[u8], hist: &[Vec<usize>], rev: bool) -> Result<Vec<Vec<String>>, String> {
    let coms: Vec<usize> = (0..r.mods.len()).filter(|m| r.mods[*m].k == K::Com).collect();
    let mut c = r.coupler()?;
    let mut s: Vec<Side> = coms
        .iter()
        .zip(ids)
        .map(|(m, id)| Side::new(r.mods[*m].com_len() == 8, *id))
        .collect();
    let mut obs = vec![vec![]; coms.len()];
    let mut order: Vec<usize> = (0..coms.len()).collect();
    if rev {
        order.reverse();
    }
    let mut img = vec![0u8; r.out_regs * 2];
    for round in 0..hist[0].len() {
        let mut ib = vec![0u8; r.in_regs * 2];
        for &j in &order {
            s[j].before(hist[j][round], &mut c, coms[j])?;
        }
        for (j, &m) in coms.iter().enumerate() {
            let (ia, oa) = (r.inp[m].unwrap(), r.out[m].unwrap());
            let f = s[j].input();
            ib[ia..ia + f.len()].copy_from_slice(&f);
            img[oa..oa + f.len()].copy_from_slice(&s[j].frame);
        }
        img = to_bytes(
            &c.next(&to_regs(&ib), &to_regs(&img))
                .map_err(|e| format!("cycle {round} failed: {e:?}"))?,
        );
        img.resize(r.out_regs * 2, 0);
        for &j in &order {
            let m = coms[j];
            let oa = r.out[m].unwrap();
            let n = s[j].frame.len();
            let o = s[j].after(hist[j][round], &mut c, m, &img[oa..oa + n])?;
            obs[j].push(o);
        }
    }
    Ok(obs)
}

type Alone = Mutex<HashMap<(bool, u8, Vec<usize>), std::sync::Arc<Vec<String>>>>;

fn alone(cache: &Alone, eight: bool, id: u8, h: &[usize]) -> Result<std::sync::Arc<Vec<String>>, String> {
    let key = (eight, id, h.to_vec());
    if let Some(v) = cache.lock().unwrap().get(&key) {
        return Ok(v.clone());
    }
    let r = Rack::new(vec![M::com(eight)], Style::Packed);
    let v = std::sync::Arc::new(run(&r, &[id], &[h.to_vec()], false)?.remove(0));
    cache.lock().unwrap().insert(key, v.clone());
    Ok(v)
}

fn compare(r: &Rack, hist: &[Vec<usize>], rev: bool, cache: &Alone, out: &mut Out) -> Res {
    let coms: Vec<usize> = (0..r.mods.len()).filter(|m| r.mods[*m].k == K::Com).collect();
    let ids: Vec<u8> = (0..coms.len() as u8).map(|i| i % 5).collect();
    let show = || {
        let mut s = r.describe();
        for (j, h) in hist.iter().enumerate() {
            s += &format!("\nserial module at {} per cycle: {:?}", coms[j], h.iter().map(|a| act_name(*a)).collect::<Vec<_>>());
        }
        s
    };
    let all = run(r, &ids, hist, rev).map_err(|e| format!("{}\n{e}", show()))?;
    for j in 0..coms.len() {
        let want = alone(cache, r.mods[coms[j]].com_len() == 8, ids[j], &hist[j])?;
        for (n, (a, b)) in all[j].iter().zip(want.iter()).enumerate() {
            ensure!(
                a == b,
                "{}\ncycle {n}: the serial module at {} behaves differently\n  in this rack: {a}\n  as the only serial module: {b}",
                show(),
                coms[j]
            );
        }
    }
    out.sample(|| show());
    out.eval(hist.iter().filter(|h| h.iter().any(|a| *a != 0)).count() > 1);
    out.transitions += hist[0].len() as u64;
    out.traces += 1;
    Ok(())
}

fn com_rack(which: usize) -> Rack {
    let d = |k| M::typical(k);
    match which {
        0 => Rack::new(vec![M::com(true), M::com(false)], Style::Packed),
        1 => Rack::new(vec![M::com(true), M::com(true)], Style::Packed),
        2 => Rack::new(vec![d(K::Do8), M::com(false), d(K::Di4), M::com(true)], Style::Packed),
        3 => Rack::new(vec![M::com(false), d(K::Do16), M::com(false)], Style::WordAligned)
            .with_reversed_inputs(Style::WordAligned),
        _ => unreachable!(),
    }
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // two modules: the full product of their histories
    for (name, racks, acts, depth) in t.pick(
        vec![
            ("pairs of histories", 2usize, 6usize, 4usize),
            ("pairs of histories, all actions", 4, ACTS, 3),
        ],
        vec![
            ("pairs of histories", 4, 6, 4),
            ("pairs of histories, all actions", 4, ACTS, 4),
            ("pairs of longer histories", 1, 4, 6),
        ],
    ) {
        let per = (acts as u64).pow(depth as u32);
        let cache = Alone::default();
        v.push(family(name, per * racks as u64, move |i, out| {
            let (k, i) = (i as usize % racks, i / racks as u64);
            let r = com_rack(k);
            let pre = if name.contains("all actions") { vec![0, 0] } else { vec![] };
            let mk = |i| -> Vec<usize> {
                let mut h: Vec<usize> = pre.clone();
                h.extend(digits(i, acts, depth));
                h
            };
            let h0 = mk(i);
            for j in 0..per {
                compare(&r, &[h0.clone(), mk(j)], (i + j) % 2 == 1, &cache, out)?;
                if j % 64 == 0 {
                    out.tick();
                }
            }
            out.state(&(k, i));
            Ok(())
        }));
    }
    // three modules
    let (acts, depth) = t.pick((4usize, 2usize), (5, 3));
    let per = (acts as u64).pow(depth as u32);
    let cache = Alone::default();
    v.push(family("triples of histories", per * per, move |i, out| {
        let r = Rack::new(
            vec![M::com(true), M::com(false), M::typical(K::Do8), M::com(true)],
            Style::Packed,
        );
        let mk = |i| -> Vec<usize> {
            let mut h = vec![0];
            h.extend(digits(i, acts, depth));
            h.extend([1, 2, 0]);
            h
        };
        for j in 0..per {
            compare(&r, &[mk(i % per), mk(i / per), mk(j)], j % 2 == 1, &cache, out)?;
        }
        out.state(&i);
        Ok(())
    }));
    // modules with different settings side by side
    let all: Vec<Vec<M>> = (0..SERIAL_SETTINGS).map(mc::com::serial_settings).collect();
    let picks = t.pick(12u64, 200);
    let cache = Alone::default();
    v.push(family("different settings side by side", SERIAL_SETTINGS * SERIAL_SETTINGS, move |i, out| {
        let (a, b) = (&all[(i % SERIAL_SETTINGS) as usize], &all[(i / SERIAL_SETTINGS) as usize]);
        for k in 0..picks {
            let pick = |v: &[M], n: u64| v[((k * 37 + n) % v.len() as u64) as usize].clone();
            let (x, y) = (pick(a, i), pick(b, i / 7 + 11));
            let mut mods = vec![x, y];
            if k % 2 == 1 {
                mods.insert(1, M::typical(K::Do8));
                mods.push(pick(a, i + 1));
            }
            let r = Rack::new(mods, Style::Packed);
            let h = [vec![0, 0, 1, 5, 4, 2, 6, 0, 3], vec![1, 3, 4, 2, 8, 1, 2, 7, 0], vec![4, 1, 0, 3, 1, 5, 2, 8, 6]];
            let n = r.mods.iter().filter(|m| m.k == K::Com).count();
            compare(&r, &h[..n], k % 4 > 1, &cache, out)?;
        }
        out.state(&i);
        Ok(())
    }));
    // large racks: only some modules are active
    let cache = Alone::default();
    v.push(family("large racks", 16 * 16 * 16, move |i, out| {
        let n = 5 + (i % 16) as usize * 3;
        let (x, y) = ((i / 16 % 16) as usize % n, n - 1 - (i / 256) as usize % n);
        let mods: Vec<M> = (0..n).map(|m| M::com(m % 3 == 0)).collect();
        let r = Rack::new(mods, Style::Packed);
        let h: Vec<Vec<usize>> = (0..n)
            .map(|m| match m {
                _ if m == x => vec![1, 5, 4, 2, 6, 0],
                _ if m == y => vec![3, 0, 2, 8, 1, 2],
                _ => vec![0; 6],
            })
            .collect();
        compare(&r, &h, i % 2 == 1, &cache, out)?;
        out.state(&i);
        Ok(())
    }));
    // long sessions of two and three modules
    let long = t.pick(66_000usize, 300_000);
    v.push(family("long sessions", 8, move |i, out| {
        let r = match i % 4 {
            3 => Rack::new(vec![M::com(true), M::typical(K::Do8), M::com(false), M::com(true)], Style::Packed),
            k => com_rack(k as usize),
        };
        let n = r.mods.iter().filter(|m| m.k == K::Com).count();
        let h: Vec<Vec<usize>> = (0..n)
            .map(|m| (0..long).map(|j| [1, 2, 0, 5, 3, 2, 6, 1, 0, 4, 2, 8, 7][(j + j / 13 * (m + 1) + m * 5 + i as usize) % 13]).collect())
            .collect();
        let ids: Vec<u8> = (0..n as u8).collect();
        let all = run(&r, &ids, &h, i >= 4)?;
        out.tick();
        let coms: Vec<usize> = (0..r.mods.len()).filter(|m| r.mods[*m].k == K::Com).collect();
        for k in 0..n {
            let one = Rack::new(vec![r.mods[coms[k]].clone()], Style::Packed);
            let alone = run(&one, &ids[k..=k], &h[k..=k], false)?.remove(0);
            out.tick();
            if let Some(c) = (0..long).find(|c| all[k][*c] != alone[*c]) {
                fail!(
                    "{}\ncycle {c} of a long session: the serial module at {} behaves differently\n  in this rack: {}\n  as the only serial module: {}\nits last actions were {:?}",
                    r.describe(),
                    coms[k],
                    all[k][c],
                    alone[c],
                    h[k][c.saturating_sub(15)..=c].iter().map(|a| act_name(*a)).collect::<Vec<_>>()
                );
            }
        }
        out.eval(true);
        out.transitions += (long * (n + 1)) as u64;
        out.traces += 1 + n as u64;
        Ok(())
    }));
    // any number of them, all in operation, each against its session alone
    let shift = t.pick(2u64, 12);
    v.push(family("any number of serial modules in operation", 64 * 18 * shift, move |i, out| {
        let (n, i) = ((i % 64) as usize + 1, (i / 64) as usize);
        let (mix, s) = (i % 18, i / 18 * 5);
        let rack = fleet_rack(n, mix);
        let ids: Vec<usize> = (0..n).map(|k| k * 7 + s).collect();
        let all = fleet(&rack, &ids)?;
        let coms: Vec<usize> = (0..n).filter(|m| rack.mods[*m].k == K::Com).collect();
        for (k, at) in coms.iter().enumerate() {
            let alone = fleet(&Rack::new(vec![rack.mods[*at].clone()], Style::Packed), &[ids[*at]])?;
            if all[k] != alone[0] {
                let c = (0..FLEET_CYCLES).find(|c| all[k].frames[*c] != alone[0].frames[*c] || all[k].reports[*c] != alone[0].reports[*c]);
                fail!(
                    "{}\nserial module at {at} (fleet in com.rs, ids {ids:?}): read {:02x?}, alone {:02x?}; first different cycle {c:?}: {:02x?}, alone {:02x?}",
                    rack.describe(),
                    all[k].read,
                    alone[0].read,
                    c.map(|c| (&all[k].frames[c], &all[k].reports[c])),
                    c.map(|c| (&alone[0].frames[c], &alone[0].reports[c]))
                );
            }
            out.eval(coms.len() > 1);
            out.transitions += 2 * FLEET_CYCLES as u64;
            out.tick();
        }
        out.traces += 1;
        out.state(&(n, mix, s));
        Ok(())
    }));
    // who has a reader and a writer
    v.push(family("readers and writers", 19 * 19 * 19, move |i, out| {
        let ix = digits(i, 19, 3);
        let r = Rack::new(ix.iter().map(|s| M::shape(*s, 0)).collect(), Style::Packed);
        let mut c = r.coupler()?;
        for cycles in 0..2 {
            for m in 0..5 {
                let is = m < 3 && r.mods[m].k == K::Com;
                let (rd, wr) = (c.reader(m).is_some(), c.writer(m).is_some());
                ensure!(
                    rd == is && wr == is,
                    "{}\nafter {cycles} cycles position {m}: reader {rd}, writer {wr}",
                    r.describe()
                );
            }
            // far away positions that look alike in fewer bits
            for m in far_positions(3) {
                ensure!(
                    c.reader(m).is_none() && c.writer(m).is_none(),
                    "{}\nposition {m:#x} has a reader or writer",
                    r.describe()
                );
            }
            let z = c.next(&vec![0; r.in_regs], &vec![0; r.out_regs]);
            ensure!(z.is_ok(), "{}\ncycle on zeros failed: {z:?}", r.describe());
        }
        out.eval(r.has(K::Com));
        out.transitions += 1;
        out.state(&ix);
        Ok(())
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C11",
        level: Level::ModelChecking,
        rule: "full product of the action histories of two (three) serial modules in one rack, every module's observations compared with those of the same history run with it as the only serial module; large racks of up to 50 serial modules with two active ones; reader/writer existence at every position of all racks of three shapes. Non-trivial: at least two modules act",
        assumptions: &[],
        families,
    })
}
