//! Queued outputs: every short sequence of requests and cycles.
use mc::engine::*;
use mc::hist::digits;
use mc::rack::*;
use mc::racks::*;
use mc::spec::*;
use mc::{ensure, fail};
use ur20::ur20_fbc_mod_tcp::Coupler;
use ur20::{Address, ChannelValue};

const OUTS: [K; 8] = [
    K::Do4,
    K::Do4x2A,
    K::Do8,
    K::Do16,
    K::Ro4,
    K::Ao4,
    K::Ao4Diag,
    K::Fcnt,
];

struct S {
    rack: Rack,
    c: Coupler,
    pending: Vec<(Address, Req)>,
    img: Vec<u16>,
    bases: Vec<Vec<u16>>,
    log: Vec<String>,
    n: usize,
}

impl S {
    fn new(rack: &Rack) -> Result<S, String> {
        Ok(S {
            c: rack.coupler()?,
            pending: vec![],
            img: base_image(rack, Side::Output, 0),
            bases: (2..5).map(|b| base_image(rack, Side::Output, b)).collect(),
            rack: rack.clone(),
            log: vec![],
            n: 0,
        })
    }
    fn set(&mut self, a: Address, q: &Req) -> Res {
        let v = q.value(&self.rack.mods[a.module], a.channel);
        self.log.push(format!("set_output({a:?}, {v:?})"));
        ensure!(
            self.c.set_output(&a, v).is_ok(),
            "{}\n{}\nwas refused",
            self.rack.describe(),
            self.log.join("\n")
        );
        self.pending.push((a, q.clone()));
        Ok(())
    }
    fn set_bytes(&mut self, m: usize, n: usize) -> Res {
        let a = Address {
            module: m,
            channel: 0,
        };
        self.log.push(format!("set_output({a:?}, Bytes(_; {n}))"));
        ensure!(
            self.c.set_output(&a, ChannelValue::Bytes(vec![7; n])).is_ok(),
            "{}\n{}\nwas refused",
            self.rack.describe(),
            self.log.join("\n")
        );
        Ok(())
    }
    /// A usable cycle with the previous image or another one.
    fn cycle(&mut self, fresh: bool, out: &mut Out) -> Res {
        let rack = &self.rack;
        let mut o = to_bytes(&self.img);
        let last = o.clone();
        if fresh {
            o = to_bytes(&self.bases[self.n % 3]);
        }
        self.n += 1;
        let mut i = vec![0u8; rack.in_regs * 2];
        for (m, md) in rack.mods.iter().enumerate() {
            if md.k == K::Com {
                // the device keeps its own frame and acknowledges at once
                let (a, b) = (rack.inp[m].unwrap(), rack.out[m].unwrap());
                o[b..b + md.com_len()].copy_from_slice(&last[b..b + md.com_len()]);
                i[a] = (last[b] >> 3 & 3) << 5 | 0x80;
            }
        }
        let (i, o) = (to_regs(&i), to_regs(&o));
        self.log.push(format!("next({i:04x?}, {o:04x?})"));
        let got = match self.c.next(&i, &o) {
            Ok(g) => g,
            Err(e) => fail!("{}\n{}\nfailed: {e:?}", rack.describe(), self.log.join("\n")),
        };
        let ob = to_bytes(&o);
        let mut want = to_bytes(&got);
        ensure!(
            want.len() == rack.out_regs * 2,
            "{}\n{}\nreturned {} registers, expected {}",
            rack.describe(),
            self.log.join("\n"),
            got.len(),
            rack.out_regs
        );
        for (m, md) in rack.mods.iter().enumerate() {
            if md.k == K::Com {
                continue;
            }
            let Some(at) = rack.out[m] else { continue };
            let mut h = md.hold(rack.out_bytes(m, &ob)).unwrap();
            for (a, q) in &self.pending {
                if a.module == m {
                    md.put(&mut h, a.channel, q);
                }
            }
            want[at..at + h.len()].copy_from_slice(&h);
        }
        let want = to_regs(&want);
        ensure!(
            got == want,
            "{}\n{}\nreturned {got:04x?}\nexpected {want:04x?} (requests pending for this cycle: {:?})",
            rack.describe(),
            self.log.join("\n"),
            self.pending
        );
        out.state(&(&rack.offsets(), &self.pending, &got));
        self.pending.clear();
        self.img = got;
        Ok(())
    }
}

/// Output channels of a rack.
fn channels(rack: &Rack) -> Vec<Address> {
    let mut v = vec![];
    for (m, md) in rack.mods.iter().enumerate() {
        if md.k.is_output() {
            for channel in 0..md.k.channels() {
                v.push(Address { module: m, channel });
            }
        }
    }
    v
}

/// Every sequence of `len` operations on channels a and b.
fn sequences(rack: &Rack, a: Address, b: Address, len: usize, salt: usize, out: &mut Out) -> Res {
    sequences_after(0, rack, a, b, len, salt, out)
}

/// The same after so many cycles, with serial data being sent.
fn sequences_after(
    warm: usize,
    rack: &Rack,
    a: Address,
    b: Address,
    len: usize,
    salt: usize,
    out: &mut Out,
) -> Res {
    let qa = rack.mods[a.module].reqs(a.channel);
    let qb = rack.mods[b.module].reqs(b.channel);
    let q1 = qa[salt % qa.len()].clone();
    let q2 = qa[(salt + 1 + salt / 3 % (qa.len() - 1)) % qa.len()].clone();
    let q3 = qb[(salt / 2) % qb.len()].clone();
    let com = rack.mods.iter().position(|m| m.k == K::Com);
    let nops = if com.is_some() { 6 } else { 5 };
    for i in 0..(nops as u64).pow(len as u32) {
        let mut s = S::new(rack)?;
        for w in 0..warm {
            s.cycle(w % 2 == 1, out)?;
            if w == 1 && com.is_some() {
                s.set_bytes(com.unwrap(), 40)?;
            }
        }
        for d in digits(i, nops, len) {
            match d {
                0 => s.set(a, &q1)?,
                1 => s.set(a, &q2)?,
                2 => s.set(b, &q3)?,
                3 => s.cycle(false, out)?,
                4 => s.cycle(true, out)?,
                _ => s.set_bytes(com.unwrap(), 3)?,
            }
            out.transitions += 1;
        }
        // whatever is queued takes effect now, and never again
        s.cycle(true, out)?;
        s.cycle(false, out)?;
        s.cycle(true, out)?;
        out.transitions += 3;
        out.traces += 1;
        out.eval(true);
        if i == 777 {
            out.sample(|| format!("{}: {}", rack.describe(), s.log.join("; ")));
        }
    }
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let len = t.pick(4, 5);
    v.push(family(
        "two output modules: all channel pairs, all sequences",
        64 * 16,
        move |i, out| {
            let (x, y) = (OUTS[(i % 8) as usize], OUTS[(i / 8 % 8) as usize]);
            let ch = (i / 64) as usize;
            let rack = Rack::new(vec![M::typical(x), M::variant(y, 1)], Style::Packed);
            if ch >= x.channels() {
                return Ok(());
            }
            let a = Address {
                module: 0,
                channel: ch,
            };
            for (j, b) in channels(&rack).into_iter().enumerate() {
                if b != a {
                    sequences(&rack, a, b, len, j + ch, out)?;
                }
            }
            Ok(())
        },
    ));
    let len2 = t.pick(6, 7);
    v.push(family(
        "one channel per module: longer sequences",
        64 * 2,
        move |i, out| {
            let (x, y) = (OUTS[(i % 8) as usize], OUTS[(i / 8 % 8) as usize]);
            let rack = Rack::new(vec![M::typical(y), M::typical(x)], Style::MultiAligned);
            let a = Address {
                module: 1,
                channel: if i < 64 { 0 } else { x.channels() - 1 },
            };
            let b = Address {
                module: 0,
                channel: y.channels() - 1,
            };
            sequences(&rack, a, b, len2, i as usize, out)
        },
    ));
    let len3 = t.pick(4, 5);
    v.push(family(
        "next to a serial module with requests of its own",
        8 * 8 * 3,
        move |i, out| {
            let (x, y) = (OUTS[(i % 8) as usize], OUTS[(i / 8 % 8) as usize]);
            let pos = (i / 64) as usize;
            let mut mods = vec![M::typical(x), M::typical(y)];
            mods.insert(pos, M::com(i % 2 == 0));
            let rack = Rack::new(mods, Style::Packed);
            let ch = channels(&rack);
            let a = ch[0];
            let b = *ch.last().unwrap();
            sequences(&rack, a, b, len3, i as usize, out)?;
            sequences(&rack, b, a, len3, i as usize + 1, out)?;
            sequences_after(4, &rack, a, b, len3 - 1, i as usize + 2, out)
        },
    ));
    // all permutations of 5 requests (two of them for the same channel)
    v.push(family("requests in any order", 8 * 8, |i, out| {
        let (x, y) = (OUTS[(i % 8) as usize], OUTS[(i / 8) as usize]);
        let rack = Rack::new(vec![M::typical(x), M::typical(K::Di4), M::typical(y)], Style::Packed);
        let ch = channels(&rack);
        let picks: Vec<(Address, usize)> = vec![
            (ch[0], 0),
            (ch[1], 1),
            (ch[ch.len() - 1], 0),
            (ch[ch.len() - 2], 0),
            (ch[0], 1),
        ];
        for p in permutations(5) {
            let mut s = S::new(&rack)?;
            s.cycle(true, out)?;
            for j in p {
                let (a, q) = picks[j];
                let q = rack.mods[a.module].reqs(a.channel)[q].clone();
                s.set(a, &q)?;
            }
            s.cycle(true, out)?;
            s.cycle(true, out)?;
            out.transitions += 8;
            out.traces += 1;
            out.eval(true);
        }
        Ok(())
    }));
    // so many requests before one cycle, and so many cycles
    let many = t.pick(66_000usize, 600_000);
    v.push(family("very many requests and cycles", 64, move |i, out| {
        let (x, y) = (OUTS[(i % 8) as usize], OUTS[(i / 8) as usize]);
        let rack = Rack::new(vec![M::typical(x), M::com(true), M::variant(y, 2)], STYLES[(i % 3) as usize]);
        let ch = channels(&rack);
        let mut s = S::new(&rack)?;
        let reqs: Vec<(Address, Req)> = ch
            .iter()
            .flat_map(|a| rack.mods[a.module].reqs(a.channel).into_iter().map(|q| (*a, q)))
            .collect();
        for n in [255, 256, 257, if i % 9 == 0 { many } else { 1000 }] {
            for j in 0..n {
                let (a, q) = &reqs[(j * 3 + j / reqs.len()) % reqs.len()];
                s.set(*a, q)?;
                // only the latest request for a channel matters
                let k = s.pending.len() - 1;
                if let Some(old) = s.pending[..k].iter().position(|p| p.0 == *a) {
                    s.pending.remove(old);
                }
                s.log.clear();
                out.transitions += 1;
            }
            s.cycle(true, out)?;
            s.cycle(false, out)?;
            out.tick();
        }
        for j in 0..many / if i % 9 == 0 { 1 } else { 16 } {
            let (a, q) = &reqs[(j * 5 + j / reqs.len()) % reqs.len()];
            if j % 4 != 3 {
                s.set(*a, q)?;
            }
            s.cycle(j % 2 == 0, out)?;
            s.log.clear();
            out.transitions += 2;
            if j % 1024 == 0 {
                out.tick();
            }
        }
        out.traces += 1;
        out.eval(true);
        Ok(())
    }));
    // every value request of every channel, alone and together
    let reps = t.pick(8, 64);
    v.push(family("all channels of a big rack at once", reps * 8, move |i, out| {
        let mut mods: Vec<M> = (0..t.pick(16, 40))
            .map(|j| M::variant(OUTS[(i as usize + j) % 8], j % 5))
            .collect();
        mods.insert(3, M::com(i % 2 == 0));
        mods.insert(9, M::typical(K::Pf));
        let rack = Rack::new(mods, STYLES[(i % 3) as usize]);
        let mut ch = channels(&rack);
        let n = ch.len();
        if i % 2 == 1 {
            ch.reverse();
        }
        ch.rotate_left((i as usize * 7) % n);
        let mut s = S::new(&rack)?;
        for round in 0..4 {
            for (j, a) in ch.iter().enumerate() {
                let q = rack.mods[a.module].reqs(a.channel);
                s.set(*a, &q[(j + round) % q.len()])?;
                out.transitions += 1;
            }
            s.set_bytes(3, 5)?;
            s.cycle(round % 2 == 0, out)?;
            s.cycle(true, out)?;
            out.transitions += 3;
        }
        // one by one
        for a in &ch {
            for q in rack.mods[a.module].reqs(a.channel) {
                s.set(*a, &q)?;
                s.cycle(false, out)?;
                out.transitions += 2;
            }
            s.log.clear();
        }
        out.traces += 1;
        out.eval(true);
        Ok(())
    }));
    // full racks, also with images of several hundred registers
    let wide: Vec<Rack> = wide_racks().into_iter().filter(|r| r.out_regs > 0).collect();
    v.push(family("full racks with big images", wide.len() as u64, move |i, out| {
        let rack = &wide[i as usize];
        let mut ch = channels(rack);
        ch.retain(|a| a.channel < 2 || a.channel + 1 == rack.mods[a.module].k.channels());
        let mut s = S::new(rack)?;
        for round in 0..2 {
            for (j, a) in ch.iter().enumerate() {
                let q = rack.mods[a.module].reqs(a.channel);
                s.set(*a, &q[(j + round) % q.len()])?;
                out.transitions += 1;
            }
            s.cycle(round % 2 == 0, out)?;
            s.cycle(true, out)?;
            s.log.clear();
        }
        for (j, a) in ch.iter().enumerate() {
            let q = rack.mods[a.module].reqs(a.channel);
            s.set(*a, &q[j % q.len()])?;
            s.cycle(false, out)?;
            out.transitions += 2;
            s.log.clear();
        }
        out.traces += 1;
        out.eval(true);
        Ok(())
    }));
    // settings of the modules do not matter
    let len5 = t.pick(3, 5);
    let all: Vec<M> = every_setting().into_iter().filter(|m| m.k.is_output() || m.k == K::Com).collect();
    v.push(family("every setting of every type", all.len() as u64 * 4, move |i, out| {
        let m = &all[(i / 4) as usize];
        let rack = setting_rack(m, if m.k == K::Com { i & !1 } else { i });
        let ch = channels(&rack);
        let own: Vec<_> = ch.iter().filter(|a| rack.mods[a.module] == *m).copied().collect();
        for a in own.iter().chain(if own.is_empty() { &ch[..] } else { &[] }) {
            let b = ch[(a.channel * 5 + a.module + 1) % ch.len()];
            if b != *a {
                sequences(&rack, *a, b, len5, a.channel + i as usize, out)?;
            }
        }
        Ok(())
    }));
    v
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r
}

fn main() {
    mc::engine::main(Check {
        id: "C04",
        level: Level::ModelChecking,
        rule: "every sequence of the stated length over {request v1 for a, request v2 for a, request v3 for b, cycle with the fed back image, cycle with another image (, serial request)} on the real coupler, each returned image compared with a pending-request reference; states = distinct (rack, pending requests, image), transitions = calls, traces = complete sequences",
        assumptions: &["requested analogue values are exact images of raw values, so the expected raw value is unique"],
        families,
    })
}
