//! C30: a rack is the sum of its modules. Every module of a rack is compared,
//! call by call, with a coupler that has only this module and gets the part of
//! the calls and images that concerns it.
use mc::engine::*;
use mc::ensure;
use mc::hist::{digits, session_rack};
use mc::rack::*;
use mc::racks::*;
use mc::spec::*;
use ur20::ur20_fbc_mod_tcp::Coupler;
use ur20::{Address, ChannelValue};

#[derive(Clone, Debug, PartialEq)]
enum Op {
    /// one choice per module: 0 as before, 1 other contents / a new segment,
    /// 2 a device that does not react
    Cycle(Vec<u8>),
    /// a cycle in which the data of that module cannot be used
    Bad(usize, bool),
    Set(usize, usize, Req),
    Bytes(usize, usize),
    Write(usize, usize),
    Read(usize, usize),
    /// a refused request
    BadSet(usize),
}

/// A module with its surroundings, alone in its own coupler.
struct Solo {
    m: M,
    c: Coupler,
    /// what the coupler returned last
    img: Vec<u8>,
    n: usize,
    rx: u8,
    ack: u8,
    len: usize,
    avail: bool,
}

impl Solo {
    fn new(m: &M) -> Result<Solo, String> {
        let rack = Rack::new(vec![m.clone()], Style::Packed);
        Ok(Solo {
            c: rack.coupler()?,
            img: vec![0; m.out_len()],
            m: m.clone(),
            n: 0,
            rx: 0,
            ack: 0,
            len: 0,
            avail: false,
        })
    }
    /// Input and output data of this module for the next cycle.
    fn images(&mut self, how: u8) -> (Vec<u8>, Vec<u8>) {
        self.n += 1;
        let n = self.n;
        let mut i: Vec<u8> = (0..self.m.in_len())
            .map(|j| if how == 0 { (j * 29 + 7) as u8 } else { (j * 31 + n * 53 + 1) as u8 })
            .collect();
        let mut o = self.img.clone();
        if self.m.k == K::Com {
            if how != 2 {
                self.ack = self.img[0] >> 3 & 3;
            }
            if how == 1 {
                self.rx = (self.rx + 1) % 4;
                self.avail = true;
                self.len = 1 + n * 5 % (self.m.com_len() - 2);
            }
            i.fill(0);
            i[0] = u8::from(self.avail) | self.rx << 3 | self.ack << 5 | 0x80;
            i[1] = self.len as u8;
            for j in 0..self.len {
                i[2 + j] = (usize::from(self.rx) * 60 + j + n) as u8;
            }
        } else if how == 1 {
            for (j, b) in o.iter_mut().enumerate() {
                *b = (j * 91 + n * 17 + 3) as u8;
            }
            if self.m.k == K::Fcnt {
                for ch in 0..2 {
                    o[4 * ch] &= 0x7F;
                    o[4 * ch + 1] = 0;
                }
            }
        }
        (i, o)
    }
    /// Turn usable data into unusable data; false if there is no such data.
    fn spoil(&self, input: bool, i: &mut [u8], o: &mut [u8]) -> bool {
        match self.m.k {
            K::Com if input => i[1] = (self.m.com_len() - 1) as u8,
            K::Com => o[1] = 0xFF,
            K::Fcnt if !input => o[1] = 1,
            _ => return false,
        }
        true
    }
    fn next(&mut self, i: &[u8], o: &[u8]) -> Option<Vec<u8>> {
        let mut r = to_bytes(&self.c.next(&to_regs(i), &to_regs(o)).ok()?);
        r.truncate(self.m.out_len());
        Some(r)
    }
}

fn bytes(n: usize, s: usize) -> Vec<u8> {
    (0..n).map(|j| (j * 3 + s * 40 + 1) as u8).collect()
}

fn alphabet(rack: &Rack) -> Vec<Op> {
    let n = rack.mods.len();
    let mut v = vec![];
    // usable cycles: the same for all, and one module differing
    v.push(Op::Cycle(vec![0; n]));
    v.push(Op::Cycle(vec![1; n]));
    if n > 1 {
        for m in 0..n {
            let mut c = vec![0; n];
            c[m] = 1;
            v.push(Op::Cycle(c));
        }
    }
    for (m, md) in rack.mods.iter().enumerate() {
        if md.k == K::Com {
            let mut c = vec![0; n];
            c[m] = 2;
            v.push(Op::Cycle(c));
            v.push(Op::Bytes(m, 4));
            v.push(Op::Write(m, 9));
            v.push(Op::Read(m, 5));
            v.push(Op::Bad(m, true));
        }
        if md.k == K::Fcnt {
            v.push(Op::Bad(m, false));
        }
        if md.k.is_output() {
            let last = md.k.channels() - 1;
            if md.k != K::Fcnt {
                // it would repair the unusable preset
                v.push(Op::Set(m, 0, md.reqs(0)[0].clone()));
            }
            v.push(Op::Set(m, last, md.reqs(last)[1].clone()));
            v.push(Op::BadSet(m));
        }
    }
    v
}

struct Pair<'a> {
    rack: &'a Rack,
    c: Coupler,
    solo: Vec<Solo>,
}

impl<'a> Pair<'a> {
    fn new(rack: &'a Rack) -> Result<Pair<'a>, String> {
        Ok(Pair {
            c: rack.coupler()?,
            solo: rack.mods.iter().map(Solo::new).collect::<Result<_, _>>()?,
            rack,
        })
    }
    fn image(&self, at: &[Option<usize>], regs: usize, parts: &[Vec<u8>]) -> Vec<u16> {
        let mut v = vec![0u8; regs * 2];
        for (a, p) in at.iter().zip(parts) {
            if let Some(a) = a {
                v[*a..*a + p.len()].copy_from_slice(p);
            }
        }
        to_regs(&v)
    }
    fn set(&mut self, m: usize, ch: usize, v: ChannelValue) -> Res {
        let a = Address { module: m, channel: ch };
        let b = Address { module: 0, channel: ch };
        let got = self.c.set_output(&a, v.clone());
        let want = self.solo[m].c.set_output(&b, v.clone());
        ensure!(
            got.is_ok() == want.is_ok(),
            "set_output({a:?}, {v:?}) gives {got:?}, with this module alone {want:?}"
        );
        Ok(())
    }
    fn apply(&mut self, op: &Op) -> Res {
        match op {
            Op::Set(m, ch, q) => {
                let v = q.value(&self.rack.mods[*m], *ch);
                self.set(*m, *ch, v)
            }
            Op::BadSet(m) => self.set(*m, 0, ChannelValue::None),
            Op::Bytes(m, n) => self.set(*m, 0, ChannelValue::Bytes(bytes(*n, *m))),
            Op::Write(m, n) => {
                let b = bytes(*n, m + 3);
                for (c, at) in [(&mut self.c, *m), (&mut self.solo[*m].c, 0)] {
                    let w = c.writer(at);
                    ensure!(w.is_some(), "no writer for module {m}");
                    ensure!(w.unwrap().write_all(&b).is_ok(), "module {m}: write failed");
                }
                Ok(())
            }
            Op::Read(m, n) => {
                let mut r = vec![];
                for (c, at) in [(&mut self.c, *m), (&mut self.solo[*m].c, 0)] {
                    let mut b = vec![0; *n];
                    let Some(x) = c.reader(at) else {
                        mc::fail!("no reader for module {m}")
                    };
                    match mc::com::read_full(x, &mut b) {
                        Ok(k) => b.truncate(k),
                        Err(e) => mc::fail!("module {m}: read failed: {e:?}"),
                    }
                    r.push(b);
                }
                ensure!(r[0] == r[1], "read {:02x?} from module {m}, with this module alone {:02x?}", r[0], r[1]);
                Ok(())
            }
            Op::Bad(m, input) => {
                let saved: Vec<_> = self.solo.iter().map(|s| (s.n, s.rx, s.ack, s.len, s.avail)).collect();
                let (mut i, mut o) = (vec![], vec![]);
                for s in &mut self.solo {
                    let (a, b) = s.images(1);
                    i.push(a);
                    o.push(b);
                }
                let (x, y) = (&mut i[*m], &mut o[*m]);
                ensure!(self.solo[*m].spoil(*input, x, y), "harness: cannot spoil module {m}");
                let (ii, oo) = (
                    self.image(&self.rack.inp, self.rack.in_regs, &i),
                    self.image(&self.rack.out, self.rack.out_regs, &o),
                );
                ensure!(self.c.next(&ii, &oo).is_err(), "a cycle with unusable data for module {m} succeeds");
                ensure!(self.solo[*m].next(&i[*m], &o[*m]).is_none(), "module {m} alone accepts unusable data");
                // the cycle has not taken place for anybody
                for (s, x) in self.solo.iter_mut().zip(saved) {
                    (s.n, s.rx, s.ack, s.len, s.avail) = x;
                }
                Ok(())
            }
            Op::Cycle(how) => {
                let (mut i, mut o) = (vec![], vec![]);
                for (s, h) in self.solo.iter_mut().zip(how) {
                    let (a, b) = s.images(*h);
                    i.push(a);
                    o.push(b);
                }
                let (ii, oo) = (
                    self.image(&self.rack.inp, self.rack.in_regs, &i),
                    self.image(&self.rack.out, self.rack.out_regs, &o),
                );
                let got = match self.c.next(&ii, &oo) {
                    Ok(g) => g,
                    Err(e) => mc::fail!("the cycle next({ii:04x?}, {oo:04x?}) fails: {e:?}"),
                };
                for (m, s) in self.solo.iter_mut().enumerate() {
                    match s.next(&i[m], &o[m]) {
                        Some(r) => s.img = r,
                        None => mc::fail!("module {m} alone fails with input {:02x?}, output {:02x?}", i[m], o[m]),
                    }
                }
                let parts: Vec<_> = self.solo.iter().map(|s| s.img.clone()).collect();
                let want = self.image(&self.rack.out, self.rack.out_regs, &parts);
                ensure!(
                    got == want,
                    "next({ii:04x?}, {oo:04x?}) returns {got:04x?}, the modules alone return {want:04x?}"
                );
                Ok(())
            }
        }
    }
    fn report(&self) -> Res {
        for (m, s) in self.solo.iter().enumerate() {
            for (side, all, one) in [
                ("inputs", self.c.inputs(), s.c.inputs()),
                ("outputs", self.c.outputs(), s.c.outputs()),
            ] {
                ensure!(
                    all.get(m) == one.first(),
                    "{side} of module {m}: {:?}, with this module alone {:?}",
                    all.get(m),
                    one.first()
                );
            }
        }
        Ok(())
    }
}

fn history(rack: &Rack, ops: &[&Op], out: &mut Out) -> Res {
    let mut p = Pair::new(rack)?;
    let mut moved = false;
    for (n, op) in ops.iter().enumerate() {
        p.apply(op).and_then(|_| p.report()).map_err(|e| {
            let from = if n > 200 { n - 20 } else { 0 };
            let l: Vec<String> = ops[..=n].iter().enumerate().skip(from).map(|(i, o)| format!("  {i}: {o:?}")).collect();
            format!("{}\n{}\n{e}", rack.describe(), l.join("\n"))
        })?;
        moved |= matches!(op, Op::Cycle(_));
        if n % 4096 == 4095 {
            out.tick();
        }
    }
    out.transitions += ops.len() as u64;
    out.traces += 1;
    out.state(&(p.c.inputs().len(), format!("{:?}{:?}", p.c.inputs(), p.c.outputs())));
    out.eval(moved && rack.mods.len() > 1);
    Ok(())
}

/// Bring the rack into full operation: after that serial modules have reported
/// data in both directions and have more to send and to read.
fn running(rack: &Rack, w: &[Op]) -> Vec<Op> {
    let mut v = vec![w[0].clone(), w[0].clone()];
    for (m, md) in rack.mods.iter().enumerate() {
        if md.k == K::Com {
            v.push(Op::Write(m, 20 + m % 9));
        }
    }
    v.extend([w[1].clone(), w[1].clone()]);
    v
}

fn all(rack: &Rack, warm: bool, len: usize, out: &mut Out) -> Res {
    let al = alphabet(rack);
    let w = &al[..2];
    let start = if warm { running(rack, w) } else { vec![] };
    let end: Vec<Op> = rack
        .mods
        .iter()
        .enumerate()
        .filter(|(_, m)| m.k == K::Com)
        .map(|(m, _)| Op::Read(m, 100))
        .collect();
    for h in 0..(al.len() as u64).pow(len as u32) {
        let mut ops: Vec<&Op> = start.iter().collect();
        ops.extend(digits(h, al.len(), len).into_iter().map(|d| &al[d]));
        // everything queued comes out
        ops.extend([&w[0], &w[1], &w[0]]);
        ops.extend(&end);
        history(rack, &ops, out)?;
        if h % 1024 == 0 {
            out.tick();
        }
    }
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let first = |n: usize| small_racks(n - 1);
    for (n, warm, len) in [
        (2, false, t.pick(3, 4)),
        (2, true, t.pick(3, 4)),
        (3, false, t.pick(1, 3)),
        (3, true, t.pick(2, 3)),
    ] {
        let count = small_racks(n) - first(n);
        v.push(family(
            format!("{} racks of {n} modules: all histories of {len} calls", if warm { "running" } else { "fresh" }),
            count,
            move |i, out| {
                let rack = Rack::new(small_rack(first(n) + i, n), STYLES[((i + u64::from(warm)) % 3) as usize]);
                all(&rack, warm, len, out)
            },
        ));
    }
    // long racks, every call next to every other
    let k = t.pick(8u64, 40);
    v.push(family("long racks", SHAPES as u64 * k, move |i, out| {
        let (s, j) = ((i % SHAPES as u64) as usize, (i / SHAPES as u64) as usize);
        let n = [4, 5, 7, 12, 20, 33, 50, 64][j % 8];
        let rack = Rack::new(long_rack(n, s, 1 + j % 7), STYLES[j % 3]);
        let al = alphabet(&rack);
        let start = running(&rack, &al);
        let mut ops: Vec<&Op> = start.iter().collect();
        // a walk over the alphabet with steps that meet many pairs
        for (x, a) in al.iter().enumerate() {
            ops.push(a);
            ops.push(&al[(x * (5 + j) + s) % al.len()]);
            if x % 3 == 0 {
                ops.push(&al[x / 3 % 2]);
            }
        }
        ops.extend([&al[1], &al[0]]);
        history(&rack, &ops, out)
    }));
    // every call again and again, with many cycles between
    let long = t.pick(66_000usize, 300_000);
    v.push(family("long sessions", 12, move |i, out| {
        let rack = session_rack(i as usize);
        let mut al = alphabet(&rack);
        for (m, md) in rack.mods.iter().enumerate() {
            if md.k == K::Com {
                al.push(Op::Read(m, 100));
            }
        }
        let cycles = al.iter().take_while(|o| matches!(o, Op::Cycle(_))).count();
        let mut ops = vec![];
        // more than 65 536 segments for every serial module
        let n = if rack.mods.iter().filter(|m| m.k == K::Com).count() > 1 { 6 * long } else { long };
        for j in 0..n {
            ops.push(&al[(j + j / 50) % cycles]);
            if j % 3 != 1 {
                let k = j / 3 * 2 + j % 3 / 2;
                ops.push(&al[(k + k / al.len() * 2) % al.len()]);
            }
        }
        history(&rack, &ops, out)
    }));
    let wide = wide_racks();
    v.push(family("full racks with big images", wide.len() as u64, move |i, out| {
        let rack = &wide[i as usize];
        let al = alphabet(rack);
        let start = running(rack, &al);
        let mut ops: Vec<&Op> = start.iter().collect();
        for (x, a) in al.iter().enumerate() {
            ops.push(a);
            if x % 2 == 0 {
                ops.push(&al[x / 2 % 2]);
            }
        }
        ops.extend([&al[1], &al[0], &al[0]]);
        history(rack, &ops, out)
    }));
    // any two modules anywhere in a full rack of small ones
    let reps = t.pick(2u64, 12);
    v.push(family("two modules at every pair of positions of 64", 2016 * reps, move |i, out| {
        let (mut k, j) = (i % 2016, i / 2016);
        let mut a = 0u64;
        while k >= 63 - a {
            k -= 63 - a;
            a += 1;
        }
        let b = a + 1 + k;
        let pair = (i * 7 + j) as usize;
        let mods = (0..64u64)
            .map(|p| {
                if p == a || p == b {
                    if j == 0 {
                        M::com((p + a) % 2 == 0)
                    } else {
                        M::shape(if p == a { pair % SHAPES } else { pair / SHAPES % SHAPES }, p as usize % 5)
                    }
                } else {
                    M::typical([K::Do4, K::Di4][((p + j) % 2) as usize])
                }
            })
            .collect();
        let rack = Rack::new(mods, STYLES[(i % 3) as usize]);
        let n = rack.mods.len();
        let (a, b) = (a as usize, b as usize);
        let own: Vec<Op> = alphabet(&rack)
            .into_iter()
            .filter(|o| match o {
                Op::Bytes(m, _) | Op::Write(m, _) | Op::Read(m, _) | Op::Set(m, ..) | Op::BadSet(m) | Op::Bad(m, _) => {
                    *m == a || *m == b
                }
                Op::Cycle(_) => false,
            })
            .collect();
        let cyc = |x: u8, y: u8| {
            let mut c = vec![0; n];
            (c[a], c[b]) = (x, y);
            Op::Cycle(c)
        };
        let cycles = [cyc(1, 0), cyc(0, 1), cyc(1, 1), cyc(0, 0), Op::Cycle(vec![1; n])];
        let mut ops: Vec<&Op> = vec![&cycles[3], &cycles[2], &cycles[4]];
        for (x, o) in own.iter().enumerate() {
            ops.push(o);
            ops.push(&own[(x * 2 + 1) % own.len()]);
            ops.push(&cycles[x % 5]);
        }
        ops.extend(&own);
        ops.extend(&cycles);
        history(&rack, &ops, out)
    }));
    let all = every_setting();
    let len = t.pick(2, 3);
    v.push(family("every setting of every type: all histories", all.len() as u64, move |i, out| {
        let rack = setting_rack(&all[i as usize], if i % 2 == 0 { 0 } else { 2 });
        crate::all(&rack, i % 3 != 0, len, out)
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C30",
        level: Level::ModelChecking,
        rule: "every history of the stated length over the rack's alphabet (cycles in which all modules or one module get other data, unusable data for one module, accepted and refused requests, writes, reads) on the real coupler, in lockstep with one single-module coupler per module; returned images, reports, reads and answers must agree; states = distinct reports, transitions = calls, traces = histories",
        assumptions: &["the single-module coupler is the reference: what a module does alone is decided by the other checks"],
        families,
    })
}
