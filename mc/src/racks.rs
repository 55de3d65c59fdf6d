//! Enumeration of racks and images shared by the image placement checks.

use crate::engine::{family, Family, Out, Res, Tier};
use crate::rack::*;
use crate::spec::*;
use crate::{ensure, fail};
use std::sync::Arc;
use ur20::ur20_fbc_mod_tcp::Coupler;
use ur20::{Address, ChannelValue};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Side {
    Input,
    Output,
}

/// Rack number `i` of all racks of up to `n` modules.
pub fn small_rack(mut i: u64, n: usize) -> Vec<M> {
    let s = SHAPES as u64;
    for len in 1..=n {
        let c = s.pow(len as u32);
        if i < c {
            return (0..len)
                .map(|p| {
                    let k = i % s;
                    i /= s;
                    M::shape(k as usize, p)
                })
                .collect();
        }
        i -= c;
    }
    unreachable!()
}
pub fn small_racks(n: usize) -> u64 {
    (1..=n).map(|l| (SHAPES as u64).pow(l as u32)).sum()
}

/// Image pattern `b` that every module of the rack accepts.
pub fn base_image(rack: &Rack, side: Side, b: usize) -> Vec<u16> {
    let regs = match side {
        Side::Input => rack.in_regs,
        Side::Output => rack.out_regs,
    };
    let mut v: Vec<u8> = (0..regs * 2)
        .map(|i| match b {
            0 => 0,
            1 => 0xFF,
            2 => (i * 37 + 11) as u8,
            3 => !(i * 37 + 11) as u8,
            4 => (i * 101 + 7 * (i / 3) + 90) as u8,
            n => (i * (2 * n + 1) + n * n) as u8,
        })
        .collect();
    make_valid(rack, side, &mut v, b);
    to_regs(&v)
}

/// Repair serial length bytes and counter presets so that the image is usable.
pub fn make_valid(rack: &Rack, side: Side, v: &mut [u8], b: usize) {
    for (m, md) in rack.mods.iter().enumerate() {
        let at = match side {
            Side::Input => rack.inp[m],
            Side::Output => rack.out[m],
        };
        let Some(at) = at else { continue };
        if md.k == K::Com {
            let max = md.com_len() - 2;
            v[at + 1] = match b {
                0 => 0,
                1 => max as u8,
                n => ((n * 3 + m) % (max + 1)) as u8,
            };
        }
        if md.k == K::Fcnt && side == Side::Output {
            for ch in 0..2 {
                v[at + 4 * ch] &= 0x7F;
                v[at + 4 * ch + 1] = 0;
            }
        }
    }
}

/// `f` with copies of two images that are in the same place every time.
pub fn in_place<R>(i: &[u16], o: &[u16], f: impl FnOnce(&[u16], &[u16]) -> R) -> R {
    thread_local! {
        static PLACE: std::cell::RefCell<[Vec<u16>; 2]> = const { std::cell::RefCell::new([Vec::new(), Vec::new()]) };
    }
    PLACE.with(|p| {
        let mut p = p.borrow_mut();
        for (p, d) in p.iter_mut().zip([i, o]) {
            p.clear();
            p.reserve(2048);
            p.extend_from_slice(d);
        }
        f(&p[0], &p[1])
    })
}

pub struct Sim {
    pub rack: Rack,
    pub c: Coupler,
    pub r: Ref,
    pub side: Side,
    /// compare everything, not only what belongs to `side`
    pub both: bool,
    pub n: u64,
    /// take the images from where all couplers of this thread find theirs
    pub in_place: bool,
}

impl Sim {
    pub fn new(rack: &Rack, side: Side) -> Result<Sim, String> {
        Ok(Sim {
            rack: rack.clone(),
            c: rack.coupler()?,
            r: Ref::new(rack),
            side,
            both: false,
            n: 0,
            in_place: false,
        })
    }
    /// One cycle against the reference, optionally with requests queued just before.
    pub fn cycle(&mut self, i: &[u16], o: &[u16], reqs: &[(Address, Req)], out: &mut Out) -> Res {
        for (a, q) in reqs {
            let v = q.value(&self.rack.mods[a.module], a.channel);
            if let Err(e) = self.c.set_output(a, v.clone()) {
                fail!(
                    "{}\nset_output({a:?}, {v:?}) was refused: {e:?}",
                    self.rack.describe()
                );
            }
        }
        self.n += 1;
        let want = self.r.cycle(i, o, |m, b| {
            for (a, q) in reqs {
                if a.module == m {
                    self.rack.mods[m].put(b, a.channel, q);
                }
            }
        });
        let got = if self.in_place { in_place(i, o, |i, o| self.c.next(i, o)) } else { self.c.next(i, o) };
        let ctx = || {
            format!(
                "{}\ncycle {} of this coupler: next(input {:04x?}, output {:04x?}) with requests {:?}",
                self.rack.describe(),
                self.n,
                i,
                o,
                reqs
            )
        };
        match (want, got) {
            (None, Err(_)) => {
                out.eval(false);
            }
            (None, Ok(_)) => fail!("{}\nwas accepted although a module cannot use its data", ctx()),
            (Some(_), Err(e)) => fail!("{}\nfailed: {e:?}", ctx()),
            (Some(w), Ok(img)) => {
                if self.side == Side::Input || self.both {
                    if !same_rack(self.c.inputs(), &w.inputs) {
                        fail!(
                            "{}\nreported inputs {:?}\nexpected        {:?}",
                            ctx(),
                            self.c.inputs(),
                            w.inputs
                        );
                    }
                }
                if self.side == Side::Output || self.both {
                    if img != w.image {
                        fail!("{}\nreturned {:04x?}\nexpected {:04x?}", ctx(), img, w.image);
                    }
                    if !same_rack(self.c.outputs(), &w.outputs) {
                        fail!(
                            "{}\nreported outputs {:?}\nexpected         {:?}",
                            ctx(),
                            self.c.outputs(),
                            w.outputs
                        );
                    }
                }
                let nt = if self.side == Side::Input {
                    i.iter().any(|w| *w != 0)
                } else {
                    o.iter().any(|w| *w != 0) || !reqs.is_empty()
                };
                out.eval(nt);
                if out.evals % 64 == 0 {
                    if self.side == Side::Input {
                        out.outcome(&format!("{:?}", self.c.inputs()));
                    } else {
                        out.outcome(&img);
                    }
                }
            }
        }
        Ok(())
    }
}

fn flip(v: &[u16], bit: usize) -> Vec<u16> {
    let mut v = v.to_vec();
    v[bit / 16] ^= 1 << (bit % 16);
    v
}

/// All single-bit changes of both images around each base, and for outputs
/// every request of every channel.
pub fn exercise(rack: &Rack, side: Side, bases: &[usize], out: &mut Out) -> Res {
    let mut s = Sim::new(rack, side)?;
    for &b in bases {
        let i = base_image(rack, Side::Input, b);
        let o = base_image(rack, Side::Output, b);
        s.cycle(&i, &o, &[], out)?;
        // spare registers behind the modules' data
        let (mut il, mut ol) = (i.clone(), o.clone());
        il.extend([0xFFFF, 0x5A5A]);
        ol.extend([0xFFFF, 0xA5A5, 1]);
        s.cycle(&il, &ol, &[], out)?;
        let (main, other) = match side {
            Side::Input => (i.len(), o.len()),
            Side::Output => (o.len(), i.len()),
        };
        for bit in 0..main * 16 {
            match side {
                Side::Input => s.cycle(&flip(&i, bit), &o, &[], out)?,
                Side::Output => s.cycle(&i, &flip(&o, bit), &[], out)?,
            }
        }
        // the other image must not matter: one bit per byte is enough to see any mixing
        for byte in 0..other * 2 {
            let bit = byte * 8 + (byte * 5 + b) % 8;
            match side {
                Side::Input => s.cycle(&i, &flip(&o, bit), &[], out)?,
                Side::Output => s.cycle(&flip(&i, bit), &o, &[], out)?,
            }
        }
        if side == Side::Output {
            for (m, md) in rack.mods.iter().enumerate() {
                for ch in 0..md.k.channels() {
                    for q in md.reqs(ch) {
                        // only this channel's bits may differ from the held image
                        let a = Address {
                            module: m,
                            channel: ch,
                        };
                        s.cycle(&i, &o, &[(a, q)], out)?;
                    }
                }
            }
        }
    }
    out.sample(|| format!("{} bases {bases:?}: all single-bit changes", rack.describe()));
    Ok(())
}

/// Images that are easily confused with each other: rearranged registers and
/// bytes, changes that compensate each other, longer images.
pub fn similar_images(rack: &Rack, side: Side, b: usize) -> Vec<Vec<u16>> {
    let base = base_image(rack, side, b);
    let n = base.len();
    let mut v = vec![base.clone(), base_image(rack, side, 0)];
    if n == 0 {
        v.push(vec![7]);
        return v;
    }
    for k in [1, n / 2] {
        let mut r = base.clone();
        r.rotate_left(k % n);
        v.push(r);
    }
    v.push(base.iter().rev().copied().collect());
    v.push(base.iter().map(|w| w.swap_bytes()).collect());
    for (x, y) in [(0, n - 1), (n / 2, n - 1), (0, n / 2)] {
        let mut r = base.clone();
        r.swap(x, y);
        v.push(r);
        let mut r = base.clone();
        r[x] = r[x].wrapping_add(1);
        r[y] = r[y].wrapping_sub(1);
        v.push(r);
        let mut r = base.clone();
        r[x] ^= 0x0101;
        r[y] ^= 0x0101;
        v.push(r);
    }
    // only the last or the first byte differs
    for (w, x) in [(n - 1, 0x0001), (n - 1, 0x0100), (0, 0x0001), (0, 0x0100)] {
        let mut r = base.clone();
        r[w] ^= x;
        v.push(r);
    }
    let mut r = base.clone();
    r.extend([1, 2, 0xFFFF]);
    v.push(r);
    v.sort();
    v.dedup();
    v
}

/// What a cycle reports depends on its own images, not on the ones before:
/// every ordered pair of similar images of the main side, and every image
/// again with a different other side.
pub fn histories(rack: &Rack, side: Side, b: usize, out: &mut Out) -> Res {
    let mut s = Sim::new(rack, side)?;
    let ins = similar_images(rack, Side::Input, b);
    let outs = similar_images(rack, Side::Output, b);
    let (i0, o0) = (&ins[ins.len() / 2], &outs[outs.len() / 2]);
    let main = if side == Side::Input { &ins } else { &outs };
    for x in main {
        for y in main {
            for z in [x, y] {
                match side {
                    Side::Input => s.cycle(z, o0, &[], out)?,
                    Side::Output => s.cycle(i0, z, &[], out)?,
                }
            }
        }
    }
    for i in &ins {
        for o in &outs {
            s.cycle(i, o, &[], out)?;
        }
    }
    out.sample(|| format!("{}: all pairs of {} similar images", rack.describe(), main.len()));
    Ok(())
}

/// A rack of `n` modules that cycles through the shapes from `k` in steps of `step`.
pub fn long_rack(n: usize, k: usize, step: usize) -> Vec<M> {
    (0..n)
        .map(|p| M::shape((k + p * step) % SHAPES, p % 7))
        .collect()
}

/// Full racks with images of up to 640 registers: 64 modules of one shape, and
/// mixes with one-byte modules that move the others to odd bytes.
pub fn wide_racks() -> Vec<Rack> {
    let mut v = vec![];
    for s in 0..SHAPES {
        let same: Vec<M> = (0..64).map(|p| M::shape(s, p % 5)).collect();
        let mut odd = same.clone();
        let mut mixed = same.clone();
        for p in 0..64 {
            if p % 8 == 3 {
                odd[p] = M::variant(if p % 16 == 3 { K::Do8 } else { K::Di8 }, p);
            }
            if p % 3 == 1 {
                mixed[p] = M::shape((s + p) % SHAPES, p % 7);
            }
        }
        for mods in [same, odd, mixed] {
            for style in [Style::Packed, Style::WordAligned] {
                let r = Rack::new(mods.clone(), style);
                if r.in_regs.max(r.out_regs) > 200 {
                    v.push(r);
                }
            }
        }
    }
    v
}

/// One block per documented code of every parameter register of every type.
pub fn every_setting() -> Vec<M> {
    ALL.into_iter().flat_map(M::every_setting).collect()
}

/// A module with that block between two others, or (odd) alone.
pub fn setting_rack(m: &M, i: u64) -> Rack {
    let mods = match i % 4 {
        0 => vec![M::typical(K::Do4), m.clone(), M::typical(K::Di8)],
        1 => vec![m.clone()],
        2 => vec![m.clone(), M::variant(m.k, 2), M::typical(K::Do16)],
        _ => vec![M::typical(K::Ai4x16), M::typical(K::Ao4Diag), m.clone()],
    };
    Rack::new(mods, STYLES[(i % 3) as usize])
}

pub fn families(side: Side, tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let all = every_setting();
    let b: &'static [usize] = tier.pick(&[2], &[2, 0, 1, 3, 4]);
    v.push(family("every setting of every type", all.len() as u64 * 4, move |i, out| {
        exercise(&setting_rack(&all[(i / 4) as usize], i), side, b, out)
    }));
    let n2 = small_racks(2);
    let st = STYLES.len() as u64;
    v.push(family("racks of 1-2 modules, all bases", n2 * st, move |i, out| {
        let r = Rack::new(small_rack(i / st, 2), STYLES[(i % st) as usize]);
        exercise(&r, side, &[2, 0, 1, 3], out)
    }));
    let hb: &'static [usize] = tier.pick(&[2, 4], &[2, 4, 1, 3, 5]);
    v.push(family("racks of 1-2 modules, image histories", n2 * st * hb.len() as u64, move |i, out| {
        let b = hb[(i % hb.len() as u64) as usize];
        let i = i / hb.len() as u64;
        let r = Rack::new(small_rack(i / st, 2), STYLES[(i % st) as usize]);
        histories(&r, side, b, out)
    }));
    // much longer images than the modules need
    v.push(family("huge images, images in one place", n2 * st, move |i, out| {
        let r = Rack::new(small_rack(i / st, 2), STYLES[(i % st) as usize]);
        huge_images(&r, side, i as usize, out)
    }));
    let n3 = small_racks(3) - n2;
    let b3: &'static [usize] = tier.pick(&[2], &[2, 0, 1, 3, 4]);
    v.push(family("racks of 3 modules", n3 * st, move |i, out| {
        let r = Rack::new(small_rack(n2 + i / st, 3), STYLES[(i % st) as usize]);
        exercise(&r, side, b3, out)
    }));
    // long racks up to the maximum of 64 modules
    let steps: Arc<Vec<usize>> = Arc::new(tier.pick(vec![1, 5], vec![0, 1, 2, 3, 5, 7, 8]));
    let per = SHAPES as u64 * st;
    let ns: Arc<Vec<usize>> = Arc::new(tier.pick(
        vec![4, 5, 9, 17, 33, 63, 64],
        vec![4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 32, 33, 48, 63, 64],
    ));
    let total = per * steps.len() as u64 * ns.len() as u64;
    v.push(family("racks of up to 64 modules", total, move |i, out| {
        let n = ns[(i / per) as usize % ns.len()];
        let step = steps[(i / per) as usize / ns.len()];
        let k = (i % per / st) as usize;
        let r = Rack::new(long_rack(n, k, step), STYLES[(i % st) as usize]);
        // images have 0x800 registers per direction and offsets 12 bits of register
        if r.in_regs > 0x800 || r.out_regs > 0x7FF {
            return Ok(());
        }
        exercise_sparse(&r, side, out)
    }));
    let wide = wide_racks();
    v.push(family("full racks with big images", wide.len() as u64, move |i, out| {
        exercise_sparse(&wide[i as usize], side, out)
    }));
    // more cycles than any 16-bit counter counts, images changing all the time
    let per_rack = tier.pick(66_000usize, 600_000);
    v.push(family("long sessions", SHAPES as u64 + 5, move |i, out| {
        let k = i as usize;
        let mods = if k < SHAPES {
            vec![M::shape(k, 1)]
        } else {
            (0..2 + k % 3).map(|p| M::shape((k * 7 + p * 5) % SHAPES, p)).collect()
        };
        let r = Rack::new(mods, STYLES[k % 3]);
        let per_rack = if k < SHAPES { per_rack } else { per_rack / 2 };
        session(&r, side, per_rack, out)
    }));
    if side == Side::Input {
        let n = tier.pick(2, 3);
        v.push(family(
            "inputs placed in reverse order",
            small_racks(n) * st,
            move |i, out| {
                let style = STYLES[(i % st) as usize];
                let r = Rack::new(small_rack(i / st, n), style).with_reversed_inputs(style);
                exercise(&r, side, &[2], out)
            },
        ));
    }
    if tier == Tier::Thorough {
        // four modules of one representative per distinct layout
        let reps = [0usize, 2, 5, 7, 9, 13, 15, 16, 17, 18];
        let n4 = 10u64.pow(4);
        v.push(family(
            "racks of 4 modules, one per layout",
            n4 * st,
            move |i, out| {
                let mut x = i / st;
                let mods = (0..4)
                    .map(|p| {
                        let k = reps[(x % 10) as usize];
                        x /= 10;
                        M::shape(k, p)
                    })
                    .collect();
                let r = Rack::new(mods, STYLES[(i % st) as usize]);
                exercise(&r, side, &[2, 1], out)
            },
        ));
    }
    v
}

/// Images of lengths that look short when only some of their bits are kept.
pub fn huge_images(rack: &Rack, side: Side, i: usize, out: &mut Out) -> Res {
    let mut s = Sim::new(rack, side)?;
    let (bi, bo) = (base_image(rack, Side::Input, 2), base_image(rack, Side::Output, 2));
    // one slice, or overlapping ones, for both images
    for n in 0..4 {
        for b in [base_image(rack, Side::Input, n), base_image(rack, Side::Output, n)] {
            let mut x = b;
            x.resize(bi.len().max(bo.len()), 0x2211);
            s.cycle(&x, &x, &[], out)?;
            s.cycle(&bi, &bo, &[], out)?;
            s.cycle(&x[..bi.len()], &x[..bo.len()], &[], out)?;
            let mut y = bi.clone();
            y.extend_from_slice(&bo);
            s.cycle(&y, &y[bi.len()..], &[], out)?;
        }
    }
    let mut lens = wrapped_lengths(bi.len());
    lens.extend(wrapped_lengths(bo.len()));
    for l in lens {
        let long = |b: &[u16], fill: u16| {
            let mut v = b.to_vec();
            v.resize(l.max(b.len()), fill);
            v
        };
        let fill = [0, 0xFFFF, 0x5AA5][(i + l) % 3];
        let (li, lo) = (long(&bi, fill), long(&bo, !fill));
        match i % 3 {
            0 => s.cycle(&li, &bo, &[], out)?,
            1 => s.cycle(&bi, &lo, &[], out)?,
            _ => s.cycle(&li, &lo, &[], out)?,
        }
    }
    Ok(())
}

/// Long racks: every byte changed once, every channel requested once, all at once.
pub fn exercise_sparse(rack: &Rack, side: Side, out: &mut Out) -> Res {
    let mut s = Sim::new(rack, side)?;
    let i = base_image(rack, Side::Input, 2);
    let o = base_image(rack, Side::Output, 2);
    for b in [2, 0, 1, 4] {
        s.cycle(
            &base_image(rack, Side::Input, b),
            &base_image(rack, Side::Output, b),
            &[],
            out,
        )?;
    }
    let n = match side {
        Side::Input => i.len(),
        Side::Output => o.len(),
    };
    for byte in 0..n * 2 {
        let bit = byte * 8 + (byte * 3) % 8;
        match side {
            Side::Input => s.cycle(&flip(&i, bit), &o, &[], out)?,
            Side::Output => s.cycle(&i, &flip(&o, bit), &[], out)?,
        }
    }
    if side == Side::Output {
        let mut all = vec![];
        for (m, md) in rack.mods.iter().enumerate() {
            for ch in 0..md.k.channels() {
                if let Some(q) = md.reqs(ch).into_iter().next() {
                    let a = Address {
                        module: m,
                        channel: ch,
                    };
                    s.cycle(&i, &o, &[(a, q.clone())], out)?;
                    all.push((a, q));
                }
            }
        }
        s.cycle(&i, &o, &all, out)?;
        s.cycle(&i, &o, &[], out)?;
    }
    out.sample(|| format!("rack of {} modules, {} + {} registers", rack.mods.len(), rack.in_regs, rack.out_regs));
    Ok(())
}

/// A session of `n` cycles; the same few images come back in changing company,
/// requests are made now and then.
pub fn session(rack: &Rack, side: Side, n: usize, out: &mut Out) -> Res {
    let ins: Vec<_> = (0..7).map(|b| base_image(rack, Side::Input, b)).collect();
    let outs: Vec<_> = (0..5).map(|b| base_image(rack, Side::Output, b)).collect();
    let mut reqs = vec![];
    for (m, md) in rack.mods.iter().enumerate() {
        for ch in 0..md.k.channels() {
            for q in md.reqs(ch) {
                reqs.push((
                    Address {
                        module: m,
                        channel: ch,
                    },
                    q,
                ));
            }
        }
    }
    let mut s = Sim::new(rack, side)?;
    for j in 0..n {
        let (i, o) = (&ins[(j + j / 350) % ins.len()], &outs[(j + j / 70) % outs.len()]);
        if !reqs.is_empty() && j % 3 == 0 {
            let r = reqs[(j / 3) % reqs.len()].clone();
            s.cycle(i, o, &[r], out)?;
        } else {
            s.cycle(i, o, &[], out)?;
        }
        if j % 1024 == 0 {
            out.tick();
        }
    }
    out.sample(|| format!("{}: {n} cycles", rack.describe()));
    Ok(())
}

/// A module without inputs reports 'no value' once per channel before and after a cycle.
pub fn no_input_modules(out: &mut Out) -> Res {
    for i in 0..SHAPES {
        let m = M::shape(i, 0);
        if m.in_len() > 0 {
            continue;
        }
        let r = Rack::new(vec![m.clone()], Style::Packed);
        let mut c = r.coupler()?;
        let o = base_image(&r, Side::Output, 2);
        c.next(&[], &o).map_err(|e| format!("{}: {e:?}", r.describe()))?;
        let want = vec![ChannelValue::None; m.k.channels()];
        ensure!(
            c.inputs() == &vec![want],
            "{}: inputs {:?}",
            r.describe(),
            c.inputs()
        );
        out.eval(true);
    }
    Ok(())
}
