//! Held outputs: complete value domains fed through Coupler::next.
use mc::engine::*;
use mc::rack::*;
use mc::racks::*;
use mc::spec::*;
use mc::{ensure, fail};
use ur20::ur20_fbc_mod_tcp::Coupler;

struct Held {
    rack: Rack,
    c: Coupler,
    at: usize,
    img: Vec<u8>,
    inp: Vec<u16>,
}

impl Held {
    /// The module alone, or behind a one-byte module in the high byte.
    fn new(m: M, odd: bool) -> Result<Held, String> {
        let mods = if odd {
            vec![M::typical(K::Do8), m]
        } else {
            vec![m]
        };
        let at = mods.len() - 1;
        let rack = Rack::new(mods, Style::Packed);
        let c = rack.coupler()?;
        let img = vec![0; rack.out_regs * 2];
        let inp = vec![0; rack.in_regs];
        Ok(Held {
            rack,
            c,
            at,
            img,
            inp,
        })
    }
    /// Put the bytes into the image, run a cycle and compare with what must be held.
    fn run(&mut self, bytes: &[u8], out: &mut Out) -> Res {
        let b = self.rack.out[self.at].unwrap();
        self.img[b..b + bytes.len()].copy_from_slice(bytes);
        let img = to_regs(&self.img);
        let got = self.c.next(&self.inp, &img);
        let want = self.rack.mods[self.at].hold(bytes);
        match (got, want) {
            (Ok(g), Some(w)) => {
                self.img[b..b + bytes.len()].copy_from_slice(&w);
                let exp = to_regs(&self.img);
                ensure!(
                    g == exp,
                    "{}\nnext(zeros, {img:04x?}) with nothing queued returned {g:04x?}, expected {exp:04x?}",
                    self.rack.describe()
                );
                out.eval(w.iter().any(|x| *x != 0));
                if out.evals % 512 == 0 {
                    out.outcome(&g);
                }
                Ok(())
            }
            (Err(_), None) => {
                out.eval(false);
                Ok(())
            }
            (g, w) => fail!(
                "{}\nnext(zeros, {img:04x?}) with nothing queued returned {g:?}, expected {w:02x?}",
                self.rack.describe()
            ),
        }
    }
}

fn ao_params(k: K, ch: usize, f: u16, r: u16) -> Vec<u16> {
    let mut m = M::variant(k, usize::from(f + r) + ch);
    let n = if k == K::Ao4 { 3 } else { 4 };
    m.p[n * ch] = f;
    m.p[n * ch + 1] = r;
    m.p
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // analogue: kind x odd x channel x format x range, every raw value
    v.push(family("analogue: every raw value", 2 * 2 * 4 * 2 * 9, |i, out| {
        let k = [K::Ao4, K::Ao4Diag][(i % 2) as usize];
        let odd = i / 2 % 2 == 1;
        let ch = (i / 4 % 4) as usize;
        let (f, r) = ((i / 16 % 2) as u16, (i / 32) as u16);
        let mut h = Held::new(M::new(k, &ao_params(k, ch, f, r)), odd)?;
        for raw in 0..=0xFFFFu16 {
            let mut b = [0u8; 8];
            for c in 0..4 {
                let x = if c == ch {
                    raw
                } else {
                    raw.wrapping_mul(2 * c as u16 + 3).wrapping_add(c as u16 * 999)
                };
                b[2 * c..2 * c + 2].copy_from_slice(&x.to_le_bytes());
            }
            h.run(&b, out)?;
        }
        out.sample(|| format!("{} channel {ch}: raw 0..=65535 held", h.rack.describe()));
        Ok(())
    }));
    // feedback: the returned image is the next input image
    let reps = t.pick(200usize, 5000);
    v.push(family("analogue: repeated feedback", 2 * 2 * 9 * 32, move |i, out| {
        let k = [K::Ao4, K::Ao4Diag][(i % 2) as usize];
        let (f, r) = ((i / 2 % 2) as u16, (i / 4 % 9) as u16);
        let blk = i / 36;
        let mut p = vec![];
        for ch in 0..4 {
            p = ao_params(k, ch, f, r);
        }
        let n = if k == K::Ao4 { 3 } else { 4 };
        for ch in 0..4 {
            p[n * ch] = f;
            p[n * ch + 1] = r;
        }
        let rack = Rack::new(vec![M::new(k, &p)], Style::Packed);
        let mut c = rack.coupler()?;
        let seeds: Vec<u16> = (0..4).map(|j| (blk as u16 * 2048).wrapping_add(j * 511 + 1)).collect();
        let first = c.next(&[], &seeds).map_err(|e| format!("{}: {e:?}", rack.describe()))?;
        let mut img = first.clone();
        for n in 0..reps {
            img = c.next(&[], &img).map_err(|e| format!("{}: {e:?}", rack.describe()))?;
            ensure!(
                img == first,
                "{}\nstarting at {seeds:04x?}, the fed back image drifted to {img:04x?} (first {first:04x?}) in cycle {n}",
                rack.describe()
            );
            out.eval(true);
        }
        Ok(())
    }));
    v.push(family("digital: every register content", 5 * 3, |i, out| {
        let k = [K::Do4, K::Do4x2A, K::Do8, K::Do16, K::Ro4][(i % 5) as usize];
        let m = M::typical(k);
        match i / 5 {
            0 | 1 => {
                let odd = i / 5 == 1;
                let mut h = Held::new(m.clone(), odd)?;
                for w in 0..=0xFFFFu16 {
                    h.run(&w.to_le_bytes()[..m.out_len()], out)?;
                }
            }
            _ => {
                // reserved high byte of a single-byte module with a register of its own
                let r = Rack::new(vec![m.clone(), M::typical(K::Do16)], Style::WordAligned);
                let mut c = r.coupler()?;
                for w in 0..=0xFFFFu16 {
                    let img = [w, !w];
                    let g = c.next(&[], &img).map_err(|e| format!("{e:?}"))?;
                    let mut b = w.to_le_bytes().to_vec();
                    b.truncate(m.out_len());
                    let mut b = m.hold(&b).unwrap();
                    b.resize(2, 0);
                    let want = vec![u16::from(b[0]) | u16::from(b[1]) << 8, !w];
                    ensure!(g == want, "{}\nnext(zeros, {img:04x?}) returned {g:04x?}, expected {want:04x?}", r.describe());
                    out.eval(w != 0);
                }
            }
        }
        Ok(())
    }));
    // counter presets: every representable preset, all four command bit combinations
    let hi = t.pick(0x84u64, 0x100);
    v.push(family("counter: every preset and command", 2 * hi, move |i, out| {
        let ch = (i % 2) as usize;
        let hi = (i / 2) as u16;
        let m = M::variant(K::Fcnt, hi as usize % 5);
        let mut h = Held::new(m, hi % 2 == 1)?;
        for lo in 0..=0xFFFFu16 {
            let mut b = [0u8; 12];
            let o = 1 - ch;
            b[4 * ch..4 * ch + 2].copy_from_slice(&hi.to_le_bytes());
            b[4 * ch + 2..4 * ch + 4].copy_from_slice(&lo.to_le_bytes());
            b[4 * o..4 * o + 2].copy_from_slice(&(lo & 0x7F).to_le_bytes());
            b[4 * o + 2..4 * o + 4].copy_from_slice(&(lo ^ hi).to_le_bytes());
            b[9 + 2 * ch] = (lo % 4) as u8;
            b[8 + 2 * ch] = (lo >> 2) as u8;
            b[9 + 2 * o] = (lo >> 3) as u8;
            h.run(&b, out)?;
        }
        Ok(())
    }));
    v.push(family("counter: every control register", 2, |ch, out| {
        let ch = ch as usize;
        let mut h = Held::new(M::typical(K::Fcnt), false)?;
        for c in 0..=0xFFFFu16 {
            let mut b = [0x11u8, 0, 0x34, 0x12, 0x22, 0, 0x78, 0x56, 0, 1, 0, 2];
            b[8 + 2 * ch..10 + 2 * ch].copy_from_slice(&c.to_le_bytes());
            h.run(&b, out)?;
        }
        Ok(())
    }));
    // whole racks, fed back
    let n = t.pick(2usize, 3);
    let cyc = t.pick(40usize, 60);
    let total = small_racks(n);
    v.push(family("racks: held image is a fixed point", total * 3, move |i, out| {
        let rack = Rack::new(small_rack(i / 3, n), STYLES[(i % 3) as usize]);
        for b in [2usize, 3, 4] {
            let inp = base_image(&rack, Side::Input, b);
            let mut s = Sim::new(&rack, Side::Output)?;
            let mut img = base_image(&rack, Side::Output, b);
            for _ in 0..cyc {
                s.cycle(&inp, &img, &[], out)?;
                // the reference agreed with the image; take it for the next cycle
                let ob = to_bytes(&img);
                let mut nb = vec![0u8; rack.out_regs * 2];
                for m in 0..rack.mods.len() {
                    let Some(at) = rack.out[m] else { continue };
                    let cur = rack.out_bytes(m, &ob);
                    let held = if rack.mods[m].k == K::Com {
                        cur.to_vec()
                    } else {
                        rack.mods[m].hold(cur).unwrap()
                    };
                    nb[at..at + held.len()].copy_from_slice(&held);
                }
                img = to_regs(&nb);
            }
        }
        Ok(())
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C03",
        level: Level::Exploration,
        rule: "one execution = one Coupler::next with nothing queued; the returned image is compared with the given one (reserved bits and disabled channels zero); every raw value of every channel, format and range, every digital register content, every counter preset; non-trivial = some held byte is not zero",
        assumptions: &["one channel takes all 65536 values while the other channels of the module take values derived from it"],
        families,
    })
}
