//! C28: the stateless conversions of a whole rack, used without a coupler.
use mc::engine::*;
use mc::rack::*;
use mc::racks::*;
use mc::spec::*;
use mc::{ensure, fail};
use ur20::ur20_1com_232_485_422::ProcessOutput;
use ur20::ur20_fbc_mod_tcp::*;
use ur20::ChannelValue;

type Mods = Vec<Box<dyn ProcessModbusTcpData>>;

struct Conv {
    rack: Rack,
    mods: Mods,
    offs: Vec<ModuleOffset>,
}

impl Conv {
    fn new(rack: Rack) -> Result<Conv, String> {
        Ok(Conv {
            mods: rack.mods.iter().map(|m| m.make()).collect::<Result<_, _>>()?,
            offs: offsets_of_process_data(&rack.offsets()),
            rack,
        })
    }
    fn infos(&self) -> Vec<(&dyn ProcessModbusTcpData, &ModuleOffset)> {
        self.mods.iter().zip(&self.offs).map(|(m, o)| (&**m, o)).collect()
    }
    fn ctx(&self, what: &str, img: &[u16]) -> String {
        format!("{}\n{what} of {img:04x?}", self.rack.describe())
    }
    /// Bytes the encoder must produce for what these output bytes decode to.
    fn held(&self, img: &[u16]) -> Option<Vec<u8>> {
        let b = to_bytes(img);
        let mut w = vec![0; self.rack.out_regs * 2];
        for (m, md) in self.rack.mods.iter().enumerate() {
            let Some(at) = self.rack.out[m] else { continue };
            let own = self.rack.out_bytes(m, &b);
            let h = if md.k == K::Com {
                let n = usize::from(own[1]);
                let mut f = own.to_vec();
                f[2 + n..].fill(0);
                f
            } else {
                md.hold(own)?
            };
            w[at..at + h.len()].copy_from_slice(&h);
        }
        Some(w)
    }
    fn input(&self, img: &[u16], out: &mut Out) -> Res {
        let got = process_input_data(&self.infos(), img);
        match (self.rack.decode_in(img), got) {
            (Some(w), Ok(g)) => ensure!(
                same_rack(&g, &w),
                "{}\nis {g:?}, expected {w:?}",
                self.ctx("process_input_data", img)
            ),
            (None, Err(_)) => {}
            (w, g) => fail!("{}\nis {g:?}, expected {w:?}", self.ctx("process_input_data", img)),
        }
        out.eval(true);
        Ok(())
    }
    fn output(&self, img: &[u16], out: &mut Out) -> Result<Option<Vec<Vec<ChannelValue>>>, String> {
        let infos = self.infos();
        let got = process_output_data(&infos, img);
        let want = self.rack.decode_out(img);
        let vals = match (want, got) {
            (Some(w), Ok(g)) => {
                ensure!(
                    same_rack(&g, &w),
                    "{}\nis {g:?}, expected {w:?}",
                    self.ctx("process_output_data", img)
                );
                g
            }
            (None, Err(_)) => return Ok(None),
            (w, g) => fail!("{}\nis {g:?}, expected {w:?}", self.ctx("process_output_data", img)),
        };
        // and back
        let back = process_output_values(&infos, &vals);
        match (self.held(img), back) {
            (Some(w), Ok(g)) => ensure!(
                g == to_regs(&w),
                "{}\nare {vals:?}; process_output_values turns them into {g:04x?}, expected {:04x?}",
                self.ctx("the values", img),
                to_regs(&w)
            ),
            (None, Err(_)) => {}
            (w, g) => fail!(
                "{}\nare {vals:?}; process_output_values turns them into {g:04x?}, expected {w:02x?}",
                self.ctx("the values", img)
            ),
        }
        out.eval(true);
        Ok(Some(vals))
    }
    /// Every request on every channel encoded in place of the decoded value.
    fn requests(&self, img: &[u16], out: &mut Out) -> Res {
        let Some(vals) = self.output(img, out)? else { return Ok(()) };
        let Some(held) = self.held(img) else { return Ok(()) };
        let infos = self.infos();
        for (m, md) in self.rack.mods.iter().enumerate() {
            for ch in 0..md.k.channels() {
                for q in md.reqs(ch) {
                    let mut v = vals.clone();
                    v[m][ch] = q.value(md, ch);
                    let mut w = held.clone();
                    if let Some(at) = self.rack.out[m] {
                        md.put(&mut w[at..at + md.out_len()], ch, &q);
                    }
                    let g = process_output_values(&infos, &v);
                    ensure!(
                        g.as_ref().ok() == Some(&to_regs(&w)),
                        "{}\nprocess_output_values({v:?}) is {g:04x?}, expected {:04x?}",
                        self.rack.describe(),
                        to_regs(&w)
                    );
                    out.eval(true);
                }
                for bad in md.bad_reqs() {
                    if !md.k.is_output() {
                        break;
                    }
                    let mut v = vals.clone();
                    v[m][ch] = bad;
                    let g = process_output_values(&infos, &v);
                    ensure!(
                        g.is_err(),
                        "{}\nprocess_output_values({v:?}) is {g:04x?} although module {m} cannot take it",
                        self.rack.describe()
                    );
                    out.eval(true);
                }
            }
            if md.k == K::Com {
                for n in 0..=md.com_len() - 2 {
                    let mut f = ProcessOutput::default();
                    f.data = (0..n).map(|j| (j * 31 + 5) as u8).collect();
                    f.tx_cnt = n % 4;
                    f.rx_cnt_ack = (n / 2) % 4;
                    f.reset = n % 2 == 1;
                    let mut own = vec![0u8; md.com_len()];
                    own[0] = (f.tx_cnt << 3 | f.rx_cnt_ack << 5 | usize::from(f.reset) << 7) as u8;
                    own[1] = n as u8;
                    own[2..2 + n].copy_from_slice(&f.data);
                    let mut v = vals.clone();
                    v[m] = vec![ChannelValue::ComRsOut(f)];
                    let mut w = held.clone();
                    let at = self.rack.out[m].unwrap();
                    w[at..at + own.len()].copy_from_slice(&own);
                    let g = process_output_values(&infos, &v);
                    ensure!(
                        g.as_ref().ok() == Some(&to_regs(&w)),
                        "{}\nprocess_output_values({v:?}) is {g:04x?}, expected {:04x?}",
                        self.rack.describe(),
                        to_regs(&w)
                    );
                    out.eval(true);
                }
            }
        }
        Ok(())
    }
    /// All single-bit changes around the base images, and truncated and longer images.
    fn exercise(&self, bases: &[usize], out: &mut Out) -> Res {
        for &b in bases {
            for side in [Side::Input, Side::Output] {
                let base = base_image(&self.rack, side, b);
                for bit in 0..base.len() * 16 {
                    let mut x = base.clone();
                    x[bit / 16] ^= 1 << (bit % 16);
                    if side == Side::Input {
                        self.input(&x, out)?;
                    } else {
                        self.output(&x, out)?;
                    }
                }
                for l in 0..base.len() {
                    let infos = self.infos();
                    let r = if side == Side::Input {
                        process_input_data(&infos, &base[..l]).is_ok()
                    } else {
                        process_output_data(&infos, &base[..l]).is_ok()
                    };
                    ensure!(!r, "{}\nwas accepted", self.ctx("a truncated image", &base[..l]));
                    out.eval(true);
                }
                let mut x = base.clone();
                x.extend([0xFFFF, 0x1234]);
                if side == Side::Input {
                    self.input(&x, out)?;
                } else {
                    self.output(&x, out)?;
                }
            }
            self.requests(&base_image(&self.rack, Side::Output, b), out)?;
        }
        out.sample(|| self.rack.describe());
        Ok(())
    }
}

/// A rack whose modules were built with the same parameters but where only some
/// directions are placed: unplaced ones must read as 'no value' and write nothing.
fn unplaced(rack: &Rack, mask: u32, out: &mut Out) -> Res {
    let mods: Mods = rack.mods.iter().map(|m| m.make()).collect::<Result<_, _>>()?;
    let mut r = rack.clone();
    // lay out only what is placed
    let (mut ip, mut op) = (0, 0);
    for (m, md) in rack.mods.iter().enumerate() {
        r.inp[m] = None;
        r.out[m] = None;
        if mask >> (2 * m) & 1 == 1 && md.in_len() > 0 {
            r.inp[m] = Some(ip);
            ip += md.in_len();
        }
        if mask >> (2 * m + 1) & 1 == 1 && md.out_len() > 0 {
            r.out[m] = Some(op);
            op += md.out_len();
        }
    }
    r.in_regs = ip.div_ceil(2);
    r.out_regs = op.div_ceil(2);
    let offs = offsets_of_process_data(&r.offsets());
    let infos: Vec<(&dyn ProcessModbusTcpData, &ModuleOffset)> = mods.iter().zip(&offs).map(|(m, o)| (&**m, o)).collect();
    let (i, o) = (base_image(&r, Side::Input, 2), base_image(&r, Side::Output, 2));
    let gi = process_input_data(&infos, &i).map_err(|e| format!("{}\ninput {i:04x?}: {e:?}", r.describe()))?;
    let go = process_output_data(&infos, &o).map_err(|e| format!("{}\noutput {o:04x?}: {e:?}", r.describe()))?;
    let mut w = vec![0u8; r.out_regs * 2];
    let (ib, ob) = (to_bytes(&i), to_bytes(&o));
    for (m, md) in r.mods.iter().enumerate() {
        let none = vec![V::NoValue; md.k.channels()];
        let wi = if r.inp[m].is_some() { md.decode_in(r.in_bytes(m, &ib)) } else { Some(none.clone()) };
        let wo = if r.out[m].is_some() { md.decode_out(r.out_bytes(m, &ob)) } else { Some(none) };
        ensure!(
            same_all(&gi[m], wi.as_ref().unwrap()) && same_all(&go[m], wo.as_ref().unwrap()),
            "{}\ninput {i:04x?} output {o:04x?}: module {m} is {:?} and {:?}, expected {wi:?} and {wo:?}",
            r.describe(), gi[m], go[m]
        );
        if let Some(at) = r.out[m] {
            let own = r.out_bytes(m, &ob);
            let h = if md.k == K::Com {
                let mut f = own.to_vec();
                f[2 + usize::from(own[1])..].fill(0);
                f
            } else {
                md.hold(own).unwrap()
            };
            w[at..at + h.len()].copy_from_slice(&h);
        }
    }
    let back = process_output_values(&infos, &go);
    ensure!(
        back.as_ref().ok() == Some(&to_regs(&w)),
        "{}\nvalues {go:?} are encoded as {back:04x?}, expected {:04x?}", r.describe(), to_regs(&w)
    );
    out.eval(true);
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let n = t.pick(3, 4);
    v.push(family(format!("racks of up to {n} modules x placements"), small_racks(n) * 3, move |i, out| {
        let rack = Rack::new(small_rack(i / 3, n), STYLES[(i % 3) as usize]);
        Conv::new(rack)?.exercise(&[2, 1, 0, 4], out)?;
        out.outcome(&i);
        Ok(())
    }));
    v.push(family("long racks", 16 * SHAPES as u64, |i, out| {
        let n = [4, 5, 6, 7, 8, 10, 12, 16, 20, 24, 32, 40, 48, 56, 63, 64][(i % 16) as usize];
        let rack = Rack::new(long_rack(n, (i / 16) as usize, 1 + n % 6), STYLES[(i % 3) as usize]);
        let c = Conv::new(rack)?;
        for b in 0..8 {
            c.input(&base_image(&c.rack, Side::Input, b), out)?;
            c.output(&base_image(&c.rack, Side::Output, b), out)?;
        }
        c.requests(&base_image(&c.rack, Side::Output, 2), out)?;
        Ok(())
    }));
    let wide = wide_racks();
    v.push(family("full racks with big images", wide.len() as u64, move |i, out| {
        let c = Conv::new(wide[i as usize].clone())?;
        for b in 0..8 {
            c.input(&base_image(&c.rack, Side::Input, b), out)?;
            c.output(&base_image(&c.rack, Side::Output, b), out)?;
        }
        c.requests(&base_image(&c.rack, Side::Output, 2), out)
    }));
    v.push(family("huge images", small_racks(2), |i, out| {
        let c = Conv::new(Rack::new(small_rack(i, 2), STYLES[(i % 3) as usize]))?;
        for side in [Side::Input, Side::Output] {
            let b = base_image(&c.rack, side, 2);
            for l in wrapped_lengths(b.len()) {
                let mut b = b.clone();
                b.resize(l.max(b.len()), 0x5AA5);
                match side {
                    Side::Input => c.input(&b, out)?,
                    Side::Output => c.output(&b, out).map(|_| ())?,
                }
            }
        }
        // far too many lists of values
        let img = base_image(&c.rack, Side::Output, 2);
        if let Some(v) = c.output(&img, out)? {
            for n in wrapped_lengths(v.len()) {
                let mut v = v.clone();
                v.resize(n, vec![]);
                let r = process_output_values(&c.infos(), &v);
                ensure!(r.is_err(), "{}
{n} lists of values encoded as {r:04x?}", c.rack.describe());
                out.eval(true);
            }
        }
        Ok(())
    }));
    v.push(family("every choice of placed directions", small_racks(n), move |i, out| {
        let mods = small_rack(i, n);
        let k = mods.len();
        let rack = Rack::new(mods, Style::Packed);
        for mask in 0..1u32 << (2 * k) {
            unplaced(&rack, mask, out)?;
        }
        Ok(())
    }));
    v.push(family("inputs in another order than the modules", small_racks(n) * 3, move |i, out| {
        let rack = Rack::new(small_rack(i / 3, n), STYLES[(i % 3) as usize])
            .with_reversed_inputs(STYLES[(i % 3) as usize]);
        let c = Conv::new(rack)?;
        for b in 0..5 {
            c.input(&base_image(&c.rack, Side::Input, b), out)?;
        }
        Ok(())
    }));
    v.push(family("the same module more than once", SHAPES as u64 * 6, |i, out| {
        let n = 2 + (i / SHAPES as u64) as usize;
        let m = (i % SHAPES as u64) as usize;
        for same in [true, false] {
            for s in STYLES {
                let rack = Rack::new((0..n).map(|j| M::shape(m, if same { 1 } else { j })).collect(), s);
                Conv::new(rack)?.exercise(&[2, 4], out)?;
            }
        }
        Ok(())
    }));
    let all = every_setting();
    v.push(family("every setting of every type", all.len() as u64 * 4, move |i, out| {
        let rack = setting_rack(&all[(i / 4) as usize], i);
        Conv::new(rack)?.exercise(t.pick(&[2], &[2, 1, 0, 4]), out)
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C28",
        level: Level::Exploration,
        rule: "every rack of the stated size x placement; every single-bit change of several base images decoded and encoded back, every request of every channel encoded, every truncation; a case is one conversion, compared with the bytewise reference",
        assumptions: &["placements leave no gaps between the outputs except alignment bytes"],
        families,
    })
}
