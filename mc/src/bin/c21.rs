//! C21: a coupler is built exactly as configured or not at all.
use mc::engine::*;
use mc::rack::*;
use mc::racks::*;
use mc::spec::*;
use mc::{ensure, fail};
use std::panic::{catch_unwind, AssertUnwindSafe};
use ur20::ur20_fbc_mod_tcp::*;
use ur20::{Address, ModuleType};

/// Types of the catalogue the library has no implementation for.
fn unsupported() -> Vec<ModuleType> {
    use ModuleType::*;
    vec![
        UR20_4DI_P_3W, UR20_8DI_P_3W, UR20_8DI_P_3W_HD, UR20_16DI_P, UR20_16DI_P_PLC_INT,
        UR20_2DI_P_TS, UR20_4DI_P_TS, UR20_4DI_N, UR20_8DI_N_3W, UR20_16DI_N, UR20_16DI_N_PLC_INT,
        UR20_4DI_2W_230V_AC, UR20_4DO_PN_2A, UR20_8DO_P_2W_HD, UR20_16DO_P_PLC_INT, UR20_4DO_N,
        UR20_4DO_N_2A, UR20_8DO_N, UR20_16DO_N, UR20_16DO_N_PLC_INT, UR20_4RO_SSR_255,
        UR20_2PWM_PN_0_5A, UR20_2PWM_PN_2A, UR20_4AI_UI_DIF_16_DIAG, UR20_4AI_UI_16_HD,
        UR20_4AI_UI_16_DIAG_HD, UR20_8AI_I_16_HD, UR20_8AI_I_PLC_INT, UR20_4AI_R_HS_16_DIAG,
        UR20_2AI_SG_24_DIAG, UR20_3EM_230V_AC, UR20_4AO_UI_16_M, UR20_4AO_UI_16_M_DIAG,
        UR20_4AO_UI_16_HD, UR20_4AO_UI_16_DIAG_HD, UR20_1CNT_100_1DO, UR20_2CNT_100,
        UR20_1CNT_500, UR20_1SSI, UR20_1COM_SAI_PRO, UR20_4COM_IO_LINK, UR20_PF_I, UR20_PF_O,
        UR20_PF_O_2DI_SIL, UR20_PF_O_2DI_DELAY_SIL,
    ]
}

fn show(c: &CouplerConfig) -> String {
    format!("modules {:?} offsets {:04x?} params {:?}", c.modules, c.offsets, c.params)
}

fn refused(c: &CouplerConfig, why: &str) -> Res {
    if Coupler::new(c).is_ok() {
        fail!("{}\nwas accepted although {why}", show(c));
    }
    Ok(())
}

/// Every position of the rack behaves as its own type with its own parameters.
fn behaves(rack: &Rack, out: &mut Out) -> Res {
    for side in [Side::Input, Side::Output] {
        let mut s = Sim::new(rack, side)?;
        for b in [2, 4, 1, 7] {
            let (i, o) = (base_image(rack, Side::Input, b), base_image(rack, Side::Output, b));
            s.cycle(&i, &o, &[], out)?;
        }
        if side == Side::Output {
            let (i, o) = (base_image(rack, Side::Input, 3), base_image(rack, Side::Output, 3));
            for (m, md) in rack.mods.iter().enumerate() {
                for ch in 0..md.k.channels() {
                    for q in md.reqs(ch).into_iter().take(2) {
                        let a = Address { module: m, channel: ch };
                        s.cycle(&i, &o, &[(a, q)], out)?;
                    }
                }
            }
        }
    }
    let mut c = rack.coupler()?;
    for (m, md) in rack.mods.iter().enumerate() {
        let com = md.k == K::Com;
        ensure!(
            c.reader(m).is_some() == com && c.writer(m).is_some() == com,
            "{}: position {m} has reader {} and writer {}",
            rack.describe(),
            c.reader(m).is_some(),
            c.writer(m).is_some()
        );
        for ch in md.k.channels()..md.k.channels() + 3 {
            let a = Address { module: m, channel: ch };
            ensure!(
                c.set_output(&a, ur20::ChannelValue::Disabled).is_err(),
                "{}: {a:?} was accepted",
                rack.describe()
            );
        }
    }
    let n = rack.mods.len();
    ensure!(
        c.reader(n).is_none() && c.writer(n).is_none(),
        "{}: position {n} has a reader or writer",
        rack.describe()
    );
    out.eval(true);
    serial(rack, out)
}

/// Every serial module sends and receives with its own frame size.
fn serial(rack: &Rack, out: &mut Out) -> Res {
    let coms: Vec<usize> = (0..rack.mods.len()).filter(|m| rack.mods[*m].k == K::Com).collect();
    if coms.is_empty() {
        return Ok(());
    }
    let what = |m: usize| format!("{}\nserial module at position {m}", rack.describe());
    let mut c = rack.coupler()?;
    let text = |m: usize| -> Vec<u8> { (0..33 + m as u8 % 7).map(|b| b.wrapping_mul(5) ^ m as u8).collect() };
    for &m in &coms {
        let Some(w) = c.writer(m) else { fail!("{} has no writer", what(m)) };
        if let Err(e) = w.write_all(&text(m)) {
            fail!("{}: write failed: {e:?}", what(m));
        }
    }
    let (mut i, mut o) = (vec![0u8; 2 * rack.in_regs], vec![0u8; 2 * rack.out_regs]);
    let mut sent: Vec<Vec<u8>> = vec![vec![]; rack.mods.len()];
    let seg = |m: usize| -> Vec<u8> { (0..rack.mods[m].com_len() as u8 - 2).map(|b| b ^ 0x5A ^ m as u8).collect() };
    for n in 0..12 {
        for &m in &coms {
            let (at, f) = (rack.inp[m].unwrap(), rack.out[m].unwrap());
            // the device acknowledges, and presents one full segment from the third cycle on
            i[at] = (o[f] >> 3 & 3) << 5 | if n > 2 { 1 | 2 << 3 } else { 0 };
            let s = seg(m);
            i[at + 1] = if n > 2 { s.len() as u8 } else { 0 };
            if n > 2 {
                i[at + 2..at + 2 + s.len()].copy_from_slice(&s);
            }
        }
        let r = match c.next(&to_regs(&i), &to_regs(&o)) {
            Ok(r) => to_bytes(&r),
            Err(e) => fail!("{}\ncycle {n} failed: {e:?}", rack.describe()),
        };
        ensure!(r.len() == o.len(), "{}\ncycle {n}: {} bytes returned, {} expected", rack.describe(), r.len(), o.len());
        for &m in &coms {
            let f = rack.out[m].unwrap();
            let user = rack.mods[m].com_len() - 2;
            if r[f] & 0x18 != o[f] & 0x18 {
                let len = usize::from(r[f + 1]);
                ensure!(len >= 1 && len <= user, "{}: a segment of {len} bytes", what(m));
                sent[m].extend_from_slice(&r[f + 2..f + 2 + len]);
            }
        }
        o = r;
    }
    for &m in &coms {
        ensure!(sent[m] == text(m), "{}: sent {:?}, written {:?}", what(m), sent[m], text(m));
        let mut b = vec![0; 100];
        let Some(r) = c.reader(m) else { fail!("{} has no reader", what(m)) };
        let n = match mc::com::read_full(r, &mut b) {
            Ok(n) => n,
            Err(e) => fail!("{}: read failed: {e:?}", what(m)),
        };
        ensure!(b[..n] == seg(m), "{}: read {:?}, presented {:?}", what(m), &b[..n], seg(m));
        out.eval(true);
    }
    Ok(())
}

/// Every invalid block that differs from a valid one in one register or is too short.
fn bad_blocks(m: &M, dense: bool) -> Vec<Vec<u16>> {
    let mut v = vec![];
    for l in 0..m.p.len() {
        v.push(m.p[..l].to_vec());
    }
    for (r, c) in m.k.codes().into_iter().enumerate() {
        if c == 0 {
            continue;
        }
        let mut codes = vec![c, c + 1, 0x8000, 0xFFFF, 256];
        // values that become valid codes when truncated to a byte
        codes.extend((0..c).filter(|_| dense).map(|x| x + 256));
        codes.extend((0..c).filter(|_| dense).map(|x| x + 0x8000));
        codes.sort_unstable();
        codes.dedup();
        for x in codes {
            if x >= c && x <= 0xFFFF {
                let mut p = m.p.clone();
                p[r] = x as u16;
                v.push(p);
            }
        }
    }
    v
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // counts of parameter blocks and offset registers
    v.push(family("numbers of modules, parameter blocks and offsets", 9 * SHAPES as u64, |i, out| {
        let n = (i % 9) as usize;
        let k = (i / 9) as usize;
        let mods: Vec<M> = (0..n).map(|j| M::shape((k + j) % SHAPES, j)).collect();
        let full = Rack::new(mods, Style::WordAligned).config();
        let extra = Rack::new(
            (0..12).map(|j| M::shape((k + j) % SHAPES, j)).collect(),
            Style::WordAligned,
        )
        .config();
        for np in 0..=n + 3 {
            for no in 0..=2 * n + 5 {
                let mut c = full.clone();
                c.params.truncate(np);
                while c.params.len() < np {
                    c.params.push(extra.params[c.params.len()].clone());
                }
                c.offsets.truncate(no);
                while c.offsets.len() < no {
                    c.offsets.push(extra.offsets[c.offsets.len()]);
                }
                let ok = np == n && no == 2 * n;
                let got = Coupler::new(&c);
                ensure!(
                    got.is_ok() == ok,
                    "{}\n{n} modules, {np} parameter blocks, {no} offsets: {:?}",
                    show(&c),
                    got.map(|_| "accepted")
                );
                out.eval(!ok);
            }
        }
        Ok(())
    }));
    v.push(family("far too many parameter blocks or offsets", 6, |i, out| {
        let n = i as usize;
        let mods: Vec<M> = (0..n).map(|j| M::shape(j * 7 % SHAPES, j)).collect();
        let full = Rack::new(mods, Style::WordAligned).config();
        for len in wrapped_lengths(n) {
            let mut c = full.clone();
            c.params.resize(len, vec![0; 40]);
            ensure!(Coupler::new(&c).is_err(), "{n} modules and {len} parameter blocks were accepted");
            out.eval(true);
        }
        for len in wrapped_lengths(2 * n) {
            let mut c = full.clone();
            c.offsets.resize(len, 0xFFFF);
            ensure!(Coupler::new(&c).is_err(), "{n} modules and {len} offset registers were accepted");
            out.eval(true);
        }
        Ok(())
    }));
    // invalid parameter block at every position
    let vars = t.pick(2usize, 6);
    v.push(family(
        "every invalid block next to every type",
        SHAPES as u64 * SHAPES as u64,
        move |i, out| {
            let (a, b) = ((i % SHAPES as u64) as usize, (i / SHAPES as u64) as usize);
            for j in 0..vars {
                for pos in 0..3 {
                    let mut mods = vec![M::shape(b, j + 1), M::shape((b + 5) % SHAPES, j)];
                    mods.insert(pos, M::shape(a, j));
                    let rack = Rack::new(mods, STYLES[(j + pos) % 3]);
                    let good = rack.config();
                    if let Err(e) = Coupler::new(&good) {
                        fail!("{}\nwas refused: {e:?}", show(&good));
                    }
                    out.eval(false);
                    for p in bad_blocks(&rack.mods[pos], j == 0 && pos == 0) {
                        let mut c = good.clone();
                        c.params[pos] = p;
                        refused(&c, &format!("parameter block {pos} is not valid for its module"))?;
                        out.eval(true);
                    }
                }
            }
            out.sample(|| format!("types {a} {b}: invalid blocks at positions 0-2"));
            Ok(())
        },
    ));
    v.push(family("invalid block anywhere in 64 modules", 64 * 4, move |i, out| {
        let pos = (i % 64) as usize;
        let rack = Rack::new(long_rack(64, (i / 64) as usize * 5, 1), Style::WordAligned);
        let good = rack.config();
        if let Err(e) = Coupler::new(&good) {
            fail!("{}\nwas refused: {e:?}", show(&good));
        }
        for p in bad_blocks(&rack.mods[pos], false) {
            let mut c = good.clone();
            c.params[pos] = p;
            refused(&c, &format!("parameter block {pos} is not valid for its module"))?;
            out.eval(true);
        }
        // a parameter block too few or too many
        let mut c = good.clone();
        c.params.remove(pos);
        refused(&c, "a parameter block is missing")?;
        let mut c = good.clone();
        c.params.insert(pos, good.params[pos].clone());
        refused(&c, "there is a parameter block too many")?;
        let mut c = good.clone();
        c.offsets.drain(2 * pos..2 * pos + 2);
        refused(&c, "an offset pair is missing")?;
        let mut c = good.clone();
        c.offsets.insert(2 * pos, 0xFFFF);
        refused(&c, "there is an offset too many")?;
        out.evals += 4;
        Ok(())
    }));
    // unsupported types
    let uns = unsupported();
    v.push(family("unsupported types at every position", uns.len() as u64, move |i, out| {
        let u = &uns[i as usize];
        for n in [0usize, 1, 2, 5, 19] {
            for pos in 0..=n {
                for k in 0..if n < 3 { SHAPES } else { 2 } {
                    for len in [0usize, 4, 64] {
                        let mods: Vec<M> = (0..n).map(|j| M::shape((k + j) % SHAPES, j)).collect();
                        let mut c = Rack::new(mods, Style::WordAligned).config();
                        c.modules.insert(pos, u.clone());
                        c.params.insert(pos, vec![0; len]);
                        c.offsets.insert(2 * pos, 0xFFFF);
                        c.offsets.insert(2 * pos, 0xFFFF);
                        // documented to panic or fail, but never accepted
                        let r = catch_unwind(AssertUnwindSafe(|| Coupler::new(&c).is_ok()));
                        ensure!(
                            !matches!(r, Ok(true)),
                            "{}\nwas accepted although position {pos} has no implementation",
                            show(&c)
                        );
                        out.eval(true);
                    }
                }
            }
        }
        Ok(())
    }));
    // positions keep their type and parameters
    let n = t.pick(2, 3);
    v.push(family("every position is what was configured", small_racks(n), move |i, out| {
        behaves(&Rack::new(small_rack(i, n), STYLES[(i % 3) as usize]), out)
    }));
    let nv = t.pick(6u64, 12);
    v.push(family(
        "same type with different parameters",
        SHAPES as u64 * nv * nv,
        move |i, out| {
            let k = (i % SHAPES as u64) as usize;
            let (a, b) = (i / SHAPES as u64 % nv, i / SHAPES as u64 / nv);
            let mods = vec![M::shape(k, a as usize), M::shape(k, b as usize), M::shape(k, (a + b) as usize)];
            behaves(&Rack::new(mods, STYLES[(i % 3) as usize]), out)
        },
    ));
    v.push(family("64 modules", SHAPES as u64 * t.pick(2, 9), |i, out| {
        let step = [1, 5, 2, 3, 4, 6, 7, 8, 0][(i / SHAPES as u64) as usize];
        let rack = Rack::new(long_rack(64, (i % SHAPES as u64) as usize, step), Style::WordAligned);
        if rack.in_regs > 0x800 || rack.out_regs > 0x7FF {
            return Ok(());
        }
        behaves(&rack, out)
    }));
    // published register counts and addresses
    v.push(family("parameter register counts", ALL.len() as u64, |i, out| {
        let k = ALL[i as usize];
        let n = k.module_type().param_register_count();
        ensure!(
            usize::from(n) == k.regs(),
            "{:?}: {n} parameter registers published, its block has {}",
            k.module_type(),
            k.regs()
        );
        for j in 0..20 {
            let p = M::variant(k, j).p;
            ensure!(
                make(k, &p[..usize::from(n)]).is_ok(),
                "{:?}: a valid block of the published length {n} is refused: {p:?}",
                k.module_type()
            );
            if n > 0 {
                ensure!(
                    make(k, &p[..usize::from(n) - 1]).is_err(),
                    "{:?}: a block of {} registers is accepted, {n} are published",
                    k.module_type(),
                    n - 1
                );
            }
            out.eval(true);
        }
        Ok(())
    }));
    v.push(family("parameter addresses", 65 * 18, |i, out| {
        let n = (i % 65) as usize;
        let k = (i / 65) as usize;
        for step in 0..18 {
            let ks: Vec<K> = (0..n).map(|j| ALL[(k + j * step) % 18]).collect();
            let l: Vec<ModuleType> = ks.iter().map(|k| k.module_type()).collect();
            let got = param_addresses_and_register_counts(&l);
            let want: Vec<(u16, u16)> = ks
                .iter()
                .enumerate()
                .map(|(j, k)| ((0xC000 + j * 0x100) as u16, k.regs() as u16))
                .collect();
            ensure!(got == want, "{l:?}\naddresses and counts {got:04x?}\nexpected {want:04x?}");
            out.eval(n > 0);
            out.outcome(&got);
        }
        Ok(())
    }));
    // own type and process data sizes
    v.push(family("module type and process data sizes", SHAPES as u64 * 24, |i, out| {
        let j = (i / SHAPES as u64) as usize;
        let m = M::shape((i % SHAPES as u64) as usize, j);
        sizes(&m, &*m.make()?, out)
    }));
    v.push(family("default modules", ALL.len() as u64, |i, out| {
        let k = ALL[i as usize];
        let d = make_default(k);
        ensure!(
            d.module_type() == k.module_type(),
            "default {k:?} says it is {:?}",
            d.module_type()
        );
        out.eval(true);
        Ok(())
    }));
    v
}

fn sizes(m: &M, d: &dyn ProcessModbusTcpData, out: &mut Out) -> Res {
    let ctx = || format!("{:?} with parameters {:?}", m.k.module_type(), m.p);
    ensure!(
        d.module_type() == m.k.module_type(),
        "{} says it is {:?}",
        ctx(),
        d.module_type()
    );
    ensure!(
        d.module_type().channel_count() == m.k.channels(),
        "{}: {} channels",
        ctx(),
        d.module_type().channel_count()
    );
    ensure!(
        d.process_input_byte_count() == m.in_len() && d.process_output_byte_count() == m.out_len(),
        "{}: sizes {} and {}, documented {} and {}",
        ctx(),
        d.process_input_byte_count(),
        d.process_output_byte_count(),
        m.in_len(),
        m.out_len()
    );
    let ir = m.in_len().div_ceil(2);
    let or = m.out_len().div_ceil(2);
    for b in 0..6u16 {
        let fill = |n: usize| -> Vec<u16> {
            let mut v: Vec<u16> = (0..n as u16).map(|i| (i * 13 + b * 7) & 0x7F).collect();
            if m.k == K::Com && n > 0 {
                v[0] = (b % 7) << 8 | 0x81;
            }
            v
        };
        let i = fill(ir);
        let bytes = to_bytes(&i);
        let r = d.process_input_data(&i);
        let want = m.decode_in(&bytes[..m.in_len()]).unwrap();
        match r {
            Ok(v) if same_all(&v, &want) => {}
            r => fail!("{}: input {i:04x?} gives {r:?}, expected {want:?}", ctx()),
        }
        let o = fill(or);
        let bytes = to_bytes(&o);
        let want = m.decode_out(&bytes[..m.out_len()]).unwrap();
        let vals = match d.process_output_data(&o) {
            Ok(v) if same_all(&v, &want) => v,
            r => fail!("{}: output {o:04x?} gives {r:?}, expected {want:?}", ctx()),
        };
        match d.process_output_values(&vals) {
            Ok(r) => ensure!(
                r.len() == or,
                "{}: produces {} registers for {} bytes",
                ctx(),
                r.len(),
                m.out_len()
            ),
            Err(e) => fail!("{}: encoding {vals:?} failed: {e:?}", ctx()),
        }
        out.eval(true);
    }
    Ok(())
}

fn main() {
    mc::engine::main(Check {
        id: "C21",
        level: Level::Exploration,
        rule: "all numbers of parameter blocks and offsets for racks of 0-8 modules; every block invalid in one register or length at every position of racks of 3 and 64; all 45 unsupported types at every position; all racks up to the stated length compared channel by channel with the documented behaviour of the configured types; non-trivial = an invalid configuration, or a channel compared",
        assumptions: &["a construction that panics for an unsupported type counts as not accepted"],
        families,
    })
}
