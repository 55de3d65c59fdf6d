//! C26: a refusal names its cause. Every fault alone must be reported as its
//! own kind, two faults together as the kind of one of them.
use mc::engine::*;
use mc::hist::far_positions;
use mc::rack::*;
use mc::racks::*;
use mc::spec::*;
use mc::{ensure, fail};
use std::str::FromStr;
use ur20::ur20_1com_232_485_422 as com;
use ur20::ur20_fbc_mod_tcp::*;
use ur20::{Address, ChannelValue, Error, ModuleCategory, ModuleType};

type Kinds = &'static [Error];
const ADDRESS: Kinds = &[Error::Address];
const VALUE: Kinds = &[Error::ChannelValue];
const LENGTH: Kinds = &[Error::BufferLength];
const PARAM: Kinds = &[Error::ChannelParameter];
const OFFSET: Kinds = &[Error::ModuleOffset];
const MODULE: Kinds = &[Error::UnknownModule];
const CATEGORY: Kinds = &[Error::UnknownCategory];
const REGISTERS: Kinds = &[Error::RegisterCount];
const SEQUENCE: Kinds = &[Error::SequenceNumber];
// too much data for a frame: the frame and the module call it differently
const TOO_MUCH: Kinds = &[Error::DataLength, Error::BufferLength];

fn expect<T: std::fmt::Debug>(r: Result<T, Error>, want: &[Kinds], ctx: impl Fn() -> String) -> Res {
    match r {
        Ok(v) => fail!("{}\nwas accepted: {v:?}", ctx()),
        Err(e) if want.iter().any(|k| k.contains(&e)) => Ok(()),
        Err(e) => fail!("{}\nreported {e:?}, expected one of {want:?}", ctx()),
    }
}

/// A way to make a cycle unusable.
#[derive(Clone, Debug, PartialEq)]
enum Fault {
    InShort(usize),
    OutShort(usize),
    InFrame(usize, u8),
    OutFrame(usize, u8),
    Preset(usize, usize, u16),
    InOffset(usize, u16),
    OutOffset(usize, u16),
    /// the output offsets of two modules exchanged
    Swap(usize, usize),
}
use Fault::*;

impl Fault {
    fn kind(&self) -> Kinds {
        match self {
            InShort(_) | OutShort(_) | InFrame(..) | OutFrame(..) => LENGTH,
            Preset(..) => VALUE,
            InOffset(..) | OutOffset(..) | Swap(..) => OFFSET,
        }
    }
    /// Do both faults touch the same thing, so that they could cancel out?
    fn clash(&self, o: &Fault) -> bool {
        use std::mem::discriminant as d;
        let off = |f: &Fault| matches!(f, OutOffset(..) | Swap(..));
        d(self) == d(o) || off(self) && off(o)
    }
}

fn faults(rack: &Rack, all: bool) -> Vec<Fault> {
    let mut v = vec![];
    for l in 0..rack.in_regs {
        if all || l == 0 || l + 1 == rack.in_regs {
            v.push(InShort(l));
        }
    }
    for l in 0..rack.out_regs {
        if all || l == 0 || l + 1 == rack.out_regs {
            v.push(OutShort(l));
        }
    }
    for (m, md) in rack.mods.iter().enumerate() {
        if md.k == K::Com {
            let n = md.com_len() as u8 - 1;
            let ls: &[u8] = &[n, n + 1, 128, 255];
            for &l in &ls[..if all { 4 } else { 1 }] {
                v.push(InFrame(m, l));
                v.push(OutFrame(m, l));
            }
        }
        if md.k == K::Fcnt {
            for ch in 0..2 {
                for hi in if all { vec![0x80, 0x100, 0x8000, 0xFFFF] } else { vec![0x80] } {
                    v.push(Preset(m, ch, hi));
                }
            }
        }
        let bits: &[u16] = if all { &[1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15] } else { &[4, 9] };
        if let Some(at) = rack.inp[m] {
            for b in bits {
                v.push(InOffset(m, (at / 2 * 16) as u16 | b));
            }
        }
        if let Some(at) = rack.out[m] {
            for b in bits {
                v.push(OutOffset(m, 0x8000 + (at / 2 * 16) as u16 | b));
            }
            v.push(OutOffset(m, (at * 8) as u16));
            v.push(OutOffset(m, 0x7FF0));
            v.push(OutOffset(m, 0x7FF8));
            for o in m + 1..rack.mods.len() {
                if rack.out[o].is_some() {
                    v.push(Swap(m, o));
                }
            }
        }
    }
    v
}

/// A cycle with these faults, otherwise usable, on images long enough for any offset in it.
fn faulty(rack: &Rack, fs: &[&Fault], out: &mut Out) -> Res {
    let mut cfg = rack.config();
    let mut i = vec![0u8; rack.in_regs * 2 + 32];
    let mut o = vec![0u8; rack.out_regs * 2 + 32];
    // a truncated image is exactly too short, others have spare room
    for f in fs {
        match f {
            InFrame(m, l) => i[rack.inp[*m].unwrap() + 1] = *l,
            OutFrame(m, l) => o[rack.out[*m].unwrap() + 1] = *l,
            Preset(m, ch, hi) => {
                let at = rack.out[*m].unwrap() + 4 * ch;
                o[at..at + 2].copy_from_slice(&hi.to_le_bytes());
            }
            InOffset(m, x) => cfg.offsets[2 * m + 1] = *x,
            OutOffset(m, x) => cfg.offsets[2 * m] = *x,
            Swap(a, b) => cfg.offsets.swap(2 * a, 2 * b),
            InShort(_) | OutShort(_) => {}
        }
    }
    let (mut i, mut o) = (to_regs(&i), to_regs(&o));
    for f in fs {
        match f {
            InShort(l) => i.truncate(*l),
            OutShort(l) => o.truncate(*l),
            _ => {}
        }
    }
    let mut want: Vec<Kinds> = fs.iter().map(|f| f.kind()).collect();
    // moved offsets make other bytes the frame or preset of a module
    if fs.len() > 1 && want.contains(&OFFSET) {
        want.push(LENGTH);
        want.push(VALUE);
    }
    let ctx = || format!("{}\nnext(input {i:04x?}, output {o:04x?}) with {fs:?}, offsets {:04x?}", rack.describe(), cfg.offsets);
    let mut c = match Coupler::new(&cfg) {
        Ok(c) => c,
        // a misplaced offset may be noticed right away
        Err(e) => {
            ensure!(e == Error::ModuleOffset && fs.iter().any(|f| f.kind() == OFFSET), "{}\nCoupler::new reported {e:?}", ctx());
            out.eval(true);
            return Ok(());
        }
    };
    for _ in 0..2 {
        expect(c.next(&i, &o), &want, ctx)?;
    }
    // the conversions without a coupler
    let mods = rack.mods.iter().map(M::make).collect::<Result<Vec<_>, _>>()?;
    let places = [offsets_of_process_data(&rack.offsets()), offsets_of_process_data(&cfg.offsets)];
    let [good, bad] = [0, 1].map(|k: usize| mods.iter().map(|m| &**m).zip(&places[k]).collect::<Vec<_>>());
    if fs.iter().any(|f| matches!(f, InShort(_) | InFrame(..) | InOffset(..))) {
        expect(process_input_data(&bad, &i), &want, || format!("process_input_data\n{}", ctx()))?;
    }
    if fs.iter().any(|f| matches!(f, OutShort(_) | OutFrame(..) | OutOffset(..)))
        && !fs.iter().any(|f| matches!(f, Swap(..)))
    {
        expect(process_output_data(&bad, &o), &want, || format!("process_output_data\n{}", ctx()))?;
    }
    if fs.iter().any(|f| matches!(f, OutOffset(..) | Swap(..))) {
        let vals = process_output_data(&good, &vec![0; rack.out_regs])
            .map_err(|e| format!("{}: process_output_data of an empty image: {e:?}", rack.describe()))?;
        expect(process_output_values(&bad, &vals), &[OFFSET], || format!("process_output_values of {vals:?}\n{}", ctx()))?;
    }
    out.outcome(&format!("{fs:?}"));
    out.sample(ctx);
    out.eval(true);
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let n = t.pick(3, 4);
    let n2 = t.pick(2, 3);
    v.push(family("addresses and values", small_racks(n), move |i, out| {
        let rack = Rack::new(small_rack(i, n), Style::Packed);
        let mut c = rack.coupler()?;
        let l = rack.mods.len();
        let vals = [
            ChannelValue::None,
            ChannelValue::Disabled,
            ChannelValue::Bit(true),
            ChannelValue::Decimal32(1.0),
            ChannelValue::Decimal32(f32::NAN),
            ChannelValue::Bytes(vec![1]),
            ChannelValue::Bytes(vec![0; 300]),
            ChannelValue::ComRsOut(Default::default()),
        ];
        let mut bad = vec![];
        for m in [l, l + 1, 64, 255, 256, 65536, usize::MAX] {
            for ch in [0, 1, 7, 255, usize::MAX] {
                bad.push((m, ch));
            }
        }
        for (m, md) in rack.mods.iter().enumerate() {
            let n = md.k.channels();
            for ch in [n, n + 1, n + 8, 64, 255, 256, 1 << 32, usize::MAX] {
                bad.push((m, ch));
            }
        }
        bad.extend(far_positions(l).into_iter().map(|m| (m, 0)));
        for (m, md) in rack.mods.iter().enumerate() {
            bad.extend(far_positions(md.k.channels()).into_iter().map(|ch| (m, ch)));
        }
        for (module, channel) in bad {
            let a = Address { module, channel };
            for x in &vals {
                expect(c.set_output(&a, x.clone()), &[ADDRESS], || {
                    format!("{}\nset_output({a:?}, {x:?})", rack.describe())
                })?;
                out.eval(true);
            }
        }
        for (m, md) in rack.mods.iter().enumerate() {
            if !md.k.is_output() {
                continue;
            }
            for ch in 0..md.k.channels() {
                let a = Address { module: m, channel: ch };
                for x in md.bad_reqs() {
                    expect(c.set_output(&a, x.clone()), &[VALUE], || {
                        format!("{}\nset_output({a:?}, {x:?})", rack.describe())
                    })?;
                    out.eval(true);
                }
            }
        }
        Ok(())
    }));
    v.push(family("every unusable cycle", small_racks(n) * 2, move |i, out| {
        let rack = Rack::new(small_rack(i / 2, n), [Style::Packed, Style::WordAligned][(i % 2) as usize]);
        for f in faults(&rack, true) {
            faulty(&rack, &[&f], out)?;
        }
        Ok(())
    }));
    v.push(family("two causes at once", small_racks(n2) * 2, move |i, out| {
        let rack = Rack::new(small_rack(i / 2, n2), [Style::Packed, Style::WordAligned][(i % 2) as usize]);
        let l = faults(&rack, rack.mods.len() < 3);
        for a in &l {
            for b in &l {
                if !a.clash(b) {
                    faulty(&rack, &[a, b], out)?;
                }
            }
        }
        Ok(())
    }));
    v.push(family("longer racks", 16 * SHAPES as u64, move |i, out| {
        let n = [3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 24, 32, 40, 48, 56, 64][(i % 16) as usize];
        let rack = Rack::new(long_rack(n, (i / 16) as usize, 1 + n % 7), STYLES[(i % 3) as usize]);
        for f in faults(&rack, false) {
            // byte-placed modules may share the register of another one
            faulty(&rack, &[&f], out)?;
        }
        Ok(())
    }));
    v.push(family("values of a module", SHAPES as u64 * 4, |i, out| {
        let m = M::shape((i % SHAPES as u64) as usize, (i / SHAPES as u64) as usize);
        let d = m.make()?;
        let k = m.k;
        let c = k.channels();
        // numbers of registers
        for n in (0..40).chain(wrapped_lengths(m.in_len().div_ceil(2))).chain(wrapped_lengths(m.out_len().div_ceil(2))) {
            if k != K::Com {
                for (input, len) in [(true, m.in_len()), (false, m.out_len())] {
                    if n == len.div_ceil(2) {
                        continue;
                    }
                    let r = if input { d.process_input_data(&vec![0; n]) } else { d.process_output_data(&vec![0; n]) };
                    expect(r, &[LENGTH], || format!("{m:?}: {} {n} registers", if input { "input" } else { "output" }))?;
                    out.eval(true);
                }
            } else {
                for l in 0..=255usize {
                    let mut f = vec![0u16; n];
                    if let Some(x) = f.first_mut() {
                        *x = (l as u16) << 8;
                    }
                    if n == 0 || l + 2 > 2 * n {
                        expect(d.process_input_data(&f), &[LENGTH], || format!("{m:?}: input {f:04x?}"))?;
                        expect(d.process_output_data(&f), &[LENGTH], || format!("{m:?}: output {f:04x?}"))?;
                        out.eval(true);
                    }
                }
            }
        }
        // numbers of values
        for n in (0..40).chain(wrapped_lengths(c)) {
            let ok = if k.is_output() || k == K::Com { n == c } else { n == 0 || n == c };
            if !ok {
                for x in [ChannelValue::Disabled, ChannelValue::None, ChannelValue::Bit(false), ChannelValue::Decimal32(0.0)] {
                    expect(d.process_output_values(&vec![x.clone(); n]), &[VALUE], || format!("{m:?}: {n} values {x:?}"))?;
                    out.eval(true);
                }
            }
        }
        // kinds of values
        if k.is_output() {
            for x in m.bad_reqs() {
                for ch in 0..c {
                    let mut val = vec![ChannelValue::Disabled; c];
                    val[ch] = x.clone();
                    expect(d.process_output_values(&val), &[VALUE], || format!("{m:?}: {val:?}"))?;
                    out.eval(true);
                }
            }
        }
        if k == K::Com {
            for x in [
                ChannelValue::Disabled,
                ChannelValue::None,
                ChannelValue::Bit(true),
                ChannelValue::Decimal32(1.0),
                ChannelValue::Bytes(vec![1]),
                ChannelValue::ComRsIn(Default::default()),
            ] {
                expect(d.process_output_values(&[x.clone()]), &[VALUE], || format!("{m:?}: {x:?}"))?;
                out.eval(true);
            }
            frames(&m, out)?;
        }
        out.outcome(&i);
        Ok(())
    }));
    v.push(family("parameter blocks", SHAPES as u64 * 4, |i, out| {
        let m = M::shape((i % SHAPES as u64) as usize, (i / SHAPES as u64) as usize);
        let kind = m.k.module_type();
        let one = |p: &[u16], want: &[Kinds], out: &mut Out| -> Res {
            // on its own and as a module of a rack, in front of and behind another one
            for at in 0..3 {
                let mut mods = vec![M::typical(K::Di4), M::com(true)];
                mods.insert(at, m.clone());
                let mut cfg = Rack::new(mods, Style::WordAligned).config();
                cfg.params[at] = p.to_vec();
                expect(Coupler::new(&cfg), want, || format!("{kind:?} at position {at} with parameters {p:?}"))?;
                out.eval(true);
            }
            Ok(())
        };
        for l in 0..m.p.len() {
            one(&m.p[..l], &[LENGTH], out)?;
        }
        for (r, c) in m.k.codes().into_iter().enumerate() {
            if c == 0 {
                continue;
            }
            for x in [c, c + 1, 2 * c, 255, 256, 257, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF] {
                if x < c || x > 0xFFFF {
                    continue;
                }
                let mut p = m.p.clone();
                p[r] = x as u16;
                one(&p, &[PARAM], out)?;
                for l in [0, 1, r + 1, p.len() - 1] {
                    if l < p.len() {
                        one(&p[..l], if r < l { &[LENGTH, PARAM] } else { &[LENGTH] }, out)?;
                    }
                }
            }
        }
        out.outcome(&i);
        Ok(())
    }));
    v.push(family("tables of the wrong size", SHAPES as u64 * 6, |i, out| {
        let n = (i / SHAPES as u64) as usize;
        let mods: Vec<M> = (0..n).map(|j| M::shape((i as usize + j) % SHAPES, j)).collect();
        let full = Rack::new(mods, Style::WordAligned).config();
        for np in 0..=n + 3 {
            for no in 0..=2 * n + 5 {
                let mut c = full.clone();
                c.params.resize(np, vec![0; 40]);
                c.offsets.resize(no, 0xFFFF);
                let mut want: Vec<Kinds> = vec![];
                if np != n {
                    want.push(LENGTH);
                }
                if no != 2 * n {
                    want.push(OFFSET);
                }
                if !want.is_empty() {
                    expect(Coupler::new(&c), &want, || format!("{n} modules, {np} parameter blocks, {no} offset registers"))?;
                    out.eval(true);
                }
            }
        }
        Ok(())
    }));
    v.push(family("lists of values of a rack", small_racks(2), |i, out| {
        let rack = Rack::new(small_rack(i, 2), Style::WordAligned);
        let mods: Vec<_> = rack.mods.iter().map(|m| m.make()).collect::<Result<_, _>>()?;
        let offs = offsets_of_process_data(&rack.offsets());
        let infos: Vec<_> = mods.iter().zip(&offs).map(|(m, o)| (&**m, o)).collect();
        let vals = process_output_data(&infos, &vec![0; rack.out_regs]).map_err(|e| format!("{}\n{e:?}", rack.describe()))?;
        for n in 0..6 {
            if n == vals.len() {
                continue;
            }
            let mut w = vals.clone();
            w.resize(n, vec![ChannelValue::Disabled; 4]);
            expect(process_output_values(&infos, &w), &[VALUE], || format!("{}\n{n} lists of values", rack.describe()))?;
            out.eval(true);
        }
        for l in 0..rack.in_regs {
            expect(process_input_data(&infos, &vec![0; l]), &[LENGTH], || format!("{}\n{l} input registers", rack.describe()))?;
            out.eval(true);
        }
        for l in 0..rack.out_regs {
            expect(process_output_data(&infos, &vec![0; l]), &[LENGTH], || format!("{}\n{l} output registers", rack.describe()))?;
            out.eval(true);
        }
        Ok(())
    }));
    // the catalogue
    v.push(family("module lists", 4096, |i, out| {
        let good = [0x0009u16, 0x1F84]; // UR20-4DI-P
        let id = [0x0009u16.wrapping_add((i >> 6) as u16), (i as u16).wrapping_mul(1041)];
        let known = ModuleType::try_from_u32(u32::from(id[0]) << 16 | u32::from(id[1])).is_ok();
        ensure!(module_list_from_registers(&good).is_ok(), "{good:04x?} refused");
        if !known {
            expect(ModuleType::try_from_u32(u32::from(id[0]) << 16 | u32::from(id[1])), &[MODULE], || format!("id {id:04x?}"))?;
            for at in 0..3 {
                let mut l = [good, good].concat();
                l.splice(2 * at..2 * at, id);
                expect(module_list_from_registers(&l), &[MODULE], || format!("module list {l:04x?}"))?;
                out.eval(true);
            }
        }
        let n = (i % 65) as usize;
        if n % 2 == 1 || n == 0 {
            let l: Vec<u16> = good.iter().cycle().take(n).copied().collect();
            expect(module_list_from_registers(&l), &[REGISTERS], || format!("module list {l:04x?}"))?;
            let l: Vec<u16> = id.iter().cycle().take(n).copied().collect();
            let want: &[Kinds] = if known || n < 2 { &[REGISTERS] } else { &[REGISTERS, MODULE] };
            expect(module_list_from_registers(&l), want, || format!("module list {l:04x?}"))?;
            out.eval(true);
        }
        Ok(())
    }));
    v.push(family("names", 1, |_, out| {
        let mut names: Vec<String> = vec!["".into(), " ".into(), "UR20".into(), "-".into(), "_".into(), "UR20-".into()];
        for k in ALL {
            let s = format!("{:?}", k.module_type());
            for j in 0..s.len() {
                names.push(s[..j].to_string());
                names.push(format!("{}{}", &s[..j], &s[j + 1..]));
                names.push(format!("{}?{}", &s[..j], &s[j + 1..]));
            }
            names.push(format!("{s} "));
            names.push(format!(" {s}"));
        }
        names.extend(["DIx", "D", "Xi", "analog", "digital"].map(String::from));
        let types: std::collections::HashSet<String> = [
            // names that remain types after dropping a character
            "UR20_4DI_P", "UR20_4DO_P", "UR20_4AI_UI_16", "UR20_4AO_UI_16", "UR20_4AI_UI_12",
        ].map(String::from).into();
        for s in names {
            let norm = s.to_uppercase().replace('-', "_");
            if !types.contains(&norm) {
                if let Err(e) = ModuleType::from_str(&s) {
                    ensure!(e == Error::UnknownModule, "type name {s:?} reported {e:?}");
                    out.eval(true);
                }
            }
            if let Err(e) = ModuleCategory::from_str(&s) {
                ensure!(e == Error::UnknownCategory, "category name {s:?} reported {e:?}");
                out.eval(true);
            }
        }
        expect(ModuleType::from_str("no such module"), &[MODULE], || "type name".into())?;
        expect(ModuleCategory::from_str("no such category"), &[CATEGORY], || "category name".into())?;
        Ok(())
    }));
    v.push(family("messages", 1, |_, out| {
        let kinds = || [
            Error::UnknownModule,
            Error::UnknownCategory,
            Error::BufferLength,
            Error::SequenceNumber,
            Error::DataLength,
            Error::RegisterCount,
            Error::ChannelParameter,
            Error::ChannelValue,
            Error::ModuleOffset,
            Error::Address,
        ];
        for (i, a) in kinds().iter().enumerate() {
            ensure!(!a.to_string().trim().is_empty(), "{a:?} has no message");
            for (j, b) in kinds().iter().enumerate() {
                ensure!(
                    (a == b) == (i == j) && (a.to_string() == b.to_string()) == (i == j),
                    "{a:?} and {b:?} have messages {a} and {b}"
                );
                out.eval(true);
            }
        }
        for text in ["", "x", "connection reset by peer", "äöü", "{}"] {
            for kind in [std::io::ErrorKind::Other, std::io::ErrorKind::TimedOut] {
                let e: Error = std::io::Error::new(kind, text).into();
                ensure!(
                    e == Error::Io(text.into()) && e.to_string().contains(text),
                    "an I/O error {text:?} became {e:?} with message {e}"
                );
                out.eval(true);
            }
        }
        let e: Error = std::io::Error::from(std::io::ErrorKind::NotFound).into();
        let text = std::io::Error::from(std::io::ErrorKind::NotFound).to_string();
        ensure!(e == Error::Io(text.clone()), "an I/O error {text:?} became {e:?}");
        Ok(())
    }));
    v
}

/// Frames of a serial module that cannot be encoded or decoded.
fn frames(m: &M, out: &mut Out) -> Res {
    let d = m.make()?;
    let max = m.com_len() - 2;
    let len = if max == 6 { com::ProcessDataLength::EightBytes } else { com::ProcessDataLength::SixteenBytes };
    let bad_counters = [4, 5, 7, 8, 255, 256, 1 << 16, usize::MAX];
    for n in 0..=max + 20 {
        for tx in [0, 3].into_iter().chain(bad_counters) {
            for ack in [0, 3].into_iter().chain(bad_counters) {
                let mut o = com::ProcessOutput::default();
                o.data = vec![7; n];
                o.tx_cnt = tx;
                o.rx_cnt_ack = ack;
                let mut want: Vec<Kinds> = vec![];
                if tx > 3 || ack > 3 {
                    want.push(SEQUENCE);
                }
                if n > max {
                    want.push(TOO_MUCH);
                }
                if want.is_empty() {
                    continue;
                }
                let ctx = || format!("{m:?}: frame with {n} bytes, counters {tx} and {ack}");
                expect(o.try_into_byte_message(&len), &want, ctx)?;
                expect(d.process_output_values(&[ChannelValue::ComRsOut(o)]), &want, ctx)?;
                out.eval(true);
            }
        }
    }
    for n in 0..20usize {
        for l in 0..=255u8 {
            let mut b = vec![0x18; n];
            if n > 1 {
                b[1] = l;
            }
            if n < 2 || usize::from(l) + 2 > n {
                let ctx = || format!("frame {b:02x?}");
                expect(com::ProcessInput::try_from_byte_message(&b), &[LENGTH], ctx)?;
                expect(com::ProcessOutput::try_from_byte_message(&b), &[LENGTH], ctx)?;
                out.eval(true);
            }
        }
    }
    Ok(())
}

fn main() {
    mc::engine::main(Check {
        id: "C26",
        level: Level::Exploration,
        rule: "fault injection: every call of the library is made with every single fault (and every pair of faults) from the documented list on all small racks and all module types; a case is one faulty call and non-trivial if the call was refused for the injected cause",
        assumptions: &[
            "with several causes any of them may be reported",
            "data too long for a serial frame may be reported as DataLength or BufferLength",
        ],
        families,
    })
}
