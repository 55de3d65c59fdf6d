//! C29: a module follows its settings, however they were set.
use mc::engine::*;
use mc::settings::{settings, S};
use mc::spec::*;
use mc::{ensure, fail};
use ur20::ur20_fbc_mod_tcp::*;
use ur20::*;

/// Registers in front of the channels and per channel.
fn layout(k: K) -> (usize, usize) {
    match k {
        K::Ao4 => (0, 3),
        K::Ao4Diag => (0, 4),
        K::Rtd | K::Tc => (1, 7),
        K::Ai4Diag => (1, 5),
        K::Ai4x12 | K::Ai4x16 => (1, 2),
        K::Ai8 => (1, 4),
        _ => unreachable!(),
    }
}

const ANALOG: [K; 8] = [K::Ao4, K::Ao4Diag, K::Rtd, K::Tc, K::Ai4Diag, K::Ai4x12, K::Ai4x16, K::Ai8];

/// The block whose channel `c` is the one of `b` where the mask bit is set, else the one of `a`.
fn mixed(a: &M, b: &M, mask: u32) -> M {
    let (h, s) = layout(a.k);
    let mut p = a.p.clone();
    for c in 0..a.k.channels() {
        if mask >> c & 1 == 1 {
            p[h + c * s..h + (c + 1) * s].copy_from_slice(&b.p[h + c * s..h + (c + 1) * s]);
        }
    }
    M { k: a.k, p }
}

/// The block with every analogue channel disabled.
fn disabled(k: K) -> M {
    let mut m = M::typical(k);
    let (h, s) = layout(k);
    for c in 0..k.channels() {
        let at = h + c * s;
        match k {
            K::Ao4 | K::Ao4Diag => m.p[at + 1] = 8,
            K::Rtd => m.p[at] = 18,
            K::Tc => m.p[at] = 19,
            K::Ai4Diag => m.p[at + 4] = 8,
            K::Ai4x12 | K::Ai4x16 => m.p[at + 1] = 8,
            _ => m.p[at + 3] = 2,
        }
    }
    m
}

/// The settings a default module has to have; `None` = anything (the limits,
/// which are not monitored).
fn factory(k: K) -> Vec<Option<S>> {
    let c = |x: i64| Some(S::C(x));
    let n = k.channels();
    let channels = |head: Vec<Option<S>>, ch: Vec<Option<S>>| -> Vec<Option<S>> {
        let mut v = head;
        for _ in 0..n {
            v.extend(ch.iter().copied());
        }
        v
    };
    match k {
        // 3 ms input delay
        K::Di4 | K::Di8 => channels(vec![], vec![c(2)]),
        // substitute value off
        K::Do4 | K::Do4x2A | K::Do8 | K::Ro4 => channels(vec![], vec![c(0)]),
        K::Do16 | K::Pf => vec![],
        // S7, disabled, 0.0 (, no diagnostics)
        K::Ao4 => channels(vec![], vec![c(1), c(8), Some(S::F(0.0))]),
        K::Ao4Diag => channels(vec![], vec![c(1), c(8), Some(S::F(0.0)), c(0)]),
        // Celsius; disabled, two wires, 80 ms, no diagnostics, no monitoring
        K::Rtd => channels(vec![c(0)], vec![c(18), c(0), c(2), c(0), c(0), None, None]),
        // Celsius; disabled, internal compensation, 80 ms, no diagnostics, no monitoring
        K::Tc => channels(vec![c(0)], vec![c(19), c(0), c(2), c(0), c(0), None, None]),
        // no suppression; no diagnostics, S7, disabled
        K::Ai4Diag => channels(vec![c(0)], vec![c(0), c(0), c(0), c(1), c(8)]),
        K::Ai4x12 | K::Ai4x16 => channels(vec![c(0)], vec![c(1), c(8)]),
        K::Ai8 => channels(vec![c(0)], vec![c(0), c(0), c(1), c(2)]),
        // 5 us filter
        K::Fcnt => channels(vec![], vec![c(0)]),
        // 16-byte frames; disabled, 9600 baud, 8N1, no flow control, no resistor, XON 17, XOFF 19
        K::Com => vec![c(1), c(0), c(5), c(0), c(0), c(0), c(1), c(0), c(17), c(19)],
    }
}

type Made = Box<dyn ProcessModbusTcpData>;

fn of<T: FromModbusParameterData + ProcessModbusTcpData>(m: &M) -> Result<T, String> {
    T::from_modbus_parameter_data(&m.p).map_err(|e| format!("{m:?}: {e:?}"))
}

/// A module built from `a` (or the default settings), then given the settings
/// of `b` for the channels of the mask through its public fields.
fn edited(a: Option<&M>, b: &M, mask: u32) -> Result<Made, String> {
    macro_rules! go {
        ($t:ty) => {{
            let mut x: $t = match a {
                Some(a) => of(a)?,
                None => Default::default(),
            };
            let y: $t = of(b)?;
            for (c, (to, from)) in x.ch_params.iter_mut().zip(y.ch_params).enumerate() {
                if mask >> c & 1 == 1 {
                    *to = from;
                }
            }
            Ok(Box::new(x))
        }};
    }
    match b.k {
        K::Ao4 => go!(ur20_4ao_ui_16::Mod),
        K::Ao4Diag => go!(ur20_4ao_ui_16_diag::Mod),
        K::Rtd => go!(ur20_4ai_rtd_diag::Mod),
        K::Tc => go!(ur20_4ai_tc_diag::Mod),
        K::Ai4Diag => go!(ur20_4ai_ui_16_diag::Mod),
        K::Ai4x12 => go!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>),
        K::Ai4x16 => go!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>),
        K::Ai8 => go!(ur20_8ai_i_16_diag_hd::Mod),
        _ => unreachable!(),
    }
}

/// As `edited`, but only range and format are set, one field at a time and
/// after the module has already been used.
fn by_field(b: &M, mask: u32) -> Result<Made, String> {
    let used = |d: &dyn ProcessModbusTcpData| {
        let n = d.process_input_byte_count() / 2;
        let _ = d.process_input_data(&vec![77; n]);
        let n = d.process_output_byte_count() / 2;
        let _ = d.process_output_data(&vec![77; n]);
        let _ = d.process_output_values(&vec![ChannelValue::Decimal32(1.0); d.module_type().channel_count()]);
    };
    macro_rules! go {
        ($t:ty, $($f:ident),*) => {{
            let mut x = <$t>::default();
            let y: $t = of(b)?;
            for (c, from) in y.ch_params.into_iter().enumerate() {
                if mask >> c & 1 == 1 {
                    $( x.ch_params[c].$f = from.$f; used(&x); )*
                }
            }
            Ok(Box::new(x))
        }};
    }
    match b.k {
        K::Ao4 => go!(ur20_4ao_ui_16::Mod, data_format, output_range, substitute_value),
        K::Ao4Diag => go!(ur20_4ao_ui_16_diag::Mod, output_range, data_format, channel_diagnostics, substitute_value),
        K::Rtd => go!(ur20_4ai_rtd_diag::Mod, measurement_range, conversion_time, high_limit_value, low_limit_value),
        K::Tc => go!(ur20_4ai_tc_diag::Mod, measurement_range, cold_junction_compensation, high_limit_value),
        K::Ai4Diag => go!(ur20_4ai_ui_16_diag::Mod, measurement_range, data_format, channel_diagnostics),
        K::Ai4x12 => go!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>, data_format, measurement_range),
        K::Ai4x16 => go!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>, measurement_range, data_format),
        K::Ai8 => go!(ur20_8ai_i_16_diag_hd::Mod, data_format, measurement_range),
        _ => unreachable!(),
    }
}

/// Does `d` convert as the block of `m` says?
fn follows(d: &dyn ProcessModbusTcpData, m: &M, raws: &[u16], what: &str, out: &mut Out) -> Res {
    ensure!(
        d.module_type() == m.k.module_type()
            && d.process_input_byte_count() == m.in_len()
            && d.process_output_byte_count() == m.out_len(),
        "{what}: is a {:?} with {} + {} bytes, expected {:?} with {} + {}",
        d.module_type(),
        d.process_input_byte_count(),
        d.process_output_byte_count(),
        m.k.module_type(),
        m.in_len(),
        m.out_len()
    );
    for (n, _) in raws.iter().enumerate() {
        // every channel another raw value
        let regs: Vec<u16> = (0..m.k.channels()).map(|c| raws[(n + c * 5) % raws.len()]).collect();
        let b: Vec<u8> = regs.iter().flat_map(|r| r.to_le_bytes()).collect();
        if m.k.is_analog_out() {
            let (w, h) = (m.decode_out(&b).unwrap(), m.hold(&b).unwrap());
            let v = match d.process_output_data(&regs) {
                Ok(v) if same_all(&v, &w) => v,
                v => fail!("{what}: output {regs:04x?} is {v:?}, expected {w:?}"),
            };
            let h: Vec<u16> = h.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
            let g = d.process_output_values(&v);
            ensure!(g.as_ref().ok() == Some(&h), "{what}: {v:?} is encoded as {g:04x?}, expected {h:04x?}");
        } else {
            let w = m.decode_in(&b).unwrap();
            let v = d.process_input_data(&regs);
            ensure!(
                v.as_ref().is_ok_and(|v| same_all(v, &w)),
                "{what}: input {regs:04x?} is {v:?}, expected {w:?}"
            );
        }
        out.eval(true);
    }
    Ok(())
}

/// A settings list of `n` entries in a module with `c` channels.
fn wrong_length(k: K, n: usize, out: &mut Out) -> Res {
    let m = M::typical(k);
    macro_rules! go {
        ($t:ty) => {{
            let mut x: $t = of(&m)?;
            let y: $t = of(&m)?;
            let z: $t = of(&m)?;
            let w: $t = of(&m)?;
            x.ch_params = x.ch_params.into_iter().chain(y.ch_params).chain(z.ch_params).chain(w.ch_params).take(n).collect();
            Box::new(x) as Made
        }};
    }
    let d = match k {
        K::Ao4 => go!(ur20_4ao_ui_16::Mod),
        K::Ao4Diag => go!(ur20_4ao_ui_16_diag::Mod),
        K::Rtd => go!(ur20_4ai_rtd_diag::Mod),
        K::Ai4Diag => go!(ur20_4ai_ui_16_diag::Mod),
        K::Ai4x12 => go!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>),
        K::Ai4x16 => go!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>),
        K::Ai8 => go!(ur20_8ai_i_16_diag_hd::Mod),
        K::Fcnt => go!(ur20_2fcnt_100::Mod),
        // an array, its length cannot be wrong
        _ => return Ok(()),
    };
    let c = k.channels();
    let (i, o) = (vec![0u16; m.in_len() / 2], vec![0u16; m.out_len() / 2]);
    let val = vec![ChannelValue::Disabled; c];
    let mut r = vec![];
    if m.in_len() > 0 {
        r.push(("process_input_data", d.process_input_data(&i).is_ok()));
    }
    if m.k.is_analog_out() {
        r.push(("process_output_data", d.process_output_data(&o).is_ok()));
    }
    if m.out_len() > 0 {
        r.push(("process_output_values", d.process_output_values(&val).is_ok()));
    }
    for (what, ok) in r {
        ensure!(ok == (n == c), "{:?} with {n} channel settings: {what} accepted = {ok}", k.module_type());
        out.eval(true);
    }
    Ok(())
}

fn raws(dense: bool) -> Vec<u16> {
    let mut v = vec![0, 1, 2, 99, 100, 16383, 16384, 16385, 27647, 27648, 27649, 32766, 32767, 32768, 32769, 40000, 65534, 65535];
    if dense {
        v.extend((0..256u32).map(|i| (i * 257 + 13) as u16));
        v.extend((0..16).map(|b| 1 << b));
    }
    v
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    v.push(family("default modules", ALL.len() as u64, |i, out| {
        let k = ALL[i as usize];
        let d = make_default(k);
        let (s, f) = (settings(k, None)?, factory(k));
        ensure!(
            s.len() == f.len() && s.iter().zip(&f).all(|(s, f)| f.is_none_or(|f| f == *s)),
            "default {:?}: settings are {s:?}, expected {f:?}",
            k.module_type()
        );
        if ANALOG.contains(&k) {
            let all: Vec<u16> = (0..=65535).collect();
            follows(&*d, &disabled(k), &all, &format!("default {:?}", k.module_type()), out)?;
            if k.is_analog_out() {
                for x in [0.0, 1.0, -3.0, 10.0, 20.0, 1e9, f32::NAN, f32::INFINITY] {
                    let r = d.process_output_values(&[
                        ChannelValue::Decimal32(x),
                        ChannelValue::Disabled,
                        ChannelValue::Decimal32(-x),
                        ChannelValue::Decimal32(x),
                    ]);
                    ensure!(r.as_ref().ok() == Some(&vec![0; 4]), "default {k:?}: {x} on disabled channels gives {r:?}");
                    out.eval(true);
                }
            }
            return Ok(());
        }
        // digital, counter, serial and safety modules convert as with any settings
        let m = M::typical(k);
        ensure!(
            d.module_type() == k.module_type()
                && d.process_input_byte_count() == m.in_len()
                && d.process_output_byte_count() == m.out_len(),
            "default {k:?}: {:?} with {} + {} bytes",
            d.module_type(),
            d.process_input_byte_count(),
            d.process_output_byte_count()
        );
        let configured = m.make()?;
        for n in 0..2000usize {
            let fill = |l: usize, com: bool| -> Vec<u8> {
                let mut v: Vec<u8> = (0..l).map(|j| (n * 31 + j * j * 7 + (n >> 3) * j) as u8).collect();
                if com {
                    v[1] = (n % (l - 1)) as u8;
                }
                v
            };
            if m.in_len() > 0 {
                let b = fill(m.in_len(), k == K::Com);
                let r = mc::rack::to_regs(&b);
                let (w, g) = (m.decode_in(&b).unwrap(), d.process_input_data(&r));
                ensure!(g.as_ref().is_ok_and(|g| same_all(g, &w)), "default {k:?}: input {r:04x?} is {g:?}, expected {w:?}");
                ensure!(g == configured.process_input_data(&r), "default and configured {k:?} differ on input {r:04x?}");
                out.eval(true);
            }
            if m.out_len() > 0 {
                let b = fill(m.out_len(), k == K::Com);
                let r = mc::rack::to_regs(&b);
                let (w, g) = (m.decode_out(&b).unwrap(), d.process_output_data(&r));
                ensure!(g.as_ref().is_ok_and(|g| same_all(g, &w)), "default {k:?}: output {r:04x?} is {g:?}, expected {w:?}");
                let val = g.unwrap();
                ensure!(
                    d.process_output_values(&val) == configured.process_output_values(&val),
                    "default and configured {k:?} encode {val:?} differently"
                );
                out.eval(true);
            }
        }
        Ok(())
    }));
    // settings of two blocks mixed through the public fields
    let js = t.pick(20, 60);
    v.push(family("settings taken over from another module", (ANALOG.len() * js * js) as u64, move |i, out| {
        let k = ANALOG[i as usize % ANALOG.len()];
        let i = i as usize / ANALOG.len();
        let (a, b) = (M::variant(k, i % js), M::variant(k, i / js));
        let dis = disabled(k);
        let raws = raws(false);
        for mask in 0..1u32 << k.channels() {
            let d = edited(Some(&a), &b, mask)?;
            follows(&*d, &mixed(&a, &b, mask), &raws, &format!("{a:?} with channels {mask:#b} of {b:?}"), out)?;
            if i % js == 0 {
                let d = edited(None, &b, mask)?;
                follows(&*d, &mixed(&dis, &b, mask), &raws, &format!("default with channels {mask:#b} of {b:?}"), out)?;
                let d = by_field(&b, mask)?;
                follows(&*d, &mixed(&dis, &b, mask), &raws, &format!("default with fields of channels {mask:#b} of {b:?}"), out)?;
            }
        }
        out.sample(|| format!("{a:?} with channels of {b:?}"));
        out.outcome(&i);
        Ok(())
    }));
    // every setting of a single channel
    v.push(family("every range and format of every channel", (ANALOG.len() * 8) as u64, move |i, out| {
        let k = ANALOG[i as usize % ANALOG.len()];
        let ch = i as usize / ANALOG.len();
        if ch >= k.channels() {
            return Ok(());
        }
        let (h, s) = layout(k);
        let codes = k.codes();
        let own = &codes[h + ch * s..h + (ch + 1) * s];
        let raws = raws(true);
        let mut p = vec![0usize; s];
        loop {
            let mut b = disabled(k);
            for (j, x) in p.iter().enumerate() {
                if own[j] > 0 {
                    b.p[h + ch * s + j] = *x as u16;
                }
            }
            let d = by_field(&b, 1 << ch)?;
            follows(&*d, &b, &raws, &format!("default with channel {ch} set to {:?}", &b.p[h + ch * s..h + (ch + 1) * s]), out)?;
            // next combination; only ranges and formats have more than three codes here
            let mut j = 0;
            loop {
                if j == s {
                    return Ok(());
                }
                p[j] += 1;
                if own[j] > 0 && p[j] < own[j] as usize {
                    break;
                }
                p[j] = 0;
                j += 1;
            }
            if out.evals % 64 == 0 {
                out.tick();
            }
        }
    }));
    v.push(family("frame size of a serial module", 2 * 2 * 15, |i, out| {
        use ur20::ur20_1com_232_485_422 as com;
        let (from, to, n) = (i % 2 == 0, i / 2 % 2 == 0, (i / 4) as usize);
        let mut d: com::Mod = if n % 2 == 0 { of(&M::com(from))? } else { Default::default() };
        let val = |n: usize| {
            let mut o = com::ProcessOutput::default();
            o.data = (0..n as u8).map(|b| b ^ 0x5A).collect();
            ChannelValue::ComRsOut(o)
        };
        let _ = d.process_output_values(&[val(3)]);
        d.mod_params.process_data_len =
            if to { com::ProcessDataLength::EightBytes } else { com::ProcessDataLength::SixteenBytes };
        let size = if to { 8 } else { 16 };
        ensure!(
            d.process_input_byte_count() == size && d.process_output_byte_count() == size,
            "a serial module set to {size} byte frames has {} + {} bytes",
            d.process_input_byte_count(),
            d.process_output_byte_count()
        );
        let mut w = vec![0u8; size];
        if n <= size - 2 {
            w[1] = n as u8;
            for j in 0..n {
                w[2 + j] = j as u8 ^ 0x5A;
            }
        }
        let want = (n <= size - 2).then(|| mc::rack::to_regs(&w));
        let r = d.process_output_values(&[val(n)]);
        ensure!(r.as_ref().ok() == want.as_ref(), "a serial module set to {size} byte frames encodes {n} bytes as {r:04x?}");
        out.eval(true);
        Ok(())
    }));
    v.push(family("wrong number of channel settings", (ALL.len() * 17) as u64, |i, out| {
        wrong_length(ALL[i as usize % ALL.len()], i as usize / ALL.len(), out)
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C29",
        level: Level::Exploration,
        rule: "default modules and modules whose public settings were edited (all channel masks, all codes of every channel) are run against the bytewise reference for the settings they now have; a case is one conversion of all channels",
        assumptions: &["settings lists of digital modules, which no conversion depends on, may have any length"],
        families,
    })
}
