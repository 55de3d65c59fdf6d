//! C22: the module catalogue is complete and consistent.
use mc::engine::*;
use mc::{ensure, fail};
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};
use ur20::ur20_fbc_mod_tcp::module_list_from_registers;
use ur20::ModuleCategory::{self, *};
use ur20::ModuleType::{self, *};

type Row = (&'static str, ModuleType, Option<u32>, usize, ModuleCategory);

/// Name, type, id, channels, category.
#[rustfmt::skip]
const TABLE: [Row; 63] = [
    ("UR20_4DI_P", UR20_4DI_P, Some(0x0009_1F84), 4, DI),
    ("UR20_4DI_P_3W", UR20_4DI_P_3W, Some(0x001B_1F84), 4, DI),
    ("UR20_8DI_P_2W", UR20_8DI_P_2W, Some(0x0013_1FC1), 8, DI),
    ("UR20_8DI_P_3W", UR20_8DI_P_3W, Some(0x000A_1FC1), 8, DI),
    ("UR20_8DI_P_3W_HD", UR20_8DI_P_3W_HD, Some(0x0003_1FC1), 8, DI),
    ("UR20_16DI_P", UR20_16DI_P, Some(0x0004_9FC2), 16, DI),
    ("UR20_16DI_P_PLC_INT", UR20_16DI_P_PLC_INT, Some(0x0005_9FC2), 16, DI),
    ("UR20_2DI_P_TS", UR20_2DI_P_TS, Some(0x0F01_4700), 2, DI),
    ("UR20_4DI_P_TS", UR20_4DI_P_TS, Some(0x0F02_4700), 4, DI),
    ("UR20_4DI_N", UR20_4DI_N, Some(0x0001_1F84), 4, DI),
    ("UR20_8DI_N_3W", UR20_8DI_N_3W, Some(0x0002_1FC1), 8, DI),
    ("UR20_16DI_N", UR20_16DI_N, Some(0x000C_9FC2), 16, DI),
    ("UR20_16DI_N_PLC_INT", UR20_16DI_N_PLC_INT, Some(0x000D_9FC2), 16, DI),
    ("UR20_4DI_2W_230V_AC", UR20_4DI_2W_230V_AC, Some(0x0016_9F84), 4, DI),
    ("UR20_4DO_P", UR20_4DO_P, Some(0x0101_2FA0), 4, DO),
    ("UR20_4DO_P_2A", UR20_4DO_P_2A, Some(0x0105_2FA0), 4, DO),
    ("UR20_4DO_PN_2A", UR20_4DO_PN_2A, Some(0x0115_2FC8), 4, DO),
    ("UR20_8DO_P", UR20_8DO_P, Some(0x0102_2FC8), 8, DO),
    ("UR20_8DO_P_2W_HD", UR20_8DO_P_2W_HD, Some(0x0119_2FC8), 8, DO),
    ("UR20_16DO_P", UR20_16DO_P, Some(0x0103_AFD0), 16, DO),
    ("UR20_16DO_P_PLC_INT", UR20_16DO_P_PLC_INT, Some(0x0104_AFD0), 16, DO),
    ("UR20_4DO_N", UR20_4DO_N, Some(0x010A_2FA0), 4, DO),
    ("UR20_4DO_N_2A", UR20_4DO_N_2A, Some(0x010B_2FA0), 4, DO),
    ("UR20_8DO_N", UR20_8DO_N, Some(0x010C_2FC8), 8, DO),
    ("UR20_16DO_N", UR20_16DO_N, Some(0x010D_AFD0), 16, DO),
    ("UR20_16DO_N_PLC_INT", UR20_16DO_N_PLC_INT, Some(0x010E_AFD0), 16, DO),
    ("UR20_4RO_SSR_255", UR20_4RO_SSR_255, Some(0x0107_2FA0), 4, DO),
    ("UR20_4RO_CO_255", UR20_4RO_CO_255, Some(0x0106_2FA0), 4, DO),
    ("UR20_2PWM_PN_0_5A", UR20_2PWM_PN_0_5A, Some(0x0908_4880), 2, PWM),
    ("UR20_2PWM_PN_2A", UR20_2PWM_PN_2A, Some(0x0909_4880), 2, PWM),
    ("UR20_4AI_UI_16", UR20_4AI_UI_16, Some(0x0401_15C4), 4, AI),
    ("UR20_4AI_UI_16_DIAG", UR20_4AI_UI_16_DIAG, Some(0x0402_1544), 4, AI),
    ("UR20_4AI_UI_DIF_16_DIAG", UR20_4AI_UI_DIF_16_DIAG, Some(0x041E_1544), 4, AI),
    ("UR20_4AI_UI_16_HD", UR20_4AI_UI_16_HD, Some(0x0413_15C4), 4, AI),
    ("UR20_4AI_UI_16_DIAG_HD", UR20_4AI_UI_16_DIAG_HD, Some(0x0414_1544), 4, AI),
    ("UR20_4AI_UI_12", UR20_4AI_UI_12, Some(0x0411_15C4), 4, AI),
    ("UR20_8AI_I_16_HD", UR20_8AI_I_16_HD, Some(0x0404_15C5), 8, AI),
    ("UR20_8AI_I_16_DIAG_HD", UR20_8AI_I_16_DIAG_HD, Some(0x0405_1545), 8, AI),
    ("UR20_8AI_I_PLC_INT", UR20_8AI_I_PLC_INT, Some(0x0409_15C5), 8, AI),
    ("UR20_4AI_R_HS_16_DIAG", UR20_4AI_R_HS_16_DIAG, Some(0x041C_1544), 4, AI),
    ("UR20_2AI_SG_24_DIAG", UR20_2AI_SG_24_DIAG, Some(0x041B_356D), 2, AI),
    ("UR20_3EM_230V_AC", UR20_3EM_230V_AC, Some(0x0418_356D), 8, AI),
    ("UR20_4AO_UI_16", UR20_4AO_UI_16, Some(0x0502_25E0), 4, AO),
    ("UR20_4AO_UI_16_M", UR20_4AO_UI_16_M, Some(0x0506_25E0), 4, AO),
    ("UR20_4AO_UI_16_DIAG", UR20_4AO_UI_16_DIAG, Some(0x0501_2560), 4, AO),
    ("UR20_4AO_UI_16_M_DIAG", UR20_4AO_UI_16_M_DIAG, Some(0x0505_2560), 4, AO),
    ("UR20_4AO_UI_16_HD", UR20_4AO_UI_16_HD, Some(0x0504_25E0), 4, AO),
    ("UR20_4AO_UI_16_DIAG_HD", UR20_4AO_UI_16_DIAG_HD, Some(0x0503_2560), 4, AO),
    ("UR20_1CNT_100_1DO", UR20_1CNT_100_1DO, Some(0x08C1_3800), 1, CNT),
    ("UR20_2CNT_100", UR20_2CNT_100, Some(0x08C3_3800), 2, CNT),
    ("UR20_1CNT_500", UR20_1CNT_500, Some(0x08C4_3801), 1, CNT),
    ("UR20_2FCNT_100", UR20_2FCNT_100, Some(0x0881_28EE), 2, CNT),
    ("UR20_1SSI", UR20_1SSI, Some(0x09C1_7880), 1, COM),
    ("UR20_1COM_232_485_422", UR20_1COM_232_485_422, Some(0x0E41_3FED), 1, COM),
    ("UR20_1COM_SAI_PRO", UR20_1COM_SAI_PRO, Some(0x0BC1_E800), 1, COM),
    ("UR20_4COM_IO_LINK", UR20_4COM_IO_LINK, Some(0x0E81_276D), 4, COM),
    ("UR20_4AI_RTD_DIAG", UR20_4AI_RTD_DIAG, Some(0x0406_1544), 4, RTD),
    ("UR20_4AI_TC_DIAG", UR20_4AI_TC_DIAG, Some(0x0407_1544), 4, TC),
    ("UR20_PF_I", UR20_PF_I, None, 0, PF),
    ("UR20_PF_O", UR20_PF_O, None, 0, PF),
    ("UR20_PF_O_1DI_SIL", UR20_PF_O_1DI_SIL, Some(0x1801_9F43), 0, PF),
    ("UR20_PF_O_2DI_SIL", UR20_PF_O_2DI_SIL, Some(0x1803_9F43), 0, PF),
    ("UR20_PF_O_2DI_DELAY_SIL", UR20_PF_O_2DI_DELAY_SIL, Some(0x1802_9F43), 0, PF),
];

const CATEGORIES: [(&str, ModuleCategory); 11] = [
    ("DI", DI),
    ("DO", DO),
    ("AI", AI),
    ("AO", AO),
    ("CNT", CNT),
    ("PWM", PWM),
    ("RTD", RTD),
    ("TC", TC),
    ("COM", COM),
    ("RO", RO),
    ("PF", PF),
];

fn by_name() -> &'static HashMap<String, ModuleType> {
    static T: OnceLock<HashMap<String, ModuleType>> = OnceLock::new();
    T.get_or_init(|| TABLE.iter().map(|r| (r.0.to_string(), r.1.clone())).collect())
}
fn by_id() -> &'static HashMap<u32, ModuleType> {
    static T: OnceLock<HashMap<u32, ModuleType>> = OnceLock::new();
    T.get_or_init(|| {
        TABLE
            .iter()
            .filter_map(|r| r.2.map(|i| (i, r.1.clone())))
            .collect()
    })
}

/// Parse a string with only ASCII letters and compare with the table.
fn name(s: &str, out: &mut Out) -> Res {
    let norm: String = s
        .chars()
        .map(|c| if c == '-' { '_' } else { c.to_ascii_uppercase() })
        .collect();
    let want = by_name().get(&norm);
    let got = s.parse::<ModuleType>();
    match (&got, want) {
        (Ok(g), Some(w)) if g == w => {}
        (Err(_), None) => {}
        _ => fail!("parsing the type name {s:?} gives {got:?}, expected {want:?}"),
    }
    out.eval(want.is_some());
    Ok(())
}

fn category(s: &str, out: &mut Out) -> Res {
    let want = CATEGORIES
        .iter()
        .find(|(n, _)| n.eq_ignore_ascii_case(s))
        .map(|c| &c.1);
    let got = s.parse::<ModuleCategory>();
    match (&got, want) {
        (Ok(g), Some(w)) if g == w => {}
        (Err(_), None) => {}
        _ => fail!("parsing the category {s:?} gives {got:?}, expected {want:?}"),
    }
    out.eval(want.is_some());
    Ok(())
}

/// All strings one ASCII edit away.
fn edits(s: &str, mut f: impl FnMut(&str) -> Res) -> Res {
    let b: Vec<char> = s.chars().collect();
    let go = |v: Vec<char>, f: &mut dyn FnMut(&str) -> Res| f(&v.into_iter().collect::<String>());
    // characters without an upper case that is ASCII
    let odd = ['é', 'Ω', '–', '‐', '−', '中', '\u{a0}', '²', 'µ', 'ﾀ', '＿', '４', '\u{200b}'];
    let all: Vec<char> = (0..128u8).map(char::from).chain(odd).collect();
    for i in 0..=b.len() {
        for &c in &all {
            let mut v = b.clone();
            v.insert(i, c);
            go(v, &mut f)?;
            if i < b.len() {
                let mut v = b.clone();
                v[i] = c;
                go(v, &mut f)?;
            }
        }
        if i < b.len() {
            let mut v = b.clone();
            v.remove(i);
            go(v, &mut f)?;
        }
        if i + 1 < b.len() {
            let mut v = b.clone();
            v.swap(i, i + 1);
            go(v, &mut f)?;
        }
    }
    Ok(())
}

fn id(i: u32) -> Res {
    let got = ModuleType::try_from_u32(i);
    let want = by_id().get(&i);
    match (&got, want) {
        (Ok(g), Some(w)) if g == w => Ok(()),
        (Err(_), None) => Ok(()),
        _ => Err(format!("id {i:#010x} gives {got:?}, expected {want:?}")),
    }
}

fn list(regs: &[u16], out: &mut Out) -> Res {
    let got = module_list_from_registers(regs);
    let want: Option<Vec<ModuleType>> = if regs.is_empty() || regs.len() % 2 == 1 {
        None
    } else {
        regs.chunks(2)
            .map(|c| by_id().get(&(u32::from(c[0]) << 16 | u32::from(c[1]))).cloned())
            .collect()
    };
    match (&got, &want) {
        (Ok(g), Some(w)) if g == w => {}
        (Err(_), None) => {}
        _ => fail!("register list {regs:04x?} gives {got:?}, expected {want:?}"),
    }
    out.eval(want.is_some());
    if out.evals % 16 == 0 {
        out.outcome(&regs);
    }
    Ok(())
}

fn words(i: u32) -> [u16; 2] {
    [(i >> 16) as u16, i as u16]
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    v.push(family("all 2^32 module ids", 1 << 16, |hi, out| {
        let mut known: Vec<(u32, &ModuleType)> = by_id()
            .iter()
            .filter(|(k, _)| **k >> 16 == hi as u32)
            .map(|(k, v)| (*k, v))
            .collect();
        known.sort_by_key(|k| k.0);
        for lo in 0..1u32 << 16 {
            let i = (hi as u32) << 16 | lo;
            match ModuleType::try_from_u32(i) {
                Err(_) if known.is_empty() => {}
                _ => id(i)?,
            }
        }
        out.evals += 1 << 16;
        out.nontrivial += known.len() as u64;
        for k in known {
            out.outcome(&k.0);
            out.sample(|| format!("{:#010x} is {:?}", k.0, k.1));
        }
        out.tick();
        Ok(())
    }));
    v.push(family("ids, channels and categories of every type", 63, |i, out| {
        let r = &TABLE[i as usize];
        if let Some(x) = r.2 {
            id(x)?;
        }
        ensure!(
            r.1.channel_count() == r.3,
            "{:?} has {} channels, documented are {}",
            r.1,
            r.1.channel_count(),
            r.3
        );
        let c = ModuleCategory::from(r.1.clone());
        ensure!(c == r.4, "{:?} is in category {c:?}, documented is {:?}", r.1, r.4);
        ensure!(format!("{:?}", r.1) == r.0, "{:?} is printed differently from {}", r.1, r.0);
        out.eval(true);
        Ok(())
    }));
    // every combination of letter cases and separators
    let cap = t.pick(16u32, 64);
    v.push(family("every type name in every case and separator", 63 * 64, move |i, out| {
        let r = &TABLE[(i % 63) as usize];
        let part = i / 63;
        let n = r.0.chars().filter(|c| c.is_ascii_alphabetic() || *c == '_').count() as u32;
        // in the quick tier the last positions change together
        let bits = n.min(cap);
        let total = 1u64 << bits;
        let mut k = part;
        while k < total {
            let mut j = 0;
            let s: String = r
                .0
                .chars()
                .map(|c| {
                    if c.is_ascii_alphabetic() || c == '_' {
                        let b = k >> (j % bits) & 1 == 1;
                        j += 1;
                        match (c, b) {
                            ('_', true) => '-',
                            (c, true) => c.to_ascii_lowercase(),
                            (c, false) => c,
                        }
                    } else {
                        c
                    }
                })
                .collect();
            name(&s, out)?;
            k += 64;
        }
        Ok(())
    }));
    let forms: fn(&str) -> Vec<String> = |s| {
        vec![s.to_string(), s.to_ascii_lowercase().replace('_', "-")]
    };
    v.push(family("every edit of one character of every type name", 63, move |i, out| {
        let r = &TABLE[i as usize];
        for s in forms(r.0) {
            edits(&s, |e| name(e, out))?;
            for a in 0..=s.len() {
                name(&s[a..], out)?;
                name(&s[..a], out)?;
            }
        }
        out.sample(|| format!("edits of {}", r.0));
        Ok(())
    }));
    if t == Tier::Thorough {
        v.push(family("every edit of two characters of every type name", 63 * 24, move |i, out| {
            let r = &TABLE[(i % 63) as usize];
            let alphabet: Vec<char> = "UR0123456789_-ADILOPSWHTXax. ".chars().collect();
            let at = (i / 63) as usize;
            let b: Vec<char> = r.0.chars().collect();
            if at >= b.len() {
                return Ok(());
            }
            let mut firsts = vec![];
            for &c in &alphabet {
                let mut v = b.clone();
                v[at] = c;
                firsts.push(v);
                let mut v = b.clone();
                v.insert(at, c);
                firsts.push(v);
            }
            let mut v = b.clone();
            v.remove(at);
            firsts.push(v);
            for f in firsts {
                let f: String = f.into_iter().collect();
                edits(&f, |e| name(e, out))?;
            }
            Ok(())
        }));
    }
    v.push(family("the start of one name with the end of another", 63 * 63, |i, out| {
        let (a, b) = (TABLE[(i % 63) as usize].0, TABLE[(i / 63) as usize].0);
        for x in 0..=a.len() {
            for y in 0..=b.len() {
                name(&format!("{}{}", &a[..x], &b[y..]), out)?;
            }
        }
        Ok(())
    }));
    v.push(family("category names", 11, move |i, out| {
        let s = CATEGORIES[i as usize].0;
        for k in 0..1 << s.len() {
            let c: String = s
                .chars()
                .enumerate()
                .map(|(j, c)| if k >> j & 1 == 1 { c.to_ascii_lowercase() } else { c })
                .collect();
            category(&c, out)?;
        }
        edits(s, |e| category(e, out))?;
        edits(&s.to_ascii_lowercase(), |e| category(e, out))
    }));
    v.push(family("every ASCII string of up to three characters as category", 129, |i, out| {
        let mut b = vec![];
        if i < 128 {
            b.push(i as u8);
        }
        let mut go = |b: &[u8]| category(std::str::from_utf8(b).unwrap(), out);
        go(&b)?;
        if b.is_empty() {
            return Ok(());
        }
        for y in 0..128 {
            go(&[b[0], y])?;
            for z in 0..128 {
                go(&[b[0], y, z])?;
            }
        }
        Ok(())
    }));
    v.push(family("type names as category and category names as type", 63, |i, out| {
        category(TABLE[i as usize].0, out)?;
        if i < 11 {
            name(CATEGORIES[i as usize].0, out)?;
        }
        name("", out)
    }));
    let names = t.pick(2usize, 63);
    v.push(family("every Unicode character at every place of a name", 0x110, move |i, out| {
        for c in (i as u32 * 0x1000..(i as u32 + 1) * 0x1000).filter_map(char::from_u32) {
            // letters of other scripts with an ASCII other case are left open
            if c.is_ascii() || c.to_uppercase().all(|c| c.is_ascii()) || c.to_lowercase().all(|c| c.is_ascii()) {
                continue;
            }
            let (mut u, mut s) = ([0; 4], String::new());
            let c = c.encode_utf8(&mut u);
            let types = [13, 57].into_iter().chain((0..63).filter(|k| *k != 13 && *k != 57)).take(names).map(|k| TABLE[k].0);
            for (k, n) in types.chain(CATEGORIES.iter().map(|c| c.0)).enumerate() {
                for at in 0..=n.len() {
                    for skip in 0..=usize::from(at < n.len()) {
                        s.clear();
                        s.push_str(&n[..at]);
                        s.push_str(c);
                        s.push_str(&n[at + skip..]);
                        if k < names {
                            name(&s, out)?;
                        } else {
                            category(&s, out)?;
                        }
                    }
                }
            }
        }
        Ok(())
    }));
    // module lists
    let ids: Arc<Vec<u32>> = Arc::new(TABLE.iter().filter_map(|r| r.2).collect());
    let n = ids.len() as u64;
    let a = ids.clone();
    v.push(family("module lists of up to three modules", n * n, move |i, out| {
        let x = a[(i % n) as usize];
        let y = a[(i / n) as usize];
        list(&[], out)?;
        list(&words(x), out)?;
        list(&words(x)[..1], out)?;
        list(&[words(x), words(y)].concat(), out)?;
        list(&[words(x), words(y)].concat()[..3], out)?;
        list(&[words(x), [words(y)[1], words(y)[0]]].concat(), out)?;
        list(&[[words(x)[1], words(x)[0]], words(y)].concat(), out)?;
        for z in a.iter() {
            list(&[words(x), words(y), words(*z)].concat(), out)?;
        }
        Ok(())
    }));
    let a = ids.clone();
    v.push(family("long module lists with one bad entry", 65 * n, move |i, out| {
        let len = (i % 65) as usize;
        let k = (i / 65) as usize;
        let good: Vec<u16> = (0..len)
            .flat_map(|j| words(a[(k + j * (1 + k % 7)) % a.len()]))
            .collect();
        list(&good, out)?;
        for pos in 0..good.len() {
            let mut v = good.clone();
            v.remove(pos);
            list(&v, out)?;
            let mut v = good.clone();
            v.insert(pos, 0);
            list(&v, out)?;
            let bit = (pos * 5 + k) % 16;
            let mut v = good.clone();
            v[pos] ^= 1 << bit;
            list(&v, out)?;
            let mut v = good.clone();
            v[pos] = 0;
            list(&v, out)?;
            if pos % 2 == 0 {
                let mut v = good.clone();
                v.swap(pos, pos + 1);
                list(&v, out)?;
                // empty slot
                let mut v = good.clone();
                v[pos] = 0;
                v[pos + 1] = 0;
                list(&v, out)?;
                let mut v = good.clone();
                v[pos] = 0xFFFF;
                v[pos + 1] = 0xFFFF;
                list(&v, out)?;
            }
        }
        Ok(())
    }));
    // more modules than any station has
    let top = t.pick(700u64, 5000);
    let a = ids.clone();
    v.push(family("lists of any length", top + 6, move |i, out| {
        let len = if i < top {
            i as usize
        } else {
            [32_767, 32_768, 32_769, 65_535, 65_536, 100_001][(i - top) as usize]
        };
        for kind in 0..3usize {
            let good: Vec<u16> = (0..len)
                .flat_map(|j| words(a[if kind == 0 { i as usize } else { i as usize + j * kind } % a.len()]))
                .collect();
            list(&good, out)?;
            let mut places = vec![good.len()];
            places.extend([0, 1, 2, good.len() / 2].map(|k| good.len() - k.min(good.len())));
            places.extend((0..good.len()).step_by(good.len() / 12 + 1));
            for pos in places {
                // one word missing, additional or wrong
                let mut v = good.clone();
                v.insert(pos, good.first().copied().unwrap_or(0));
                list(&v, out)?;
                if pos < good.len() {
                    v = good.clone();
                    v.remove(pos);
                    list(&v, out)?;
                    for x in [0, 0xFFFF] {
                        v = good.clone();
                        v[pos] = x;
                        list(&v, out)?;
                        v[pos ^ 1] = x;
                        list(&v, out)?;
                    }
                }
            }
        }
        out.tick();
        Ok(())
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C22",
        level: Level::Exploration,
        rule: "all 2^32 ids; all case and separator combinations, single-character edits (every Unicode character at every place of two type names, thorough all, and of every category name), prefixes, suffixes and pairwise splices of all 63 type names; all ASCII strings of up to three characters as category; module lists of up to 64 entries with every single entry damaged, lists of every length up to 700 (thorough: 5000) and some up to 100001 modules with entries damaged at the ends and in between; non-trivial = an id, name or list that must be accepted",
        assumptions: &["only ASCII case variants count as letter case"],
        families,
    })
}
