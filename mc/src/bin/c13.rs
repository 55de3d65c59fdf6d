//! C13: serial frames are encoded and decoded losslessly.
use mc::com::{telling_segments, TELLING_PARTS};
use mc::engine::*;
use mc::rack::*;
use mc::spec::*;
use mc::ensure;
use ur20::ur20_1com_232_485_422::{ProcessDataLength, ProcessInput, ProcessOutput};
use ur20::ChannelValue;

fn content(kind: usize, n: usize, status: u8) -> Vec<u8> {
    (0..n)
        .map(|j| match kind {
            0 => (j * 37 + usize::from(status) + 1) as u8,
            1 => 0,
            2 => 0xFF,
            _ => !(j as u8),
        })
        .collect()
}

fn pdl(eight: bool) -> ProcessDataLength {
    if eight {
        ProcessDataLength::EightBytes
    } else {
        ProcessDataLength::SixteenBytes
    }
}

fn msg(x: u64, tx: usize, ack: usize, data: Vec<u8>) -> ProcessOutput {
    let mut m = ProcessOutput::default();
    m.rx_buf_flush = x & 1 != 0;
    m.tx_buf_flush = x & 2 != 0;
    m.disable_tx_hw_buffer = x & 4 != 0;
    m.reset = x & 8 != 0;
    m.tx_cnt = tx;
    m.rx_cnt_ack = ack;
    m.data = data;
    m
}

const CNTS: [usize; 12] = [0, 1, 2, 3, 4, 5, 7, 8, 255, 256, 259, usize::MAX];

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // every three bytes next to each other in the user data
    v.push(family("every three bytes, every five special ones", TELLING_PARTS * 2, move |i, out| {
        let (part, eight) = (i % TELLING_PARTS, i / TELLING_PARTS == 1);
        let m = M::com(eight).make()?;
        let size = if eight { 8 } else { 16 };
        for (n, s) in telling_segments(part, size - 2).into_iter().enumerate() {
            let status = n as u8;
            let mut f = vec![status, s.len() as u8];
            f.extend_from_slice(s);
            f.resize(size, 0);
            let (wi, wo) = (V::ComIn { status, data: s.to_vec() }, V::ComOut { status, data: s.to_vec() });
            match m.process_input_data(&to_regs(&f)) {
                Ok(v) => ensure!(v.len() == 1 && same(&v[0], &wi), "input frame {f:02x?} decoded as {v:?}"),
                e => mc::fail!("input frame {f:02x?}: {e:?}"),
            }
            let v = match m.process_output_data(&to_regs(&f)) {
                Ok(v) => v,
                e => mc::fail!("output frame {f:02x?}: {e:?}"),
            };
            ensure!(v.len() == 1 && same(&v[0], &wo), "output frame {f:02x?} decoded as {v:?}");
            let e = m.process_output_values(&v);
            ensure!(e.as_ref().is_ok_and(|e| *e == to_regs(&f)), "output frame {f:02x?} encoded again as {e:02x?}");
            out.eval(true);
        }
        out.outcome(&(part, eight));
        Ok(())
    }));
    // byte frames of any length
    let lmax = t.pick(40u64, 262);
    v.push(family("decode byte frames", 65536 * lmax, move |i, out| {
        let (status, i) = (i as u8, i >> 8);
        let (n, len) = (i as u8, (i >> 8) as usize);
        for kind in 0..2 {
            let mut f = vec![status, n];
            f.extend(content(kind * 3, 262, status));
            f.truncate(len);
            let ok = len >= 2 && len >= 2 + usize::from(n);
            let (a, b) = (ProcessInput::try_from_byte_message(&f), ProcessOutput::try_from_byte_message(&f));
            if !ok {
                ensure!(a.is_err(), "input frame of {len} bytes {f:02x?} accepted: {a:?}");
                ensure!(b.is_err(), "output frame of {len} bytes {f:02x?} accepted: {b:?}");
            } else {
                let d = f[2..2 + usize::from(n)].to_vec();
                let (wa, wb) = (
                    V::ComIn { status, data: d.clone() },
                    V::ComOut { status, data: d },
                );
                match a {
                    Ok(a) => ensure!(same(&ChannelValue::ComRsIn(a.clone()), &wa), "input frame {f:02x?} decoded as {a:?}"),
                    Err(e) => mc::fail!("input frame {f:02x?} refused: {e:?}"),
                }
                match b {
                    Ok(b) => ensure!(same(&ChannelValue::ComRsOut(b.clone()), &wb), "output frame {f:02x?} decoded as {b:?}"),
                    Err(e) => mc::fail!("output frame {f:02x?} refused: {e:?}"),
                }
            }
            out.sample(|| format!("frame {f:02x?}: {}", if ok { "decoded" } else { "refused" }));
            out.eval(ok);
        }
        if len < 24 {
            out.outcome(&(status, n, len));
        }
        Ok(())
    }));
    // the module's registers
    v.push(family("decode registers", 65536 * 2, move |i, out| {
        let (status, i) = (i as u8, i >> 8);
        let (n, e) = (i as u8, i >> 8);
        let m = M::com(e == 0);
        let module = m.make()?;
        for kind in 0..4 {
            let mut f = vec![status, n];
            f.extend(content(kind, m.com_len() - 2, status));
            let regs = to_regs(&f);
            let (wi, wo) = (m.decode_in(&f), m.decode_out(&f));
            let (gi, go) = (module.process_input_data(&regs), module.process_output_data(&regs));
            ensure!(
                match (&gi, &wi) { (Ok(g), Some(w)) => same_all(g, w), (Err(_), None) => true, _ => false },
                "{} byte module, input registers {regs:04x?}: {gi:?}, expected {wi:?}", m.com_len()
            );
            ensure!(
                match (&go, &wo) { (Ok(g), Some(w)) => same_all(g, w), (Err(_), None) => true, _ => false },
                "{} byte module, output registers {regs:04x?}: {go:?}, expected {wo:?}", m.com_len()
            );
            // and back
            if let Ok(g) = go {
                let back = module.process_output_values(&g);
                let mut z = f.clone();
                z[2 + usize::from(n)..].fill(0);
                let z = to_regs(&z);
                ensure!(back.as_ref().ok() == Some(&z), "{} byte module: {g:?} encoded as {back:04x?}, expected {z:04x?}", m.com_len());
            }
            // too few registers for the header or the stated length
            for k in 0..m.com_len() / 2 {
                if k == 0 || 2 * k < 2 + usize::from(n) {
                    let (a, b) = (module.process_input_data(&regs[..k]), module.process_output_data(&regs[..k]));
                    ensure!(a.is_err() && b.is_err(), "{} byte module: {k} registers {:04x?} accepted: {a:?} {b:?}", m.com_len(), &regs[..k]);
                }
            }
            out.eval(wi.is_some());
        }
        out.outcome(&(status, n, e));
        Ok(())
    }));
    // encoding
    let bytes = t.pick(4usize, 256);
    v.push(family("encode", 16 * 144 * 40 * 2, move |i, out| {
        let (fl, i) = (i % 16, i / 16);
        let (tx, i) = (CNTS[(i % 12) as usize], i / 12);
        let (ack, i) = (CNTS[(i % 12) as usize], i / 12);
        let (e, i) = (i % 2 == 0, i / 2);
        // lengths up to 33, then ones that wrap in a byte
        let n = if i < 34 { i as usize } else { [254, 255, 256, 257, 262, 270][(i - 34) as usize] };
        let u = if e { 6 } else { 14 };
        let m = M::com(e).make()?;
        for k in 0..bytes {
            let d: Vec<u8> = (0..n).map(|j| (j * 91 + k * 67 + 1) as u8).collect();
            let x = msg(fl, tx, ack, d.clone());
            let ok = tx < 4 && ack < 4 && n <= u;
            let r = x.try_into_byte_message(&pdl(e));
            let q = m.process_output_values(&[ChannelValue::ComRsOut(x.clone())]);
            if ok {
                let mut w = vec![0u8; u + 2];
                w[0] = (fl & 7) as u8 | (tx << 3) as u8 | (ack << 5) as u8 | ((fl >> 3) << 7) as u8;
                w[1] = n as u8;
                w[2..2 + n].copy_from_slice(&d);
                ensure!(r.as_ref().ok() == Some(&w), "{x:?} for {} byte frames encoded as {r:02x?}, expected {w:02x?}", u + 2);
                let regs = to_regs(&w);
                ensure!(q.as_ref().ok() == Some(&regs), "{x:?} for {} byte frames encoded as registers {q:04x?}, expected {regs:04x?}", u + 2);
                let back = ProcessOutput::try_from_byte_message(&w);
                ensure!(back.as_ref().ok() == Some(&x), "{x:?} encoded as {w:02x?} decodes as {back:?}");
            } else {
                ensure!(r.is_err(), "{x:?} for {} byte frames encoded as {r:02x?} instead of being refused", u + 2);
                ensure!(q.is_err(), "{x:?} for {} byte frames encoded as {q:04x?} instead of being refused", u + 2);
            }
            out.eval(ok);
        }
        out.outcome(&(fl, tx, ack, e, n));
        Ok(())
    }));
    // buffers and data much longer than any frame
    v.push(family("frames in long buffers, too much data", 256 * 2, move |i, out| {
        let (n, e) = ((i / 2) as usize, i % 2 == 0);
        let module = M::com(e).make()?;
        for len in wrapped_lengths(n + 2).into_iter().chain(wrapped_lengths(2)) {
            let status = (len * 31 + n) as u8;
            let mut f = vec![status, n as u8];
            f.extend(content(0, n, status));
            f.resize(len.max(n + 2), 0xA5);
            f.truncate(len);
            let (a, b) = (ProcessInput::try_from_byte_message(&f), ProcessOutput::try_from_byte_message(&f));
            if len < n + 2 {
                ensure!(a.is_err() && b.is_err(), "frame of {len} bytes accepted that states {n} bytes of data: {a:?} {b:?}");
                continue;
            }
            let d = f[2..n + 2].to_vec();
            ensure!(
                a.as_ref().is_ok_and(|a| same(&ChannelValue::ComRsIn(a.clone()), &V::ComIn { status, data: d.clone() })),
                "input frame {:02x?} at the start of {len} bytes decoded as {a:?}", &f[..n + 2]
            );
            ensure!(
                b.as_ref().is_ok_and(|b| same(&ChannelValue::ComRsOut(b.clone()), &V::ComOut { status, data: d.clone() })),
                "output frame {:02x?} at the start of {len} bytes decoded as {b:?}", &f[..n + 2]
            );
            out.eval(true);
        }
        if n < 16 {
            for len in wrapped_lengths(n) {
                let x = msg(0, 1, 2, vec![7; len]);
                let r = x.try_into_byte_message(&pdl(e));
                ensure!(r.is_err(), "a frame with {len} bytes of data encoded as {r:02x?}");
                let r = module.process_output_values(&[ChannelValue::ComRsOut(x)]);
                ensure!(r.is_err(), "a frame with {len} bytes of data encoded as registers {r:04x?}");
                out.eval(true);
            }
        }
        Ok(())
    }));
    v.push(family("too many values", 2, |i, out| {
        let module = M::com(i == 0).make()?;
        for n in wrapped_lengths(1) {
            let r = module.process_output_values(&vec![ChannelValue::ComRsOut(ProcessOutput::default()); n]);
            ensure!(r.is_err(), "{n} values accepted by a serial module");
            out.eval(true);
        }
        Ok(())
    }));
    // anything else is refused
    v.push(family("other values", 2, |i, out| {
        let m = M::com(i == 0);
        let module = m.make()?;
        let good = ChannelValue::ComRsOut(ProcessOutput::default());
        for b in M::typical(K::Do4).bad_reqs().into_iter().chain([
            ChannelValue::Bit(true),
            ChannelValue::Disabled,
            ChannelValue::Decimal32(1.0),
        ]) {
            if matches!(b, ChannelValue::ComRsOut(_)) {
                continue;
            }
            ensure!(module.process_output_values(&[b.clone()]).is_err(), "{b:?} accepted by a serial module");
            ensure!(module.process_output_values(&[good.clone(), b.clone()]).is_err(), "two values accepted by a serial module");
            out.eval(true);
        }
        ensure!(module.process_output_values(&[]).is_err(), "no value accepted by a serial module");
        ensure!(module.process_output_values(&[good.clone(), good]).is_err(), "two values accepted by a serial module");
        Ok(())
    }));
    v
}

fn main() {
    mc::engine::main(Check {
        id: "C13",
        level: Level::Exploration,
        rule: "all status bytes x stated lengths 0-255 x frame lengths, all register frames of both sizes with four contents, all flags x counters (including invalid ones) x data lengths for encoding; compared with the documented bit layout. Non-trivial: the frame or message is valid",
        assumptions: &["frame contents: four patterns per shape (quick), plus 256 rotations when encoding (thorough)"],
        families,
    })
}
