//! C25: coupler instances are isolated and deterministic. Every interleaving of
//! two call histories on two instances is compared with each history alone.
use mc::engine::*;
use mc::alloc::{arm, disarm, Gate};
use mc::clock;
use mc::{ensure, fail};
use mc::hist::*;
use mc::rack::*;
use mc::racks::*;
use mc::spec::*;
use std::io::Write;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;
use std::time::Duration;
use ur20::ur20_1com_232_485_422 as com;
use ur20::ChannelValue;

/// All ways to interleave `a` steps of one history with `b` of another.
fn interleavings(a: usize, b: usize) -> Vec<Vec<bool>> {
    let mut v = vec![];
    for m in 0u32..1 << (a + b) {
        if m.count_ones() as usize == b {
            v.push((0..a + b).map(|i| m >> i & 1 == 1).collect());
        }
    }
    v
}

fn alphabet(which: usize) -> (Rack, Vec<Op>) {
    use Op::*;
    match which {
        0 => (
            Rack::new(
                vec![M::typical(K::Do4), M::com(true), M::typical(K::Ao4)],
                Style::Packed,
            ),
            vec![
                Cycle(0),
                Cycle(1),
                Set(0, 1, Req::Bit(true)),
                Set(2, 0, Req::Raw(777)),
                Write(1, 1, 8),
                Read(1, 3),
                BadCycle(4),
            ],
        ),
        1 => (
            Rack::new(
                vec![M::com(false), M::typical(K::Fcnt), M::com(true)],
                Style::WordAligned,
            ),
            vec![
                Cycle(0),
                Cycle(1),
                Set(1, 0, Req::Fcnt(123, 1)),
                Write(0, 100, 9),
                SetBytes(2, 200, 4),
                Read(2, 9),
                BadSet(1, 0, ChannelValue::Bit(true)),
            ],
        ),
        _ => (
            Rack::new(
                vec![
                    M::typical(K::Di8),
                    M::typical(K::Do16),
                    M::typical(K::Rtd),
                    M::com(true),
                    M::typical(K::Pf),
                ],
                Style::MultiAligned,
            ),
            vec![
                Cycle(0),
                Cycle(1),
                Set(1, 0, Req::Bit(true)),
                Set(1, 15, Req::Bit(true)),
                Write(3, 50, 3),
                Read(3, 1),
                BadCycle(0),
            ],
        ),
    }
}

struct Hist {
    rack: Rack,
    ops: Vec<Op>,
    alone: Vec<Obs>,
}

impl Hist {
    /// `prefix`: cycles before the history, or (9) calls that bring the rack
    /// into full operation
    fn new(which: usize, prefix: usize, d: &[usize]) -> Result<Hist, String> {
        let (rack, al) = alphabet(which);
        let mut ops = if prefix == 9 { running(&rack) } else { vec![Op::Cycle(1); prefix] };
        ops.extend(d.iter().map(|x| al[*x].clone()));
        let alone = observe(&rack, &ops)?;
        Ok(Hist { rack, ops, alone })
    }
}

/// Run both histories interleaved; an instance is created with its first call
/// and dropped after its last.
fn interleaved(h: [&Hist; 2], il: &[bool], out: &mut Out) -> Res {
    let mut run: [Option<Run>; 2] = [None, None];
    let mut at = [0usize; 2];
    for &w in il {
        let w = usize::from(w);
        if run[w].is_none() {
            let mut r = Run::new(&h[w].rack)?;
            r.in_place = il[0];
            run[w] = Some(r);
        }
        let op = &h[w].ops[at[w]];
        let obs = run[w].as_mut().unwrap().apply(op);
        out.transitions += 1;
        ensure!(
            obs == h[w].alone[at[w]],
            "two couplers\nfirst: {}\n{}\nsecond: {}\n{}\ninterleaved as {:?} (0 = first)\ncall {} of the {} gives\n{}\nalone it gives\n{}",
            h[0].rack.describe(),
            script(&h[0].ops),
            h[1].rack.describe(),
            script(&h[1].ops),
            il.iter().map(|b| u8::from(*b)).collect::<Vec<_>>(),
            at[w],
            ["first", "second"][w],
            obs,
            h[w].alone[at[w]]
        );
        at[w] += 1;
        if at[w] == h[w].ops.len() {
            run[w] = None;
        }
    }
    out.traces += 1;
    Ok(())
}

type Job = Box<dyn FnOnce() + Send>;

/// Run `job` on this thread's companion and `f` here.
fn beside<R>(job: impl FnOnce() + Send, f: impl FnOnce() -> R) -> R {
    thread_local! {
        static COMPANION: (Sender<Job>, Receiver<()>) = {
            let (tx, jobs) = channel::<Job>();
            let (done, rx) = channel();
            std::thread::spawn(move || {
                for j in jobs {
                    clock::steps(j);
                    if done.send(()).is_err() {
                        return;
                    }
                }
            });
            (tx, rx)
        };
    }
    let job: Box<dyn FnOnce() + Send + '_> = Box::new(job);
    // SAFETY: this function does not return before the job is done.
    let job: Job = unsafe { std::mem::transmute(job) };
    COMPANION.with(|(tx, rx)| {
        tx.send(job).expect("companion thread");
        let r = f();
        rx.recv().expect("companion thread");
        r
    })
}

/// Two instances, each used by a thread of its own.  `h[w].ops[from[w]..to[w]]`
/// run overlapped: the first instance's thread is preempted at its
/// `points[0]`-th allocator call inside the library, then the second one's runs
/// until its `points[1]`-th (0: to the end), then the first one's to the end.
/// `from` 0 includes the creation.  Returns the points left over.
fn overlapped(h: [&Hist; 2], from: [usize; 2], to: [usize; 2], points: [u64; 2], gate: &'static Gate, out: &mut Out) -> Result<[u64; 2], String> {
    let mut runs: [Option<Run>; 2] = [None, None];
    for w in 0..2 {
        if from[w] > 0 {
            let mut r = Run::new(&h[w].rack)?;
            for op in &h[w].ops[..from[w]] {
                r.exec(op);
            }
            r.arm = points[w];
            runs[w] = Some(r);
        }
    }
    let part = |w: usize, run: &mut Option<Run>| -> Result<(u64, u64), String> {
        let mut n = 0;
        if run.is_none() {
            arm(points[w]);
            let r = Run::new(&h[w].rack);
            let left = disarm();
            let mut r = r?;
            r.arm = left;
            *run = Some(r);
            n += 1;
        }
        let r = run.as_mut().unwrap();
        for (j, op) in h[w].ops[..to[w]].iter().enumerate().skip(from[w]) {
            let obs = r.apply(op);
            n += 1;
            ensure!(
                obs == h[w].alone[j],
                "call {j} of the {} gives\n{obs}\nalone it gives\n{}",
                ["first", "second"][w],
                h[w].alone[j]
            );
        }
        let left = r.arm;
        r.arm = 0;
        Ok((left, n))
    };
    let guarded = |w: usize, run: &mut Option<Run>| -> Result<(u64, u64), String> {
        gate.enter(w);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| part(w, run)));
        gate.leave(w);
        r.unwrap_or_else(|_| Err(format!("a call of the {} panics", ["first", "second"][w])))
    };
    gate.reset();
    let [a, b] = &mut runs;
    let mut rb = Err("did not run".to_string());
    let ra = {
        let m = Moved((b, &guarded, &mut rb));
        beside(
            move || {
                let (b, g, r) = m.get();
                *r = g(1, b);
            },
            || guarded(0, a),
        )
    };
    let ctx = |e: String| {
        format!(
            "two couplers on two threads\nfirst: {}\n{}\nsecond: {}\n{}\ncalls {:?} of the first overlap with calls {:?} of the second (0 includes creating it); the first is preempted at its allocator call {}, then the second at its {} (0: not)\n{e}",
            h[0].rack.describe(),
            script(&h[0].ops),
            h[1].rack.describe(),
            script(&h[1].ops),
            from[0]..to[0],
            from[1]..to[1],
            points[0],
            points[1]
        )
    };
    let (la, na) = ra.map_err(ctx)?;
    let (lb, nb) = rb.map_err(ctx)?;
    // and on, one after the other
    for w in 0..2 {
        let r = runs[w].as_mut().unwrap();
        for (j, op) in h[w].ops.iter().enumerate().skip(to[w]) {
            let obs = r.apply(op);
            ensure!(
                obs == h[w].alone[j],
                "{}",
                ctx(format!("call {j} of the {} gives\n{obs}\nalone it gives\n{}", ["first", "second"][w], h[w].alone[j]))
            );
        }
    }
    out.transitions += na + nb;
    out.traces += 1;
    Ok([la, lb])
}

// the library's types are moved between threads, but need not say so
struct Moved<T>(T);
unsafe impl<T> Send for Moved<T> {}
impl<T> Moved<T> {
    fn get(self) -> T {
        self.0
    }
}

/// The history with `between` that much time before call `n`.
fn timed(h: &Hist, between: impl Fn(usize) -> Duration, out: &mut Out) -> Res {
    let mut now = clock::base() + Duration::from_secs(1);
    let mut r = clock::at(now, || Run::new(&h.rack))?;
    for (n, op) in h.ops.iter().enumerate() {
        now += between(n);
        let o = clock::at(now, || r.apply(op));
        ensure!(
            o == h.alone[n],
            "{}\n{}\nwith so much time between the calls: {:?}\ncall {n} gives\n{o}\notherwise it gives\n{}",
            h.rack.describe(),
            script(&h.ops),
            (0..=n).map(&between).collect::<Vec<_>>(),
            h.alone[n]
        );
    }
    out.transitions += h.ops.len() as u64;
    out.traces += 1;
    Ok(())
}

/// Something that goes wrong elsewhere in the program.
fn mishap(which: usize, h: &Hist) -> Result<&'static str, String> {
    use ur20::ur20_fbc_mod_tcp::*;
    let caught = |f: &dyn Fn()| drop(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)));
    let mut cfg = h.rack.config();
    Ok(match which {
        0 => {
            // refused or a panic
            let l = cfg.modules.len() - 1;
            cfg.modules[l] = ur20::ModuleType::UR20_8DI_P_3W_HD;
            caught(&|| drop(Coupler::new(&cfg)));
            "a coupler with an unsupported module was refused"
        }
        1 => {
            caught(&|| drop(param_addresses_and_register_counts(&[ur20::ModuleType::UR20_2PWM_PN_2A])));
            "the register count of an unsupported module was asked for"
        }
        2 => {
            cfg.params[0] = vec![0xFFFF; 64];
            let _ = Coupler::new(&cfg);
            cfg.params[0] = vec![];
            let _ = Coupler::new(&cfg);
            cfg.offsets.pop();
            let _ = Coupler::new(&cfg);
            "couplers with invalid parameters were refused"
        }
        3 => {
            let mut r = Run::new(&h.rack)?;
            for op in &h.ops {
                r.exec(op);
            }
            drop(r);
            let mut c = h.rack.coupler()?;
            for _ in 0..3 {
                let _ = c.next(&[], &[0xFFFF; 4]);
            }
            "other couplers of the same kind were used, failed and were dropped"
        }
        4 => {
            let mut r = Run::new(&h.rack)?;
            for op in &h.ops {
                r.exec(op);
            }
            std::mem::forget(r);
            "another coupler of the same kind was leaked"
        }
        5 => {
            let h = std::thread::spawn(move || {
                let _ = "UR20-NO".parse::<ur20::ModuleType>();
                let _ = ur20::ModuleType::try_from_u32(7);
                panic!("a thread of the user");
            });
            let _ = h.join();
            "a thread of the user panicked"
        }
        _ => {
            // while the stack is unwound
            struct Late<'a>(&'a Hist, &'a std::cell::Cell<Option<String>>);
            impl Drop for Late<'_> {
                fn drop(&mut self) {
                    let r = observe(&self.0.rack, &self.0.ops);
                    if r.as_ref() != Ok(&self.0.alone) {
                        self.1.set(Some(format!(
                            "{}\n{}\ncalled by a destructor while a panic is unwound the calls give\n{r:?}\notherwise they give\n{:?}",
                            self.0.rack.describe(),
                            script(&self.0.ops),
                            self.0.alone
                        )));
                    }
                }
            }
            let differs = std::cell::Cell::new(None);
            caught(&|| {
                let _l = Late(h, &differs);
                panic!("the user's");
            });
            if let Some(e) = differs.take() {
                fail!("{e}");
            }
            "another coupler of the same kind was used by a destructor while a panic was unwound"
        }
    })
}

fn after_mishap(h: &Hist, which: usize, at: usize, out: &mut Out) -> Res {
    let mut what = "";
    let mut r = None;
    for n in 0..=h.ops.len() {
        if n == at {
            what = mishap(which, h)?;
        }
        if n == 0 {
            r = Some(Run::new(&h.rack)?);
            continue;
        }
        let o = r.as_mut().unwrap().apply(&h.ops[n - 1]);
        ensure!(
            o == h.alone[n - 1],
            "{}\n{}\n{what} before call {at} (0: creation): call {n} gives\n{o}\notherwise it gives\n{}",
            h.rack.describe(),
            script(&h.ops),
            h.alone[n - 1]
        );
    }
    out.transitions += h.ops.len() as u64;
    out.traces += 1;
    Ok(())
}

/// The calls of a history, each made at another place in memory (`spots`: a new
/// block, and the one another instance had before) and on another thread.
fn elsewhere(h: &Hist, other: &Hist, threads: bool, out: &mut Out) -> Res {
    let mut a = Box::new(Run::new(&h.rack)?);
    let mut b = Box::new(Run::new(&other.rack)?);
    for (n, op) in h.ops.iter().enumerate() {
        if n % 3 == 2 {
            a = Box::new(*a);
        } else {
            std::mem::swap(&mut *a, &mut *b);
            std::mem::swap(&mut a, &mut b);
        }
        let o = if threads && n % 2 == 1 {
            let m = Moved(&mut a);
            std::thread::scope(|s| s.spawn(move || m.get().apply(op)).join())
                .map_err(|_| "a call on another thread panics".to_string())?
        } else {
            a.apply(op)
        };
        ensure!(
            o == h.alone[n],
            "{}\n{}\nwith the coupler moved to another place{} before every call, call {n} gives\n{o}\notherwise it gives\n{}",
            h.rack.describe(),
            script(&h.ops),
            if threads { " and thread" } else { "" },
            h.alone[n]
        );
        if let Some(op) = other.ops.get(n) {
            let o = b.apply(op);
            ensure!(
                o == other.alone[n],
                "{}\n{}\nwith the coupler moved to another place before every call, call {n} gives\n{o}\notherwise it gives\n{}",
                other.rack.describe(),
                script(&other.ops),
                other.alone[n]
            );
        }
    }
    out.transitions += 2 * h.ops.len() as u64;
    out.traces += 2;
    Ok(())
}

/// Racks that share something with each other: module lists, offsets or
/// parameter blocks, but never everything.
fn relatives(a: usize, b: usize) -> Vec<Rack> {
    let list = |x: usize, y: usize, p: usize, q: usize| {
        vec![M::shape(x, p), M::typical(K::Di4), M::shape(y, q), M::shape(x, q)]
    };
    let mut v = vec![];
    for st in STYLES {
        v.push(Rack::new(list(a, b, 0, 1), st));
    }
    v.push(Rack::new(list(a, b, 0, 1), Style::Packed).with_reversed_inputs(Style::Packed));
    v.push(Rack::new(list(a, b, 1, 0), Style::Packed));
    v.push(Rack::new(list(a, b, 2, 3), Style::Packed));
    v.push(Rack::new(list(b, a, 0, 1), Style::Packed));
    v.push(Rack::new(list(b, a, 0, 1)[..2].to_vec(), Style::Packed));
    v.push(Rack::new(list(a, b, 0, 1)[1..].to_vec(), Style::MultiAligned));
    v
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // racks alike in part, against the documented behaviour: anything one
    // instance leaves behind for another shows, even if it outlives it
    v.push(family(
        "related racks side by side, against the reference",
        (SHAPES * SHAPES) as u64,
        move |i, out| {
            let rs = relatives(i as usize % SHAPES, i as usize / SHAPES);
            let bases: &[usize] = t.pick(&[2, 1, 4], &[2, 1, 4, 0, 3, 5]);
            for (a, b, in_place) in rs.iter().flat_map(|a| rs.iter().flat_map(move |b| [(a, b, false), (a, b, true)])) {
                let (mut x, mut y) = (Sim::new(a, Side::Output)?, Sim::new(b, Side::Output)?);
                for s in [&mut x, &mut y] {
                    s.both = true;
                    s.in_place = in_place;
                }
                for (n, k) in bases.iter().enumerate() {
                    for s in [&mut x, &mut y] {
                        let r = s.rack.clone();
                        let reqs: Vec<_> = (0..r.mods.len())
                            .flat_map(|m| (0..r.mods[m].k.channels()).map(move |c| (m, c)))
                            .filter_map(|(module, channel)| {
                                let q = r.mods[module].reqs(channel);
                                (n % 2 == 1 && !q.is_empty()).then(|| {
                                    (ur20::Address { module, channel }, q[(n + channel) % q.len()].clone())
                                })
                            })
                            .collect();
                        let (i, o) = (base_image(&r, Side::Input, *k), base_image(&r, Side::Output, *k));
                        s.cycle(&i, &o, &reqs, out)
                            .map_err(|e| format!("two couplers in one process, the other one is\n{}\n{e}", if std::ptr::eq(a, b) { a.describe() } else { format!("{} / {}", a.describe(), b.describe()) }))?;
                        out.transitions += 1;
                    }
                }
                out.traces += 1;
            }
            out.state(&i);
            Ok(())
        },
    ));
    let len = 4usize;
    let others = t.pick(4u64, 4);
    let every: &[(usize, usize)] = &[(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2)];
    for &(x, y) in t.pick(&[(0, 0), (0, 1), (1, 1), (2, 0), (1, 2)][..], every) {
        let il = Arc::new(interleavings(len, len));
        v.push(family(
            format!("racks {x} and {y}: histories of {len} calls each, all interleavings"),
            7u64.pow(len as u32),
            move |i, out| {
                let a = Hist::new(x, 0, &digits(i, 7, len))?;
                for j in 0..others {
                    let k = (i * 31 + j * 977 + j * j * 13) % 7u64.pow(len as u32);
                    let b = Hist::new(y, 0, &digits(k, 7, len))?;
                    for s in il.iter() {
                        interleaved([&a, &b], s, out)?;
                    }
                    out.eval(true);
                    out.state(&(x, y, &a.alone, &b.alone));
                }
                out.max_depth = out.max_depth.max(2 * len as u64);
                out.sample(|| format!("racks {x} and {y}\n{}", script(&a.ops)));
                Ok(())
            },
        ));
    }
    // past the serial initialisation: three leading cycles each
    let len2 = 3usize;
    for &(x, y) in t.pick(&[(0, 0), (1, 1), (0, 1), (2, 1)][..], every) {
        let il = Arc::new(interleavings(3 + len2, 3 + len2));
        v.push(family(
            format!("racks {x} and {y}: initialised, then {len2} calls each, all interleavings"),
            7u64.pow(len2 as u32) * 2,
            move |i, out| {
                let n = 7u64.pow(len2 as u32);
                let a = Hist::new(x, 3, &digits(i / 2, 7, len2))?;
                let k = if i % 2 == 0 { i / 2 } else { (i * 31 + 5) % n };
                let b = Hist::new(y, 3, &digits(k, 7, len2))?;
                for s in il.iter() {
                    interleaved([&a, &b], s, out)?;
                }
                out.eval(true);
                out.state(&(x, y, &a.alone, &b.alone));
                out.max_depth = out.max_depth.max(2 * (3 + len2) as u64);
                Ok(())
            },
        ));
    }
    // in full operation; calls of the second are inserted into the first's
    let len5 = t.pick(2usize, 3);
    for (x, y) in [(0, 0), (1, 1), (0, 1), (2, 1)] {
        v.push(family(
            format!("racks {x} and {y}: in operation, then {len5} calls each, all interleavings of these"),
            7u64.pow(2 * len5 as u32),
            move |i, out| {
                let n = 7u64.pow(len5 as u32);
                let a = Hist::new(x, 9, &digits(i % n, 7, len5))?;
                let b = Hist::new(y, 9, &digits(i / n, 7, len5))?;
                let (la, lb) = (a.ops.len() - len5, b.ops.len() - len5);
                for s in interleavings(len5, len5) {
                    // brought into operation one after the other or in turns
                    let one: Vec<bool> = (0..la).map(|_| false).chain((0..lb).map(|_| true)).chain(s.clone()).collect();
                    let mut two: Vec<bool> = (0..la.min(lb)).flat_map(|_| [true, false]).collect();
                    two.extend((la.min(lb)..la).map(|_| false));
                    two.extend((la.min(lb)..lb).map(|_| true));
                    two.extend(s);
                    interleaved([&a, &b], &one, out)?;
                    interleaved([&a, &b], &two, out)?;
                }
                out.eval(true);
                out.state(&(x, y, &a.alone, &b.alone));
                Ok(())
            },
        ));
    }
    // calls that overlap in time, preempted at every allocator call
    let sizes = t.pick(1u64, 2);
    v.push(family(
        "two threads, one preemption at every allocator call",
        9 * 4 * 49 * sizes,
        move |i, out| {
            let (x, i) = ((i % 3) as usize, i / 3);
            let (y, i) = ((i % 3) as usize, i / 3);
            let (pre, i) = ([9, 0, 2, 3][(i % 4) as usize], i / 4);
            let (a, i) = ((i % 7) as usize, i / 7);
            let (b, more) = ((i % 7) as usize, (i / 7) as usize);
            let (h, from, to) = overlap(x, y, pre, &[a, 1][..1 + more], &[b, 0][..1 + more])?;
            let gate: &'static Gate = Box::leak(Box::default());
            for k in 1.. {
                let left = overlapped([&h[0], &h[1]], from, to, [k, 0], gate, out)?;
                if left[0] > 0 {
                    break;
                }
                out.eval(true);
            }
            out.state(&(x, y, pre, a, b));
            Ok(())
        },
    ));
    let (pairs, all): (u64, bool) = t.pick((1, false), (49, true));
    v.push(family(
        "two threads, two preemptions at every pair of allocator calls",
        9 * 2 * pairs,
        move |i, out| {
            let (x, i) = ((i % 3) as usize, i / 3);
            let (y, i) = ((i % 3) as usize, i / 3);
            let (pre, i) = ([9, 0][(i % 2) as usize], i / 2);
            let (a, b) = if all { ((i % 7) as usize, (i / 7) as usize) } else { ([1, 2][(i % 2) as usize], [1, 5][(i / 2) as usize]) };
            let (h, from, to) = overlap(x, y, pre, &[a], &[b])?;
            let gate: &'static Gate = Box::leak(Box::default());
            'a: for k in 1.. {
                for l in 1.. {
                    let left = overlapped([&h[0], &h[1]], from, to, [k, l], gate, out)?;
                    if left[0] > 0 {
                        break 'a;
                    }
                    out.eval(true);
                    // reached its end, or a lock of the first one, before its point: the
                    // schedules with later points are the same
                    if left[1] > 0 || gate.held_up(1) {
                        break;
                    }
                }
            }
            out.state(&(x, y, pre, a, b));
            Ok(())
        },
    ));
    // whatever the time, the place and the thread
    let len4 = t.pick(3usize, 4);
    v.push(family(
        "time between the calls",
        7u64.pow(len4 as u32) * 9,
        move |i, out| {
            ensure!(clock::works(), "harness: the clock cannot be set");
            let (x, pre, d) = ((i % 3) as usize, [0, 2, 9][(i / 3 % 3) as usize], digits(i / 9, 7, len4));
            let (rack, _) = alphabet(x);
            let mut h = Hist::new(x, pre, &d)?;
            h.ops.extend(epilogue(&rack));
            h.alone = clock::real(|| observe(&rack, &h.ops))?;
            for ms in [1, 60, 600, 1100, 6000, 61_000, 3_601_000, 86_401_000, 4_294_968_000, 31_536_000_000u64] {
                timed(&h, |_| Duration::from_millis(ms), out)?;
                if ms == 86_401_000 {
                    for p in 0..h.ops.len() {
                        timed(&h, |n| Duration::from_millis(if n == p { ms } else { 0 }), out)?;
                    }
                }
                out.eval(true);
            }
            Ok(())
        },
    ));
    v.push(family("at changing places", 7u64.pow(len4 as u32) * 9, move |i, out| {
        let (x, pre, k) = ((i % 3) as usize, [0, 2, 9][(i / 3 % 3) as usize], i / 9);
        let h = |x: usize, k: u64| -> Result<Hist, String> {
            let (rack, _) = alphabet(x);
            let mut h = Hist::new(x, pre, &digits(k, 7, len4))?;
            h.ops.extend(epilogue(&rack));
            h.alone = observe(&rack, &h.ops)?;
            Ok(h)
        };
        let a = h(x, k)?;
        for y in 0..3 {
            elsewhere(&a, &h(y, k * 31 + 5)?, i % 8 == y as u64, out)?;
        }
        out.eval(true);
        Ok(())
    }));
    v.push(family("after something went wrong elsewhere", 7u64.pow(2) * 9 * 7, move |i, out| {
        let (x, pre, i) = ((i % 3) as usize, [0, 2, 9][(i / 3 % 3) as usize], i / 9);
        let (which, k) = ((i % 7) as usize, i / 7);
        let (rack, _) = alphabet(x);
        let mut h = Hist::new(x, pre, &digits(k, 7, 2))?;
        h.ops.extend(epilogue(&rack));
        h.alone = observe(&rack, &h.ops)?;
        for at in 0..=h.ops.len() {
            after_mishap(&h, which, at, out)?;
        }
        out.eval(true);
        Ok(())
    }));
    v.push(family("one configuration object for all", (SHAPES * SHAPES) as u64, |i, out| {
        let rs = relatives(i as usize % SHAPES, i as usize / SHAPES);
        let mut cfg = rs[0].config();
        let mut runs = vec![];
        for (n, r) in rs.iter().enumerate() {
            let want = r.config();
            cfg.modules.clone_from(&want.modules);
            cfg.offsets.clone_from(&want.offsets);
            cfg.params.clone_from(&want.params);
            let c = ur20::ur20_fbc_mod_tcp::Coupler::new(&cfg).map_err(|e| format!("{}: Coupler::new refused it: {e:?}", r.describe()))?;
            runs.push(Run::with(r, c));
            // and one that is refused in between
            if n % 2 == 0 {
                cfg.params.pop();
                ensure!(ur20::ur20_fbc_mod_tcp::Coupler::new(&cfg).is_err(), "{} without the last parameter block is accepted", r.describe());
            }
        }
        // the configuration is gone
        drop(cfg);
        for (r, run) in rs.iter().zip(&mut runs) {
            let mut ops = running(r);
            ops.extend(calls(r));
            ops.extend(epilogue(r));
            for (n, (op, want)) in ops.iter().zip(observe(r, &ops)?).enumerate() {
                let o = run.apply(op);
                ensure!(
                    o == want,
                    "{}\n{}\ncreated from a configuration object that was used for other racks before, call {n} gives\n{o}\notherwise it gives\n{want}",
                    r.describe(),
                    script(&ops)
                );
            }
            out.transitions += 2 * ops.len() as u64;
            out.traces += 2;
            out.eval(true);
        }
        Ok(())
    }));
    // many fresh instances give the same results
    let reps = t.pick(6, 30);
    let len3 = t.pick(4usize, 6);
    v.push(family(
        "the same history on many fresh instances",
        7u64.pow(len3 as u32) * 3,
        move |i, out| {
            let h = Hist::new((i % 3) as usize, [0, 1, 2, 3, 4, 9][(i % 6) as usize], &digits(i / 3, 7, len3))?;
            let mut live = vec![];
            for r in 0..reps {
                let mut run = Run::new(&h.rack)?;
                for (j, op) in h.ops.iter().enumerate() {
                    let o = run.apply(op);
                    out.transitions += 1;
                    ensure!(
                        o == h.alone[j],
                        "{}\n{}\ncall {j} on fresh instance {r} gives\n{o}\nbefore it gave\n{}",
                        h.rack.describe(),
                        script(&h.ops),
                        h.alone[j]
                    );
                }
                // some instances stay alive while the next ones run
                if r % 2 == 0 {
                    live.push(run);
                }
                out.traces += 1;
            }
            out.eval(true);
            Ok(())
        },
    ));
    // long sessions: alone, and in turns with another coupler
    let long = t.pick(66_000usize, 300_000);
    v.push(family("long sessions, alone and in turns", 12 * 2, move |i, out| {
        let rack = session_rack((i % 12) as usize);
        let other = session_rack((i % 12 + [0, 5][(i / 12) as usize]) as usize % 12);
        let (ops, ops2) = (long_session(&rack, long), long_session(&other, long));
        let look = |r: &mut Run, op: &Op| {
            let o = r.exec(op);
            hash64(&format!("{o} {:?} {:?}", r.c.inputs(), r.c.outputs()))
        };
        let mut a = Run::new(&rack)?;
        let mut alone = vec![];
        for (n, op) in ops.iter().enumerate() {
            alone.push(look(&mut a, op));
            if n % 4096 == 0 {
                out.tick();
            }
        }
        drop(a);
        let (mut a, mut b) = (Run::new(&rack)?, Run::new(&other)?);
        for (n, op) in ops.iter().enumerate() {
            if let Some(o) = ops2.get(n) {
                b.exec(o);
            }
            ensure!(
                look(&mut a, op) == alone[n],
                "{}\ncall {n} ({op:?}) of a long session (hist::long_session) gives another result when the calls take turns with those for another coupler: {}\nthe calls before were {:?}",
                rack.describe(),
                other.describe(),
                &ops[n.saturating_sub(20)..n]
            );
            if n % 4096 == 0 {
                out.tick();
            }
        }
        out.transitions += 3 * ops.len() as u64;
        out.traces += 3;
        out.eval(true);
        Ok(())
    }));
    // requests for many channels: the result does not depend on any internal order
    v.push(family(
        "many requests and serial modules, repeated",
        t.pick(64, 512),
        move |i, out| {
            let mods: Vec<M> = (0..20)
                .map(|p| M::shape(((i as usize) + p * (1 + i as usize % 7)) % SHAPES, p % 5))
                .chain([M::com(true), M::com(false), M::com(true)])
                .collect();
            let rack = Rack::new(mods, STYLES[(i % 3) as usize]);
            let mut ops = vec![];
            for round in 0..4u8 {
                for (m, md) in rack.mods.iter().enumerate() {
                    if md.k == K::Com {
                        ops.push(Op::Write(m, round * 50 + m as u8, 1 + m % 9));
                        if round == 1 {
                            ops.push(Op::SetBytes(m, 7 + m as u8, 5));
                        }
                    }
                    for ch in 0..md.k.channels() {
                        let q = md.reqs(ch);
                        if let Some(q) = q.get((ch + usize::from(round)) % q.len().max(1)) {
                            ops.push(Op::Set(m, ch, q.clone()));
                        }
                    }
                }
                ops.extend([Op::Cycle(round % 2), Op::Cycle(1), Op::BadCycle(round), Op::Cycle(0)]);
                for (m, md) in rack.mods.iter().enumerate() {
                    if md.k == K::Com {
                        ops.push(Op::Read(m, 5));
                    }
                }
            }
            let first = observe(&rack, &ops)?;
            for r in 0..t.pick(12, 40) {
                let again = observe(&rack, &ops)?;
                out.transitions += ops.len() as u64;
                out.traces += 1;
                if let Some(j) = (0..ops.len()).find(|j| first[*j] != again[*j]) {
                    return Err(format!(
                        "{}\n{}\ncall {j}, repetition {r}: {}\nat first: {}",
                        rack.describe(),
                        script(&ops[..=j]),
                        again[j],
                        first[j]
                    ));
                }
            }
            out.eval(true);
            out.max_depth = out.max_depth.max(ops.len() as u64);
            Ok(())
        },
    ));
    // modules are stateless: results do not depend on what was converted before
    v.push(family("module conversions in any order", (SHAPES * SHAPES) as u64, |i, out| {
        let (a, b) = (
            M::shape(i as usize % SHAPES, 0),
            M::shape(i as usize / SHAPES, 1),
        );
        let (ra, rb) = (
            Rack::new(vec![a.clone()], Style::Packed),
            Rack::new(vec![b.clone()], Style::Packed),
        );
        let (da, db) = (a.make()?, b.make()?);
        let conv = |d: &dyn ur20::ur20_fbc_mod_tcp::ProcessModbusTcpData, r: &Rack, k: usize| {
            let i = base_image(r, Side::Input, k);
            let o = base_image(r, Side::Output, k);
            let v = d.process_output_data(&o);
            let e = v.as_ref().map(|v| d.process_output_values(v));
            format!("{:?} {v:?} {e:?}", d.process_input_data(&i))
        };
        let first: Vec<String> = (0..12).map(|k| conv(&*a.make().unwrap(), &ra, k)).collect();
        for k in 0..12 {
            for j in 0..12 {
                let _ = conv(&*db, &rb, j);
                let _ = conv(&*da, &ra, j);
                let _ = db.process_input_data(&[1; 40]);
                let _ = da.process_output_values(&[ChannelValue::Bit(true)]);
                let now = conv(&*da, &ra, k);
                ensure!(
                    now == first[k],
                    "{a:?}: conversions of pattern {k} give {now}\nat first {}",
                    first[k]
                );
                out.eval(true);
                out.transitions += 5;
            }
        }
        Ok(())
    }));
    // message processors
    let len4 = t.pick(4usize, 5);
    let il = Arc::new(interleavings(len4 + 2, len4 + 2));
    v.push(family(
        "two message processors, all interleavings",
        5u64.pow(len4 as u32),
        move |i, out| {
            let a: Vec<usize> = [0, 0].into_iter().chain(digits(i, 5, len4)).collect();
            let b: Vec<usize> = [0, 0]
                .into_iter()
                .chain(digits((i * 7 + 3) % 5u64.pow(len4 as u32), 5, len4))
                .collect();
            let alone = |o: &[usize], s: u8| {
                let mut p = Proc::new(s);
                o.iter().map(|x| p.step(*x)).collect::<Vec<_>>()
            };
            let want = [alone(&a, 10), alone(&b, 130)];
            for s in il.iter() {
                let mut p = [Proc::new(10), Proc::new(130)];
                let mut at = [0; 2];
                for w in s {
                    let w = usize::from(*w);
                    let op = if w == 0 { a[at[0]] } else { b[at[1]] };
                    let o = p[w].step(op);
                    ensure!(
                        o == want[w][at[w]],
                        "two message processors, operations {a:?} and {b:?} interleaved as {s:?}: {o}\nalone {}",
                        want[w][at[w]]
                    );
                    at[w] += 1;
                    out.transitions += 1;
                }
                out.traces += 1;
            }
            out.eval(true);
            out.state(&want);
            Ok(())
        },
    ));
    v
}

type Overlap = ([Hist; 2], [usize; 2], [usize; 2]);

/// Histories of two racks with the overlapping calls in the middle.
fn overlap(x: usize, y: usize, pre: usize, a: &[usize], b: &[usize]) -> Result<Overlap, String> {
    let mk = |w: usize, d: &[usize]| -> Result<(Hist, usize, usize), String> {
        let mut h = Hist::new(w, pre, d)?;
        let to = h.ops.len();
        h.ops.extend(epilogue(&h.rack));
        h.alone = observe(&h.rack, &h.ops)?;
        Ok((h, to - d.len(), to))
    };
    let (h, fa, ta) = mk(x, a)?;
    let (g, fb, tb) = mk(y, b)?;
    Ok(([h, g], [fa, fb], [ta, tb]))
}

struct Proc {
    p: com::MessageProcessor,
    o: com::ProcessOutput,
    i: com::ProcessInput,
    n: u8,
}

impl Proc {
    fn new(seed: u8) -> Proc {
        Proc {
            p: com::MessageProcessor::new(com::ProcessDataLength::EightBytes),
            o: Default::default(),
            i: Default::default(),
            n: seed,
        }
    }
    fn step(&mut self, op: usize) -> String {
        match op {
            0 | 1 => {
                if op == 1 {
                    self.i.rx_cnt = (self.i.rx_cnt + 1) % 4;
                    self.i.data_available = true;
                    self.n += 1;
                    self.i.data = vec![self.n; 4];
                }
                self.i.tx_cnt_ack = self.o.tx_cnt;
                self.o = self.p.next(&self.i, &self.o);
                format!("{:?}", self.o)
            }
            2 => {
                self.n += 1;
                format!("{:?}", self.p.write_all(&[self.n; 9]).is_ok())
            }
            3 => {
                let mut b = [0; 3];
                let r = mc::com::read_full(&mut self.p, &mut b).ok();
                format!("{r:?} {b:?}")
            }
            _ => {
                self.o = self.p.next(&self.i, &self.o);
                format!("{:?}", self.o)
            }
        }
    }
}

fn main() {
    mc::engine::main(Check {
        id: "C25",
        level: Level::ModelChecking,
        rule: "all interleavings of two call histories (every history of the stated length over 7 calls for the first instance, a fixed selection for the second) on two real couplers, instances created at their first and dropped after their last call; each call's results compared with the same history alone; two instances on two threads, the calls of one preempted at every allocator call inside the library (one preemption; two at every pair of points for some calls, thorough: for all pairs of calls); states = distinct pairs of observed histories, transitions = calls, traces = interleaved executions",
        assumptions: &["a coupler is used through &mut self, so calls on one instance cannot overlap; preemption points inside a call are its allocator calls (the library has no other operations visible to other threads)"],
        families,
    })
}
