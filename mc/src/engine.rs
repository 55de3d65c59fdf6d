//! Enumeration engine: runs indexed families of cases on all cores, turns a
//! panic, a hang or an oracle mismatch into a replayable violation and writes
//! the evidence file from measured counts.

use std::{
    cell::RefCell,
    collections::HashSet,
    fmt::Write as _,
    fs,
    io::Write as _,
    os::unix::fs::FileExt,
    panic::{self, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        Arc, Mutex,
    },
    thread,
    time::{Duration, Instant},
};

/// The build of the library (and of the harness): `release` has debug assertions and
/// overflow checks, `plain` has neither, as the release build of a user.
pub const BUILD: &str = if cfg!(debug_assertions) { "release" } else { "plain" };

/// Long families which the plain build leaves to the other one.
const ONCE: &[&str] = &[
    "long waits",
    "long session",
    "large backlogs",
    "a writer that stays ahead",
    "a reader that stays behind",
    "two threads",
    "initialised, then 3 calls",
    "pairs of histories, all actions",
];

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// Counters of one worker, merged at the end.
#[derive(Default)]
pub struct Out {
    pub evals: u64,
    pub nontrivial: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub samples: Vec<String>,
    outcomes: HashSet<u64>,
    state_set: HashSet<u64>,
    beat: Option<Arc<AtomicU64>>,
    pub max_depth: u64,
}

const OUTCOME_CAP: usize = 200_000;

impl Out {
    /// Count one evaluated case.
    #[inline]
    pub fn eval(&mut self, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.nontrivial += 1;
        }
        if self.evals & 0x3ff == 0 {
            self.tick();
        }
    }
    /// Tell the watchdog that this case is still making progress.
    #[inline]
    pub fn tick(&self) {
        if let Some(b) = &self.beat {
            b.store(now_ms(), SeqCst);
        }
    }
    /// Count a reference state; distinct ones are what is reported.
    pub fn state<T: std::hash::Hash>(&mut self, t: &T) {
        if self.state_set.len() < 4_000_000 {
            self.state_set.insert(hash64(t));
        }
    }
    pub fn outcome<T: std::hash::Hash>(&mut self, t: &T) {
        if self.outcomes.len() < OUTCOME_CAP {
            self.outcomes.insert(hash64(t));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(s);
        }
    }
}

pub fn hash64<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn hash128(s: &str) -> u128 {
    let a = hash64(s);
    let b = hash64(&(s, 0x9e37_79b9_7f4a_7c15u64));
    (u128::from(a) << 64) | u128::from(b)
}

fn start() -> Instant {
    use std::sync::OnceLock;
    static S: OnceLock<Instant> = OnceLock::new();
    *S.get_or_init(Instant::now)
}
fn now_ms() -> u64 {
    crate::clock::real(|| start().elapsed().as_millis() as u64)
}

type CaseFn = dyn Fn(u64, &mut Out) -> Res + Send + Sync;

pub struct Family {
    pub name: String,
    pub n: u64,
    pub chunk: u64,
    pub f: Box<CaseFn>,
}

pub fn family(
    name: impl Into<String>,
    n: u64,
    f: impl Fn(u64, &mut Out) -> Res + Send + Sync + 'static,
) -> Family {
    let chunk = (n / 256).clamp(1, 1 << 14);
    Family {
        name: name.into(),
        n,
        chunk,
        f: Box::new(f),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Level {
    ModelChecking,
    Exploration,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: Level,
    /// How cases are made, and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: fn(Tier) -> Vec<Family>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn run_case(f: &Family, i: u64, out: &mut Out) -> Res {
    crate::alloc::restart();
    match panic::catch_unwind(AssertUnwindSafe(|| crate::clock::steps(|| (f.f)(i, out)))) {
        Ok(r) => r,
        Err(_) => Err(format!(
            "a library call panicked: {}",
            LAST_PANIC.with(|p| p.borrow().clone())
        )),
    }
}

/// Run `f`, turning a panic of the library into an error that names `what`.
pub fn no_panic<T>(what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        format!(
            "{} panicked: {}",
            what(),
            LAST_PANIC.with(|p| p.borrow().clone())
        )
    })
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Slot {
    beat: Arc<AtomicU64>,
    fam: AtomicU64,
    idx: AtomicU64,
    busy: AtomicBool,
}

fn hang_limit_ms() -> u64 {
    std::env::var("MC_HANG_MS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(60_000)
}

fn report(check: &Check, root: &str, fam: &str, idx: u64, msg: &str, tier: Tier) -> String {
    let dir = format!("{root}/replays");
    let _ = fs::create_dir_all(&dir);
    let path = format!("{dir}/{}.txt", check.id);
    let mut s = String::new();
    let _ = writeln!(s, "property: {}", check.id);
    let _ = writeln!(s, "tier: {tier:?}");
    let _ = writeln!(s, "build: {BUILD}");
    let _ = writeln!(s, "family: {fam}");
    let _ = writeln!(s, "index: {idx}");
    let _ = writeln!(
        s,
        "rerun: python3 /verif/check.py {} --replay {path}",
        check.id
    );
    let _ = writeln!(s, "\n{msg}");
    let _ = fs::write(&path, s);
    path
}

pub fn main(check: Check) -> ! {
    let _ = start();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| {
        args.iter()
            .position(|a| a == k)
            .and_then(|p| args.get(p + 1))
            .cloned()
    };
    let root = get("--root").unwrap_or_else(|| "/verif".into());
    let mut tier = match get("--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(1);
    panic::set_hook(Box::new(|info| {
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{info}").replace('\n', " "));
    }));

    if let Some(file) = get("--replay") {
        let txt = fs::read_to_string(&file).expect("replay file");
        let field = |k: &str| {
            txt.lines()
                .find_map(|l| l.strip_prefix(k))
                .map(|s| s.trim().to_string())
                .unwrap_or_default()
        };
        if field("tier:") == "Thorough" {
            tier = Tier::Thorough;
        }
        let fam = field("family:");
        let idx: u64 = field("index:").parse().expect("index");
        let fams = (check.families)(tier);
        let f = fams.iter().find(|f| f.name == fam).expect("family");
        let mut out = Out::default();
        match run_case(f, idx, &mut out) {
            Ok(()) => {
                println!("replay: property holds");
                std::process::exit(0)
            }
            Err(m) => {
                println!("{m}\nVIOLATION property={} replay={file}", check.id);
                std::process::exit(1)
            }
        }
    }

    let mut fams = (check.families)(tier);
    if BUILD == "plain" {
        fams.retain(|f| !ONCE.iter().any(|o| f.name.contains(o)));
    }
    if args.iter().any(|a| a == "--list") {
        for f in &fams {
            println!("{}", f.name);
        }
        std::process::exit(0)
    }
    if let Some(only) = get("--only") {
        fams.retain(|f| f.name.contains(&only));
    }
    let journal = get("--journal").map(|p| {
        fs::OpenOptions::new()
            .create(true)
            .write(true)
            .truncate(true)
            .open(p)
            .expect("journal")
    });
    let threads: usize = get("--threads")
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| thread::available_parallelism().map_or(8, |n| n.get()).min(8));

    // flat work list of chunks
    let mut work: Vec<(usize, u64, u64)> = vec![];
    for (fi, f) in fams.iter().enumerate() {
        let mut s = 0;
        while s < f.n {
            let e = (s + f.chunk).min(f.n);
            work.push((fi, s, e));
            s = e;
        }
    }
    let next = AtomicU64::new(0);
    let best: Mutex<Option<(usize, u64, String)>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let slots: Vec<Slot> = (0..threads)
        .map(|_| Slot {
            beat: Arc::new(AtomicU64::new(0)),
            fam: AtomicU64::new(0),
            idx: AtomicU64::new(0),
            busy: AtomicBool::new(false),
        })
        .collect();
    let total: Mutex<Vec<(Vec<u64>, Out)>> = Mutex::new(vec![]);
    let fam_ms: Vec<AtomicU64> = fams.iter().map(|_| AtomicU64::new(0)).collect();

    thread::scope(|s| {
        // watchdog
        s.spawn(|| {
            let lim = hang_limit_ms();
            while !done.load(SeqCst) {
                thread::sleep(Duration::from_millis(50));
                for sl in &slots {
                    if sl.busy.load(SeqCst)
                        && now_ms().saturating_sub(sl.beat.load(SeqCst)) > lim
                    {
                        let f = &fams[sl.fam.load(SeqCst) as usize];
                        let i = sl.idx.load(SeqCst);
                        let msg = format!("case {i} of family {} did not finish a step within {lim} ms: a library call does not return", f.name);
                        let p = report(&check, &root, &f.name, i, &msg, tier);
                        println!("{msg}");
                        println!("VIOLATION property={} replay={p}", check.id);
                        let _ = std::io::stdout().flush();
                        std::process::exit(1);
                    }
                }
            }
        });
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (fams, work, next, best, stop, slots, total, journal, fam_ms) = (
                    &fams, &work, &next, &best, &stop, &slots, &total, &journal, &fam_ms,
                );
                thread::Builder::new()
                    // what a thread of a user has
                    .stack_size(2 << 20)
                    .spawn_scoped(s, move || {
                        let sl = &slots[t];
                        let mut out = Out {
                            beat: Some(sl.beat.clone()),
                            ..Out::default()
                        };
                        let mut per = vec![0u64; fams.len()];
                        loop {
                            if stop.load(SeqCst) {
                                break;
                            }
                            let w = next.fetch_add(1, SeqCst) as usize;
                            if w >= work.len() {
                                break;
                            }
                            let (fi, a, b) = work[w];
                            let t0 = now_ms();
                            sl.fam.store(fi as u64, SeqCst);
                            for i in a..b {
                                sl.beat.store(now_ms(), SeqCst);
                                sl.idx.store(i, SeqCst);
                                sl.busy.store(true, SeqCst);
                                if let Some(j) = journal {
                                    let rec = format!("{:>6} {:>20}\n", fi, i);
                                    let _ = j.write_all_at(rec.as_bytes(), 28 * t as u64);
                                }
                                let r = run_case(&fams[fi], i, &mut out);
                                sl.busy.store(false, SeqCst);
                                per[fi] += 1;
                                if let Err(m) = r {
                                    let mut g = best.lock().unwrap();
                                    let better = match &*g {
                                        None => true,
                                        Some((bf, bi, _)) => (fi, i) < (*bf, *bi),
                                    };
                                    if better {
                                        *g = Some((fi, i, m));
                                    }
                                    stop.store(true, SeqCst);
                                    break;
                                }
                                if stop.load(SeqCst) {
                                    // finish earlier work only
                                    let g = best.lock().unwrap();
                                    if let Some((bf, bi, _)) = &*g {
                                        if (fi, i) > (*bf, *bi) {
                                            break;
                                        }
                                    }
                                }
                            }
                            fam_ms[fi].fetch_add(now_ms() - t0, SeqCst);
                        }
                        total.lock().unwrap().push((per, out));
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
        done.store(true, SeqCst);
    });

    let mut sum = Out::default();
    let mut per = vec![0u64; fams.len()];
    let mut sample_pool = vec![];
    for (p, o) in total.into_inner().unwrap() {
        for (a, b) in per.iter_mut().zip(p) {
            *a += b;
        }
        sum.evals += o.evals;
        sum.nontrivial += o.nontrivial;
        sum.states += o.states;
        sum.transitions += o.transitions;
        sum.traces += o.traces;
        sum.max_depth = sum.max_depth.max(o.max_depth);
        sum.state_set.extend(o.state_set);
        for h in o.outcomes {
            if sum.outcomes.len() < OUTCOME_CAP {
                sum.outcomes.insert(h);
            }
        }
        sample_pool.extend(o.samples);
    }
    sum.states += sum.state_set.len() as u64;
    sample_pool.sort();
    sample_pool.dedup();
    sample_pool.truncate(6);

    let violation = best.into_inner().unwrap();
    let mut cov = String::new();
    match check.level {
        Level::ModelChecking => {
            let _ = write!(
                cov,
                "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"max_depth\": {}, \"executions\": {}, \"rule\": {}",
                sum.states, sum.transitions, sum.traces, sum.max_depth, sum.evals, json_str(check.rule)
            );
        }
        Level::Exploration => {
            let _ = write!(
                cov,
                "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}",
                sum.evals,
                sum.nontrivial,
                json_str(check.rule)
            );
        }
    }
    let _ = write!(
        cov,
        ", \"distinct_outcomes_at_least\": {}, \"exhaustive\": {}, \"families\": [",
        sum.outcomes.len(),
        violation.is_none()
    );
    for (i, f) in fams.iter().enumerate() {
        let _ = write!(
            cov,
            "{}{{\"name\": {}, \"cases\": {}, \"of\": {}, \"cpu_ms\": {}}}",
            if i > 0 { ", " } else { "" },
            json_str(&f.name),
            per[i],
            f.n,
            fam_ms[i].load(SeqCst)
        );
    }
    cov.push_str("], \"samples\": [");
    for (i, s) in sample_pool.iter().enumerate() {
        let _ = write!(cov, "{}{}", if i > 0 { ", " } else { "" }, json_str(s));
    }
    cov.push(']');
    let wall = start().elapsed().as_secs_f64();
    let mut ev = String::new();
    let _ = write!(
        ev,
        "{{\"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"{}\", \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
        json_str(check.id),
        if tier == Tier::Quick { "quick" } else { "thorough" },
        seed,
        match check.level {
            Level::ModelChecking => "model_checking",
            Level::Exploration => "exploration",
        },
        cov,
        check
            .assumptions
            .iter()
            .map(|a| json_str(a))
            .collect::<Vec<_>>()
            .join(", "),
        wall,
        u8::from(violation.is_some())
    );
    let file = get("--evidence").unwrap_or_else(|| {
        let _ = fs::create_dir_all(format!("{root}/evidence"));
        format!("{root}/evidence/{}.json", check.id)
    });
    fs::write(file, ev).expect("write evidence");

    println!(
        "{} {:?} ({BUILD}): {} executions, {} non-trivial, {} states, {} transitions, {} outcomes, {:.1} s",
        check.id,
        tier,
        sum.evals,
        sum.nontrivial,
        sum.states,
        sum.transitions,
        sum.outcomes.len(),
        wall
    );
    if std::env::var("MC_VERBOSE").is_ok() {
        for (i, f) in fams.iter().enumerate() {
            println!(
                "  {:<48} {:>10}/{:<10} {:>8} ms",
                f.name,
                per[i],
                f.n,
                fam_ms[i].load(SeqCst)
            );
        }
    }
    if let Some((fi, i, m)) = violation {
        // Run the case once more on its own: the same case must fail again.
        let mut o = Out::default();
        let again = run_case(&fams[fi], i, &mut o);
        let note = match &again {
            Err(m2) if *m2 == m => "reproduced: yes".to_string(),
            Err(m2) => format!("reproduced: yes, differently: {m2}"),
            Ok(()) => "reproduced: no (the failure depends on what ran before in this process)".into(),
        };
        let msg = format!("{m}\n\n{note}");
        let p = report(&check, &root, &fams[fi].name, i, &msg, tier);
        println!("family {} case {i}\n{msg}", fams[fi].name);
        println!("VIOLATION property={} replay={p}", check.id);
        std::process::exit(1);
    }
    std::process::exit(0)
}
