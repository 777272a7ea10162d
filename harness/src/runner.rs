//! Runs cases on all cores, watches for violations, crashes and hangs, and reports what was seen.
//!
//! Verdicts are three-valued: a violation (with the case that shows it), no violation on what was
//! observed, or inconclusive (left to the driver, which replays the case alone).
use crate::rng::{combine, hash_bytes, Rng};
use crate::Violation;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What one case may use
pub struct Ctx {
    pub rng: Rng,
    pub seed: u64,
    pub thorough: bool,
    /// Index of the case within its scenario
    pub index: usize,
    pub stats: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub sets: BTreeMap<&'static str, HashSet<u64>>,
    /// Hashes of the distinct non-trivial cases this one stands for
    pub fingerprints: Vec<u64>,
    pub notes: Vec<String>,
    pub sample: String,
    pub evals: u64,
}

impl Ctx {
    fn new(seed: u64, thorough: bool, index: usize) -> Self {
        Ctx {
            rng: Rng::new(seed),
            seed,
            thorough,
            index,
            stats: BTreeMap::new(),
            maxima: BTreeMap::new(),
            sets: BTreeMap::new(),
            fingerprints: vec![],
            notes: vec![],
            sample: String::new(),
            evals: 0,
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn distinct(&mut self, k: &'static str, h: u64) {
        self.sets.entry(k).or_default().insert(h);
    }
    /// One step of the history, for the replay file
    pub fn note(&mut self, s: String) {
        if self.notes.len() > 400 {
            self.notes.drain(..200);
        }
        self.notes.push(s);
    }
}

pub type CaseFn = fn(&mut Ctx);

#[derive(Clone)]
pub struct Scenario {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: CaseFn,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub scenarios: Vec<Scenario>,
    /// Observation counters that must be at least this large for a run to count
    pub required: &'static [(&'static str, u64)],
}

pub fn sc(name: &'static str, quick: usize, thorough: usize, f: CaseFn) -> Scenario {
    Scenario {
        name,
        quick,
        thorough,
        f,
    }
}

#[derive(Default)]
struct Total {
    cases: u64,
    evals: u64,
    stats: BTreeMap<&'static str, u64>,
    maxima: BTreeMap<&'static str, u64>,
    sets: BTreeMap<&'static str, HashSet<u64>>,
    fingerprints: HashSet<u64>,
    samples: Vec<String>,
    per_scenario: BTreeMap<&'static str, u64>,
}

pub struct Failure {
    pub scenario: String,
    pub seed: u64,
    pub index: usize,
    pub message: String,
    pub notes: Vec<String>,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("panic at {loc}: {msg}")
            }
        });
    }));
}

/// Text of the last panic on this thread
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs one case; Err is a violation
pub fn run_case(f: CaseFn, ctx: &mut Ctx) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| f(ctx))) {
        Ok(()) => Ok(()),
        Err(p) => {
            if let Some(v) = p.downcast_ref::<Violation>() {
                Err(v.0.clone())
            } else {
                let m = last_panic();
                if m.contains("harness:") {
                    eprintln!("HARNESS ERROR {m}");
                    std::process::exit(3);
                }
                Err(format!("unexpected {m}"))
            }
        }
    }
}

fn case_seed(seed: u64, prop: &str, scenario: &str, i: usize) -> u64 {
    combine(
        combine(seed, hash_bytes(prop.as_bytes())),
        combine(hash_bytes(scenario.as_bytes()), i as u64),
    )
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn jlist(v: &[String]) -> String {
    let v: Vec<_> = v.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    format!("[{}]", v.join(","))
}

fn thread_cpu() -> f64 {
    // SAFETY: plain libc call writing into a local
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter()
        .position(|a| a == k)
        .and_then(|i| args.get(i + 1).cloned())
}

/// Entry point of the check binaries.
/// `run PROP --seed N --tier T --out FILE --slots FILE --stop-after SECS`
/// `case PROP SCENARIO SEED INDEX TIER`
pub fn main(props: Vec<Property>) {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    let find = |id: &str| {
        props
            .iter()
            .find(|p| p.id == id)
            .unwrap_or_else(|| {
                eprintln!("HARNESS ERROR no such property {id}");
                std::process::exit(3)
            })
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("case") => {
            let p = find(&args[2]);
            let s = p
                .scenarios
                .iter()
                .find(|s| s.name == args[3])
                .expect("harness: unknown scenario");
            let mut ctx = Ctx::new(
                // "@N": the case of that index under run seed N
                match args[4].strip_prefix('@') {
                    Some(run) => case_seed(run.parse().unwrap(), &args[2], &args[3], args[5].parse().unwrap()),
                    None => args[4].parse().unwrap(),
                },
                args[6] == "thorough",
                args[5].parse().unwrap(),
            );
            match run_case(s.f, &mut ctx) {
                Ok(()) => println!("CASE-OK {} evals {}", ctx.sample, ctx.evals),
                Err(m) => {
                    for n in &ctx.notes {
                        println!("  {n}");
                    }
                    println!("{}", ctx.sample);
                    println!("CASE-VIOLATION {m}");
                    std::process::exit(1);
                }
            }
        }
        Some("run") => {
            let p = find(&args[2]);
            let seed: u64 = arg(&args, "--seed").unwrap().parse().unwrap();
            let thorough = arg(&args, "--tier").unwrap() == "thorough";
            let out = arg(&args, "--out").unwrap();
            let slots = arg(&args, "--slots").unwrap();
            let stop: f64 = arg(&args, "--stop-after").unwrap().parse().unwrap();
            let threads = arg(&args, "--threads")
                .map(|s| s.parse().unwrap())
                .unwrap_or(8);
            run(p, seed, thorough, &out, &slots, stop, threads);
        }
        _ => {
            eprintln!("HARNESS ERROR usage");
            std::process::exit(3)
        }
    }
}

fn run(
    p: &Property,
    seed: u64,
    thorough: bool,
    out: &str,
    slots: &str,
    stop: f64,
    threads: usize,
) {
    let start = Instant::now();
    // A further build of the same program runs a part of the cases, drawn from another seed
    let share: usize = std::env::var("HARNESS_SHARE").map_or(1, |s| s.parse().expect("harness: share"));
    let seed = if share > 1 { seed ^ 0x5eed_0000_0000 } else { seed };
    let count = |si: usize| {
        let s = &p.scenarios[si];
        (if thorough { s.thorough } else { s.quick }).div_ceil(share)
    };
    // All cases, interleaved so that every scenario is served when time runs out
    let mut jobs: Vec<(usize, usize)> = vec![];
    for si in 0..p.scenarios.len() {
        jobs.extend((0..count(si)).map(|i| (si, i)));
    }
    jobs.sort_by(|a, b| {
        let fa = a.1 as f64 / count(a.0) as f64;
        let fb = b.1 as f64 / count(b.0) as f64;
        fa.partial_cmp(&fb).unwrap()
    });
    let planned = jobs.len();
    let jobs = Arc::new(jobs);
    let next = Arc::new(AtomicUsize::new(0));
    let failed = Arc::new(AtomicBool::new(false));
    let total = Arc::new(Mutex::new(Total::default()));
    let failure: Arc<Mutex<Option<Failure>>> = Arc::default();
    let slot_file = std::fs::OpenOptions::new()
        .create(true)
        .truncate(true)
        .write(true)
        .open(slots)
        .expect("harness: slots");
    let scenarios = Arc::new(p.scenarios.clone());
    let watch: Arc<Vec<Watch>> = Arc::new((0..threads).map(|_| Watch::default()).collect());
    let mut handles = vec![];
    for th in 0..threads {
        let (jobs, next, failed, total, failure, scenarios) = (
            jobs.clone(),
            next.clone(),
            failed.clone(),
            total.clone(),
            failure.clone(),
            scenarios.clone(),
        );
        let slot_file = slot_file.try_clone().unwrap();
        let watch = watch.clone();
        let prop = p.id;
        handles.push(
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    use std::os::unix::fs::FileExt;
                    let watch = &watch[th];
                    watch.clock.store(cpu_clock(), Ordering::SeqCst);
                    loop {
                        if failed.load(Ordering::Relaxed)
                            || start.elapsed() > Duration::from_secs_f64(stop)
                        {
                            break;
                        }
                        let j = next.fetch_add(1, Ordering::Relaxed);
                        let Some(&(si, i)) = jobs.get(j) else { break };
                        let s = &scenarios[si];
                        let cs = case_seed(seed, prop, s.name, i);
                        // What runs here, for the driver in case the process dies
                        let line = format!("{:<127}\n", format!("{} {} {}", s.name, cs, i));
                        let _ = slot_file.write_all_at(line.as_bytes(), th as u64 * 128);
                        let mut ctx = Ctx::new(cs, thorough, i);
                        let t0 = thread_cpu();
                        watch.job.store(j, Ordering::SeqCst);
                        watch.start.store((t0 * 1e3) as usize, Ordering::SeqCst);
                        watch.busy.store(true, Ordering::SeqCst);
                        let r = run_case(s.f, &mut ctx);
                        watch.busy.store(false, Ordering::SeqCst);
                        let dt = thread_cpu() - t0;
                        let mut t = total.lock().unwrap();
                        t.cases += 1;
                        t.evals += ctx.evals;
                        *t.per_scenario.entry(s.name).or_insert(0) += 1;
                        for (k, v) in &ctx.stats {
                            *t.stats.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in &ctx.maxima {
                            let e = t.maxima.entry(k).or_insert(0);
                            *e = (*e).max(*v);
                        }
                        let e = t.maxima.entry("case_cpu_ms").or_insert(0);
                        *e = (*e).max((dt * 1000.0) as u64);
                        for (k, v) in std::mem::take(&mut ctx.sets) {
                            t.sets.entry(k).or_default().extend(v);
                        }
                        t.fingerprints.extend(&ctx.fingerprints);
                        if t.per_scenario[s.name] <= 2 && t.samples.len() < 24 {
                            let x = format!("{} #{} (seed {}): {}", s.name, i, cs, ctx.sample);
                            t.samples.push(x);
                        }
                        drop(t);
                        if let Err(m) = r {
                            failed.store(true, Ordering::Relaxed);
                            let mut f = failure.lock().unwrap();
                            if f.is_none() {
                                ctx.notes.push(ctx.sample.clone());
                                *f = Some(Failure {
                                    scenario: s.name.to_string(),
                                    seed: cs,
                                    index: i,
                                    message: m,
                                    notes: ctx.notes,
                                });
                            }
                        }
                        let line = format!("{:<127}\n", "-");
                        let _ = slot_file.write_all_at(line.as_bytes(), th as u64 * 128);
                    }
                })
                .expect("harness: thread"),
        );
    }
    // A case that keeps computing is left to the driver, which runs it alone
    let limit = if thorough { 400_000 } else { 60_000 };
    let mut hang = None;
    'wait: while handles.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        for w in watch.iter() {
            if w.busy.load(Ordering::SeqCst) && !failed.load(Ordering::SeqCst) {
                let now = clock_ms(w.clock.load(Ordering::SeqCst));
                let (job, t0) = (w.job.load(Ordering::SeqCst), w.start.load(Ordering::SeqCst));
                if now > t0 + limit && w.busy.load(Ordering::SeqCst) {
                    let (si, i) = jobs[job];
                    let s = &scenarios[si];
                    hang = Some((s.name, case_seed(seed, p.id, s.name, i), i, now - t0));
                    break 'wait;
                }
            }
        }
        // Somebody failed; do not wait for a case that hangs
        if failed.load(Ordering::SeqCst) {
            let t = Instant::now();
            while handles.iter().any(|h| !h.is_finished()) && t.elapsed().as_secs() < 20 {
                std::thread::sleep(Duration::from_millis(20));
            }
            break;
        }
    }
    for h in handles {
        if h.is_finished() {
            let _ = h.join();
        }
    }
    let t = total.lock().unwrap();
    let f = failure.lock().unwrap();
    let mut missing = vec![];
    for (k, min) in p.required {
        // What a part of the cases must have seen at least
        let min = &(if share == 1 { *min } else { *min / share as u64 / 4 });
        let have = t
            .stats
            .get(k)
            .or_else(|| t.maxima.get(k))
            .copied()
            .or_else(|| t.sets.get(k).map(|s| s.len() as u64))
            .unwrap_or(0);
        if have < *min {
            missing.push(format!("{k}: {have} < {min}"));
        }
    }
    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"cases\":{},\"planned\":{},\"evals\":{},\"distinct\":{},\"rule\":\"{}\",\"wall\":{:.3}",
        t.cases,
        planned,
        t.evals,
        t.fingerprints.len(),
        esc(p.rule),
        start.elapsed().as_secs_f64()
    );
    let m = |m: &BTreeMap<&'static str, u64>| {
        let v: Vec<_> = m.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
        format!("{{{}}}", v.join(","))
    };
    let sets: BTreeMap<&'static str, u64> =
        t.sets.iter().map(|(k, v)| (*k, v.len() as u64)).collect();
    let _ = write!(
        o,
        ",\"scenarios\":{},\"counters\":{},\"maxima\":{},\"distinct_sets\":{},\"samples\":{},\"missing\":{}",
        m(&t.per_scenario),
        m(&t.stats),
        m(&t.maxima),
        m(&sets),
        jlist(&t.samples),
        jlist(&missing)
    );
    match &*f {
        Some(f) => {
            let _ = write!(
                o,
                ",\"violation\":{{\"scenario\":\"{}\",\"case_seed\":{},\"index\":{},\"message\":\"{}\",\"history\":{}}}",
                esc(&f.scenario),
                f.seed,
                f.index,
                esc(&f.message),
                jlist(&f.notes)
            );
        }
        None => o.push_str(",\"violation\":null"),
    }
    match hang {
        Some((name, cs, i, ms)) => {
            let _ = write!(
                o,
                ",\"hang\":{{\"scenario\":\"{name}\",\"case_seed\":{cs},\"index\":{i},\"cpu_ms\":{ms}}}"
            );
        }
        None => o.push_str(",\"hang\":null"),
    }
    o.push_str("}\n");
    let mut file = std::fs::File::create(out).expect("harness: out");
    file.write_all(o.as_bytes()).expect("harness: out");
    drop(file);
    // Threads of a hanging case do not end by themselves
    std::process::exit(if hang.is_some() { 4 } else { 0 });
}

/// What a worker is doing, for the watchdog
#[derive(Default)]
struct Watch {
    clock: std::sync::atomic::AtomicI32,
    busy: AtomicBool,
    job: AtomicUsize,
    start: AtomicUsize,
}

fn cpu_clock() -> i32 {
    let mut c: libc::clockid_t = 0;
    // SAFETY: the calling thread exists
    unsafe {
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut c);
    }
    c
}

/// CPU time of a thread; 0 if it has ended
fn clock_ms(clock: i32) -> usize {
    // SAFETY: plain libc call writing into a local
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut t) != 0 {
            return 0;
        }
        t.tv_sec as usize * 1000 + t.tv_nsec as usize / 1_000_000
    }
}
