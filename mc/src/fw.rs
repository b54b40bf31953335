//! Exhaustive exploration framework: phases of numbered cases, run by a pool of
//! worker threads, every case executed against the real library.

use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::Hasher;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Outcome of a single case.
pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

/// Per-worker recording context.
pub struct Ctx {
    pub transitions: u64,
    pub states: HashSet<u64>,
    pub evals: u64,
    pub verbose: bool,
}

impl Ctx {
    pub fn new(verbose: bool) -> Ctx {
        Ctx { transitions: 0, states: HashSet::new(), evals: 0, verbose }
    }
    /// Record an observed state.
    #[inline]
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    /// Record library operations executed.
    #[inline]
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    /// Record oracle comparisons made.
    #[inline]
    pub fn eval(&mut self, n: u64) {
        self.evals += n;
    }
}

/// FNV style hasher used for state hashes.
pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Fnv {
        Fnv(0xcbf29ce484222325)
    }
    #[inline]
    pub fn u(&mut self, v: u64) -> &mut Self {
        let mut x = v.wrapping_mul(0x9E3779B97F4A7C15);
        x ^= x >> 29;
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x100000001b3);
        self.0 ^= self.0 >> 31;
        self
    }
    #[inline]
    pub fn f(&mut self, v: f32) -> &mut Self {
        self.u(v.to_bits() as u64)
    }
    #[inline]
    pub fn b(&mut self, v: bool) -> &mut Self {
        self.u(v as u64 + 1)
    }
    pub fn done(&self) -> u64 {
        self.0
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.u(*b as u64);
        }
    }
}

pub struct Phase {
    pub name: String,
    pub n: u64,
    pub f: Box<dyn Fn(u64, &mut Ctx) -> R + Sync + Send>,
    pub d: Box<dyn Fn(u64) -> String + Sync + Send>,
}

pub fn phase(
    name: &str,
    n: u64,
    d: impl Fn(u64) -> String + Sync + Send + 'static,
    f: impl Fn(u64, &mut Ctx) -> R + Sync + Send + 'static,
) -> Phase {
    Phase { name: name.to_string(), n, f: Box::new(f), d: Box::new(d) }
}

pub struct Check {
    pub id: &'static str,
    pub bounds: String,
    pub assumptions: Vec<String>,
    pub phases: Vec<Phase>,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Development aid: with MC_SURVEY=<file> failing cases are listed there instead of stopping the
/// run, which then never ends with a verdict.
pub fn survey() -> Option<String> {
    std::env::var("MC_SURVEY").ok()
}

fn run_case(ph: &Phase, i: u64, ctx: &mut Ctx) -> R {
    let r = run_one(ph, i, ctx);
    if let (Err(e), Some(f)) = (&r, survey()) {
        use std::io::Write;
        let mut o = std::fs::OpenOptions::new().create(true).append(true).open(f).unwrap();
        o.write_all(format!("{}\t{}\t{}\t{}\n", ph.name, i, e, (ph.d)(i)).as_bytes()).unwrap();
        return Ok(());
    }
    r
}

fn run_one(ph: &Phase, i: u64, ctx: &mut Ctx) -> R {
    match catch_unwind(AssertUnwindSafe(|| (ph.f)(i, ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC_MSG.with(|p| p.borrow().clone());
            Err(format!("panicked: {}", m))
        }
    }
}

/// True when `f` panics.
#[allow(dead_code)]
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

fn rss_kb() -> u64 {
    if let Ok(s) = std::fs::read_to_string("/proc/self/statm") {
        if let Some(r) = s.split_whitespace().nth(1) {
            return r.parse::<u64>().unwrap_or(0) * 4;
        }
    }
    0
}

fn json_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

struct Slot {
    phase: AtomicU64,
    case: AtomicU64,
    since_ms: AtomicU64,
}

pub fn run(check: Check, verif_dir: &str) -> i32 {
    install_hook();
    if survey().is_some() {
        println!("survey mode: no verdict");
    }
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let wall_cap = Duration::from_secs(
        std::env::var("MC_WALL_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 800 } else { 10000 }),
    );
    let case_cap_ms: u64 = std::env::var("MC_CASE_CAP_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(60_000);
    let t0 = Instant::now();
    let known = load_known(verif_dir, check.id);
    let nthreads: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);

    let mut total_states: HashSet<u64> = HashSet::new();
    let mut transitions = 0u64;
    let mut evals = 0u64;
    let mut traces = 0u64;
    let mut phase_json = Vec::new();
    let mut samples = Vec::new();
    let mut violation: Option<(String, u64, String)> = None;
    let mut known_seen: Vec<String> = Vec::new();

    for (pi, ph) in check.phases.iter().enumerate() {
        if violation.is_some() {
            break;
        }
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done_workers = AtomicU64::new(0);
        // time the watchdog has been awake: a suspended process does not age its cases
        let clock = &AtomicU64::new(0);
        let viol: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let known_hits: Mutex<Vec<String>> = Mutex::new(Vec::new());
        let merged: Mutex<(HashSet<u64>, u64, u64, u64)> = Mutex::new((HashSet::new(), 0, 0, 0));
        let slots: Vec<Slot> = (0..nthreads)
            .map(|_| Slot { phase: AtomicU64::new(0), case: AtomicU64::new(u64::MAX), since_ms: AtomicU64::new(0) })
            .collect();
        let chunk = (ph.n / (nthreads as u64 * 64)).clamp(1, 4096);
        let tph = Instant::now();
        std::thread::scope(|s| {
            for w in 0..nthreads {
                let (next, stop, done_workers, viol, merged, slots, known, known_hits) =
                    (&next, &stop, &done_workers, &viol, &merged, &slots, &known, &known_hits);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut ctx = Ctx::new(false);
                        let mut cases = 0u64;
                        'outer: loop {
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= ph.n {
                                break;
                            }
                            for i in a..(a + chunk).min(ph.n) {
                                if stop.load(Ordering::Relaxed) {
                                    break 'outer;
                                }
                                slots[w].phase.store(pi as u64, Ordering::Relaxed);
                                slots[w].since_ms.store(clock.load(Ordering::Relaxed), Ordering::Relaxed);
                                slots[w].case.store(i, Ordering::SeqCst);
                                let r = run_case(ph, i, &mut ctx);
                                slots[w].case.store(u64::MAX, Ordering::SeqCst);
                                cases += 1;
                                if let Err(e) = r {
                                    if let Some(k) = known.iter().find(|k| e.contains(k.as_str())) {
                                        let mut kh = known_hits.lock().unwrap();
                                        if !kh.contains(k) {
                                            kh.push(k.clone());
                                        }
                                        continue;
                                    }
                                    let mut v = viol.lock().unwrap();
                                    if v.as_ref().map(|x| x.0 > i).unwrap_or(true) {
                                        *v = Some((i, e));
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        let mut m = merged.lock().unwrap();
                        m.0.extend(ctx.states.iter());
                        m.1 += ctx.transitions;
                        m.2 += ctx.evals;
                        m.3 += cases;
                        done_workers.fetch_add(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // watchdog
            let mut tick = 0u64;
            while done_workers.load(Ordering::SeqCst) < nthreads as u64 {
                let nap = if tph.elapsed().as_millis() < 200 { 1 } else { 20 };
                std::thread::sleep(Duration::from_millis(nap));
                clock.fetch_add(nap, Ordering::Relaxed);
                tick += 1;
                if tick % 10 != 0 {
                    continue;
                }
                let now = clock.load(Ordering::Relaxed);
                for sl in &slots {
                    let c = sl.case.load(Ordering::SeqCst);
                    if c != u64::MAX && now.saturating_sub(sl.since_ms.load(Ordering::Relaxed)) > case_cap_ms {
                        // re-check it is still the same case
                        std::thread::sleep(Duration::from_millis(50));
                        if sl.case.load(Ordering::SeqCst) != c {
                            continue;
                        }
                        let msg = format!("a call did not return within {} ms", case_cap_ms);
                        let p = write_replay(verif_dir, check.id, &ph.name, c, &msg, &(ph.d)(c));
                        println!("{}: {}", check.id, msg);
                        println!("VIOLATION property={} replay={}", check.id, p);
                        std::process::exit(1);
                    }
                }
                if t0.elapsed() > wall_cap {
                    eprintln!("{}: wall cap exceeded in phase {} at case {}", check.id, ph.name, next.load(Ordering::Relaxed));
                    std::process::exit(3);
                }
                if rss_kb() > 20 * 1024 * 1024 {
                    eprintln!("{}: memory cap exceeded", check.id);
                    std::process::exit(3);
                }
            }
        });
        let m = merged.into_inner().unwrap();
        let ps = m.0.len();
        total_states.extend(m.0.iter());
        transitions += m.1;
        evals += m.2;
        traces += m.3;
        for k in known_hits.into_inner().unwrap() {
            if !known_seen.contains(&k) {
                known_seen.push(k);
            }
        }
        phase_json.push(format!(
            "{{\"phase\":{},\"cases\":{},\"executed\":{},\"distinct_states\":{},\"operations\":{},\"oracle_comparisons\":{},\"wall_s\":{:.3}}}",
            json_str(&ph.name), ph.n, m.3, ps, m.1, m.2, tph.elapsed().as_secs_f64()
        ));
        let mut idx: Vec<u64> = vec![ph.n / 3, ph.n.saturating_sub(1)];
        idx.dedup();
        for i in idx {
            if ph.n > 0 && samples.len() < 24 {
                let mut txt = (ph.d)(i);
                if txt.len() > 600 {
                    let mut e = 600;
                    while !txt.is_char_boundary(e) {
                        e -= 1;
                    }
                    txt.truncate(e);
                    txt.push_str("...");
                }
                samples.push(json_str(&format!("{}#{}: {}", ph.name, i, txt)));
            }
        }
        if std::env::var("MC_PROGRESS").is_ok() {
            eprintln!("{} {}: {} cases, {} states, {} ops, {} evals, {:.2}s", check.id, ph.name, ph.n, ps, m.1, m.2, tph.elapsed().as_secs_f64());
        }
        if let Some((i, e)) = viol.into_inner().unwrap() {
            violation = Some((ph.name.clone(), i, e));
            if let Some((n, i, e)) = &violation {
                let desc = (ph.d)(*i);
                let p = write_replay(verif_dir, check.id, n, *i, e, &desc);
                println!("{}: phase {} case {}: {}", check.id, n, i, e);
                println!("{}: input: {}", check.id, desc);
                println!("VIOLATION property={} replay={}", check.id, p);
            }
        }
    }
    for k in &known_seen {
        println!("KNOWN-FINDING: property={} {}", check.id, k);
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"oracle_comparisons\": {},\n  \"exhaustive\": {},\n  \"bounds\": {},\n  \"rule\": {},\n  \"phases\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.3}\n}}\n",
        json_str(check.id), json_str(tier), seed, total_states.len(), transitions, traces, evals,
        violation.is_none(), json_str(&check.bounds),
        json_str("every case of every phase is enumerated and executed on the library built from /repo; states are distinct hashes of observed library state or result, transitions are library operations executed, traces are enumerated behaviours replayed on the implementation with the reference model compared after each operation"),
        phase_json.join(",\n   "), samples.join(",\n   "),
        check.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", "),
        violation.is_some() as u32, wall
    );
    let dir = format!("{}/evidence", verif_dir);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, check.id), ev) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    if violation.is_some() {
        1
    } else {
        println!(
            "{}: held on {} behaviours, {} states, {} operations, {} comparisons in {:.1}s",
            check.id, traces, total_states.len(), transitions, evals, wall
        );
        0
    }
}

fn write_replay(dir: &str, id: &str, phase: &str, i: u64, err: &str, desc: &str) -> String {
    let d = format!("{}/out", dir);
    let _ = std::fs::create_dir_all(&d);
    let p = format!("{}/{}-{}-{}.txt", d, id, phase.replace(' ', "_"), i);
    let _ = std::fs::write(
        &p,
        format!(
            "property: {}\nphase: {}\ncase: {}\nviolation: {}\ninput: {}\nreplay: cd /verif && bash tools/check.sh {} --replay \"{}\" {}\n",
            id, phase, i, err, desc, id, phase, i
        ),
    );
    p
}

/// Lines `known: property=<id> <text>` in known_findings.txt; a violation whose message
/// contains <text> is that finding.
fn load_known(dir: &str, id: &str) -> Vec<String> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", dir)) {
        let pre = format!("known: property={} ", id);
        for l in s.lines() {
            if let Some(t) = l.strip_prefix(&pre) {
                v.push(t.trim().to_string());
            }
        }
    }
    v
}

pub fn replay(check: Check, phase: &str, i: u64) -> i32 {
    if std::env::var("RUST_BACKTRACE").is_err() {
        install_hook();
    }
    for ph in &check.phases {
        if ph.name == phase {
            println!("input: {}", (ph.d)(i));
            let mut ctx = Ctx::new(true);
            match run_case(ph, i, &mut ctx) {
                Ok(()) => {
                    println!("no violation");
                    return 0;
                }
                Err(e) => {
                    println!("violation: {}", e);
                    return 1;
                }
            }
        }
    }
    println!("unknown phase");
    2
}

/// Mixed radix decoder for case indices.
pub struct Dec(pub u64);
impl Dec {
    #[inline]
    pub fn d(&mut self, n: usize) -> usize {
        let r = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        r
    }
    pub fn p<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.d(v.len())]
    }
    pub fn r<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.d(v.len())]
    }
    pub fn b(&mut self) -> bool {
        self.d(2) == 1
    }
    pub fn new(i: u64) -> Dec {
        Dec(i)
    }
}

/// Number of sequences of length 1..=depth over an alphabet of size a.
pub fn seq_count(a: usize, depth: usize) -> u64 {
    (a as u64).pow(depth as u32)
}

pub fn decode_seq(mut i: u64, a: usize, depth: usize) -> Vec<usize> {
    let mut v = vec![0; depth];
    for k in (0..depth).rev() {
        v[k] = (i % a as u64) as usize;
        i /= a as u64;
    }
    v
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
