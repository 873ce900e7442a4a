//! Running cases, collecting what was observed, reporting violations and evidence.
use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A case that broke the property: what happened, and the input in full where that is reasonable.
pub struct Fail {
    pub msg: String,
    pub input: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(msg: impl Into<String>, input: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), input: input.into() })
}

#[derive(Default)]
pub struct Local {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// known findings that were reproduced: key -> text
    pub known: BTreeMap<String, String>,
}

impl Local {
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(format!("max_{k}")).or_insert(0);
        *e = (*e).max(n);
    }
    /// one more distinct, non-trivial case
    pub fn hit(&mut self, h: u64) {
        self.nontrivial.insert(h);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(s());
        }
    }
}

pub struct Case<'a> {
    pub idx: u64,
    pub n: u64,
    pub rng: Rng,
    pub tier: Tier,
    pub local: &'a mut Local,
    pub ctx: &'a Ctx,
}

impl Case<'_> {
    pub fn count(&mut self, k: &str) {
        self.local.count(k);
    }
    /// Attribute a failure to a finding listed in known_findings.txt; anything not listed stays a failure.
    pub fn known(&mut self, key: &str, msg: impl Into<String>, input: impl Into<String>) -> Res {
        let m = msg.into();
        if self.ctx.known.iter().any(|(p, k, _)| *p == self.ctx.id && k == key) {
            self.local.known.insert(key.to_string(), m);
            Ok(())
        } else {
            fail(m, input)
        }
    }
}

pub struct Phase {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    pub f: fn(&mut Case) -> Res,
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub tier: Tier,
    pub known: Vec<(String, String, String)>,
    pub verif: String,
    pub bin: String,
    pub scratch: String,
    pub started: Instant,
}

pub struct Violation {
    pub phase: String,
    pub idx: u64,
    pub msg: String,
    pub input: String,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m: String = m.chars().take(300).collect();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
}

/// Run code of the system under test; Err carries the panic message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

// --- progress shared with the supervising parent process -------------------------------------------
pub const SLOTS: usize = 64;
pub struct Journal(*mut AtomicU64);
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}
pub static mut JOURNAL: *mut AtomicU64 = std::ptr::null_mut();
pub fn journal_set(slot: usize, v: u64) {
    unsafe {
        if !JOURNAL.is_null() && slot < SLOTS {
            (*JOURNAL.add(slot)).store(v, Ordering::SeqCst);
        }
    }
}
pub fn journal_get(slot: usize) -> u64 {
    unsafe {
        if JOURNAL.is_null() {
            0
        } else {
            (*JOURNAL.add(slot)).load(Ordering::SeqCst)
        }
    }
}

pub fn thread_cpu(clock: libc::clockid_t) -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut ts) != 0 {
            return 0.0;
        }
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

pub fn my_cpu_clock() -> libc::clockid_t {
    unsafe {
        let mut c: libc::clockid_t = 0;
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut c);
        c
    }
}

/// CPU seconds one case may take before the run is declared not to terminate. Ordinary cases need at most a few.
pub const CASE_CPU_LIMIT: f64 = 120.0;

pub fn case_rng(seed: u64, id: &str, phase: &str, idx: u64) -> Rng {
    Rng::new(mix(seed ^ mix(hash_str(id)) ^ mix(hash_str(phase)).rotate_left(17) ^ mix(idx.wrapping_mul(0x9E37))))
}

pub fn run_one(ctx: &Ctx, ph: &Phase, n: u64, idx: u64, local: &mut Local) -> Option<Violation> {
    let rng = case_rng(ctx.seed, &ctx.id, ph.name, idx);
    local.evals += 1;
    let r = {
        let mut case = Case { idx, n, rng, tier: ctx.tier, local, ctx };
        guard(|| (ph.f)(&mut case))
    };
    match r {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(Violation { phase: ph.name.into(), idx, msg: f.msg, input: f.input }),
        Err(p) => {
            if p.contains("HARNESS:") {
                eprintln!("harness error in {} case {}: {}", ph.name, idx, p);
                std::process::exit(2);
            }
            Some(Violation { phase: ph.name.into(), idx, msg: format!("panic: {p}"), input: String::new() })
        }
    }
}

pub struct Outcome {
    pub local: Local,
    pub violations: Vec<Violation>,
    pub truncated: bool,
}

pub fn run_phases(ctx: &Ctx, phases: &[Phase], threads: usize, budget_s: f64) -> Outcome {
    let agg = Mutex::new(Outcome { local: Local::default(), violations: vec![], truncated: false });
    let nslots = threads.min(SLOTS);
    // for trying changes out: every so manieth case only
    let stride: u64 = std::env::var("HARNESS_STRIDE").ok().and_then(|s| s.parse().ok()).unwrap_or(1).max(1);
    let clocks: Vec<AtomicU64> = (0..nslots).map(|_| AtomicU64::new(u64::MAX)).collect();
    let starts: Vec<AtomicU64> = (0..nslots).map(|_| AtomicU64::new(0)).collect();
    for (pi, ph) in phases.iter().enumerate() {
        let n = if ctx.tier == Tier::Quick { ph.quick } else { ph.thorough };
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let nt = if ph.threads == 0 { nslots } else { ph.threads.min(nslots) };
        let live = AtomicU64::new(nt as u64);
        std::thread::scope(|s| {
            for t in 0..nt {
                let (next, stop, agg, clocks, starts, live) = (&next, &stop, &agg, &clocks, &starts, &live);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let clk = my_cpu_clock();
                        let mut local = Local::default();
                        loop {
                            let idx = next.fetch_add(stride, Ordering::Relaxed);
                            if idx >= n || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if ctx.started.elapsed().as_secs_f64() > budget_s {
                                agg.lock().unwrap().truncated = true;
                                break;
                            }
                            starts[t].store((thread_cpu(clk) * 1e6) as u64, Ordering::Relaxed);
                            clocks[t].store(clk as u32 as u64, Ordering::Release);
                            journal_set(t, ((pi as u64 + 1) << 48) | idx);
                            let v = run_one(ctx, ph, n, idx, &mut local);
                            clocks[t].store(u64::MAX, Ordering::Release);
                            journal_set(t, 0);
                            if let Some(v) = v {
                                let mut a = agg.lock().unwrap();
                                a.violations.push(v);
                                if a.violations.len() >= 12 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        let mut a = agg.lock().unwrap();
                        a.local.evals += local.evals;
                        a.local.nontrivial.extend(local.nontrivial);
                        for (k, v) in local.counters {
                            let e = a.local.counters.entry(k.clone()).or_insert(0);
                            if k.starts_with("max_") {
                                *e = (*e).max(v);
                            } else {
                                *e += v;
                            }
                        }
                        if a.local.samples.len() < 6 {
                            a.local.samples.extend(local.samples.into_iter().map(|s| format!("[{}] {s}", ph.name)).take(1));
                        }
                        a.local.known.extend(local.known);
                        drop(a);
                        live.fetch_sub(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // watch for a case that does not terminate
            let (clocks, starts, live) = (&clocks, &starts, &live);
            s.spawn(move || {
                let mut seen: Vec<(u64, f64)> = vec![(0, 0.0); nt];
                while live.load(Ordering::SeqCst) > 0 {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    for t in 0..nt {
                        let c = clocks[t].load(Ordering::Acquire);
                        if c == u64::MAX {
                            continue;
                        }
                        let st = starts[t].load(Ordering::Relaxed);
                        if seen[t].0 != st {
                            seen[t] = (st, 0.0);
                        }
                        let now = thread_cpu(c as u32 as i32);
                        if now - st as f64 * 1e-6 > CASE_CPU_LIMIT
                            && clocks[t].load(Ordering::Acquire) == c
                            && starts[t].load(Ordering::Relaxed) == st
                        {
                            journal_set(SLOTS - 1, journal_get(t));
                            unsafe { libc::_exit(77) }
                        }
                    }
                }
            });
        });
        let a = agg.lock().unwrap();
        if a.violations.len() >= 12 || a.truncated {
            break;
        }
    }
    agg.into_inner().unwrap()
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_replay(ctx: &Ctx, k: usize, v: &Violation) -> String {
    let dir = format!("{}/replays", ctx.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}-{}.json", ctx.id, std::process::id(), k);
    let body = format!(
        "{{\"property\":{},\"seed\":{},\"tier\":{},\"phase\":{},\"case\":{},\"message\":{},\"input\":{}}}\n",
        json_str(&ctx.id),
        ctx.seed,
        json_str(if ctx.tier == Tier::Quick { "quick" } else { "thorough" }),
        json_str(&v.phase),
        v.idx,
        json_str(&v.msg),
        json_str(&v.input)
    );
    let _ = std::fs::write(&path, body);
    path
}

pub struct Meta {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn write_evidence(ctx: &Ctx, meta: &Meta, o: &Outcome, extra: &[(String, String)]) {
    let dir = format!("{}/evidence", ctx.verif);
    let _ = std::fs::create_dir_all(&dir);
    let mut cov = format!(
        "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}]",
        o.local.evals,
        o.local.nontrivial.len(),
        json_str(meta.rule),
        o.local.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
    );
    cov += ",\"observed\":{";
    cov += &o.local.counters.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",");
    cov += "}";
    if o.truncated {
        cov += ",\"stopped_early\":true";
    }
    if !o.local.known.is_empty() {
        cov += ",\"known_findings_reproduced\":[";
        cov += &o.local.known.keys().map(|k| json_str(k)).collect::<Vec<_>>().join(",");
        cov += "]";
    }
    for (k, v) in extra {
        cov += &format!(",{}:{}", json_str(k), v);
    }
    let body = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        json_str(&ctx.id),
        json_str(if ctx.tier == Tier::Quick { "quick" } else { "thorough" }),
        ctx.seed,
        json_str(meta.level),
        cov,
        meta.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
        ctx.started.elapsed().as_secs_f64(),
        o.violations.len()
    );
    std::fs::write(format!("{dir}/{}.json", ctx.id), body).expect("HARNESS: evidence");
}
